//@ what: borrowed and owned strings read from one text, the deserializer gone
//@ compiles
use serde::Deserialize;
pub fn f<'a>(text: &'a str) -> Option<(&'a str, String)> { let de = serde_yaml::Deserializer::from_str(text); <(&'a str, String)>::deserialize(de).ok() }
pub fn g<'a>(v: &'a serde_yaml::Value) -> Option<&'a str> { <&'a str>::deserialize(v).ok() }
