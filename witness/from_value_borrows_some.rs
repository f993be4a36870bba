//@ what: a type that borrows for some lifetime is read from an owned value
//@ codes: any
//@ text: not general enough|higher-ranked lifetime error|lifetime may not live long enough
use serde_yaml::Value;

#[cfg(bad)]
pub fn f<'a>(v: Value) -> serde_yaml::Result<Vec<&'a str>> { serde_yaml::from_value(v) }

#[cfg(not(bad))]
pub fn f(v: Value) -> serde_yaml::Result<Vec<String>> { serde_yaml::from_value(v) }
