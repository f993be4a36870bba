//@ what: Value, Mapping, Number and TaggedValue can be read from any lifetime
//@ compiles
fn need<T: serde::de::DeserializeOwned>() {}
pub fn f() { need::<serde_yaml::Value>(); need::<serde_yaml::Mapping>(); need::<serde_yaml::Number>(); need::<serde_yaml::value::TaggedValue>(); need::<serde_yaml::Sequence>(); }
