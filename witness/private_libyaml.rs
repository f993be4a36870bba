//@ what: the low-level parser is reached outside the crate
//@ codes: E0603


#[cfg(bad)]
pub use serde_yaml::libyaml::parser::Parser;

#[cfg(not(bad))]
pub use serde_yaml::Deserializer;
