//@ what: a deserializer made by from_str is kept longer than its text
//@ codes: E0597 E0505 E0515
use serde::Deserialize;
use serde_yaml::{Deserializer, Value};

#[cfg(bad)]
pub fn f(text: String) -> bool { let de = Deserializer::from_str(&text); drop(text); Value::deserialize(de).is_ok() }

#[cfg(not(bad))]
pub fn f(text: String) -> bool { let de = Deserializer::from_str(&text); let r = Value::deserialize(de).is_ok(); drop(text); r }
