//@ what: a deserializer made by from_slice is kept longer than its text
//@ codes: E0597 E0505 E0515
use serde::Deserialize;
use serde_yaml::{Deserializer, Value};

#[cfg(bad)]
pub fn f(text: Vec<u8>) -> bool { let de = Deserializer::from_slice(&text); drop(text); Value::deserialize(de).is_ok() }

#[cfg(not(bad))]
pub fn f(text: Vec<u8>) -> bool { let de = Deserializer::from_slice(&text); let r = Value::deserialize(de).is_ok(); drop(text); r }
