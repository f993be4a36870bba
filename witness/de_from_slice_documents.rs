//@ what: a document taken from a stream is kept longer than the text
//@ codes: E0597 E0505 E0515
use serde::Deserialize;
use serde_yaml::{Deserializer, Value};

#[cfg(bad)]
pub fn f(text: Vec<u8>) -> bool { let doc = Deserializer::from_slice(&text).next().unwrap(); drop(text); Value::deserialize(doc).is_ok() }

#[cfg(not(bad))]
pub fn f(text: Vec<u8>) -> bool { let doc = { let mut all = Deserializer::from_slice(&text); all.next().unwrap() }; let r = Value::deserialize(doc).is_ok(); drop(text); r }
