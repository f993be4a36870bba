//@ what: a deserializer is used again after it was consumed
//@ codes: E0382
use serde::Deserialize;
use serde_yaml::{Deserializer, Value};

#[cfg(bad)]
pub fn f(de: Deserializer) -> bool { Value::deserialize(de).is_ok() && Value::deserialize(de).is_ok() }

#[cfg(not(bad))]
pub fn f(de: Deserializer, e: Deserializer) -> bool { Value::deserialize(de).is_ok() && Value::deserialize(e).is_ok() }
