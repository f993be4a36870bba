//@ what: what index lends is kept while the value is changed
//@ codes: E0502 E0505 E0506
use serde_yaml::{Mapping, Value};
pub fn k<T>(_: T) {}
pub type M = Mapping;

#[cfg(bad)]
pub fn f(mut v: Value) { let s: &Value = &v["a"]; v = Value::Null; k(s); k(v); }

#[cfg(not(bad))]
pub fn f(mut v: Value) { let s: &Value = &v["a"]; k(s); v = Value::Null; k(v); }
