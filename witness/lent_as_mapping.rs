//@ what: what as_mapping lends is kept while the value is changed
//@ codes: E0502 E0505 E0506
use serde_yaml::{Mapping, Value};
pub fn k<T>(_: T) {}
pub type M = Mapping;

#[cfg(bad)]
pub fn f(mut v: Value) { let s: &Mapping = v.as_mapping().unwrap(); v = Value::Null; k(s); k(v); }

#[cfg(not(bad))]
pub fn f(mut v: Value) { let s: &Mapping = v.as_mapping().unwrap(); k(s); v = Value::Null; k(v); }
