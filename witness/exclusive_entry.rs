//@ what: a mapping is used while entry lends from it exclusively
//@ codes: E0499 E0502
use serde_yaml::{Mapping, Value};
pub fn k<T>(_: T) {}
pub type V = Value;

#[cfg(bad)]
pub fn f(m: &mut Mapping) { let a = Some(m.entry(Value::Null).or_insert(Value::Null)); let n = m.len(); k(a); k(n); }

#[cfg(not(bad))]
pub fn f(m: &mut Mapping) { let a = Some(m.entry(Value::Null).or_insert(Value::Null)); k(a); let n = m.len(); k(n); }
