//@ what: a mapping is used while get_mut lends from it exclusively
//@ codes: E0499 E0502
use serde_yaml::{Mapping, Value};
pub fn k<T>(_: T) {}
pub type V = Value;

#[cfg(bad)]
pub fn f(m: &mut Mapping) { let a = m.get_mut("a"); let n = m.len(); k(a); k(n); }

#[cfg(not(bad))]
pub fn f(m: &mut Mapping) { let a = m.get_mut("a"); k(a); let n = m.len(); k(n); }
