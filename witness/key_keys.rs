//@ what: a key of a mapping is changed in place through keys()
//@ codes: E0594
use serde_yaml::{Mapping, Value};

#[cfg(bad)]
pub fn f(m: &mut Mapping) { for k in m.keys() { *k = Value::Null; } }

#[cfg(not(bad))]
pub fn f(m: &mut Mapping) { for v in m.values_mut() { *v = Value::Null; } }
