//@ what: a key of a mapping is changed in place while iterating
//@ codes: E0594 E0308
use serde_yaml::{Mapping, Value};

#[cfg(bad)]
pub fn f(m: &mut Mapping) { for (k, _) in m.iter_mut() { *k = Value::Null; } }

#[cfg(not(bad))]
pub fn f(m: &mut Mapping) { for (_, v) in m.iter_mut() { *v = Value::Null; } }
