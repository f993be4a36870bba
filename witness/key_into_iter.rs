//@ what: a key of a mapping is changed in place through a for loop over &mut
//@ codes: E0594 E0308
use serde_yaml::{Mapping, Value};

#[cfg(bad)]
pub fn f(m: &mut Mapping) { for (k, _) in m { *k = Value::Null; } }

#[cfg(not(bad))]
pub fn f(m: &mut Mapping) { for (_, v) in m { *v = Value::Null; } }
