//@ what: a key of a mapping is changed in place by retain
//@ codes: E0594 E0308 E0631
use serde_yaml::{Mapping, Value};

#[cfg(bad)]
pub fn f(m: &mut Mapping) { m.retain(|k, _| { *k = Value::Null; true }); }

#[cfg(not(bad))]
pub fn f(m: &mut Mapping) { m.retain(|_, v| { *v = Value::Null; true }); }
