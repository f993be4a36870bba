//@ what: a key of a mapping is changed in place through an entry
//@ codes: E0594
use serde_yaml::{mapping::Entry, Mapping, Value};

#[cfg(bad)]
pub fn f(m: &mut Mapping) { if let Entry::Occupied(e) = m.entry(Value::Null) { *e.key() = Value::Bool(true); } }

#[cfg(not(bad))]
pub fn f(m: &mut Mapping) { if let Entry::Occupied(mut e) = m.entry(Value::Null) { *e.get_mut() = Value::Bool(true); } }
