//@ what: a value is changed while a string lent by it is in use
//@ codes: E0502 E0506
use serde::Deserialize;
use serde_yaml::Value;

#[cfg(bad)]
pub fn f(mut v: Value) -> usize { let s = <&str>::deserialize(&v).unwrap(); v = Value::Null; let n = s.len(); drop(v); n }

#[cfg(not(bad))]
pub fn f(mut v: Value) -> usize { let s = <&str>::deserialize(&v).unwrap(); let n = s.len(); v = Value::Null; drop(v); n }
