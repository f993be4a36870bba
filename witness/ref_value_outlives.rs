//@ what: a string lent by a value is kept longer than the value
//@ codes: E0597 E0505 E0515
use serde::Deserialize;
use serde_yaml::Value;

#[cfg(bad)]
pub fn f(v: Value) -> usize { let s = <&str>::deserialize(&v).unwrap(); drop(v); s.len() }

#[cfg(not(bad))]
pub fn f(v: Value) -> usize { let s = <&str>::deserialize(&v).unwrap(); let n = s.len(); drop(v); n }
