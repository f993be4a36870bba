//@ what: a number's representation is built or taken apart outside the crate
//@ codes: E0451 E0603 E0616 E0423 E0532 E0609
use serde_yaml::Number;

#[cfg(bad)]
pub fn f(x: Number) { let _ = x.n; }

#[cfg(not(bad))]
pub fn f(x: Number) { let _ = x.as_i64(); }
