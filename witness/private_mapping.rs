//@ what: the map behind a mapping is reached outside the crate
//@ codes: E0451 E0603 E0616 E0423 E0532 E0609
use serde_yaml::Mapping;

#[cfg(bad)]
pub fn f(m: Mapping) { let _ = m.map; }

#[cfg(not(bad))]
pub fn f(m: Mapping) { let _ = m.len(); }
