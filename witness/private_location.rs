//@ what: a position is altered outside the crate
//@ codes: E0451 E0603 E0616 E0423 E0532 E0609
use serde_yaml::Location;

#[cfg(bad)]
pub fn f(mut l: Location) { l.line = 0; }

#[cfg(not(bad))]
pub fn f(l: Location) { let _ = l.line(); }
