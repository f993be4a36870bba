//@ what: a type outside the crate implements serde_yaml::mapping::Index
//@ codes: E0277
//@ also: E0046

pub struct K;
#[cfg(bad)]
impl serde_yaml::mapping::Index for K {}

pub fn f<I: serde_yaml::mapping::Index>(_: I) {}
#[cfg(not(bad))]
pub fn g() {
    f("key");
}
