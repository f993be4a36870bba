//@ what: a borrowed string is read from a reader
//@ codes: any
//@ text: not general enough|higher-ranked lifetime error|lifetime may not live long enough
use std::io::Read;

#[cfg(bad)]
pub fn f<R: Read>(r: R) -> serde_yaml::Result<&'static str> { serde_yaml::from_reader(r) }

#[cfg(not(bad))]
pub fn f<R: Read>(r: R) -> serde_yaml::Result<String> { serde_yaml::from_reader(r) }
