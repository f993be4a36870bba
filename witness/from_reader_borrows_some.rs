//@ what: a type that borrows for some lifetime is read from a reader
//@ codes: any
//@ text: not general enough|higher-ranked lifetime error|lifetime may not live long enough
use std::io::Read;

#[cfg(bad)]
pub fn f<'a, R: Read>(r: R) -> serde_yaml::Result<Option<&'a str>> { serde_yaml::from_reader(r) }

#[cfg(not(bad))]
pub fn f<R: Read>(r: R) -> serde_yaml::Result<Option<String>> { serde_yaml::from_reader(r) }
