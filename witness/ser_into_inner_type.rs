//@ what: the writer taken back is given another lifetime than it came with
//@ codes: any
//@ text: lifetime may not live long enough
use serde_yaml::Serializer;

#[cfg(bad)]
pub fn f<'a>(buf: &'a mut Vec<u8>) -> Option<&'static mut Vec<u8>> { Serializer::new(buf).into_inner().ok() }

#[cfg(not(bad))]
pub fn f<'a>(buf: &'a mut Vec<u8>) -> Option<&'a mut Vec<u8>> { Serializer::new(buf).into_inner().ok() }
