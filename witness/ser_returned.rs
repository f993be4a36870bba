//@ what: a serializer over a local buffer is returned
//@ codes: E0597 E0515 E0505
use serde_yaml::Serializer;

#[cfg(bad)]
pub fn f<'a>() -> Serializer<&'a mut Vec<u8>> { let mut buf = Vec::new(); Serializer::new(&mut buf) }

#[cfg(not(bad))]
pub fn f<'a>(buf: &'a mut Vec<u8>) -> Serializer<&'a mut Vec<u8>> { Serializer::new(buf) }
