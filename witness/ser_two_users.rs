//@ what: two serializers write through one serializer at the same time
//@ codes: E0499
use serde::Serializer as _;
use serde_yaml::Serializer;

#[cfg(bad)]
pub fn f(s: &mut Serializer<Vec<u8>>) { let a = s.serialize_seq(None); let b = s.serialize_seq(None); drop((a, b)); }

#[cfg(not(bad))]
pub fn f(s: &mut Serializer<Vec<u8>>) { let a = s.serialize_seq(None); drop(a); let b = s.serialize_seq(None); drop(b); }
