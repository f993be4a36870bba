//@ what: a serializer is kept longer than the buffer it writes to
//@ codes: E0597 E0515 E0505
use serde_yaml::Serializer;

#[cfg(bad)]
pub fn f() { let mut ser; { let mut buf = Vec::new(); ser = Serializer::new(&mut buf); } let _ = ser.flush(); }

#[cfg(not(bad))]
pub fn f() { let mut buf = Vec::new(); { let mut ser = Serializer::new(&mut buf); let _ = ser.flush(); } drop(buf); }
