//@ what: the buffer is read while a serializer that is used again writes to it
//@ codes: E0502 E0505 E0506
use serde_yaml::Serializer;

#[cfg(bad)]
pub fn f() -> usize { let mut buf: Vec<u8> = Vec::new(); let mut ser = Serializer::new(&mut buf); let n = buf.len(); let _ = ser.flush(); n }

#[cfg(not(bad))]
pub fn f() -> usize { let mut buf: Vec<u8> = Vec::new(); let mut ser = Serializer::new(&mut buf); let _ = ser.flush(); drop(ser); buf.len() }
