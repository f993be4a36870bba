//@ what: a deserializer whose reader must stay on its thread is sent to another
//@ codes: E0277
use serde_yaml::Deserializer;
use std::{io, rc::Rc};
pub struct R(pub Rc<u8>);
impl io::Read for R { fn read(&mut self, _: &mut [u8]) -> io::Result<usize> { Ok(0) } }
fn send<T: Send>(_: T) {}
fn keep<T>(_: T) {}

#[cfg(bad)]
pub fn f(r: R) { send(Deserializer::from_reader(r)); }

#[cfg(not(bad))]
pub fn f(r: R) { keep(Deserializer::from_reader(r)); send(1); }
