//@ what: a serializer whose writer must stay on its thread is sent to another
//@ codes: E0277
use serde_yaml::Serializer;
use std::{cell::RefCell, io, rc::Rc};
pub struct W(pub Rc<RefCell<Vec<u8>>>);
impl io::Write for W { fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.0.borrow_mut().extend(b); Ok(b.len()) } fn flush(&mut self) -> io::Result<()> { Ok(()) } }
fn send<T: Send>(_: T) {}
fn keep<T>(_: T) {}

#[cfg(bad)]
pub fn f(w: W) { send(Serializer::new(w)); }

#[cfg(not(bad))]
pub fn f(w: W) { keep(Serializer::new(w)); send(1); }
