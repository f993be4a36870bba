//@ what: a serializer whose writer is tied to a thread is shared
//@ codes: E0277
use serde_yaml::Serializer;
use std::{cell::RefCell, io, rc::Rc};
pub struct W(pub Rc<RefCell<Vec<u8>>>);
impl io::Write for W { fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.0.borrow_mut().extend(b); Ok(b.len()) } fn flush(&mut self) -> io::Result<()> { Ok(()) } }
fn sync<T: Sync>(_: T) {}
fn keep<T>(_: T) {}

#[cfg(bad)]
pub fn f(w: W) { sync(Serializer::new(w)); }

#[cfg(not(bad))]
pub fn f(w: W) { keep(Serializer::new(w)); sync(1); }
