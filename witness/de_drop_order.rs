//@ what: a reader that uses what it borrows when dropped is dropped, with its deserializer, after what it borrows
//@ codes: E0597
use serde_yaml::Deserializer;
use std::{cell::RefCell, io};
pub struct R<'a>(pub &'a RefCell<Vec<u8>>);
impl<'a> io::Read for R<'a> { fn read(&mut self, _: &mut [u8]) -> io::Result<usize> { Ok(0) } }
impl<'a> Drop for R<'a> { fn drop(&mut self) { self.0.borrow_mut().push(b'.'); } }

#[cfg(bad)]
pub fn f() { let _de; let buf = RefCell::new(Vec::new()); _de = Deserializer::from_reader(R(&buf)); }

#[cfg(not(bad))]
pub fn f() { let buf = RefCell::new(Vec::new()); let _de; _de = Deserializer::from_reader(R(&buf)); }
