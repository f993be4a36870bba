//@ what: a writer that uses what it borrows when dropped is dropped, with its serializer, after what it borrows
//@ codes: E0597
use serde_yaml::Serializer;
use std::io;
pub struct W<'a>(pub &'a mut Vec<u8>);
impl<'a> io::Write for W<'a> { fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.0.extend(b); Ok(b.len()) } fn flush(&mut self) -> io::Result<()> { Ok(()) } }
impl<'a> Drop for W<'a> { fn drop(&mut self) { self.0.push(b'.'); } }

#[cfg(bad)]
pub fn f() { let _ser; let mut buf = Vec::new(); _ser = Serializer::new(W(&mut buf)); }

#[cfg(not(bad))]
pub fn f() { let mut buf = Vec::new(); let _ser; _ser = Serializer::new(W(&mut buf)); }
