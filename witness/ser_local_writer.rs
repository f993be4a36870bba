//@ what: a serializer over a borrowed writer that is not 'static, and the writer back
//@ compiles
use serde_yaml::Serializer;
pub fn f(buf: &mut Vec<u8>) -> usize { let s = Serializer::new(&mut *buf); let w: Option<&mut Vec<u8>> = s.into_inner().ok(); w.map_or(0, |w| w.len()) }
