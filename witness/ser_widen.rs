//@ what: a serializer over a short-lived writer is used as one over a longer-lived writer
//@ codes: any
//@ text: lifetime may not live long enough
use serde_yaml::Serializer;

#[cfg(bad)]
pub fn f<'a>(s: Serializer<&'a [u8]>) -> Serializer<&'static [u8]> { s }

#[cfg(not(bad))]
pub fn f<'a>(s: Serializer<&'a [u8]>) -> Serializer<&'a [u8]> { s }
