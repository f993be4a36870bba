//@ what: a string borrowed by from_slice from a short-lived text is given the lifetime 'static
//@ codes: any
//@ text: lifetime may not live long enough


#[cfg(bad)]
pub fn f<'a>(text: &'a Vec<u8>) -> serde_yaml::Result<&'static str> { serde_yaml::from_slice(text) }

#[cfg(not(bad))]
pub fn f<'a>(text: &'a Vec<u8>) -> serde_yaml::Result<&'a str> { serde_yaml::from_slice(text) }
