//@ what: a string borrowed by from_str from a short-lived text is given the lifetime 'static
//@ codes: any
//@ text: lifetime may not live long enough


#[cfg(bad)]
pub fn f<'a>(text: &'a String) -> serde_yaml::Result<&'static str> { serde_yaml::from_str(text) }

#[cfg(not(bad))]
pub fn f<'a>(text: &'a String) -> serde_yaml::Result<&'a str> { serde_yaml::from_str(text) }
