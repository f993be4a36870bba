//@ what: a string borrowed by from_str is kept longer than the text it was read from
//@ codes: E0597 E0505 E0515


#[cfg(bad)]
pub fn f(text: String) -> usize { let s: &str = serde_yaml::from_str(&text).unwrap(); drop(text); s.len() }

#[cfg(not(bad))]
pub fn f(text: String) -> usize { let s: &str = serde_yaml::from_str(&text).unwrap(); let n = s.len(); let o: String = serde_yaml::from_str(&text).unwrap(); drop(text); n + o.len() }
