//@ what: a tag's text is set without the checks of its constructor
//@ codes: E0451 E0603 E0616 E0423 E0532 E0609
use serde_yaml::value::Tag;

#[cfg(bad)]
pub fn f(mut t: Tag) { t.string = String::new(); }

#[cfg(not(bad))]
pub fn f(mut t: Tag) -> Tag { t = Tag::new("t"); t }
