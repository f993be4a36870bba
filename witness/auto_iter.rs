//@ what: mapping::Iter is Send and Sync
//@ compiles
fn need<T: Send + Sync>() {}
pub fn f() { need::<serde_yaml::mapping::Iter<'static>>(); }
