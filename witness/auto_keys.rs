//@ what: mapping::Keys is Send and Sync
//@ compiles
fn need<T: Send + Sync>() {}
pub fn f() { need::<serde_yaml::mapping::Keys<'static>>(); }
