//@ what: Location is Sync and owns what it holds
//@ compiles
fn need<T: Sync + 'static>() {}
pub fn f() { need::<serde_yaml::Location>(); }
