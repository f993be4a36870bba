//@ what: Number is Send and owns what it holds
//@ compiles
fn need<T: Send + 'static>() {}
pub fn f() { need::<serde_yaml::Number>(); }
