//@ what: values and errors cross threads
//@ compiles
pub fn f(v: serde_yaml::Value) -> Result<serde_yaml::Value, serde_yaml::Error> { std::thread::spawn(move || serde_yaml::from_value(v)).join().unwrap() }
