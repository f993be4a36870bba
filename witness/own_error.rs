//@ what: an error can be boxed and sent anywhere
//@ compiles
pub fn f(e: serde_yaml::Error) -> Box<dyn std::error::Error + Send + Sync + 'static> { Box::new(e) }
pub fn g(e: serde_yaml::Error) -> std::io::Error { std::io::Error::new(std::io::ErrorKind::Other, e) }
