#[derive(Default)]
pub struct Config;
pub fn init(_: Config) {}
