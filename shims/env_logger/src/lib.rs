//! Stand-in for `env_logger`: accepts the configuration and logs nothing.
pub use log;
use log::LevelFilter;
pub fn init() {}
pub fn try_init() -> Result<(), log::SetLoggerError> { Ok(()) }
pub fn builder() -> Builder { Builder::new() }
#[derive(Default)]
pub struct Builder;
impl Builder {
    pub fn new() -> Self { Builder }
    pub fn from_default_env() -> Self { Builder }
    pub fn from_env<T>(_: T) -> Self { Builder }
    pub fn filter_level(&mut self, _: LevelFilter) -> &mut Self { self }
    pub fn filter(&mut self, _: Option<&str>, _: LevelFilter) -> &mut Self { self }
    pub fn parse_filters(&mut self, _: &str) -> &mut Self { self }
    pub fn format_timestamp<T>(&mut self, _: Option<T>) -> &mut Self { self }
    pub fn format_target(&mut self, _: bool) -> &mut Self { self }
    pub fn is_test(&mut self, _: bool) -> &mut Self { self }
    pub fn try_init(&mut self) -> Result<(), log::SetLoggerError> { Ok(()) }
    pub fn init(&mut self) {}
}
