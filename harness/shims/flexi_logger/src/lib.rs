//! Stand-in: a logger that logs nothing.
use std::io;
use std::path::PathBuf;
pub use log::{LevelFilter, Record};
pub enum Age { Second, Minute, Hour, Day }
pub enum Cleanup { Never, KeepLogFiles(usize) }
pub enum Criterion { Age(Age), Size(u64) }
pub enum Duplicate { None, Error, Warn, Info, Debug, Trace, All }
pub enum Naming { Timestamps, Numbers }
#[derive(Default)]
pub struct FileSpec;
impl FileSpec {
    pub fn directory<P: Into<PathBuf>>(self, _: P) -> Self { self }
    pub fn basename<S: Into<String>>(self, _: S) -> Self { self }
    pub fn suffix<S: Into<String>>(self, _: S) -> Self { self }
}
pub struct LogSpecification;
#[derive(Default)]
pub struct LogSpecBuilder;
impl LogSpecBuilder {
    pub fn new() -> Self { Self }
    pub fn default(&mut self, _: LevelFilter) -> &mut Self { self }
    pub fn build(&self) -> LogSpecification { LogSpecification }
}
pub struct Now;
impl Now {
    pub fn to_rfc2822(&self) -> String { String::new() }
    pub fn to_rfc3339(&self) -> String { String::new() }
}
pub struct DeferredNow(Now);
impl DeferredNow {
    pub fn now(&mut self) -> &Now { &self.0 }
}
pub type FormatFunction = fn(&mut dyn io::Write, &mut DeferredNow, &Record<'_>) -> Result<(), io::Error>;
pub struct LoggerHandle;
pub struct Logger;
impl Logger {
    pub fn with(_: LogSpecification) -> Self { Self }
    pub fn log_to_file(self, _: FileSpec) -> Self { self }
    pub fn duplicate_to_stdout(self, _: Duplicate) -> Self { self }
    pub fn duplicate_to_stderr(self, _: Duplicate) -> Self { self }
    pub fn rotate(self, _: Criterion, _: Naming, _: Cleanup) -> Self { self }
    pub fn format(self, _: FormatFunction) -> Self { self }
    pub fn start(self) -> Result<LoggerHandle, io::Error> { Ok(LoggerHandle) }
}
