//! Stand-in (the methods are only called on Windows).
use std::io;
use std::path::{Path, PathBuf};
pub trait PathExt {
    fn normalize_virtually(&self) -> io::Result<PathBuf>;
}
impl PathExt for Path {
    fn normalize_virtually(&self) -> io::Result<PathBuf> { Ok(self.to_path_buf()) }
}
