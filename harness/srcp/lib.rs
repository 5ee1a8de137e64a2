#![allow(clippy::all, dead_code, unused, ambiguous_glob_reexports)]
//! Harness over scc-lib: the cache protocol on a model of the file system.
#[path = "../src/sx.rs"]
pub mod sx;
#[macro_use]
#[path = "../src/reg.rs"]
mod reg;
#[path = "../srcc/world.rs"]
pub mod world;
pub mod vfs;
pub mod p_cache;

pub fn lists() -> Vec<&'static [(&'static str, fn())]> {
    vec![p_cache::LIST]
}
