#![allow(clippy::all, dead_code, unused, ambiguous_glob_reexports)]
//! Harnesses over the compiler (built with the stand-ins of harness/shims for the crates that are not available offline).
#[path = "../src/sx.rs"]
pub mod sx;
#[macro_use]
#[path = "../src/reg.rs"]
mod reg;
pub mod world;
pub mod vm;
pub mod lang;
pub mod c_sem;
pub mod c_tot;
pub mod c_pool;
pub mod c_parse;
pub mod c_ann;

pub fn lists() -> Vec<&'static [(&'static str, fn())]> {
    vec![c_sem::LIST, c_tot::LIST, c_parse::LIST, c_ann::LIST]
}
