#![allow(clippy::all, dead_code, unused, ambiguous_glob_reexports)]
//! Harnesses over the command line of scc and its timestamp file (compiled from the sources in /repo/scc).
#[path = "../src/sx.rs"]
pub mod sx;
#[macro_use]
#[path = "../src/reg.rs"]
mod reg;
#[path = "/repo/scc/cli/src/opts.rs"]
pub mod opts;
#[path = "/repo/scc/lib/src/timestamp.rs"]
pub mod timestamp;
pub mod o_opts;

pub fn lists() -> Vec<&'static [(&'static str, fn())]> {
    vec![o_opts::LIST]
}
