#![allow(clippy::all, dead_code, unused, ambiguous_glob_reexports)]
pub mod sx;
#[macro_use]
mod reg;
pub mod isa;
pub mod dec;
pub mod p_code;
pub mod p_decomp;
pub mod p_flow;
pub mod p_print;
pub mod p_decl;
pub mod p_bundle;
pub mod p_defs;
pub mod wire;

pub fn lists() -> Vec<&'static [(&'static str, fn())]> {
    vec![p_code::LIST, p_defs::LIST, p_bundle::LIST, p_decomp::LIST, p_flow::LIST, p_print::LIST, p_decl::LIST]
}
