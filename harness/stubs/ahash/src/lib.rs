//! Hash function stub: every key hashes to the same value.  Hash tables stay correct (equality decides),
//! but no symbolic key is ever pushed through a hash function.
#![no_std]
use core::hash::{BuildHasher, Hasher};
#[derive(Clone, Debug, Default)]
pub struct RandomState;
impl RandomState {
    pub fn new() -> Self { RandomState }
    pub fn with_seeds(_: u64, _: u64, _: u64, _: u64) -> Self { RandomState }
    pub fn with_seed(_: usize) -> Self { RandomState }
}
#[derive(Clone, Debug, Default)]
pub struct AHasher;
impl Hasher for AHasher {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, _: &[u8]) {}
    fn write_u8(&mut self, _: u8) {}
    fn write_u16(&mut self, _: u16) {}
    fn write_u32(&mut self, _: u32) {}
    fn write_u64(&mut self, _: u64) {}
    fn write_usize(&mut self, _: usize) {}
}
impl BuildHasher for RandomState {
    type Hasher = AHasher;
    fn build_hasher(&self) -> AHasher { AHasher }
}
