//! Stand-in for CRC-32 under the symbolic executor: a cheap checksum of the same type, linear so that the solver can tell two of them apart (the native replay uses the real one).
pub fn hash(buf: &[u8]) -> u32 {
    let mut h = Hasher::new();
    h.update(buf);
    h.finalize()
}
#[derive(Clone, Debug, Default)]
pub struct Hasher { state: u32, amount: u64 }
impl Hasher {
    pub fn new() -> Self { Hasher { state: 0, amount: 0 } }
    pub fn new_with_initial(init: u32) -> Self { Hasher { state: init, amount: 0 } }
    pub fn new_with_initial_len(init: u32, amount: u64) -> Self { Hasher { state: init, amount } }
    pub fn update(&mut self, buf: &[u8]) {
        for &b in buf {
            self.state = self.state.rotate_left(7) ^ b as u32 ^ 0x9E37_79B9;
        }
        self.amount = self.amount.wrapping_add(buf.len() as u64);
    }
    pub fn finalize(self) -> u32 { self.state }
    pub fn reset(&mut self) { self.state = 0; self.amount = 0; }
}
impl std::hash::Hasher for Hasher {
    fn write(&mut self, bytes: &[u8]) { self.update(bytes) }
    fn finish(&self) -> u64 { u64::from(self.state) }
}
