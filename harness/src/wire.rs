//! Reference writer for the bundle format, written from the format description and independent of the crates.
pub struct W(pub Vec<u8>);
impl W {
    pub fn new() -> Self {
        W(Vec::with_capacity(64))
    }
    pub fn u8(&mut self, v: u8) {
        self.0.push(v);
    }
    pub fn u16(&mut self, v: u16) {
        self.0.extend_from_slice(&v.to_le_bytes());
    }
    pub fn u32(&mut self, v: u32) {
        self.0.extend_from_slice(&v.to_le_bytes());
    }
    pub fn u64(&mut self, v: u64) {
        self.0.extend_from_slice(&v.to_le_bytes());
    }
    pub fn raw(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
    pub fn str16(&mut self, b: &[u8]) {
        self.u16(b.len() as u16);
        self.raw(b);
    }
    pub fn list(&mut self, b: &[u32]) {
        self.u32(b.len() as u32);
        for x in b {
            self.u32(*x);
        }
    }
}

/// folds bytes into one observation
pub fn digest(b: &[u8]) -> u64 {
    b.iter().fold(b.len() as u64, |a, x| a.wrapping_mul(31).wrapping_add(*x as u64))
}
