//! Symbolic inputs.  Under the engine these are intrinsics; in the native replay binary they read a recorded
//! assignment, so that the same harness runs as an ordinary program.
#![allow(dead_code)]

#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        pub fn sx_bytes(p: *mut u8, n: usize);
        pub fn sx_any(w: u32) -> u64;
        pub fn sx_assume(b: bool);
        pub fn sx_cover(id: u32);
        pub fn sx_observe(v: u64);
        pub fn sx_concretize(v: u64) -> u64;
        pub fn sx_param(id: u32) -> u64;
        pub fn sx_symbolic() -> u32;
        pub fn sx_ite(c: bool, a: u64, b: u64) -> u64;
    }
}

#[cfg(feature = "native")]
mod imp {
    use std::cell::RefCell;
    thread_local! {
        pub static INPUT: RefCell<(Vec<(u32, u64)>, usize)> = const { RefCell::new((vec![], 0)) };
        pub static OBS: RefCell<Vec<u64>> = const { RefCell::new(vec![]) };
        pub static PARAMS: RefCell<Vec<u64>> = const { RefCell::new(vec![]) };
    }
    pub unsafe fn sx_any(w: u32) -> u64 {
        INPUT.with(|c| {
            let mut c = c.borrow_mut();
            let i = c.1;
            c.1 += 1;
            match c.0.get(i) {
                Some(&(rw, v)) => {
                    if rw != w {
                        eprintln!("REPLAY-DIVERGED: input {i} has width {rw}, harness asks for {w}");
                        std::process::exit(77);
                    }
                    v
                }
                None => {
                    eprintln!("REPLAY-DIVERGED: input {i} missing");
                    std::process::exit(77);
                }
            }
        })
    }
    pub unsafe fn sx_bytes(p: *mut u8, n: usize) {
        for i in 0..n {
            *p.add(i) = sx_any(8) as u8;
        }
    }
    pub unsafe fn sx_assume(b: bool) {
        if !b {
            eprintln!("REPLAY-ASSUMPTION-FAILED");
            std::process::exit(78);
        }
    }
    pub unsafe fn sx_cover(_: u32) {}
    pub unsafe fn sx_observe(v: u64) {
        OBS.with(|o| o.borrow_mut().push(v));
    }
    pub unsafe fn sx_concretize(v: u64) -> u64 {
        v
    }
    pub unsafe fn sx_param(id: u32) -> u64 {
        PARAMS.with(|p| p.borrow().get(id as usize).copied().unwrap_or(0))
    }
    pub unsafe fn sx_symbolic() -> u32 {
        0
    }
    pub unsafe fn sx_ite(c: bool, a: u64, b: u64) -> u64 {
        if c {
            a
        } else {
            b
        }
    }
}
#[cfg(feature = "native")]
pub use imp::{INPUT, OBS, PARAMS};

pub fn u8_() -> u8 {
    unsafe { imp::sx_any(8) as u8 }
}
pub fn u16_() -> u16 {
    unsafe { imp::sx_any(16) as u16 }
}
pub fn u32_() -> u32 {
    unsafe { imp::sx_any(32) as u32 }
}
pub fn u64_() -> u64 {
    unsafe { imp::sx_any(64) }
}
pub fn i8_() -> i8 {
    u8_() as i8
}
pub fn i16_() -> i16 {
    u16_() as i16
}
pub fn i32_() -> i32 {
    u32_() as i32
}
pub fn i64_() -> i64 {
    u64_() as i64
}
pub fn usize_() -> usize {
    u64_() as usize
}
pub fn bool_() -> bool {
    unsafe { imp::sx_any(1) != 0 }
}
pub fn bytes<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    unsafe { imp::sx_bytes(b.as_mut_ptr(), N) };
    b
}
pub fn fill(b: &mut [u8]) {
    unsafe { imp::sx_bytes(b.as_mut_ptr(), b.len()) };
}
pub fn assume(b: bool) {
    unsafe { imp::sx_assume(b) }
}
/// reachability witness
pub fn cover(id: u32) {
    unsafe { imp::sx_cover(id) }
}
/// value compared between the symbolic run (evaluated under the path's model) and the native run of the same inputs
pub fn observe(v: u64) {
    unsafe { imp::sx_observe(v) }
}
/// splits the path on every feasible value
pub fn concretize(v: u64) -> u64 {
    unsafe { imp::sx_concretize(v) }
}
pub fn param(id: u32) -> u64 {
    unsafe { imp::sx_param(id) }
}
pub fn symbolic() -> bool {
    unsafe { imp::sx_symbolic() != 0 }
}
/// arbitrary value in 0..n, one path per value
pub fn choose(n: u64) -> u64 {
    let v = unsafe { imp::sx_any(16) };
    assume(v < n);
    concretize(v)
}
/// arbitrary value in 0..n, kept symbolic
pub fn below(n: u64) -> u64 {
    let v = u32_() as u64;
    assume(v < n);
    v
}
pub fn min_u32(a: u32, b: u32) -> u32 {
    unsafe { imp::sx_ite(a < b, a as u64, b as u64) as u32 }
}
