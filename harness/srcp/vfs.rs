//! A model of the file system under /v at the level of the C library, for the unmodified standard library on top of it.
//! Every call that changes the disk is one step; a crash at step k leaves the disk as it is then (a write is cut in the
//! middle), a fault at step k fails that call only.
use std::ffi::{c_char, c_int, c_long, c_uint, c_void, CStr};

pub struct Node {
    pub path: Option<String>,
    pub data: Vec<u8>,
    pub mtime: i64,
}

pub struct Fs {
    pub nodes: Vec<Node>,
    pub dirs: Vec<String>,
    pub fds: Vec<Option<(usize, usize, bool)>>,
    pub clock: i64,
    pub steps: u64,
    pub crash_at: u64,
    pub fault_at: u64,
    pub crashed: bool,
    pub faulted: bool,
    /// the file at which the run was cut
    pub cut_at: String,
    pub trace: Vec<String>,
}

pub static mut FS: Fs = Fs::EMPTY;
const BASE: c_int = 5000;
const ENOENT: i32 = 2;
const EIO: i32 = 5;
const EEXIST: i32 = 17;

pub fn fs() -> &'static mut Fs {
    unsafe { &mut *std::ptr::addr_of_mut!(FS) }
}

extern "C" {
    fn __errno_location() -> *mut c_int;
    #[cfg(feature = "native")]
    fn syscall(n: c_long, ...) -> c_long;
}
unsafe fn fail(e: i32) -> c_int {
    *__errno_location() = e;
    -1
}

enum Step {
    Do,
    Half,
    No,
}

impl Fs {
    pub const EMPTY: Fs = Fs { nodes: vec![], dirs: vec![], fds: vec![], clock: 0, steps: 0, crash_at: u64::MAX, fault_at: u64::MAX, crashed: false, faulted: false, cut_at: String::new(), trace: vec![] };
    pub fn find(&self, p: &str) -> Option<usize> {
        self.nodes.iter().position(|n| n.path.as_deref() == Some(p))
    }
    pub fn get(&self, p: &str) -> Option<&Vec<u8>> {
        self.find(p).map(|i| &self.nodes[i].data)
    }
    pub fn put(&mut self, p: &str, d: &[u8]) {
        self.remove(p);
        let m = self.tick();
        self.nodes.push(Node { path: Some(p.to_owned()), data: d.to_vec(), mtime: m });
    }
    pub fn remove(&mut self, p: &str) {
        if let Some(i) = self.find(p) {
            self.nodes[i].path = None;
        }
    }
    pub fn tick(&mut self) -> i64 {
        self.clock += 1;
        self.clock
    }
    pub fn start(&mut self, crash_at: u64, fault_at: u64) {
        self.steps = 0;
        self.crash_at = crash_at;
        self.fault_at = fault_at;
        self.crashed = false;
        self.faulted = false;
        self.fds.clear();
        self.cut_at.clear();
        self.trace.clear();
    }
    /// a change of the disk is about to happen
    fn step(&mut self, what: &str, p: &str) -> Step {
        if self.crashed {
            return Step::No;
        }
        self.steps += 1;
        if !crate::sx::symbolic() {
            self.trace.push(format!("{} {what} {}", self.steps, p.rsplit('/').next().unwrap_or(p)));
        }
        if self.steps == self.crash_at {
            self.crashed = true;
            self.cut_at = p.to_owned();
            return Step::Half;
        }
        if self.steps == self.fault_at {
            self.faulted = true;
            self.cut_at = p.to_owned();
            return Step::No;
        }
        Step::Do
    }
    fn parent_ok(&self, p: &str) -> bool {
        p.rfind('/').is_some_and(|i| self.dirs.iter().any(|d| d == &p[..i]))
    }
    fn fd(&mut self, fd: c_int) -> &mut (usize, usize, bool) {
        self.fds[(fd - BASE) as usize].as_mut().expect("closed file")
    }
}

unsafe fn path<'a>(p: *const c_char) -> &'a str {
    CStr::from_ptr(p).to_str().unwrap()
}
fn ours(p: &str) -> bool {
    p.starts_with("/v/")
}

#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    let s = path(p);
    #[cfg(feature = "native")]
    if !ours(s) {
        return sys(257, -100, p as i64, flags as i64, mode as i64) as c_int;
    }
    let f = fs();
    let (wr, creat, excl, trunc) = (flags & 3 != 0, flags & 0o100 != 0, flags & 0o200 != 0, flags & 0o1000 != 0);
    let i = match f.find(s) {
        Some(_) if creat && excl => return fail(EEXIST),
        Some(i) => {
            if trunc && !f.nodes[i].data.is_empty() {
                match f.step("truncate", s) {
                    Step::Do => {
                        f.nodes[i].data.clear();
                        let t = f.tick();
                        f.nodes[i].mtime = t;
                    }
                    _ => return fail(EIO),
                }
            }
            i
        }
        None => {
            if !creat || !f.parent_ok(s) {
                return fail(ENOENT);
            }
            match f.step("create", s) {
                Step::Do => {}
                _ => return fail(EIO),
            }
            let m = f.tick();
            f.nodes.push(Node { path: Some(s.to_owned()), data: vec![], mtime: m });
            f.nodes.len() - 1
        }
    };
    let at = if flags & 0o2000 != 0 { f.nodes[i].data.len() } else { 0 };
    f.fds.push(Some((i, at, wr)));
    BASE + f.fds.len() as c_int - 1
}

#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    open64(p, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if fd < BASE {
        #[cfg(feature = "native")]
        return sys(3, fd as i64, 0, 0, 0) as c_int;
        return 0;
    }
    fs().fds[(fd - BASE) as usize] = None;
    0
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, b: *mut u8, n: usize) -> isize {
    if fd < BASE {
        #[cfg(feature = "native")]
        return sys(0, fd as i64, b as i64, n as i64, 0) as isize;
        return 0;
    }
    let f = fs();
    let (i, at, _) = *f.fd(fd);
    let d = &f.nodes[i].data;
    let k = n.min(d.len().saturating_sub(at));
    std::ptr::copy_nonoverlapping(d.as_ptr().add(at.min(d.len())), b, k);
    f.fd(fd).1 += k;
    k as isize
}

unsafe fn put(fd: c_int, src: &[u8]) -> isize {
    let f = fs();
    let (i, at, wr) = *f.fd(fd);
    if !wr {
        return fail(9) as isize;
    }
    if src.is_empty() {
        return 0;
    }
    let n = match f.step("write", &f.nodes[i].path.clone().unwrap_or_default()) {
        Step::Do => src.len(),
        // a write of a few bytes is not cut in the middle
        Step::Half => if src.len() > 16 { src.len() / 2 } else { 0 },
        Step::No => return fail(EIO) as isize,
    };
    let d = &mut f.nodes[i].data;
    if d.len() < at + n {
        d.resize(at + n, 0);
    }
    d[at..at + n].copy_from_slice(&src[..n]);
    let t = f.tick();
    f.nodes[i].mtime = t;
    if f.crashed {
        return fail(EIO) as isize;
    }
    f.fd(fd).1 += n;
    n as isize
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const u8, n: usize) -> isize {
    if fd < BASE {
        #[cfg(feature = "native")]
        return sys(1, fd as i64, b as i64, n as i64, 0) as isize;
        return n as isize;
    }
    put(fd, std::slice::from_raw_parts(b, n))
}

#[no_mangle]
pub unsafe extern "C" fn copy_file_range(src: c_int, _: *mut i64, dst: c_int, _: *mut i64, n: usize, _: c_uint) -> isize {
    // the standard library asks whether there is such a call
    if src < BASE || dst < BASE {
        return fail(9) as isize;
    }
    let f = fs();
    let (i, at, _) = *f.fd(src);
    let d = f.nodes[i].data[at..].to_vec();
    let d = &d[..d.len().min(n)];
    let k = put(dst, d);
    if k > 0 {
        fs().fd(src).1 += k as usize;
    }
    k
}

#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, whence: c_int) -> i64 {
    if fd < BASE {
        #[cfg(feature = "native")]
        return sys(8, fd as i64, off, whence as i64, 0) as i64;
        return 0;
    }
    let f = fs();
    let (i, at, _) = *f.fd(fd);
    let base = match whence {
        0 => 0,
        1 => at as i64,
        _ => f.nodes[i].data.len() as i64,
    };
    if base + off < 0 {
        return fail(22) as i64;
    }
    f.fd(fd).1 = (base + off) as usize;
    base + off
}

#[no_mangle]
pub unsafe extern "C" fn fsync(_: c_int) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(_: c_int) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(_: c_int, _: c_uint) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: i64) -> c_int {
    let f = fs();
    let (i, _, _) = *f.fd(fd);
    match f.step("set length", &f.nodes[i].path.clone().unwrap_or_default()) {
        Step::Do => {}
        _ => return fail(EIO),
    }
    f.nodes[i].data.resize(n as usize, 0);
    let t = f.tick();
    f.nodes[i].mtime = t;
    0
}

#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    let (a, b) = (path(a), path(b));
    let f = fs();
    let Some(i) = f.find(a) else { return fail(ENOENT) };
    if !f.parent_ok(b) {
        return fail(ENOENT);
    }
    match f.step("rename", b) {
        Step::Do => {}
        _ => return fail(EIO),
    }
    if a != b {
        f.remove(b);
        f.nodes[i].path = Some(b.to_owned());
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    let a = path(a);
    let f = fs();
    if f.find(a).is_none() {
        return fail(ENOENT);
    }
    match f.step("unlink", a) {
        Step::Do => {}
        _ => return fail(EIO),
    }
    f.remove(a);
    0
}

#[no_mangle]
pub unsafe extern "C" fn mkdir(a: *const c_char, _: c_uint) -> c_int {
    let a = path(a);
    let f = fs();
    if f.dirs.iter().any(|d| d == a) {
        return fail(EEXIST);
    }
    if !f.parent_ok(a) {
        return fail(ENOENT);
    }
    match f.step("mkdir", a) {
        Step::Do => {}
        _ => return fail(EIO),
    }
    f.dirs.push(a.to_owned());
    0
}

#[no_mangle]
pub unsafe extern "C" fn opendir(_: *const c_char) -> *mut c_void {
    fail(ENOENT);
    std::ptr::null_mut()
}

/// AT_EMPTY_PATH asks for an open file
#[no_mangle]
pub unsafe extern "C" fn statx(dir: c_int, p: *const c_char, flags: c_int, mask: c_uint, out: *mut u8) -> c_int {
    if p.is_null() || out.is_null() {
        return fail(14);
    }
    let s = path(p);
    #[cfg(feature = "native")]
    if !ours(s) && !(s.is_empty() && dir >= BASE) && s != "/v" {
        return syscall(332, dir as c_long, p, flags as c_long, mask as c_long, out) as c_int;
    }
    let f = fs();
    let (mode, size, mtime, ino) = if s.is_empty() {
        let i = f.fd(dir).0;
        (0o100644u16, f.nodes[i].data.len() as u64, f.nodes[i].mtime, i as u64 + 100)
    } else if let Some(i) = f.find(s) {
        (0o100644, f.nodes[i].data.len() as u64, f.nodes[i].mtime, i as u64 + 100)
    } else if f.dirs.iter().any(|d| d == s) {
        (0o040755, 0, 0, 1)
    } else {
        return fail(ENOENT);
    };
    std::ptr::write_bytes(out, 0, 256);
    let w32 = |o: usize, v: u32| std::ptr::copy_nonoverlapping(v.to_le_bytes().as_ptr(), out.add(o), 4);
    let w64 = |o: usize, v: u64| std::ptr::copy_nonoverlapping(v.to_le_bytes().as_ptr(), out.add(o), 8);
    w32(0, 0xfff);
    w32(4, 4096);
    w32(16, 1);
    w32(28, mode as u32);
    w64(32, ino);
    w64(40, size);
    w64(112, 1_700_000_000);
    w32(120, mtime as u32 * 10_000_000);
    0
}

#[cfg(feature = "native")]
unsafe fn sys(n: i64, a: i64, b: i64, c: i64, d: i64) -> i64 {
    syscall(n, a, b, c, d)
}
