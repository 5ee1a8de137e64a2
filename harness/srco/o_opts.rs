//! The command line of the script compiler.
use crate::opts::*;
use crate::sx::*;
use crate::timestamp::CompileTimestamp;
use std::io::{self, Cursor};
use std::path::PathBuf;

harnesses! { h_opts, h_opts_bad, h_opts_any, h_fix, h_fix_plain, h_fix_any, h_stamp }

/// n arbitrary characters
fn text(n: usize, ok: fn(u8) -> bool) -> String {
    let mut b = [0u8; 8];
    for x in b.iter_mut().take(n) {
        *x = u8_();
        assume(*x != 0 && *x < 128 && ok(*x));
    }
    String::from_utf8(b[..n].to_vec()).unwrap()
}

#[derive(Default, Debug, PartialEq)]
struct Want {
    file: Option<String>,
    out: Option<String>,
    dir: Option<String>,
    paths: Option<String>,
    warn: Vec<String>,
    threads: Option<u8>,
    flags: [bool; 5],
    profile: Option<bool>,
}

const NAMES: [&str; 12] = ["", "-outputCacheFile", "-customCacheDir", "-compilePathsFile", "-W", "-threads", "-no-testonly", "-no-breakpoint", "-no-exec", "-no-debug", "-optimize", "-profile="];

fn load(args: &[String]) -> Result<Opts, bpaf::ParseFailure> {
    let v: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    if !symbolic() {
        eprintln!("ARGS {v:?}");
    }
    Opts::load(&v)
}

fn same(o: &Opts, d: &str, w: &Want) {
    let p = |x: &Option<PathBuf>, y: &Option<String>| x.as_ref().map(|x| x.to_str().unwrap().to_owned()) == *y;
    assert!(o.scripts_dir.to_str() == Some(d), "the scripts directory is another one");
    assert!(p(&o.cache_file, &w.file), "the cache file is another one");
    assert!(p(&o.output_cache_file, &w.out), "the output file is another one");
    assert!(p(&o.cache_dir, &w.dir), "the cache directory is another one");
    assert!(p(&o.script_paths_file, &w.paths), "the paths file is another one");
    assert!(o.warnings == w.warn, "the warnings are others");
    assert!(o.threads == w.threads.unwrap_or(1), "the number of threads is another one");
    assert!([o.no_testonly, o.no_breakpoint, o.no_exec, o.no_debug, o.optimize] == w.flags, "a switch has another value");
    assert!(o.profile == w.profile.unwrap_or(true), "profiling is set differently");
}

/// p0: options, p1: length of values
pub fn h_opts() {
    let n = param(1) as usize;
    let mut w = Want::default();
    let mut args = vec![];
    let mut used = 0u32;
    let at = 0;
    let count = std::cell::Cell::new(0);
    let path = |n: usize| {
        if n == 0 {
            count.set(count.get() + 1);
            return format!("C:\\a b\\{}\\", count.get());
        }
        let t = text(n, |_| true);
        assume(!t.starts_with('-'));
        t
    };
    let d = path(n);
    args.push("-compile".to_owned());
    args.push(d.clone());
    let mut ok = true;
    for _ in 0..param(0) {
        let k = choose(12) as usize;
        // only warnings may be repeated
        assume(used >> k & 1 == 0 || k == 4);
        used |= 1 << k;
        if k > 0 && !matches!(k, 4 | 11) {
            args.push(NAMES[k].to_owned());
        }
        match k {
            0 => {
                let v = path(n);
                w.file = Some(v.clone());
                args.push(v);
            }
            1 | 2 | 3 => {
                let v = path(n);
                *[&mut w.out, &mut w.dir, &mut w.paths][k - 1] = Some(v.clone());
                args.push(v);
            }
            4 => {
                let v = if n == 0 { format!("none{}", args.len()) } else { text(n, |_| true) };
                args.push(format!("-W{v}"));
                w.warn.push(v);
            }
            5 => {
                let v = if n == 0 { ["4", "255", "256"][choose(3) as usize].to_owned() } else { text(n, |c| c.is_ascii_digit()) };
                let x = v.bytes().fold(0u32, |a, c| a * 10 + (c - b'0') as u32);
                if x < 256 {
                    w.threads = Some(x as u8);
                } else {
                    ok = false;
                }
                args.push(v);
            }
            11 => {
                let on = bool_();
                args.push(if on { "-profile=on" } else { "-profile=off" }.to_owned());
                w.profile = Some(on);
            }
            _ => w.flags[k - 6] = true,
        }
    }
    match load(&args) {
        Ok(o) => {
            assert!(ok, "a number of threads that is too large is accepted");
            same(&o, &d, &w);
            cover(1);
        }
        Err(_) => {
            assert!(!ok, "a valid command line is rejected");
            cover(2);
        }
    }
}

/// command lines that are not valid
pub fn h_opts_bad() {
    let mut a: Vec<String> = vec!["-compile".into(), "d".into()];
    let v = text(2, |_| true);
    match choose(8) {
        // options without their value
        0 => a.push(["-outputCacheFile", "-customCacheDir", "-compilePathsFile", "-threads"][choose(4) as usize].into()),
        1 => a.truncate(1),
        2 => a = vec![v.clone()],
        3 => {
            assume(v != "on" && v != "of");
            a.push(format!("-profile={v}"));
        }
        4 => {
            assume(!v.bytes().all(|c| c.is_ascii_digit()) && !(v.starts_with('+') && v.as_bytes()[1].is_ascii_digit()));
            a.push("-threads".into());
            a.push(v);
        }
        // unknown options
        5 => {
            assume(v.starts_with('-') && !v.starts_with("-W") && v != "--");
            a.push(v);
        }
        6 => {
            let k = 6 + choose(5) as usize;
            a.push(NAMES[k].into());
            a.push(NAMES[k].into());
        }
        _ => {
            assume(!v.starts_with('-'));
            a.extend([v.clone(), v]);
        }
    }
    cover(1);
    assert!(load(&a).is_err(), "an invalid command line is accepted");
}

/// any arguments at all
pub fn h_opts_any() {
    let mut a: Vec<String> = vec![];
    for _ in 0..param(0) {
        let k = choose(16) as usize;
        a.push(match k {
            0 => "-compile".into(),
            12 | 13 => text(2, |_| true),
            14 => String::new(),
            15 => "--".into(),
            _ => NAMES[k].to_owned(),
        });
    }
    cover(if load(&a).is_ok() { 1 } else { 2 });
}

/// splits a command line the way programs for Windows do
fn split(s: &str) -> Vec<String> {
    let b = s.as_bytes();
    let (mut out, mut cur, mut some, mut quoted, mut i) = (vec![], vec![], false, false, 0);
    while i < b.len() {
        let mut n = 0;
        while i < b.len() && b[i] == b'\\' {
            n += 1;
            i += 1;
        }
        if i < b.len() && b[i] == b'"' {
            cur.extend(std::iter::repeat(b'\\').take(n / 2));
            some = true;
            if n % 2 == 1 {
                cur.push(b'"');
            } else if quoted && b.get(i + 1) == Some(&b'"') {
                cur.push(b'"');
                i += 1;
            } else {
                quoted = !quoted;
            }
            i += 1;
        } else if n > 0 {
            cur.extend(std::iter::repeat(b'\\').take(n));
            some = true;
        } else if !quoted && (b[i] == b' ' || b[i] == b'\t') {
            if some {
                out.push(String::from_utf8(std::mem::take(&mut cur)).unwrap());
            }
            some = false;
            i += 1;
        } else {
            cur.push(b[i]);
            some = true;
            i += 1;
        }
    }
    if some {
        out.push(String::from_utf8(cur).unwrap());
    }
    out
}

/// command lines as the game writes them: paths in quotes, whatever they end with.  p0: arguments, p1: length of paths
pub fn h_fix() {
    let n = param(1) as usize;
    let mut line = String::new();
    let mut want = vec![];
    let mut slash = 0;
    for i in 0..param(0) {
        if i > 0 {
            line.push(' ');
        }
        match choose(3) {
            0 => {
                line.push_str("-opt");
                want.push("-opt".to_owned());
            }
            k => {
                let mut t = text(n, |c| c != b'"' && c != b'\t' && c != b'\n' && c != b'\r');
                assume(!t.starts_with(' ') && !t.ends_with(' ') && !t.ends_with('\\'));
                // the splitting keeps no trace of the second of two blanks
                assume(!t.contains("  "));
                if k == 2 {
                    t.push('\\');
                    slash += 1;
                }
                line = format!("{line}\"{t}\"");
                want.push(t);
            }
        }
    }
    if !symbolic() {
        eprintln!("LINE {line}");
    }
    let got = fix_args(split(&line));
    if !symbolic() {
        eprintln!("GOT {got:?}");
    }
    cover(if slash > 0 { 1 } else { 2 });
    assert!(got == want, "the arguments are taken apart differently");
}

/// arguments without quotes stay as they are
pub fn h_fix_plain() {
    let mut a = vec![];
    for _ in 0..param(0) {
        let k = choose(param(1) + 1) as usize;
        a.push(text(k, |c| c != b'"'));
    }
    let mut want = a.clone();
    want.retain(|s| !s.is_empty());
    assert!(fix_args(a) == want, "arguments without quotes are changed");
    cover(1);
}

/// any arguments: no panic, no empty argument, nothing but quotes, blanks and backslashes is lost or made up
pub fn h_fix_any() {
    let mut a = vec![];
    for _ in 0..param(0) {
        let k = choose(param(1) + 1) as usize;
        a.push(text(k, |_| true));
    }
    let keep = |v: &[String]| -> Vec<u8> { v.iter().flat_map(|s| s.bytes()).filter(|c| !matches!(c, b'"' | b' ' | b'\\')).collect() };
    let want = keep(&a);
    let got = fix_args(a);
    assert!(got.iter().all(|s| !s.is_empty()), "an empty argument is made");
    assert!(keep(&got) == want, "the text of arguments is changed");
    cover(1);
}

/// the timestamp file
pub fn h_stamp() {
    let n = choose(24) as usize;
    let mut b = vec![0u8; n];
    fill(&mut b);
    let mut c = Cursor::new(b.clone());
    c.set_position(choose(3));
    match CompileTimestamp::read(&mut c) {
        Ok(None) => {
            assert!(n == 0, "a timestamp is not read");
            cover(1);
        }
        Err(_) => {
            assert!(n > 0 && n < 16, "a timestamp is not read");
            cover(2);
        }
        Ok(Some(t)) => {
            assert!(n >= 16, "a timestamp is made up");
            cover(3);
            // written over anything it reads back as the same
            let mut o = Cursor::new(vec![7u8; choose(3) as usize * 9]);
            o.set_position(choose(2) * 5);
            t.write(&mut o).unwrap();
            let old = o.get_ref().len();
            assert!(o.get_ref()[..16] == b[..16], "a timestamp is written differently");
            assert!(CompileTimestamp::read(&mut o).unwrap() == Some(t), "a timestamp does not read back");
            assert!(o.get_ref().len() == old);
        }
    }
}
