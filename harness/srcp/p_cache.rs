//! The script cache, its backup and its timestamp under every history of runs, crashes and updates of the game.
use std::io::Cursor;
use std::path::Path;

use redscript::bundle::ScriptBundle;
use scc_lib::api::*;

use crate::sx::*;
use crate::vfs::*;
use crate::world::*;

harnesses! { h_cache }

const CACHE: &str = "/v/r6/cache/final.redscripts";
const BACKUP: &str = "/v/r6/cache/final.redscripts.bk";
const STAMP: &str = "/v/r6/cache/final.redscripts.ts";
const OUT: &str = "/v/r6/cache/out.redscripts";

/// the scripts of the game, one version after the other
fn game(version: u32) -> Vec<u8> {
    let mut w = W::new();
    w.native(["V0", "V1", "V2", "V3"][version as usize], &["Int32"], "Int32");
    let mut head = vec![0u8; 104];
    head[..4].copy_from_slice(b"REDS");
    head[4] = 14;
    let mut b = ScriptBundle::load(&mut Cursor::new(head)).unwrap();
    b.pool = w.p;
    let mut o = Cursor::new(vec![]);
    b.save(&mut o).unwrap();
    o.into_inner()
}


fn fresh() -> Fs {
    Fs {
        nodes: vec![],
        dirs: ["/v", "/v/r6", "/v/r6/cache", "/v/s"].iter().map(|s| s.to_string()).collect(),
        ..Fs::EMPTY
    }
}

fn scripts(bad: bool, b: bool) -> &'static str {
    match (bad, b) {
        (true, _) => "func T() -> Int32 { return X(); }",
        (_, false) => "func A(x: Int32) -> Int32 { return x; }",
        _ => "func B(x: Int32) -> Int32 { return x; } class K { let f: Int32; }",
    }
}

/// one run of the compiler; true when it reports success
fn run(script: &str, separate: bool) -> bool {
    fs().remove("/v/s/a.reds");
    fs().nodes.push(Node { path: Some("/v/s/a.reds".into()), data: script.as_bytes().to_vec(), mtime: 0 });
    let s = SccSettings {
        r6_dir: Path::new("/v/r6").into(),
        custom_cache_file: None,
        output_cache_file: if separate { Some(Path::new(OUT).into()) } else { None },
        additional_script_paths: vec![Path::new("/v/s/a.reds").into()],
    };
    let r = scc_lib::compile(&s);
    if !symbolic() {
        eprintln!("  steps {:?}", fs().trace);
        if let SccResult::Error(e) = &*r {
            eprintln!("  error {e:#}");
        } else {
            eprintln!("  success");
        }
    }
    matches!(*r, SccResult::Success(_))
}

/// what a first run on an untouched installation writes
fn expected(game: &[u8], script: &str) -> Vec<u8> {
    let old = std::mem::replace(fs(), fresh());
    fs().put(CACHE, game);
    fs().start(u64::MAX, u64::MAX);
    assert!(run(script, false), "the first run on an untouched installation fails");
    let r = fs().get(CACHE).unwrap().clone();
    assert!(fs().get(BACKUP).is_some_and(|b| b == game), "the first run makes no backup of the original scripts");
    assert!(ScriptBundle::load(&mut Cursor::new(r.clone())).is_ok() && r != game, "the output is not a script bundle");
    *fs() = old;
    r
}

/// a backup of other scripts that no timestamp tells from the scripts that were there before redscript
fn unstamped(orig: &[u8]) -> u64 {
    let other = fs().get(BACKUP).is_some_and(|b| b != orig) && fs().get(STAMP).map_or(true, |t| t.is_empty());
    other as u64 * 3
}

/// p0: events, p1: kinds of events, p2: steps at which runs may be cut, p3: 1 to report the histories that are known to lose the scripts
pub fn h_cache() {
    *fs() = fresh();
    let mut v = 0;
    let mut orig = game(0);
    fs().put(CACHE, &orig);
    fs().start(u64::MAX, u64::MAX);
    let kinds: Vec<u64> = (0..12).filter(|k| param(1) >> k & 1 == 1).collect();
    let n = param(0);
    let mut cut = false;
    let mut half = 0;
    for e in 0..=n {
        // the last event is always a run that is left alone
        let k = if e == n { [0, 3][choose(2) as usize] } else { kinds[choose(kinds.len() as u64) as usize] };
        let (mut crash, mut fault) = (u64::MAX, u64::MAX);
        if !symbolic() {
            eprintln!("event {k}");
        }
        match k {
            8 => {
                v += 1;
                orig = game(v);
                half = cut as u64 * unstamped(&orig);
                fs().put(CACHE, &orig);
                continue;
            }
            9 => {
                half = cut as u64 * unstamped(&orig);
                fs().put(CACHE, &orig);
                continue;
            }
            10 => {
                // without the backup and the timestamp
                assume(fs().get(CACHE).is_some_and(|d| *d != orig));
                fs().remove(BACKUP);
                fs().remove(STAMP);
                fs().start(u64::MAX, u64::MAX);
                let separate = choose(2) == 1;
                assert!(!run(scripts(false, true), separate), "scripts that redscript has changed are taken for the original ones");
                cover(2);
                return;
            }
            4 | 6 => crash = 1 + choose(param(2)),
            5 | 7 => fault = 1 + choose(param(2)),
            _ => {}
        }
        let separate = matches!(k, 3 | 6 | 7);
        let bad = k == 2;
        let script = scripts(bad, k == 1);
        let stamped = fs().get(STAMP).is_some_and(|t| !t.is_empty());
        let written = fs().find(CACHE).map(|i| fs().nodes[i].mtime);
        let before = fs().get(CACHE).cloned();
        fs().start(crash, fault);
        let ok = run(script, separate);
        // there were fewer steps: the same as a run that is left alone
        assume(crash == u64::MAX || fs().crashed);
        assume(fault == u64::MAX || fs().faulted);
        let crashed = fs().crashed;
        let at = std::mem::take(&mut fs().cut_at);
        fs().start(u64::MAX, u64::MAX);
        if ![CACHE, BACKUP].iter().any(|p| fs().get(p).is_some_and(|d| *d == orig)) {
            // histories with the known outcomes are left to the job that reports them
            assume(param(3) == 1 || half == 0 || half == 1 && !separate || half == 3 && separate);
            if half == 2 {
                panic!("the original scripts are lost: a run that was not the first was interrupted after it had opened the cache");
            } else if half == 3 && !separate {
                panic!("the original scripts are lost: the first run was interrupted after it had made the backup, then the game was updated");
            } else if half == 1 && separate {
                panic!("the original scripts are lost: the first run was interrupted after it had opened the cache, the next one writes a separate output");
            } else {
                panic!("the original scripts are lost");
            }
        }
        if at == CACHE || at == STAMP && written != fs().find(CACHE).map(|i| fs().nodes[i].mtime) {
            // the timestamp does not tell whose the cache is
            half = if stamped { 2 } else { half.max(1) };
        } else if ok {
            half = 0;
        }
        let interrupted = crash != u64::MAX || fault != u64::MAX;
        cut |= interrupted;
        assert!(!(ok && bad), "a script with an error is accepted");
        if bad {
            assert!(fs().get(CACHE).cloned() == before || fs().get(CACHE).is_some_and(|d| *d == orig), "a failed compilation changes the scripts of the game");
        }
        if crashed {
            continue;
        }
        if ok {
            let want = expected(&orig, script);
            let got = fs().get(if separate { OUT } else { CACHE }).cloned();
            assert!(got == Some(want), "the output is not what the scripts compile to");
            assert!(fs().get(if separate { CACHE } else { BACKUP }).is_some_and(|d| *d == orig), "the original scripts are not kept");
        } else {
            assert!(bad || interrupted || cut, "a run on an intact installation fails");
            assert!(bad || interrupted, "a run after an interrupted one fails");
        }
    }
    cover(1);
}
