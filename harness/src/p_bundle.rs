//! Bundles, string pools, constant pool, mapper.
use std::io::{Cursor, Seek, SeekFrom, Write};

use hashbrown::HashMap;
use redscript::bundle::*;
use redscript::bytecode::{Code, Instr, Offset};
use redscript::decode::DecodeExt;
use redscript::definition::*;
use redscript::encode::EncodeExt;
use redscript::mapper::{Mapper, MultiMapper, PoolMapper};
use redscript::Ref;

use crate::isa;
use crate::p_defs::*;
use crate::sx::*;
use crate::wire::{digest, W};

harnesses! {
    h_bundle_rt, h_bundle_alias, h_bundle_edit, h_bundle_defaults, h_bundle_seek, h_load_any, h_load_corrupt, h_load_trunc, h_load_tables, h_magic, h_bundle_many,
    h_strings, h_strings_names, h_strings_loaded, h_strings_default, h_pool_get, h_pool_mut, h_pool_iter, h_first_line,
    h_mapper, h_mapper_instr, h_mapper_one, h_timestamp,
}

pub fn crc32(b: &[u8]) -> u32 {
    crc32fast::hash(b)
}

pub struct SpecDef {
    pub name: u32,
    pub parent: u32,
    pub unk: [u8; 3],
    pub kind: u8,
    pub body: Vec<u8>,
}

pub struct Spec {
    pub version: u32,
    pub flags: u32,
    pub ts: [u8; 8],
    pub unk3: u32,
    pub chunks: u32,
    pub names: Vec<Vec<u8>>,
    pub tweak: Vec<Vec<u8>>,
    pub res: Vec<Vec<u8>>,
    pub strings: Vec<Vec<u8>>,
    pub defs: Vec<SpecDef>,
}

impl Spec {
    pub fn fixed() -> Self {
        Spec {
            version: 14,
            flags: 0,
            ts: [0, 8, 33, 125, 1, 2, 3, 4],
            unk3: 1,
            chunks: 7,
            names: vec![b"".to_vec(), b"Foo".to_vec(), b"Bar".to_vec()],
            tweak: vec![b"Items.X".to_vec()],
            res: vec![b"base\\r".to_vec()],
            strings: vec![b"".to_vec(), b"Foo".to_vec(), b"txt".to_vec()],
            defs: vec![],
        }
    }

    fn table(out: &mut W, pos: usize, bytes: &[u8], count: usize) {
        out.u32(pos as u32);
        out.u32(count as u32);
        out.u32(crc32(bytes));
    }

    /// The canonical file.
    pub fn write(&self) -> Vec<u8> {
        let mut data: Vec<u8> = vec![];
        let mut seen: Vec<(&[u8], u32)> = vec![];
        let mut tables: Vec<Vec<u8>> = vec![];
        for t in [&self.names, &self.tweak, &self.res, &self.strings] {
            let mut w = W::new();
            for s in t {
                let off = match seen.iter().find(|x| x.0 == &s[..]) {
                    Some(x) => x.1,
                    None => {
                        let off = data.len() as u32;
                        seen.push((s, off));
                        data.extend_from_slice(s);
                        data.push(0);
                        off
                    }
                };
                w.u32(off);
            }
            tables.push(w.0);
        }
        self.assemble(&data, &tables)
    }

    pub fn assemble(&self, data: &[u8], tables: &[Vec<u8>]) -> Vec<u8> {
        let p_names = 104 + data.len();
        let p_tweak = p_names + tables[0].len();
        let p_res = p_tweak + tables[1].len();
        let p_defs = p_res + tables[2].len();
        let p_str = p_defs + 20 * (self.defs.len() + 1);
        let p_body = p_str + tables[3].len();
        let mut dh = W::new();
        dh.raw(&[0; 20]);
        let mut at = p_body;
        for d in &self.defs {
            dh.u32(d.name);
            dh.u32(d.parent);
            dh.u32(at as u32);
            dh.u32(d.body.len() as u32);
            dh.u8(d.kind);
            dh.raw(&d.unk);
            at += d.body.len();
        }
        let head = |hash: u32| {
            let mut h = W::new();
            h.u32(0x5344_4552);
            h.u32(self.version);
            h.u32(self.flags);
            h.raw(&self.ts);
            h.u32(self.unk3);
            h.u32(hash);
            h.u32(self.chunks);
            Self::table(&mut h, 104, data, data.len());
            Self::table(&mut h, p_names, &tables[0], self.names.len());
            Self::table(&mut h, p_tweak, &tables[1], self.tweak.len());
            Self::table(&mut h, p_res, &tables[2], self.res.len());
            Self::table(&mut h, p_defs, &dh.0, self.defs.len() + 1);
            Self::table(&mut h, p_str, &tables[3], self.strings.len());
            h.0
        };
        let hash = crc32(&head(0xDEAD_BEEF));
        let mut out = W(head(hash));
        out.raw(data);
        out.raw(&tables[0]);
        out.raw(&tables[1]);
        out.raw(&tables[2]);
        out.raw(&dh.0);
        out.raw(&tables[3]);
        for d in &self.defs {
            out.raw(&d.body);
        }
        out.0
    }

    fn check_pool(&self, pool: &ConstantPool, defs: &[AnyDefinition]) {
        fn strs<K: DefaultString>(p: &Strings<K>, want: &[Vec<u8>], names: bool) {
            for (i, s) in want.iter().enumerate() {
                let got = p.get(PoolIndex::new(i as u32)).expect("string missing");
                if !(names && i == 0) {
                    assert!(got.as_bytes() == &s[..], "string table entry");
                    assert!(p.get_ref(PoolIndex::new(i as u32)).unwrap().as_bytes() == &s[..]);
                }
            }
            assert!(p.get(PoolIndex::new(want.len() as u32)).is_err() || (names && want.is_empty()), "string table too long");
        }
        strs(&pool.names, &self.names, true);
        strs(&pool.tweakdb_ids, &self.tweak, false);
        strs(&pool.resources, &self.res, false);
        strs(&pool.strings, &self.strings, false);
        let mut n = 0;
        for (i, d) in pool.definitions() {
            let s = &self.defs[n];
            assert!(u32::from(i) as usize == n + 1, "definition index");
            assert!(same_def(&d.value, &defs[n]), "definition value");
            assert!(u32::from(d.name) == s.name && u32::from(d.parent) == s.parent, "definition name/parent");
            assert!([d.unk1, d.unk2, d.unk3] == s.unk, "definition bytes");
            n += 1;
        }
        assert!(n == self.defs.len(), "number of definitions");
    }
}

pub fn load(b: &[u8]) -> std::io::Result<ScriptBundle> {
    ScriptBundle::load(&mut Cursor::new(b))
}

pub fn save(b: &ScriptBundle) -> Vec<u8> {
    let mut out = Cursor::new(Vec::with_capacity(512));
    b.save(&mut out).expect("saving to memory failed");
    out.into_inner()
}

fn arb_defs(kinds: &[u8], max: u64) -> (Vec<SpecDef>, Vec<AnyDefinition>) {
    let mut specs = vec![];
    let mut defs = vec![];
    for k in kinds {
        let (d, body) = arb_def(*k, max);
        specs.push(SpecDef { name: u32_(), parent: u32_(), unk: [u8_(), u8_(), u8_()], kind: *k, body });
        defs.push(d);
    }
    (specs, defs)
}

pub const KINDS: [u8; 9] = [0, 1, 2, 3, 5, 6, 7, 8, 9];

/// Canonical bundle with arbitrary header fields, arbitrary strings and an arbitrary definition of each chosen kind:
/// load gives every part back, and saving reproduces the file byte for byte.
pub fn h_bundle_rt() {
    let kind = param(0) as u8;
    let mut s = Spec::fixed();
    s.version = u32_();
    s.flags = u32_();
    s.ts = bytes();
    s.unk3 = u32_();
    s.chunks = u32_();
    s.names[1] = arb_ascii(param(1));
    s.strings[1] = arb_ascii(param(1));
    let kinds: Vec<u8> = if kind == 100 { vec![] } else if kind == 4 { vec![2, 6] } else { vec![kind, 7] };
    let (specs, defs) = arb_defs(&kinds, 1);
    s.defs = specs;
    let file = s.write();
    let b = load(&file).expect("valid bundle rejected");
    s.check_pool(&b.pool, &defs);
    let out = save(&b);
    assert!(out.len() == file.len(), "size of the saved bundle");
    assert!(out[..104] == file[..104], "header of the saved bundle");
    assert!(out == file, "saved bundle differs");
    cover(1);
    observe(digest(&out[104..]));
}

/// A bundle whose strings are stored without deduplication, out of order and overlapping: contents survive load/save/load.
pub fn h_bundle_alias() {
    let mut s = Spec::fixed();
    let data = b"xFoo\0Foo\0\0Bar\0".to_vec();
    let at = [0u32, 1, 2, 4, 5, 8, 9, 10];
    let pick = || at[choose(8) as usize];
    let offs: Vec<u32> = (0..5).map(|i| if i < param(0) { pick() } else { 5 }).collect();
    let get = |o: u32| {
        let mut e = o as usize;
        while data[e] != 0 {
            e += 1;
        }
        data[o as usize..e].to_vec()
    };
    s.names = vec![get(9), get(offs[0]), get(offs[1])];
    s.tweak = vec![get(offs[2])];
    s.res = vec![get(offs[3])];
    s.strings = vec![get(offs[4])];
    let tab = |l: &[u32]| {
        let mut w = W::new();
        for x in l {
            w.u32(*x);
        }
        w.0
    };
    let file = s.assemble(&data, &[tab(&[9, offs[0], offs[1]]), tab(&offs[2..3]), tab(&offs[3..4]), tab(&offs[4..5])]);
    let b = load(&file).expect("valid bundle rejected");
    s.check_pool(&b.pool, &[]);
    let out = save(&b);
    assert!(out == s.write(), "saved bundle is not canonical");
    let b2 = load(&out).expect("saved bundle rejected");
    s.check_pool(&b2.pool, &[]);
    assert!(save(&b2) == out, "saving twice differs");
    cover(1);
}

/// A bundle edited through the pool: the saved file is the canonical file of the edited contents.
pub fn h_bundle_edit() {
    let mut s = Spec::fixed();
    let (specs, mut defs) = arb_defs(&[6, 2], 1);
    s.defs = specs;
    let mut b = load(&s.write()).unwrap();
    // new strings in every table
    let (n, t, r, x) = (arb_ascii(2), arb_ascii(1), arb_ascii(1), arb_ascii(2));
    assume(n != b"None");
    let add = |p: &mut Vec<Vec<u8>>, s: &[u8]| match p.iter().position(|y| y == s) {
        Some(i) => i as u32,
        None => {
            p.push(s.to_vec());
            p.len() as u32 - 1
        }
    };
    fn text(b: &[u8]) -> Ref<str> {
        Ref::from(std::str::from_utf8(b).unwrap())
    }
    let ni = b.pool.names.add(text(&n));
    assert!(u32::from(ni) == add(&mut s.names, &n), "index of an added name");
    let ti = b.pool.tweakdb_ids.add(text(&t));
    assert!(u32::from(ti) == add(&mut s.tweak, &t), "index of an added id");
    let ri = b.pool.resources.add(text(&r));
    assert!(u32::from(ri) == add(&mut s.res, &r), "index of an added resource");
    let xi = b.pool.strings.add(text(&x));
    assert!(u32::from(xi) == add(&mut s.strings, &x), "index of an added string");
    // new definitions
    let kind = param(0) as u8;
    let (d, body) = arb_def(kind, param(1));
    let parent = u32_();
    let def = Definition { name: ni, parent: PoolIndex::new(parent), unk1: u8_(), unk2: u8_(), unk3: u8_(), value: d.clone() };
    let sd = SpecDef { name: u32::from(ni), parent, unk: [def.unk1, def.unk2, def.unk3], kind, body };
    match choose(3) {
        0 => {
            let i: PoolIndex<Definition> = b.pool.add_definition(def);
            assert!(u32::from(i) == 3);
            s.defs.push(sd);
            defs.push(d);
        }
        1 => {
            b.pool.put_definition(PoolIndex::<Definition>::new(2), def);
            s.defs[1] = sd;
            defs[1] = d;
        }
        _ => {
            let i: PoolIndex<Definition> = b.pool.reserve();
            b.pool.put_definition(i, def);
            b.pool.swap_definition(i, PoolIndex::new(1));
            b.pool.rename(PoolIndex::<Class>::new(3), ni);
            s.defs.push(sd);
            s.defs.swap(0, 2);
            s.defs[2].name = u32::from(ni);
            defs.push(d);
            defs.swap(0, 2);
        }
    }
    s.check_pool(&b.pool, &defs);
    let out = save(&b);
    assert!(out == s.write(), "saved bundle differs");
    let b2 = load(&out).expect("saved bundle rejected");
    s.check_pool(&b2.pool, &defs);
    cover(1);
    observe(digest(&out[104..]));
}

/// Bundles without definitions or strings.
pub fn h_bundle_defaults() {
    let mut s = Spec::fixed();
    if choose(2) == 1 {
        s.names = vec![];
    }
    if choose(2) == 1 {
        s.tweak = vec![];
    }
    if choose(2) == 1 {
        s.res = vec![];
    }
    if choose(2) == 1 {
        s.strings = vec![];
    }
    let file = s.write();
    let b = load(&file).expect("valid bundle rejected");
    s.check_pool(&b.pool, &[]);
    assert!(save(&b) == file, "saved bundle differs");
    cover(1);
}

/// Saving over an existing longer or shorter stream, from any stream position.
pub fn h_bundle_seek() {
    let mut s = Spec::fixed();
    let (specs, defs) = arb_defs(&[7], 1);
    s.defs = specs;
    let file = s.write();
    let b = load(&file).unwrap();
    let old = [0usize, 50, 104, 150, 400][choose(5) as usize];
    let mut c = Cursor::new(vec![0xEE; old]);
    c.seek(SeekFrom::Start([0u64, 3, 104, 500][choose(4) as usize])).unwrap();
    b.save(&mut c).unwrap();
    let out = c.into_inner();
    assert!(out.len() == old.max(file.len()));
    assert!(out[..file.len()] == file[..], "saved over an existing stream");
    let b2 = load(&out).unwrap();
    s.check_pool(&b2.pool, &defs);
    cover(1);
}

/// Larger pools (concrete shape): n names, n definitions.
pub fn h_bundle_many() {
    let n = param(0) as usize;
    let mut s = Spec::fixed();
    let c = u8_();
    assume(c != 0 && c < 0x80);
    for i in 0..n {
        let mut name = format!("name{i}").into_bytes();
        if i == n / 2 {
            name[0] = c;
        }
        s.names.push(name);
        s.strings.push(format!("name{}", i / 2).into_bytes());
    }
    let mut defs = vec![];
    for i in 0..n {
        let k = KINDS[i % KINDS.len()];
        let (d, body) = if i == n / 3 || k == 2 { (AnyDefinition::EnumValue(i as i64), (i as u64).to_le_bytes().to_vec()) } else { (AnyDefinition::Local(Local { type_: PoolIndex::new(i as u32), flags: LocalFlags::from_bytes([1]) }), { let mut v = (i as u32).to_le_bytes().to_vec(); v.push(1); v }) };
        s.defs.push(SpecDef { name: i as u32, parent: u32_(), unk: [0, 1, 2], kind: if body.len() == 8 { 2 } else { 7 }, body });
        defs.push(d);
    }
    let file = s.write();
    let b = load(&file).unwrap();
    s.check_pool(&b.pool, &defs);
    assert!(save(&b) == file, "saved bundle differs");
    cover(1);
}

// ------------------------------------------------------------------ malformed input

pub fn h_magic() {
    let mut file = Spec::fixed().write();
    fill(&mut file[..4]);
    let ok = file[..4] == *b"REDS";
    match load(&file) {
        Ok(_) => {
            assert!(ok, "wrong magic accepted");
            cover(1);
        }
        Err(_) => {
            assert!(!ok, "valid bundle rejected");
            cover(2);
        }
    }
}

/// What any accepted input must satisfy: its contents survive save and load.
fn accepted(b: &ScriptBundle) {
    for (i, d) in b.pool.definitions() {
        let _ = b.pool.def_name(i);
        let _ = d.source();
    }
    let out = save(b);
    let b2 = load(&out).expect("saved bundle rejected");
    let mut it = b2.pool.definitions();
    for (i, d) in b.pool.definitions() {
        let (j, e) = it.next().expect("definition lost");
        assert!(i == j && d.name == e.name && d.parent == e.parent && same_def(&d.value, &e.value), "definition changed by save and load");
    }
    assert!(it.next().is_none());
}

/// Arbitrary table sizes over an arbitrary tail.
pub fn h_load_tables() {
    let tail = param(0) as usize;
    let mut file = Spec::fixed().write();
    file.truncate(104);
    fill(&mut file[32..104]);
    file.resize(104 + tail, 0);
    fill(&mut file[104..]);
    match load(&file) {
        Ok(b) => {
            accepted(&b);
            cover(1);
        }
        Err(_) => cover(2),
    }
}

pub fn h_load_any() {
    let n = param(0) as usize;
    let mut file = vec![0u8; n];
    fill(&mut file);
    if let Ok(b) = load(&file) {
        assert!(n >= 104);
        accepted(&b);
        cover(1);
    }
    cover(2);
}

fn rich() -> Vec<u8> {
    let mut s = Spec::fixed();
    let mk = |kind: u8, body: Vec<u8>| SpecDef { name: 1, parent: 0, unk: [0; 3], kind, body };
    let w = |f: &dyn Fn(&mut W)| {
        let mut w = W::new();
        f(&mut w);
        w.0
    };
    s.defs = vec![
        mk(0, vec![5, 1, 0, 0, 0, 9, 0, 0, 0]),
        mk(1, w(&|w| { w.u8(0); w.u16(0x30); w.u32(0); w.list(&[3]); w.list(&[6]); })),
        mk(5, w(&|w| { w.u8(1); w.u32(0x1D00); w.u32(9); w.u32(77); w.u32(1); w.u8(0); w.list(&[4]); w.list(&[5]); w.u32(6); w.raw(&[6, 1, 2, 3, 4, 39]); })),
        mk(6, vec![1, 0, 0, 0, 2]),
        mk(7, vec![1, 0, 0, 0, 1]),
        mk(8, w(&|w| { w.u8(2); w.u32(1); w.u16(0x20); w.str16(b"hint"); w.u32(1); w.str16(b"a"); w.str16(b"b"); w.u32(0); })),
        mk(3, w(&|w| { w.u8(0); w.u8(4); w.list(&[8]); w.u8(0); })),
        mk(2, vec![5, 0, 0, 0, 0, 0, 0, 0]),
        mk(9, w(&|w| { w.u32(0); w.u64(1); w.str16(b"a\\b.s"); })),
    ];
    s.write()
}

/// A valid bundle with an arbitrary value written over `param(0)` bytes at any position (in steps of param(1), part param(2) of param(3)).
pub fn h_load_corrupt() {
    let mut file = rich();
    let (w, step) = (param(0) as usize, param(1) as usize);
    let (part, parts) = (param(2) as usize, param(3) as usize);
    let slots = (file.len() - w) / step + 1;
    let (lo, hi) = (slots * part / parts, slots * (part + 1) / parts);
    let at = (lo + choose((hi - lo) as u64) as usize) * step;
    fill(&mut file[at..at + w]);
    match load(&file) {
        Ok(b) => {
            accepted(&b);
            cover(1);
        }
        Err(_) => cover(2),
    }
}

/// Every strict prefix of a valid bundle is rejected.
pub fn h_load_trunc() {
    let file = rich();
    assert!(load(&file).is_ok(), "valid bundle rejected");
    let n = choose(file.len() as u64) as usize;
    assert!(load(&file[..n]).is_err(), "truncated bundle accepted");
    cover(1);
}

// ------------------------------------------------------------------ string pools

fn history<K: DefaultString>(pool: &mut Strings<K>, model: &mut Vec<Vec<u8>>, k: u64, names: bool) {
    for _ in 0..k {
        let s = arb_ascii(2);
        let t = std::str::from_utf8(&s).unwrap();
        let known = model.iter().position(|x| *x == s);
        assert!(pool.get_index(t).map(|i| u32::from(i)) == known.map(|i| i as u32), "lookup of a string");
        let i = pool.add(Ref::from(t));
        match known {
            Some(k) => {
                assert!(u32::from(i) == k as u32, "adding a known string");
                cover(1);
            }
            None => {
                assert!(u32::from(i) as usize == model.len(), "index of a new string");
                model.push(s.clone());
                cover(2);
            }
        }
        assert!(pool.get_index(t) == Some(i), "lookup of an added string");
        assert!(pool.add(Ref::from(t)) == i, "adding twice");
        // everything added earlier keeps its index and text
        for (j, s) in model.iter().enumerate() {
            if names && j == 0 {
                continue;
            }
            let ix = PoolIndex::new(j as u32);
            assert!(pool.get(ix).unwrap().as_bytes() == &s[..] && pool.get_ref(ix).unwrap().as_bytes() == &s[..], "text of an earlier string");
        }
    }
    let far = u32_();
    let r = pool.get(PoolIndex::new(far));
    assert!(r.is_ok() == ((far as usize) < model.len()) || (names && far == 0), "index out of range");
    assert!(pool.get_ref(PoolIndex::new(far)).is_ok() == r.is_ok());
}

pub fn h_strings() {
    let mut p: Strings<String> = Strings::default();
    let mut m = vec![];
    history(&mut p, &mut m, param(0), false);
}

pub fn h_strings_names() {
    let mut p: Strings<CName> = Strings::default();
    // "None" is the undefined name: it needs no entry
    assert!(p.add(Ref::from("None")).is_undefined());
    assert!(&*p.get(PoolIndex::UNDEFINED).unwrap() == "None" && p.get_ref(PoolIndex::UNDEFINED).unwrap() == "None");
    p.add(Ref::from("<reserved>"));
    let mut m = vec![b"<reserved>".to_vec()];
    history(&mut p, &mut m, param(0), true);
    assert!(p.add(Ref::from("None")).is_undefined(), "the undefined name");
    assert!(p.get_ref(PoolIndex::UNDEFINED).unwrap() == "None");
}

/// names like the reserved one: only exactly that text is the undefined name
pub fn h_strings_default() {
    let mut p: Strings<CName> = Strings::default();
    p.add(Ref::from("<reserved>"));
    let s = {
        let n = param(0) as usize;
        (0..n)
            .map(|_| {
                let b = u8_();
                assume(b != 0 && b < 0x80);
                b
            })
            .collect::<Vec<u8>>()
    };
    let t = std::str::from_utf8(&s).unwrap();
    let i = p.add(Ref::from(t));
    assert!(i.is_undefined() == (t == "None"), "only the reserved default is the undefined name");
    assert!(p.get_ref(i).unwrap().as_bytes() == &s[..], "text of a name");
    assert!(p.add(Ref::from(t)) == i, "adding twice");
    cover(if t == "None" { 1 } else { 2 });
    let mut q: Strings<String> = Strings::default();
    let j = q.add(Ref::from(t));
    assert!(u32::from(j) == 0 && q.get_ref(j).unwrap().as_bytes() == &s[..] && q.get_index(t) == Some(j), "strings have no reserved text");
}

/// pools read from a file continue with the right indexes
pub fn h_strings_loaded() {
    let mut s = Spec::fixed();
    s.strings[2] = arb_ascii(2);
    s.strings[1] = arb_ascii(1);
    assume(s.strings[1] != s.strings[2] && !s.strings[1].is_empty() && !s.strings[2].is_empty());
    let mut b = load(&s.write()).unwrap();
    let mut m = s.strings.clone();
    history(&mut b.pool.strings, &mut m, param(0), false);
    let mut m = s.names.clone();
    history(&mut b.pool.names, &mut m, 1, true);
}

// ------------------------------------------------------------------ constant pool

fn value_of(kind: u8, tag: u32) -> AnyDefinition {
    match kind {
        0 => AnyDefinition::Type(Type::Ref(PoolIndex::new(tag))),
        1 => AnyDefinition::Class(Class { visibility: Visibility::Public, flags: ClassFlags::new(), base: PoolIndex::new(tag), functions: vec![], fields: vec![], overrides: vec![] }),
        2 => AnyDefinition::EnumValue(tag as i64),
        3 => AnyDefinition::Enum(Enum { flags: 0, size: tag as u8, members: vec![], unk1: false }),
        5 => AnyDefinition::Function(Function {
            visibility: Visibility::Public,
            flags: FunctionFlags::new(),
            source: Some(SourceReference { file: PoolIndex::new(1), line: tag }),
            return_type: None,
            unk1: false,
            base_method: None,
            parameters: vec![],
            locals: vec![],
            operator: None,
            cast: 0,
            code: Code::EMPTY,
            unk2: vec![],
        }),
        6 => AnyDefinition::Parameter(Parameter { type_: PoolIndex::new(tag), flags: ParameterFlags::new() }),
        7 => AnyDefinition::Local(Local { type_: PoolIndex::new(tag), flags: LocalFlags::new() }),
        8 => AnyDefinition::Field(Field { visibility: Visibility::Public, type_: PoolIndex::new(tag), flags: FieldFlags::new(), hint: None, attributes: vec![], defaults: vec![] }),
        _ => AnyDefinition::SourceFile(SourceFile { id: tag, path_hash: 0, path: std::path::PathBuf::new() }),
    }
}

fn def_of(kind: u8, name: u32, parent: u32, tag: u32) -> Definition {
    Definition { name: PoolIndex::new(name), parent: PoolIndex::new(parent), unk1: 0, unk2: 0, unk3: 0, value: value_of(kind, tag) }
}

/// (kind, name, parent, tag)
type M = (u8, u32, u32, u32);

fn arb_pool(n: u64) -> (ConstantPool, Vec<M>) {
    let mut pool = ConstantPool::default();
    let mut model: Vec<M> = vec![(0, 0, 0, 0)];
    let _: PoolIndex<Definition> = pool.add_definition(Definition::DEFAULT);
    for i in 0..n {
        let m = (KINDS[choose(9) as usize], u32_(), u32_(), u32_() & 0xff);
        let ix: PoolIndex<Definition> = pool.add_definition(def_of(m.0, m.1, m.2, m.3));
        assert!(u32::from(ix) as u64 == i + 1, "index of an added definition");
        model.push(m);
    }
    (pool, model)
}

fn check_model(pool: &ConstantPool, model: &[M]) {
    let mut n = 1;
    for (i, d) in pool.definitions() {
        let m = &model[n];
        assert!(u32::from(i) as usize == n && u32::from(d.name) == m.1 && u32::from(d.parent) == m.2, "definition name/parent");
        assert!(same_def(&d.value, &value_of(m.0, m.3)), "definition value");
        n += 1;
    }
    assert!(n == model.len());
}

/// typed access succeeds exactly for definitions of that type, and returns that definition
pub fn h_pool_get() {
    let (mut pool, model) = arb_pool(param(0));
    let i = u32_();
    let inside = (i as usize) < model.len();
    let k = if inside { concretize(i as u64) as usize } else { usize::MAX };
    let m = if inside { Some(model[k]) } else { None };
    // slot 0 is the reserved primitive type
    let is = |kind: u8| match m { Some(m) => m.0 == kind, None => false };
    let tag = m.map(|m| m.3).unwrap_or(0);
    assert!(pool.definition(PoolIndex::<Definition>::new(i)).is_ok() == inside, "definition()");
    if let Ok(d) = pool.definition(PoolIndex::<Definition>::new(i)) {
        assert!(u32::from(d.name) == model[k].1 && u32::from(d.parent) == model[k].2, "definition()");
    }
    assert!(pool.type_(PoolIndex::new(i)).is_ok() == is(0), "type_()");
    match pool.type_(PoolIndex::new(i)) {
        Ok(Type::Ref(x)) => assert!(u32::from(*x) == tag),
        Ok(_) => assert!(i == 0),
        Err(_) => {}
    }
    assert!(pool.class(PoolIndex::new(i)).map(|c| u32::from(c.base)).ok() == is(1).then_some(tag), "class()");
    assert!(pool.enum_value(PoolIndex::new(i)).ok() == is(2).then_some(tag as i64), "enum_value()");
    assert!(pool.enum_(PoolIndex::new(i)).map(|e| e.size as u32).ok() == is(3).then_some(tag), "enum_()");
    assert!(pool.function(PoolIndex::new(i)).map(|f| f.source.as_ref().unwrap().line).ok() == is(5).then_some(tag), "function()");
    assert!(pool.parameter(PoolIndex::new(i)).map(|p| u32::from(p.type_)).ok() == is(6).then_some(tag), "parameter()");
    assert!(pool.local(PoolIndex::new(i)).map(|p| u32::from(p.type_)).ok() == is(7).then_some(tag), "local()");
    assert!(pool.field(PoolIndex::new(i)).map(|p| u32::from(p.type_)).ok() == is(8).then_some(tag), "field()");
    assert!(pool.class_mut(PoolIndex::new(i)).map(|c| u32::from(c.base)).ok() == is(1).then_some(tag), "class_mut()");
    assert!(pool.function_mut(PoolIndex::new(i)).map(|f| f.source.as_ref().unwrap().line).ok() == is(5).then_some(tag), "function_mut()");
    assert!(pool.field_mut(PoolIndex::new(i)).map(|p| u32::from(p.type_)).ok() == is(8).then_some(tag), "field_mut()");
    if let Ok(f) = pool.function_mut(PoolIndex::new(i)) {
        f.source.as_mut().unwrap().line = 5000;
        assert!(pool.function(PoolIndex::new(i)).unwrap().source.as_ref().unwrap().line == 5000);
    }
    if inside {
        cover(1);
    } else {
        cover(2);
    }
}

/// one arbitrary mutation from an arbitrary pool changes exactly what it names
pub fn h_pool_mut() {
    let (mut pool, mut model) = arb_pool(param(0));
    let n = model.len() as u64;
    for _ in 0..param(1) {
        match choose(6) {
            0 => {
                let m = (KINDS[choose(9) as usize], u32_(), u32_(), 7);
                let i: PoolIndex<Definition> = pool.add_definition(def_of(m.0, m.1, m.2, m.3));
                assert!(u32::from(i) as usize == model.len(), "index of an added definition");
                model.push(m);
            }
            1 => {
                let i = below(n) as u32;
                let m = (KINDS[choose(9) as usize], u32_(), u32_(), 9);
                assume(i != 0);
                pool.put_definition(PoolIndex::<Class>::new(i), def_of(m.0, m.1, m.2, m.3));
                model[concretize(i as u64) as usize] = m;
            }
            2 => {
                let (i, j) = (below(n), below(n));
                assume(i != 0 && j != 0);
                pool.swap_definition(PoolIndex::<Class>::new(i as u32), PoolIndex::<Class>::new(j as u32));
                model.swap(concretize(i) as usize, concretize(j) as usize);
            }
            3 => {
                let i = below(n);
                assume(i != 0);
                let name = u32_();
                pool.rename(PoolIndex::<Class>::new(i as u32), PoolIndex::new(name));
                model[concretize(i) as usize].1 = name;
            }
            4 => {
                let name = u32_();
                let i: PoolIndex<Class> = pool.stub_definition(PoolIndex::new(name));
                assert!(u32::from(i) as usize == model.len());
                assert!(matches!(pool.type_(i.cast()), Ok(Type::Prim)) && u32::from(pool.definition(i).unwrap().name) == name, "stub definition");
                pool.put_definition(i, def_of(2, name, 0, 3));
                model.push((2, name, 0, 3));
            }
            _ => {
                let i: PoolIndex<Class> = pool.reserve();
                assert!(u32::from(i) as usize == model.len(), "reserved index");
                pool.put_definition(i, def_of(1, 4, 5, 6));
                model.push((1, 4, 5, 6));
            }
        }
        check_model(&pool, &model);
    }
    cover(1);
}

pub fn h_pool_iter() {
    let (pool, model) = arb_pool(param(0));
    check_model(&pool, &model);
    let roots: Vec<u32> = pool.roots().map(|(i, _)| u32::from(i)).collect();
    let want: Vec<u32> = (1..model.len()).filter(|i| model[*i].2 == 0).map(|i| i as u32).collect();
    assert!(roots == want, "roots");
    let back: Vec<u32> = pool.definitions().rev().map(|(i, _)| u32::from(i)).collect();
    assert!(back == (1..model.len()).rev().map(|i| i as u32).collect::<Vec<_>>(), "reverse iteration");
    cover(1);
}

/// the first line of a class is the smallest line of its functions
pub fn h_first_line() {
    let mut pool = ConstantPool::default();
    let _: PoolIndex<Definition> = pool.add_definition(Definition::DEFAULT);
    let mut lines = vec![];
    let mut fs = vec![];
    for i in 0..3u32 {
        let line = u32_();
        let src = choose(3);
        let mut d = def_of(5, 0, 0, line);
        if let AnyDefinition::Function(f) = &mut d.value {
            if src == 1 {
                f.source = None;
            }
        }
        if src == 2 {
            d = def_of(7, 0, 0, line);
        }
        let ix: PoolIndex<Function> = pool.add_definition(d);
        if choose(2) == 1 {
            fs.push(ix);
            if src == 0 {
                lines.push(line);
            }
        }
        let d = pool.definition(ix).unwrap();
        assert!(d.first_line(&pool) == (src == 0).then_some(line), "line of a function");
        assert!(d.source().map(|s| s.line) == (src == 0).then_some(line), "source of a function");
    }
    let mut c = def_of(1, 0, 0, 0);
    if let AnyDefinition::Class(c) = &mut c.value {
        c.functions = fs;
    }
    let got = c.first_line(&pool);
    match got {
        None => {
            assert!(lines.is_empty(), "line of a class");
            cover(1);
        }
        Some(l) => {
            assert!(lines.contains(&l) && lines.iter().all(|x| l <= *x), "line of a class");
            cover(2);
        }
    }
    assert!(c.source().is_none());
}

// ------------------------------------------------------------------ mapper

fn mapper(k: usize) -> (HashMap<PoolIndex<Class>, PoolIndex<Class>>, Vec<(u32, u32)>) {
    let mut h = HashMap::new();
    let mut m: Vec<(u32, u32)> = vec![];
    for _ in 0..k {
        let (a, b) = (u32_(), u32_());
        for x in &m {
            assume(x.0 != a);
        }
        h.insert(PoolIndex::new(a), PoolIndex::new(b));
        m.push((a, b));
    }
    (h, m)
}

fn ap(m: &[(u32, u32)], x: u32) -> u32 {
    m.iter().find(|y| y.0 == x).map(|y| y.1).unwrap_or(x)
}

fn fmap(m: &[(u32, u32)]) -> HashMap<PoolIndex<Function>, PoolIndex<Function>> {
    m.iter().map(|x| (PoolIndex::new(x.0), PoolIndex::new(x.1))).collect()
}

/// Definitions of every kind: exactly the class and function references are renamed, once each.
pub fn h_mapper() {
    let kind = param(0) as u8;
    let (cm, c) = mapper(2);
    let (fm, f) = mapper(1);
    let fm = fmap(&f);
    let (def, body) = arb_def(kind, 1);
    let (name, parent) = (u32_(), u32_());
    let mut pool = ConstantPool::default();
    let _: PoolIndex<Definition> = pool.add_definition(Definition::DEFAULT);
    let ix: PoolIndex<Definition> =
        pool.add_definition(Definition { name: PoolIndex::new(name), parent: PoolIndex::new(parent), unk1: 1, unk2: 2, unk3: 3, value: def.clone() });
    // a neighbour, to see that every definition is visited
    let p2 = u32_();
    let ix2: PoolIndex<Definition> = pool.add_definition(def_of(8, 4, p2, 5));
    PoolMapper::default().with_class_mapper(MultiMapper::new(cm)).with_function_mapper(MultiMapper::new(fm)).map(&mut pool);
    let got = pool.definition(ix).unwrap();
    assert!(u32::from(got.name) == name && (got.unk1, got.unk2, got.unk3) == (1, 2, 3), "mapper changed an unrelated part");
    let want_parent = match kind {
        5 | 8 => ap(&c, parent),
        6 | 7 => ap(&f, parent),
        _ => parent,
    };
    assert!(u32::from(got.parent) == want_parent, "mapped parent of kind {kind}");
    let mut want = def;
    if let AnyDefinition::Class(x) = &mut want {
        x.base = PoolIndex::new(ap(&c, u32::from(x.base)));
    }
    assert!(same_def(&got.value, &want), "mapped definition of kind {kind}");
    assert!(u32::from(pool.definition(ix2).unwrap().parent) == ap(&c, p2), "mapped parent of a second definition");
    cover(1);
}

/// Every instruction inside a function body.
pub fn h_mapper_instr() {
    let op = choose(isa::NUM_OPS as u64) as u8;
    assume(op != isa::BREAKPOINT && op != isa::PROFILING);
    let (cm, c) = mapper(2);
    let (_, f) = mapper(1);
    let mut v = [0u64; 4];
    for (i, k) in isa::layout(op).unwrap().iter().enumerate() {
        v[i] = match k {
            isa::K::B => u8_() as u64,
            isa::K::H => u16_() as u64,
            isa::K::W | isa::K::R | isa::K::S => u32_() as u64,
            isa::K::Q => u64_(),
            isa::K::O(_) => 0,
        };
    }
    if op == 12 || op == 13 {
        v = [0; 4];
    }
    let offs = (Offset::new(i16_()), Offset::new(i16_()));
    let before = isa::build(op, &v, offs);
    let mut pool = ConstantPool::default();
    let _: PoolIndex<Definition> = pool.add_definition(Definition::DEFAULT);
    let mut d = def_of(5, 0, 0, 1);
    if let AnyDefinition::Function(x) = &mut d.value {
        x.code = Code::new(vec![before.clone(), Instr::Return, before.clone()]);
    }
    let ix: PoolIndex<Function> = pool.add_definition(d);
    PoolMapper::default().with_function_mapper(MultiMapper::new(fmap(&f))).with_class_mapper(MultiMapper::new(cm)).map(&mut pool);
    let want = match before {
        Instr::Construct(n, x) => Instr::Construct(n, PoolIndex::new(ap(&c, u32::from(x)))),
        Instr::New(x) => Instr::New(PoolIndex::new(ap(&c, u32::from(x)))),
        Instr::DynamicCast(x, n) => Instr::DynamicCast(PoolIndex::new(ap(&c, u32::from(x))), n),
        Instr::InvokeStatic(o, l, x, u) => Instr::InvokeStatic(o, l, PoolIndex::new(ap(&f, u32::from(x))), u),
        other => other,
    };
    let code = &pool.function(ix).unwrap().code;
    assert!(code.len() == 3 && code.as_ref()[1] == Instr::Return, "mapped body");
    assert!(code.as_ref()[0] == want && code.as_ref()[2] == want, "mapped instruction {op}");
    cover(op as u32);
}

/// a mapper for classes alone leaves functions alone and vice versa; the empty mapper changes nothing
pub fn h_mapper_one() {
    let (cm, c) = mapper(1);
    let which = choose(3);
    let (p1, p2, b) = (u32_(), u32_(), u32_());
    let mut pool = ConstantPool::default();
    let _: PoolIndex<Definition> = pool.add_definition(Definition::DEFAULT);
    let i1: PoolIndex<Definition> = pool.add_definition(def_of(8, 0, p1, 1));
    let i2: PoolIndex<Definition> = pool.add_definition(def_of(6, 0, p2, 1));
    let i3: PoolIndex<Class> = pool.add_definition(def_of(1, 0, 0, b));
    match which {
        0 => PoolMapper::default().map(&mut pool),
        1 => PoolMapper::default().with_class_mapper(MultiMapper::new(cm)).map(&mut pool),
        _ => PoolMapper::default().with_function_mapper(MultiMapper::new(fmap(&c))).map(&mut pool),
    }
    let (cl, fu) = (if which == 1 { &c[..] } else { &[] }, if which == 2 { &c[..] } else { &[] });
    assert!(u32::from(pool.definition(i1).unwrap().parent) == ap(cl, p1), "mapped field");
    assert!(u32::from(pool.definition(i2).unwrap().parent) == ap(fu, p2), "mapped parameter");
    assert!(u32::from(pool.class(i3).unwrap().base) == ap(cl, b), "mapped base");
    cover(which as u32);
}

// ------------------------------------------------------------------ timestamps

pub fn h_timestamp() {
    let b: [u8; 8] = bytes();
    let t: Timestamp = Cursor::new(&b[..]).decode().unwrap();
    let v = u64::from_le_bytes(b);
    let f = |at: u32, n: u32| (v >> at) & ((1 << n) - 1);
    assert!(t.day() as u64 == f(10, 5) && t.month() as u64 == f(15, 5) && t.year() as u64 == f(20, 12), "date");
    assert!(t.millis() as u64 == f(32, 10) && t.seconds() as u64 == f(42, 6) && t.minutes() as u64 == f(48, 6) && t.hours() as u64 == f(54, 10), "time");
    let mut out = vec![];
    out.encode(&t).unwrap();
    assert!(out[..] == b[..], "timestamp encoding");
    assert!(Cursor::new(&b[..7]).decode::<Timestamp>().is_err());
    cover(1);
    observe(v);
}
