//! Primitive values and definition bodies.
use std::io::{self, Cursor, Read, Write};
use std::path::PathBuf;

use redscript::bundle::{DefinitionHeader, DefinitionType, PoolIndex};
use redscript::bytecode::{Code, Instr, Offset};
use redscript::decode::{Decode, DecodeExt};
use redscript::definition::*;
use redscript::encode::{Encode, EncodeExt};
use redscript::io::StreamOffset;

use crate::sx::*;
use crate::wire::{digest, W};

harnesses! {
    h_prim, h_prim_short, h_cstring, h_pstring, h_plist, h_bool_any,
    h_def_rt, h_def_class, h_def_any, h_def_short, h_def_tag,
    h_stream_write, h_stream_read, h_faulty_read, h_faulty_write,
}

fn enc<E: Encode>(e: &E) -> Vec<u8> {
    let mut out = Vec::with_capacity(64);
    e.encode(&mut out).expect("encoding to memory failed");
    out
}

fn rt<T: Encode + Decode>(v: &T, want: &[u8]) -> T {
    let got = enc(v);
    assert!(got == want, "encoded bytes");
    let mut buf = got;
    buf.push(u8_());
    let mut cur = Cursor::new(&buf[..]);
    let back: T = cur.decode().expect("valid value rejected");
    assert!(cur.position() as usize == want.len(), "bytes consumed");
    back
}

pub fn h_prim() {
    let k = choose(13);
    match k {
        0 => { let v = u8_(); assert!(rt(&v, &[v]) == v); }
        1 => { let v = i8_(); assert!(rt(&v, &[v as u8]) == v); }
        2 => { let v = u16_(); assert!(rt(&v, &[v as u8, (v >> 8) as u8]) == v); }
        3 => { let v = i16_(); assert!(rt(&v, &[v as u8, (v >> 8) as u8]) == v); }
        4 => { let v = u32_(); assert!(rt(&v, &[v as u8, (v >> 8) as u8, (v >> 16) as u8, (v >> 24) as u8]) == v); }
        5 => { let v = i32_(); assert!(rt(&v, &[v as u8, (v >> 8) as u8, (v >> 16) as u8, (v >> 24) as u8]) == v); }
        6 => { let v = u64_(); let w: Vec<u8> = (0..8).map(|i| (v >> (8 * i)) as u8).collect(); assert!(rt(&v, &w) == v); }
        7 => { let v = i64_(); let w: Vec<u8> = (0..8).map(|i| (v >> (8 * i)) as u8).collect(); assert!(rt(&v, &w) == v); }
        8 => { let v = bool_(); assert!(rt(&v, &[v as u8]) == v); }
        9 => { let v = u32_(); let f = f32::from_bits(v); assert!(rt(&f, &[v as u8, (v >> 8) as u8, (v >> 16) as u8, (v >> 24) as u8]).to_bits() == v); }
        10 => { let v = u64_(); let w: Vec<u8> = (0..8).map(|i| (v >> (8 * i)) as u8).collect(); assert!(rt(&f64::from_bits(v), &w).to_bits() == v); }
        11 => { let v: [u8; 5] = bytes(); assert!(rt(&v, &v) == v); }
        _ => { let v = u32_(); let i = PoolIndex::<Class>::new(v); let b = rt(&i, &v.to_le_bytes()); assert!(b == i && u32::from(b) == v && b.is_undefined() == (v == 0)); }
    }
    cover(k as u32);
}

fn width(k: u64) -> usize {
    [1, 1, 2, 2, 4, 4, 8, 8, 1, 4, 8, 5, 4][k as usize]
}

fn short<T: Decode>(b: &[u8]) -> bool {
    Cursor::new(b).decode::<T>().is_err()
}

/// every truncation of every primitive is an error
pub fn h_prim_short() {
    let k = choose(13);
    let n = choose(8) as usize;
    assume(n < width(k));
    let buf: [u8; 8] = bytes();
    let b = &buf[..n];
    let err = match k {
        0 => short::<u8>(b), 1 => short::<i8>(b), 2 => short::<u16>(b), 3 => short::<i16>(b), 4 => short::<u32>(b), 5 => short::<i32>(b),
        6 => short::<u64>(b), 7 => short::<i64>(b), 8 => short::<bool>(b), 9 => short::<f32>(b), 10 => short::<f64>(b), 11 => short::<[u8; 5]>(b),
        _ => short::<PoolIndex<Class>>(b),
    };
    assert!(err, "truncated value accepted");
    cover(k as u32);
}

pub fn h_bool_any() {
    let b = u8_();
    assert!(Cursor::new(&[b][..]).decode::<bool>().unwrap() == (b != 0));
    cover(1);
}

/// NUL-terminated strings
pub fn h_cstring() {
    let n = param(0) as usize;
    let mut buf = vec![0u8; n];
    fill(&mut buf);
    let end = buf.iter().position(|b| *b == 0);
    let mut cur = Cursor::new(&buf[..]);
    match (cur.decode::<String>(), end) {
        (Ok(s), Some(e)) => {
            assert!(s.as_bytes() == &buf[..e], "string contents");
            assert!(cur.position() as usize == e + 1, "string end");
            assert!(std::str::from_utf8(&buf[..e]).is_ok());
            let out = enc(&s.as_str());
            assert!(out[..] == buf[..e + 1], "string encoding");
            cover(1);
        }
        (Err(_), Some(e)) => {
            assert!(std::str::from_utf8(&buf[..e]).is_err(), "valid string rejected");
            cover(2);
        }
        (Err(_), None) => cover(3),
        (Ok(_), None) => panic!("unterminated string accepted"),
    }
}

fn pstr<S: Decode + Into<u32> + Encode + TryFrom<usize>>(len_bytes: usize)
where
    S::Error: std::fmt::Debug,
{
    let n = param(0) as usize;
    let mut buf = vec![0u8; len_bytes + n];
    fill(&mut buf);
    let mut len = 0usize;
    for i in 0..len_bytes {
        len |= (buf[i] as usize) << (8 * i);
    }
    let mut cur = Cursor::new(&buf[..]);
    match cur.decode_str_prefixed::<S>() {
        Ok(s) => {
            assert!(s.len() == len && len <= n, "string length");
            let k = concretize(len as u64) as usize;
            assert!(s.as_bytes() == &buf[len_bytes..len_bytes + k], "string contents");
            assert!(cur.position() as usize == len_bytes + k);
            let mut out = vec![];
            out.encode_str_prefixed::<S>(&s).unwrap();
            assert!(out[..] == buf[..len_bytes + k], "string encoding");
            cover(1);
        }
        Err(_) => {
            if len <= n {
                let k = concretize(len as u64) as usize;
                assert!(std::str::from_utf8(&buf[len_bytes..len_bytes + k]).is_err(), "valid string rejected");
                cover(2);
            } else {
                cover(3);
            }
        }
    }
}

pub fn h_pstring() {
    match choose(3) {
        0 => pstr::<u8>(1),
        1 => pstr::<u16>(2),
        _ => pstr::<u32>(4),
    }
}

/// length-prefixed lists
pub fn h_plist() {
    let n = choose(4) as usize;
    let xs: Vec<u32> = (0..n).map(|_| u32_()).collect();
    let mut out = vec![];
    match choose(3) {
        0 => {
            let v: Vec<PoolIndex<Field>> = xs.iter().map(|x| PoolIndex::new(*x)).collect();
            out.encode_slice_prefixed::<u32, _>(&v).unwrap();
            let mut w = W::new();
            w.list(&xs);
            assert!(out == w.0, "list encoding");
            let mut cur = Cursor::new(&out[..]);
            assert!(cur.decode_vec_prefixed::<u32, PoolIndex<Field>>().unwrap() == v, "list decoding");
            assert!(cur.position() as usize == out.len());
            for cut in 0..out.len() {
                assert!(Cursor::new(&out[..cut]).decode_vec_prefixed::<u32, PoolIndex<Field>>().is_err(), "truncated list accepted");
            }
        }
        1 => {
            let v: Vec<u16> = xs.iter().map(|x| *x as u16).collect();
            out.encode_slice_prefixed::<u8, _>(&v).unwrap();
            assert!(out.len() == 1 + 2 * n && out[0] as usize == n);
            assert!(Cursor::new(&out[..]).decode_vec_prefixed::<u8, u16>().unwrap() == v, "list decoding");
        }
        _ => {
            out.encode_slice(&xs).unwrap();
            assert!(out.len() == 4 * n);
            assert!(Cursor::new(&out[..]).decode_vec::<u32, u32>(n as u32).unwrap() == xs);
            assert!(Cursor::new(&out[..]).decode_bytes(4 * n as u32).unwrap() == out);
        }
    }
    cover(1);
    observe(digest(&out));
}

// ------------------------------------------------------------------ definitions

fn idx<A>(w: &mut W) -> PoolIndex<A> {
    let v = u32_();
    w.u32(v);
    PoolIndex::new(v)
}

fn arb_list(max: u64) -> Vec<u32> {
    let n = choose(max + 1) as usize;
    (0..n).map(|_| u32_()).collect()
}

fn pidx<A>(v: &[u32]) -> Vec<PoolIndex<A>> {
    v.iter().map(|x| PoolIndex::new(*x)).collect()
}

fn arb_vis(w: &mut W) -> Visibility {
    let v = choose(3) as u8;
    w.u8(v);
    [Visibility::Public, Visibility::Protected, Visibility::Private][v as usize]
}

/// arbitrary printable-range text without NUL
pub fn arb_ascii(max: u64) -> Vec<u8> {
    let n = choose(max + 1) as usize;
    (0..n)
        .map(|_| {
            let b = u8_();
            assume(b != 0 && b < 0x80);
            b
        })
        .collect()
}

fn arb_str(max: u64) -> String {
    // the bytes are ASCII, so this cannot fail
    unsafe { String::from_utf8_unchecked(arb_ascii(max)) }
}

fn props(max: u64, w: &mut W) -> Vec<Property> {
    let n = choose(max + 1);
    w.u32(n as u32);
    (0..n)
        .map(|_| {
            let (name, value) = (arb_str(1), arb_str(1));
            w.str16(name.as_bytes());
            w.str16(value.as_bytes());
            Property { name, value }
        })
        .collect()
}

fn put_bit(v: u32, bit: u32, on: bool) -> u32 {
    if on {
        v | (1 << bit)
    } else {
        v & !(1 << bit)
    }
}

/// a short body: its value and its bytes
fn arb_code(n: u64, w: &mut W) -> Code<Offset> {
    let mut is = vec![];
    let mut size = 0u32;
    let mut b = W::new();
    for i in 0..n {
        if i % 2 == 0 {
            let v = u32_();
            b.u8(6);
            b.u32(v);
            size += 5;
            is.push(Instr::I32Const(v as i32));
        } else {
            b.u8(39);
            size += 1;
            is.push(Instr::Return);
        }
    }
    w.u32(size);
    w.raw(&b.0);
    Code::new(is)
}

/// An arbitrary definition of the given kind together with its documented encoding.
pub fn arb_def(kind: u8, max: u64) -> (AnyDefinition, Vec<u8>) {
    let mut w = W::new();
    let def = match kind {
        0 => {
            let t = choose(7) as u8;
            w.u8(t);
            let r = match t {
                0 => Type::Prim,
                1 => Type::Class,
                2 => Type::Ref(idx(&mut w)),
                3 => Type::WeakRef(idx(&mut w)),
                4 => Type::Array(idx(&mut w)),
                5 => {
                    let i = idx(&mut w);
                    let n = u32_();
                    w.u32(n);
                    Type::StaticArray(i, n)
                }
                _ => Type::ScriptRef(idx(&mut w)),
            };
            AnyDefinition::Type(r)
        }
        1 => {
            let visibility = arb_vis(&mut w);
            let f = u16_();
            let base = u32_();
            let (fs, xs, os) = (arb_list(max), arb_list(max), arb_list(max));
            let mut flags = put_bit(f as u32, 4, !fs.is_empty());
            flags = put_bit(flags, 5, !xs.is_empty());
            flags = put_bit(flags, 8, !os.is_empty());
            w.u16(flags as u16);
            w.u32(base);
            for l in [&fs, &xs, &os] {
                if !l.is_empty() {
                    w.list(l);
                }
            }
            AnyDefinition::Class(Class {
                visibility,
                flags: ClassFlags::from_bytes(f.to_le_bytes()),
                base: PoolIndex::new(base),
                functions: pidx(&fs),
                fields: pidx(&xs),
                overrides: pidx(&os),
            })
        }
        2 => {
            let v = u64_();
            w.u64(v);
            AnyDefinition::EnumValue(v as i64)
        }
        3 => {
            let (flags, size, unk1) = (u8_(), u8_(), bool_());
            let m = arb_list(max);
            w.u8(flags);
            w.u8(size);
            w.list(&m);
            w.u8(unk1 as u8);
            AnyDefinition::Enum(Enum { flags, size, members: pidx(&m), unk1 })
        }
        5 => {
            let visibility = arb_vis(&mut w);
            let f = u32_();
            let native = choose(2) == 1;
            let is_cast = choose(2) == 1;
            let unk4 = choose(2) == 1;
            assume((f >> 4 & 1 == 1) == native);
            assume((f >> 13 & 1 == 1) == is_cast);
            assume((f >> 23 & 1 == 1) == unk4);
            let source = if native { None } else { Some((u32_(), u32_())) };
            let ret = if choose(2) == 1 { Some((u32_(), bool_())) } else { None };
            let base = if choose(2) == 1 { Some(u32_()) } else { None };
            let (ps, ls) = (arb_list(max), arb_list(max));
            let op = if choose(2) == 1 { Some(u32_()) } else { None };
            let cast = if is_cast { u8_() } else { 0 };
            let u2 = if unk4 { arb_list(max) } else { vec![] };
            let mut code_w = W::new();
            let code = arb_code(choose(3), &mut code_w);
            let mut fl = f;
            fl = put_bit(fl, 7, op.is_some());
            fl = put_bit(fl, 8, ret.is_some());
            fl = put_bit(fl, 9, base.is_some());
            fl = put_bit(fl, 10, !ps.is_empty() || !u2.is_empty());
            fl = put_bit(fl, 11, !ls.is_empty());
            fl = put_bit(fl, 12, !code.is_empty());
            w.u32(fl);
            if let Some((a, b)) = source {
                w.u32(a);
                w.u32(b);
            }
            if let Some((t, u)) = ret {
                w.u32(t);
                w.u8(u as u8);
            }
            if let Some(b) = base {
                w.u32(b);
            }
            if !ps.is_empty() || !u2.is_empty() {
                w.list(&ps);
            }
            if !ls.is_empty() {
                w.list(&ls);
            }
            if let Some(o) = op {
                w.u32(o);
            }
            if is_cast {
                w.u8(cast);
            }
            if !code.is_empty() {
                w.raw(&code_w.0);
            }
            if unk4 {
                w.list(&u2);
            }
            AnyDefinition::Function(Function {
                visibility,
                flags: FunctionFlags::from_bytes(f.to_le_bytes()),
                source: source.map(|(a, b)| SourceReference { file: PoolIndex::new(a), line: b }),
                return_type: ret.map(|r| PoolIndex::new(r.0)),
                unk1: ret.map(|r| r.1).unwrap_or(false),
                base_method: base.map(PoolIndex::new),
                parameters: pidx(&ps),
                locals: pidx(&ls),
                operator: op,
                cast,
                code,
                unk2: pidx(&u2),
            })
        }
        6 => {
            let t = idx(&mut w);
            let f = u8_();
            w.u8(f);
            AnyDefinition::Parameter(Parameter { type_: t, flags: ParameterFlags::from_bytes([f]) })
        }
        7 => {
            let t = idx(&mut w);
            let f = u8_();
            w.u8(f);
            AnyDefinition::Local(Local { type_: t, flags: LocalFlags::from_bytes([f]) })
        }
        8 => {
            let visibility = arb_vis(&mut w);
            let type_ = idx(&mut w);
            let f = u16_();
            let hint = if choose(2) == 1 { Some(arb_str(2)) } else { None };
            w.u16(put_bit(f as u32, 5, hint.is_some()) as u16);
            if let Some(h) = &hint {
                w.str16(h.as_bytes());
            }
            let attributes = props(max, &mut w);
            let defaults = props(max, &mut w);
            AnyDefinition::Field(Field { visibility, type_, flags: FieldFlags::from_bytes(f.to_le_bytes()), hint, attributes, defaults })
        }
        9 => {
            let (id, path_hash) = (u32_(), u64_());
            let p = arb_ascii(3);
            for b in &p {
                assume(*b != b'\\');
            }
            w.u32(id);
            w.u64(path_hash);
            w.u16(p.len() as u16);
            for b in &p {
                w.u8(if *b == b'/' { b'\\' } else { *b });
            }
            AnyDefinition::SourceFile(SourceFile { id, path_hash, path: PathBuf::from(unsafe { String::from_utf8_unchecked(p) }) })
        }
        _ => unreachable!(),
    };
    (def, w.0)
}

pub fn dtype(kind: u8) -> DefinitionType {
    match kind {
        0 => DefinitionType::Type,
        1 => DefinitionType::Class,
        2 => DefinitionType::EnumValue,
        3 => DefinitionType::Enum,
        4 => DefinitionType::BitField,
        5 => DefinitionType::Function,
        6 => DefinitionType::Parameter,
        7 => DefinitionType::Local,
        8 => DefinitionType::Field,
        _ => DefinitionType::SourceFile,
    }
}

fn same_flags(a: u32, b: u32, derived: &[u32]) -> bool {
    let mut m = u32::MAX;
    for d in derived {
        m &= !(1 << d);
    }
    a & m == b & m
}

pub fn fun_bits(f: FunctionFlags) -> u32 {
    u32::from_le_bytes(f.into_bytes())
}

/// Field-by-field equality; flags that merely record the presence of optional parts are compared through the parts.
pub fn same_def(a: &AnyDefinition, b: &AnyDefinition) -> bool {
    match (a, b) {
        (AnyDefinition::Type(x), AnyDefinition::Type(y)) => match (x, y) {
            (Type::Prim, Type::Prim) | (Type::Class, Type::Class) => true,
            (Type::Ref(x), Type::Ref(y)) | (Type::WeakRef(x), Type::WeakRef(y)) | (Type::Array(x), Type::Array(y)) | (Type::ScriptRef(x), Type::ScriptRef(y)) => x == y,
            (Type::StaticArray(x, n), Type::StaticArray(y, m)) => x == y && n == m,
            _ => false,
        },
        (AnyDefinition::Class(x), AnyDefinition::Class(y)) => {
            x.visibility == y.visibility
                && same_flags(u16::from_le_bytes(x.flags.into_bytes()) as u32, u16::from_le_bytes(y.flags.into_bytes()) as u32, &[4, 5, 8])
                && x.base == y.base
                && x.functions == y.functions
                && x.fields == y.fields
                && x.overrides == y.overrides
        }
        (AnyDefinition::EnumValue(x), AnyDefinition::EnumValue(y)) => x == y,
        (AnyDefinition::Enum(x), AnyDefinition::Enum(y)) => x.flags == y.flags && x.size == y.size && x.members == y.members && x.unk1 == y.unk1,
        (AnyDefinition::Function(x), AnyDefinition::Function(y)) => {
            x.visibility == y.visibility
                && same_flags(fun_bits(x.flags), fun_bits(y.flags), &[7, 8, 9, 10, 11, 12])
                && x.source.as_ref().map(|s| (s.file, s.line)) == y.source.as_ref().map(|s| (s.file, s.line))
                && x.return_type == y.return_type
                && x.unk1 == y.unk1
                && x.base_method == y.base_method
                && x.parameters == y.parameters
                && x.locals == y.locals
                && x.operator == y.operator
                && x.cast == y.cast
                && x.code == y.code
                && x.unk2 == y.unk2
        }
        (AnyDefinition::Parameter(x), AnyDefinition::Parameter(y)) => x.type_ == y.type_ && x.flags.into_bytes() == y.flags.into_bytes(),
        (AnyDefinition::Local(x), AnyDefinition::Local(y)) => x.type_ == y.type_ && x.flags.into_bytes() == y.flags.into_bytes(),
        (AnyDefinition::Field(x), AnyDefinition::Field(y)) => {
            x.visibility == y.visibility
                && x.type_ == y.type_
                && same_flags(u16::from_le_bytes(x.flags.into_bytes()) as u32, u16::from_le_bytes(y.flags.into_bytes()) as u32, &[5])
                && x.hint == y.hint
                && x.attributes == y.attributes
                && x.defaults == y.defaults
        }
        (AnyDefinition::SourceFile(x), AnyDefinition::SourceFile(y)) => x.id == y.id && x.path_hash == y.path_hash && x.path == y.path,
        _ => false,
    }
}

fn roundtrip(kind: u8, max: u64) {
    let (def, want) = arb_def(kind, max);
    let got = enc(&def);
    assert!(got.len() == want.len(), "encoded length of a definition of kind {kind}");
    assert!(got == want, "encoding of a definition of kind {kind}");
    // placed at an offset inside a file, followed by other data
    let at = choose(2) as usize * 3;
    let mut buf: Vec<u8> = vec![0xAB; at];
    buf.extend_from_slice(&want);
    buf.extend_from_slice(&[u8_(), 0xFF, 0xFF, 0xFF, 0xFF]);
    let header = DefinitionHeader {
        name: PoolIndex::new(u32_()),
        parent: PoolIndex::new(u32_()),
        offset: at as u32,
        size: want.len() as u32,
        type_: dtype(kind),
        unk1: u8_(),
        unk2: u8_(),
        unk3: u8_(),
    };
    let mut cur = Cursor::new(&buf[..]);
    let back = Definition::decode(&mut cur, &header).expect("valid definition rejected");
    assert!(cur.position() as usize == at + want.len(), "bytes consumed by a definition of kind {kind}");
    assert!(same_def(&back.value, &def), "decoded definition of kind {kind} differs");
    assert!(back.name == header.name && back.parent == header.parent, "definition name/parent");
    assert!(back.unk1 == header.unk1 && back.unk2 == header.unk2 && back.unk3 == header.unk3, "definition bytes");
    let again = enc(&back.value);
    assert!(again == want, "re-encoding of a definition of kind {kind} differs");
    assert!(back.value.type_() as u8 == kind, "definition kind");
    cover(1);
    observe(digest(&got));
}

pub fn h_def_rt() {
    roundtrip(param(0) as u8, param(1));
}

/// accessors of the flag words name the documented bits
pub fn h_def_class() {
    let f = u32_();
    let fl = FunctionFlags::from_bytes(f.to_le_bytes());
    let bit = |n: u32| f >> n & 1 == 1;
    assert!(fl.is_static() == bit(0) && fl.is_exec() == bit(1) && fl.is_timer() == bit(2) && fl.is_final() == bit(3) && fl.is_native() == bit(4), "function flags");
    assert!(fl.is_callback() == bit(6) && fl.is_operator() == bit(7) && fl.has_return_value() == bit(8) && fl.has_base_method() == bit(9), "function flags");
    assert!(fl.has_parameters() == bit(10) && fl.has_locals() == bit(11) && fl.has_body() == bit(12) && fl.is_cast() == bit(13) && fl.is_implicit_cast() == bit(14), "function flags");
    assert!(fl.is_thread_safe() == bit(18) && fl.is_const() == bit(19) && fl.is_quest() == bit(22), "function flags");
    assert!(fun_bits(fl) == f, "function flags bits");
    let c = ClassFlags::from_bytes([f as u8, (f >> 8) as u8]);
    assert!(c.is_native() == bit(0) && c.is_abstract() == bit(1) && c.is_final() == bit(2) && c.is_struct() == bit(3) && c.has_functions() == bit(4), "class flags");
    assert!(c.has_fields() == bit(5) && c.is_import_only() == bit(6) && c.is_test_only() == bit(7) && c.has_overrides() == bit(8), "class flags");
    let x = FieldFlags::from_bytes([f as u8, (f >> 8) as u8]);
    assert!(x.is_native() == bit(0) && x.is_editable() == bit(1) && x.is_inline() == bit(2) && x.is_const() == bit(3) && x.is_replicated() == bit(4), "field flags");
    assert!(x.has_hint() == bit(5) && x.is_instance_editable() == bit(6) && x.has_default() == bit(7) && x.is_persistent() == bit(8), "field flags");
    assert!(x.is_test_only() == bit(9) && x.is_browsable() == bit(10), "field flags");
    let p = ParameterFlags::from_bytes([f as u8]);
    assert!(p.is_optional() == bit(0) && p.is_out() == bit(1) && p.is_short_circuit() == bit(2) && p.is_const() == bit(3), "parameter flags");
    assert!(LocalFlags::from_bytes([f as u8]).is_const() == bit(0), "local flags");
    cover(1);
}

/// Any bytes as a definition body: an error, or a value that survives its own encoding.
pub fn h_def_any() {
    let kind = param(0) as u8;
    let n = param(1) as usize;
    let mut buf = vec![0u8; n];
    fill(&mut buf);
    let header = DefinitionHeader { name: PoolIndex::new(1), parent: PoolIndex::new(2), offset: 0, size: n as u32, type_: dtype(kind), unk1: 0, unk2: 0, unk3: 0 };
    if kind == 5 {
        // bodies are the subject of the code harnesses
        assume(buf[2] & 0x10 == 0);
    }
    match Definition::decode(&mut Cursor::new(&buf[..]), &header) {
        Ok(d) => {
            assert!(kind != 4, "bit fields are not supported");
            let out = enc(&d.value);
            let h2 = DefinitionHeader { size: out.len() as u32, ..header };
            let d2 = Definition::decode(&mut Cursor::new(&out[..]), &h2).expect("re-encoded definition rejected");
            assert!(same_def(&d2.value, &d.value), "definition of kind {kind} changed by re-encoding");
            cover(1);
        }
        Err(_) => cover(2),
    }
}

/// truncated definitions are errors
pub fn h_def_short() {
    let kind = param(0) as u8;
    let (_, want) = arb_def(kind, 1);
    let n = choose(80) as usize;
    assume(n < want.len());
    let header = DefinitionHeader { name: PoolIndex::new(1), parent: PoolIndex::new(2), offset: 0, size: want.len() as u32, type_: dtype(kind), unk1: 0, unk2: 0, unk3: 0 };
    assert!(Definition::decode(&mut Cursor::new(&want[..n]), &header).is_err(), "truncated definition of kind {kind} accepted");
    let far = DefinitionHeader { offset: 0x8000_0000 | u32_(), ..header };
    assert!(Definition::decode(&mut Cursor::new(&want[..]), &far).is_err(), "definition outside of the file accepted");
    cover(1);
}

/// definition headers: layout and type tags
pub fn h_def_tag() {
    let b: [u8; 20] = bytes();
    match Cursor::new(&b[..]).decode::<DefinitionHeader>() {
        Ok(h) => {
            assert!(b[16] < 10, "unknown definition type accepted");
            assert!(u32::from(h.name).to_le_bytes() == b[0..4] && u32::from(h.parent).to_le_bytes() == b[4..8], "definition header");
            assert!(h.offset.to_le_bytes() == b[8..12] && h.size.to_le_bytes() == b[12..16], "definition header");
            assert!(h.unk1 == b[17] && h.unk2 == b[18] && h.unk3 == b[19], "definition header");
            assert!(enc(&h)[..] == b[..], "definition header encoding");
            cover(1);
        }
        Err(_) => {
            assert!(b[16] >= 10, "known definition type rejected");
            cover(2);
        }
    }
    let n = choose(20) as usize;
    assert!(Cursor::new(&b[..n]).decode::<DefinitionHeader>().is_err());
}

// ------------------------------------------------------------------ streams

/// A reader/writer that transfers an arbitrary amount per call and may fail or be interrupted at any call.
struct Flaky {
    data: Vec<u8>,
    pos: usize,
    calls: usize,
    max_calls: usize,
    faults: bool,
    interrupts: usize,
}

impl Flaky {
    fn new(data: Vec<u8>, max_calls: usize, faults: bool) -> Self {
        Flaky { data, pos: 0, calls: 0, max_calls, faults, interrupts: 1 }
    }
    fn amount(&mut self, avail: usize) -> io::Result<usize> {
        self.calls += 1;
        if self.calls > self.max_calls {
            return Ok(avail);
        }
        if avail == 0 {
            return Ok(0);
        }
        if self.interrupts > 0 && choose(2) == 1 {
            self.interrupts -= 1;
            return Err(io::ErrorKind::Interrupted.into());
        }
        if self.faults && choose(2) == 1 {
            return Err(io::ErrorKind::TimedOut.into());
        }
        Ok(choose(avail.min(3) as u64) as usize + 1)
    }
}

impl Read for Flaky {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let avail = buf.len().min(self.data.len() - self.pos);
        let n = self.amount(avail)?;
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

impl Write for Flaky {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let n = self.amount(buf.len())?;
        self.data.extend_from_slice(&buf[..n]);
        self.pos += n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// the tracked offset is the number of bytes the inner writer accepted, whatever it accepts or fails
pub fn h_stream_write() {
    let start = choose(2) as usize * 5;
    let mut s = if start == 0 {
        StreamOffset::new_zeroed(Flaky::new(vec![], 4, true))
    } else {
        StreamOffset::new_zeroed(Flaky::new(vec![], 4, true))
    };
    let v = u32_();
    let w = u16_();
    let ok = (|| -> io::Result<()> {
        s.encode(&v)?;
        s.encode(&w)?;
        s.write(&[1, 2, 3])?;
        s.flush()
    })()
    .is_ok();
    let off = s.offset();
    let inner = s.into_inner();
    assert!(off == inner.data.len(), "tracked offset differs from the bytes written");
    let mut all = v.to_le_bytes().to_vec();
    all.extend_from_slice(&w.to_le_bytes());
    all.extend_from_slice(&[1, 2, 3]);
    assert!(inner.data[..] == all[..off], "bytes written");
    if ok {
        assert!(off > 6 && off <= 9);
        cover(1);
    } else {
        cover(2);
    }
    observe(digest(&inner.data));
}

pub fn h_stream_read() {
    let data: [u8; 8] = bytes();
    let mut s = StreamOffset::new_zeroed(Flaky::new(data.to_vec(), 4, true));
    let mut b = [0u8; 4];
    let r = s.read(&mut b);
    let first = s.offset();
    if let Ok(n) = r {
        assert!(n == first && b[..n] == data[..n], "bytes read");
    } else {
        assert!(first == 0);
    }
    let r2 = s.decode::<u16>();
    let off = s.offset();
    let inner = s.into_inner();
    assert!(off == inner.pos, "tracked offset differs from the bytes read");
    if let Ok(v) = r2 {
        assert!(off == first + 2 && v.to_le_bytes() == data[first..first + 2], "value read");
        cover(1);
    } else {
        cover(2);
    }
    // a seekable stream starts at its current position
    let p = u32_() as u64;
    let mut c = Cursor::new(vec![0u8; 4]);
    c.set_position(p);
    assert!(StreamOffset::new_seekable(c).unwrap().offset() as u64 == p, "initial offset");
}

/// decoding through a reader that returns short reads and interrupts gives the same value as from memory
pub fn h_faulty_read() {
    let kind = param(0) as u8;
    let data: Vec<u8> = match kind {
        0 => vec![6, u8_(), u8_(), u8_(), u8_()],
        1 => vec![15, u8_(), 0, 0, 0, 0, 0, u8_(), u8_()],
        _ => vec![2, 0, b'a', b'b', u8_() & 0x7f],
    };
    let mut f = Flaky::new(data.clone(), 5, false);
    let mut c = Cursor::new(&data[..]);
    if kind < 2 {
        let a: Instr<Offset> = f.decode().expect("short reads must not fail");
        let b: Instr<Offset> = c.decode().unwrap();
        assert!(a == b, "value decoded through short reads");
    } else {
        let a = f.decode_str_prefixed::<u16>().expect("short reads must not fail");
        let b = c.decode_str_prefixed::<u16>().unwrap();
        assert!(a == b, "string decoded through short reads");
    }
    assert!(f.pos as u64 == c.position(), "bytes consumed");
    cover(1);
}

/// an encoder either writes everything or reports the error
pub fn h_faulty_write() {
    let v = Instr::<Offset>::EnumConst(PoolIndex::new(u32_()), PoolIndex::new(u32_()));
    let want = enc(&v);
    let mut f = Flaky::new(vec![], 5, true);
    let r = v.encode(&mut f);
    assert!(f.data[..] == want[..f.data.len()], "bytes written");
    if r.is_ok() {
        assert!(f.data.len() == want.len(), "partial write reported as success");
        cover(1);
    } else {
        cover(2);
    }
}
