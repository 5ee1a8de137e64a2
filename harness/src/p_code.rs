//! Instruction codec, size accounting, code framing, label resolution, cursors.
use std::io::Cursor;

use redscript::bytecode::{Code, CodeCursor, CursorError, Instr, Label, Location, Offset};
use redscript::decode::{Decode, DecodeExt};
use redscript::encode::{Encode, EncodeExt};

use crate::isa;
use crate::sx::*;

harnesses! {
    h_instr_wire, h_instr_any, h_instr_short, h_breakpoint, h_profiling,
    h_size, h_code_rt, h_code_any, h_code_big, h_code_profiling,
    h_loc_rel, h_resolve,
    h_cursor_seek, h_cursor_walk, h_cursor_range, h_cursor_rel, h_cursor_long,
}

fn operands(op: u8) -> [u64; 4] {
    let mut v = [0u64; 4];
    for (i, k) in isa::layout(op).unwrap().iter().enumerate() {
        v[i] = match k {
            isa::K::B => u8_() as u64,
            isa::K::H => u16_() as u64,
            isa::K::W | isa::K::R | isa::K::S => u32_() as u64,
            isa::K::Q => u64_(),
            isa::K::O(_) => 0,
        };
    }
    v
}

fn enc<E: Encode>(e: &E) -> Vec<u8> {
    let mut out = Vec::with_capacity(64);
    e.encode(&mut out).expect("encoding to memory failed");
    out
}

fn float_bits(i: &Instr<Offset>) -> Option<u64> {
    match i {
        Instr::F32Const(f) => Some(f.to_bits() as u64),
        Instr::F64Const(f) => Some(f.to_bits()),
        _ => None,
    }
}

fn same(a: &Instr<Offset>, b: &Instr<Offset>) -> bool {
    match (float_bits(a), float_bits(b)) {
        (Some(x), Some(y)) => isa::opcode(a) == isa::opcode(b) && x == y,
        _ => a == b,
    }
}

fn op_with_layout() -> u8 {
    let op = choose(isa::NUM_OPS as u64) as u8;
    assume(op != isa::BREAKPOINT && op != isa::PROFILING);
    op
}

/// Every instruction with arbitrary operands: encode gives the reference bytes, decode gives the instruction back.
pub fn h_instr_wire() {
    let op = op_with_layout();
    let v = operands(op);
    let offs = if op == isa::TARGET { (0, 0) } else { (i16_(), i16_()) };
    let instr = isa::build(op, &v, (Offset::new(offs.0), Offset::new(offs.1)));
    let want = isa::wire(op, &v, offs);
    let got = enc(&instr);
    assert!(got.len() == want.len(), "encoded length of opcode {op}");
    assert!(got == want, "encoding of opcode {op}");
    let mut cur = Cursor::new(&want[..]);
    let back: Instr<Offset> = cur.decode().expect("valid instruction rejected");
    assert!(cur.position() as usize == want.len(), "decode consumed a wrong number of bytes");
    assert!(same(&back, &instr), "decode(encode(i)) differs for opcode {op}");
    cover(op as u32);
    observe(got.iter().fold(0u64, |a, b| a.wrapping_mul(31).wrapping_add(*b as u64)));
}

/// Every byte string: decode either fails cleanly or yields an instruction that re-encodes to the bytes consumed.
pub fn h_instr_any() {
    let buf: [u8; 24] = bytes();
    let op = buf[0];
    let n = u32::from_le_bytes([buf[1], buf[2], buf[3], buf[4]]);
    assume(op != isa::PROFILING || n <= 2 || n == 20 || n == 30);
    let mut cur = Cursor::new(&buf[..]);
    let res: Result<Instr<Offset>, _> = cur.decode();
    match res {
        Ok(instr) => {
            assert!(op < isa::NUM_OPS, "unknown opcode accepted");
            let n = cur.position() as usize;
            assert!(isa::opcode(&instr) == op, "opcode decoded as a different instruction");
            let out = enc(&instr);
            assert!(out.len() == n, "re-encoding has a different length");
            if op == isa::BREAKPOINT {
                assert!(n == 20);
                for i in 0..n {
                    if i == 11 {
                        assert!(out[i] == (buf[i] != 0) as u8);
                    } else {
                        assert!(out[i] == buf[i], "breakpoint byte changed");
                    }
                }
                cover(1);
            } else {
                assert!(out[..] == buf[..n], "re-encoding differs from the input");
                if op == isa::PROFILING {
                    cover(2);
                } else {
                    assert!(n == isa::wire_len(concretize(op as u64) as u8), "consumed length");
                    cover(3);
                }
            }
        }
        Err(_) => {
            assert!(op >= isa::NUM_OPS || op == isa::PROFILING, "known opcode rejected");
            cover(4);
        }
    }
}

/// Truncated input is an error, never a guess and never a panic.
pub fn h_instr_short() {
    let op = choose(isa::NUM_OPS as u64) as u8;
    assume(op != isa::PROFILING);
    let need = isa::wire_len(op);
    let have = choose(20) as usize;
    assume(have < need);
    let mut buf: [u8; 20] = bytes();
    buf[0] = op;
    let mut cur = Cursor::new(&buf[..have]);
    let res: Result<Instr<Offset>, _> = cur.decode();
    assert!(res.is_err(), "truncated instruction accepted");
    cover(1);
}

pub fn h_breakpoint() {
    let mut buf: [u8; 20] = bytes();
    buf[0] = isa::BREAKPOINT;
    let instr: Instr<Offset> = Cursor::new(&buf[..]).decode().unwrap();
    assert!(instr.size() == 20);
    buf[11] = (buf[11] != 0) as u8;
    assert!(enc(&instr)[..] == buf[..]);
    assert!(matches!(instr, Instr::Breakpoint(_)));
    cover(1);
}

/// StartProfiling: u32-prefixed UTF-8 name then one byte.
pub fn h_profiling() {
    let n = param(0) as usize;
    let mut buf = vec![isa::PROFILING, n as u8, (n >> 8) as u8, (n >> 16) as u8, 0];
    buf.resize(5 + n + 1, b'x');
    let sym = n.min(4);
    fill(&mut buf[5..5 + sym]);
    if n > 4 {
        for i in 0..sym {
            assume(buf[5 + i] < 0x80);
        }
    }
    buf[5 + n] = u8_();
    let valid = std::str::from_utf8(&buf[5..5 + n]).is_ok();
    let res: Result<Instr<Offset>, _> = Cursor::new(&buf[..]).decode();
    match res {
        Ok(instr) => {
            assert!(valid);
            assert!(instr.size() as usize == 6 + n, "profiling size");
            assert!(enc(&instr) == buf);
            cover(1);
        }
        Err(_) => assert!(!valid),
    }
}

/// size() equals the accounted size for every instruction, for labels and offsets alike.
pub fn h_size() {
    let op = op_with_layout();
    let v = operands(op);
    let offs = (i16_(), i16_());
    let a = isa::build(op, &v, (Offset::new(offs.0), Offset::new(offs.1)));
    let b = isa::build(op, &v, (Label { index: u64_() as usize }, Label { index: u64_() as usize }));
    assert!(a.size() == isa::ref_size(op), "size of opcode {op}");
    assert!(b.size() == isa::ref_size(op), "size of opcode {op} with labels");
    cover(op as u32);
    observe(a.size() as u64);
}

/// one representative opcode per operand shape
const CLASSES: [u8; 13] = [0, 4, 31, 5, 6, 16, 24, 7, 29, 35, 28, 36, 15];

fn class_seq(k: usize) -> Vec<(u8, [u64; 4], (i16, i16))> {
    (0..k)
        .map(|_| {
            let op = CLASSES[choose(CLASSES.len() as u64) as usize];
            let v = operands(op);
            let offs = if isa::layout(op).unwrap().iter().any(|k| matches!(k, isa::K::O(_))) { (i16_(), i16_()) } else { (0, 0) };
            (op, v, offs)
        })
        .collect()
}

fn instr_of(x: &(u8, [u64; 4], (i16, i16))) -> Instr<Offset> {
    isa::build(x.0, &x.1, (Offset::new(x.2 .0), Offset::new(x.2 .1)))
}

/// A body of k instructions: the length prefix counts accounted sizes, the bytes are the instructions' encodings
/// in order, and decoding gives the same sequence back without touching the bytes that follow.
pub fn h_code_rt() {
    let seq = class_seq(param(0) as usize);
    let code = Code::new(seq.iter().map(instr_of).collect());
    let got = enc(&code);
    let total: u32 = seq.iter().map(|x| isa::ref_size(x.0) as u32).sum();
    let mut want = total.to_le_bytes().to_vec();
    for x in &seq {
        want.extend(isa::wire(x.0, &x.1, x.2));
    }
    assert!(got == want, "encoded body");
    let len = want.len();
    want.extend([u8_(), u8_()]);
    let mut cur = Cursor::new(&want[..]);
    let back: Code<Offset> = cur.decode().expect("valid body rejected");
    assert!(cur.position() as usize == len, "body decoding consumed a wrong number of bytes");
    assert!(back.len() == seq.len());
    for (x, y) in seq.iter().zip(back.as_ref()) {
        assert!(*y == instr_of(x), "body instruction changed");
    }
    cover(1);
    observe(total as u64);
}

/// Any bytes as a body.
pub fn h_code_any() {
    let mut buf: [u8; 15] = bytes();
    assume(buf[0] as u64 <= param(0));
    for i in 4..15 {
        assume(buf[i] != isa::PROFILING); // string contents are the subject of h_profiling and h_code_profiling
    }
    buf[1] = 0;
    buf[2] = 0;
    buf[3] = 0;
    let mut cur = Cursor::new(&buf[..]);
    let res: Result<Code<Offset>, _> = cur.decode();
    if let Ok(code) = res {
        let n = cur.position() as usize;
        let sizes: Vec<u32> = code.as_ref().iter().map(|i| i.size() as u32).collect();
        let total: u32 = sizes.iter().sum();
        let declared = buf[0] as u32;
        assert!(total >= declared, "body shorter than declared");
        if let Some(last) = sizes.last() {
            assert!(total - last < declared, "instructions decoded past the declared end");
        } else {
            assert!(declared == 0);
        }
        let out = enc(&code);
        assert!(out.len() == n);
        assert!(u32::from_le_bytes([out[0], out[1], out[2], out[3]]) == total);
        assert!(out[4..] == buf[4..n] || code.as_ref().iter().any(|i| matches!(i, Instr::Breakpoint(_))));
        cover(1);
    } else {
        cover(2);
    }
}

/// Bodies beyond 64 KiB of accounted size keep a correct (32-bit) length prefix.
pub fn h_code_big() {
    let n = param(0) as usize;
    let a = u32_();
    let b = u32_();
    let mk = |i: usize| Instr::<Offset>::EnumConst(redscript::bundle::PoolIndex::new(a), redscript::bundle::PoolIndex::new(if i + 1 == n { b } else { i as u32 }));
    let code = Code::new((0..n).map(mk).collect());
    let got = enc(&code);
    assert!(got.len() == 4 + 9 * n);
    assert!(u32::from_le_bytes([got[0], got[1], got[2], got[3]]) == 17 * n as u32, "length prefix of a large body");
    let back: Code<Offset> = Cursor::new(&got[..]).decode().unwrap();
    assert!(back.len() == n && back.as_ref()[n - 1] == mk(n - 1) && back.as_ref()[0] == mk(0), "large body");
    cover(1);
}

/// Body containing profiling and breakpoint instructions.
pub fn h_code_profiling() {
    let n = choose(6) as usize;
    let mut body = vec![isa::PROFILING, n as u8, 0, 0, 0];
    for _ in 0..n {
        let c = u8_();
        assume(c < 0x80);
        body.push(c);
    }
    body.push(u8_());
    let mut bp: [u8; 20] = bytes();
    bp[0] = isa::BREAKPOINT;
    assume(bp[11] < 2);
    let first = bool_();
    let mut buf = (6 + n as u32 + 20 + 1).to_le_bytes().to_vec();
    if first {
        buf.extend(&bp);
        buf.extend(&body);
    } else {
        buf.extend(&body);
        buf.extend(&bp);
    }
    buf.push(39);
    let mut cur = Cursor::new(&buf[..]);
    let code: Code<Offset> = cur.decode().unwrap();
    assert!(cur.position() as usize == buf.len() && code.len() == 3);
    assert!(matches!(code.as_ref()[2], Instr::Return));
    assert!(enc(&code) == buf, "body with profiling/breakpoint instructions");
    cover(1);
}

/// relative/absolute are inverse for every pair of locations in the 64 KiB address space.
pub fn h_loc_rel() {
    let a = Location::new(u16_());
    let b = Location::new(u16_());
    let off = a.relative(b);
    assert!(off.value as u16 == a.value.wrapping_sub(b.value), "relative offset");
    assert!(off.absolute(b) == a, "absolute(relative) differs");
    let o = Offset::new(i16_());
    assert!(o.absolute(b).value == b.value.wrapping_add(o.value as u16), "absolute");
    assert!(o.absolute(b).relative(b) == o);
    cover(1);
    observe(off.value as u16 as u64);
}

/// Label resolution: same instruction, same operands, each label replaced by the distance to its target.
pub fn h_resolve() {
    let op = op_with_layout();
    let v = operands(op);
    let n = 3u64;
    let targets = [Location::new(u16_()), Location::new(u16_()), Location::new(u16_())];
    let (i, j) = (below(n) as usize, below(n) as usize);
    let at = Location::new(u16_());
    let pick = |k: usize| {
        let t = if k == 0 { targets[0] } else if k == 1 { targets[1] } else { targets[2] };
        Offset::new(t.value.wrapping_sub(at.value) as i16)
    };
    let want = isa::build(op, &v, (pick(i), pick(j)));
    let got = isa::build(op, &v, (Label { index: i }, Label { index: j })).resolve_labels(at, &targets);
    assert!(same(&got, &want), "label resolution of opcode {op}");
    cover(op as u32);
    observe(isa::opcode(&got) as u64);
}

fn starts(seq: &[(u8, [u64; 4], (i16, i16))]) -> Vec<u16> {
    let mut p = vec![0u16];
    for x in seq {
        p.push(p[p.len() - 1] + isa::ref_size(x.0));
    }
    p
}

/// seek_abs succeeds exactly at instruction boundaries (and the end), and lands on that instruction.
pub fn h_cursor_seek() {
    let seq = class_seq(param(0) as usize);
    let code: Vec<_> = seq.iter().map(instr_of).collect();
    let pos = starts(&seq);
    let mut c = CodeCursor::new(&code);
    for _ in 0..choose(seq.len() as u64 + 1) {
        c.pop().unwrap();
    }
    let before = c.pos();
    let t = u16_();
    let k = (0..pos.len()).find(|i| pos[*i] == t);
    match (c.seek_abs(Location::new(t)), k) {
        (Ok(()), Some(k)) => {
            assert!(c.pos().value == t, "position after seek");
            assert!(c.peek().as_ref() == code.get(k), "instruction after seek");
            cover(1);
        }
        (Err(CursorError::InvalidInstructionOffset(l)), None) => {
            assert!(l.value == t && c.pos() == before);
            cover(2);
        }
        _ => panic!("seek to {t}: boundaries {pos:?}"),
    }
}

/// Walking: pop yields the instructions in order, pos is the start of the next one, then EndOfCode; the iterator agrees.
pub fn h_cursor_walk() {
    let seq = class_seq(param(0) as usize);
    let code = Code::new(seq.iter().map(instr_of).collect());
    let pos = starts(&seq);
    let mut c = code.cursor();
    let mut it = code.iter();
    for (i, x) in seq.iter().enumerate() {
        assert!(c.pos().value == pos[i], "cursor position");
        assert!(c.peek() == Some(instr_of(x)), "peek");
        assert!(c.pop().unwrap() == instr_of(x), "pop");
        let (l, y) = it.next().expect("iterator ended early");
        assert!(l.value == pos[i] && y == instr_of(x), "iterator item");
    }
    assert!(c.pos().value == pos[seq.len()] && c.peek().is_none());
    assert!(matches!(c.pop(), Err(CursorError::EndOfCode)));
    assert!(c.pos().value == pos[seq.len()] && it.next().is_none());
    assert!(code.len() == seq.len() && code.is_empty() == seq.is_empty());
    cover(1);
}

/// range(a, b) yields exactly the instructions starting in [a, b) with their locations, or an error.
pub fn h_cursor_range() {
    let seq = class_seq(param(0) as usize);
    let code: Vec<_> = seq.iter().map(instr_of).collect();
    let pos = starts(&seq);
    let mut c = CodeCursor::new(&code);
    for _ in 0..choose(seq.len() as u64 + 1) {
        c.pop().unwrap();
    }
    let (a, b) = (u16_(), u16_());
    let (i, j) = ((0..pos.len()).find(|i| pos[*i] == a), (0..pos.len()).find(|i| pos[*i] == b));
    match (c.range(Location::new(a), Location::new(b)), i, j) {
        (Ok(it), Some(i), Some(j)) if i <= j => {
            let mut n = 0;
            for (l, x) in it {
                assert!(i + n < j, "range yields too much");
                assert!(l.value == pos[i + n] && x == code[i + n], "range item");
                n += 1;
            }
            assert!(n == j - i, "range ends early");
            cover(1);
        }
        (Err(_), Some(i), Some(j)) => {
            assert!(i > j, "valid range rejected");
            cover(2);
        }
        (Err(_), _, _) => cover(3),
        _ => panic!("range {a}..{b} accepted"),
    }
}

/// seek_rel is seek_abs relative to the current position.
pub fn h_cursor_rel() {
    let seq = class_seq(param(0) as usize);
    let code: Vec<_> = seq.iter().map(instr_of).collect();
    let pos = starts(&seq);
    let mut c = CodeCursor::new(&code);
    let k = choose(seq.len() as u64 + 1) as usize;
    for _ in 0..k {
        c.pop().unwrap();
    }
    let o = i16_();
    let t = pos[k].wrapping_add(o as u16);
    let ok = c.seek_rel(Offset::new(o)).is_ok();
    assert!(ok == pos.contains(&t), "seek_rel");
    assert!(c.pos().value == if ok { t } else { pos[k] }, "position after seek_rel");
    if ok && o != 0 {
        cover(1);
    }
}

/// Long bodies: every location of the address space against a body of n instructions of mixed sizes.
pub fn h_cursor_long() {
    let n = param(0) as usize;
    let seq: Vec<(u8, [u64; 4], (i16, i16))> =
        (0..n).map(|i| (CLASSES[(i * 7 + i / 5) % CLASSES.len()], [0; 4], (0, 0))).collect();
    let code: Vec<_> = seq.iter().map(instr_of).collect();
    let pos = starts(&seq);
    let mut c = CodeCursor::new(&code);
    let t = u16_();
    let ok = c.seek_abs(Location::new(t)).is_ok();
    let mut k = usize::MAX;
    for (i, p) in pos.iter().enumerate() {
        if *p == t {
            k = i;
        }
    }
    assert!(ok == (k != usize::MAX), "seek in a long body");
    if ok {
        let k = concretize(k as u64) as usize;
        assert!(c.pos().value == t && c.peek().as_ref() == code.get(k), "landing in a long body");
        let m = c.range(Location::ZERO, Location::new(t)).unwrap().count();
        assert!(m == k, "range to a location in a long body");
        let l = c.range(Location::new(t), Location::new(pos[n])).unwrap().last();
        match l {
            Some((l, x)) => assert!(l.value == pos[n - 1] && x == code[n - 1]),
            None => assert!(k == n),
        }
        cover(1);
    } else {
        cover(2);
    }
    observe(t as u64);
}
