//! Fixed pool and reference reading of instruction streams, used by the decompiler harnesses.
use redscript::ast::{Constant, Expr, Literal, Seq, SourceAst, TypeName};
use redscript::bundle::{ConstantPool, PoolIndex};
use redscript::bytecode::{Code, Instr, Location, Offset};
use redscript::definition::*;
use redscript::Ref;

use crate::isa;
use crate::sx::*;

pub const INT32: u32 = 1;
pub const FLOAT: u32 = 2;
pub const BASE: u32 = 3;
pub const CLS: u32 = 4;
pub const REF_CLS: u32 = 5;
pub const VEC: u32 = 6;
pub const COLOR: u32 = 7;
pub const RED: u32 = 8;
pub const BLUE: u32 = 9;
pub const GLOB: u32 = 10;
pub const CAST: u32 = 11;
pub const SMETH: u32 = 12;
pub const METH: u32 = 13;
pub const BMETH: u32 = 14;
pub const OTHER: u32 = 15;
pub const P0: u32 = 16;
pub const P1: u32 = 17;
pub const LA: u32 = 18;
pub const LB: u32 = 19;
pub const LC: u32 = 20;
pub const FLD: u32 = 21;
pub const FST: u32 = 22;
pub const ARR: u32 = 23;
pub const WREF: u32 = 24;
pub const SREF: u32 = 25;
pub const SARR: u32 = 26;
pub const BOTHER: u32 = 27;
/// a conversion that lacks its result type
pub const CASTV: u32 = 28;
pub const OPS: u32 = 29;
pub const BINOPS: [(&str, &str); 22] = [
    ("OperatorAssignAdd", "+="),
    ("OperatorAssignSubtract", "-="),
    ("OperatorAssignMultiply", "*="),
    ("OperatorAssignDivide", "/="),
    ("OperatorAssignOr", "|="),
    ("OperatorAssignAnd", "&="),
    ("OperatorLogicOr", "||"),
    ("OperatorLogicAnd", "&&"),
    ("OperatorOr", "|"),
    ("OperatorXor", "^"),
    ("OperatorAnd", "&"),
    ("OperatorEqual", "=="),
    ("OperatorNotEqual", "!="),
    ("OperatorLess", "<"),
    ("OperatorLessEqual", "<="),
    ("OperatorGreater", ">"),
    ("OperatorGreaterEqual", ">="),
    ("OperatorAdd", "+"),
    ("OperatorSubtract", "-"),
    ("OperatorMultiply", "*"),
    ("OperatorDivide", "/"),
    ("OperatorModulo", "%"),
];
pub const UNOPS: [(&str, &str); 3] = [("OperatorBitNot", "~"), ("OperatorLogicNot", "!"), ("OperatorNeg", "-")];

/// Definition `i` of the pool: its name (None: not named) - the reference's own view.
pub fn def_name(i: u32) -> &'static str {
    const N: [&str; 29] = [
        "", "Int32", "Float", "Base", "Cls", "ref:Cls", "Vec", "Color", "Red", "Blue", "glob;Int32", "Cast;Int32;Float", "smeth;", "meth;Int32",
        "meth;Int32", "other;", "p0", "p1", "la", "lb", "lc", "fld", "fst", "array:Int32", "wref:Cls", "script_ref:Int32", "array:ref:Cls",
        "bother;", "Cast;Int32;Bool",
    ];
    N[i as usize]
}

pub fn op_name(k: u32) -> String {
    let n = if k < 22 { BINOPS[k as usize].0 } else { UNOPS[k as usize - 22].0 };
    format!("{n};Int32")
}

pub fn def_name_owned(i: u32) -> String {
    if i >= OPS {
        op_name(i - OPS)
    } else {
        def_name(i).to_owned()
    }
}

pub const STRINGS: [&str; 3] = ["", "hi", "a\"b\\c\n'\u{e9}\u{1}"];
pub const NAMES0: [&str; 3] = ["None", "nm", "q\"\\"];

pub fn ix<A>(i: u32) -> PoolIndex<A> {
    PoolIndex::new(i)
}

pub fn func(flags: FunctionFlags, code: Vec<Instr<Offset>>) -> Function {
    Function {
        visibility: Visibility::Public,
        flags,
        source: None,
        return_type: None,
        unk1: false,
        base_method: None,
        parameters: vec![],
        locals: vec![],
        operator: None,
        cast: 0,
        code: Code::new(code),
        unk2: vec![],
    }
}

pub fn class(flags: ClassFlags, base: u32) -> Class {
    Class { visibility: Visibility::Public, flags, base: ix(base), functions: vec![], fields: vec![], overrides: vec![] }
}

pub fn field(t: u32) -> Field {
    Field { visibility: Visibility::Private, type_: ix(t), flags: FieldFlags::new(), hint: None, attributes: vec![], defaults: vec![] }
}

pub fn world(ops: bool) -> ConstantPool {
    let mut p = ConstantPool::default();
    p.names.add(Ref::from(""));
    for s in &NAMES0[1..] {
        p.names.add(Ref::from(*s));
    }
    for s in STRINGS {
        p.strings.add(Ref::from(s));
        p.tweakdb_ids.add(Ref::from(s));
        p.resources.add(Ref::from(s));
    }
    let st = FunctionFlags::new().with_is_static(true);
    let me = FunctionFlags::new();
    let d0: PoolIndex<Definition> = p.add_definition(Definition::DEFAULT);
    assert!(u32::from(d0) == 0);
    for i in 1..OPS {
        let n = p.names.add(Ref::from(def_name(i)));
        let d = match i {
            INT32 | FLOAT => Definition::type_(n, Type::Prim),
            REF_CLS => Definition::type_(n, Type::Ref(ix(CLS))),
            WREF => Definition::type_(n, Type::WeakRef(ix(CLS))),
            SREF => Definition::type_(n, Type::ScriptRef(ix(INT32))),
            ARR => Definition::type_(n, Type::Array(ix(INT32))),
            SARR => Definition::type_(n, Type::Array(ix(REF_CLS))),
            BASE => Definition::class(n, class(ClassFlags::new(), 0)),
            CLS => Definition::class(n, class(ClassFlags::new(), BASE)),
            VEC => Definition::class(n, class(ClassFlags::new().with_is_struct(true), 0)),
            COLOR => Definition::enum_(n, Enum { flags: 0, size: 4, members: vec![ix(RED), ix(BLUE)], unk1: false }),
            RED => Definition::enum_value(n, ix(COLOR), 0),
            BLUE => Definition::enum_value(n, ix(COLOR), 1),
            GLOB => Definition::function(n, ix(0), func(st, vec![])),
            CAST => {
                let mut f = func(st, vec![]);
                f.return_type = Some(ix(FLOAT));
                Definition::function(n, ix(0), f)
            }
            SMETH => Definition::function(n, ix(CLS), func(st, vec![])),
            METH | OTHER => Definition::function(n, ix(CLS), func(me, vec![])),
            BMETH | BOTHER => Definition::function(n, ix(BASE), func(me, vec![])),
            CASTV => Definition::function(n, ix(0), func(st, vec![])),
            P0 | P1 => Definition::param(n, ix(METH), Parameter { type_: ix(INT32), flags: ParameterFlags::new() }),
            LA | LC => Definition::local(n, ix(METH), Local::new(ix(INT32), LocalFlags::new())),
            LB => Definition::local(n, ix(METH), Local::new(ix(REF_CLS), LocalFlags::new())),
            FLD => Definition::field(n, ix(CLS), field(INT32)),
            _ => Definition::field(n, ix(VEC), field(INT32)),
        };
        let j: PoolIndex<Definition> = p.add_definition(d);
        assert!(u32::from(j) == i);
    }
    if ops {
        for k in 0..25 {
            let n = p.names.add(Ref::from(op_name(k).as_str()));
            let _: PoolIndex<Function> = p.add_definition(Definition::function(n, ix(0), func(st, vec![])));
        }
    }
    p
}

/// the function being decompiled: Cls.meth with the given locals
pub fn subject(p: &ConstantPool, locals: &[u32], code: Vec<Instr<Offset>>) -> Definition {
    let mut f = func(FunctionFlags::new().with_has_body(true), code);
    f.locals = locals.iter().map(|i| ix(*i)).collect();
    Definition::function(p.definition(ix::<Definition>(METH)).unwrap().name, ix(CLS), f)
}

// ------------------------------------------------------------------ canonical form of decompiled trees

pub fn s_str(s: &str, o: &mut Vec<u8>) {
    o.push(s.len() as u8);
    o.extend_from_slice(s.as_bytes());
}

pub fn s_type(t: &TypeName, o: &mut Vec<u8>) {
    s_str(t.name().as_ref(), o);
    o.push(t.arguments().len() as u8);
    for a in t.arguments() {
        s_type(a, o);
    }
}

/// the same for a type written in the pool's `a:b:c` form
pub fn r_type(n: &str, o: &mut Vec<u8>) {
    let parts: Vec<&str> = n.split(':').collect();
    for (i, p) in parts.iter().enumerate() {
        s_str(p, o);
        o.push((i + 1 < parts.len()) as u8);
    }
}

pub fn s_seq(s: &Seq<SourceAst>, o: &mut Vec<u8>) {
    o.push(b'{');
    for e in &s.exprs {
        if !e.is_empty() {
            s_expr(e, o);
        }
    }
    o.push(b'}');
}

pub fn s_const(c: &Constant, o: &mut Vec<u8>) {
    match c {
        Constant::String(l, s) => {
            o.push(match l {
                Literal::String => b's',
                Literal::Name => b'n',
                Literal::Resource => b'r',
                Literal::TweakDbId => b't',
            });
            s_str(s, o);
        }
        Constant::F32(v) => {
            o.push(b'f');
            o.extend_from_slice(&v.to_bits().to_le_bytes());
        }
        Constant::F64(v) => {
            o.push(b'd');
            o.extend_from_slice(&v.to_bits().to_le_bytes());
        }
        Constant::I32(v) => {
            o.push(b'i');
            o.extend_from_slice(&v.to_le_bytes());
        }
        Constant::I64(v) => {
            o.push(b'l');
            o.extend_from_slice(&v.to_le_bytes());
        }
        Constant::U32(v) => {
            o.push(b'u');
            o.extend_from_slice(&v.to_le_bytes());
        }
        Constant::U64(v) => {
            o.push(b'U');
            o.extend_from_slice(&v.to_le_bytes());
        }
        Constant::Bool(b) => o.push(if *b { b'T' } else { b'F' }),
    }
}

fn s_list(l: &[Expr<SourceAst>], o: &mut Vec<u8>) {
    o.push(l.len() as u8);
    for e in l {
        s_expr(e, o);
    }
}

pub fn s_expr(e: &Expr<SourceAst>, o: &mut Vec<u8>) {
    match e {
        Expr::Ident(n, _) => {
            o.push(b'I');
            s_str(n.as_ref(), o);
        }
        Expr::Constant(c, _) => {
            o.push(b'K');
            s_const(c, o);
        }
        Expr::Cast(t, e, _) => {
            o.push(b'c');
            s_type(t, o);
            s_expr(e, o);
        }
        Expr::Declare(n, t, v, _) => {
            o.push(b'D');
            s_str(n.as_ref(), o);
            match t {
                Some(t) => s_type(t, o),
                None => o.push(b'-'),
            }
            match v {
                Some(v) => s_expr(v, o),
                None => o.push(b'-'),
            }
        }
        Expr::Assign(a, b, _) => {
            o.push(b'=');
            s_expr(a, o);
            s_expr(b, o);
        }
        Expr::Call(n, t, a, _) => {
            o.push(b'(');
            s_str(n.as_ref(), o);
            o.push(t.len() as u8);
            for t in t.iter() {
                s_type(t, o);
            }
            s_list(a, o);
        }
        Expr::MethodCall(x, n, a, _) => {
            o.push(b'm');
            s_expr(x, o);
            s_str(n.as_ref(), o);
            s_list(a, o);
        }
        Expr::Member(x, n, _) => {
            o.push(b'.');
            s_expr(x, o);
            s_str(n.as_ref(), o);
        }
        Expr::ArrayElem(a, b, _) => {
            o.push(b'[');
            s_expr(a, o);
            s_expr(b, o);
        }
        Expr::New(t, a, _) => {
            o.push(b'N');
            s_str(t.name().as_ref(), o);
            assert!(t.arguments().is_empty());
            s_list(a, o);
        }
        Expr::Return(v, _) => {
            o.push(b'R');
            match v {
                Some(v) => s_expr(v, o),
                None => o.push(b'-'),
            }
        }
        Expr::Conditional(a, b, c, _) => {
            o.push(b'?');
            s_expr(a, o);
            s_expr(b, o);
            s_expr(c, o);
        }
        Expr::Seq(s) => s_seq(s, o),
        Expr::This(_) => o.push(b'@'),
        Expr::Super(_) => o.push(b'^'),
        Expr::Null(_) => o.push(b'0'),
        Expr::Break(_) => o.push(b'B'),
        Expr::Goto(_, _) => o.push(b'G'),
        Expr::If(c, a, b, _) => {
            o.push(b'i');
            s_expr(c, o);
            s_seq(a, o);
            match b {
                Some(b) => s_seq(b, o),
                None => o.push(b'-'),
            }
        }
        Expr::While(c, a, _) => {
            o.push(b'w');
            s_expr(c, o);
            s_seq(a, o);
        }
        Expr::Switch(c, cases, d, _) => {
            o.push(b'S');
            s_expr(c, o);
            o.push(cases.len() as u8);
            for k in cases {
                s_expr(&k.matcher, o);
                s_seq(&k.body, o);
            }
            match d {
                Some(b) => s_seq(b, o),
                None => o.push(b'-'),
            }
        }
        _ => panic!("unexpected node"),
    }
}

// ------------------------------------------------------------------ reference reading of expression code

#[derive(Clone, Copy)]
pub struct RI {
    pub op: u8,
    pub v: [u64; 4],
    pub offs: (i16, i16),
}

impl RI {
    pub fn instr(&self) -> Instr<Offset> {
        isa::build(self.op, &self.v, (Offset::new(self.offs.0), Offset::new(self.offs.1)))
    }
}

pub fn ri(op: u8, v: &[u64]) -> RI {
    let mut w = [0; 4];
    w[..v.len()].copy_from_slice(v);
    RI { op, v: w, offs: (0, 0) }
}

pub fn instrs(c: &[RI]) -> Vec<Instr<Offset>> {
    c.iter().map(RI::instr).collect()
}

/// built-in operations: name, number of operands, whether the type operand is part of the call
pub fn intrinsic(op: u8) -> Option<(&'static str, usize, bool)> {
    Some(match op {
        42..=44 => ("Equals", 2, false),
        45..=47 => ("NotEquals", 2, false),
        49 => ("Delete", 1, false),
        52 => ("ArrayClear", 1, false),
        53 | 75 => ("ArraySize", 1, false),
        54 => ("ArrayResize", 2, false),
        55 | 56 | 76 | 77 => ("ArrayFindFirst", 2, false),
        57 | 58 | 78 | 79 => ("ArrayFindLast", 2, false),
        59 | 60 | 80 | 81 => ("ArrayContains", 2, false),
        61 | 62 | 82 | 83 => ("ArrayCount", 2, false),
        63 => ("ArrayPush", 2, false),
        64 => ("ArrayPop", 1, false),
        65 => ("ArrayInsert", 3, false),
        66 | 67 => ("ArrayRemove", 2, false),
        68 => ("ArrayGrow", 2, false),
        69 | 70 => ("ArrayErase", 2, false),
        71 | 84 => ("ArrayLast", 1, false),
        73 => ("ArraySort", 1, false),
        74 => ("ArraySortByPredicate", 2, false),
        86 | 87 | 94 => ("IsDefined", 1, false),
        88 => ("EnumInt", 1, false),
        89 => ("IntEnum", 1, true),
        91 | 98 => ("ToString", 1, false),
        92 => ("ToVariant", 1, false),
        93 => ("FromVariant", 1, true),
        95 => ("VariantIsRef", 1, false),
        96 => ("VariantIsArray", 1, false),
        97 => ("VariantTypeName", 1, false),
        99 => ("WeakRefToRef", 1, false),
        100 => ("RefToWeakRef", 1, false),
        102 => ("AsRef", 1, false),
        103 => ("Deref", 1, false),
        _ => return None,
    })
}

pub struct Rd<'a> {
    pub c: &'a [RI],
    pub i: usize,
}

fn konst(tag: u8, v: u64, n: usize, o: &mut Vec<u8>) {
    o.push(b'K');
    o.push(tag);
    o.extend_from_slice(&v.to_le_bytes()[..n]);
}

impl<'a> Rd<'a> {
    fn args(&mut self, o: &mut Vec<u8>) {
        let mut n = 0;
        let mut body = vec![];
        loop {
            match self.c[self.i].op {
                0 | 33 => self.i += 1,
                38 => break,
                _ => {
                    self.expr(None, &mut body);
                    n += 1;
                }
            }
        }
        self.i += 1;
        o.push(n);
        o.extend(body);
    }

    /// reads one expression and appends its canonical form
    pub fn expr(&mut self, ctx: Option<Vec<u8>>, o: &mut Vec<u8>) {
        let r = self.c[self.i];
        self.i += 1;
        let v = r.v;
        if let Some((name, n, typed)) = intrinsic(r.op) {
            o.push(b'(');
            s_str(name, o);
            o.push(typed as u8);
            if typed {
                r_type(def_name(v[0] as u32), o);
            }
            o.push(n as u8);
            for _ in 0..n {
                self.expr(None, o);
            }
            return;
        }
        match r.op {
            0 => o.extend_from_slice(b"{}"),
            1 | 101 => o.push(b'0'),
            2 => konst(b'i', 1, 4, o),
            3 => konst(b'i', 0, 4, o),
            4 => konst(b'i', v[0] as i8 as i64 as u64, 4, o),
            5 => konst(b'i', v[0] as i16 as i64 as u64, 4, o),
            6 => konst(b'i', v[0], 4, o),
            7 => konst(b'l', v[0], 8, o),
            8 | 9 | 10 => konst(b'u', v[0], 4, o),
            11 => konst(b'U', v[0], 8, o),
            12 => konst(b'f', v[0], 4, o),
            13 => konst(b'd', v[0], 8, o),
            14 => {
                o.extend_from_slice(b"Kn");
                s_str(NAMES0[v[0] as usize], o);
            }
            16 | 17 | 18 => {
                o.extend_from_slice(match r.op {
                    16 => b"Ks",
                    17 => b"Kt",
                    _ => b"Kr",
                });
                s_str(STRINGS[v[0] as usize], o);
            }
            15 => {
                o.extend_from_slice(b".I");
                s_str(def_name(v[0] as u32), o);
                s_str(def_name(v[1] as u32), o);
            }
            19 => o.extend_from_slice(b"KT"),
            20 => o.extend_from_slice(b"KF"),
            22 => {
                o.push(b'=');
                self.expr(None, o);
                self.expr(None, o);
            }
            24 | 25 => {
                o.push(b'I');
                s_str(def_name(v[0] as u32), o);
            }
            26 => {
                o.push(b'.');
                o.extend(ctx.unwrap_or(vec![b'@']));
                s_str(def_name(v[0] as u32), o);
            }
            34 => {
                o.push(b'?');
                self.expr(None, o);
                self.expr(None, o);
                self.expr(None, o);
            }
            35 | 48 => {
                let (n, t) = if r.op == 35 { (v[0], v[1]) } else { (0, v[0]) };
                o.push(b'N');
                s_str(def_name(t as u32), o);
                o.push(n as u8);
                for _ in 0..n {
                    self.expr(None, o);
                }
            }
            36 => {
                let f = v[2] as u32;
                let name = def_name_owned(f);
                match (ctx, f) {
                    (Some(c), _) => {
                        o.push(b'm');
                        o.extend(c);
                        s_str(&name, o);
                    }
                    (None, METH | OTHER | BOTHER) => {
                        o.extend_from_slice(b"m@");
                        s_str(&name, o);
                    }
                    (None, BMETH) => {
                        o.extend_from_slice(b"m^");
                        s_str(&name, o);
                    }
                    (None, SMETH) => {
                        o.extend_from_slice(b"mI");
                        s_str("Cls", o);
                        s_str(&name, o);
                    }
                    (None, _) => {
                        o.push(b'(');
                        s_str(&name, o);
                        if f == CAST {
                            o.push(1);
                            r_type("Float", o);
                        } else {
                            o.push(0);
                        }
                    }
                }
                self.args(o);
            }
            37 => {
                o.push(b'm');
                o.extend(ctx.unwrap_or(vec![b'@']));
                s_str(NAMES0[v[2] as usize], o);
                self.args(o);
            }
            39 => {
                o.push(b'R');
                if self.c[self.i].op == 0 {
                    self.i += 1;
                    o.push(b'-');
                } else {
                    self.expr(None, o);
                }
            }
            40 => {
                o.push(b'.');
                self.expr(None, o);
                s_str(def_name(v[0] as u32), o);
            }
            41 => {
                let mut c = vec![];
                self.expr(None, &mut c);
                self.expr(Some(c), o);
            }
            50 => o.push(b'@'),
            72 | 85 => {
                o.push(b'[');
                self.expr(None, o);
                self.expr(None, o);
            }
            90 => {
                o.push(b'c');
                r_type(def_name(v[0] as u32), o);
                self.expr(None, o);
            }
            _ => unreachable!(),
        }
    }
}

// ------------------------------------------------------------------ arbitrary expression code

fn pick(of: &[u32]) -> u64 {
    of[choose(of.len() as u64) as usize] as u64
}

/// operands of an instruction, arbitrary where they are plain data and drawn from the fixed pool where they are references
pub fn arb_ri(op: u8) -> RI {
    let mut v = [0u64; 4];
    match op {
        4 | 8 => v[0] = u8_() as u64,
        5 | 9 => v[0] = u16_() as u64,
        6 | 10 | 12 => v[0] = u32_() as u64,
        7 | 11 | 13 => v[0] = u64_(),
        14 | 16 | 17 | 18 => v[0] = choose(3),
        15 => {
            v[0] = COLOR as u64;
            v[1] = pick(&[RED, BLUE]);
        }
        24 => v[0] = pick(&[LA, LB, LC]),
        25 => v[0] = pick(&[P0, P1]),
        26 => v[0] = FLD as u64,
        35 => {
            v[0] = choose(4);
            v[1] = VEC as u64;
        }
        36 => {
            v[1] = u16_() as u64;
            v[2] = pick(&[GLOB, CAST, SMETH, METH, BMETH, OTHER, BOTHER]);
            v[3] = u16_() as u64;
        }
        37 => {
            v[1] = u16_() as u64;
            v[2] = choose(3);
            v[3] = u16_() as u64;
        }
        40 => v[0] = pick(&[FST, FLD]),
        48 => v[0] = pick(&[CLS, BASE]),
        88 | 89 => {
            v[0] = COLOR as u64;
            v[1] = u8_() as u64;
        }
        90 => {
            v[0] = pick(&[CLS, REF_CLS]);
            v[1] = u8_() as u64;
        }
        93 => v[0] = pick(&[INT32, REF_CLS, ARR, SREF, SARR]),
        _ => v[0] = u32_() as u64,
    }
    RI { op, v, offs: (i16_(), i16_()) }
}

/// number of operand expressions (None: argument list)
pub fn arity(r: &RI) -> Option<usize> {
    Some(match r.op {
        22 | 41 | 72 | 85 => 2,
        34 => 3,
        35 => r.v[0] as usize,
        36 | 37 => return None,
        39 | 40 | 90 => 1,
        op => intrinsic(op).map(|x| x.1).unwrap_or(0),
    })
}

/// opcodes usable inside expressions
pub fn expr_op(op: u8) -> bool {
    !matches!(op, 0 | 21 | 22 | 23 | 27..=33 | 38 | 39 | 51) && op < isa::NUM_OPS
}

pub fn arb_op(ok: fn(u8) -> bool) -> u8 {
    let op = u8_();
    assume(ok(op));
    concretize(op as u64) as u8
}

/// distinguishable leaf
pub fn leaf(k: &mut u64) -> RI {
    *k += 1;
    match *k % 3 {
        0 => ri(6, &[1000 + *k]),
        1 => ri(25, &[P0 as u64]),
        _ => ri(11, &[*k]),
    }
}

/// appends one expression tree: the root is arbitrary, operand number `deep` again arbitrary down to `depth`
pub fn arb_tree(depth: u64, ok: fn(u8) -> bool, k: &mut u64, noise: bool, out: &mut Vec<RI>) {
    let r = arb_ri(arb_op(ok));
    out.push(r);
    let (n, args) = match arity(&r) {
        Some(n) => (n, false),
        None => (choose(3) as usize, true),
    };
    let deep = if depth > 0 && n > 0 { choose(n as u64) as usize } else { usize::MAX };
    for j in 0..n {
        if args && noise && choose(2) == 1 {
            let s = if choose(2) == 1 { 33 } else { 0 };
            out.push(RI { op: s, v: [0; 4], offs: (i16_(), 0) });
        }
        if j == deep {
            arb_tree(depth - 1, expr_op, k, noise, out);
        } else {
            out.push(leaf(k));
        }
    }
    if args {
        if noise && choose(2) == 1 {
            out.push(RI { op: 0, v: [0; 4], offs: (0, 0) });
        }
        out.push(ri(38, &[]));
    }
}

pub fn loc(l: Location) -> u16 {
    l.value
}
