//! Decompiler: the printed text, read back with an independent parser of the language's grammar, is the decompiled tree.
use redscript::ast::{Constant, Expr, Literal, Seq, SourceAst, TypeName};
use redscript::bundle::ConstantPool;
use redscript::definition::*;
use redscript_decompiler::print::{write_definition, OutputMode};
use redscript_decompiler::Decompiler;

use crate::dec::*;
use crate::p_flow::{layout, Prog, St};
use crate::sx::*;
use crate::wire::digest;

harnesses! { h_print_expr, h_print_const, h_print_flow, h_print_num }

/// normal form shared by the tree and the parsed text
#[derive(PartialEq, Debug)]
pub struct N(pub &'static str, pub Vec<u8>, pub Vec<N>);

fn n(t: &'static str, d: &[u8], c: Vec<N>) -> N {
    N(t, d.to_vec(), c)
}

/// chains of the same logical or bitwise operator mean the same however they are grouped
fn bin(op: &str, l: N, r: N) -> N {
    if !matches!(op, "||" | "&&" | "|" | "^" | "&") {
        return n("bin", op.as_bytes(), vec![l, r]);
    }
    let mut v = vec![];
    for x in [l, r] {
        if x.0 == "bin" && x.1 == op.as_bytes() {
            v.extend(x.2);
        } else {
            v.push(x);
        }
    }
    n("bin", op.as_bytes(), v)
}

fn neg(x: N) -> N {
    n("un", b"-", vec![x])
}

fn num(t: &'static str, v: u64) -> N {
    n(t, &v.to_le_bytes(), vec![])
}

fn ty(t: &TypeName) -> N {
    n("type", t.name().as_ref().as_bytes(), t.arguments().iter().map(ty).collect())
}

fn konst(c: &Constant) -> N {
    let s = |minus: bool, x: N| if minus { neg(x) } else { x };
    match c {
        Constant::String(l, v) => n(
            match l {
                Literal::String => "s",
                Literal::Name => "n",
                Literal::Resource => "r",
                Literal::TweakDbId => "t",
            },
            v.as_bytes(),
            vec![],
        ),
        Constant::I32(v) => s(*v < 0, num("i32", (*v as i64).unsigned_abs())),
        Constant::I64(v) => s(*v < 0, num("i64", v.unsigned_abs())),
        Constant::U32(v) => num("u32", *v as u64),
        Constant::U64(v) => num("u64", *v),
        Constant::F32(v) => s(v.is_sign_negative(), num("f32", v.abs().to_bits() as u64)),
        Constant::F64(v) => s(v.is_sign_negative(), num("f64", v.abs().to_bits())),
        Constant::Bool(v) => num("bool", *v as u64),
    }
}

fn base(s: &str) -> &[u8] {
    s.split(';').next().unwrap().as_bytes()
}

fn many(l: &[Expr<SourceAst>], verbose: bool) -> Vec<N> {
    l.iter().map(|e| norm(e, verbose)).collect()
}

fn block(s: &Seq<SourceAst>, verbose: bool) -> N {
    let mut v = vec![];
    for e in &s.exprs {
        if !e.is_empty() {
            v.push(norm(e, verbose));
        }
    }
    n("block", b"", v)
}

fn norm(e: &Expr<SourceAst>, verbose: bool) -> N {
    let one = |e: &Expr<SourceAst>| norm(e, verbose);
    match e {
        Expr::Ident(x, _) => n("id", x.as_ref().as_bytes(), vec![]),
        Expr::Constant(c, _) => konst(c),
        Expr::Cast(t, e, _) => n("as", b"", vec![one(e), ty(t)]),
        Expr::Declare(x, t, v, _) => {
            let mut c = vec![];
            if let Some(t) = t {
                c.push(ty(t));
            }
            if let Some(v) = v {
                c.push(one(v));
            }
            n("let", x.as_ref().as_bytes(), c)
        }
        Expr::Assign(a, b, _) => n("=", b"", vec![one(a), one(b)]),
        Expr::Call(f, t, a, _) => {
            let name = std::str::from_utf8(base(f.as_ref())).unwrap();
            if let Some(op) = BINOPS.iter().find(|o| o.0 == name) {
                assert!(a.len() == 2);
                return bin(op.1, one(&a[0]), one(&a[1]));
            }
            if let Some(op) = UNOPS.iter().find(|o| o.0 == name) {
                return n("un", op.1.as_bytes(), vec![one(&a[0])]);
            }
            if !verbose && matches!(name, "WeakRefToRef" | "RefToWeakRef" | "AsRef") {
                return one(&a[0]);
            }
            let mut c: Vec<N> = t.iter().map(ty).collect();
            c.extend(many(a, verbose));
            n("call", name.as_bytes(), c)
        }
        Expr::MethodCall(x, f, a, _) => {
            let mut c = vec![one(x)];
            c.extend(many(a, verbose));
            n("method", base(f.as_ref()), c)
        }
        Expr::ArrayElem(a, b, _) => n("elem", b"", vec![one(a), one(b)]),
        Expr::Member(a, f, _) => n("member", f.as_ref().as_bytes(), vec![one(a)]),
        Expr::New(t, a, _) => {
            let mut c = vec![ty(t)];
            c.extend(many(a, verbose));
            n("new", b"", c)
        }
        Expr::Return(v, _) => n("return", b"", v.iter().map(|v| one(v)).collect()),
        Expr::Seq(s) => block(s, verbose),
        Expr::Switch(x, cs, d, _) => {
            let mut c = vec![one(x)];
            for k in cs {
                c.push(n("case", b"", vec![one(&k.matcher), block(&k.body, verbose)]));
            }
            if let Some(d) = d {
                c.push(n("default", b"", vec![block(d, verbose)]));
            }
            n("switch", b"", c)
        }
        Expr::If(x, a, b, _) => {
            let mut c = vec![one(x), block(a, verbose)];
            if let Some(b) = b {
                c.push(block(b, verbose));
            }
            n("if", b"", c)
        }
        Expr::Conditional(a, b, c, _) => n("?", b"", vec![one(a), one(b), one(c)]),
        Expr::While(x, a, _) => n("while", b"", vec![one(x), block(a, verbose)]),
        Expr::This(_) => n("this", b"", vec![]),
        Expr::Super(_) => n("super", b"", vec![]),
        Expr::Break(_) => n("break", b"", vec![]),
        Expr::Null(_) => n("null", b"", vec![]),
        _ => panic!("unprintable expression"),
    }
}

// ------------------------------------------------------------------ reference parser (grammar of compiler/src/parser.rs)

pub struct Parse<'a> {
    pub s: &'a [u8],
    pub i: usize,
}

type R<T> = Result<T, ()>;

const INFIX: [(&str, u32); 22] = [
    ("||", 1), ("&&", 2), ("+=", 0), ("-=", 0), ("*=", 0), ("/=", 0), ("|=", 0), ("&=", 0), ("==", 6), ("!=", 6), ("<=", 7), (">=", 7),
    ("|", 3), ("^", 4), ("&", 5), ("<", 7), (">", 7), ("+", 8), ("-", 8), ("*", 9), ("/", 9), ("%", 9),
];

impl<'a> Parse<'a> {
    pub fn new(s: &'a [u8]) -> Self {
        Parse { s, i: 0 }
    }
    fn ws(&mut self) {
        while self.i < self.s.len() && matches!(self.s[self.i], b' ' | b'\n' | b'\r' | b'\t') {
            self.i += 1;
        }
    }
    fn peek(&self) -> u8 {
        self.s.get(self.i).copied().unwrap_or(0)
    }
    pub fn eat(&mut self, t: &str) -> bool {
        let ok = self.s[self.i..].starts_with(t.as_bytes());
        if ok {
            self.i += t.len();
        }
        ok
    }
    fn need(&mut self, t: &str) -> R<()> {
        if self.eat(t) {
            Ok(())
        } else {
            Err(())
        }
    }
    fn word(c: u8) -> bool {
        c.is_ascii_alphanumeric() || c == b'_'
    }
    fn kw(&mut self, t: &str) -> bool {
        let at = self.i;
        if self.eat(t) && !Self::word(self.peek()) {
            return true;
        }
        self.i = at;
        false
    }
    fn ident(&mut self) -> R<Vec<u8>> {
        let at = self.i;
        if !Self::word(self.peek()) || self.peek().is_ascii_digit() {
            return Err(());
        }
        while Self::word(self.peek()) {
            self.i += 1;
        }
        Ok(self.s[at..self.i].to_vec())
    }
    fn type_(&mut self) -> R<N> {
        let name = self.ident()?;
        let at = self.i;
        match self.type_args() {
            Ok(a) => Ok(n("type", &name, a)),
            Err(_) => {
                self.i = at;
                Ok(n("type", &name, vec![]))
            }
        }
    }
    fn type_args(&mut self) -> R<Vec<N>> {
        self.need("<")?;
        let mut v = vec![];
        loop {
            self.ws();
            v.push(self.type_()?);
            self.ws();
            if self.eat(">") {
                return Ok(v);
            }
            self.need(",")?;
        }
    }
    fn args(&mut self) -> R<Vec<N>> {
        self.need("(")?;
        let mut v = vec![];
        self.ws();
        if self.eat(")") {
            return Ok(v);
        }
        loop {
            self.ws();
            v.push(self.expr(0)?);
            self.ws();
            if self.eat(")") {
                return Ok(v);
            }
            self.need(",")?;
        }
    }
    fn string(&mut self) -> R<Vec<u8>> {
        self.need("\"")?;
        let mut o = vec![];
        loop {
            match self.peek() {
                0 => return Err(()),
                b'"' => {
                    self.i += 1;
                    return Ok(o);
                }
                b'\\' => {
                    self.i += 1;
                    let c = self.peek();
                    self.i += 1;
                    match c {
                        b'n' => o.push(b'\n'),
                        b'r' => o.push(b'\r'),
                        b't' => o.push(b'\t'),
                        b'\'' | b'"' | b'\\' => o.push(c),
                        b'u' => {
                            self.need("{")?;
                            let mut v = 0u32;
                            let mut k = 0;
                            while let Some(d) = (self.peek() as char).to_digit(16) {
                                v = v * 16 + d;
                                self.i += 1;
                                k += 1;
                            }
                            if !(1..=6).contains(&k) {
                                return Err(());
                            }
                            self.need("}")?;
                            let mut b = [0; 4];
                            o.extend_from_slice(char::from_u32(v).ok_or(())?.encode_utf8(&mut b).as_bytes());
                        }
                        _ => return Err(()),
                    }
                }
                c => {
                    o.push(c);
                    self.i += 1;
                }
            }
        }
    }
    fn number(&mut self) -> R<N> {
        let at = self.i;
        while self.peek().is_ascii_digit() || self.peek() == b'.' {
            self.i += 1;
        }
        let t = std::str::from_utf8(&self.s[at..self.i]).unwrap();
        let int = |max: u128| {
            let mut v = 0u128;
            for c in t.bytes() {
                v = v * 10 + (c - b'0') as u128;
                if v > max {
                    return Err(());
                }
            }
            Ok(v as u64)
        };
        let u = self.eat("u");
        let l = self.eat("l");
        let d = !l && self.eat("d");
        if d {
            return Ok(num("f64", t.parse::<f64>().map_err(|_| ())?.to_bits()));
        }
        if t.contains('.') {
            return Ok(num("f32", t.parse::<f32>().map_err(|_| ())?.to_bits() as u64));
        }
        Ok(match (u, l) {
            (true, true) => num("u64", int(u64::MAX as u128)?),
            (true, false) => num("u32", int(u32::MAX as u128)?),
            // a minus in front is part of the literal, so one more is possible
            (false, true) => num("i64", int(1 << 63)?),
            (false, false) => num("i32", int(1 << 31)?),
        })
    }
    fn atom(&mut self) -> R<N> {
        for op in ["!", "~", "-"] {
            if self.eat(op) {
                self.ws();
                let x = self.expr(10)?;
                return Ok(n("un", op.as_bytes(), vec![x]));
            }
        }
        if self.kw("new") {
            self.ws();
            let t = self.ident()?;
            self.ws();
            let mut c = vec![n("type", &t, vec![])];
            c.extend(self.args()?);
            return Ok(n("new", b"", c));
        }
        if self.eat("(") {
            self.ws();
            let x = self.expr(0)?;
            self.ws();
            self.need(")")?;
            return Ok(x);
        }
        for (k, f) in [("null", 0), ("this", 0), ("super", 0), ("true", 1), ("false", 1)] {
            if self.kw(k) {
                return Ok(if f == 1 { num("bool", (k == "true") as u64) } else { n(k, b"", vec![]) });
            }
        }
        if self.peek().is_ascii_digit() {
            return self.number();
        }
        for (p, k) in [("n\"", "n"), ("r\"", "r"), ("t\"", "t"), ("\"", "s")] {
            if self.eat(p) {
                self.i -= 1;
                let s = self.string()?;
                return Ok(n(k, &s, vec![]));
            }
        }
        let id = self.ident()?;
        let at = self.i;
        self.ws();
        let mut c = self.type_args().unwrap_or_else(|_| {
            self.i = at;
            vec![]
        });
        self.ws();
        if self.peek() == b'(' {
            c.extend(self.args()?);
            return Ok(n("call", &id, c));
        }
        self.i = at;
        Ok(n("id", &id, vec![]))
    }
    pub fn expr(&mut self, min: u32) -> R<N> {
        let mut x = self.atom()?;
        'next: loop {
            let at = self.i;
            self.ws();
            if self.eat("[") {
                self.ws();
                let e = self.expr(0)?;
                self.ws();
                self.need("]")?;
                x = n("elem", b"", vec![x, e]);
                continue;
            }
            if self.eat(".") {
                self.ws();
                let f = self.ident()?;
                let at = self.i;
                self.ws();
                if self.peek() == b'(' {
                    let mut c = vec![x];
                    c.extend(self.args()?);
                    x = n("method", &f, c);
                } else {
                    self.i = at;
                    x = n("member", &f, vec![x]);
                }
                continue;
            }
            if self.kw("as") {
                self.ws();
                let t = self.type_()?;
                x = n("as", b"", vec![x, t]);
                continue;
            }
            if min == 0 && self.eat("?") {
                self.ws();
                let y = self.expr(0)?;
                self.ws();
                self.need(":")?;
                self.ws();
                let z = self.expr(0)?;
                x = n("?", b"", vec![x, y, z]);
                continue;
            }
            for (op, p) in INFIX {
                if self.eat(op) {
                    if p < min {
                        break;
                    }
                    self.ws();
                    let y = self.expr(if p == 0 { 0 } else { p + 1 })?;
                    x = bin(op, x, y);
                    continue 'next;
                }
            }
            if min == 0 && self.eat("=") {
                self.ws();
                let y = self.expr(0)?;
                x = n("=", b"", vec![x, y]);
                continue;
            }
            self.i = at;
            return Ok(x);
        }
    }
    fn body(&mut self) -> R<N> {
        self.ws();
        self.need("{")?;
        let b = self.seq()?;
        self.need("}")?;
        Ok(b)
    }
    /// statements up to something that cannot start one
    pub fn seq(&mut self) -> R<N> {
        let mut v = vec![];
        loop {
            self.ws();
            let at = self.i;
            if self.peek() == b'}' || self.peek() == 0 || self.kw("case") || self.kw("default") {
                self.i = at;
                return Ok(n("block", b"", v));
            }
            v.push(self.stmt()?);
        }
    }
    fn opt_semi(&mut self) {
        let at = self.i;
        self.ws();
        if !self.eat(";") {
            self.i = at;
        }
    }
    fn stmt(&mut self) -> R<N> {
        if self.kw("while") {
            self.ws();
            let c = self.expr(0)?;
            let b = self.body()?;
            self.opt_semi();
            return Ok(n("while", b"", vec![c, b]));
        }
        if self.kw("if") {
            self.ws();
            let mut v = vec![self.expr(0)?];
            v.push(self.body()?);
            let at = self.i;
            self.ws();
            if self.kw("else") {
                v.push(self.body()?);
            } else {
                self.i = at;
            }
            self.opt_semi();
            return Ok(n("if", b"", v));
        }
        if self.kw("switch") {
            self.ws();
            let mut v = vec![self.expr(0)?];
            self.ws();
            self.need("{")?;
            self.ws();
            while self.kw("case") {
                self.ws();
                let m = self.expr(0)?;
                self.ws();
                self.need(":")?;
                let b = self.seq()?;
                v.push(n("case", b"", vec![m, b]));
                self.ws();
            }
            if self.kw("default") {
                self.ws();
                self.need(":")?;
                let b = self.seq()?;
                v.push(n("default", b"", vec![b]));
            }
            self.ws();
            self.need("}")?;
            self.opt_semi();
            return Ok(n("switch", b"", v));
        }
        let x = if self.kw("return") {
            self.ws();
            let mut v = vec![];
            if self.peek() != b';' {
                v.push(self.expr(0)?);
            }
            n("return", b"", v)
        } else if self.kw("break") {
            n("break", b"", vec![])
        } else if self.kw("let") {
            self.ws();
            let x = self.ident()?;
            self.ws();
            let mut v = vec![];
            if self.eat(":") {
                self.ws();
                v.push(self.type_()?);
                self.ws();
            }
            if self.eat("=") {
                self.ws();
                v.push(self.expr(0)?);
            }
            n("let", &x, v)
        } else {
            self.expr(0)?
        };
        self.ws();
        self.need(";")?;
        Ok(x)
    }
}

// ------------------------------------------------------------------ harnesses

fn check(pool: &ConstantPool, def: &Definition, verbose: bool) {
    let f = def.value.as_function().unwrap();
    let seq = Decompiler::decompiled(f, def, pool).expect("valid code rejected");
    let want = block(&seq, verbose);
    let mut text = vec![];
    assert!(write_definition(&mut text, def, pool, 0, OutputMode::Code { verbose }).is_ok(), "valid code not printed");
    let at = text.iter().position(|c| *c == b'{').expect("function text");
    let mut p = Parse::new(&text[at + 1..]);
    let got = p.seq().ok();
    p.ws();
    assert!(got.is_some() && p.eat("}"), "printed text does not parse");
    p.ws();
    assert!(p.i == p.s.len(), "text behind the body");
    assert!(got.unwrap() == want, "printed text means something else");
    observe(digest(&text));
    cover(1);
}

/// one node of every printable kind; operand `deep` is again arbitrary
fn tree(depth: u64, receiver: bool, k: &mut u64, o: &mut Vec<RI>) {
    let end = ri(38, &[]);
    let call = |f: u32| ri(36, &[0, 0, f as u64, 0]);
    let kind = choose(if depth == 0 { 2 } else { 15 });
    // numbers have no members: 5.f is not an expression
    let mut rec = [false; 3];
    let (head, n, tail): (Vec<RI>, usize, bool) = match kind {
        0 => {
            *k += 1;
            (vec![ri(25, &[P0 as u64])], 0, false)
        }
        1 => {
            *k += 1;
            assume(!receiver);
            (vec![ri(6, &[*k])], 0, false)
        }
        2 => (vec![call(OPS + choose(22) as u32)], 2, true),
        3 => (vec![call(OPS + 22 + choose(3) as u32)], 1, true),
        4 => (vec![ri(34, &[])], 3, false),
        5 => (vec![ri(22, &[])], 2, false),
        6 => {
            rec[0] = true;
            (vec![ri(90, &[CLS as u64, 0])], 1, false)
        }
        7 => {
            rec[0] = true;
            (vec![ri(40, &[FST as u64])], 1, false)
        }
        8 => {
            // context, then a member of it
            o.push(ri(41, &[]));
            if depth > 0 && choose(2) == 1 {
                tree(depth - 1, true, k, o);
            } else {
                o.push(ri(25, &[P1 as u64]));
            }
            if choose(2) == 1 {
                o.push(ri(26, &[FLD as u64]));
            } else {
                o.push(call(METH));
                o.push(ri(6, &[7]));
                o.push(end);
            }
            return;
        }
        9 => {
            rec[0] = true;
            (vec![ri(72, &[0])], 2, false)
        }
        10 => (vec![ri(35, &[2, VEC as u64])], 2, false),
        11 => (vec![call(GLOB)], choose(3) as usize, true),
        12 => {
            rec[0] = receiver;
            (vec![ri([99, 100, 102][choose(3) as usize], &[0])], 1, false)
        }
        13 => (vec![ri(93, &[[INT32, REF_CLS, SARR][choose(3) as usize] as u64])], 1, false),
        _ => (vec![[ri(1, &[]), ri(50, &[]), ri(19, &[]), ri(20, &[]), ri(15, &[COLOR as u64, RED as u64])][choose(5) as usize]], 0, false),
    };
    assume(!(receiver && kind == 14));
    o.extend(head);
    let deep = if depth > 0 && n > 0 { choose(n as u64) as usize } else { usize::MAX };
    for j in 0..n {
        if j == deep {
            tree(depth - 1, rec[j], k, o);
        } else {
            o.push(ri(25, &[[P0, P1][j % 2] as u64]));
        }
    }
    if tail {
        o.push(end);
    }
}

/// expressions nested param 0 deep, param 1: where (0 statement, 1 everywhere an expression can stand)
pub fn h_print_expr() {
    let pool = world(true);
    let verbose = choose(2) == 1;
    let mut code = vec![];
    let at = if param(1) == 1 { choose(5) } else { 0 };
    match at {
        1 => code.push(ri(39, &[])),
        2 => {
            code.push(ri(22, &[]));
            code.push(ri(24, &[LA as u64]));
        }
        3 => code.push(RI { op: 32, v: [0; 4], offs: (0, 0) }),
        4 => {
            code.push(ri(36, &[0, 0, GLOB as u64, 0]));
            code.push(ri(6, &[3]));
        }
        _ => {}
    }
    tree(param(0), false, &mut 0, &mut code);
    if at == 3 {
        let size: i32 = code.iter().map(|r| crate::isa::ref_size(r.op) as i32).sum();
        code.push(ri(36, &[0, 0, GLOB as u64, 0]));
        code.push(ri(38, &[]));
        code[0].offs.0 = (size + crate::isa::ref_size(36) as i32 + crate::isa::ref_size(38) as i32) as i16;
    }
    if at == 4 {
        code.push(ri(38, &[]));
    }
    code.push(ri(0, &[]));
    let def = subject(&pool, if at == 2 { &[LA] } else { &[] }, instrs(&code));
    check(&pool, &def, verbose);
}

/// constants of every kind
pub fn h_print_const() {
    let f = [0.0f64, 1.0, 0.5, 0.25, 0.1, 0.001, 1.005, 3.14159, 1e-7, 123456.789, 1e10, 16777217.0, 1e30, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 0.30000000000000004];
    let g = [0.0f32, 1.0, 0.5, 0.25, 0.1, 0.001, 1.005, 3.14159, 1e-7, 123456.79, 1e10, 16777216.0, 1e30, 1e-45, 1.17549435e-38, 3.4028235e38, 0.3];
    let i = [0i64, 1, -1, 9, 10, 127, -128, 32767, -32768, 99999, 2147483647, -2147483648];
    let l = [4294967295i64, 4294967296, i64::MAX, i64::MIN, 1000000000000, -1000000000000];
    let v = match choose(9) {
        0 => {
            let x = f[choose(f.len() as u64) as usize];
            ri(13, &[(if choose(2) == 1 { -x } else { x }).to_bits()])
        }
        1 => {
            let x = g[choose(g.len() as u64) as usize];
            ri(12, &[(if choose(2) == 1 { -x } else { x }).to_bits() as u64])
        }
        2 => ri(6, &[i[choose(i.len() as u64) as usize] as u32 as u64]),
        3 => {
            let k = choose((i.len() + l.len()) as u64) as usize;
            ri(7, &[if k < i.len() { i[k] as u64 } else { l[k - i.len()] as u64 }])
        }
        4 => ri(10, &[[0u64, 1, 10, 4294967295, 2147483648][choose(5) as usize]]),
        5 => ri(11, &[[0u64, 1, 10, 4294967295, 4294967296, u64::MAX, 1 << 63][choose(7) as usize]]),
        6 => ri(14, &[choose(3)]),
        7 => ri([16, 17, 18][choose(3) as usize], &[choose(3)]),
        _ => ri([2, 3, 4, 5, 8, 9][choose(6) as usize], &[[0u64, 1, 9, 10, 100, 127][choose(6) as usize]]),
    };
    let pool = world(false);
    let code = [ri(39, &[]), v, ri(0, &[])];
    check(&pool, &subject(&pool, &[], instrs(&code)), choose(2) == 1);
}

/// integers of every value below a bound: param 0 kind (6, 7, 10, 11), param 1 bits
pub fn h_print_num() {
    let v = u64_();
    assume(v < 1 << param(1));
    let v = if param(2) == 1 { v.wrapping_neg() } else { v };
    let v = if param(0) == 6 || param(0) == 10 { v & 0xffff_ffff } else { v };
    let mut p = ConstantPool::default();
    p.names.add("".into());
    let code = [ri(39, &[]), ri(param(0) as u8, &[v]), ri(0, &[])];
    let def = Definition::function(p.names.add("f".into()), ix(0), func(FunctionFlags::new().with_has_body(true), instrs(&code)));
    check(&p, &def, false);
}

/// statements: param 0 budget, 1 depth, 2 kinds
pub fn h_print_flow() {
    let mut g = Prog { budget: param(0), id: 100, maxdepth: 0, kinds: param(2) };
    let p: Vec<St> = g.block(param(1) as u32, false, false);
    let code = layout(&p);
    let pool = crate::p_flow::small_world();
    let def = Definition::function(ix(1), ix(0), func(FunctionFlags::new().with_has_body(true), instrs(&code)));
    check(&pool, &def, choose(2) == 1);
}
