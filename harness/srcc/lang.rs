//! A small source language: trees, their text, and their meaning (the reference for compiled code).
use std::collections::BTreeMap;

use crate::vm::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ty {
    I,
    B,
    T,
    A,
    S,
    C,
}

impl Ty {
    pub fn text(self) -> &'static str {
        match self {
            Ty::I => "Int32",
            Ty::B => "Bool",
            Ty::T => "String",
            Ty::A => "array<Int32>",
            Ty::S => "S",
            Ty::C => "ref<C>",
        }
    }
    pub fn default(self) -> V {
        match self {
            Ty::I => V::I(0),
            Ty::B => V::B(false),
            Ty::T => V::S(vec![]),
            Ty::A => V::A(vec![]),
            Ty::S => V::St(vec![("a".into(), V::I(0)), ("b".into(), V::I(0))]),
            Ty::C => V::Null,
        }
    }
}

#[derive(Clone, Debug)]
pub enum X {
    Par(u8),
    Var(u8),
    K(i32),
    KB(bool),
    KT(&'static str),
    Call(&'static str, Vec<X>),
    Op(&'static str, Vec<X>),
    Cond(Vec<X>),
    Lit(Vec<X>),
    Size(Box<X>),
    Has(Box<X>, Box<X>),
    At(Box<X>, Box<X>),
    MkS(Vec<X>),
    Fld(Box<X>, &'static str),
    MkC(bool),
    Meth(Box<X>, Vec<X>),
    SMeth(Vec<X>),
    Interp(&'static str, Vec<(X, &'static str)>),
    Show(Box<X>),
    Null,
    Def(Box<X>),
    Eq(Box<X>, Box<X>),
}

impl X {
    pub fn children(&self) -> Vec<&X> {
        match self {
            X::Call(_, a) | X::Op(_, a) | X::Cond(a) | X::Lit(a) | X::MkS(a) | X::SMeth(a) => a.iter().collect(),
            X::Size(a) | X::Fld(a, _) | X::Show(a) | X::Def(a) => vec![a],
            X::Has(a, b) | X::At(a, b) | X::Eq(a, b) => vec![a, b],
            X::Meth(a, b) => std::iter::once(&**a).chain(b).collect(),
            X::Interp(_, a) => a.iter().map(|p| &p.0).collect(),
            _ => vec![],
        }
    }
}

#[derive(Clone, Debug)]
pub enum St {
    E(X),
    Let(u8, Ty, bool, Option<X>),
    Set(X, X),
    Inc(X, X),
    Push(X, X),
    If(X, Vec<St>, Option<Vec<St>>),
    While(X, Vec<St>),
    Switch(X, Vec<(X, Vec<St>)>, Option<Vec<St>>),
    For(u8, X, Vec<St>),
    Ret(Option<X>),
    Break,
}

pub const CLASSES: &str = "class C { let f: Int32; func M(x: Int32) -> Int32 { this.f = x; return Gi(x, this.f); } static func SM(x: Int32) -> Int32 { return Gi(x, 5); } } \
    class D extends C { func M(x: Int32) -> Int32 { return super.M(x + 1); } } struct S { let a: Int32; let b: Int32; } ";

// ------------------------------------------------------------------ text

fn args(a: &[X]) -> String {
    a.iter().map(|x| x.text()).collect::<Vec<_>>().join(", ")
}

impl X {
    pub fn text(&self) -> String {
        match self {
            X::Par(i) => format!("p{i}"),
            X::Var(i) => format!("v{i}"),
            X::K(k) if *k < 0 => format!("({k})"),
            X::K(k) => format!("{k}"),
            X::KB(b) => format!("{b}"),
            X::KT(s) => format!("\"{s}\""),
            X::Call(f, a) => format!("{f}({})", args(a)),
            X::Op(o, a) if a.len() == 1 => format!("{o}({})", a[0].text()),
            X::Op(o, a) => format!("({} {o} {})", a[0].text(), a[1].text()),
            X::Cond(a) => format!("({} ? {} : {})", a[0].text(), a[1].text(), a[2].text()),
            X::Lit(a) => format!("[{}]", args(a)),
            X::Size(a) => format!("ArraySize({})", a.text()),
            X::Has(a, b) => format!("ArrayContains({}, {})", a.text(), b.text()),
            X::At(a, b) => format!("{}[{}]", a.text(), b.text()),
            X::MkS(a) => format!("new S({})", args(a)),
            X::Fld(a, f) => format!("{}.{f}", a.text()),
            X::MkC(d) => format!("new {}()", if *d { "D" } else { "C" }),
            X::Meth(o, a) => format!("{}.M({})", o.text(), args(a)),
            X::SMeth(a) => format!("C.SM({})", args(a)),
            X::Interp(p, a) => {
                let mut s = format!("s\"{p}");
                for (x, t) in a {
                    s += &format!("\\({}){t}", x.text());
                }
                s + "\""
            }
            X::Show(a) => format!("ToString({})", a.text()),
            X::Null => "null".into(),
            X::Def(a) => format!("IsDefined({})", a.text()),
            X::Eq(a, b) => format!("Equals({}, {})", a.text(), b.text()),
        }
    }
}

pub fn block(b: &[St], o: &mut String) {
    for s in b {
        stmt(s, o);
    }
}

fn stmt(s: &St, o: &mut String) {
    match s {
        St::E(x) => *o += &format!("{}; ", x.text()),
        St::Let(v, t, ann, i) => {
            *o += &format!("let v{v}");
            if *ann {
                *o += &format!(": {}", t.text());
            }
            if let Some(x) = i {
                *o += &format!(" = {}", x.text());
            }
            *o += "; ";
        }
        St::Set(l, r) => *o += &format!("{} = {}; ", l.text(), r.text()),
        St::Inc(l, r) => *o += &format!("{} += {}; ", l.text(), r.text()),
        St::Push(l, r) => *o += &format!("ArrayPush({}, {}); ", l.text(), r.text()),
        St::If(c, a, b) => {
            *o += &format!("if {} {{ ", c.text());
            block(a, o);
            *o += "} ";
            if let Some(b) = b {
                *o += "else { ";
                block(b, o);
                *o += "} ";
            }
        }
        St::While(c, a) => {
            *o += &format!("while {} {{ ", c.text());
            block(a, o);
            *o += "} ";
        }
        St::Switch(x, c, d) => {
            *o += &format!("switch {} {{ ", x.text());
            for (m, b) in c {
                *o += &format!("case {}: ", m.text());
                block(b, o);
            }
            if let Some(d) = d {
                *o += "default: ";
                block(d, o);
            }
            *o += "} ";
        }
        St::For(v, x, b) => {
            *o += &format!("for v{v} in {} {{ ", x.text());
            block(b, o);
            *o += "} ";
        }
        St::Ret(x) => *o += &x.as_ref().map_or("return; ".into(), |x| format!("return {}; ", x.text())),
        St::Break => *o += "break; ",
    }
}

// ------------------------------------------------------------------ meaning

pub enum Out {
    Next,
    Break,
    Ret(V),
}

pub struct Run<'h> {
    pub st: State<'h>,
    pub pars: Vec<V>,
    pub vars: BTreeMap<u8, V>,
    pub fuel: usize,
    /// array literals are built before the statement they are part of (what the compiler does), not in their place
    pub hoist: bool,
    pub lits: BTreeMap<usize, V>,
}

enum Pl {
    Var(bool, u8),
    Elem(Box<Pl>, i64),
    Fld(Box<Pl>, &'static str),
    Obj(usize, &'static str),
}

impl<'h> Run<'h> {
    pub fn all(&mut self, a: &[X]) -> Result<Vec<V>, Stop> {
        a.iter().map(|x| self.x(x)).collect()
    }
    fn method(&mut self, d: bool, o: usize, x: V) -> Result<V, Stop> {
        let x = if d { self.st.native("OperatorAdd", vec![x, V::I(1)])? } else { x };
        self.st.heap[o].1[0].1 = x.clone();
        self.st.native("Gi", vec![x.clone(), x])
    }
    pub fn x(&mut self, x: &X) -> Result<V, Stop> {
        Ok(match x {
            X::Par(i) => self.pars[*i as usize].clone(),
            X::Var(i) => self.vars[i].clone(),
            X::K(k) => V::I(*k as i64),
            X::KB(b) => V::B(*b),
            X::KT(s) => text(s),
            X::Call("H", a) => {
                let mut v = self.all(a)?;
                if v.len() == 1 {
                    v.push(V::U);
                }
                self.st.native("H", v)?
            }
            X::Call(f, a) => {
                let v = self.all(a)?;
                self.st.native(f, v)?
            }
            X::Op("&&", a) => V::B(self.x(&a[0])?.b() && self.x(&a[1])?.b()),
            X::Op("||", a) => V::B(self.x(&a[0])?.b() || self.x(&a[1])?.b()),
            X::Op(o, a) => {
                let v = self.all(a)?;
                let f = match (*o, a.len()) {
                    ("+", _) => "OperatorAdd",
                    ("-", 2) => "OperatorSubtract",
                    ("-", _) => "OperatorNeg",
                    ("*", _) => "OperatorMultiply",
                    ("<", _) => "OperatorLess",
                    (">", _) => "OperatorGreater",
                    ("==", _) => "OperatorEqual",
                    ("!", _) => "OperatorLogicNot",
                    _ => unreachable!(),
                };
                self.st.native(f, v)?
            }
            X::Cond(a) => {
                if self.x(&a[0])?.b() {
                    self.x(&a[1])?
                } else {
                    self.x(&a[2])?
                }
            }
            X::Lit(a) => match self.lits.get(&(x as *const X as usize)) {
                Some(v) => v.clone(),
                None => V::A(self.all(a)?),
            },
            X::Size(a) => V::I(self.x(a)?.a().len() as i64),
            X::Has(a, b) => {
                let a = self.x(a)?;
                let b = self.x(b)?;
                V::B(a.a().iter().any(|y| y.same(&b)))
            }
            X::At(a, b) => {
                let a = self.x(a)?;
                let b = self.x(b)?.i();
                a.a().get(b as usize).cloned().unwrap_or(V::I(0))
            }
            X::MkS(a) => {
                let v = self.all(a)?;
                V::St(["a", "b"].iter().zip(v).map(|(n, v)| (n.to_string(), v)).collect())
            }
            X::Fld(a, f) => match self.x(a)? {
                V::St(v) => v.iter().find(|p| &p.0 == f).unwrap().1.clone(),
                V::O(o) => self.st.heap[o].1[0].1.clone(),
                V::Null => V::U,
                v => panic!("lang: field of {v:?}"),
            },
            X::MkC(d) => self.st.alloc(if *d { "D" } else { "C" }, vec![("f".into(), V::I(0))]),
            X::Meth(o, a) => match self.x(o)? {
                V::O(k) => {
                    let x = self.x(&a[0])?;
                    let d = self.st.heap[k].0 == "D";
                    self.method(d, k, x)?
                }
                _ => V::U,
            },
            X::SMeth(a) => {
                let x = self.x(&a[0])?;
                self.st.native("Gi", vec![x, V::I(5)])?
            }
            X::Interp(p, a) => {
                let mut s = text(p).s();
                for (x, t) in a {
                    let v = self.x(x)?;
                    s = concat(concat(s, v.shown().s()), text(t).s());
                }
                V::S(s)
            }
            X::Show(a) => self.x(a)?.shown(),
            X::Null => V::Null,
            X::Def(a) => V::B(!matches!(self.x(a)?, V::Null)),
            X::Eq(a, b) => {
                let a = self.x(a)?;
                let b = self.x(b)?;
                V::B(a.same(&b))
            }
        })
    }
    fn place(&mut self, x: &X) -> Result<Pl, Stop> {
        Ok(match x {
            X::Var(i) => Pl::Var(false, *i),
            X::Par(i) => Pl::Var(true, *i),
            X::At(a, b) => {
                let p = self.place(a)?;
                let i = self.x(b)?.i();
                Pl::Elem(Box::new(p), i)
            }
            X::Fld(a, f) => match self.x(a)? {
                V::O(o) => Pl::Obj(o, f),
                _ => Pl::Fld(Box::new(self.place(a)?), f),
            },
            _ => panic!("lang: not a place"),
        })
    }
    fn slot(&mut self, p: &Pl) -> &mut V {
        match p {
            Pl::Var(false, i) => self.vars.get_mut(i).unwrap(),
            Pl::Var(true, i) => &mut self.pars[*i as usize],
            Pl::Elem(q, i) => match self.slot(q) {
                V::A(v) => v.get_mut(*i as usize).expect("lang: index"),
                _ => panic!("lang: indexing"),
            },
            Pl::Fld(q, f) => match self.slot(q) {
                V::St(v) => &mut v.iter_mut().find(|p| &p.0 == f).unwrap().1,
                _ => panic!("lang: field"),
            },
            Pl::Obj(o, f) => &mut self.st.heap[*o].1.iter_mut().find(|p| &p.0 == f).unwrap().1,
        }
    }
    pub fn block(&mut self, b: &[St]) -> Result<Out, Stop> {
        for s in b {
            match self.stmt(s)? {
                Out::Next => {}
                o => return Ok(o),
            }
        }
        Ok(Out::Next)
    }
    fn tick(&mut self) -> Result<(), Stop> {
        if self.fuel == 0 {
            return Err(Stop::Fuel);
        }
        self.fuel -= 1;
        Ok(())
    }
    /// the literals of an expression, in the order in which they are built
    fn pre(&mut self, x: &X) -> Result<(), Stop> {
        if !self.hoist {
            return Ok(());
        }
        if let X::Lit(a) = x {
            let mut v = vec![];
            for e in a {
                self.pre(e)?;
                v.push(self.x(e)?);
            }
            self.lits.insert(x as *const X as usize, V::A(v));
            return Ok(());
        }
        for e in x.children() {
            self.pre(e)?;
        }
        Ok(())
    }
    fn stmt(&mut self, s: &St) -> Result<Out, Stop> {
        match s {
            St::E(x) | St::Let(_, _, _, Some(x)) | St::If(x, _, _) | St::For(_, x, _) | St::Ret(Some(x)) => self.pre(x)?,
            St::Set(l, r) | St::Inc(l, r) | St::Push(l, r) => {
                self.pre(l)?;
                self.pre(r)?;
            }
            St::Switch(x, c, _) => {
                for (m, _) in c {
                    self.pre(m)?;
                }
                self.pre(x)?;
            }
            _ => {}
        }
        match s {
            St::E(x) => {
                self.x(x)?;
            }
            St::Let(v, t, _, i) => {
                let x = match i {
                    Some(x) => self.x(x)?,
                    None => t.default(),
                };
                self.vars.insert(*v, x);
            }
            St::Set(l, r) => {
                let p = self.place(l)?;
                let v = self.x(r)?;
                *self.slot(&p) = v;
            }
            St::Inc(l, r) => {
                let p = self.place(l)?;
                let v = self.x(r)?;
                let old = self.slot(&p).clone();
                *self.slot(&p) = V::I(old.i().wrapping_add(v.i()) as i32 as i64);
            }
            St::Push(l, r) => {
                let p = self.place(l)?;
                let v = self.x(r)?;
                match self.slot(&p) {
                    V::A(a) => a.push(v),
                    _ => panic!("lang: push"),
                }
            }
            St::If(c, a, b) => {
                if self.x(c)?.b() {
                    return self.block(a);
                } else if let Some(b) = b {
                    return self.block(b);
                }
            }
            St::While(c, a) => loop {
                self.tick()?;
                self.pre(c)?;
                if !self.x(c)?.b() {
                    break;
                }
                match self.block(a)? {
                    Out::Next => {}
                    Out::Break => break,
                    o => return Ok(o),
                }
            },
            St::Switch(x, cases, d) => {
                let v = self.x(x)?;
                let mut hit = cases.len();
                for (i, (m, _)) in cases.iter().enumerate() {
                    if self.x(m)?.same(&v) {
                        hit = i;
                        break;
                    }
                }
                for b in cases[hit..].iter().map(|c| &c.1).chain(d) {
                    match self.block(b)? {
                        Out::Next => {}
                        Out::Break => return Ok(Out::Next),
                        o => return Ok(o),
                    }
                }
            }
            St::For(v, x, b) => {
                let a = self.x(x)?.a().clone();
                for e in a {
                    self.tick()?;
                    self.vars.insert(*v, e);
                    match self.block(b)? {
                        Out::Next => {}
                        Out::Break => break,
                        o => return Ok(o),
                    }
                }
            }
            St::Ret(x) => {
                let v = match x {
                    Some(x) => self.x(x)?,
                    None => V::U,
                };
                return Ok(Out::Ret(v));
            }
            St::Break => return Ok(Out::Break),
        }
        Ok(Out::Next)
    }
}
