//! Annotated declarations change existing classes and functions exactly as they say.
use std::io;

use redscript::bundle::*;

use crate::c_sem::game;
use crate::sx::*;
use crate::vm::*;
use crate::world::*;

harnesses! { h_ann }

const BASE: &str = "class B { let f: Int32; \
    public func M(x: Int32) -> Int32 { return Gi(1, x); } \
    public final func Q(x: Int32) -> Int32 { return Gi(2, x); } \
    public static func S(x: Int32) -> Int32 { return Gi(3, x); } \
    public func N() -> Void { F(4); } \
    public func M(b: Bool) -> Int32 { if b { return F(5); } return F(6); } } \
  class D extends B { public func M(x: Int32) -> Int32 { return super.M(Gi(7, x)); } } \
  func G(x: Int32) -> Int32 { return Gi(8, x); } \
  func U(o: ref<B>) -> Int32 { return o.M(50); } ";

const DRIVER: &str = "func T(p0: Int32, p1: Int32, p2: Bool) -> Int32 { \
    let o: ref<B> = new B(); if p2 { o = new D(); } \
    o.M(p0); o.N(); o.Q(p1); B.S(p0); o.M(p2); U(o); return G(p1); }";

/// what can be changed
#[derive(Clone, Copy, PartialEq, Debug)]
enum Tg {
    BM,
    DM,
    Q,
    S,
    N,
    MB,
    DN,
    G,
}

/// a body: calls F(k), may leave early, calls what it wraps n times, calls F again
#[derive(Clone, Copy, Debug)]
struct Layer {
    k: i32,
    early: bool,
    calls: u64,
    field: bool,
}

impl Layer {
    fn body(&self, t: Tg) -> String {
        let k = self.k;
        let mut s = format!("let a: Int32 = F({k}); ");
        let void = t == Tg::N || t == Tg::DN;
        if self.early {
            s += if void { "if P() { return; } " } else { "if P() { return a; } " };
        }
        let arg = if void { "" } else if t == Tg::MB { "b" } else { "x" };
        if self.calls >= 1 {
            s += &if void { format!("wrappedMethod({arg}); ") } else { format!("let r: Int32 = wrappedMethod({arg}); ") };
            s += &if void { format!("F({}); ", k + 1) } else { format!("a = Gi({}, r); ", k + 1) };
        }
        if self.calls >= 2 {
            s += &if void { "wrappedMethod(); ".to_owned() } else if t == Tg::MB { "a = wrappedMethod(!b); ".to_owned() } else { "a = wrappedMethod(a); ".to_owned() };
        }
        if self.field {
            s += &format!("this.g = Gi({}, this.g); ", k + 2);
        }
        if !void {
            s += "return a; ";
        }
        s
    }
}

/// the bodies in force: what was there (None) or a replacement, then the wrappers from the inside out
#[derive(Default)]
struct Chain {
    inner: Option<Layer>,
    outer: Vec<Layer>,
}

struct Model<'h> {
    st: State<'h>,
    ch: Vec<(Tg, Chain)>,
    derived: bool,
    dn: Option<Layer>,
    e: bool,
    g: V,
}

impl<'h> Model<'h> {
    fn chain(&mut self, t: Tg) -> &mut Chain {
        let i = match self.ch.iter().position(|c| c.0 == t) {
            Some(i) => i,
            None => {
                self.ch.push((t, Chain::default()));
                self.ch.len() - 1
            }
        };
        &mut self.ch[i].1
    }
    fn nat(&mut self, f: &str, a: Vec<V>) -> Result<V, Stop> {
        self.st.native(f, a)
    }
    fn k(k: i32) -> V {
        V::I(k as i64)
    }
    fn call(&mut self, t: Tg, x: V) -> Result<V, Stop> {
        let n = self.chain(t).outer.len();
        self.at(t, n, x)
    }
    fn layer(&mut self, l: Layer, t: Tg, below: usize, x: V) -> Result<V, Stop> {
        let mut a = self.nat("F", vec![Self::k(l.k)])?;
        let void = t == Tg::N || t == Tg::DN;
        if l.early && self.nat("P", vec![])?.b() {
            return Ok(a);
        }
        if l.calls >= 1 {
            let r = self.at(t, below, x.clone())?;
            a = if void { self.nat("F", vec![Self::k(l.k + 1)])? } else { self.nat("Gi", vec![Self::k(l.k + 1), r])? };
        }
        if l.calls >= 2 {
            let x = if t == Tg::MB { V::B(!x.b()) } else { a.clone() };
            a = self.at(t, below, x)?;
        }
        if l.field {
            let g = self.g.clone();
            self.g = self.nat("Gi", vec![Self::k(l.k + 2), g])?;
        }
        Ok(a)
    }
    fn at(&mut self, t: Tg, n: usize, x: V) -> Result<V, Stop> {
        if n > 0 {
            let l = self.chain(t).outer[n - 1];
            return self.layer(l, t, n - 1, x);
        }
        if let Some(l) = self.chain(t).inner {
            return self.layer(l, t, 0, x);
        }
        match t {
            Tg::BM => self.nat("Gi", vec![Self::k(1), x]),
            Tg::DM => {
                let a = self.nat("Gi", vec![Self::k(7), x])?;
                self.call(Tg::BM, a)
            }
            Tg::Q => self.nat("Gi", vec![Self::k(2), x]),
            Tg::S => self.nat("Gi", vec![Self::k(3), x]),
            Tg::N => self.nat("F", vec![Self::k(4)]),
            Tg::MB => {
                let k = if x.b() { 5 } else { 6 };
                self.nat("F", vec![Self::k(k)])
            }
            Tg::G => self.nat("Gi", vec![Self::k(8), x]),
            Tg::DN => self.call(Tg::N, x),
        }
    }
    fn driver(&mut self, p: &[V]) -> Result<V, Stop> {
        let d = self.derived;
        let m = if d { Tg::DM } else { Tg::BM };
        self.call(m, p[0].clone())?;
        let dn = d && self.chain(Tg::DN).inner.is_some();
        self.call(if dn { Tg::DN } else { Tg::N }, V::U)?;
        self.call(Tg::Q, p[1].clone())?;
        self.call(Tg::S, p[0].clone())?;
        self.call(Tg::MB, p[2].clone())?;
        self.call(m, Self::k(50))?;
        self.call(Tg::G, p[1].clone())
    }
}

fn head(t: Tg) -> &'static str {
    match t {
        Tg::BM | Tg::DM => "public func M(x: Int32) -> Int32",
        Tg::Q => "public final func Q(x: Int32) -> Int32",
        Tg::S => "public static func S(x: Int32) -> Int32",
        Tg::N | Tg::DN => "public func N() -> Void",
        Tg::MB => "public func M(b: Bool) -> Int32",
        Tg::G => "public func G(x: Int32) -> Int32",
    }
}

/// p0: changes, p1: 0 one source, 1 one source each, 2 compiled one after the other, saved and loaded in between; p2: kinds of bodies, p3: targets
pub fn h_ann() {
    let mut w = game();
    compile(&mut w.p, &[BASE]).expect("base");
    let n = param(0) as usize;
    let all: Vec<(bool, Tg)> = [Tg::BM, Tg::DM, Tg::S, Tg::N, Tg::Q, Tg::MB].iter().flat_map(|t| [(true, *t), (false, *t)]).chain([(false, Tg::G), (false, Tg::DN)]).collect();
    let all: Vec<_> = all.into_iter().enumerate().filter(|(i, _)| param(3) >> i & 1 == 1).map(|x| x.1).collect();
    let mut text = vec![];
    let mut done: Vec<(bool, Tg, Layer)> = vec![];
    let mut field = false;
    for i in 0..n {
        let (wrap, t) = all[choose(all.len() as u64) as usize];
        // one replacement of each function: two of them are in conflict, which the compiler reports
        assume(wrap || !done.iter().any(|d| !d.0 && d.1 == t));
        let k = 100 * (i as i32 + 1);
        let v = [0, 1, 2, 3, 4, 5][choose(param(2)) as usize];
        let mut l = Layer { k, early: v == 3, calls: [1, 0, 2, 1, 1, 0][v], field: v == 4 };
        if !wrap {
            l.calls = 0;
            assume(v == 1 || v == 3 || v == 4);
        }
        assume(!(l.field && (t == Tg::S || t == Tg::G)));
        field |= l.field;
        let ann = match (wrap, t) {
            (true, Tg::DM) => "@wrapMethod(D)",
            (true, _) => "@wrapMethod(B)",
            (_, Tg::G) => "@replaceGlobal()",
            (_, Tg::DN) => "@addMethod(D)",
            (_, Tg::DM) => "@replaceMethod(D)",
            _ => "@replaceMethod(B)",
        };
        text.push(format!("{ann} {} {{ {}}} ", head(t), l.body(t)));
        done.push((wrap, t, l));
    }
    if field {
        let f = "@addField(B) let g: Int32; ".to_owned();
        if choose(2) == 0 || param(1) == 2 {
            text.insert(0, f);
        } else {
            text.push(f);
        }
    }
    text.push(DRIVER.to_owned());
    let mut log = vec![];
    match param(1) {
        0 => log.push(text.concat()),
        1 => log = text,
        _ => log = text,
    }
    if !symbolic() {
        eprintln!("SOURCES {log:#?}");
    }
    let mut ok = |d: Result<Vec<redscript_compiler::diagnostics::Diagnostic>, redscript_compiler::error::Error>| match d {
        Ok(d) => assert!(!fatal(&d), "changes of existing functions are rejected: {:?}", d.iter().filter(|d| d.is_fatal()).collect::<Vec<_>>()),
        Err(e) => panic!("changes of existing functions are rejected: {e:?}"),
    };
    if param(1) == 2 {
        for t in &log {
            ok(compile(&mut w.p, &[t]));
            let mut h = vec![0u8; 104];
            h[..4].copy_from_slice(b"REDS");
            h[4] = 14;
            let mut b = ScriptBundle::load(&mut io::Cursor::new(h)).unwrap();
            b.pool = std::mem::take(&mut w.p);
            let mut o = io::Cursor::new(vec![]);
            b.save(&mut o).unwrap();
            w.p = ScriptBundle::load(&mut io::Cursor::new(o.into_inner())).expect("saved pool").pool;
        }
    } else {
        let s: Vec<&str> = log.iter().map(|s| s.as_str()).collect();
        ok(compile(&mut w.p, &s));
    }
    let mut host = Host { ints: vec![], bools: vec![] };
    let pars = vec![V::I(i32_() as i64), V::I(i32_() as i64), V::B(choose(2) == 1)];
    let mut m = Model { st: State::new(&mut host, 60), ch: vec![], derived: pars[2].b(), dn: None, e: false, g: V::I(0) };
    for (wrap, t, l) in &done {
        let c = m.chain(*t);
        if *wrap {
            c.outer.push(*l);
        } else {
            c.inner = Some(*l);
            // what an earlier compilation has wrapped is an ordinary function to the next one
            if param(1) == 2 {
                c.outer.clear();
            }
        }
    }
    let want = m.driver(&pars).expect("fuel");
    let ev = std::mem::take(&mut m.st.ev);
    let mut vm = Vm::new(&w.p, State::new(&mut host, 61), 4000);
    let got = vm.call(find(&w.p, "T").cast(), V::U, pars).unwrap_or_else(|_| panic!("the changed program does not end"));
    for (i, (a, b)) in ev.iter().zip(&vm.st.ev).enumerate() {
        assert!(a.f == b.f && a.a.len() == b.a.len() && a.a.iter().zip(&b.a).all(|(x, y)| x.same(y)), "effect {i}: the changes call {a:?}, the code calls {b:?}");
    }
    assert!(ev.len() == vm.st.ev.len(), "the changed program should have {} effects, not {}", ev.len(), vm.st.ev.len());
    assert!(want.same(&got), "the changed program returns another value");
    observe(ev.len() as u64);
    cover(1);
    if field {
        cover(2);
    }
}
