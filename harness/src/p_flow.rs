//! Decompiler: control flow.  Structured programs are laid out as the compiler lays them out, decompiled, and both
//! versions are executed side by side for every outcome of every condition.
use redscript::ast::{Constant, Expr, Seq, SourceAst};
use redscript::bundle::{ConstantPool, PoolIndex};
use redscript::bytecode::{Instr, Offset};
use redscript::definition::*;
use redscript_decompiler::Decompiler;

use crate::dec::*;
use crate::isa;
use crate::sx::*;
use crate::wire::digest;

harnesses! { h_flow, h_flow_switch, h_flow_default }

#[derive(Clone, Debug)]
pub enum St {
    A(u32),
    If(u32, Vec<St>, Option<Vec<St>>),
    While(u32, Vec<St>),
    Switch(u32, Vec<(u32, Vec<St>)>, Option<Vec<St>>),
    Break,
    Ret(u32),
    Goto,
}

// ------------------------------------------------------------------ source semantics

#[derive(PartialEq, Clone, Copy)]
enum Out {
    Next,
    Break,
    Ret,
    Stop,
}

pub struct Run<'a> {
    bits: &'a mut Vec<bool>,
    at: usize,
    max: usize,
    pub ev: Vec<u32>,
    pub ok: bool,
}

impl<'a> Run<'a> {
    pub fn new(bits: &'a mut Vec<bool>, max: usize) -> Self {
        Run { bits, at: 0, max, ev: vec![], ok: true }
    }
    fn cond(&mut self, id: u32) -> Option<bool> {
        self.ev.push(id);
        if self.at == self.bits.len() {
            if self.at == self.max {
                return None;
            }
            self.bits.push(choose(2) == 1);
        }
        self.at += 1;
        Some(self.bits[self.at - 1])
    }
    fn block(&mut self, b: &[St]) -> Out {
        for s in b {
            let o = self.stmt(s);
            if o != Out::Next {
                return o;
            }
        }
        Out::Next
    }
    fn stmt(&mut self, s: &St) -> Out {
        match s {
            St::A(k) => {
                self.ev.push(*k);
                Out::Next
            }
            St::If(c, a, b) => match self.cond(*c) {
                None => Out::Stop,
                Some(true) => self.block(a),
                Some(false) => self.block(b.as_deref().unwrap_or(&[])),
            },
            St::While(c, a) => loop {
                match self.cond(*c) {
                    None => return Out::Stop,
                    Some(false) => return Out::Next,
                    Some(true) => match self.block(a) {
                        Out::Next => {}
                        Out::Break => return Out::Next,
                        o => return o,
                    },
                }
            },
            St::Switch(c, cases, d) => {
                self.ev.push(*c);
                let mut hit = None;
                for (i, (m, _)) in cases.iter().enumerate() {
                    match self.cond(*m) {
                        None => return Out::Stop,
                        Some(true) => {
                            hit = Some(i);
                            break;
                        }
                        Some(false) => {}
                    }
                }
                for (_, b) in &cases[hit.unwrap_or(cases.len())..] {
                    match self.block(b) {
                        Out::Next => {}
                        Out::Break => return Out::Next,
                        o => return o,
                    }
                }
                match self.block(d.as_deref().unwrap_or(&[])) {
                    Out::Break => Out::Next,
                    o => o,
                }
            }
            St::Break => Out::Break,
            St::Ret(k) => {
                self.ev.push(*k);
                Out::Ret
            }
            St::Goto => {
                self.ok = false;
                Out::Stop
            }
        }
    }
    pub fn run(&mut self, b: &[St]) {
        self.block(b);
    }
}

// ------------------------------------------------------------------ code layout

#[derive(Default)]
pub struct Gen {
    pub code: Vec<RI>,
    labels: Vec<usize>,
    fix: Vec<(usize, usize, usize)>,
}

impl Gen {
    fn label(&mut self) -> usize {
        self.labels.push(usize::MAX);
        self.labels.len() - 1
    }
    fn place(&mut self, l: usize) {
        self.labels[l] = self.code.len();
    }
    fn jump(&mut self, op: u8, l0: usize, l1: usize) {
        self.fix.push((self.code.len(), l0, l1));
        self.code.push(ri(op, &[0, 0, 0, 0]));
    }
    fn call(&mut self, k: u32) {
        self.code.push(ri(36, &[0, 0, 1, 0]));
        self.code.push(ri(6, &[k as u64]));
        self.code.push(ri(38, &[]));
    }
    fn konst(&mut self, k: u32) {
        self.code.push(ri(6, &[k as u64]));
    }
    pub fn block(&mut self, b: &[St], exit: usize) {
        for s in b {
            match s {
                St::A(k) => self.call(*k),
                St::Ret(k) => {
                    self.code.push(ri(39, &[]));
                    if *k % 2 == 0 {
                        self.code.push(ri(0, &[]));
                    } else {
                        self.konst(*k);
                    }
                }
                St::Break => self.jump(31, exit, 0),
                St::If(c, a, b) => {
                    let e = self.label();
                    self.jump(32, e, 0);
                    self.call(*c);
                    self.block(a, exit);
                    if let Some(b) = b {
                        let x = self.label();
                        self.jump(31, x, 0);
                        self.place(e);
                        self.block(b, exit);
                        self.place(x);
                    } else {
                        self.place(e);
                    }
                }
                St::While(c, a) => {
                    let (x, l) = (self.label(), self.label());
                    self.place(l);
                    self.jump(32, x, 0);
                    self.call(*c);
                    self.block(a, x);
                    self.jump(31, l, 0);
                    self.place(x);
                }
                St::Switch(c, cases, d) => {
                    let first = self.label();
                    let mut next = self.label();
                    let x = self.label();
                    self.jump(28, first, 0);
                    self.call(*c);
                    self.place(first);
                    let mut body = self.label();
                    for (m, b) in cases {
                        self.place(next);
                        next = self.label();
                        self.jump(29, next, body);
                        self.konst(*m);
                        if !b.is_empty() {
                            self.place(body);
                            self.block(b, x);
                            body = self.label();
                        }
                    }
                    self.place(next);
                    if let Some(d) = d {
                        self.code.push(ri(30, &[]));
                        self.block(d, x);
                    }
                    self.place(x);
                }
                St::Goto => unreachable!(),
            }
        }
    }
    pub fn finish(mut self) -> Vec<RI> {
        let mut pos = vec![0i32];
        for r in &self.code {
            pos.push(pos[pos.len() - 1] + isa::ref_size(r.op) as i32);
        }
        for (i, a, b) in std::mem::take(&mut self.fix) {
            let d = |l: usize| (pos[self.labels[l]] - pos[i]) as i16;
            let offs = if self.code[i].op == 29 { (d(a), d(b)) } else { (d(a), 0) };
            self.code[i].offs = offs;
        }
        self.code
    }
}

pub fn layout(b: &[St]) -> Vec<RI> {
    let mut g = Gen::default();
    g.block(b, usize::MAX);
    g.code.push(ri(0, &[]));
    g.finish()
}

// ------------------------------------------------------------------ reading the decompiled tree

fn marker(e: &Expr<SourceAst>) -> u32 {
    match e {
        Expr::Call(n, t, a, _) => {
            assert!(n.as_ref() == "glob;Int32" && t.is_empty() && a.len() == 1, "expression differs");
            marker(&a[0])
        }
        Expr::Constant(Constant::I32(k), _) => *k as u32,
        _ => panic!("expression differs"),
    }
}

pub fn tree(s: &Seq<SourceAst>) -> Vec<St> {
    let mut o = vec![];
    for e in &s.exprs {
        node(e, &mut o);
    }
    o
}

fn node(e: &Expr<SourceAst>, o: &mut Vec<St>) {
    match e {
        Expr::Seq(s) => o.extend(tree(s)),
        Expr::If(c, a, b, _) => o.push(St::If(marker(c), tree(a), b.as_ref().map(tree))),
        Expr::While(c, a, _) => o.push(St::While(marker(c), tree(a))),
        Expr::Switch(c, cs, d, _) => {
            o.push(St::Switch(marker(c), cs.iter().map(|k| (marker(&k.matcher), tree(&k.body))).collect(), d.as_ref().map(tree)))
        }
        Expr::Break(_) => o.push(St::Break),
        Expr::Goto(_, _) => o.push(St::Goto),
        Expr::Return(None, _) => o.push(St::Ret(0)),
        Expr::Return(Some(v), _) => o.push(St::Ret(marker(v))),
        e => o.push(St::A(marker(e))),
    }
}

// ------------------------------------------------------------------ arbitrary programs

pub struct Prog {
    pub budget: u64,
    pub id: u32,
    pub maxdepth: u32,
    pub kinds: u64,
}

impl Prog {
    fn fresh(&mut self) -> u32 {
        self.id += 2;
        self.id
    }
    /// kinds bits: 1 plain, 2 if, 4 if/else, 8 while, 16 switch, 32 break, 64 return, 128: plain statements around every other one
    pub fn block(&mut self, depth: u32, brk: bool, nonempty: bool) -> Vec<St> {
        let mut o = vec![];
        loop {
            if self.budget == 0 {
                break;
            }
            let k = choose(8);
            assume(k == 0 || self.kinds >> (k - 1) & 1 == 1);
            if k == 0 {
                assume(!nonempty || !o.is_empty());
                break;
            }
            self.budget -= 1;
            let id = self.fresh();
            assume(depth > 0 || k == 1 || k >= 6);
            if self.kinds >> 7 == 1 {
                let a = self.fresh();
                o.push(St::A(a));
            }
            match k {
                1 => o.push(St::A(id)),
                2 => {
                    let a = self.block(depth - 1, brk, false);
                    o.push(St::If(id, a, None));
                }
                3 => {
                    let a = self.block(depth - 1, brk, false);
                    let b = self.block(depth - 1, brk, false);
                    o.push(St::If(id, a, Some(b)));
                }
                4 => {
                    let a = self.block(depth - 1, true, false);
                    o.push(St::While(id, a));
                }
                5 => {
                    let n = 1 + choose(3);
                    let mut cs = vec![];
                    for i in 0..n {
                        let m = self.fresh();
                        let last = i + 1 == n;
                        let mut b = self.block(depth - 1, true, last);
                        if last && b.is_empty() {
                            b.push(St::A(self.fresh()));
                        }
                        cs.push((m, b));
                    }
                    let d = if choose(2) == 1 { Some(self.block(depth - 1, true, false)) } else { None };
                    o.push(St::Switch(id, cs, d));
                }
                6 => {
                    assume(brk);
                    o.push(St::Break);
                    break;
                }
                _ => {
                    o.push(St::Ret(if choose(2) == 1 { id + 1 } else { 0 }));
                    break;
                }
            }
            if self.kinds >> 7 == 1 {
                let a = self.fresh();
                o.push(St::A(a));
            }
        }
        o
    }
}

/// a break of the switch itself somewhere inside the block (not one of a nested loop or switch)
fn breaks(b: &[St]) -> bool {
    b.iter().any(|s| match s {
        St::Break => true,
        St::If(_, a, b) => breaks(a) || b.as_ref().map_or(false, |b| breaks(b)),
        _ => false,
    })
}

/// a break nested in the default of a switch none of whose cases breaks: where such a switch ends cannot be seen
fn default_break(b: &[St]) -> bool {
    b.iter().any(|s| match s {
        St::If(_, a, b) => default_break(a) || b.as_ref().map_or(false, |b| default_break(b)),
        St::While(_, a) => default_break(a),
        St::Switch(_, cs, d) => {
            cs.iter().any(|c| default_break(&c.1))
                || d.as_ref().map_or(false, |d| default_break(d) || (breaks(d) && !cs.iter().any(|c| breaks(&c.1))))
        }
        _ => false,
    })
}

/// just the one function the markers call
pub fn small_world() -> ConstantPool {
    let mut p = ConstantPool::default();
    p.names.add("".into());
    let n = p.names.add("glob;Int32".into());
    let _: PoolIndex<Definition> = p.add_definition(Definition::DEFAULT);
    let _: PoolIndex<Function> = p.add_definition(Definition::function(n, PoolIndex::new(0), func(FunctionFlags::new().with_is_static(true), vec![])));
    p
}

fn check(p: &[St], steps: usize) {
    let code = layout(p);
    let pool = small_world();
    let def = Definition::function(PoolIndex::new(1), PoolIndex::new(0), func(FunctionFlags::new().with_has_body(true), instrs(&code)));
    let f = def.value.as_function().unwrap();
    let seq = Decompiler::decompiled(f, &def, &pool).expect("structured code rejected");
    let t = tree(&seq);
    let mut bits = vec![];
    let mut a = Run::new(&mut bits, steps);
    a.run(p);
    let want = a.ev;
    let mut b = Run::new(&mut bits, steps);
    b.run(&t);
    assert!(b.ok, "decompiled code jumps out of the structure");
    assert!(b.ev == want, "decompiled code behaves differently");
    let mut o = vec![];
    s_seq(&seq, &mut o);
    observe(digest(&o));
    cover(1);
}

/// param 0: statements, 1: depth, 2: condition outcomes followed, 3: kinds
pub fn h_flow() {
    let mut g = Prog { budget: param(0), id: 100, maxdepth: 0, kinds: param(3) };
    let p = g.block(param(1) as u32, false, false);
    assume(param(4) == 1 || !default_break(&p));
    check(&p, param(2) as usize);
}

/// a switch with the given number of cases, each body up to one statement plus break
pub fn h_flow_switch() {
    let mut g = Prog { budget: param(0), id: 100, maxdepth: 0, kinds: 0x77 };
    let n = param(1);
    let mut cs = vec![];
    for i in 0..n {
        let m = g.fresh();
        let mut b = vec![];
        if choose(2) == 1 || i + 1 == n {
            b.push(St::A(g.fresh()));
            if choose(2) == 1 {
                b.push(St::Break);
            }
        }
        cs.push((m, b));
    }
    let d = if choose(2) == 1 { Some(g.block(param(2) as u32, true, false)) } else { None };
    let id = g.fresh();
    let mut p = vec![St::Switch(id, cs, d), St::A(g.fresh())];
    if choose(2) == 1 {
        p = vec![St::While(g.fresh(), p)];
    }
    assume(!default_break(&p));
    check(&p, param(3) as usize);
}


/// breaks inside the default of a switch without other breaks
pub fn h_flow_default() {
    let mut g = Prog { budget: param(0), id: 100, maxdepth: 0, kinds: 0x27 };
    let (c, m) = (g.fresh(), g.fresh());
    let body = if choose(2) == 1 { vec![St::A(g.fresh())] } else { vec![St::Ret(0)] };
    let d = g.block(param(1) as u32, true, false);
    let p = vec![St::Switch(c, vec![(m, body)], Some(d)), St::A(g.fresh())];
    assume(default_break(&p));
    check(&p, param(2) as usize);
}
