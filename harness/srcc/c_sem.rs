//! Compiled code does what the source says.
use crate::lang::*;
use crate::sx::*;
use crate::vm::*;
use crate::world::*;

harnesses! { h_sem_flow, h_sem_expr, h_sem_literals }

pub fn game() -> W {
    let mut w = W::new();
    let b2 = ["Int32", "Int32"];
    w.native("F", &["Int32"], "Int32");
    w.native("H", &["Int32", "opt Int32"], "Int32");
    w.native("Gi", &["Int32", "Int32"], "Int32");
    w.native("P", &[], "Bool");
    w.native("Pr", &["String"], "");
    w.native("Ev", &["Variant"], "");
    w.native("OperatorAdd;Int32Int32;Int32", &b2, "Int32");
    w.native("OperatorSubtract;Int32Int32;Int32", &b2, "Int32");
    w.native("OperatorLess;Int32Int32;Bool", &b2, "Bool");
    w.native("OperatorEqual;Int32Int32;Bool", &b2, "Bool");
    w.native("OperatorLogicAnd;BoolBool;Bool", &["Bool", "sc Bool"], "Bool");
    w.native("OperatorLogicOr;BoolBool;Bool", &["Bool", "sc Bool"], "Bool");
    w.native("OperatorLogicNot;Bool;Bool", &["Bool"], "Bool");
    w.native("OperatorNeg;Int32;Int32", &["Int32"], "Int32");
    w.native("OperatorAssignAdd;OutInt32Int32;Int32", &["out Int32", "Int32"], "Int32");
    w.native("OperatorAdd;Script_RefStringScript_RefString;String", &["script_ref:String", "script_ref:String"], "String");
    w
}

/// compiles the program and runs both versions on arbitrary inputs; false when the compiler rejects it
pub fn check(body: &[St], ret: Option<Ty>, classes: bool, fuel: usize, strict: bool) -> bool {
    let mut src = String::new();
    if classes {
        src += CLASSES;
    }
    src += "func T(p0: Int32, p1: Int32, p2: Bool)";
    if let Some(t) = ret {
        src += &format!(" -> {}", t.text());
    }
    src += " { ";
    block(body, &mut src);
    src += "}";
    if !symbolic() {
        eprintln!("SOURCE {src}");
    }
    let mut w = game();
    match compile(&mut w.p, &[&src]) {
        Err(_) => return false,
        Ok(d) if fatal(&d) => return false,
        Ok(_) => {}
    }
    let mut host = Host { ints: vec![], bools: vec![] };
    let pars = vec![V::I(i32_() as i64), V::I(i32_() as i64), V::B(bool_())];
    let (n, m) = agree(&w, &mut host, body, &pars, fuel, !strict);
    if let Err(m) = m {
        if strict && agree(&w, &mut host, body, &pars, fuel, true).1.is_ok() {
            panic!("an array literal is built before the statement and not in its place: {m}");
        }
        panic!("{m}");
    }
    observe(n as u64);
    true
}

fn agree(w: &W, host: &mut Host, body: &[St], pars: &[V], fuel: usize, hoist: bool) -> (usize, Result<(), String>) {
    let mut r = Run { st: State::new(host, 12), pars: pars.to_vec(), vars: Default::default(), fuel, hoist, lits: Default::default() };
    let want = r.block(body);
    let ev = std::mem::take(&mut r.st.ev);
    let stopped = want.is_err();
    let mut vm = Vm::new(&w.p, State::new(host, if stopped { ev.len() } else { 13 }), 400 + 200 * fuel);
    let got = vm.call(find(&w.p, "T").cast(), V::U, pars.to_vec());
    let gev = &vm.st.ev;
    let n = ev.len();
    for (i, (a, b)) in ev.iter().zip(gev).enumerate() {
        if !(a.f == b.f && a.a.len() == b.a.len() && a.a.iter().zip(&b.a).all(|(x, y)| x.same(y))) {
            return (n, Err(format!("effect {i}: the source calls {a:?}, the code calls {b:?}")));
        }
    }
    if n != gev.len() {
        return (n, Err(format!("the source has {} effects, the code {}", n, gev.len())));
    }
    let r = match (want, got) {
        (Err(_), _) | (Ok(Out::Next | Out::Break), Ok(V::U)) => Ok(()),
        (Ok(Out::Ret(a)), Ok(b)) if a.same(&b) => Ok(()),
        (Ok(Out::Ret(a)), Ok(b)) => Err(format!("the source returns {a:?}, the code {b:?}")),
        (Ok(_), Ok(b)) => Err(format!("the code returns {b:?}")),
        (Ok(_), Err(_)) => Err("the code does not end".into()),
    };
    (n, r)
}

struct Gen {
    k: i32,
    v: u8,
    mask: u64,
    budget: u32,
}

impl Gen {
    fn k(&mut self) -> X {
        self.k += 1;
        X::K(self.k)
    }
    fn event(&mut self) -> X {
        let k = self.k();
        X::Call("F", vec![k])
    }
    fn cond(&mut self) -> X {
        X::Call("P", vec![])
    }
    /// every block of at most `budget` further statements
    fn block(&mut self, depth: u32, brk: bool, nonempty: bool) -> Vec<St> {
        let mut r = vec![];
        let mut first = nonempty;
        while self.budget > 0 {
            let mut ks = vec![];
            for k in 0..9 {
                if self.mask >> k & 1 == 1 && !((k == 2 || k == 3 || k == 4 || k == 5) && depth == 0) && !(k == 7 && !brk) {
                    ks.push(k);
                }
            }
            let c = choose(ks.len() as u64 + !first as u64) as usize;
            if c == ks.len() {
                break;
            }
            first = false;
            self.budget -= 1;
            match ks[c] {
                0 => {
                    let e = self.event();
                    r.push(St::E(e));
                }
                1 => {
                    let v = self.v;
                    self.v += 1;
                    r.push(St::Let(v, Ty::I, true, None));
                    r.push(St::E(X::Call("F", vec![X::Var(v)])));
                    let k = self.k();
                    r.push(St::Inc(X::Var(v), k));
                    r.push(St::E(X::Call("F", vec![X::Var(v)])));
                }
                2 => {
                    let c = self.cond();
                    let a = self.block(depth - 1, brk, false);
                    let b = if choose(2) == 1 { Some(self.block(depth - 1, brk, false)) } else { None };
                    r.push(St::If(c, a, b));
                }
                3 => {
                    let c = self.cond();
                    let a = self.block(depth - 1, true, false);
                    r.push(St::While(c, a));
                }
                4 => {
                    let n = choose(3);
                    let mut cases = vec![];
                    for i in 0..n {
                        let b = self.block(depth - 1, true, false);
                        cases.push((X::K(i as i32), b));
                    }
                    let d = if choose(2) == 1 { Some(self.block(depth - 1, true, false)) } else { None };
                    let e = self.event();
                    r.push(St::Switch(e, cases, d));
                }
                5 => {
                    let v = self.v;
                    self.v += 1;
                    let a = self.k();
                    let b = self.event();
                    let mut body = vec![St::E(X::Call("F", vec![X::Var(v)]))];
                    body.extend(self.block(depth - 1, true, false));
                    r.push(St::For(v, X::Lit(vec![a, b]), body));
                }
                6 => {
                    r.push(St::Ret(None));
                    return r;
                }
                7 => {
                    r.push(St::Break);
                    return r;
                }
                _ => {
                    let e = self.event();
                    let a = self.cond();
                    let f = self.event();
                    r.push(St::E(X::Cond(vec![a, e, f])));
                }
            }
        }
        r
    }
}

/// p0: statements, p1: nesting, p2: kinds of statements, p3: loop iterations
pub fn h_sem_flow() {
    let mut g = Gen { k: 100, v: 0, mask: param(2), budget: param(0) as u32 };
    let b = g.block(param(1) as u32, false, true);
    cover(if check(&b, None, false, param(3) as usize, false) { 1 } else { 2 });
}

struct Ex {
    k: i32,
    mask: u64,
    cls: bool,
}

impl Ex {
    fn k(&mut self) -> i32 {
        self.k += 1;
        self.k
    }
    fn pick(&mut self, n: u64) -> u64 {
        choose(n)
    }
    /// an expression of the type; d: nesting.  One operand is as deep as allowed, the others are calls with an effect.
    fn ex(&mut self, t: Ty, d: u32) -> X {
        match t {
            Ty::I => self.int(d),
            Ty::B => self.bool_(d),
            Ty::T => self.txt(d),
            Ty::A => self.arr(d),
            Ty::S => {
                let a = self.args(&[Ty::I, Ty::I], d);
                X::MkS(a)
            }
            Ty::C => self.obj(d),
        }
    }
    fn leaf(&mut self, t: Ty) -> X {
        match t {
            Ty::I => X::Call("F", vec![X::K(self.k())]),
            Ty::B => X::Call("P", vec![]),
            Ty::T => X::KT("t"),
            Ty::A => X::Var(200),
            Ty::S => X::Var(202),
            Ty::C => X::Var(201),
        }
    }
    fn args(&mut self, t: &[Ty], d: u32) -> Vec<X> {
        let deep = if t.len() > 1 { self.pick(t.len() as u64) as usize } else { 0 };
        (0..t.len()).map(|i| if i == deep && d > 0 { self.ex(t[i], d - 1) } else { self.leaf(t[i]) }).collect()
    }
    fn int(&mut self, d: u32) -> X {
        if d == 0 {
            return match self.pick(3) {
                0 => self.leaf(Ty::I),
                1 => X::Par(0),
                _ => X::K(7),
            };
        }
        match self.pick(14) {
            0 => X::Call("F", self.args(&[Ty::I], d)),
            1 => X::Call("H", self.args(&[Ty::I], d)),
            2 => X::Call("H", self.args(&[Ty::I, Ty::I], d)),
            3 => X::Op("+", self.args(&[Ty::I, Ty::I], d)),
            4 => X::Op("-", self.args(&[Ty::I, Ty::I], d)),
            5 => X::Cond(self.args(&[Ty::B, Ty::I, Ty::I], d)),
            6 => X::Op("-", self.args(&[Ty::I], d)),
            7 => X::Size(Box::new(self.args(&[Ty::A], d).pop().unwrap())),
            8 => X::At(Box::new(X::Var(200)), Box::new(X::Cond(vec![self.args(&[Ty::B], d).pop().unwrap(), X::K(0), X::K(1)]))),
            9 => X::Fld(Box::new(X::Var(202)), "b"),
            10 => X::Fld(Box::new(self.args(&[Ty::C], d).pop().unwrap()), "f"),
            11 => {
                let mut a = self.args(&[Ty::C, Ty::I], d);
                let x = a.pop().unwrap();
                X::Meth(Box::new(a.pop().unwrap()), vec![x])
            }
            12 => X::SMeth(self.args(&[Ty::I], d)),
            _ => X::Var(203),
        }
    }
    fn bool_(&mut self, d: u32) -> X {
        if d == 0 {
            return match self.pick(3) {
                0 => self.leaf(Ty::B),
                1 => X::Par(2),
                _ => X::KB(true),
            };
        }
        match self.pick(9) {
            0 => X::Op("<", self.args(&[Ty::I, Ty::I], d)),
            1 => X::Op("==", self.args(&[Ty::I, Ty::I], d)),
            2 => X::Op("&&", self.args(&[Ty::B, Ty::B], d)),
            3 => X::Op("||", self.args(&[Ty::B, Ty::B], d)),
            4 => X::Op("!", self.args(&[Ty::B], d)),
            5 => X::Cond(self.args(&[Ty::B, Ty::B, Ty::B], d)),
            6 => {
                let mut a = self.args(&[Ty::A, Ty::I], d);
                let x = a.pop().unwrap();
                X::Has(Box::new(a.pop().unwrap()), Box::new(x))
            }
            7 => X::Def(Box::new(self.args(&[Ty::C], d).pop().unwrap())),
            _ => {
                let t = [Ty::I, Ty::B, Ty::T][self.pick(3) as usize];
                let mut a = self.args(&[t, t], d);
                let x = a.pop().unwrap();
                X::Eq(Box::new(a.pop().unwrap()), Box::new(x))
            }
        }
    }
    fn txt(&mut self, d: u32) -> X {
        if d == 0 {
            return X::KT("lit");
        }
        match self.pick(4) {
            0 => {
                let a = self.args(&[Ty::I], d).pop().unwrap();
                let n = self.pick(2);
                X::Interp(["", "a "][n as usize], vec![(a, ["", " z"][n as usize])])
            }
            1 => {
                let mut a = self.args(&[Ty::T, Ty::I], d);
                let x = a.pop().unwrap();
                X::Interp("", vec![(a.pop().unwrap(), ":"), (x, "")])
            }
            2 => X::Show(Box::new(self.args(&[Ty::I], d).pop().unwrap())),
            _ => X::Cond(self.args(&[Ty::B, Ty::T, Ty::T], d)),
        }
    }
    fn arr(&mut self, d: u32) -> X {
        if d == 0 {
            return X::Var(200);
        }
        match self.pick(3) {
            0 => X::Lit(self.args(&[Ty::I], d)),
            1 => X::Lit(self.args(&[Ty::I, Ty::I], d)),
            _ => X::Cond(self.args(&[Ty::B, Ty::A, Ty::A], d)),
        }
    }
    fn obj(&mut self, d: u32) -> X {
        match self.pick(if d == 0 { 3 } else { 4 }) {
            0 => X::Var(201),
            1 => X::MkC(false),
            2 => X::MkC(true),
            _ => X::Cond(self.args(&[Ty::B, Ty::C, Ty::C], d)),
        }
    }
}

/// p0: nesting, p1: loop iterations, p2: contexts
pub fn h_sem_expr() {
    let d = param(0) as u32;
    let mut g = Ex { k: 100, mask: param(2), cls: true };
    let mut cs = vec![];
    for c in 0..16 {
        if param(2) >> c & 1 == 1 {
            cs.push(c);
        }
    }
    let c = cs[choose(cs.len() as u64) as usize];
    let show = |x: X| St::E(X::Call("Ev", vec![x]));
    let mut b = vec![
        St::Let(200, Ty::A, true, Some(X::Lit(vec![X::Par(0), X::K(9)]))),
        St::Let(201, Ty::C, true, Some(X::MkC(true))),
        St::Let(202, Ty::S, true, Some(X::MkS(vec![X::K(3), X::Par(1)]))),
        St::Let(203, Ty::I, true, None),
    ];
    let mut ret = None;
    let all = [Ty::I, Ty::B, Ty::T, Ty::A, Ty::C, Ty::S];
    let e1 = St::E(g.leaf(Ty::I));
    let e2 = St::E(g.leaf(Ty::I));
    match c {
        0 => b.push(St::E(X::Call("F", vec![g.ex(Ty::I, d)]))),
        1 | 2 => {
            let t = all[choose(6) as usize];
            b.push(St::Let(1, t, c == 1, Some(g.ex(t, d))));
            b.push(if t == Ty::I { St::E(X::Call("F", vec![X::Var(1)])) } else if t == Ty::C { St::E(X::Meth(Box::new(X::Var(1)), vec![X::K(1)])) } else if t == Ty::T { St::E(X::Call("Pr", vec![X::Var(1)])) } else if t == Ty::B { St::If(X::Var(1), vec![e1], None) } else { show_each(t, 1) });
        }
        3 => {
            b.push(St::If(g.ex(Ty::B, d), vec![e1], Some(vec![e2])));
        }
        4 => {
            b.push(St::While(g.ex(Ty::B, d), vec![e1, St::Inc(X::Var(203), X::K(1)), St::Set(X::At(Box::new(X::Var(200)), Box::new(X::K(0))), X::Var(203))]));
        }
        5 => {
            b.push(St::Switch(g.ex(Ty::I, d), vec![(X::K(7), vec![e1, St::Break]), (X::Par(1), vec![e2, St::Break])], Some(vec![St::E(X::Call("F", vec![X::K(5)]))])));
        }
        6 => {
            let t = all[choose(3) as usize];
            ret = Some(t);
            b.push(St::Ret(Some(g.ex(t, d))));
        }
        7 => {
            b.push(St::Inc(X::Var(203), g.ex(Ty::I, d)));
            b.push(St::E(X::Call("F", vec![X::Var(203)])));
        }
        8 => {
            b.push(St::Set(X::At(Box::new(X::Var(200)), Box::new(X::K(1))), g.ex(Ty::I, d)));
            b.push(show_each(Ty::A, 200));
        }
        9 => {
            b.push(St::Set(X::Fld(Box::new(X::Var(202)), "a"), g.ex(Ty::I, d)));
            b.push(show_each(Ty::S, 202));
        }
        10 => {
            b.push(St::Set(X::Fld(Box::new(X::Var(201)), "f"), g.ex(Ty::I, d)));
            b.push(St::E(X::Call("F", vec![X::Fld(Box::new(X::Var(201)), "f")])));
        }
        11 => b.push(St::For(5, g.ex(Ty::A, d), vec![St::E(X::Call("F", vec![X::Var(5)])), e1])),
        12 => {
            b.push(St::Push(X::Var(200), g.ex(Ty::I, d)));
            b.push(show_each(Ty::A, 200));
        }
        13 => {
            let x = g.ex(Ty::I, d);
            b.push(St::While(X::Op("<", vec![X::Var(203), X::K(2)]), vec![St::Let(6, Ty::I, false, Some(x)), St::E(X::Call("F", vec![X::Var(6)])), St::Inc(X::Var(203), X::K(1))]));
        }
        14 => {
            let x = g.ex(Ty::I, d);
            b.push(St::Switch(X::Par(0), vec![(x, vec![e1, St::Break]), (X::K(3), vec![])], Some(vec![e2])));
        }
        _ => {
            b.push(St::Set(X::Var(203), g.ex(Ty::I, d)));
            b.push(St::E(X::Call("F", vec![X::Var(203)])));
        }
    }
    cover(if check(&b, ret, true, param(1) as usize, false) { 1 } else { 2 });
}

/// array literals inside larger expressions
pub fn h_sem_literals() {
    let lit = X::Lit(vec![X::Call("F", vec![X::K(1)])]);
    let size = X::Size(Box::new(lit));
    let b = X::Op("<", vec![X::K(3), size.clone()]);
    let p = X::Call("P", vec![]);
    let x = match choose(5) {
        0 => X::Cond(vec![p, size, X::K(4)]),
        1 => X::Cond(vec![X::Op("&&", vec![p, b]), X::K(1), X::K(4)]),
        2 => X::Cond(vec![X::Op("||", vec![p, b]), X::K(1), X::K(4)]),
        3 => X::Call("Gi", vec![X::Call("F", vec![X::K(2)]), size]),
        _ => X::Call("F", vec![size]),
    };
    cover(if check(&[St::Let(0, Ty::I, false, Some(x)), St::E(X::Call("F", vec![X::Var(0)]))], None, false, 3, true) { 1 } else { 2 });
}

fn show_each(t: Ty, v: u8) -> St {
    let x = X::Var(v);
    let f = |a: X, b: X| St::E(X::Call("Gi", vec![a, b]));
    match t {
        Ty::A => St::For(90, x, vec![St::E(X::Call("F", vec![X::Var(90)]))]),
        _ => f(X::Fld(Box::new(x.clone()), "a"), X::Fld(Box::new(x), "b")),
    }
}
