//! Reference interpreter for compiled code, written from the meaning of the instruction set.
use std::collections::BTreeMap;
use std::rc::Rc;

use redscript::bundle::{ConstantPool, PoolIndex};
use redscript::bytecode::*;
use redscript::definition::*;

use crate::world::base;

#[derive(Clone, Debug)]
pub enum V {
    U,
    I(i64),
    B(bool),
    S(Vec<Pc>),
    N(String),
    F(u64),
    E(u32),
    A(Vec<V>),
    St(Vec<(String, V)>),
    O(usize),
    Null,
    Var(Box<V>),
}

/// pieces of a text: literal or the rendering of a value
#[derive(Clone, Debug)]
pub enum Pc {
    L(String),
    V(V),
}

pub fn text(s: &str) -> V {
    V::S(if s.is_empty() { vec![] } else { vec![Pc::L(s.to_owned())] })
}
pub fn concat(a: Vec<Pc>, b: Vec<Pc>) -> Vec<Pc> {
    let mut r = a;
    for x in b {
        match (r.last_mut(), x) {
            (Some(Pc::L(l)), Pc::L(m)) => l.push_str(&m),
            (_, x) => r.push(x),
        }
    }
    r
}
impl V {
    pub fn i(&self) -> i64 {
        match self {
            V::I(x) => *x,
            V::E(x) => *x as i64,
            v => panic!("vm: integer expected, got {v:?}"),
        }
    }
    pub fn b(&self) -> bool {
        match self {
            V::B(x) => *x,
            v => panic!("vm: boolean expected, got {v:?}"),
        }
    }
    pub fn s(&self) -> Vec<Pc> {
        match self {
            V::S(x) => x.clone(),
            v => panic!("vm: text expected, got {v:?}"),
        }
    }
    pub fn a(&self) -> &Vec<V> {
        match self {
            V::A(x) => x,
            v => panic!("vm: array expected, got {v:?}"),
        }
    }
    pub fn shown(&self) -> V {
        match self {
            V::S(_) => self.clone(),
            v => V::S(vec![Pc::V(v.clone())]),
        }
    }
    /// identical values; the result may be symbolic
    pub fn same(&self, o: &V) -> bool {
        match (self, o) {
            (V::U, V::U) | (V::Null, V::Null) => true,
            (V::I(a), V::I(b)) => a == b,
            (V::B(a), V::B(b)) => a == b,
            (V::F(a), V::F(b)) => a == b,
            (V::E(a), V::E(b)) => a == b,
            (V::O(a), V::O(b)) => a == b,
            (V::N(a), V::N(b)) => a == b,
            (V::S(a), V::S(b)) => {
                a.len() == b.len()
                    && a.iter().zip(b).all(|p| match p {
                        (Pc::L(x), Pc::L(y)) => x == y,
                        (Pc::V(x), Pc::V(y)) => x.same(y),
                        _ => false,
                    })
            }
            (V::A(a), V::A(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.same(y)),
            (V::St(a), V::St(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.0 == y.0 && x.1.same(&y.1)),
            (V::Var(a), V::Var(b)) => a.same(b),
            _ => false,
        }
    }
}

/// an observable effect: a call of a native function
#[derive(Clone, Debug)]
pub struct Ev {
    pub f: String,
    pub a: Vec<V>,
}

/// what native functions return and what exists outside the program under test; shared by both interpreters
pub struct Host {
    pub ints: Vec<i32>,
    pub bools: Vec<bool>,
}

impl Host {
    pub fn int(&mut self, k: usize) -> V {
        while self.ints.len() <= k {
            self.ints.push(crate::sx::i32_());
        }
        V::I(self.ints[k] as i64)
    }
    pub fn bool_(&mut self, k: usize) -> V {
        while self.bools.len() <= k {
            self.bools.push(crate::sx::bool_());
        }
        V::B(self.bools[k])
    }
}

/// mutable state common to both interpreters
pub struct State<'h> {
    pub ev: Vec<Ev>,
    pub max_ev: usize,
    pub heap: Vec<(String, Vec<(String, V)>)>,
    pub host: &'h mut Host,
    pub ni: usize,
    pub nb: usize,
}

#[derive(Debug)]
pub enum Stop {
    Fuel,
}

impl<'h> State<'h> {
    pub fn new(host: &'h mut Host, max_ev: usize) -> Self {
        State { ev: vec![], max_ev, heap: vec![], host, ni: 0, nb: 0 }
    }
    /// a call of a function the program under test does not define; `a` already evaluated
    pub fn native(&mut self, f: &str, a: Vec<V>) -> Result<V, Stop> {
        let w = |x: i64| V::I(x as i32 as i64);
        Ok(match (f, a.len()) {
            ("OperatorAdd", 2) => match &a[0] {
                V::I(_) => w(a[0].i().wrapping_add(a[1].i())),
                _ => V::S(concat(a[0].s(), a[1].s())),
            },
            ("OperatorSubtract", 2) => w(a[0].i().wrapping_sub(a[1].i())),
            ("OperatorMultiply", 2) => w(a[0].i().wrapping_mul(a[1].i())),
            ("OperatorLess", 2) => V::B(a[0].i() < a[1].i()),
            ("OperatorGreater", 2) => V::B(a[0].i() > a[1].i()),
            ("OperatorEqual", 2) => V::B(a[0].i() == a[1].i()),
            ("OperatorLogicNot", 1) => V::B(!a[0].b()),
            ("OperatorNeg", 1) => w(a[0].i().wrapping_neg()),
            _ => {
                if self.ev.len() >= self.max_ev {
                    return Err(Stop::Fuel);
                }
                self.ev.push(Ev { f: f.to_owned(), a });
                match f {
                    "P" => {
                        self.nb += 1;
                        self.host.bool_(self.nb - 1)
                    }
                    "F" | "H" | "Gi" => {
                        self.ni += 1;
                        self.host.int(self.ni - 1)
                    }
                    _ => V::U,
                }
            }
        })
    }
    pub fn alloc(&mut self, class: &str, fields: Vec<(String, V)>) -> V {
        self.heap.push((class.to_owned(), fields));
        V::O(self.heap.len() - 1)
    }
}

pub fn default_of(p: &ConstantPool, t: PoolIndex<Type>) -> V {
    let n = p.def_name(t).unwrap();
    match p.type_(t).unwrap() {
        Type::Prim => match n.as_ref() {
            "Bool" => V::B(false),
            "String" => V::S(vec![]),
            "CName" | "TweakDBID" | "ResRef" => V::N("".into()),
            "Float" | "Double" => V::F(0),
            "Variant" => V::Null,
            _ => V::I(0),
        },
        Type::Ref(_) | Type::WeakRef(_) | Type::ScriptRef(_) => V::Null,
        Type::Array(_) => V::A(vec![]),
        Type::StaticArray(..) => V::A(vec![]),
        Type::Class => {
            for (i, d) in p.definitions() {
                match &d.value {
                    AnyDefinition::Class(c) if p.names.get(d.name).unwrap() == n => return V::St(fields_of(p, i.cast())),
                    AnyDefinition::Enum(_) if p.names.get(d.name).unwrap() == n => return V::E(0),
                    _ => {}
                }
            }
            panic!("vm: unknown type {n}")
        }
    }
}

/// fields of a class with default values, bases first
pub fn fields_of(p: &ConstantPool, c: PoolIndex<Class>) -> Vec<(String, V)> {
    let mut r = vec![];
    let k = p.class(c).unwrap();
    if !k.base.is_undefined() {
        r = fields_of(p, k.base);
    }
    for f in &k.fields {
        r.push((p.def_name(*f).unwrap().as_ref().to_owned(), default_of(p, p.field(*f).unwrap().type_)));
    }
    r
}

#[derive(Clone, Debug)]
enum Pl {
    Var(bool, u32),
    Elem(Box<Pl>, i64),
    Fld(Box<Pl>, String),
    Obj(usize, String),
}

pub struct Vm<'a, 'h> {
    pub p: &'a ConstantPool,
    pub st: State<'h>,
    pub fuel: usize,
    pub depth: usize,
}

struct Fr {
    code: Rc<Vec<(u32, Instr<Offset>)>>,
    vars: BTreeMap<(bool, u32), V>,
    this: V,
    at: usize,
    ret: Option<V>,
}

impl Fr {
    fn jump(&mut self, from: usize, o: Offset) {
        let t = self.code[from].0 as i64 + o.value as i64;
        match self.code.binary_search_by(|c| (c.0 as i64).cmp(&t)) {
            Ok(i) => self.at = i,
            Err(_) => panic!("vm: jump to {t}, which is not the start of an instruction"),
        }
    }
    fn loc(&self) -> i64 {
        self.code[self.at].0 as i64
    }
}

enum Next {
    Go,
    Ret(V),
}

impl<'a, 'h> Vm<'a, 'h> {
    pub fn new(p: &'a ConstantPool, st: State<'h>, fuel: usize) -> Self {
        Vm { p, st, fuel, depth: 0 }
    }
    pub fn call(&mut self, f: PoolIndex<Function>, this: V, args: Vec<V>) -> Result<V, Stop> {
        let fun = self.p.function(f).unwrap();
        let name = base(self.p, self.p.definition(f).unwrap().name);
        if fun.code.is_empty() {
            let mut a = args;
            if !matches!(this, V::U) {
                a.insert(0, this);
            }
            return self.st.native(&name, a);
        }
        self.depth += 1;
        if self.depth > 24 {
            return Err(Stop::Fuel);
        }
        let mut code = vec![];
        for (l, i) in fun.code.iter() {
            code.push((l.value as u32, i));
        }
        let mut fr = Fr { code: Rc::new(code), vars: BTreeMap::new(), this, at: 0, ret: None };
        assert!(args.len() <= fun.parameters.len(), "vm: too many arguments");
        for (i, q) in fun.parameters.iter().enumerate() {
            let v = match args.get(i) {
                Some(V::U) | None => default_of(self.p, self.p.parameter(*q).unwrap().type_),
                Some(v) => v.clone(),
            };
            fr.vars.insert((true, u32::from(*q)), v);
        }
        for l in &fun.locals {
            assert!(u32::from(self.p.definition(*l).unwrap().parent) == u32::from(f), "vm: local of another function");
            fr.vars.insert((false, u32::from(*l)), default_of(self.p, self.p.local(*l).unwrap().type_));
        }
        let mut sw: Vec<V> = vec![];
        let r = loop {
            if fr.at >= fr.code.len() {
                break V::U;
            }
            if self.fuel == 0 {
                return Err(Stop::Fuel);
            }
            self.fuel -= 1;
            match self.stmt(&mut fr, &mut sw)? {
                Next::Go => {}
                Next::Ret(v) => break v,
            }
        };
        self.depth -= 1;
        Ok(r)
    }
    fn stmt(&mut self, fr: &mut Fr, sw: &mut Vec<V>) -> Result<Next, Stop> {
        let at = fr.at;
        let code = fr.code.clone();
        match &code[at].1 {
            Instr::Nop => fr.at += 1,
            Instr::Assign => {
                fr.at += 1;
                let p = self.place(fr)?;
                let v = self.eval(fr)?;
                self.put(fr, &p, v);
            }
            Instr::Return => {
                fr.at += 1;
                if matches!(code[fr.at].1, Instr::Nop) {
                    return Ok(Next::Ret(V::U));
                }
                let v = self.eval(fr)?;
                return Ok(Next::Ret(v));
            }
            Instr::Jump(o) => fr.jump(at, *o),
            Instr::JumpIfFalse(o) => {
                fr.at += 1;
                let v = self.eval(fr)?;
                if !v.b() {
                    fr.jump(at, *o);
                }
            }
            Instr::Switch(_, o) => {
                fr.at += 1;
                let v = self.eval(fr)?;
                fr.jump(at, *o);
                // cases are tried in order; the first equal one is entered
                let mut here = fr.at;
                loop {
                    match &code[here].1 {
                        Instr::SwitchLabel(next, body) => {
                            fr.at = here + 1;
                            let m = self.eval(fr)?;
                            if v.same(&m) {
                                fr.jump(here, *body);
                                break;
                            }
                            fr.jump(here, *next);
                            here = fr.at;
                        }
                        _ => {
                            fr.at = here;
                            break;
                        }
                    }
                }
            }
            Instr::SwitchLabel(_, body) => fr.jump(at, *body),
            Instr::SwitchDefault => fr.at += 1,
            _ => {
                self.eval(fr)?;
            }
        }
        Ok(Next::Go)
    }
    fn get(&self, fr: &Fr, p: &Pl) -> V {
        match p {
            Pl::Var(k, i) => fr.vars.get(&(*k, *i)).unwrap_or_else(|| panic!("vm: unknown variable {p:?}")).clone(),
            Pl::Elem(q, i) => match self.get(fr, q) {
                V::A(v) => v.get(*i as usize).cloned().unwrap_or(V::I(0)),
                v => panic!("vm: indexing {v:?}"),
            },
            Pl::Fld(q, n) => match self.get(fr, q) {
                V::St(v) => v.iter().find(|f| &f.0 == n).expect("vm: no such field").1.clone(),
                v => panic!("vm: field of {v:?}"),
            },
            Pl::Obj(o, n) => self.st.heap[*o].1.iter().find(|f| &f.0 == n).expect("vm: no such field").1.clone(),
        }
    }
    fn put(&mut self, fr: &mut Fr, p: &Pl, v: V) {
        *self.slot(fr, p).expect("vm: store outside an array") = v;
    }
    fn slot<'x>(&'x mut self, fr: &'x mut Fr, p: &Pl) -> Option<&'x mut V> {
        match p {
            Pl::Var(k, i) => Some(fr.vars.get_mut(&(*k, *i)).unwrap_or_else(|| panic!("vm: unknown variable {p:?}"))),
            Pl::Elem(q, i) => match self.slot(fr, q)? {
                V::A(v) => v.get_mut(*i as usize),
                v => panic!("vm: indexing {v:?}"),
            },
            Pl::Fld(q, n) => match self.slot(fr, q)? {
                V::St(v) => Some(&mut v.iter_mut().find(|f| &f.0 == n).expect("vm: no such field").1),
                v => panic!("vm: field of {v:?}"),
            },
            Pl::Obj(o, n) => Some(&mut self.st.heap[*o].1.iter_mut().find(|f| &f.0 == n).expect("vm: no such field").1),
        }
    }
    fn place(&mut self, fr: &mut Fr) -> Result<Pl, Stop> {
        let at = fr.at;
        let code = fr.code.clone();
        fr.at += 1;
        Ok(match &code[at].1 {
            Instr::Local(i) => Pl::Var(false, u32::from(*i)),
            Instr::Param(i) => Pl::Var(true, u32::from(*i)),
            Instr::ArrayElement(_) => {
                let p = self.place(fr)?;
                let i = self.eval(fr)?.i();
                Pl::Elem(Box::new(p), i)
            }
            Instr::StructField(f) => {
                let p = self.place(fr)?;
                Pl::Fld(Box::new(p), self.p.def_name(*f).unwrap().as_ref().to_owned())
            }
            Instr::ObjectField(f) => {
                let n = self.p.def_name(*f).unwrap().as_ref().to_owned();
                match fr.this {
                    V::O(o) => Pl::Obj(o, n),
                    ref v => panic!("vm: field of {v:?}"),
                }
            }
            Instr::Context(o) => {
                let t = self.eval(fr)?;
                let old = std::mem::replace(&mut fr.this, t);
                let r = self.place(fr)?;
                fr.this = old;
                assert!(fr.loc() == code[at].0 as i64 + o.value as i64, "vm: context does not end where it says");
                r
            }
            Instr::AsRef(_) | Instr::Deref(_) => self.place(fr)?,
            i => panic!("vm: not a place: {i:?}"),
        })
    }
    fn eval(&mut self, fr: &mut Fr) -> Result<V, Stop> {
        let at = fr.at;
        let code = fr.code.clone();
        assert!(at < code.len(), "vm: code ends inside an expression");
        fr.at += 1;
        Ok(match &code[at].1 {
            Instr::Null | Instr::WeakRefNull => V::Null,
            Instr::I32One => V::I(1),
            Instr::I32Zero => V::I(0),
            Instr::I8Const(x) => V::I(*x as i64),
            Instr::I16Const(x) => V::I(*x as i64),
            Instr::I32Const(x) => V::I(*x as i64),
            Instr::I64Const(x) => V::I(*x),
            Instr::U8Const(x) => V::I(*x as i64),
            Instr::U16Const(x) => V::I(*x as i64),
            Instr::U32Const(x) => V::I(*x as i64),
            Instr::U64Const(x) => V::I(*x as i64),
            Instr::F32Const(x) => V::F(x.to_bits() as u64),
            Instr::F64Const(x) => V::F(x.to_bits()),
            Instr::NameConst(i) => V::N(self.p.names.get(*i).unwrap().as_ref().to_owned()),
            Instr::TweakDbIdConst(i) => V::N(self.p.tweakdb_ids.get(*i).unwrap().as_ref().to_owned()),
            Instr::ResourceConst(i) => V::N(self.p.resources.get(*i).unwrap().as_ref().to_owned()),
            Instr::StringConst(i) => text(&self.p.strings.get(*i).unwrap()),
            Instr::EnumConst(_, m) => V::E(self.p.enum_value(*m).unwrap() as u32),
            Instr::TrueConst => V::B(true),
            Instr::FalseConst => V::B(false),
            Instr::This => fr.this.clone(),
            Instr::Skip(o) => {
                let v = self.eval(fr)?;
                assert!(fr.loc() == code[at].0 as i64 + o.value as i64, "vm: skip does not end where it says");
                v
            }
            Instr::Conditional(f, e) => {
                let c = self.eval(fr)?.b();
                let (base, v);
                if c {
                    v = self.eval(fr)?;
                    base = code[at].0 as i64;
                    assert!(fr.loc() == base + f.value as i64, "vm: first alternative does not end where it says");
                    fr.jump(at, *e);
                } else {
                    fr.jump(at, *f);
                    v = self.eval(fr)?;
                    base = code[at].0 as i64;
                    assert!(fr.loc() == base + e.value as i64, "vm: second alternative does not end where it says");
                }
                v
            }
            Instr::Construct(n, c) => {
                let mut f = fields_of(self.p, *c);
                assert!(*n == 0 || *n as usize == f.len(), "vm: wrong number of fields");
                for k in 0..*n as usize {
                    f[k].1 = self.eval(fr)?;
                }
                V::St(f)
            }
            Instr::New(c) => {
                let f = fields_of(self.p, *c);
                let n = self.p.def_name(*c).unwrap();
                self.st.alloc(&n, f)
            }
            Instr::InvokeStatic(o, _, f, flags) => {
                let v = self.invoke(fr, *f, V::U, *flags)?;
                assert!(fr.loc() == code[at].0 as i64 + o.value as i64, "vm: call does not end where it says");
                v
            }
            Instr::InvokeVirtual(o, _, n, flags) => {
                let name = self.p.names.get(*n).unwrap();
                let f = match &fr.this {
                    V::O(k) => self.lookup(&self.st.heap[*k].0.clone(), &name),
                    v => panic!("vm: virtual call on {v:?}"),
                };
                let v = self.invoke(fr, f, V::U, *flags)?;
                assert!(fr.loc() == code[at].0 as i64 + o.value as i64, "vm: call does not end where it says");
                v
            }
            Instr::Context(o) => {
                let t = self.eval(fr)?;
                if matches!(t, V::Null) {
                    fr.jump(at, *o);
                    return Ok(V::U);
                }
                let old = std::mem::replace(&mut fr.this, t);
                let v = self.eval(fr)?;
                fr.this = old;
                assert!(fr.loc() == code[at].0 as i64 + o.value as i64, "vm: context does not end where it says");
                v
            }
            Instr::Equals(_) => V::B(self.eval(fr)?.same(&self.eval(fr)?)),
            Instr::NotEquals(_) => V::B(!self.eval(fr)?.same(&self.eval(fr)?)),
            Instr::ArrayClear(_) => {
                let p = self.place(fr)?;
                self.put(fr, &p, V::A(vec![]));
                V::U
            }
            Instr::ArraySize(_) => V::I(self.eval(fr)?.a().len() as i64),
            Instr::ArrayResize(t) => {
                let p = self.place(fr)?;
                let n = self.eval(fr)?.i();
                let e = match self.p.type_(*t).unwrap() {
                    Type::Array(e) => default_of(self.p, *e),
                    _ => panic!("vm: not an array type"),
                };
                if let V::A(v) = self.slot(fr, &p).unwrap() {
                    v.resize(n as usize, e);
                }
                V::U
            }
            Instr::ArrayContains(_) => {
                let a = self.eval(fr)?;
                let x = self.eval(fr)?;
                V::B(a.a().iter().any(|y| y.same(&x)))
            }
            Instr::ArrayPush(_) => {
                let p = self.place(fr)?;
                let x = self.eval(fr)?;
                if let V::A(v) = self.slot(fr, &p).unwrap() {
                    v.push(x);
                }
                V::U
            }
            Instr::RefToBool | Instr::WeakRefToBool => V::B(!matches!(self.eval(fr)?, V::Null)),
            Instr::RefToWeakRef | Instr::WeakRefToRef | Instr::AsRef(_) | Instr::Deref(_) => self.eval(fr)?,
            Instr::ToVariant(_) => V::Var(Box::new(self.eval(fr)?)),
            Instr::FromVariant(_) => match self.eval(fr)? {
                V::Var(x) => *x,
                v => panic!("vm: variant expected, got {v:?}"),
            },
            Instr::VariantIsDefined => V::B(!matches!(self.eval(fr)?, V::Null)),
            Instr::ToString(_) | Instr::VariantToString => self.eval(fr)?.shown(),
            Instr::EnumToI32(_, _) => V::I(self.eval(fr)?.i()),
            Instr::I32ToEnum(_, _) => V::E(self.eval(fr)?.i() as u32),
            Instr::DynamicCast(c, _) => {
                let v = self.eval(fr)?;
                match v {
                    V::O(k) if self.derives(&self.st.heap[k].0.clone(), *c) => v,
                    V::O(_) | V::Null => V::Null,
                    v => panic!("vm: casting {v:?}"),
                }
            }
            _ => {
                fr.at = at;
                let p = self.place(fr)?;
                self.get(fr, &p)
            }
        })
    }
    fn class_named(&self, n: &str) -> PoolIndex<Class> {
        for (i, d) in self.p.definitions() {
            if let AnyDefinition::Class(_) = d.value {
                if self.p.names.get(d.name).unwrap().as_ref() == n {
                    return i.cast();
                }
            }
        }
        panic!("vm: no class {n}")
    }
    fn derives(&self, n: &str, c: PoolIndex<Class>) -> bool {
        let mut k = self.class_named(n);
        loop {
            if k == c {
                return true;
            }
            if k.is_undefined() {
                return false;
            }
            k = self.p.class(k).unwrap().base;
        }
    }
    fn lookup(&self, class: &str, name: &str) -> PoolIndex<Function> {
        let mut k = self.class_named(class);
        while !k.is_undefined() {
            let c = self.p.class(k).unwrap();
            for f in &c.functions {
                if self.p.def_name(*f).unwrap().as_ref() == name {
                    return *f;
                }
            }
            k = c.base;
        }
        panic!("vm: no method {name} in {class}")
    }
    fn invoke(&mut self, fr: &mut Fr, f: PoolIndex<Function>, _: V, _flags: u16) -> Result<V, Stop> {
        let fun = self.p.function(f).unwrap();
        let name = base(self.p, self.p.definition(f).unwrap().name);
        let this = if fun.flags.is_static() { V::U } else { fr.this.clone() };
        let np = fun.parameters.len();
        // short circuit operators evaluate their second operand on demand
        if np == 2 && (name == "OperatorLogicAnd" || name == "OperatorLogicOr") {
            let a = self.eval(fr)?.b();
            let skip = match &fr.code[fr.at].1 {
                Instr::Skip(o) => *o,
                i => panic!("vm: operand of {name} is not skippable: {i:?}"),
            };
            let v = if a == (name == "OperatorLogicAnd") {
                self.eval(fr)?.b()
            } else {
                let at = fr.at;
                fr.jump(at, skip);
                a
            };
            assert!(matches!(fr.code[fr.at].1, Instr::ParamEnd), "vm: too many arguments");
            fr.at += 1;
            return Ok(V::B(v));
        }
        if np == 2 && name == "OperatorAssignAdd" {
            let p = self.place(fr)?;
            let x = self.eval(fr)?;
            assert!(matches!(fr.code[fr.at].1, Instr::ParamEnd), "vm: too many arguments");
            fr.at += 1;
            let v = V::I((self.get(fr, &p).i().wrapping_add(x.i())) as i32 as i64);
            self.put(fr, &p, v.clone());
            return Ok(v);
        }
        let mut args = vec![];
        for k in 0..np {
            if matches!(fr.code[fr.at].1, Instr::Nop) {
                assert!(self.p.parameter(fun.parameters[k]).unwrap().flags.is_optional(), "vm: missing argument");
                fr.at += 1;
                args.push(V::U);
            } else {
                args.push(self.eval(fr)?);
            }
        }
        assert!(matches!(fr.code[fr.at].1, Instr::ParamEnd), "vm: too many arguments");
        fr.at += 1;
        self.call(f, this, args)
    }
}
