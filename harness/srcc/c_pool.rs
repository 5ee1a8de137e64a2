//! The pool produced by a compilation is well formed.
use crate::sx::*;
use crate::world::*;
use redscript::bundle::{ConstantPool, PoolIndex, ScriptBundle};
use redscript::bytecode::*;
use redscript::definition::*;
use std::io;



pub fn well_formed(p: &ConstantPool) {
    let def = |i: u32| -> &Definition {
        match p.definition::<Definition>(ix(i)) {
            Ok(d) => d,
            Err(_) => panic!("a reference leads outside the pool"),
        }
    };
    let ty = |i: PoolIndex<Type>| assert!(matches!(def(u32::from(i)).value, AnyDefinition::Type(_)), "a type reference does not lead to a type");
    for (i, d) in p.definitions().skip(1) {
        let n = u32::from(i);
        assert!(p.names.get(d.name).is_ok(), "a definition has no name");
        match &d.value {
            AnyDefinition::Class(c) => {
                if !c.base.is_undefined() {
                    assert!(matches!(def(u32::from(c.base)).value, AnyDefinition::Class(_)), "the base of a class is not a class");
                    assert!(u32::from(c.base) < n, "a class is stored before its base");
                }
                for f in &c.functions {
                    let g = def(u32::from(*f));
                    assert!(matches!(g.value, AnyDefinition::Function(_)) && u32::from(g.parent) == n, "a method of a class is not its function");
                }
                for f in &c.fields {
                    let g = def(u32::from(*f));
                    assert!(matches!(g.value, AnyDefinition::Field(_)) && u32::from(g.parent) == n, "a field of a class is not its field");
                }
            }
            AnyDefinition::Function(f) => {
                assert!(f.flags.has_return_value() == f.return_type.is_some(), "the return flag and type differ");
                if let Some(t) = f.return_type {
                    ty(t);
                }
                if let Some(b) = f.base_method {
                    assert!(matches!(def(u32::from(b)).value, AnyDefinition::Function(_)), "a base method is not a function");
                }
                if !d.parent.is_undefined() {
                    match &def(u32::from(d.parent)).value {
                        AnyDefinition::Class(c) => assert!(c.functions.iter().filter(|x| u32::from(**x) == n).count() == 1, "a method is not listed once by its class"),
                        _ => panic!("the parent of a function is not a class"),
                    }
                }
                for q in &f.parameters {
                    let g = def(u32::from(*q));
                    // the parameters of a wrapped method keep the place where it was defined as their parent
                    assert!(matches!(def(u32::from(g.parent)).value, AnyDefinition::Function(_)), "the parent of a parameter is not a function");
                    match &g.value {
                        AnyDefinition::Parameter(q) => ty(q.type_),
                        _ => panic!("a parameter is not a parameter"),
                    }
                }
                for q in &f.locals {
                    let g = def(u32::from(*q));
                    assert!(u32::from(g.parent) == n, "the parent of a local is not its function");
                    match &g.value {
                        AnyDefinition::Local(q) => ty(q.type_),
                        _ => panic!("a local is not a local"),
                    }
                }
                code(p, n, f);
            }
            AnyDefinition::Field(f) => {
                ty(f.type_);
                match &def(u32::from(d.parent)).value {
                    AnyDefinition::Class(c) => assert!(c.fields.iter().filter(|x| u32::from(**x) == n).count() == 1, "a field is not listed once by its class"),
                    _ => panic!("the parent of a field is not a class"),
                }
            }
            AnyDefinition::Enum(e) => {
                for m in &e.members {
                    let g = def(u32::from(*m));
                    assert!(matches!(g.value, AnyDefinition::EnumValue(_)) && u32::from(g.parent) == n, "a member of an enum is not its member");
                }
            }
            AnyDefinition::Type(Type::Ref(t) | Type::WeakRef(t) | Type::Array(t) | Type::StaticArray(t, _) | Type::ScriptRef(t)) => ty(*t),
            _ => {}
        }
    }
}

fn code(p: &ConstantPool, n: u32, f: &Function) {
    let mut at = vec![];
    let mut o = 0i64;
    for (_, i) in f.code.iter() {
        at.push(o);
        o += i.size() as i64;
    }
    at.push(o);
    let kind = |i: u32| p.definition::<Definition>(ix(i)).ok().map(|d| &d.value);
    for (k, (_, i)) in f.code.iter().enumerate() {
        let base = at[k];
        let jump = |o: Offset, what: &str| {
            let t = o.absolute(Location::new(base as u16));
            assert!(at.contains(&(t.value as i64)), "{what} does not lead to an instruction");
        };
        let ty = |t: PoolIndex<Type>| assert!(matches!(kind(u32::from(t)), Some(AnyDefinition::Type(_))), "an instruction refers to something that is not a type");
        let fun = |t: PoolIndex<Function>| assert!(matches!(kind(u32::from(t)), Some(AnyDefinition::Function(_))), "a call does not lead to a function");
        let cls = |t: PoolIndex<Class>| assert!(matches!(kind(u32::from(t)), Some(AnyDefinition::Class(_))), "an instruction refers to something that is not a class");
        match i {
            Instr::Jump(o) | Instr::JumpIfFalse(o) | Instr::Skip(o) | Instr::Context(o) | Instr::SwitchLabel(o, _) => jump(o, "a jump"),
            Instr::Conditional(o, q) => {
                jump(o, "a conditional");
                jump(q, "a conditional");
            }
            Instr::InvokeStatic(o, _, g, _) => {
                jump(o, "the end of a call");
                fun(g);
            }
            Instr::InvokeVirtual(o, _, m, _) => {
                jump(o, "the end of a call");
                assert!(p.names.get(m).is_ok(), "a virtual call has no name");
            }
            Instr::Local(l) => assert!(f.locals.contains(&l), "an instruction uses a local of another function"),
            Instr::Param(q) => assert!(f.parameters.contains(&q), "an instruction uses a parameter of another function"),
            Instr::ObjectField(g) | Instr::StructField(g) => assert!(matches!(kind(u32::from(g)), Some(AnyDefinition::Field(_))), "an instruction refers to something that is not a field"),
            Instr::New(c) | Instr::Construct(_, c) => cls(c),
            Instr::DynamicCast(c, _) => cls(c),
            Instr::EnumConst(e, m) => {
                assert!(matches!(kind(u32::from(e)), Some(AnyDefinition::Enum(x)) if x.members.contains(&m)), "an enum constant is not a member of its enum");
            }
            Instr::Switch(t, o) => {
                ty(t);
                jump(o, "a switch");
            }
            Instr::Equals(t) | Instr::NotEquals(t) | Instr::RefStringEqualsString(t) | Instr::ArrayClear(t) | Instr::ArraySize(t) | Instr::ArrayResize(t) | Instr::ArrayFindFirst(t) | Instr::ArrayContains(t) | Instr::ArrayPush(t) | Instr::ArrayElement(t) | Instr::FromVariant(t) | Instr::ToVariant(t) | Instr::ToString(t) | Instr::Deref(t) | Instr::AsRef(t) => ty(t),
            Instr::EnumToI32(t, _) | Instr::I32ToEnum(t, _) => ty(t),
            _ => {}
        }
    }
    let _ = n;
}

/// the pool survives being saved and loaded, and saves to the same bytes again
pub fn saves(p: &mut ConstantPool) {
    let mut head = vec![0u8; 104];
    head[..4].copy_from_slice(b"REDS");
    head[4] = 14;
    let mut b = ScriptBundle::load(&mut io::Cursor::new(head)).unwrap();
    b.pool = std::mem::take(p);
    let save = |b: &ScriptBundle| {
        let mut o = io::Cursor::new(vec![]);
        b.save(&mut o).expect("a compiled pool cannot be saved");
        o.into_inner()
    };
    let file = save(&b);
    let c = match ScriptBundle::load(&mut io::Cursor::new(file.clone())) {
        Ok(c) => c,
        Err(e) => panic!("a compiled pool cannot be loaded again: {e}"),
    };
    let mut n = 0;
    for ((i, x), (j, y)) in b.pool.definitions().zip(c.pool.definitions()) {
        assert!(u32::from(i) == u32::from(j) && x.parent == y.parent && b.pool.names.get(x.name).unwrap() == c.pool.names.get(y.name).unwrap(), "a definition is saved under another name or parent");
        let same = match (&x.value, &y.value) {
            (AnyDefinition::Function(f), AnyDefinition::Function(g)) => {
                f.base_method == g.base_method && f.return_type == g.return_type && f.parameters == g.parameters && f.locals == g.locals && f.operator == g.operator && f.cast == g.cast
                    && (f.flags.is_native() || f.source.as_ref().map(|s| (s.file, s.line)) == g.source.as_ref().map(|s| (s.file, s.line)))
                    && f.visibility == g.visibility && (f.flags.is_native(), f.flags.is_static(), f.flags.is_final()) == (g.flags.is_native(), g.flags.is_static(), g.flags.is_final())
                    && f.code.iter().map(|c| c.1).eq(g.code.iter().map(|c| c.1))
            }
            (AnyDefinition::Class(f), AnyDefinition::Class(g)) => f.base == g.base && f.functions == g.functions && f.fields == g.fields && f.overrides == g.overrides && f.visibility == g.visibility && f.flags.with_has_functions(false).with_has_fields(false).with_has_overrides(false) == g.flags.with_has_functions(false).with_has_fields(false).with_has_overrides(false),
            (AnyDefinition::Field(f), AnyDefinition::Field(g)) => f.type_ == g.type_ && f.hint == g.hint && f.attributes == g.attributes && f.defaults == g.defaults,
            (AnyDefinition::Enum(f), AnyDefinition::Enum(g)) => f.members == g.members && f.size == g.size,
            (AnyDefinition::Type(_), AnyDefinition::Type(_)) | (AnyDefinition::EnumValue(_), AnyDefinition::EnumValue(_)) | (AnyDefinition::Parameter(_), AnyDefinition::Parameter(_)) | (AnyDefinition::Local(_), AnyDefinition::Local(_)) | (AnyDefinition::SourceFile(_), AnyDefinition::SourceFile(_)) => true,
            _ => false,
        };
        if !symbolic() && !same {
            eprintln!("{} {x:?} {y:?}", b.pool.names.get(x.name).unwrap());
        }
        assert!(same, "a definition is saved with other contents");
        n += 1;
    }
    assert!(n == b.pool.definitions().count() && n == c.pool.definitions().count(), "a definition is lost by saving");
    assert!(save(&c) == file, "saving a loaded pool gives another file");
    *p = b.pool;
}
