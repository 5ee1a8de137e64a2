//! Pools and compilation helpers.
use redscript::bundle::{CName, ConstantPool, PoolIndex};
use redscript::bytecode::*;
use redscript::definition::*;
use redscript::Ref;
use redscript_compiler::diagnostics::Diagnostic;
use redscript_compiler::error::Error;
use redscript_compiler::parser;
use redscript_compiler::source_map::Files;
use redscript_compiler::unit::CompilationUnit;

pub const PRIMS: &[&str] = &["Void", "Bool", "Int8", "Int16", "Int32", "Int64", "Uint8", "Uint16", "Uint32", "Uint64", "Float", "Double", "String", "CName", "TweakDBID", "ResRef", "Variant"];

pub struct W {
    pub p: ConstantPool,
}

pub fn ix<A>(i: u32) -> PoolIndex<A> {
    PoolIndex::new(i)
}

pub fn function(flags: FunctionFlags, ret: Option<PoolIndex<Type>>) -> Function {
    Function {
        visibility: Visibility::Public,
        flags: flags.with_has_return_value(ret.is_some()),
        source: None,
        return_type: ret,
        unk1: false,
        base_method: None,
        parameters: vec![],
        locals: vec![],
        operator: None,
        cast: 0,
        code: Code::EMPTY,
        unk2: vec![],
    }
}

impl W {
    /// a pool holding only the primitive types
    pub fn new() -> W {
        let mut w = W { p: ConstantPool::default() };
        w.p.names.add("None".into());
        w.p.add_definition::<Definition>(Definition::DEFAULT);
        for n in PRIMS {
            let i = w.p.names.add((*n).into());
            w.p.add_definition::<Type>(Definition::type_(i, Type::Prim));
        }
        w
    }
    pub fn name(&mut self, s: &str) -> PoolIndex<CName> {
        self.p.names.add(Ref::from(s))
    }
    /// index of a type given by its representation in the pool
    pub fn ty(&mut self, s: &str) -> PoolIndex<Type> {
        for (i, d) in self.p.definitions() {
            if let AnyDefinition::Type(_) = d.value {
                if self.p.names.get(d.name).unwrap().as_ref() == s {
                    return i.cast();
                }
            }
        }
        let t = if let Some(r) = s.strip_prefix("ref:") {
            Type::Ref(self.ty(r))
        } else if let Some(r) = s.strip_prefix("wref:") {
            Type::WeakRef(self.ty(r))
        } else if let Some(r) = s.strip_prefix("array:") {
            Type::Array(self.ty(r))
        } else if let Some(r) = s.strip_prefix("script_ref:") {
            Type::ScriptRef(self.ty(r))
        } else {
            Type::Class
        };
        let n = self.name(s);
        self.p.add_definition(Definition::type_(n, t))
    }
    /// a native global function; parameters are written "type", "out type", "opt type", "sc type" (short circuit)
    pub fn native(&mut self, name: &str, params: &[&str], ret: &str) -> PoolIndex<Function> {
        let r = if ret.is_empty() { None } else { Some(self.ty(ret)) };
        let n = self.name(name);
        let f = self.p.add_definition(Definition::function(n, PoolIndex::UNDEFINED, function(FunctionFlags::new().with_is_static(true).with_is_native(true).with_is_final(true), r)));
        let mut ps = vec![];
        for (i, p) in params.iter().enumerate() {
            let (q, t) = p.split_once(' ').unwrap_or(("", p));
            let t = self.ty(t);
            let n = self.name(["x", "y", "z", "w"][i]);
            let flags = ParameterFlags::new().with_is_out(q == "out").with_is_optional(q == "opt").with_is_short_circuit(q == "sc");
            ps.push(self.p.add_definition(Definition::param(n, f.cast(), Parameter { type_: t, flags })));
        }
        self.p.function_mut(f).unwrap().parameters = ps;
        f
    }
}

pub fn compile(p: &mut ConstantPool, src: &[&str]) -> Result<Vec<Diagnostic>, Error> {
    let m = src.iter().map(|s| parser::parse_str(s).expect("source does not parse")).collect();
    let out = CompilationUnit::new_with_defaults(p)?.compile(m, &Files::default())?;
    Ok(out.into_diagnostics())
}

pub fn fatal(d: &[Diagnostic]) -> bool {
    d.iter().any(|d| d.is_fatal())
}

/// base name of a definition (signature removed)
pub fn base(p: &ConstantPool, n: PoolIndex<CName>) -> String {
    let s = p.names.get(n).unwrap();
    s.split(';').next().unwrap().to_owned()
}

pub fn find(p: &ConstantPool, name: &str) -> PoolIndex<Definition> {
    for (i, d) in p.definitions() {
        if !matches!(d.value, AnyDefinition::Type(_)) && base(p, d.name) == name {
            return i;
        }
    }
    panic!("harness: no definition {name}")
}
