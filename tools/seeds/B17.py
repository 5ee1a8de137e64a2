ID='B17'; PROP='P17'
EDITS=[('decompiler/src/print.rs', '            if field.flags.is_native() {\n                write!(out, "native ")?;\n            }\n            if field.flags.is_persistent() {', '            if field.flags.is_native() {\n                write!(out, "native ")?;\n            } else if field.flags.is_persistent() {')]
NEEDS='a field that is both native and persistent'
BREAKS='the persistent modifier is lost'
DEMO='use redscript::bundle::*; use redscript::definition::*; use redscript::bytecode::*;\n#[allow(unused)] fn i<A>(n: u32) -> PoolIndex<A> { PoolIndex::new(n) }\n#[allow(unused)] fn fun(code: Vec<Instr<Offset>>) -> Function { Function { visibility: Visibility::Public, flags: FunctionFlags::new().with_has_body(true).with_is_static(true), source: Some(SourceReference { file: i(0), line: 1 }), return_type: None, unk1: false, base_method: None, parameters: vec![], locals: vec![], operator: None, cast: 0, code: Code::new(code), unk2: vec![] } }\n#[allow(unused)] fn bundle() -> ScriptBundle { let b = std::fs::read(std::env::var("REPO").unwrap() + "/resources/predef.redscripts").unwrap(); ScriptBundle::load(&mut std::io::Cursor::new(b)).unwrap() }\n#[allow(unused)] fn save(b: &ScriptBundle) -> Vec<u8> { let mut o = std::io::Cursor::new(vec![]); b.save(&mut o).unwrap(); o.into_inner() }\n#[allow(unused)] fn text(p: &ConstantPool, d: &Definition) -> String { let mut o = vec![]; redscript_decompiler::print::write_definition(&mut o, d, p, 0, redscript_decompiler::print::OutputMode::Code { verbose: false }).unwrap(); String::from_utf8(o).unwrap() }\nfn main() { let mut p = ConstantPool::default(); p.add_definition::<Definition>(Definition::DEFAULT); let n = p.names.add("A".into()); let t: PoolIndex<Type> = p.add_definition(Definition::type_(n, Type::Prim));\n let f = Field { visibility: Visibility::Public, type_: t, flags: FieldFlags::new().with_is_native(true).with_is_persistent(true), hint: None, attributes: vec![], defaults: vec![] };\n let t = text(&p, &Definition::field(n, i(0), f)); assert!(t.contains("native persistent let"), "{t}"); }'
