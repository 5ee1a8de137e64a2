ID='B11'; PROP='P11'
EDITS=[('core/src/definition.rs', '                .min(),', '                .next(),')]
NEEDS='a class whose functions are not stored in source order'
BREAKS='the first line of the class is that of its first listed function'
DEMO='use redscript::bundle::*; use redscript::definition::*; use redscript::bytecode::*;\n#[allow(unused)] fn i<A>(n: u32) -> PoolIndex<A> { PoolIndex::new(n) }\n#[allow(unused)] fn fun(code: Vec<Instr<Offset>>) -> Function { Function { visibility: Visibility::Public, flags: FunctionFlags::new().with_has_body(true).with_is_static(true), source: Some(SourceReference { file: i(0), line: 1 }), return_type: None, unk1: false, base_method: None, parameters: vec![], locals: vec![], operator: None, cast: 0, code: Code::new(code), unk2: vec![] } }\n#[allow(unused)] fn bundle() -> ScriptBundle { let b = std::fs::read(std::env::var("REPO").unwrap() + "/resources/predef.redscripts").unwrap(); ScriptBundle::load(&mut std::io::Cursor::new(b)).unwrap() }\n#[allow(unused)] fn save(b: &ScriptBundle) -> Vec<u8> { let mut o = std::io::Cursor::new(vec![]); b.save(&mut o).unwrap(); o.into_inner() }\n#[allow(unused)] fn text(p: &ConstantPool, d: &Definition) -> String { let mut o = vec![]; redscript_decompiler::print::write_definition(&mut o, d, p, 0, redscript_decompiler::print::OutputMode::Code { verbose: false }).unwrap(); String::from_utf8(o).unwrap() }\nfn main() { let mut p = ConstantPool::default(); p.add_definition::<Definition>(Definition::DEFAULT); let n = p.names.add("A".into()); let mut f = fun(vec![]); f.source = Some(SourceReference { file: i(0), line: 9 }); let a = p.add_definition(Definition::function(n, i(0), f.clone())); f.source = Some(SourceReference { file: i(0), line: 4 }); let b = p.add_definition(Definition::function(n, i(0), f)); let c = Class { visibility: Visibility::Public, flags: ClassFlags::new(), base: i(0), functions: vec![a, b], fields: vec![], overrides: vec![] }; assert_eq!(Definition::class(n, c).first_line(&p), Some(4)); }'
