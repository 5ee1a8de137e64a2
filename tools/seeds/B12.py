ID='B12'; PROP='P12'
EDITS=[('core/src/mapper.rs', '                AnyDefinition::Function(fun) => {\n                    def.parent = self.map_class.apply(def.parent.cast()).cast();\n                    for instr', '                AnyDefinition::Function(fun) => {\n                    if !fun.code.is_empty() {\n                        def.parent = self.map_class.apply(def.parent.cast()).cast();\n                    }\n                    for instr')]
NEEDS='a native or empty method of a re-indexed class'
BREAKS='the parent of methods without code keeps the old index'
DEMO='use redscript::bundle::*; use redscript::definition::*; use redscript::bytecode::*;\n#[allow(unused)] fn i<A>(n: u32) -> PoolIndex<A> { PoolIndex::new(n) }\n#[allow(unused)] fn fun(code: Vec<Instr<Offset>>) -> Function { Function { visibility: Visibility::Public, flags: FunctionFlags::new().with_has_body(true).with_is_static(true), source: Some(SourceReference { file: i(0), line: 1 }), return_type: None, unk1: false, base_method: None, parameters: vec![], locals: vec![], operator: None, cast: 0, code: Code::new(code), unk2: vec![] } }\n#[allow(unused)] fn bundle() -> ScriptBundle { let b = std::fs::read(std::env::var("REPO").unwrap() + "/resources/predef.redscripts").unwrap(); ScriptBundle::load(&mut std::io::Cursor::new(b)).unwrap() }\n#[allow(unused)] fn save(b: &ScriptBundle) -> Vec<u8> { let mut o = std::io::Cursor::new(vec![]); b.save(&mut o).unwrap(); o.into_inner() }\n#[allow(unused)] fn text(p: &ConstantPool, d: &Definition) -> String { let mut o = vec![]; redscript_decompiler::print::write_definition(&mut o, d, p, 0, redscript_decompiler::print::OutputMode::Code { verbose: false }).unwrap(); String::from_utf8(o).unwrap() }\nuse redscript::mapper::*;\nfn main() { let mut p = ConstantPool::default(); p.add_definition::<Definition>(Definition::DEFAULT); let n = p.names.add("A".into()); let f = p.add_definition::<Function>(Definition::function(n, i(5), fun(vec![]))); let m = PoolMapper::default().with_class_mapper(MultiMapper::new([(i(5), i(6))].into_iter().collect())); m.map(&mut p); assert_eq!(p.definition(f).unwrap().parent, i(6)); }'
