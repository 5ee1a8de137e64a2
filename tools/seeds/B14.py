ID='B14'; PROP='P14'
EDITS=[('decompiler/src/lib.rs', 'if self.definition.name == def.name && self.definition.parent != def.parent {', 'if self.definition.parent != def.parent {')]
NEEDS='a method that calls a different, non-virtual method declared by its base class'
BREAKS='the call on this is shown as a call on super'
DEMO='use redscript::bundle::*; use redscript::definition::*; use redscript::bytecode::*;\n#[allow(unused)] fn i<A>(n: u32) -> PoolIndex<A> { PoolIndex::new(n) }\n#[allow(unused)] fn fun(code: Vec<Instr<Offset>>) -> Function { Function { visibility: Visibility::Public, flags: FunctionFlags::new().with_has_body(true).with_is_static(true), source: Some(SourceReference { file: i(0), line: 1 }), return_type: None, unk1: false, base_method: None, parameters: vec![], locals: vec![], operator: None, cast: 0, code: Code::new(code), unk2: vec![] } }\n#[allow(unused)] fn bundle() -> ScriptBundle { let b = std::fs::read(std::env::var("REPO").unwrap() + "/resources/predef.redscripts").unwrap(); ScriptBundle::load(&mut std::io::Cursor::new(b)).unwrap() }\n#[allow(unused)] fn save(b: &ScriptBundle) -> Vec<u8> { let mut o = std::io::Cursor::new(vec![]); b.save(&mut o).unwrap(); o.into_inner() }\n#[allow(unused)] fn text(p: &ConstantPool, d: &Definition) -> String { let mut o = vec![]; redscript_decompiler::print::write_definition(&mut o, d, p, 0, redscript_decompiler::print::OutputMode::Code { verbose: false }).unwrap(); String::from_utf8(o).unwrap() }\nfn main() { let mut p = ConstantPool::default(); p.add_definition::<Definition>(Definition::DEFAULT); let n = p.names.add("A".into()); let m = p.names.add("B".into());\n let mut c = |n| p.add_definition::<Class>(Definition::class(n, Class { visibility: Visibility::Public, flags: ClassFlags::new(), base: i(0), functions: vec![], fields: vec![], overrides: vec![] })); let (a, b) = (c(n), c(m));\n let mut g = fun(vec![]); g.flags = FunctionFlags::new(); let n2 = p.names.add("Fin;".into()); let k: PoolIndex<Function> = p.add_definition(Definition::function(n2, a, g));\n let mut f = fun(vec![Instr::InvokeStatic(Offset::new(0), 1, k, 0), Instr::ParamEnd, Instr::Nop]); f.flags = FunctionFlags::new().with_has_body(true); let n3 = p.names.add("Other;".into());\n let d = Definition::function(n3, b, f); let t = text(&p, &d); assert!(t.contains("this.Fin()"), "{t}");\n let mut f = fun(vec![Instr::InvokeStatic(Offset::new(0), 1, k, 0), Instr::ParamEnd, Instr::Nop]); f.flags = FunctionFlags::new().with_has_body(true); let d = Definition::function(n2, b, f); let t = text(&p, &d); assert!(t.contains("super.Fin()"), "{t}"); }'
