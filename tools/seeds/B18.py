ID='B18'; PROP='P18'
EDITS=[('decompiler/src/lib.rs', '                                .ok_or(Error::DecompileError("Cast without return type"))?;', '                                .expect("Cast without return type");')]
NEEDS='a call to a global cast function that has no return type'
BREAKS='decompiling such a body panics instead of reporting an error'
DEMO='use redscript::bundle::*; use redscript::definition::*; use redscript::bytecode::*;\n#[allow(unused)] fn i<A>(n: u32) -> PoolIndex<A> { PoolIndex::new(n) }\n#[allow(unused)] fn fun(code: Vec<Instr<Offset>>) -> Function { Function { visibility: Visibility::Public, flags: FunctionFlags::new().with_has_body(true).with_is_static(true), source: Some(SourceReference { file: i(0), line: 1 }), return_type: None, unk1: false, base_method: None, parameters: vec![], locals: vec![], operator: None, cast: 0, code: Code::new(code), unk2: vec![] } }\n#[allow(unused)] fn bundle() -> ScriptBundle { let b = std::fs::read(std::env::var("REPO").unwrap() + "/resources/predef.redscripts").unwrap(); ScriptBundle::load(&mut std::io::Cursor::new(b)).unwrap() }\n#[allow(unused)] fn save(b: &ScriptBundle) -> Vec<u8> { let mut o = std::io::Cursor::new(vec![]); b.save(&mut o).unwrap(); o.into_inner() }\n#[allow(unused)] fn text(p: &ConstantPool, d: &Definition) -> String { let mut o = vec![]; redscript_decompiler::print::write_definition(&mut o, d, p, 0, redscript_decompiler::print::OutputMode::Code { verbose: false }).unwrap(); String::from_utf8(o).unwrap() }\nfn main() { let mut p = ConstantPool::default(); p.add_definition::<Definition>(Definition::DEFAULT); p.names.add("x".into()); let n = p.names.add("Cast;Int32;Bool".into()); let k: PoolIndex<Function> = p.add_definition(Definition::function(n, i(0), fun(vec![])));\n let f = fun(vec![Instr::InvokeStatic(Offset::new(0), 1, k, 0), Instr::TrueConst, Instr::ParamEnd, Instr::Nop]); let d = Definition::function(n, i(0), f); let mut o = vec![];\n let _ = (redscript_decompiler::print::write_definition(&mut o, &d, &p, 0, redscript_decompiler::print::OutputMode::Code { verbose: false })); }'
