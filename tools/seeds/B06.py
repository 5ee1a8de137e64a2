ID='B06'; PROP='P06'
EDITS=[('core/src/definition.rs', '            .with_has_base_method(self.base_method.is_some())\n', '')]
NEEDS='a function whose base method was set or cleared without touching the flag'
BREAKS='the stored flag disagrees with the stored parts, so the body is read back shifted'
DEMO='use redscript::bundle::*; use redscript::definition::*; use redscript::bytecode::*;\n#[allow(unused)] fn i<A>(n: u32) -> PoolIndex<A> { PoolIndex::new(n) }\n#[allow(unused)] fn fun(code: Vec<Instr<Offset>>) -> Function { Function { visibility: Visibility::Public, flags: FunctionFlags::new().with_has_body(true).with_is_static(true), source: Some(SourceReference { file: i(0), line: 1 }), return_type: None, unk1: false, base_method: None, parameters: vec![], locals: vec![], operator: None, cast: 0, code: Code::new(code), unk2: vec![] } }\n#[allow(unused)] fn bundle() -> ScriptBundle { let b = std::fs::read(std::env::var("REPO").unwrap() + "/resources/predef.redscripts").unwrap(); ScriptBundle::load(&mut std::io::Cursor::new(b)).unwrap() }\n#[allow(unused)] fn save(b: &ScriptBundle) -> Vec<u8> { let mut o = std::io::Cursor::new(vec![]); b.save(&mut o).unwrap(); o.into_inner() }\n#[allow(unused)] fn text(p: &ConstantPool, d: &Definition) -> String { let mut o = vec![]; redscript_decompiler::print::write_definition(&mut o, d, p, 0, redscript_decompiler::print::OutputMode::Code { verbose: false }).unwrap(); String::from_utf8(o).unwrap() }\nfn main() { use redscript::decode::DecodeExt; use redscript::encode::EncodeExt; let mut f = fun(vec![]); f.base_method = Some(i(7)); f.parameters = vec![i(3)]; let mut o = vec![]; o.encode(&AnyDefinition::Function(f)).unwrap(); let mut c = std::io::Cursor::new(o); let g: Function = c.decode().unwrap(); assert!(g.base_method == Some(i(7)) && g.parameters == vec![i(3)]); }'
