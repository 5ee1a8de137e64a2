ID='B07'; PROP='P07'
EDITS=[('core/src/bundle.rs', '            unk2: definition.unk2,\n            unk3: definition.unk3,', '            unk2: definition.unk2,\n            unk3: definition.unk2,')]
NEEDS='a definition whose two reserved header bytes differ'
BREAKS='the last reserved byte of a definition is lost on saving'
DEMO='use redscript::bundle::*; use redscript::definition::*; use redscript::bytecode::*;\n#[allow(unused)] fn i<A>(n: u32) -> PoolIndex<A> { PoolIndex::new(n) }\n#[allow(unused)] fn fun(code: Vec<Instr<Offset>>) -> Function { Function { visibility: Visibility::Public, flags: FunctionFlags::new().with_has_body(true).with_is_static(true), source: Some(SourceReference { file: i(0), line: 1 }), return_type: None, unk1: false, base_method: None, parameters: vec![], locals: vec![], operator: None, cast: 0, code: Code::new(code), unk2: vec![] } }\n#[allow(unused)] fn bundle() -> ScriptBundle { let b = std::fs::read(std::env::var("REPO").unwrap() + "/resources/predef.redscripts").unwrap(); ScriptBundle::load(&mut std::io::Cursor::new(b)).unwrap() }\n#[allow(unused)] fn save(b: &ScriptBundle) -> Vec<u8> { let mut o = std::io::Cursor::new(vec![]); b.save(&mut o).unwrap(); o.into_inner() }\n#[allow(unused)] fn text(p: &ConstantPool, d: &Definition) -> String { let mut o = vec![]; redscript_decompiler::print::write_definition(&mut o, d, p, 0, redscript_decompiler::print::OutputMode::Code { verbose: false }).unwrap(); String::from_utf8(o).unwrap() }\nfn main() { let mut b = bundle(); let mut d = Definition::DEFAULT; d.unk3 = 9; let k: PoolIndex<Definition> = b.pool.add_definition(d); let c = ScriptBundle::load(&mut std::io::Cursor::new(save(&b))).unwrap(); assert_eq!(c.pool.definition(k).unwrap().unk3, 9); }'
