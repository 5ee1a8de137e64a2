ID='B08'; PROP='P08'
EDITS=[('core/src/bundle.rs', '            hash: 0xDEAD_BEEF,\n            ..header.clone()', '            ..header.clone()')]
NEEDS='a bundle that is loaded, edited and saved'
BREAKS='the header checksum is computed over the stale checksum, so it does not cover the header as specified and saving again changes the file'
DEMO='use redscript::bundle::*; use redscript::definition::*; use redscript::bytecode::*;\n#[allow(unused)] fn i<A>(n: u32) -> PoolIndex<A> { PoolIndex::new(n) }\n#[allow(unused)] fn fun(code: Vec<Instr<Offset>>) -> Function { Function { visibility: Visibility::Public, flags: FunctionFlags::new().with_has_body(true).with_is_static(true), source: Some(SourceReference { file: i(0), line: 1 }), return_type: None, unk1: false, base_method: None, parameters: vec![], locals: vec![], operator: None, cast: 0, code: Code::new(code), unk2: vec![] } }\n#[allow(unused)] fn bundle() -> ScriptBundle { let b = std::fs::read(std::env::var("REPO").unwrap() + "/resources/predef.redscripts").unwrap(); ScriptBundle::load(&mut std::io::Cursor::new(b)).unwrap() }\n#[allow(unused)] fn save(b: &ScriptBundle) -> Vec<u8> { let mut o = std::io::Cursor::new(vec![]); b.save(&mut o).unwrap(); o.into_inner() }\n#[allow(unused)] fn text(p: &ConstantPool, d: &Definition) -> String { let mut o = vec![]; redscript_decompiler::print::write_definition(&mut o, d, p, 0, redscript_decompiler::print::OutputMode::Code { verbose: false }).unwrap(); String::from_utf8(o).unwrap() }\nfn main() { let b = bundle(); let x = save(&b); let c = ScriptBundle::load(&mut std::io::Cursor::new(x.clone())).unwrap(); let y = save(&c); assert_eq!(x, y); let d = ScriptBundle::load(&mut std::io::Cursor::new(y.clone())).unwrap(); assert_eq!(save(&d), y); }'
