ID='B05'; PROP='P05'
EDITS=[('core/src/decode.rs', '        String::from_utf8(buf).map_err(|err| io::Error::new(io::ErrorKind::InvalidData, err))', '        Ok(String::from_utf8_lossy(&buf).into_owned())')]
NEEDS='a NUL-terminated string that is not valid UTF-8'
BREAKS='such strings are silently altered instead of being rejected'
DEMO='use redscript::bundle::*; use redscript::definition::*; use redscript::bytecode::*;\n#[allow(unused)] fn i<A>(n: u32) -> PoolIndex<A> { PoolIndex::new(n) }\n#[allow(unused)] fn fun(code: Vec<Instr<Offset>>) -> Function { Function { visibility: Visibility::Public, flags: FunctionFlags::new().with_has_body(true).with_is_static(true), source: Some(SourceReference { file: i(0), line: 1 }), return_type: None, unk1: false, base_method: None, parameters: vec![], locals: vec![], operator: None, cast: 0, code: Code::new(code), unk2: vec![] } }\n#[allow(unused)] fn bundle() -> ScriptBundle { let b = std::fs::read(std::env::var("REPO").unwrap() + "/resources/predef.redscripts").unwrap(); ScriptBundle::load(&mut std::io::Cursor::new(b)).unwrap() }\n#[allow(unused)] fn save(b: &ScriptBundle) -> Vec<u8> { let mut o = std::io::Cursor::new(vec![]); b.save(&mut o).unwrap(); o.into_inner() }\n#[allow(unused)] fn text(p: &ConstantPool, d: &Definition) -> String { let mut o = vec![]; redscript_decompiler::print::write_definition(&mut o, d, p, 0, redscript_decompiler::print::OutputMode::Code { verbose: false }).unwrap(); String::from_utf8(o).unwrap() }\nfn main() { use redscript::decode::DecodeExt; let mut c = std::io::Cursor::new(vec![b\'a\', 0xff, 0]); assert!(c.decode::<String>().is_err()); let mut c = std::io::Cursor::new(vec![b\'a\', 0]); assert_eq!(c.decode::<String>().unwrap(), "a"); }'
