ID='B09'; PROP='P09'
EDITS=[('core/src/decode.rs', '        let mut vec = vec![0; size];\n        self.read_exact(&mut vec)?;\n        Ok(vec)', '        let mut vec = Vec::new();\n        io::Read::read_to_end(&mut io::Read::take(&mut *self, size as u64), &mut vec)?;\n        Ok(vec)')]
NEEDS='a file cut inside the string data or a length prefix larger than what is left'
BREAKS='truncated data is accepted as complete'
DEMO='use redscript::bundle::*; use redscript::definition::*; use redscript::bytecode::*;\n#[allow(unused)] fn i<A>(n: u32) -> PoolIndex<A> { PoolIndex::new(n) }\n#[allow(unused)] fn fun(code: Vec<Instr<Offset>>) -> Function { Function { visibility: Visibility::Public, flags: FunctionFlags::new().with_has_body(true).with_is_static(true), source: Some(SourceReference { file: i(0), line: 1 }), return_type: None, unk1: false, base_method: None, parameters: vec![], locals: vec![], operator: None, cast: 0, code: Code::new(code), unk2: vec![] } }\n#[allow(unused)] fn bundle() -> ScriptBundle { let b = std::fs::read(std::env::var("REPO").unwrap() + "/resources/predef.redscripts").unwrap(); ScriptBundle::load(&mut std::io::Cursor::new(b)).unwrap() }\n#[allow(unused)] fn save(b: &ScriptBundle) -> Vec<u8> { let mut o = std::io::Cursor::new(vec![]); b.save(&mut o).unwrap(); o.into_inner() }\n#[allow(unused)] fn text(p: &ConstantPool, d: &Definition) -> String { let mut o = vec![]; redscript_decompiler::print::write_definition(&mut o, d, p, 0, redscript_decompiler::print::OutputMode::Code { verbose: false }).unwrap(); String::from_utf8(o).unwrap() }\nfn main() { use redscript::decode::DecodeExt; let mut c = std::io::Cursor::new(vec![b\'a\', b\'b\']); assert!(c.decode_bytes(3u32).is_err()); let mut f = vec![0u8; 104]; f[0..4].copy_from_slice(b"REDS"); f[4] = 14; f[36] = 5; assert!(ScriptBundle::load(&mut std::io::Cursor::new(f)).is_err()); }'
