ID='B13'; PROP='P13'
EDITS=[('core/src/io.rs', '        self.offset += written;', '        self.offset += buf.len();')]
NEEDS='an output stream that accepts only part of a buffer'
BREAKS='the tracked offset runs ahead of the stream, so recorded positions are wrong'
DEMO='use redscript::bundle::*; use redscript::definition::*; use redscript::bytecode::*;\n#[allow(unused)] fn i<A>(n: u32) -> PoolIndex<A> { PoolIndex::new(n) }\n#[allow(unused)] fn fun(code: Vec<Instr<Offset>>) -> Function { Function { visibility: Visibility::Public, flags: FunctionFlags::new().with_has_body(true).with_is_static(true), source: Some(SourceReference { file: i(0), line: 1 }), return_type: None, unk1: false, base_method: None, parameters: vec![], locals: vec![], operator: None, cast: 0, code: Code::new(code), unk2: vec![] } }\n#[allow(unused)] fn bundle() -> ScriptBundle { let b = std::fs::read(std::env::var("REPO").unwrap() + "/resources/predef.redscripts").unwrap(); ScriptBundle::load(&mut std::io::Cursor::new(b)).unwrap() }\n#[allow(unused)] fn save(b: &ScriptBundle) -> Vec<u8> { let mut o = std::io::Cursor::new(vec![]); b.save(&mut o).unwrap(); o.into_inner() }\n#[allow(unused)] fn text(p: &ConstantPool, d: &Definition) -> String { let mut o = vec![]; redscript_decompiler::print::write_definition(&mut o, d, p, 0, redscript_decompiler::print::OutputMode::Code { verbose: false }).unwrap(); String::from_utf8(o).unwrap() }\nuse std::io::Write;\nstruct W(usize); impl Write for W { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { let n = b.len().min(2); self.0 += n; Ok(n) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } }\nfn main() { let mut o = redscript::io::StreamOffset::new_zeroed(W(0)); o.write_all(b"hello").unwrap(); let n = o.offset(); assert_eq!(n, o.into_inner().0); }'
