ID='B16'; PROP='P16'
EDITS=[('core/src/ast.rs', '            BinOp::Or => 7,\n            BinOp::Xor => 6,', '            BinOp::Or => 6,\n            BinOp::Xor => 7,')]
NEEDS='an expression that combines | and ^ against their precedence'
BREAKS='parentheses are dropped, so the text reads back as a different expression'
DEMO='use redscript::bundle::*; use redscript::definition::*; use redscript::bytecode::*;\n#[allow(unused)] fn i<A>(n: u32) -> PoolIndex<A> { PoolIndex::new(n) }\n#[allow(unused)] fn fun(code: Vec<Instr<Offset>>) -> Function { Function { visibility: Visibility::Public, flags: FunctionFlags::new().with_has_body(true).with_is_static(true), source: Some(SourceReference { file: i(0), line: 1 }), return_type: None, unk1: false, base_method: None, parameters: vec![], locals: vec![], operator: None, cast: 0, code: Code::new(code), unk2: vec![] } }\n#[allow(unused)] fn bundle() -> ScriptBundle { let b = std::fs::read(std::env::var("REPO").unwrap() + "/resources/predef.redscripts").unwrap(); ScriptBundle::load(&mut std::io::Cursor::new(b)).unwrap() }\n#[allow(unused)] fn save(b: &ScriptBundle) -> Vec<u8> { let mut o = std::io::Cursor::new(vec![]); b.save(&mut o).unwrap(); o.into_inner() }\n#[allow(unused)] fn text(p: &ConstantPool, d: &Definition) -> String { let mut o = vec![]; redscript_decompiler::print::write_definition(&mut o, d, p, 0, redscript_decompiler::print::OutputMode::Code { verbose: false }).unwrap(); String::from_utf8(o).unwrap() }\nfn main() { let mut p = ConstantPool::default(); p.add_definition::<Definition>(Definition::DEFAULT); let n = p.names.add("A".into());\n let mut op = |s: &str| { let n = p.names.add(s.into()); p.add_definition::<Function>(Definition::function(n, i(0), fun(vec![]))) }; let (or, xor) = (op("OperatorOr;Int32Int32;Int32"), op("OperatorXor;Int32Int32;Int32"));\n use Instr::*; let z = Offset::new(0); let f = fun(vec![Return, InvokeStatic(z, 1, xor, 0), InvokeStatic(z, 1, or, 0), I8Const(2), I8Const(3), ParamEnd, I8Const(4), ParamEnd, Nop]);\n let t = text(&p, &Definition::function(n, i(0), f)); assert!(t.contains("(2 | 3) ^ 4"), "{t}"); }'
