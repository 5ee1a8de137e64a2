ID='B15'; PROP='P15'
EDITS=[('decompiler/src/lib.rs', 'Instr::Jump(offset) if offset.absolute(loc) > exit => Some(offset.absolute(loc)),', 'Instr::Jump(offset) if offset.absolute(loc) >= exit => Some(offset.absolute(loc)),')]
NEEDS='a switch with a default whose case body ends with an if/else before its break is reached'
BREAKS='the end of the switch is taken to be the end of the case'
DEMO='use redscript::bundle::*; use redscript::definition::*; use redscript::bytecode::*;\n#[allow(unused)] fn i<A>(n: u32) -> PoolIndex<A> { PoolIndex::new(n) }\n#[allow(unused)] fn fun(code: Vec<Instr<Offset>>) -> Function { Function { visibility: Visibility::Public, flags: FunctionFlags::new().with_has_body(true).with_is_static(true), source: Some(SourceReference { file: i(0), line: 1 }), return_type: None, unk1: false, base_method: None, parameters: vec![], locals: vec![], operator: None, cast: 0, code: Code::new(code), unk2: vec![] } }\n#[allow(unused)] fn bundle() -> ScriptBundle { let b = std::fs::read(std::env::var("REPO").unwrap() + "/resources/predef.redscripts").unwrap(); ScriptBundle::load(&mut std::io::Cursor::new(b)).unwrap() }\n#[allow(unused)] fn save(b: &ScriptBundle) -> Vec<u8> { let mut o = std::io::Cursor::new(vec![]); b.save(&mut o).unwrap(); o.into_inner() }\n#[allow(unused)] fn text(p: &ConstantPool, d: &Definition) -> String { let mut o = vec![]; redscript_decompiler::print::write_definition(&mut o, d, p, 0, redscript_decompiler::print::OutputMode::Code { verbose: false }).unwrap(); String::from_utf8(o).unwrap() }\nfn main() { let mut p = ConstantPool::default(); p.add_definition::<Definition>(Definition::DEFAULT); let n = p.names.add("A".into());\n // switch 1 { case 1: if true { return; } else { if false {} else {} } case 2: break; default: return; }\n use Instr::*; let mut v: Vec<Instr<Label>> = vec![]; let l = |n| Label { index: n };\n v.extend([Switch(i(0), l(0)), I32One, Target(l(0)), SwitchLabel(l(1), l(2)), I32One, Target(l(2)), JumpIfFalse(l(3)), TrueConst, Assign, Local(i(2)), I32One, Jump(l(4)), Target(l(3)), Assign, Local(i(2)), I32Zero, Target(l(4)), Target(l(1)), SwitchLabel(l(5), l(6)), I32Zero, Target(l(6)), Assign, Local(i(2)), I8Const(7), Jump(l(9)), Target(l(5)), SwitchDefault, Assign, Local(i(2)), I8Const(8), Target(l(9)), Nop]);\n let n2 = p.names.add("x".into()); let n3 = p.names.add("Int32".into()); let t: PoolIndex<Type> = p.add_definition(Definition::type_(n3, Type::Prim)); let lo = p.add_definition(Definition::local(n2, i(9), redscript::definition::Local::new(t, LocalFlags::new()))); assert_eq!(lo, i(2));\n let mut at = vec![]; let mut pos = 0u16; for k in &v { at.push(pos); if !matches!(k, Target(_)) { pos += k.size() } }\n let mut labels = vec![Location::new(0); 10]; for (k, a) in v.iter().zip(&at) { if let Target(x) = k { labels[x.index] = Location::new(*a); } }\n let code = v.into_iter().zip(at).filter(|(k, _)| !matches!(k, Target(_))).map(|(k, a)| k.resolve_labels(Location::new(a), &labels)).collect();\n let mut f = fun(code); f.locals = vec![lo]; let d = Definition::function(n, i(0), f); let t = text(&p, &d); println!("{t}");\n let a = t.split("x = 7").nth(1).unwrap(); let b = a.split("default").next().unwrap(); assert!(b.contains("break"), "{t}"); assert!(!t.split("case 0").next().unwrap().contains("break"), "{t}"); assert!(t.split("default").nth(1).unwrap().split("};").next().unwrap().contains("x = 8"), "{t}"); assert!(!t.contains("goto")); }'
