ID='B19'; PROP='P19'
EDITS=[('decompiler/src/files.rs', '                    .all(|fun| fun.flags.is_native()),', '                    .next()\n                    .map_or(true, |fun| fun.flags.is_native()),')]
NEEDS='a class that mixes native and scripted functions, a native one first'
BREAKS='the class is listed among the orphans although its scripted code lives in a file'
DEMO='use redscript::bundle::*; use redscript::definition::*; use redscript::bytecode::*;\n#[allow(unused)] fn i<A>(n: u32) -> PoolIndex<A> { PoolIndex::new(n) }\n#[allow(unused)] fn fun(code: Vec<Instr<Offset>>) -> Function { Function { visibility: Visibility::Public, flags: FunctionFlags::new().with_has_body(true).with_is_static(true), source: Some(SourceReference { file: i(0), line: 1 }), return_type: None, unk1: false, base_method: None, parameters: vec![], locals: vec![], operator: None, cast: 0, code: Code::new(code), unk2: vec![] } }\n#[allow(unused)] fn bundle() -> ScriptBundle { let b = std::fs::read(std::env::var("REPO").unwrap() + "/resources/predef.redscripts").unwrap(); ScriptBundle::load(&mut std::io::Cursor::new(b)).unwrap() }\n#[allow(unused)] fn save(b: &ScriptBundle) -> Vec<u8> { let mut o = std::io::Cursor::new(vec![]); b.save(&mut o).unwrap(); o.into_inner() }\n#[allow(unused)] fn text(p: &ConstantPool, d: &Definition) -> String { let mut o = vec![]; redscript_decompiler::print::write_definition(&mut o, d, p, 0, redscript_decompiler::print::OutputMode::Code { verbose: false }).unwrap(); String::from_utf8(o).unwrap() }\nuse redscript_decompiler::files::FileIndex;\nfn main() { let mut p = ConstantPool::default(); p.add_definition::<Definition>(Definition::DEFAULT); let n = p.names.add("A".into()); let file = p.add_definition::<SourceFile>(Definition::source_file(SourceFile { id: 0, path_hash: 0, path: "a.script".into() }));\n let mut f = fun(vec![]); f.flags = FunctionFlags::new().with_is_native(true); f.source = None; let c: PoolIndex<Class> = i(4); let a = p.add_definition(Definition::function(n, c, f)); let mut g = fun(vec![]); g.source = Some(SourceReference { file, line: 3 }); let b = p.add_definition(Definition::function(n, c, g));\n let k: PoolIndex<Class> = p.add_definition(Definition::class(n, Class { visibility: Visibility::Public, flags: ClassFlags::new(), base: i(0), functions: vec![a, b], fields: vec![], overrides: vec![] })); assert_eq!(k, c);\n let ix = FileIndex::from_pool(&p); let mut it = ix.iter(); let o = it.next().unwrap(); assert!(o.definitions.is_empty()); assert_eq!(it.next().unwrap().definitions.len(), 1); }'
