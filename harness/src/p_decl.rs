//! Decompiler: printed declarations, robustness on arbitrary input, and the file index.
use std::path::PathBuf;

use redscript::bundle::{ConstantPool, PoolIndex};
use redscript::definition::*;
use redscript_decompiler::files::FileIndex;
use redscript_decompiler::print::{write_definition, OutputMode};
use redscript_decompiler::Decompiler;

use crate::dec::*;
use crate::isa;
use crate::sx::*;
use crate::wire::digest;

harnesses! { h_decl_func, h_decl_class, h_decl_field, h_decl_enum, h_decl_local, h_decl_code, h_tot_code, h_tot_ops, h_tot_expr, h_tot_def, h_tot_long, h_files, h_files_any }

// ------------------------------------------------------------------ declarations

/// text with every run of white space reduced to one blank
fn squash(t: &[u8]) -> Vec<u8> {
    let mut o: Vec<u8> = vec![];
    for &c in t {
        if c == b' ' || c == b'\n' {
            if o.last().map_or(false, |l| *l != b' ') {
                o.push(b' ');
            }
        } else {
            o.push(c);
        }
    }
    while o.last() == Some(&b' ') {
        o.pop();
    }
    o
}

fn shown(def: &Definition, p: &ConstantPool, mode: OutputMode) -> Vec<u8> {
    let mut o = vec![];
    assert!(write_definition(&mut o, def, p, 0, mode).is_ok(), "well-formed declaration not printed");
    squash(&o)
}

fn same(got: &[u8], want: &str) {
    assert!(got == &squash(want.as_bytes())[..], "printed declaration differs");
    observe(digest(got));
    cover(1);
}

fn mode() -> OutputMode {
    match choose(3) {
        0 => OutputMode::Code { verbose: choose(2) == 1 },
        1 => OutputMode::SyntaxTree,
        _ => OutputMode::Bytecode,
    }
}

fn vis() -> (Visibility, &'static str) {
    [(Visibility::Public, "public "), (Visibility::Protected, "protected "), (Visibility::Private, "private ")][choose(3) as usize]
}

const T_PRIM: u32 = 1;
const T_CLASS: u32 = 2;
const T_REF: u32 = 3;
const T_WREF: u32 = 4;
const T_ARR: u32 = 5;
const T_SARR: u32 = 6;
const T_SREF: u32 = 7;
const T_AREF: u32 = 8;
const T_SREFA: u32 = 9;
const TEXT: [&str; 10] = ["", "Int32", "Cls", "ref<Cls>", "wref<Cls>", "array<Int32>", "array<ref<Cls>; 4>", "script_ref<Int32>", "array<ref<Cls>>", "script_ref<array<ref<Cls>>>"];

/// the types above at indices 1-9, a class at 10
fn types() -> ConstantPool {
    let mut p = ConstantPool::default();
    p.names.add("".into());
    let _: PoolIndex<Definition> = p.add_definition(Definition::DEFAULT);
    let mut t = |n: &str, t: Type| {
        let n = p.names.add(n.into());
        let _: PoolIndex<Definition> = p.add_definition(Definition::type_(n, t));
    };
    t("Int32", Type::Prim);
    t("Cls", Type::Class);
    t("ref:Cls", Type::Ref(ix(T_CLASS)));
    t("wref:Cls", Type::WeakRef(ix(T_CLASS)));
    t("array:Int32", Type::Array(ix(T_PRIM)));
    t("[4]ref:Cls", Type::StaticArray(ix(T_REF), 4));
    t("script_ref:Int32", Type::ScriptRef(ix(T_PRIM)));
    t("array:ref:Cls", Type::Array(ix(T_REF)));
    t("script_ref:array:ref:Cls", Type::ScriptRef(ix(T_AREF)));
    let n = p.names.add("Base".into());
    let _: PoolIndex<Definition> = p.add_definition(Definition::class(n, class(ClassFlags::new(), 0)));
    p
}

fn any_type() -> (u32, &'static str) {
    let i = 1 + choose(9);
    (i as u32, TEXT[i as usize])
}

fn bit(v: u32, b: u32) -> bool {
    v >> b & 1 == 1
}

fn fun_flags(v: u32) -> FunctionFlags {
    FunctionFlags::from_bytes(v.to_le_bytes())
}

/// function headers: visibility, modifiers, name, parameters, return type; body or not
pub fn h_decl_func() {
    let mut p = types();
    let raw = if param(0) < 2 { u32_() } else { 0 };
    // the flags that say which parts are present follow the parts
    let body = choose(2) == 1;
    let raw = if body { raw | 1 << 12 } else { raw & !(1 << 12) };
    let (v, vt) = vis();
    let mut f = func(fun_flags(raw), vec![]);
    f.visibility = v;
    let mut ps = vec![];
    for i in 0..choose(param(0) + 1) {
        let (t, tt) = if i == 0 && param(0) == 2 { any_type() } else { (T_PRIM, "Int32") };
        let pf = if i == 0 && param(0) == 2 { u8_() } else { 0 };
        let name = ["a", "b"][i as usize];
        let n = p.names.add(name.into());
        let d: PoolIndex<Parameter> = p.add_definition(Definition::param(n, ix(0), Parameter { type_: ix(t), flags: ParameterFlags::from_bytes([pf]) }));
        f.parameters.push(d);
        ps.push(format!("{}{}{}{}: {}", if bit(pf as u32, 3) { "const " } else { "" }, if bit(pf as u32, 1) { "out " } else { "" }, if bit(pf as u32, 0) { "opt " } else { "" }, name, tt));
    }
    let mut ret = "Void";
    if choose(2) == 1 {
        let (t, tt) = if param(0) == 0 { any_type() } else { (T_AREF, TEXT[T_AREF as usize]) };
        f.return_type = Some(ix(t));
        ret = tt;
    }
    let name = ["fun;Int32", "plain"][choose(2) as usize];
    let n = p.names.add(name.into());
    let def = Definition::function(n, ix(0), f);
    let mut want = String::from(vt);
    for (b, w) in [(3, "final "), (0, "static "), (4, "native "), (1, "exec "), (19, "const "), (22, "quest "), (6, "cb ")] {
        if bit(raw, b) {
            want += w;
        }
    }
    want += &format!("func {}({}) -> {}{}", name.split(';').next().unwrap(), ps.join(", "), ret, if body { " { }" } else { ";" });
    same(&shown(&def, &p, OutputMode::Code { verbose: false }), &want);
}

/// classes: header, every field, every method, in order
pub fn h_decl_class() {
    let mut p = types();
    let raw = u16_();
    let (v, vt) = vis();
    let mut c = class(ClassFlags::from_bytes(raw.to_le_bytes()), if choose(2) == 1 { 10 } else { 0 });
    c.visibility = v;
    let base = c.base.is_undefined();
    let mut want = String::from(vt);
    for (b, w) in [(1, "abstract "), (2, "final ")] {
        if bit(raw as u32, b) {
            want += w;
        }
    }
    if bit(raw as u32, 6) {
        want += "importonly ";
    } else if bit(raw as u32, 0) {
        want += "native ";
    }
    want += if bit(raw as u32, 3) { "struct " } else { "class " };
    want += if base { "My { " } else { "My extends Base { " };
    for i in 0..choose(3) {
        let name = ["x", "y"][i as usize];
        let n = p.names.add(name.into());
        let t = [T_AREF, T_PRIM][i as usize];
        let d: PoolIndex<Field> = p.add_definition(Definition::field(n, ix(0), field(t)));
        c.fields.push(d);
        want += &format!("private let {}: {}; ", name, TEXT[t as usize]);
    }
    for i in 0..choose(3) {
        let name = ["f;Int32", "g;"][i as usize];
        let n = p.names.add(name.into());
        let d: PoolIndex<Function> = p.add_definition(Definition::function(n, ix(0), func(FunctionFlags::new().with_has_body(i == 1), vec![])));
        c.functions.push(d);
        want += ["public func f() -> Void; ", "public func g() -> Void { } "][i as usize];
    }
    want += "}";
    let n = p.names.add("My".into());
    same(&shown(&Definition::class(n, c), &p, mode()), &want);
}

/// the quoted string at the start of `t`, unescaped, and the rest
fn unquote(t: &str) -> (String, &str) {
    let mut o = String::new();
    let mut it = t.char_indices();
    assert!(it.next().map(|c| c.1) == Some('"'), "quote expected");
    while let Some((i, c)) = it.next() {
        match c {
            '"' => return (o, &t[i + 1..]),
            '\\' => match it.next().unwrap().1 {
                'n' => o.push('\n'),
                'u' => {
                    let mut v = 0;
                    assert!(it.next().unwrap().1 == '{');
                    loop {
                        let c = it.next().unwrap().1;
                        if c == '}' {
                            break;
                        }
                        v = v * 16 + c.to_digit(16).unwrap();
                    }
                    o.push(char::from_u32(v).unwrap());
                }
                c => o.push(c),
            },
            c => o.push(c),
        }
    }
    panic!("unterminated string")
}

pub fn h_decl_field() {
    let mut p = types();
    let raw = if param(0) == 0 { u16_() } else { 0 };
    let (v, vt) = vis();
    let (t, tt) = if param(0) == 1 { any_type() } else { (T_PRIM, "Int32") };
    let mut f = field(t);
    f.visibility = v;
    f.flags = FieldFlags::from_bytes(raw.to_le_bytes());
    let mut attrs = vec![];
    for _ in 0..choose(1 + 2 * param(0)) {
        let a = Property { name: "k".into(), value: STRINGS[choose(3) as usize].into() };
        attrs.push(a.value.clone());
        f.attributes.push(a);
    }
    let mut want = String::new();
    for i in 0..choose(3) {
        let d = Property { name: ["C1", "C2"][i as usize].into(), value: ["1.5", "\"q\""][i as usize].into() };
        want += &format!("@default({}, {}) ", d.name, d.value);
        f.defaults.push(d);
    }
    want += vt;
    for (b, w) in [(2, "inline "), (4, "replicated "), (1, "edit "), (0, "native "), (8, "persistent "), (3, "const ")] {
        if bit(raw as u32, b) {
            want += w;
        }
    }
    want += &format!("let fld: {};", tt);
    let n = p.names.add("fld".into());
    let def = Definition::field(n, ix(0), f);
    let mut o = vec![];
    assert!(write_definition(&mut o, &def, &p, choose(2) as usize, OutputMode::Code { verbose: false }).is_ok());
    let mut rest = std::str::from_utf8(&o).unwrap().trim_start();
    for a in &attrs {
        rest = rest.strip_prefix("@runtimeProperty(").expect("attribute missing");
        let (k, r) = unquote(rest);
        let (val, r) = unquote(r.strip_prefix(", ").expect("attribute"));
        assert!(k == "k" && val == *a, "attribute differs");
        rest = r.strip_prefix(")").expect("attribute").trim_start();
    }
    same(&squash(rest.as_bytes()), &want);
}

pub fn h_decl_enum() {
    let mut p = types();
    let mut e = Enum { flags: 0, size: 4, members: vec![], unk1: false };
    let mut want = String::from("enum En { ");
    for i in 0..choose(4) {
        let name = ["A", "B", "C"][i as usize];
        let v = [0i64, 1, -1, 2147483647, -2147483648, i64::MAX, i64::MIN][choose(if i == 0 { 7 } else { 2 }) as usize];
        let n = p.names.add(name.into());
        let d: PoolIndex<i64> = p.add_definition(Definition::enum_value(n, ix(0), v));
        e.members.push(d);
        want += &format!("{} = {}, ", name, v);
    }
    want += "}";
    let n = p.names.add("En".into());
    same(&shown(&Definition::enum_(n, e), &p, mode()), &want);
}

/// parameters, locals and types on their own
pub fn h_decl_local() {
    let mut p = types();
    let (t, tt) = any_type();
    let n = p.names.add("v".into());
    let raw = u8_();
    let (def, want) = match choose(3) {
        0 => {
            let f = LocalFlags::from_bytes([raw]);
            (Definition::local(n, ix(0), Local { type_: ix(t), flags: f }), format!("{} v: {};", if bit(raw as u32, 0) { "const" } else { "let" }, tt))
        }
        1 => {
            let c = |b, s| if bit(raw as u32, b) { s } else { "" };
            let want = format!("{}{}{}v: {}", c(3, "const "), c(1, "out "), c(0, "opt "), tt);
            (Definition::param(n, ix(0), Parameter { type_: ix(t), flags: ParameterFlags::from_bytes([raw]) }), want)
        }
        _ => (p.definition(ix::<Definition>(t)).unwrap().clone(), tt.to_owned()),
    };
    same(&shown(&def, &p, mode()), &want);
}

/// bytecode listings: every local, every instruction at its location
pub fn h_decl_code() {
    let mut p = types();
    let mut code = vec![];
    for i in 0..param(0) {
        let op = if i == 0 { arb_op(known) } else { [39, 36, 0][choose(3) as usize] };
        code.push(ri(op, &[0, 0, 0, 0]));
    }
    let mut f = func(FunctionFlags::new().with_has_body(true), instrs(&code));
    let mut want = String::from("public func f() -> Void { ");
    for i in 0..choose(3) {
        let n = p.names.add(["l1", "l2"][i as usize].into());
        let d: PoolIndex<Local> = p.add_definition(Definition::local(n, ix(0), Local { type_: ix(T_REF), flags: LocalFlags::new() }));
        f.locals.push(d);
        want += ["let l1: ref<Cls>; ", "let l2: ref<Cls>; "][i as usize];
    }
    let mut at = 0;
    for (r, i) in code.iter().zip(instrs(&code)) {
        want += &format!("{}: {} ", at, format!("{:?}", i).to_lowercase());
        at += isa::ref_size(r.op) as u32;
    }
    want += "}";
    let n = p.names.add("f;".into());
    same(&shown(&Definition::function(n, ix(0), f), &p, OutputMode::Bytecode), &want);
}

// ------------------------------------------------------------------ robustness

/// decompiles and prints in every mode: may fail, must not panic or run away
fn survive(def: &Definition, pool: &ConstantPool) {
    let mut o = vec![];
    let m = if param(1) == 1 { OutputMode::Code { verbose: false } } else { mode() };
    match write_definition(&mut o, def, pool, 0, m) {
        Ok(()) => cover(1),
        Err(_) => cover(2),
    }
    observe(digest(&o));
}

fn known(o: u8) -> bool {
    o < isa::NUM_OPS && o != 21 && o != 51
}

fn flow_op(o: u8) -> bool {
    matches!(o, 2 | 22 | 28..=33 | 34 | 36 | 38 | 39 | 41)
}

fn jump_op(o: u8) -> bool {
    matches!(o, 2 | 28..=32 | 39)
}

/// any of the offsets that matter in a short body, kept symbolic
fn arb_off() -> i16 {
    let o = i16_();
    let short = o as i64 >= -30 && o as i64 <= 30 || o == i16::MAX || o == i16::MIN;
    assume(short);
    o
}

/// bodies of arbitrary control flow instructions with arbitrary jump offsets
pub fn h_tot_code() {
    let mut code = vec![];
    for _ in 0..param(0) {
        let op = arb_op(if param(2) == 1 { jump_op } else { flow_op });
        let mut r = RI { op, v: [0; 4], offs: (0, 0) };
        if matches!(op, 28..=34 | 41) {
            r.offs = (arb_off(), if matches!(op, 28 | 29 | 34) { arb_off() } else { 0 });
        }
        if op == 36 {
            r.v[2] = 1;
        }
        code.push(r);
    }
    let pool = crate::p_flow::small_world();
    let def = Definition::function(ix(1), ix(0), func(FunctionFlags::new().with_has_body(true), instrs(&code)));
    survive(&def, &pool);
}

/// bodies of arbitrary instructions with arbitrary operands
pub fn h_tot_ops() {
    let pool = world(true);
    let mut code = vec![];
    for i in 0..param(0) {
        let op = arb_op(known);
        let mut r = arb_ri_any(op);
        if i > 0 {
            r.offs = (0, 0);
        }
        code.push(r);
    }
    survive(&subject(&pool, &[LB], instrs(&code)), &pool);
}

/// operands that may refer to anything
fn arb_ri_any(op: u8) -> RI {
    let mut r = if (4..=13).contains(&op) { ri(op, &[1]) } else { arb_ri(op) };
    let any = || [CLS, GLOB, P0, SMETH, 900, 0, OPS, OPS + 18, OPS + 23, CASTV][choose(10) as usize] as u64;
    match op {
        14 | 16 | 17 | 18 => r.v[0] = [0u64, 2, 77][choose(3) as usize],
        15 => r.v[choose(2) as usize] = any(),
        24 | 25 | 26 | 40 | 48 | 89 | 90 | 93 => r.v[0] = any(),
        35 => r.v[1] = any(),
        36 => r.v[2] = any(),
        37 => r.v[2] = [0u64, 2, 77][choose(3) as usize],
        _ => {}
    }
    r
}

/// calls of operators and conversions with any number of arguments
pub fn h_tot_expr() {
    let pool = world(true);
    let mut code = vec![ri(36, &[0, 0, CASTV as u64 + choose(26), 0])];
    for _ in 0..choose(4) {
        code.push(ri([1, 50, 99][choose(3) as usize], &[0]));
    }
    code.push(ri(38, &[]));
    survive(&subject(&pool, &[], instrs(&code)), &pool);
}

/// definitions some of whose references (param 0 of them) lead anywhere
pub fn h_tot_def() {
    let mut p = ConstantPool::default();
    p.names.add("".into());
    p.names.add("nm".into());
    let mut slots = vec![];
    let mut last = 0;
    for _ in 0..param(0) {
        last = last + 1 + choose(26 - param(0) - last);
        slots.push((last - 1, choose(11)));
    }
    let n = std::cell::Cell::new(0);
    let to = |v: u32| {
        let k = n.get();
        n.set(k + 1);
        slots.iter().find(|s| s.0 == k).map(|s| s.1 as u32).unwrap_or(v)
    };
    let kind = choose(4);
    let root = if param(2) > 0 { param(2) } else { 1 + choose(9) };
    let _: PoolIndex<Definition> = p.add_definition(Definition::DEFAULT);
    for i in 1..10 {
        let name = ix(to(1));
        let d = match i {
            1 => {
                let t = ix(to(2));
                let v = match kind {
                    0 => Type::Ref(t),
                    1 => Type::Prim,
                    2 => Type::StaticArray(t, 3),
                    _ => Type::Array(t),
                };
                Definition::type_(name, v)
            }
            2 => {
                let mut c = class(ClassFlags::new(), to(0));
                c.fields = vec![ix(to(8))];
                c.functions = vec![ix(to(5))];
                Definition::class(name, c)
            }
            3 => Definition::enum_(name, Enum { flags: 0, size: 4, members: vec![ix(to(4))], unk1: false }),
            4 => Definition::enum_value(name, ix(to(3)), 5),
            5 => {
                let mut f = func(FunctionFlags::new().with_has_body(true), vec![]);
                f.parameters = vec![ix(to(6))];
                f.return_type = Some(ix(to(1)));
                f.locals = vec![ix(to(7))];
                Definition::function(name, ix(to(2)), f)
            }
            6 => Definition::param(name, ix(to(5)), Parameter { type_: ix(to(1)), flags: ParameterFlags::new() }),
            7 => Definition::local(name, ix(to(5)), Local { type_: ix(to(1)), flags: LocalFlags::new() }),
            8 => Definition::field(name, ix(to(2)), field(to(1))),
            _ => Definition::source_file(SourceFile { id: 0, path_hash: 0, path: PathBuf::from("a") }),
        };
        let _: PoolIndex<Definition> = p.add_definition(d);
    }
    assert!(n.get() == 25);
    survive(p.definition(ix::<Definition>(root as u32)).unwrap(), &p);
}

/// a body of param 0 instructions of 9 bytes
pub fn h_tot_long() {
    let mut code = vec![];
    for i in 0..param(0) {
        code.push(ri(11, &[i]));
    }
    code.push(ri(31, &[]));
    let last = code.len() - 1;
    if param(1) == 1 {
        code[last].offs.0 = 3;
    } else {
        code[last].offs.0 = i16_();
        assume(code[last].offs.0 == 3 || code[last].offs.0 < -300);
    }
    let p = crate::p_flow::small_world();
    let def = Definition::function(ix(1), ix(0), func(FunctionFlags::new().with_has_body(true), instrs(&code)));
    let f = def.value.as_function().unwrap();
    match Decompiler::decompiled(f, &def, &p) {
        // nothing may be dropped
        Ok(seq) => {
            assert!(seq.exprs.iter().filter(|e| !e.is_empty()).count() as u64 >= param(0), "statements lost");
            cover(1)
        }
        Err(_) => cover(2),
    }
    // the listing is exact or refused
    let mut o = vec![];
    if param(1) == 1 && write_definition(&mut o, &def, &p, 0, OutputMode::Bytecode).is_ok() {
        assert!(o.iter().filter(|c| **c == b'\n').count() as u64 >= param(0), "instructions lost");
    }
}

// ------------------------------------------------------------------ file index

struct Item {
    class: bool,
    /// (file, line, native) of each function: of the class, or of the function itself
    funs: Vec<(u32, u32, bool)>,
    at: u32,
}

/// classes and functions spread over source files
pub fn h_files() {
    let mut p = ConstantPool::default();
    p.names.add("".into());
    let _: PoolIndex<Definition> = p.add_definition(Definition::DEFAULT);
    let paths = ["a.script", "b/c.script"];
    for s in paths {
        let _: PoolIndex<SourceFile> = p.add_definition(Definition::source_file(SourceFile { id: 0, path_hash: 0, path: PathBuf::from(s) }));
    }
    let mut items: Vec<Item> = vec![];
    let mut enums = vec![];
    let mut next_line = 0;
    for i in 0..param(0) {
        let name = p.names.add(["A", "B", "C", "D"][i as usize].into());
        let mut arb_fun = |line: u32| {
            let native = choose(2) == 1;
            let file = 1 + choose(2) as u32;
            let mut f = func(FunctionFlags::new().with_is_native(native), vec![]);
            if !native {
                f.source = Some(SourceReference { file: ix(file), line });
            }
            (f, (file, line, native))
        };
        match choose(3) {
            0 => {
                let line = u32_();
                let (f, d) = arb_fun(line);
                let at: PoolIndex<Function> = p.add_definition(Definition::function(name, ix(0), f));
                items.push(Item { class: false, funs: vec![d], at: at.into() });
            }
            1 => {
                let at: PoolIndex<Class> = p.reserve();
                let mut c = class(ClassFlags::new(), 0);
                let mut ds = vec![];
                for _ in 0..choose(3) {
                    let line = u32_();
                    let (f, d) = arb_fun(line);
                    let fi: PoolIndex<Function> = p.add_definition(Definition::function(name, at.cast(), f));
                    c.functions.push(fi);
                    ds.push(d);
                }
                p.put_definition(at, Definition::class(name, c));
                items.push(Item { class: true, funs: ds, at: at.into() });
            }
            _ => {
                let at: PoolIndex<Enum> = p.add_definition(Definition::enum_(name, Enum { flags: 0, size: 4, members: vec![], unk1: false }));
                enums.push(u32::from(at));
            }
        }
        next_line += 1;
    }
    let _ = next_line;
    let index = FileIndex::from_pool(&p);
    let entries: Vec<_> = index.iter().collect();
    let number = |d: &Definition| p.definitions().find(|(_, e)| std::ptr::eq(*e, d)).map(|(i, _)| u32::from(i)).expect("unknown definition");
    // what should be where: 0 orphans, 1 and 2 the files
    let mut want: [Vec<u32>; 3] = [enums.clone(), vec![], vec![]];
    for it in &items {
        if it.funs.iter().all(|f| f.2) {
            want[0].push(it.at);
        }
        for k in 1..3u32 {
            if it.funs.iter().any(|f| !f.2 && f.0 == k) {
                want[k as usize].push(it.at);
            }
        }
    }
    let mut seen = [false; 3];
    for e in &entries {
        let k = match e.path.to_str().unwrap() {
            "orphans.script" => 0,
            "a.script" => 1,
            "b/c.script" => 2,
            _ => panic!("unknown file"),
        };
        assert!(!seen[k], "file listed twice");
        seen[k] = true;
        let got: Vec<u32> = e.definitions.iter().map(|d| number(d)).collect();
        for (i, g) in got.iter().enumerate() {
            assert!(want[k].contains(g) && !got[..i].contains(g), "definition in the wrong file");
        }
        assert!(got.len() == want[k].len(), "definition missing from a file");
        if k > 0 {
            let line = |g: u32| {
                let it = items.iter().find(|i| i.at == g).unwrap();
                let mut m = u32::MAX;
                for f in it.funs.iter().filter(|f| !f.2) {
                    m = min_u32(m, f.1);
                }
                m
            };
            for w in got.windows(2) {
                assert!(line(w[0]) <= line(w[1]), "definitions out of order");
            }
        }
    }
    for k in 0..3 {
        assert!(seen[k] || (k > 0 && want[k].is_empty()), "file missing");
    }
    cover(1);
    let mut h = vec![];
    for k in 0..3 {
        h.push(want[k].len() as u8);
    }
    observe(digest(&h));
}

/// dangling and mistyped source references and parents
pub fn h_files_any() {
    let mut p = ConstantPool::default();
    p.names.add("".into());
    let _: PoolIndex<Definition> = p.add_definition(Definition::DEFAULT);
    let _: PoolIndex<SourceFile> = p.add_definition(Definition::source_file(SourceFile { id: 0, path_hash: 0, path: PathBuf::from("a.script") }));
    let any = || {
        let v = u32_();
        assume(v < 6);
        v
    };
    for _ in 0..2 {
        let mut f = func(FunctionFlags::new(), vec![]);
        f.source = Some(SourceReference { file: ix(any()), line: 1 });
        let _: PoolIndex<Function> = p.add_definition(Definition::function(ix(0), ix(any()), f));
    }
    let mut c = class(ClassFlags::new(), 0);
    c.functions = vec![ix(any())];
    let _: PoolIndex<Class> = p.add_definition(Definition::class(ix(0), c));
    let index = FileIndex::from_pool(&p);
    let mut n = 0;
    for e in index.iter() {
        n += e.definitions.len();
    }
    observe(n as u64);
    cover(1);
}
