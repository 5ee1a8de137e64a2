//! The compiler answers every program with code or with diagnostics.
use crate::sx::*;
use crate::world::*;
use redscript::bundle::ConstantPool;
use redscript_compiler::diagnostics::Diagnostic;
use redscript_compiler::parser;
use redscript_compiler::source_map::Files;
use redscript_compiler::unit::CompilationUnit;

harnesses! { h_ctot_expr, h_ctot_stmt, h_ctot_decl, h_ctot_pair, h_ctot_wrap, h_ctot_text }

/// a game whose class hierarchy has a root (or has none)
pub fn game(rooted: bool) -> W {
    let mut w = crate::c_sem::game();
    let src = "abstract native class IScriptable { }";
    if rooted {
        compile(&mut w.p, &[src]).unwrap();
        w.ty("ref:IScriptable");
    }
    compile(
        &mut w.p,
        &["enum E { A = 0, B = 5 }
          struct S { let a: Int32; static func SM() -> Int32 { return 1; } }
          class C { let f: Int32; let c: ref<C>; const let k: Float; let g: array<Int32>; func M(x: Int32) -> Int32 { return x; } func M(x: String) -> Int32 { return 0; } static func SM() -> Int32 { return 1; } func O(opt x: Int32) { } func Q(out x: Int32) { } cb func K() { } }
          class D extends C { func M(x: Int32) -> Int32 { return super.M(x); } }
          func Vd() { }"],
    )
    .unwrap();
    w
}

/// compiles without expecting anything but an answer
pub fn total(p: &mut ConstantPool, src: &str) {
    if !symbolic() {
        eprintln!("SOURCE {src}");
    }
    let mut files = Files::new();
    files.add("first.reds".into(), "func Other() {}\n".into());
    files.add("src.reds".into(), src.into());
    let file = files.files().last().unwrap();
    let m = match parser::parse_file(file) {
        Ok(m) => m,
        Err(e) => {
            assert!(e.location.offset <= src.len(), "a syntax error is reported outside the file");
            return cover(1);
        }
    };
    let show = |d: &Diagnostic| {
        let mut out = String::new();
        d.display(&files, &mut out).unwrap();
        let s = d.span();
        assert!(s.low >= file.byte_offset() && s.high >= s.low && s.high <= file.byte_offset() + src.len(), "a diagnostic is reported outside the file");
    };
    let r = match CompilationUnit::new_with_defaults(p) {
        Ok(u) => u.compile(vec![m], &files),
        Err(_) => panic!("the pool is not accepted"),
    };
    match r {
        Ok(o) => {
            o.diagnostics().iter().for_each(show);
            if fatal(o.diagnostics()) {
                return cover(2);
            }
            cover(3);
            closed(p);
            crate::c_pool::saves(p);
        }
        Err(e) => match Diagnostic::from_error(e) {
            Ok(d) => {
                show(&d);
                cover(4);
            }
            Err(e) => panic!("the compiler fails without a diagnostic: {e}"),
        },
    }
}

/// every reference of the pool leads to a definition of the right kind
pub fn closed(p: &ConstantPool) {
    crate::c_pool::well_formed(p)
}

pub const ATOMS: &[&str] = &[
    "1", "i", "c", "w", "s", "a", "e", "st", "v", "null", "this", "super", "b", "C", "E", "S", "X", "[]", "Vd()", "1.5", "n\"x\"", "sr", "T", "E.A", "new C()", "new X()", "ac", "E.X", "[1]", "f", "1ul", "Func(1)", "super.M(1)", "Cast(i)", "new S(1)",
];
const CORE: &[&str] = &["i", "c", "w", "s", "a", "e", "st", "v", "null", "C", "[]", "Vd()", "super", "Cast(1)"];

fn atom(from: &[&'static str]) -> String {
    from[choose(from.len() as u64) as usize].into()
}

const BIN: &[&str] = &["+", "&&", "=", "+=", "==", "^"];
const INTR: &[&str] = &[
    "Equals", "NotEquals", "ArrayClear", "ArraySize", "ArrayResize", "ArrayFindFirst", "ArrayFindLast", "ArrayContains", "ArrayCount", "ArrayPush", "ArrayPop", "ArrayInsert", "ArrayRemove", "ArrayGrow", "ArrayErase", "ArrayLast",
    "ArraySort", "ArraySortByPredicate", "ToString", "EnumInt", "IntEnum", "ToVariant", "FromVariant", "VariantIsRef", "VariantIsArray", "VariantTypeName", "AsRef", "Deref", "RefToWeakRef", "WeakRefToRef", "IsDefined",
];
const TYPES: &[&str] = &["C", "E", "Int32", "ref<C>", "wref<C>", "array<Int32>", "X", "S", "script_ref<String>", "Void", "ref<X>", "array<>", "ref<Int32>", "ref", "Variant", "String", "D", "array<array<E>>", "ref<E>", "wref<ref<C>>", "C<Int32>", "ref<C, D>"];

/// forms: 0 atom 1 member 2 method 3 index 4 cast 5 unary 6 conditional 7 binary 8 call 9 intrinsic/0-1 10 intrinsic/2 11 typed call 12 literal/interpolation 13 intrinsic/3 and 4
fn expr(forms: u64, wide: bool) -> String {
    let ks: Vec<u64> = (0..14).filter(|k| forms >> k & 1 == 1).collect();
    let at = |w: bool| atom(if w { ATOMS } else { CORE });
    match ks[choose(ks.len() as u64) as usize] {
        0 => at(true),
        1 => format!("{}.{}", at(true), ["f", "M", "A", "X", "SM"][choose(5) as usize]),
        2 => {
            let a = at(true);
            let m = ["M(1)", "M(null)", "SM()", "X()", "O()", "O(1, 2)", "Q(1)", "Q(i)", "f(1)", "M(Cast(1))", "K()"][choose(11) as usize];
            format!("{a}.{m}")
        }
        3 => {
            let a = at(wide);
            format!("{a}[{}]", at(false))
        }
        4 => {
            let a = at(wide);
            format!("({a} as {})", atom(TYPES))
        }
        5 => format!("{}{}", ["!", "-", "~"][choose(3) as usize], at(true)),
        6 => match choose(3) {
            0 => format!("({} ? 1 : i)", at(true)),
            1 => {
                let a = at(false);
                format!("(b ? {a} : {})", at(false))
            }
            _ => format!("(b ? {} : 1)", at(true)),
        },
        7 => {
            let o = BIN[choose(BIN.len() as u64) as usize];
            let a = at(wide);
            format!("({a} {o} {})", at(false))
        }
        8 => match choose(4) {
            0 => format!("F({})", at(true)),
            1 => format!("H(1, {})", at(true)),
            2 => format!("{}()", ["F", "X", "C", "E", "T", "i", "Vd", "S", "Int32", "Cast", "OperatorAdd", "M"][choose(12) as usize]),
            _ => format!("{}(1, 2, 3)", ["F", "X", "C", "S", "T", "i", "Vd", "OperatorAdd", "Cast"][choose(9) as usize]),
        },
        9 => {
            let f = atom(INTR);
            if choose(2) == 0 {
                format!("{f}()")
            } else {
                format!("{f}({})", at(wide))
            }
        }
        10 => {
            let f = atom(INTR);
            let a = at(false);
            format!("{f}({a}, {})", if wide { at(false) } else { ["i", "null", "c"][choose(3) as usize].into() })
        }
        11 => {
            let f = ["IntEnum", "FromVariant", "Cast", "F", "ToVariant", "X", "ArraySize"][choose(7) as usize];
            let t = atom(TYPES);
            format!("{f}<{t}>({})", ["", "i", "v", "null", "i, i"][choose(5) as usize])
        }
        12 => match choose(4) {
            0 => format!("[{}]", at(true)),
            1 => {
                let a = at(false);
                format!("[{a}, {}]", at(false))
            }
            2 => format!("s\"a\\({})b\"", at(true)),
            _ => format!("new {}({})", atom(TYPES).split('<').next().unwrap(), ["", "1", "null, null", "1, 2, 3"][choose(4) as usize]),
        },
        _ => {
            let f = atom(INTR);
            format!("{f}({}, i, 1{})", at(false), ["", ", 2"][choose(2) as usize])
        }
    }
}

const PARAMS: &str = "i: Int32, b: Bool, s: String, c: ref<C>, w: wref<C>, st: S, e: E, v: Variant, a: array<Int32>, sr: script_ref<String>, ac: array<ref<C>>, out f: Float";

fn wrap(kind: u64, body: &str) -> String {
    match kind {
        0 => format!("class Z extends C {{ func T({PARAMS}) -> Int32 {{ {body} return 1; }} }}"),
        1 => format!("func T({PARAMS}) {{ {body} }}"),
        _ => format!("class Z extends C {{ static func T({PARAMS}) -> ref<C> {{ {body} return null; }} }}"),
    }
}

/// p0: forms, p1: wide operands, p2: contexts, p3: kind of function, p4: no root class
pub fn h_ctot_expr() {
    let mut w = game(param(4) == 0);
    let e = expr(param(0), param(1) == 1);
    let cs: Vec<u64> = (0..10).filter(|k| param(2) >> k & 1 == 1).collect();
    let body = match cs[choose(cs.len() as u64) as usize] {
        0 => format!("{e};"),
        1 => format!("let x = {e};"),
        2 => format!("let x: Int32 = {e};"),
        3 => format!("let x: ref<C> = {e};"),
        4 => format!("if {e} {{ }}"),
        5 => format!("for x in {e} {{ F(x); }}"),
        6 => format!("switch {e} {{ case {e}: break; default: }}"),
        7 => format!("return {e};"),
        8 => format!("{e} = 1;"),
        _ => format!("while {e} {{ let y: Variant = {e}; }}"),
    };
    total(&mut w.p, &wrap(param(3), &body));
}

const STMTS: &[&str] = &[
    "", "break;", "return;", "return 1;", "let x;", "let x: Int32;", "let x: X;", "let x = x;", "let i = 1;", "let x = 1; let x = s;", "let x: Void;", "let x = Vd();", "let x = null;", "let x = [];", "let x = C;", "let x: array<Int32> = [];",
    "let x: ref<X>;", "let x: array;", "let x = T;", "let x = super;", "x = 1;", "1 = 1;", "i = null;", "this = c;", "null = 1;", "switch i { }", "switch i { default: }", "switch i { case 1: }", "switch i { case s: break; }", "switch null { case null: break; }",
    "switch i { case 1: case 2: break; default: break; }", "for x in a { break; }", "for i in a { }", "for x in i { }", "for x in [] { }", "for x in ac { x.M(1); }", "while true { }", "while i { }", "if b { return 1; } else { return; }", "if b { let x = 1; } x;",
    "C.f = 1;", "c.f = null;", "c.k = 1.0;", "st.a = 2;", "E.A = 1;", "a[0] = null;", "a[s] = 1;", "F(1) = 2;", "new S(1).a = 1;", "new C().f = 1;", "T(i, b, s, c, w, st, e, v, a, sr, ac, f);", "wrappedMethod(1);", "this.f = 1;", "super.f = 1;", "f = 1;",
    "let x: script_ref<String> = s;", "let x: wref<C> = c;", "let x: ref<C> = w;", "let x: ref<D> = c as D;", "let x: E = IntEnum(i);", "let x: C = FromVariant(v);", "let x: Int32 = Cast(1.5);", "let x: String = Cast(1);", "let x: ref<C> = new D();", "let x: D = new D();",
    "ArrayPush(ac, null);", "ArrayPush(ac, new D());", "ArrayPush(a, s);", "c?.f;", "let x = [[1], []];", "let x = [null, c];", "let x = [c, w];", "let x: array<wref<C>> = [c];", "let x = b ? null : null;", "let x = i < 1 ? a : [];", "E;", "C;", "i;", "s\"\\(c) \\(null)\";", "let x = s\"\\(Vd())\";",
];

/// p0: number of statements, p1: kind of function
pub fn h_ctot_stmt() {
    let mut w = game(true);
    let n = param(0);
    let mut body = String::new();
    for _ in 0..n {
        let s = STMTS[choose(STMTS.len() as u64) as usize];
        body += s;
    }
    let b = match choose(4) {
        0 => body,
        1 => format!("if b {{ {body} }} else {{ {body} }}"),
        2 => format!("switch i {{ case 0: {body} case 1: {body} default: {body} }}"),
        _ => format!("while b {{ {body} }}"),
    };
    total(&mut w.p, &wrap(param(1), &b));
}

pub const DECLS: &[&str] = &[
    "class Y extends Y { }", "class Y extends Z { } class Z extends Y { }", "class Y extends S { }", "class Y extends E { }", "class Y extends Int32 { }", "class Y extends X { }", "class Y extends D { func M(x: Int32) -> Int32 = 1; }", "class C { }", "class E { }", "class Int32 { }", "class Y { let f: Y; }",
    "class Y { let f: array<ref<Y>>; }", "struct Y { let f: Y; }", "class Y { let f: X; }", "class Y { let f: Void; }", "class Y { let f: Int32 = 1; }", "class Y { let f: Int32 = null; }", "class Y { let f: Int32 = X; }", "class Y { let f: E = E.A; }", "class Y { let f: E = E.X; }", "class Y { let f: E = X.A; }",
    "class Y { let f: array<Int32> = [1]; }", "class Y { let f: array<Int32> = []; }", "class Y { let f: Int32 = 1 + 1; }", "class Y { let f: ref<Y> = null; }", "class Y { let f: ref<Y> = this; }", "class Y { let f: String = s\"\\(1)\"; }", "class Y { let f: CName = n\"a\"; }", "class Y { let f: Float = 1; }",
    "class Y { let f: E = (E).A; }", "class Y { let f: Int32 = C.f; }", "class Y { let f: Int32 = C.SM; }", "class Y { let f: X = 1; }", "class Y { let f: Int32; let f: Int32; }", "class Y { func G(); }", "class Y { native func G(); }", "native class Y { native func G(); native let f: Int32; }", "native class Y { native func G() { } }", "abstract class Y { func G() -> Int32; }",
    "importonly class Y { }", "class Y { persistent let f: String; persistent let g: array<Variant>; }", "class Y { native let f: Int32; }", "class Y { func G(x: X) -> X { return x; } }", "class Y { func G(x: Int32, x: Int32) { x; } }", "class Y { func G() { } func G() { } }", "class Y { func G() -> Int32 { } }", "class Y { func G() -> Void { return 1; } }", "class Y { func f() { } let f: Int32; }",
    "struct Y { func G() { } }", "struct Y { static func G() -> Y { return new Y(); } }", "struct Y { let a: Int32; let b: String; } func G() -> Y { return new Y(1, \"\"); }", "enum Y { }", "enum Y { A = 1, A = 1 }", "enum Y { A = 1, B = 1 } func G() { Y.A; Y.B; }", "enum E { X = 2 }", "enum C { X = 2 }", "let x: Int32;", "let x: Int32 = 1;", "func C() { }", "func F(x: Int32) -> Int32 { return x; }", "func Y();", "native func Y();", "native func Y() { }",
    "func Y() -> X = 1;", "func Y() = 1;", "func Y() -> Int32 = s;", "func Y(opt x: Int32, y: Int32) { Y(); Y(1); Y(1, 2); Y(1, 2, 3); }", "func Y(out x: Int32) { Y(x); Y(1); Y(null); }", "func Y(x: Void) { }", "func Y() -> array<X> { }", "func Y() -> array<ref<C>> = [];", "func Y() -> script_ref<Int32> { }", "func OperatorAdd(x: C, y: ref<C>) -> C { return x + y; }", "func OperatorAdd() { }", "func Cast(x: Int32) -> C { return Cast(x); }", "func Cast(x: ref<C>) -> Int32 { return 1; }", "cb func Y() { }", "static func Y() { this; }", "exec func Y(x: Int32) { }", "quest func Y() { }",
    "@wrapMethod(C) func M(x: Int32) -> Int32 { return wrappedMethod(x); }", "@wrapMethod(C) func M(x: Int32) -> Int32 { return wrappedMethod(); }", "@wrapMethod(C) func M(x: Int32) { }", "@wrapMethod(C) func M() { }", "@wrapMethod(C) func SM() -> Int32 { return wrappedMethod(); }", "@wrapMethod(C) static func SM() -> Int32 { return wrappedMethod(); }", "@wrapMethod(C) func X() { }", "@wrapMethod(X) func M() { }", "@wrapMethod(E) func M() { }", "@wrapMethod(S) static func SM() -> Int32 = 2;",
    "@wrapMethod() func M() { }", "@wrapMethod(1) func M() { }", "@wrapMethod(D) func M(x: String) -> Int32 = 1;", "@wrapMethod(D) func M(x: Int32) -> Int32 = 1;", "@wrapMethod(C) native func M(x: Int32) -> Int32;", "@wrapMethod(C) func M(x: Int32) -> Int32;", "@wrapMethod(C) cb func K() { let x = 1; F(x); wrappedMethod(); }", "@wrapMethod(C) func O(opt x: Int32) { wrappedMethod(x); }", "@wrapMethod(C) func Q(out x: Int32) { wrappedMethod(x); }", "@wrapMethod(C) func M(x: String) -> Int32 { let a = [1]; for x in a { } return wrappedMethod(x); }",
    "@replaceMethod(C) func M(x: Int32) -> Int32 { return 2; }", "@replaceMethod(C) func M(x: Int32) -> Int32;", "@replaceMethod(C) func X() { }", "@replaceMethod(X) func M() { }", "@replaceMethod(C) static func M(x: Int32) -> Int32 = 2;", "@replaceMethod(C) func M(x: Int32) -> String = \"\";", "@replaceMethod() func M() { }", "@replaceMethod(C) func SM() -> Int32 = 5;", "@replaceMethod(S) static func SM() -> Int32 = 5;", "@replaceMethod(E) func SM() -> Int32 = 5;", "@replaceMethod(C, D) func O(opt x: Int32) { }",
    "@replaceGlobal() func F(x: Int32) -> Int32 = x;", "@replaceGlobal() func Vd() { }", "@replaceGlobal(C) func X() { }", "@replaceGlobal() func C() { }", "@replaceGlobal() func F() { }", "@replaceGlobal() native func Vd();", "@replaceGlobal() func Vd();",
    "@addMethod(C) func N(x: Int32) -> Int32 { return this.f; }", "@addMethod(C) func M(x: Int32) -> Int32 = 3;", "@addMethod(D) func O(opt x: Int32) { super.O(x); }", "@addMethod(D) func M(x: String) -> Int32 = 3;", "@addMethod(S) static func N() { }", "@addMethod(S) func N() { this.a; }", "@addMethod(X) func N() { }", "@addMethod(E) func N() { }", "@addMethod() func N() { }", "@addMethod(C) native func N();", "@addMethod(C) func N();", "@addMethod(C.M) func N() { }",
    "@addField(C) let n: Int32;", "@addField(C) let f: Int32;", "@addField(D) let f: Int32;", "@addField(S) let n: Int32;", "@addField(X) let n: Int32;", "@addField(E) let n: Int32;", "@addField() let n: Int32;", "@addField(C) let n: X;", "@addField(C) let n: Int32 = 1;", "@addField(C) native let n: Int32;", "@addField(C) @runtimeProperty(\"a\", \"b\") let n: Int32;", "@addField(C) @runtimeProperty(\"a\") let n: Int32;", "@addField(C) func N() { }", "@addMethod(C) let n: Int32;", "@addMethod(C) class Y { }", "@wrapMethod(C) enum Y { A = 1 }",
    "@if(true) func N() { }", "@if(false) func N() { X(); }", "@if(1) func N() { }", "@if(X) func N() { }", "@if() func N() { }", "@if(ModuleExists(\"m\")) func N() { }", "@if(!ModuleExists(\"m\") && true || false) func N() { }", "@if(ModuleExists(1)) func N() { }", "@if(true ? false : 1) func N() { }", "class Y { @if(1 + 1) func N() { } @if(false) let n: X; }", "@if(true && 1) import m.*",
    "module m class Y { } func N() { new Y(); }", "module m.n import a.b public func N() { }", "module m import C", "module m import X.*", "module m import X.{A, B}", "module m class C { func G() { new C(); } }", "module m @wrapMethod(C) func M(x: Int32) -> Int32 = wrappedMethod(x);", "module m @addMethod(C) func N() { }", "module m @addField(C) let n: m;", "module m public enum E { A = 3 } func G() -> E = E.A;", "module m @replaceGlobal() func Vd() { }", "import X", "import C", "import C.*", "import m.{}", "module m func Vd() { Vd(); }",
    "class Y { private func G() { } } func H2(y: ref<Y>) { y.G(); }", "class Y { protected let f: Int32; } func H2(y: ref<Y>) { y.f; }", "func G<T>() { }", "class Y extends IScriptable { }", "class IScriptable { }", "class IScriptable extends C { }", "final class Y { } class Z extends Y { }", "@runtimeProperty(\"a\", \"b\") class Y { @runtimeProperty(\"a\", \"b\") @runtimeProperty(n\"a\", \"b\") let f: Int32; }",
];

/// p0: index range of the declarations, p1: end, p2: no root class
pub fn h_ctot_decl() {
    let mut w = game(param(2) == 0);
    let n = DECLS.len() as u64;
    let d = DECLS[choose(n) as usize];
    // a function using what may have been declared
    let u = [
        "",
        " func U(c: ref<C>, y: ref<Y>, n: Y) -> ref<Y> { c.M(1); y.f; y.G(); n.f; Y(); Vd(); F(1); Y.A; return y; }",
        " func U(c: ref<C>, d: ref<D>) { c.N(); d.M(\"\"); c.n; C.SM(); S.SM(); E.A; let y: ref<Y> = new Y(); c = y; }",
        " class V extends Y { func G() { super.G(); this.f; } } func U(v: ref<V>) -> ref<C> { return v; }",
        " @wrapMethod(C) func M(x: Int32) -> Int32 { return wrappedMethod(x) + 1; } func U(v: ref<C>) -> Int32 = v.M(1);",
    ][choose(5) as usize];
    total(&mut w.p, &format!("{d}{u}"));
}

/// two declarations together
pub fn h_ctot_pair() {
    let mut w = game(true);
    let lo = param(0);
    let d = DECLS[(lo + choose(param(1) - lo)) as usize];
    let e = DECLS[choose(DECLS.len() as u64) as usize];
    assume(!e.starts_with("module") && !e.contains("import"));
    total(&mut w.p, &format!("{d} {e}"));
}

/// two changes of existing definitions.  p0: 1 as separate compilations
pub fn h_ctot_wrap() {
    let mut w = game(true);
    let a: Vec<&str> = DECLS.iter().copied().filter(|d| d.starts_with("@wrap") || d.starts_with("@replace") || d.starts_with("@add")).collect();
    let n = a.len() as u64;
    let (x, y) = (a[choose(n) as usize], a[choose(n) as usize]);
    if param(0) == 1 {
        total(&mut w.p, x);
        total(&mut w.p, y);
    } else {
        total(&mut w.p, &format!("{x} {y}"));
    }
}

/// arbitrary short texts; p0: length, p1: where
pub fn h_ctot_text() {
    let n = param(0) as usize;
    let mut b = [0u8; 16];
    for x in b.iter_mut().take(n) {
        *x = u8_();
        assume(*x < 128);
    }
    let t = String::from_utf8(b[..n].to_vec()).unwrap();
    let src = match param(1) {
        0 => t,
        1 => format!("func T() {{ {t} }}"),
        2 => format!("func T() = \"{t}\";"),
        4 => format!("func T() = \"\\u{{{t}}}\";"),
        5 => format!("func T() = {t};"),
        6 => format!("class T {{ {t} }}"),
        7 => format!("/*{t}"),
        8 => format!("@if({t}) func T() {{ }}"),
        _ => format!("func T() {{ s\"{t}\"; }}"),
    };
    cover(if parser::parse_str(&src).is_ok() { 1 } else { 2 });
}
