//! Source text means what it says: literals, operators, layout, positions.
use crate::sx::*;
use redscript::ast::*;
use redscript_compiler::parser::{self, *};
use redscript_compiler::source_map::Files;

harnesses! { h_parse_int, h_parse_float, h_parse_escape, h_parse_string, h_parse_ident, h_parse_ops, h_parse_post, h_parse_layout, h_parse_stmts, h_parse_decl, h_map_lookup, h_map_files }

fn module(s: &str) -> Option<SourceModule> {
    parser::parse_str(s).ok()
}

/// the expression a one-line function returns
fn expr(s: &str) -> Option<Expr<SourceAst>> {
    let mut m = module(&format!("func T() = {s};"))?;
    assert!(m.entries.len() == 1);
    match m.entries.pop() {
        Some(SourceEntry::Function(f)) => match f.body.unwrap().exprs.pop() {
            Some(Expr::Return(Some(e), _)) => Some(*e),
            _ => None,
        },
        _ => None,
    }
}

fn digits(n: usize) -> (String, Vec<u64>) {
    let mut b = vec![];
    let mut v = vec![];
    for _ in 0..n {
        let c = u8_();
        assume(c >= b'0' && c <= b'9');
        b.push(c);
        v.push((c - b'0') as u64);
    }
    (String::from_utf8(b).unwrap(), v)
}

/// p0: arbitrary digits at the end, p1: 0 int 1 long 2 uint 3 ulong, p2: negative
pub fn h_parse_int() {
    let n = param(0) as usize;
    let neg = param(2) == 1;
    let limit: u128 = match (param(1), neg) {
        (0, false) => i32::MAX as u128,
        (0, true) => 1 << 31,
        (1, false) => i64::MAX as u128,
        (1, true) => 1 << 63,
        (2, _) => u32::MAX as u128,
        _ => u64::MAX as u128,
    };
    let cut = 10u128.pow(n as u32);
    let pre = match choose(9) {
        0 => String::new(),
        1 => "0".into(),
        2 => "7".into(),
        3 => "000000000000000000000000".into(),
        4 => format!("{}", limit / cut),
        5 => format!("{}", limit / cut + 1),
        6 => format!("{}", limit / cut - 1),
        7 => format!("{}", limit / cut * 10),
        _ => "99999999999999999999999999999999999999999".into(),
    };
    let (t, d) = digits(n);
    let low = d.iter().fold(0u64, |a, x| a * 10 + x);
    let high: u128 = if pre.is_empty() { 0 } else { pre.parse().unwrap_or(u128::MAX / cut) };
    // high * cut + low <= limit, without overflow
    let fits = high < limit / cut || high == limit / cut && low <= (limit % cut) as u64;
    let val = (high as u64).wrapping_mul(cut as u64).wrapping_add(low);
    let text = format!("{}{pre}{t}{}", if neg { "-" } else { "" }, ["", "l", "u", "ul"][param(1) as usize]);
    let e = expr(&text);
    let want = if neg { (val as i64).wrapping_neg() } else { val as i64 };
    match e {
        Some(Expr::Constant(c, _)) => {
            assert!(fits && (!neg || param(1) < 2 || val == 0), "a number that is out of range is accepted");
            cover(1);
            let got = match (param(1), c) {
                (0, Constant::I32(x)) => x as i64,
                (1, Constant::I64(x)) => x,
                (2, Constant::U32(x)) => x as i64,
                (3, Constant::U64(x)) => x as i64,
                _ => panic!("a number has the wrong type"),
            };
            assert!(got == want, "a number has the wrong value");
        }
        Some(Expr::UnOp(e, UnOp::Neg, _)) => {
            // a minus sign before a number that is not in range with it
            cover(2);
            assert!(neg, "a minus sign appears");
            match (param(1), *e) {
                (0, Expr::Constant(Constant::I32(x), _)) => assert!(x as i64 as u64 == val && fits),
                (1, Expr::Constant(Constant::I64(x), _)) => assert!(x as u64 == val && fits),
                (2, Expr::Constant(Constant::U32(x), _)) => assert!(x as u64 == val && fits),
                (3, Expr::Constant(Constant::U64(x), _)) => assert!(x == val && fits),
                _ => panic!("a negative number is not a constant"),
            }
        }
        None => {
            assert!(!fits, "a number is not accepted");
            cover(3);
        }
        _ => panic!("a number is not a constant"),
    }
}

/// p0: digits before, p1: after the point, p2: 0 float 1 double
pub fn h_parse_float() {
    let some = |k: u64| {
        let v: Vec<u64> = (0..k).map(|_| choose(10)).collect();
        (v.iter().map(|d| (b'0' + *d as u8) as char).collect::<String>(), v)
    };
    let (a, x) = some(param(0));
    let (b, y) = some(param(1));
    let mut n = 0u64;
    let mut d = 1u64;
    for v in x.iter().chain(&y) {
        n = n * 10 + v;
    }
    for _ in &y {
        d *= 10;
    }
    let dot = if y.is_empty() { "" } else { "." };
    let e = expr(&format!("{a}{dot}{b}{}", if param(2) == 1 { "d" } else { "" }));
    let want = n as f64 / d as f64;
    match e {
        Some(Expr::Constant(Constant::F32(v), _)) if param(2) == 0 => assert!(v == want as f32, "a float has the wrong value"),
        Some(Expr::Constant(Constant::F64(v), _)) if param(2) == 1 => assert!(v == want, "a double has the wrong value"),
        _ => panic!("a floating point literal is not one"),
    }
    cover(1);
}

fn text_of(e: Option<Expr<SourceAst>>) -> Option<String> {
    match e {
        Some(Expr::Constant(Constant::String(_, s), _)) => Some(s.as_ref().to_owned()),
        None => None,
        _ => panic!("a string is not a string"),
    }
}

/// p0: hexadecimal digits
pub fn h_parse_escape() {
    let n = param(0) as usize;
    let mut t = String::new();
    let mut v = 0u32;
    for _ in 0..n {
        let c = u8_();
        assume(c >= b'0' && c <= b'9' || c >= b'a' && c <= b'f' || c >= b'A' && c <= b'F');
        let d = if c <= b'9' {
            c - b'0'
        } else if c >= b'a' {
            c - b'a' + 10
        } else {
            c - b'A' + 10
        };
        v = v << 4 | d as u32;
        unsafe { t.as_mut_vec().push(c) };
    }
    let valid = v < 0xd800 || v >= 0xe000 && v < 0x110000;
    match text_of(expr(&format!("\"<\\u{{{t}}}>\""))) {
        Some(s) => {
            cover(1);
            assert!(valid, "an escape that is no code point is accepted");
            let b = s.as_bytes();
            assert!(b[0] == b'<' && b[b.len() - 1] == b'>', "the text around an escape changes");
            // decoded by hand
            let b = &b[1..b.len() - 1];
            let got = match b.len() {
                1 => b[0] as u32,
                2 => ((b[0] & 0x1f) as u32) << 6 | (b[1] & 0x3f) as u32,
                3 => ((b[0] & 0xf) as u32) << 12 | ((b[1] & 0x3f) as u32) << 6 | (b[2] & 0x3f) as u32,
                _ => ((b[0] & 7) as u32) << 18 | ((b[1] & 0x3f) as u32) << 12 | ((b[2] & 0x3f) as u32) << 6 | (b[3] & 0x3f) as u32,
            };
            assert!(got == v, "an escape stands for another character");
        }
        None => {
            cover(2);
            assert!(!valid || n == 0, "a valid escape is rejected");
        }
    }
}

/// p0: characters, p1: kind of literal
pub fn h_parse_string() {
    let n = param(0) as usize;
    let mut t = String::new();
    let mut want = Some(vec![]);
    let mut esc = false;
    for _ in 0..n {
        let c = u8_();
        assume(c < 128 && c != b'"' && c != b'(' && c != b'u');
        unsafe { t.as_mut_vec().push(c) };
        if esc {
            esc = false;
            let r = match c {
                b'n' => b'\n',
                b'r' => b'\r',
                b't' => b'\t',
                b'\'' => b'\'',
                b'\\' => b'\\',
                _ => {
                    want = None;
                    break;
                }
            };
            if let Some(w) = want.as_mut() {
                w.push(r)
            }
        } else if c == b'\\' {
            esc = true;
        } else if let Some(w) = want.as_mut() {
            w.push(c)
        }
    }
    if esc {
        want = None;
    }
    let p = ["", "n", "r", "t", "s"][param(1) as usize];
    let e = expr(&format!("{p}\"{t}\""));
    let got = match e {
        None => None,
        Some(Expr::Constant(Constant::String(k, s), _)) => {
            assert!(matches!((param(1), k), (0, Literal::String) | (1, Literal::Name) | (2, Literal::Resource) | (3, Literal::TweakDbId)), "a literal has the wrong kind");
            Some(s)
        }
        Some(Expr::InterpolatedString(s, v, _)) if param(1) == 4 => {
            assert!(v.is_empty());
            Some(s)
        }
        _ => panic!("a string is not a string"),
    };
    match (got, want) {
        (Some(g), Some(w)) => {
            cover(1);
            assert!(g.len() == w.len() && g.bytes().zip(w).all(|(x, y)| x == y), "a string literal has another text");
        }
        (None, None) => cover(2),
        (Some(_), None) => panic!("an invalid escape is accepted"),
        (None, Some(_)) => panic!("a valid string is rejected"),
    }
}

const KEYWORDS: &[&str] = &["true", "false", "null", "this", "super", "new", "return", "let", "if", "while", "for", "switch", "break", "as", "in", "else", "case", "default"];

/// identifiers are whole words: a keyword followed by more letters is a name.  p0: characters
pub fn h_parse_ident() {
    let k = KEYWORDS[choose(KEYWORDS.len() as u64) as usize];
    let mut t = String::from(k);
    for _ in 0..param(0) {
        let c = u8_();
        assume(c >= b'a' && c <= b'z' || c >= b'A' && c <= b'Z' || c >= b'0' && c <= b'9' || c == b'_');
        unsafe { t.as_mut_vec().push(c) };
    }
    match expr(&t) {
        Some(Expr::Ident(n, _)) => assert!(n.as_ref() == t.as_str(), "an identifier is cut"),
        _ => panic!("an identifier that starts like a keyword is not an identifier"),
    }
    let m = module(&format!("func T() {{ {t}; {t} = 1; {t}(1); let {t}x = 1; }}")).expect("an identifier that starts like a keyword is rejected");
    match &m.entries[0] {
        SourceEntry::Function(f) => {
            let b = &f.body.as_ref().unwrap().exprs;
            assert!(matches!(&b[..], [Expr::Ident(..), Expr::Assign(..), Expr::Call(..), Expr::Declare(..)]), "an identifier that starts like a keyword is not an identifier");
        }
        _ => panic!(),
    }
    cover(1);
}

pub fn shape(e: &Expr<SourceAst>, o: &mut String) {
    let list = |v: &[Expr<SourceAst>], o: &mut String| {
        for x in v {
            shape(x, o);
            o.push(',');
        }
    };
    let block = |v: &Seq<SourceAst>, o: &mut String| {
        o.push('{');
        for x in &v.exprs {
            shape(x, o);
            o.push(';');
        }
        o.push('}');
    };
    match e {
        Expr::Ident(i, _) => *o += i.as_ref(),
        Expr::Constant(c, _) => *o += &format!("{c:?}"),
        Expr::ArrayLit(v, _, _) => {
            o.push('[');
            list(v, o);
            o.push(']');
        }
        Expr::InterpolatedString(p, v, _) => {
            *o += &format!("s{p:?}");
            for (e, s) in v {
                o.push('(');
                shape(e, o);
                *o += &format!("){s:?}");
            }
        }
        Expr::Declare(n, t, v, _) => {
            *o += &format!("let {n}:{}=", t.as_ref().map_or(String::new(), |t| t.pretty().to_string()));
            if let Some(v) = v {
                shape(v, o)
            }
        }
        Expr::Cast(t, e, _) => {
            *o += "(as ";
            shape(e, o);
            *o += &format!(" {})", t.pretty());
        }
        Expr::Assign(a, b, _) => {
            *o += "(= ";
            shape(a, o);
            o.push(' ');
            shape(b, o);
            o.push(')');
        }
        Expr::Call(f, t, a, _) => {
            *o += &format!("{f}<");
            for t in t.iter() {
                *o += &format!("{},", t.pretty());
            }
            *o += ">(";
            list(a, o);
            o.push(')');
        }
        Expr::MethodCall(r, f, a, _) => {
            *o += "(call ";
            shape(r, o);
            *o += &format!(" {f} ");
            list(a, o);
            o.push(')');
        }
        Expr::Member(r, f, _) => {
            *o += "(. ";
            shape(r, o);
            *o += &format!(" {f})");
        }
        Expr::ArrayElem(a, b, _) => {
            *o += "(at ";
            shape(a, o);
            o.push(' ');
            shape(b, o);
            o.push(')');
        }
        Expr::New(t, a, _) => {
            *o += &format!("(new {} ", t.pretty());
            list(a, o);
            o.push(')');
        }
        Expr::Return(v, _) => {
            *o += "return ";
            if let Some(v) = v {
                shape(v, o)
            }
        }
        Expr::Seq(s) => block(s, o),
        Expr::Switch(m, c, d, _) => {
            *o += "switch ";
            shape(m, o);
            for c in c {
                *o += " case ";
                shape(&c.matcher, o);
                block(&c.body, o);
            }
            if let Some(d) = d {
                *o += " default ";
                block(d, o);
            }
        }
        Expr::Goto(..) => *o += "goto",
        Expr::If(c, a, b, _) => {
            *o += "if ";
            shape(c, o);
            block(a, o);
            if let Some(b) = b {
                *o += "else";
                block(b, o);
            }
        }
        Expr::Conditional(a, b, c, _) => {
            *o += "(? ";
            shape(a, o);
            o.push(' ');
            shape(b, o);
            o.push(' ');
            shape(c, o);
            o.push(')');
        }
        Expr::While(c, b, _) => {
            *o += "while ";
            shape(c, o);
            block(b, o);
        }
        Expr::ForIn(n, a, b, _) => {
            *o += &format!("for {n} ");
            shape(a, o);
            block(b, o);
        }
        Expr::BinOp(a, b, op, _) => {
            *o += &format!("({op} ");
            shape(a, o);
            o.push(' ');
            shape(b, o);
            o.push(')');
        }
        Expr::UnOp(e, op, _) => {
            *o += &format!("({op} ");
            shape(e, o);
            o.push(')');
        }
        Expr::This(_) => *o += "this",
        Expr::Super(_) => *o += "super",
        Expr::Break(_) => *o += "break",
        Expr::Null(_) => *o += "null",
    }
}

fn shown(e: &Expr<SourceAst>) -> String {
    let mut o = String::new();
    shape(e, &mut o);
    o
}

/// the binary operators: text, tree name, level (higher binds tighter), right associative
const OPS: &[(&str, &str, u32, bool)] = &[
    ("=", "=", 2, true),
    ("+=", "OperatorAssignAdd", 2, true),
    ("-=", "OperatorAssignSubtract", 2, true),
    ("*=", "OperatorAssignMultiply", 2, true),
    ("/=", "OperatorAssignDivide", 2, true),
    ("|=", "OperatorAssignOr", 2, true),
    ("&=", "OperatorAssignAnd", 2, true),
    ("||", "OperatorLogicOr", 3, false),
    ("&&", "OperatorLogicAnd", 4, false),
    ("|", "OperatorOr", 5, false),
    ("^", "OperatorXor", 6, false),
    ("&", "OperatorAnd", 7, false),
    ("==", "OperatorEqual", 8, false),
    ("!=", "OperatorNotEqual", 8, false),
    ("<", "OperatorLess", 9, false),
    ("<=", "OperatorLessEqual", 9, false),
    (">", "OperatorGreater", 9, false),
    (">=", "OperatorGreaterEqual", 9, false),
    ("+", "OperatorAdd", 10, false),
    ("-", "OperatorSubtract", 10, false),
    ("*", "OperatorMultiply", 11, false),
    ("/", "OperatorDivide", 11, false),
    ("%", "OperatorModulo", 11, false),
];

/// the tree of a chain of operands and operators, by splitting at the loosest operator
fn chain(atoms: &[String], ops: &[usize]) -> String {
    if ops.is_empty() {
        return atoms[0].clone();
    }
    let lo = ops.iter().map(|o| OPS[*o].2).min().unwrap();
    let at = |i: &usize| OPS[ops[*i]].2 == lo;
    let right = ops.iter().any(|o| OPS[*o].2 == lo && OPS[*o].3);
    let i = if right { (0..ops.len()).find(at) } else { (0..ops.len()).rev().find(at) }.unwrap();
    format!("({} {} {})", OPS[ops[i]].1, chain(&atoms[..=i], &ops[..i]), chain(&atoms[i + 1..], &ops[i + 1..]))
}

/// p0: operators, p1: spaces (0 none, 1 one), p2: prefix operators on the operands
pub fn h_parse_ops() {
    let n = param(0) as usize;
    let sp = if param(1) == 1 { " " } else { "" };
    let mut atoms = vec![];
    let mut ops = vec![];
    let mut t = String::new();
    for i in 0..=n {
        if i > 0 {
            let o = choose(OPS.len() as u64) as usize;
            ops.push(o);
            t += &format!("{sp}{}{sp}", OPS[o].0);
        }
        let v = ["a", "b", "c", "d"][i];
        if param(2) == 1 {
            let (p, x) = [("", v.to_string()), ("!", format!("(OperatorLogicNot {v})")), ("-", format!("(OperatorNeg {v})")), ("~", format!("(OperatorBitNot {v})"))][choose(4) as usize].clone();
            t += p;
            t += v;
            atoms.push(x);
        } else {
            t += v;
            atoms.push(v.into());
        }
    }
    let e = expr(&t).expect("an expression is rejected");
    assert!(shown(&e) == chain(&atoms, &ops), "operators bind differently");
    cover(1);
}

/// postfix forms, conditionals and casts next to operators
pub fn h_parse_post() {
    let post = [("a.m", "(. a m)"), ("a.m(b, c)", "(call a m b,c,)"), ("a[b]", "(at a b)"), ("a as B", "(as a B)"), ("f(a)", "f<>(a,)"), ("f<B>(a)", "f<B,>(a,)"), ("new B(a)", "(new B a,)"), ("(a)", "a"), ("[a, b]", "[a,b,]"), ("this.m", "(. this m)"), ("super.m()", "(call super m )"), ("a as array<ref<B>>", "(as a array<ref<B>>)"), ("s\"x\\(a)y\"", "s\"x\"(a)\"y\""), ("null", "null")];
    let (t, w) = post[choose(post.len() as u64) as usize];
    let (text, want) = match choose(14) {
        0 => (format!("-{t}"), format!("(OperatorNeg {w})")),
        1 => (format!("!{t}"), format!("(OperatorLogicNot {w})")),
        2 => {
            let o = choose(OPS.len() as u64) as usize;
            (format!("{t} {} d", OPS[o].0), format!("({} {w} d)", OPS[o].1))
        }
        3 => {
            let o = choose(OPS.len() as u64) as usize;
            (format!("d {} {t}", OPS[o].0), format!("({} d {w})", OPS[o].1))
        }
        4 => (format!("{t} ? {t} : {t}"), format!("(? {w} {w} {w})")),
        5 => (format!("a ? b : {t} ? c : d"), format!("(? a b (? {w} c d))")),
        6 => (format!("a ? {t} ? b : c : d"), format!("(? a (? {w} b c) d)")),
        7 => {
            let o = choose(OPS.len() as u64) as usize;
            (format!("{t} {} a ? b : c", OPS[o].0), if OPS[o].2 == 2 { return } else { format!("(? ({} {w} a) b c)", OPS[o].1) })
        }
        8 => (format!("({t} + a) * b"), format!("(OperatorMultiply (OperatorAdd {w} a) b)")),
        9 => (format!("a - ({t} - b)"), format!("(OperatorSubtract a (OperatorSubtract {w} b))")),
        10 => (format!("f({t}, {t})"), format!("f<>({w},{w},)")),
        11 => (format!("({t}).x"), format!("(. {w} x)")),
        12 => (format!("({t})[i].g(j) as C"), format!("(as (call (at {w} i) g j,) C)")),
        _ => (format!("[{t}, {t}]"), format!("[{w},{w},]")),
    };
    let e = expr(&text).expect("an expression is rejected");
    assert!(shown(&e) == want, "an expression is read differently");
    cover(1);
}

const LAYOUT: &[&str] = &["module", "m.n", "import", "a.b.*", "import", "c.{", "D", ",", "E", "}", "@if", "(", "true", ")", "public", "class", "A", "extends", "B", "{", "private", "let", "f", ":", "array<", "Int32", ">", "=", "1", ";", "func", "g", "(", "opt", "x", ":", "Int32", ",", "y", ":", "B", ")", "->", "Bool", "{", "if", "x", ">", "1", "{", "return", "true", ";", "}", "else", "{", "let", "z", "=", "x", "?", "y", ":", "new", "C", "(", ")", ";", "}", "switch", "x", "{", "case", "1", ":", "break", ";", "default", ":", "z", "+=", "s", ";", "}", "for", "i", "in", "a", "{", "i", "[", "1", "]", ".", "f", "(", "x", "as", "B", ")", ";", "}", "return", "!", "x", ";", "}", "}", "enum", "E", "{", "F", "=", "1", ",", "G", "=", "-2", "}"];

/// white space and comments between tokens do not matter.  p0: first, p1: last place of the symbolic separators
pub fn h_parse_layout() {
    let all = |sep: &dyn Fn(usize) -> &'static str| {
        let mut s = String::new();
        for (i, t) in LAYOUT.iter().enumerate() {
            s += sep(i);
            s += t;
        }
        s
    };
    let k = (param(0) + choose(param(1) - param(0))) as usize;
    let s = [" \n\t\r ", "/* x */", "// c\n", "/* a /* b */ ; */", " /**/ ", "//\n"][choose(6) as usize];
    let tight = |i: usize| {
        // no space where none is needed
        let w = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
        i > 0 && !(w(*LAYOUT[i - 1].as_bytes().last().unwrap()) && w(LAYOUT[i].as_bytes()[0])) && LAYOUT[i - 1] != "@if"
    };
    let base = parser::parse_str(&all(&|_| " ")).map_err(|e| if !symbolic() { eprintln!("{e}: {}", &all(&|_| " ")[e.location.offset..]) }).ok().map(|m| strip(&m));
    let b = base.expect("the text is rejected");
    // `@if (` and `f (`: a separator is allowed everywhere between these tokens
    let got = module(&all(&|i| if i == k { s } else { " " })).map(|m| strip(&m));
    assert!(got.as_deref() == Some(b.as_str()), "white space or a comment changes the program");
    if k > 0 && tight(k) {
        let got = module(&all(&|i| if i == k { "" } else { " " })).map(|m| strip(&m));
        assert!(got.as_deref() == Some(b.as_str()), "leaving out white space changes the program");
    }
    cover(1);
}

/// debug text without positions
fn strip(m: &SourceModule) -> String {
    let mut o = String::new();
    if let Some(p) = &m.path {
        o += &format!("{};", p.render());
    }
    for i in &m.imports {
        o += &format!("{}{};", i.annotations().len(), cut(&format!("{i:?}")));
    }
    for e in &m.entries {
        o += &cut(&format!("{e:?}"));
    }
    o
}

/// removes "Span { low: Pos(..), high: Pos(..) }"
fn cut(s: &str) -> String {
    let mut o = String::new();
    for (i, p) in s.split("Span { ").enumerate() {
        if i == 0 {
            o += p
        } else {
            o += p.split_once('}').unwrap().1
        }
    }
    o
}

fn body(s: &str) -> Option<String> {
    let m = module(&format!("func T() {{ {s} }}"))?;
    match &m.entries[..] {
        [SourceEntry::Function(f)] => {
            let mut o = String::new();
            for e in &f.body.as_ref().unwrap().exprs {
                shape(e, &mut o);
                o.push(';');
            }
            Some(o)
        }
        _ => None,
    }
}

/// statements and their nesting.  p0: statements
pub fn h_parse_stmts() {
    fn st(d: u32) -> (String, String) {
        let blk = |d: u32| {
            if d == 0 || choose(2) == 0 {
                (String::new(), String::new())
            } else {
                let (t, w) = st(d - 1);
                (t, format!("{w};"))
            }
        };
        match choose(12) {
            0 => ("a;".into(), "a".into()),
            1 => ("return;".into(), "return ".into()),
            2 => ("return a + 1;".into(), "return (OperatorAdd a I32(1))".into()),
            3 => ("break;".into(), "break".into()),
            4 => ("let x = a;".into(), "let x:=a".into()),
            5 => ("let x: array<ref<A>>;".into(), "let x:array<ref<A>>=".into()),
            6 => {
                let (t, w) = blk(d);
                (format!("if a {{ {t} }}"), format!("if a{{{w}}}"))
            }
            7 => {
                let (t, w) = blk(d);
                (format!("if a {{ {t} }} else {{ {t} }}"), format!("if a{{{w}}}else{{{w}}}"))
            }
            8 => {
                let (t, w) = blk(d);
                (format!("if a {{ {t} }} else if b {{ }} else {{ {t} }};"), format!("if a{{{w}}}else{{if b{{}}else{{{w}}};}}"))
            }
            9 => {
                let (t, w) = blk(d);
                (format!("while a {{ {t} }}"), format!("while a{{{w}}}"))
            }
            10 => {
                let (t, w) = blk(d);
                (format!("for x in a {{ {t} }}"), format!("for x a{{{w}}}"))
            }
            _ => {
                let (t, w) = blk(d);
                if choose(2) == 0 {
                    (format!("switch a {{ case 1: {t} case b: default: {t} }}"), format!("switch a case I32(1){{{w}}} case b{{}} default {{{w}}}"))
                } else {
                    (format!("switch a {{ case 1: case b: {t} }};"), format!("switch a case I32(1){{}} case b{{{w}}}"))
                }
            }
        }
    }
    let mut t = String::new();
    let mut w = String::new();
    for _ in 0..param(0) {
        let (a, b) = st(1);
        t += &a;
        t.push(' ');
        w += &b;
        w.push(';');
    }
    assert!(body(&t).expect("a statement is rejected") == w, "a statement is read differently");
    cover(1);
}

/// declarations keep their qualifiers, names, types and bodies
pub fn h_parse_decl() {
    const Q: &[(&str, Qualifier)] = &[
        ("public", Qualifier::Public),
        ("protected", Qualifier::Protected),
        ("private", Qualifier::Private),
        ("abstract", Qualifier::Abstract),
        ("static", Qualifier::Static),
        ("final", Qualifier::Final),
        ("const", Qualifier::Const),
        ("native", Qualifier::Native),
        ("exec", Qualifier::Exec),
        ("cb", Qualifier::Callback),
        ("out", Qualifier::Out),
        ("opt", Qualifier::Optional),
        ("quest", Qualifier::Quest),
        ("importonly", Qualifier::ImportOnly),
        ("persistent", Qualifier::Persistent),
    ];
    let mut t = String::new();
    let mut q = vec![];
    for _ in 0..2 {
        let k = choose(16) as usize;
        if k < 15 {
            t += Q[k].0;
            t.push(' ');
            q.push(k);
        }
    }
    let k = choose(6);
    let src = match k {
        0 => format!("{t}func N() -> A {{ }}"),
        1 => format!("{t}class N extends B {{ {t}let f: A; {t}func g({t}x: A); }}"),
        2 => format!("{t}struct N {{ }}"),
        3 => format!("{t}enum N {{ A = 1, B = -2, }}"),
        4 => format!("{t}let N: A = 1;"),
        _ => format!("@addMethod(C) @wrapMethod(D) {t}func N() {{ }}"),
    };
    let m = module(&src).expect("a declaration is rejected");
    let same = |d: &Qualifiers| Q.iter().enumerate().for_each(|(i, x)| {
        let y = match &x.1 {
            Qualifier::Public => Qualifier::Public,
            Qualifier::Protected => Qualifier::Protected,
            Qualifier::Private => Qualifier::Private,
            Qualifier::Abstract => Qualifier::Abstract,
            Qualifier::Static => Qualifier::Static,
            Qualifier::Final => Qualifier::Final,
            Qualifier::Const => Qualifier::Const,
            Qualifier::Native => Qualifier::Native,
            Qualifier::Exec => Qualifier::Exec,
            Qualifier::Callback => Qualifier::Callback,
            Qualifier::Out => Qualifier::Out,
            Qualifier::Optional => Qualifier::Optional,
            Qualifier::Quest => Qualifier::Quest,
            Qualifier::ImportOnly => Qualifier::ImportOnly,
            Qualifier::Persistent => Qualifier::Persistent,
        };
        assert!(d.contain(y) == q.contains(&i), "a qualifier is lost or invented");
    });
    let decl = |d: &Declaration, n: &str| {
        same(&d.qualifiers);
        assert!(d.name.as_ref() == n, "a declaration has another name");
    };
    match (&m.entries[..], k) {
        ([SourceEntry::Function(f)], 0) => {
            decl(&f.declaration, "N");
            assert!(f.type_.as_ref().unwrap().pretty().as_ref() == "A" && f.body.is_some());
        }
        ([SourceEntry::Class(c)], 1) => {
            decl(&c.declaration, "N");
            assert!(c.base.as_ref().unwrap().as_ref() == "B");
            match &c.members[..] {
                [MemberSource::Field(f), MemberSource::Function(g)] => {
                    decl(&f.declaration, "f");
                    assert!(f.type_.pretty().as_ref() == "A" && f.default.is_none());
                    decl(&g.declaration, "g");
                    assert!(g.body.is_none() && g.parameters.len() == 1 && g.parameters[0].name.as_ref() == "x");
                    same(&g.parameters[0].qualifiers);
                }
                _ => panic!("the members of a class are read differently"),
            }
        }
        ([SourceEntry::Struct(c)], 2) => decl(&c.declaration, "N"),
        ([SourceEntry::Enum(e)], 3) => {
            decl(&e.declaration, "N");
            assert!(e.members.len() == 2 && e.members[0].value == 1 && e.members[1].value == -2 && e.members[1].name.as_ref() == "B");
        }
        ([SourceEntry::GlobalLet(l)], 4) => {
            decl(&l.declaration, "N");
            assert!(l.default.is_some());
        }
        ([SourceEntry::Function(f)], 5) => {
            decl(&f.declaration, "N");
            assert!(matches!(&f.declaration.annotations[..], [a, b] if a.kind == AnnotationKind::AddMethod && b.kind == AnnotationKind::WrapMethod && a.args.len() == 1));
        }
        _ => panic!("a declaration is read as something else"),
    }
    cover(1);
}

/// line and column of every position.  p0: length, p1: files
pub fn h_map_lookup() {
    let n = param(0) as usize;
    let mut files = Files::new();
    let mut texts: Vec<Vec<u8>> = vec![];
    for f in 0..param(1) {
        let mut b = vec![];
        let len = choose(n as u64 + 1) as usize;
        let mut i = 0;
        while i < len {
            match choose(3) {
                0 => b.push(b'\n'),
                1 => b.push(b'a' + f as u8),
                _ => b.extend("é".bytes()),
            }
            i += 1;
        }
        files.add(format!("f{f}").into(), String::from_utf8(b.clone()).unwrap());
        texts.push(b);
    }
    let pos = below(2 + texts.iter().map(|t| t.len() as u64 + 1).sum::<u64>()) as usize;
    let len = below(3) as usize;
    let mut at = 0;
    for (f, t) in texts.iter().enumerate() {
        // a position belongs to the file whose text it is in, its end included
        if pos >= at && pos + len <= at + t.len() {
            let (o, e) = (concretize((pos - at) as u64) as usize, concretize((pos - at + len) as u64) as usize);
            let s = std::str::from_utf8(t).unwrap();
            if !s.is_char_boundary(o) || !s.is_char_boundary(e) {
                return;
            }
            cover(1);
            let want = |o: usize| {
                let line = s[..o].matches('\n').count();
                let col = s[..o].rsplit('\n').next().unwrap().chars().count();
                (line, col)
            };
            let low = Pos::new(pos);
            let r = files.lookup(Span { low, high: low + len }).expect("a position has no file");
            assert!(r.file.path().to_str().unwrap() == format!("f{f}"), "a position belongs to another file");
            assert!((r.start.line, r.start.col) == want(o), "a position is reported at another line or column");
            assert!((r.end.line, r.end.col) == want(e), "the end of a range is reported at another line or column");
            let l = s.split('\n').nth(r.start.line).unwrap();
            assert!(r.enclosing_line().strip_suffix('\n').unwrap_or(r.enclosing_line()) == l, "the line of a position is another one");
            assert!(format!("{}", r) == format!("f{f}:{}:{}", want(o).0 + 1, want(o).1 + 1), "a location is shown differently");
            return;
        }
        at += t.len() + 1;
    }
}

/// expressions of several files are located in their file
pub fn h_map_files() {
    let mut files = Files::new();
    let pre = ["", "\n", "class X { }\n// é\n"];
    let k = choose(3) as usize;
    files.add("a".into(), pre[k].into());
    files.add("b".into(), format!("{}func T() {{ let x = é; }}", pre[choose(3) as usize]).replace('é', "a_b"));
    files.add("c".into(), pre[choose(3) as usize].into());
    for f in files.files() {
        let m = parse_file(f).unwrap();
        for e in &m.entries {
            let (s, d) = match e {
                SourceEntry::Function(f) => (f.span, &f.declaration),
                SourceEntry::Class(c) => (c.span, &c.declaration),
                _ => continue,
            };
            let t = f.source_slice(s);
            assert!(t.starts_with("func T") && t.ends_with('}') || t.starts_with("class X") && t.ends_with('}'), "the range of a declaration is another text");
            assert!(files.lookup(s).unwrap().file.path() == f.path(), "a declaration is located in another file");
            assert!(f.source_slice(d.span).ends_with(d.name.as_ref()), "the range of a declaration does not end with its name");
            if let SourceEntry::Function(g) = e {
                match &g.body.as_ref().unwrap().exprs[..] {
                    [Expr::Declare(_, _, Some(v), s)] => {
                        assert!(f.source_slice(*s) == "let x = a_b;" && f.source_slice(v.span()) == "a_b", "the range of an expression is another text");
                        cover(1);
                    }
                    _ => panic!(),
                }
            }
        }
    }
}
