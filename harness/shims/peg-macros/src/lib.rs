//! Stand-in for rust-peg's `parser!` (not available offline): compiles the grammar to recursive descent functions
//! with the semantics documented for rust-peg 0.8 (ordered choice, greedy repetition, precedence climbing).
use proc_macro::{Delimiter, Group, TokenStream, TokenTree};
use std::collections::HashMap;

#[derive(Debug)]
enum E {
    Lit(String),
    Pat(String),
    Call(String, Vec<Arg>),
    Method(String, String),
    Choice(Vec<E>),
    Seq(Vec<(Option<String>, E)>, Option<(bool, String)>),
    Opt(Box<E>),
    Rep(Box<E>, usize, Option<usize>, Option<Box<E>>),
    Ahead(bool, Box<E>),
    Slice(Box<E>),
    Quiet(Box<E>),
    Expected(String),
    Position,
    Prec(Vec<Vec<E>>),
    Marker(bool),
}

#[derive(Debug)]
enum Arg {
    Rule(E),
    Rust(String),
}

struct P {
    t: Vec<TokenTree>,
    i: usize,
}

fn inner(g: &Group) -> P {
    P { t: g.stream().into_iter().collect(), i: 0 }
}

impl P {
    fn peek(&self, k: usize) -> Option<&TokenTree> {
        self.t.get(self.i + k)
    }
    fn is_punct(&self, k: usize, c: char) -> bool {
        matches!(self.peek(k), Some(TokenTree::Punct(p)) if p.as_char() == c)
    }
    fn is_ident(&self, k: usize, s: &str) -> bool {
        matches!(self.peek(k), Some(TokenTree::Ident(p)) if p.to_string() == s)
    }
    fn punct(&mut self, c: char) -> bool {
        let r = self.is_punct(0, c);
        self.i += r as usize;
        r
    }
    fn expect(&mut self, c: char) {
        assert!(self.punct(c), "expected {c} at {:?}", self.peek(0));
    }
    fn ident(&mut self) -> String {
        match self.peek(0) {
            Some(TokenTree::Ident(s)) => {
                let s = s.to_string();
                self.i += 1;
                s
            }
            x => panic!("identifier expected: {x:?}"),
        }
    }
    fn group(&self, k: usize, d: Delimiter) -> Option<&Group> {
        match self.peek(k) {
            Some(TokenTree::Group(g)) if g.delimiter() == d => Some(g),
            _ => None,
        }
    }
    fn done(&self) -> bool {
        self.i >= self.t.len()
    }

    /// tokens up to an unnested `stop`, as text
    fn until(&mut self, stop: impl Fn(&P) -> bool) -> String {
        let mut o = TokenStream::new();
        let mut depth = 0i32;
        while !self.done() && !(depth == 0 && stop(self)) {
            let t = self.t[self.i].clone();
            if let TokenTree::Punct(p) = &t {
                match p.as_char() {
                    '<' => depth += 1,
                    '>' if !(self.i > 0 && matches!(&self.t[self.i - 1], TokenTree::Punct(q) if q.as_char() == '-')) => depth -= 1,
                    _ => {}
                }
            }
            o.extend([t]);
            self.i += 1;
        }
        o.to_string()
    }

    fn choice(&mut self) -> E {
        let mut v = vec![self.seq()];
        while self.punct('/') {
            v.push(self.seq());
        }
        if v.len() == 1 {
            v.pop().unwrap()
        } else {
            E::Choice(v)
        }
    }

    fn seq_end(&self) -> bool {
        self.done()
            || self.is_punct(0, '/')
            || self.is_punct(0, '>')
            || self.is_punct(0, ',')
            || (self.is_punct(0, '-') && self.is_punct(1, '-'))
            || self.is_ident(0, "rule") && matches!(self.peek(1), Some(TokenTree::Ident(_)))
            || self.is_ident(0, "pub") && self.is_ident(1, "rule")
    }

    fn seq(&mut self) -> E {
        let mut v = vec![];
        loop {
            if let Some(g) = self.group(0, Delimiter::Brace) {
                let mut p = inner(g);
                let fallible = p.punct('?');
                let text = p.until(|_| false);
                self.i += 1;
                return E::Seq(v, Some((fallible, text)));
            }
            if self.seq_end() {
                return E::Seq(v, None);
            }
            let label = if matches!(self.peek(0), Some(TokenTree::Ident(_))) && self.is_punct(1, ':') {
                let n = self.ident();
                self.i += 1;
                Some(n)
            } else {
                None
            };
            let e = self.suffixed();
            v.push((label, e));
        }
    }

    fn bounds(&mut self) -> (usize, Option<usize>) {
        if self.is_punct(0, '<') {
            self.i += 1;
            let mut n = |p: &mut P| match p.peek(0) {
                Some(TokenTree::Literal(l)) => {
                    let v = l.to_string().parse().unwrap();
                    p.i += 1;
                    Some(v)
                }
                _ => None,
            };
            let lo = n(self);
            let hi = if self.punct(',') { n(self) } else { lo };
            self.expect('>');
            (lo.unwrap_or(0), hi)
        } else {
            (0, None)
        }
    }

    fn suffixed(&mut self) -> E {
        let e = self.prefixed();
        if self.punct('?') {
            E::Opt(Box::new(e))
        } else if self.is_punct(0, '*') && self.is_punct(1, '*') || self.is_punct(0, '+') && self.is_punct(1, '+') {
            let plus = self.is_punct(0, '+');
            self.i += 2;
            let (lo, hi) = self.bounds();
            let sep = self.prefixed();
            E::Rep(Box::new(e), if plus { 1 } else { lo }, hi, Some(Box::new(sep)))
        } else if self.punct('*') {
            let (lo, hi) = self.bounds();
            E::Rep(Box::new(e), lo, hi, None)
        } else if self.punct('+') {
            E::Rep(Box::new(e), 1, None, None)
        } else {
            e
        }
    }

    fn prefixed(&mut self) -> E {
        if self.punct('$') {
            E::Slice(Box::new(self.primary()))
        } else if self.punct('!') {
            E::Ahead(false, Box::new(self.primary()))
        } else if self.punct('&') {
            E::Ahead(true, Box::new(self.primary()))
        } else {
            self.primary()
        }
    }

    fn primary(&mut self) -> E {
        if self.punct('@') {
            return E::Marker(false);
        }
        if self.is_punct(0, '#') && self.is_punct(1, '#') {
            self.i += 2;
            let name = self.ident();
            let args = inner(self.group(0, Delimiter::Parenthesis).unwrap()).until(|_| false);
            self.i += 1;
            return E::Method(name, args);
        }
        match self.peek(0).cloned() {
            Some(TokenTree::Literal(l)) => {
                self.i += 1;
                E::Lit(l.to_string())
            }
            Some(TokenTree::Group(g)) => {
                self.i += 1;
                let mut p = inner(&g);
                match g.delimiter() {
                    Delimiter::Bracket => E::Pat(p.until(|_| false)),
                    Delimiter::Parenthesis => {
                        if p.is_punct(0, '@') && p.t.len() == 1 {
                            return E::Marker(true);
                        }
                        let e = p.choice();
                        assert!(p.done(), "rest in group: {:?}", p.peek(0));
                        e
                    }
                    d => panic!("group {d:?}"),
                }
            }
            Some(TokenTree::Ident(n)) => {
                let n = n.to_string();
                self.i += 1;
                if self.is_punct(0, '!') && matches!(self.peek(1), Some(TokenTree::Group(_))) {
                    let Some(TokenTree::Group(g)) = self.peek(1).cloned() else { unreachable!() };
                    self.i += 2;
                    let mut p = inner(&g);
                    return match n.as_str() {
                        "quiet" => E::Quiet(Box::new(p.choice())),
                        "expected" => E::Expected(p.until(|_| false)),
                        "position" => E::Position,
                        "precedence" => {
                            let mut levels = vec![vec![]];
                            while !p.done() {
                                if p.is_punct(0, '-') && p.is_punct(1, '-') {
                                    p.i += 2;
                                    levels.push(vec![]);
                                } else {
                                    let s = p.seq();
                                    levels.last_mut().unwrap().push(s);
                                }
                            }
                            E::Prec(levels)
                        }
                        _ => panic!("{n}!"),
                    };
                }
                if self.is_punct(0, '<') && n != "_" {
                    panic!("generic rule arguments are not supported");
                }
                let mut args = vec![];
                if let Some(g) = self.group(0, Delimiter::Parenthesis) {
                    let mut p = inner(g);
                    self.i += 1;
                    while !p.done() {
                        if p.punct('<') {
                            args.push(Arg::Rule(p.choice()));
                            p.expect('>');
                        } else {
                            args.push(Arg::Rust(p.until(|p| p.is_punct(0, ','))));
                        }
                        p.punct(',');
                    }
                }
                E::Call(n, args)
            }
            x => panic!("unexpected {x:?}"),
        }
    }
}

struct Rule {
    public: bool,
    name: String,
    generics: Vec<String>,
    params: Vec<(String, Option<String>, String)>, // name, type of rule argument, plain type
    ret: String,
    body: E,
}

struct Gen {
    grammar_args: Vec<String>,
    rule_params: Vec<String>,
    n: usize,
}

const FAIL: &str = "::peg::RuleResult::Failed";

fn ok(v: &str) -> String {
    format!("::peg::RuleResult::Matched(__pos, {v})")
}

impl Gen {
    fn mark(what: &str) -> String {
        format!("{{ __err.mark(__pos, {what}); {FAIL} }}")
    }

    fn drop_value(e: String, used: bool) -> String {
        if used {
            e
        } else {
            format!("match {e} {{ ::peg::RuleResult::Matched(__pos, _) => {}, ::peg::RuleResult::Failed => {FAIL} }}", ok("()"))
        }
    }

    fn gen(&mut self, e: &E, used: bool) -> String {
        match e {
            E::Lit(s) => format!("match __input.parse_string_literal(__pos, {s}) {{ ::peg::RuleResult::Matched(__pos, __v) => {}, ::peg::RuleResult::Failed => {} }}", ok("__v"), Self::mark(&format!("{:?}", s))),
            E::Pat(p) => format!(
                "match ::peg::next_char(__input, __pos) {{ Some((__next, __c)) => match __c {{ {p} => ::peg::RuleResult::Matched(__next, {}), _ => {} }}, None => {} }}",
                if used { "__c" } else { "()" },
                Self::mark(&format!("{:?}", format!("[{p}]"))),
                Self::mark(&format!("{:?}", format!("[{p}]")))
            ),
            E::Method(n, a) => Self::drop_value(format!("match __input.{n}(__pos, {a}) {{ ::peg::RuleResult::Matched(__pos, __v) => {}, ::peg::RuleResult::Failed => {} }}", ok("__v"), Self::mark(&format!("{:?}", format!("{n}({a})")))), used),
            E::Call(n, args) => {
                let c = if args.is_empty() && self.rule_params.contains(n) {
                    format!("{n}(__input, __err, __pos)")
                } else {
                    let mut v = vec!["__input".to_owned(), "__err".to_owned(), "__pos".to_owned()];
                    v.extend(self.grammar_args.iter().cloned());
                    for a in args {
                        v.push(match a {
                            Arg::Rust(s) => s.clone(),
                            Arg::Rule(e) => format!("&|__input: &'input str, __err: &mut ::peg::error::ErrorState, __pos: usize| {{ {} }}", self.gen(e, true)),
                        });
                    }
                    format!("__parse_{n}({})", v.join(", "))
                };
                Self::drop_value(c, used)
            }
            E::Choice(v) => {
                let mut o = String::from(FAIL);
                for (i, e) in v.iter().enumerate().rev() {
                    let c = self.gen(e, used);
                    o = if i == v.len() - 1 { c } else { format!("match {{ {c} }} {{ ::peg::RuleResult::Matched(__pos, __v) => {}, ::peg::RuleResult::Failed => {{ {o} }} }}", ok("__v")) };
                }
                o
            }
            E::Seq(v, action) => {
                let last = match action {
                    None if v.len() == 1 && v[0].0.is_none() => return self.gen(&v[0].1, used),
                    None => ok("()"),
                    Some((false, t)) if used => ok(&format!("(|| {{ {t} }})()")),
                    Some((false, _)) => ok("()"),
                    Some((true, t)) => format!(
                        "match (|| {{ {t} }})() {{ Ok(__v) => {}, Err(__e) => {} }}",
                        if used { ok("__v") } else { ok("{ let _ = __v; }") },
                        Self::mark("__e")
                    ),
                };
                let mut o = last;
                for (l, e) in v.iter().rev() {
                    let c = self.gen(e, l.is_some());
                    o = format!("match {{ {c} }} {{ ::peg::RuleResult::Matched(__pos, {}) => {{ {o} }}, ::peg::RuleResult::Failed => {FAIL} }}", l.as_deref().unwrap_or("_"));
                }
                o
            }
            E::Opt(e) => {
                let c = self.gen(e, used);
                let (some, none) = if used { ("Some(__v)", "None") } else { ("__v", "()") };
                format!("match {{ {c} }} {{ ::peg::RuleResult::Matched(__pos, __v) => {}, ::peg::RuleResult::Failed => {} }}", ok(some), ok(none))
            }
            E::Rep(e, lo, hi, sep) => {
                let c = self.gen(e, used);
                let sep = match sep {
                    None => String::new(),
                    Some(s) => format!("let __pos = if __vec.is_empty() {{ __pos }} else {{ match {{ {} }} {{ ::peg::RuleResult::Matched(__p, _) => __p, ::peg::RuleResult::Failed => break }} }};", self.gen(s, false)),
                };
                let hi = hi.map(|h| format!("if __vec.len() >= {h} {{ break }}")).unwrap_or_default();
                format!(
                    "{{ let mut __rpos = __pos; let mut __vec = vec![]; loop {{ {hi} let __pos = __rpos; {sep} match {{ {c} }} {{ ::peg::RuleResult::Matched(__p, __v) => {{ __rpos = __p; __vec.push(__v); }} ::peg::RuleResult::Failed => break }} }} if __vec.len() >= {lo} {{ ::peg::RuleResult::Matched(__rpos, {}) }} else {{ {FAIL} }} }}",
                    if used { "__vec" } else { "()" }
                )
            }
            E::Ahead(pos, e) => {
                let c = self.gen(e, false);
                let (m, f) = if *pos { (ok("()"), FAIL.to_owned()) } else { (FAIL.to_owned(), ok("()")) };
                format!("{{ __err.suppress_fail += 1; let __r = {{ {c} }}; __err.suppress_fail -= 1; match __r {{ ::peg::RuleResult::Matched(..) => {m}, ::peg::RuleResult::Failed => {f} }} }}")
            }
            E::Slice(e) => {
                let c = self.gen(e, false);
                format!("{{ let __start = __pos; match {{ {c} }} {{ ::peg::RuleResult::Matched(__pos, _) => {}, ::peg::RuleResult::Failed => {FAIL} }} }}", ok(if used { "&__input[__start..__pos]" } else { "()" }))
            }
            E::Quiet(e) => {
                let c = self.gen(e, used);
                format!("{{ __err.suppress_fail += 1; let __r = {{ {c} }}; __err.suppress_fail -= 1; __r }}")
            }
            E::Expected(s) => Self::mark(s),
            E::Position => ok(if used { "__pos" } else { "()" }),
            E::Prec(levels) => self.prec(levels),
            E::Marker(_) => panic!("marker outside of precedence!"),
        }
    }

    fn prec(&mut self, levels: &[Vec<E>]) -> String {
        self.n += 1;
        let mut pre = String::new();
        let mut post = String::new();
        for (prec, level) in levels.iter().enumerate() {
            for op in level {
                let E::Seq(els, Some((fallible, action))) = op else { panic!("operator without action") };
                assert!(!fallible);
                let first = match &els[0].1 {
                    E::Marker(a) => Some(*a),
                    _ => None,
                };
                let last = match &els[els.len() - 1].1 {
                    E::Marker(a) if els.len() > 1 => Some(*a),
                    _ => None,
                };
                let arg = |i: usize| els[i].0.clone().unwrap_or("_".into());
                let mid = &els[first.is_some() as usize..els.len() - last.is_some() as usize];
                let mut o = match (first, last) {
                    (Some(_), _) => format!("let {} = __lhs.take().unwrap(); ::peg::RuleResult::Matched(__pos, (|| {{ {action} }})())", arg(0)),
                    _ => ok(&format!("(|| {{ {action} }})()")),
                };
                if let Some(ra) = last {
                    let new = match (first, ra) {
                        (Some(true), false) => prec + 1,
                        (Some(false), true) => prec,
                        (Some(_), _) => panic!("associativity"),
                        (None, true) => prec,
                        (None, false) => prec + 1,
                    };
                    o = format!("match __climb(__input, __err, __pos, {args} {new}) {{ ::peg::RuleResult::Matched(__pos, {}) => {{ {o} }}, ::peg::RuleResult::Failed => {FAIL} }}", arg(els.len() - 1), args = self.args());
                }
                for (l, e) in mid.iter().rev() {
                    let c = self.gen(e, l.is_some());
                    o = format!("match {{ {c} }} {{ ::peg::RuleResult::Matched(__pos, {}) => {{ {o} }}, ::peg::RuleResult::Failed => {FAIL} }}", l.as_deref().unwrap_or("_"));
                }
                if first.is_some() {
                    post += &format!("if {prec} >= __min {{ if let ::peg::RuleResult::Matched(__p, __v) = {{ {o} }} {{ __lhs = Some(__v); __rpos = __p; continue; }} }}\n");
                } else {
                    pre += &format!("if let ::peg::RuleResult::Matched(__p, __v) = {{ {o} }} {{ break 'pre (__p, __v); }}\n");
                }
            }
        }
        // the climbing function is emitted next to the rule (see rule())
        format!(
            "fn __climb<'input>(__input: &'input str, __err: &mut ::peg::error::ErrorState, __pos: usize, {params} __min: i32) -> ::peg::RuleResult<__Ret> {{ let (mut __rpos, __first) = 'pre: {{ {pre} return {FAIL}; }}; let mut __lhs = Some(__first); loop {{ let __pos = __rpos; {post} return ::peg::RuleResult::Matched(__rpos, __lhs.take().unwrap()); }} }} __climb(__input, __err, __pos, {args} 0)",
            params = "__PARAMS__",
            args = self.args()
        )
    }

    fn args(&self) -> String {
        self.grammar_args.iter().map(|a| format!("{a}, ")).collect()
    }
}

#[proc_macro]
pub fn parser(input: TokenStream) -> TokenStream {
    let mut p = P { t: input.into_iter().collect(), i: 0 };
    assert_eq!(p.ident(), "grammar");
    let name = p.ident();
    let mut gargs = vec![];
    let mut gparams = String::new();
    let mut g = inner(p.group(0, Delimiter::Parenthesis).unwrap());
    p.i += 1;
    while !g.done() {
        let n = g.ident();
        g.expect(':');
        let t = g.until(|p| p.is_punct(0, ','));
        g.punct(',');
        gparams += &format!("{n}: {t}, ");
        gargs.push(n);
    }
    assert_eq!(p.ident(), "for");
    assert_eq!(p.ident(), "str");
    let mut b = inner(p.group(0, Delimiter::Brace).unwrap());
    let mut uses = String::new();
    let mut rules = vec![];
    while !b.done() {
        if b.is_ident(0, "use") {
            uses += &b.until(|p| p.is_punct(0, ';'));
            b.expect(';');
            uses += ";\n";
            continue;
        }
        let public = b.is_ident(0, "pub");
        if public {
            b.i += 1;
        }
        assert_eq!(b.ident(), "rule");
        let rname = b.ident();
        let mut generics = vec![];
        if b.punct('<') {
            while !b.punct('>') {
                generics.push(b.ident());
                b.punct(',');
            }
        }
        let mut params = vec![];
        let mut g = inner(b.group(0, Delimiter::Parenthesis).unwrap());
        b.i += 1;
        while !g.done() {
            let n = g.ident();
            g.expect(':');
            if g.is_ident(0, "rule") && g.is_punct(1, '<') {
                g.i += 2;
                let t = g.until(|p| p.is_punct(0, '>'));
                g.expect('>');
                params.push((n, Some(t), String::new()));
            } else {
                let t = g.until(|p| p.is_punct(0, ','));
                params.push((n, None, t));
            }
            g.punct(',');
        }
        let ret = if b.is_punct(0, '-') && b.is_punct(1, '>') {
            b.i += 2;
            b.until(|p| p.is_punct(0, '='))
        } else {
            "()".into()
        };
        b.expect('=');
        let body = b.choice();
        rules.push(Rule { public, name: rname, generics, params, ret, body });
    }
    let mut out = format!("#[allow(unused, unreachable_patterns, unreachable_code, clippy::all)]\npub mod {name} {{ use super::*; use ::peg::ParseLiteral as _; {uses}\n");
    let _: HashMap<(), ()> = HashMap::new();
    for r in &rules {
        let mut gen = Gen { grammar_args: gargs.clone(), rule_params: r.params.iter().filter(|p| p.1.is_some()).map(|p| p.0.clone()).collect(), n: 0 };
        let unit = r.ret.trim() == "()";
        let body = gen.gen(&r.body, !unit);
        let body = body.replace("__PARAMS__", &gparams).replace("__Ret", &r.ret);
        let mut ps = gparams.clone();
        for (n, rule, t) in &r.params {
            ps += &match rule {
                Some(t) => format!("{n}: &dyn Fn(&'input str, &mut ::peg::error::ErrorState, usize) -> ::peg::RuleResult<{t}>, "),
                None => format!("{n}: {t}, "),
            };
        }
        let gens: String = r.generics.iter().map(|g| format!(", {g}")).collect();
        out += &format!("fn __parse_{}<'input{gens}>(__input: &'input str, __err: &mut ::peg::error::ErrorState, __pos: usize, {ps}) -> ::peg::RuleResult<{}> {{ {body} }}\n", r.name, r.ret);
        if r.public {
            let args: String = gargs.iter().map(|a| format!("{a}, ")).collect();
            out += &format!(
                "pub fn {n}<'input>(__input: &'input str, {gparams}) -> ::core::result::Result<{ret}, ::peg::error::ParseError<::peg::str::LineCol>> {{
                    let mut __state = ::peg::error::ErrorState::new(0);
                    for __round in 0..2 {{
                        let __err = &mut __state;
                        if let ::peg::RuleResult::Matched(__pos, __v) = __parse_{n}(__input, __err, 0, {args}) {{
                            if __pos == __input.len() {{ return Ok(__v); }}
                            __err.mark(__pos, \"EOF\");
                        }}
                        __err.reparse();
                    }}
                    Err(__state.into_error(__input))
                }}\n",
                n = r.name,
                ret = r.ret
            );
        }
    }
    out += "}";
    if let Ok(f) = std::env::var("PEG_DUMP") {
        std::fs::write(f, &out).unwrap();
    }
    out.parse().unwrap()
}
