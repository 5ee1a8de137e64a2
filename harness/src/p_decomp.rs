//! Decompiler: expressions, statements, declarations.
use redscript_decompiler::Decompiler;

use crate::dec::*;
use crate::sx::*;
use crate::wire::digest;

harnesses! { h_dec_expr, h_dec_stmts }

fn decompiled(locals: &[u32], code: &[RI]) -> Option<Vec<u8>> {
    let pool = world(false);
    let def = subject(&pool, locals, instrs(code));
    let f = def.value.as_function().unwrap();
    let seq = Decompiler::decompiled(f, &def, &pool).ok()?;
    let mut o = vec![];
    s_seq(&seq, &mut o);
    Some(o)
}

/// any single expression (two levels when param 0 is 1): the tree is what the instructions say
pub fn h_dec_expr() {
    let mut code = vec![];
    arb_tree(param(0), |o| expr_op(o) || o == 22 || o == 39, &mut 0, param(0) == 0 || param(1) == 1, &mut code);
    let mut want = vec![b'{'];
    let mut rd = Rd { c: &code, i: 0 };
    rd.expr(None, &mut want);
    assert!(rd.i == code.len());
    want.push(b'}');
    let got = decompiled(&[], &code).expect("valid expression code rejected");
    assert!(got == want, "decompiled expression differs");
    cover(code[0].op as u32);
    observe(digest(&got));
}

/// sequences of statements with locals: order, declarations, nothing lost
pub fn h_dec_stmts() {
    let n = param(0);
    let mut code = vec![];
    let mut k = 0;
    let mut stmts: Vec<Vec<u8>> = vec![];
    let mut assigned: Vec<Option<u32>> = vec![];
    for _ in 0..n {
        let at = code.len();
        match choose(6) {
            0 => {
                code.push(ri(22, &[]));
                let l = [LA, LB, LC][choose(3) as usize];
                code.push(ri(24, &[l as u64]));
                code.push(leaf(&mut k));
                assigned.push(Some(l));
            }
            1 => {
                code.push(ri(22, &[]));
                code.push(ri(25, &[P0 as u64]));
                code.push(leaf(&mut k));
                assigned.push(None);
            }
            2 => {
                code.push(ri(36, &[0, 0, GLOB as u64, 0]));
                code.push(leaf(&mut k));
                code.push(ri(38, &[]));
                assigned.push(None);
            }
            3 => {
                code.push(ri(0, &[]));
                continue;
            }
            4 => {
                // jump to the next instruction
                code.push(RI { op: 31, v: [0; 4], offs: (3, 0) });
                continue;
            }
            _ => {
                code.push(ri(39, &[]));
                code.push(if choose(2) == 1 { ri(0, &[]) } else { leaf(&mut k) });
                assigned.push(None);
            }
        }
        let mut o = vec![];
        Rd { c: &code, i: at }.expr(None, &mut o);
        let ret = o[0] == b'R';
        stmts.push(o);
        if ret {
            break;
        }
    }
    let mut locals: Vec<u32> = vec![];
    for l in [LC, LA, LB] {
        if choose(2) == 1 {
            locals.push(l);
        }
    }
    let got = decompiled(&locals, &code).expect("valid code rejected");
    // every local is declared exactly once, with its type, before anything that mentions it, and the statements keep
    // their order and values; an assignment may become the declaration's initializer
    let mut i = 1;
    let mut declared: Vec<u32> = vec![];
    let mut s = 0;
    while got[i] != b'}' {
        if got[i] == b'D' {
            let len = got[i + 1] as usize;
            let name = &got[i + 2..i + 2 + len];
            let l = *locals.iter().find(|l| def_name(**l).as_bytes() == name).expect("declaration of an unknown local");
            assert!(!declared.contains(&l), "local declared twice");
            declared.push(l);
            let mut t = vec![];
            r_type(if l == LB { "ref:Cls" } else { "Int32" }, &mut t);
            i += 2 + len;
            assert!(got[i..].starts_with(&t), "type of a declaration");
            i += t.len();
            if got[i] == b'-' {
                i += 1;
                continue;
            }
            assert!(s < stmts.len() && assigned[s] == Some(l), "initializer of a declaration");
            let mut head = vec![b'=', b'I'];
            s_str(def_name(l), &mut head);
            assert!(stmts[s].starts_with(&head));
            let init = &stmts[s][head.len()..];
            assert!(got[i..].starts_with(init), "initializer of a declaration");
            i += init.len();
        } else {
            assert!(s < stmts.len() && got[i..].starts_with(&stmts[s]), "statement differs");
            if let Some(l) = assigned[s] {
                assert!(declared.contains(&l) || !locals.contains(&l), "local used before its declaration");
            }
            i += stmts[s].len();
        }
        s += 1;
    }
    assert!(i + 1 == got.len());
    assert!(s == stmts.len(), "statement lost");
    assert!(declared.len() == locals.len(), "local not declared");
    cover(1);
    observe(digest(&got));
}
