//! C20: types and conversions. C21: representations.

use crate::engine::{fail, Cx, Failure, Src};
use crate::model::ast::*;
use crate::model::interp::{forget_evals, know_eval};
use crate::model::natives::Nat;
use crate::model::ops::{Op, Un};

use super::prog::print_program;
use super::vals::{Ints, Vals, ALL, ITERABLES, K};

type R = Result<(), Failure>;

const TYPES: [Nat; 15] = [Nat::Int, Nat::Str, Nat::Bool, Nat::Complex, Nat::Rational, Nat::List, Nat::Set, Nat::Dict, Nat::Heap, Nat::Vector, Nat::Range, Nat::Enumerate, Nat::Function, Nat::Iterable, Nat::Any];

fn a_type(v: &mut Vals) -> E {
    match v.s().weighted(&[15, 1, 3, 2, 1]) {
        0 => { let t = *v.s().pick(&TYPES); v.f(t) }
        1 => v.e(EK::Nil),
        2 => { v.strukt(); let n = *v.s().pick(&["S", "T"]); v.v(n) }
        3 => { let x = v.any(0); v.nat(Nat::TypeOf, vec![x]) }
        _ => { let n = *v.s().pick(&[Nat::Len, Nat::Print, Nat::Real, Nat::TypeOf]); if v.chance(1, 2) { v.f(n) } else { v.any(0) } }
    }
}

/// A value of any type, also of those which differ only in how they are made
fn a_value(v: &mut Vals) -> E {
    match v.s().weighted(&[12, 2, 1, 1, 1, 1, 1]) {
        0 => v.any(1),
        1 => { let k = *v.s().pick(&[K::Int, K::Bool, K::Cx]); let x = v.value(k, 0); let z = v.e(EK::Imag(0)); v.bin(Op::Add, x, z) }
        2 => { let r = v.rational(); let i = v.int(); v.bin(Op::Mul, r, i) }
        3 => { let x = v.complex(); let y = v.e(EK::Imag(1)); v.bin(Op::Mul, x, y) }
        4 => { let f = v.function(1); let f = v.paren(f); v.nat(Nat::Memoize, vec![f]) }
        5 => { let x = v.f(Nat::Map); let f = v.function(1); let f = v.paren(f); v.call(x, vec![f]) }
        _ => { let x = v.bool(); let y = v.int(); let o = *v.s().pick(&[Op::Add, Op::Sub, Op::Mul]); v.bin(o, x, y) }
    }
}

/// Texts which are, or nearly are, numerals
fn numeral(v: &mut Vals, frac: bool) -> String {
    let mut t = String::new();
    match v.s().weighted(&[8, 2, 2]) {
        0 => {
            if v.chance(1, 3) { t.push(*v.s().pick(&['-', '+', '-'])); }
            if v.chance(1, 4) { t.push_str(&"0".repeat(v.n(1, 30))); }
            let i = { let o = v.ints; v.ints = Ints::Edge; let i = v.int_value(); v.ints = o; i };
            t.push_str(&i.unsigned_abs().to_string());
            if v.chance(1, 8) { let d = v.n(0, 9); t.push_str(&d.to_string()); }
        }
        1 => t.push_str(*v.s().pick(&["4611686018427387903", "4611686018427387904", "-4611686018427387904", "-4611686018427387905", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551616", "340282366920938463463374607431768211456"])),
        _ => { for _ in 0..v.n(0, 5) { let c = *v.s().pick(&['0', '1', '9', '-', '+', '_', ' ', '.', 'x', 'b', 'a', 'e', '/', 'i', '٣', '\n', '１']); t.push(c); } }
    }
    if frac && v.chance(1, 2) { t.push('/'); let u = if v.chance(1, 6) { "0".into() } else { numeral(v, false) }; t.push_str(&u); }
    // a change
    if v.chance(1, 8) {
        let mut c: Vec<char> = t.chars().collect();
        let i = v.s().below(c.len() + 1);
        let x = *v.s().pick(&[' ', '-', '_', '0', '+', 'x', '.', '\n', 'é', '/']);
        if v.chance(1, 2) || c.is_empty() { c.insert(i, x); } else { let n = c.len(); c[i % n] = x; }
        t = c.into_iter().collect();
    }
    t
}

pub fn c20(s: &mut Src, cx: &mut Cx) -> R {
    let mut v = Vals::new(s);
    if v.chance(1, 3) { v.ints = Ints::Mixed; }
    for _ in 0..v.n(2, 4) { let k = *v.s().pick(&ALL); let e = a_value(&mut v); v.hold(k, e); }
    for _ in 0..v.n(2, 6) {
        let x = if v.chance(1, 2) { let n = v.pick_var().0; v.v(&n) } else { a_value(&mut v) };
        let same = |v: &mut Vals| { let n = v.pick_var().0; (v.v(&n), v.v(&n), v.v(&n)) };
        let mut out = match v.s().weighted(&[3, 4, 2, 2, 2, 6, 3, 3, 2, 2, 2, 1]) {
            0 => {
                let (a, b, c) = same(&mut v);
                let t = v.nat(Nat::TypeOf, vec![b]);
                let i = v.bin(Op::Is, a, t);
                let t = v.nat(Nat::TypeOf, vec![c]);
                vec![i, t]
            }
            1 => {
                // against every type, or several
                let mut r = Vec::new();
                if v.chance(1, 3) {
                    let ts: Vec<E> = TYPES.iter().map(|t| v.f(*t)).collect();
                    let ts = v.list(ts);
                    let n = v.fresh();
                    let (y, t) = (v.v(&n), v.v("t"));
                    let o = if v.chance(1, 3) { Op::IsNot } else { Op::Is };
                    let b = v.bin(o, y, t);
                    let f = v.lam(&["t"], b);
                    let f = v.paren(f);
                    let m = v.nat(Nat::Map, vec![f, ts]);
                    let l = v.let_(&n, x);
                    let p = v.show(vec![m]);
                    v.ops.push(vec![l, p]);
                    continue;
                }
                for _ in 0..v.n(1, 4) {
                    let (y, _, _) = same(&mut v);
                    let t = a_type(&mut v);
                    let o = if v.chance(1, 3) { Op::IsNot } else { Op::Is };
                    r.push(v.forms_simple(o, y, t));
                }
                r
            }
            2 => {
                let (a, _, _) = same(&mut v);
                let (a, b) = (v.nat(Nat::TypeOf, vec![a]), v.nat(Nat::TypeOf, vec![x]));
                let o = *v.s().pick(&[Op::Eq, Op::Ne]);
                vec![v.bin(o, a, b)]
            }
            3 => {
                let (a, b, _) = same(&mut v);
                let (t, u) = (a_type(&mut v), a_type(&mut v));
                let (i, j) = (v.bin(Op::Is, a, t), v.bin(Op::IsNot, b, u));
                let o = if v.chance(1, 2) { EK::And(Box::new(i), Box::new(j)) } else { EK::Or(Box::new(i), Box::new(j)) };
                vec![v.e(o)]
            }
            4 => { let (a, b, _) = same(&mut v); let t = v.nat(Nat::TypeOf, vec![a]); let t = v.nat(Nat::TypeOf, vec![t]); let n = v.un(Un::LNot, b); vec![t, n] }
            5 => { let n = *v.s().pick(&[Nat::Bool, Nat::Int, Nat::Rational, Nat::Str, Nat::List, Nat::Set, Nat::Dict, Nat::Heap, Nat::Vector, Nat::Real, Nat::Imag, Nat::Numer, Nat::Denom]); let e = super::iters::apply(&mut v, n, vec![x]); let t = v.v("r"); let u = v.nat(Nat::TypeOf, vec![t]); let t = v.v("r"); let l = v.list(vec![t, u]); let f = v.lam(&["r"], l); let f = v.paren(f); vec![v.call(f, vec![e])] }
            6 => {
                // with a default
                let d = a_value(&mut v);
                let t = numeral(&mut v, false);
                let t = if v.chance(1, 4) { x } else { v.t(&t) };
                vec![if v.chance(2, 3) { v.nat(Nat::Int, vec![t, d]) } else { v.nat(Nat::Rational, vec![t, d]) }]
            }
            7 => { let t = numeral(&mut v, false); let t = v.t(&t); vec![super::iters::apply(&mut v, Nat::Int, vec![t])] }
            8 => { let t = numeral(&mut v, true); let t = v.t(&t); vec![super::iters::apply(&mut v, Nat::Rational, vec![t])] }
            9 => {
                // there and back
                let (a, b) = match v.s().weighted(&[3, 2, 2, 2]) {
                    0 => { let o = v.ints; v.ints = Ints::Edge; let i = v.int(); v.ints = o; let t = v.nat(Nat::Str, vec![i]); let i = v.nat(Nat::Int, vec![t]); let r = v.nat(Nat::Rational, vec![i]); (Nat::Int, r) }
                    1 => { let (k, _) = (*v.s().pick(&ITERABLES), 0); let x = v.value(k, 1); let n = *v.s().pick(&[Nat::List, Nat::Set, Nat::Vector]); (n, x) }
                    2 => { let d = v.value(K::Dict, 1); let l = v.nat(Nat::List, vec![d]); (Nat::Dict, l) }
                    _ => { let r = v.rational(); let z = v.nat(Nat::Numer, vec![r]); (Nat::Rational, z) }
                };
                vec![v.nat(a, vec![b])]
            }
            10 => {
                // parts
                let (a, b, c, d) = { let (a, b, _) = same(&mut v); let (c, d, _) = same(&mut v); (a, b, c, d) };
                let (a, b) = if v.chance(1, 2) { (v.nat(Nat::Real, vec![a]), v.nat(Nat::Imag, vec![b])) } else { (v.nat(Nat::Numer, vec![c]), v.nat(Nat::Denom, vec![d])) };
                vec![a, b]
            }
            _ => { let (a, b) = (a_value(&mut v), a_value(&mut v)); let n = *v.s().pick(&[Nat::Rational, Nat::Int]); vec![v.nat(n, vec![a, b])] }
        };
        if v.chance(1, 5) { let n = v.pick_var().0; out.push(v.v(&n)); }
        let p = v.show(out);
        v.ops.push(vec![p]);
    }
    v.run(cx)
}

// ----- C21 -----

/// Characters other than `'`, which `repr` does not escape (a known finding)
const CHARS: &[char] = &['a', 'Z', '0', '\\', '"', '\n', '\r', '\t', ' ', '€', '日', '𝕏', '\u{301}', '{', '[', '(', ',', ':', '/', '\0', '\u{7f}', '%', 'n', '\u{feff}', '\u{2028}'];

/// A value whose representation is an expression for it: vectors have two elements or more, and dicts one
fn literal(v: &mut Vals, d: u32) -> E {
    match v.s().weighted(&[4, 2, 2, 4, 3, if d > 0 { 3 } else { 0 }, if d > 0 { 3 } else { 0 }, if d > 0 { 2 } else { 0 }, if d > 0 { 2 } else { 0 }, if d > 0 { 1 } else { 0 }, if d > 0 { 1 } else { 0 }]) {
        0 => v.int(),
        1 => v.e(EK::Nil),
        2 => v.bool(),
        3 => v.str(),
        4 => v.complex(),
        5 => { let n = v.n(0, 3); let x = (0..n).map(|_| literal(v, d - 1)).collect(); v.list(x) }
        6 => { let n = v.n(2, 4); let x = (0..n).map(|_| literal(v, d - 1)).collect(); v.vector(x) }
        7 => { let n = v.n(0, 3); let x = (0..n).map(|_| literal(v, d - 1)).collect(); v.set(x) }
        8 => { let n = v.n(1, 3); let x = (0..n).map(|_| (literal(v, d - 1), literal(v, d - 1))).collect(); v.dict(x) }
        9 => v.range(),
        _ => { let n = v.n(0, 2); let x = (0..n).map(|_| literal(v, d - 1)).collect(); let l = v.list(x); v.nat(Nat::Enumerate, vec![l]) }
    }
}

/// An expression without variables, to be evaluated as text
fn closed(v: &mut Vals, d: u32) -> E {
    match v.s().weighted(&[3, 4, 2, 2, 2]) {
        1 if d > 0 => { let o = *v.s().pick(&[Op::Add, Op::Sub, Op::Mul, Op::Lt, Op::Eq, Op::Is, Op::In, Op::Mod]); let (a, b) = (closed(v, d - 1), closed(v, d - 1)); v.bin(o, a, b) }
        2 if d > 0 => { let a = closed(v, d - 1); let n = *v.s().pick(&[Nat::Str, Nat::Repr, Nat::TypeOf, Nat::Len, Nat::List, Nat::Sum]); v.nat(n, vec![a]) }
        3 if d > 0 => { let (a, b, c) = (closed(v, d - 1), closed(v, d - 1), closed(v, d - 1)); v.e(EK::Tern(vec![(a, b)], Box::new(c))) }
        4 if d > 0 => { let (a, k) = (v.v("x"), closed(v, d - 1)); let b = v.list(vec![a, k]); let f = v.lam(&["x"], b); let f = v.paren(f); if v.chance(1, 3) { return f; } let c = closed(v, d - 1); v.call(f, vec![c]) }
        _ => literal(v, 1),
    }
}

pub fn c21(s: &mut Src, cx: &mut Cx) -> R {
    forget_evals();
    let r = c21_(s, cx);
    forget_evals();
    r
}

fn c21_(s: &mut Src, cx: &mut Cx) -> R {
    let mut v = Vals::new(s);
    v.chars = CHARS;
    v.ints = if v.chance(1, 2) { Ints::Edge } else { Ints::Small };
    for _ in 0..v.n(1, 3) { let e = literal(&mut v, 3); v.hold(K::List, e); }
    for _ in 0..v.n(2, 6) {
        let (n, m) = (v.pick_var().0, v.pick_var().0);
        let (x, y) = (v.v(&n), v.v(&m));
        let back = |v: &mut Vals, x: E| { let r = v.repr(x); v.nat(Nat::Eval, vec![r]) };
        match v.s().weighted(&[5, 3, 3, 3, 2, 4, 2, 3, 2]) {
            0 => {
                let b = back(&mut v, x);
                let x = v.v(&n);
                let e = v.bin(Op::Eq, b, x);
                let x = v.v(&n);
                let b = back(&mut v, x);
                let (x, y) = (v.v(&n), v.nat(Nat::TypeOf, vec![b]));
                let x = v.nat(Nat::TypeOf, vec![x]);
                let t = v.bin(Op::Eq, x, y);
                let x = v.v(&n);
                let b = back(&mut v, x);
                let p = v.show(vec![e, t, b]);
                v.ops.push(vec![p]);
            }
            1 => {
                // a fresh one, in a function with variables of its own
                let e = literal(&mut v, 3);
                let (f, g) = (v.fresh(), v.fresh());
                let r = v.v("r");
                let b = v.nat(Nat::Eval, vec![r]);
                let (k, l) = (v.let_(&g, b), v.i(7));
                let l = v.let_("q", l);
                let (a, b, c) = (v.v("r"), v.v(&g), v.v("q"));
                let a = v.list(vec![a, b, c]);
                let a = v.se(a);
                let body = if v.chance(1, 2) { vec![k, l, a] } else { vec![l, k, a] };
                let d = v.lam_block(&["r"], body);
                let d = v.let_(&f, d);
                let r = v.repr(e);
                let f = v.v(&f);
                let c = v.call(f, vec![r]);
                let p = v.show(vec![c]);
                v.ops.push(vec![d, p]);
            }
            2 => {
                let (ev, re) = (v.f(Nat::Eval), v.f(Nat::Repr));
                let l = v.list(vec![x, y]);
                let e = if v.chance(1, 2) {
                    let a = v.nat(Nat::Map, vec![re, l]);
                    v.nat(Nat::Map, vec![ev, a])
                } else {
                    let a = v.e(EK::Comp(Box::new(l), Box::new(re)));
                    v.e(EK::Comp(Box::new(a), Box::new(ev)))
                };
                let p = v.show(vec![e]);
                v.ops.push(vec![p]);
            }
            3 => {
                // all renderings
                let a = v.nat(Nat::Str, vec![x]);
                let (x, t) = (v.v(&n), v.t(""));
                let b = v.bin(Op::Add, t, x);
                let (x, t) = (v.v(&n), v.t("|"));
                let c = v.bin(Op::Add, x, t);
                let (x, t) = (v.v(&n), v.t("%s"));
                let x = v.list(vec![x]);
                let d = v.bin(Op::Mod, t, x);
                let (x, z) = (v.v(&n), v.v(&n));
                let e = v.repr(z);
                let p = v.print(vec![a, b, c, d, x, e]);
                v.ops.push(vec![p]);
            }
            4 => {
                let r = v.repr(x);
                let r = v.repr(r);
                let e = v.nat(Nat::Eval, vec![r]);
                let e = v.nat(Nat::Eval, vec![e]);
                let p = v.show(vec![e]);
                v.ops.push(vec![p]);
            }
            5 => {
                // representations differ where values do
                let y = if v.chance(1, 2) { y } else { literal(&mut v, 2) };
                let l = v.list(vec![x, y]);
                let (a, b) = (v.fresh(), v.fresh());
                let l = v.e(EK::Assign(Lv::Var(a.clone()), Box::new(l)));
                let _ = (l, b);
                let e1 = literal(&mut v, 2);
                let e2 = if v.chance(1, 2) { literal(&mut v, 2) } else { v.v(&n) };
                let (p, q) = (v.v("p"), v.v("q"));
                let eq = v.bin(Op::Eq, p, q);
                let (p, q) = (v.v("p"), v.v("q"));
                let (p, q) = (v.repr(p), v.repr(q));
                let er = v.bin(Op::Eq, p, q);
                let (p, q) = (v.v("p"), v.v("q"));
                let r = v.list(vec![eq, er, p, q]);
                let f = v.lam(&["p", "q"], r);
                let f = v.paren(f);
                let c = v.call(f, vec![e1, e2]);
                let p = v.show(vec![c]);
                v.ops.push(vec![p]);
            }
            6 => {
                // several which contain themselves and each other
                v.strukt();
                let mut st = vec![];
                let mut nodes: Vec<(String, K)> = vec![];
                for _ in 0..v.s().weighted(&[3, 3, 2, 1]) + 1 {
                    let z = v.fresh();
                    let k = *v.s().pick(&[K::List, K::Dict, K::Vect, K::Struct]);
                    let mut xs = vec![];
                    for _ in 0..2 { xs.push(match v.s().weighted(&[3, 2, 2]) { 0 => v.int(), 1 => v.v(&n), _ if nodes.is_empty() => v.v(&m), _ => { let i = v.s().below(nodes.len()); v.v(&nodes[i].0) } }); }
                    let e = match k {
                        K::List => v.list(xs),
                        K::Dict => { let (i, x) = (v.i(0), xs.remove(0)); v.dict(vec![(i, x)]) }
                        K::Vect => v.vector(xs),
                        _ => { let s = v.v("S"); v.call(s, xs) }
                    };
                    st.push(v.let_(&z, e));
                    nodes.push((z, k));
                }
                let wrap = |v: &mut Vals, e: E| -> E {
                    let w = v.int();
                    match v.s().weighted(&[3, 1, 1, 1, 1, 1]) { 0 => e, 1 => v.list(vec![w, e]), 2 => v.vector(vec![e, w]), 3 => v.list(vec![e]), 4 => v.dict(vec![(w, e)]), _ => { let l = v.list(vec![e]); v.nat(Nat::Enumerate, vec![l]) } }
                };
                let node = |v: &mut Vals| -> E { let i = v.s().below(nodes.len()); let e = v.v(&nodes[i].0); let e = wrap(v, e); if v.chance(1, 3) { wrap(v, e) } else { e } };
                for _ in 0..v.n(1, nodes.len() + 1) {
                    let inner = node(&mut v);
                    let (z, k) = { let i = v.s().below(nodes.len()); nodes[i].clone() };
                    let (t, i) = (v.v(&z), v.i(0));
                    let c = match k {
                        K::List => if v.chance(1, 2) { v.nat(Nat::Push, vec![inner, t]) } else { v.e(EK::Assign(Lv::Index(Box::new(t), Box::new(i)), Box::new(inner))) },
                        K::Struct => { let f = v.s().pick(&["p", "q"]).to_string(); v.e(EK::Assign(Lv::Field(Box::new(t), f), Box::new(inner))) }
                        _ => v.e(EK::Assign(Lv::Index(Box::new(t), Box::new(i)), Box::new(inner))),
                    };
                    st.push(v.se(c));
                }
                for _ in 0..v.n(1, 2) {
                    let z = v.fresh();
                    let e = node(&mut v);
                    st.push(v.let_(&z, e));
                    let (a, b, c) = (v.v(&z), v.v(&z), v.v(&z));
                    let a = v.nat(Nat::Str, vec![a]);
                    let b = v.repr(b);
                    st.push(v.print(vec![a, b, c]));
                }
                v.ops.push(st);
            }
            7 => {
                // any expression, as text
                let e = closed(&mut v, 3);
                let s = v.se(e);
                let w = print_program(std::slice::from_ref(&s), Style::default(), 0);
                let text = w.out.trim_end().to_string();
                if let S { k: SK::Expr(e), .. } = s { know_eval(&text, e); }
                let t = v.t(&text);
                let e = v.nat(Nat::Eval, vec![t]);
                let e = if v.chance(1, 4) { let a = v.int(); let f = v.e(EK::Paren(Box::new(e))); v.call(f, vec![a]) } else { e };
                let p = v.show(vec![e]);
                v.ops.push(vec![p]);
            }
            _ => {
                // everything else has a representation too
                let o = v.chars;
                v.chars = super::vals::PLAIN;
                let e = if v.chance(1, 8) { let sl = super::coll::slice(&mut v, 3); v.e(EK::SliceLit(sl)) } else { v.any(2) };
                v.chars = o;
                let p = v.show(vec![e]);
                v.ops.push(vec![p]);
            }
        }
    }
    v.run(cx)
}

/// Values for whose representation there is no such expression
pub fn c21_fixed() -> Vec<(String, R)> {
    ["'\\''", "vector()", "vector([1])", "dict()"].iter().map(|x| {
        let p = format!("let x = {} ; let y = eval(repr(x)) ; print(x == y and typeof(x) == typeof(y))", x);
        let r = crate::vmrun::run(&p, true);
        (p.clone(), if r.out.trim() == "true" { Ok(()) } else { fail(format!("eval(repr({})) is another value or an error", x), format!("{}: {}", p, r.show())) })
    }).collect()
}
