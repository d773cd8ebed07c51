//! Integers, complex integers, rationals and vectors, and the numeric library.

use crate::engine::{fail, Cx, Failure, Src};
use crate::model::ast::*;
use crate::model::natives::{self, Nat};
use crate::model::ops::{Op, Un};

use super::vals::{Ints, Vals, K};

const ARITH: [Op; 11] = [Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Mod, Op::Pow, Op::Shl, Op::Shr, Op::And, Op::Or, Op::Xor];
const CMP: [Op; 6] = [Op::Eq, Op::Ne, Op::Lt, Op::Le, Op::Gt, Op::Ge];
const UNARY: [Un; 2] = [Un::Neg, Un::Not];

/// An integer or boolean, as a literal, variable or inner operation
fn integer(v: &mut Vals, d: u32) -> E {
    match v.s().weighted(&[4, 5, 1, 3 * d, d, d]) {
        0 => v.int(),
        1 => v.arg(K::Int, 0),
        2 => v.arg(K::Bool, 0),
        3 => { let o = *v.s().pick(&ARITH[..]); let (a, b) = operands(v, o, d - 1); v.bin(o, a, b) }
        4 => { let o = *v.s().pick(&UNARY); let a = integer(v, d - 1); v.un(o, a) }
        _ => { let (a, b) = (integer(v, d - 1), integer(v, d - 1)); let m = v.bin(Op::Mod, a, b); v.e(EK::Paren(Box::new(m))) }
    }
}

/// Operands of which most make sense for the operator
fn operands(v: &mut Vals, o: Op, d: u32) -> (E, E) {
    let a = integer(v, d);
    let b = match o {
        Op::Shl | Op::Shr if v.chance(3, 4) => { let k = v.s().int(-66, 66); v.i(k) }
        Op::Pow if v.chance(3, 4) => { let k = v.s().int(0, 70); v.i(k) }
        Op::Div | Op::Mod if v.chance(1, 2) => { let k = v.s().int(1, 9) * if v.chance(1, 2) { -1 } else { 1 }; v.i(k) }
        _ => integer(v, d),
    };
    (a, b)
}

pub fn c11(s: &mut Src, cx: &mut Cx) -> Result<(), Failure> {
    let mut v = Vals::new(s);
    v.ints = Ints::Edge;
    for _ in 0..3 { let e = v.int(); v.hold(K::Int, e); }
    let b = v.bool();
    v.hold(K::Bool, b);
    let n = v.n(4, 10);
    for _ in 0..n {
        let op = match v.s().weighted(&[10, 3, 2, 3, 1]) {
            0 => { let o = *v.s().pick(&ARITH[..]); cx.label(o.text()); v.forms(o, &mut |v| operands(v, o, 1)) }
            1 => { let o = *v.s().pick(&UNARY); let a = integer(&mut v, 1); if v.chance(1, 3) { let f = v.e(EK::UnFn(o)); if o == Un::Neg { v.un(o, a) } else { v.call(f, vec![a]) } } else { v.un(o, a) } }
            2 => { let o = *v.s().pick(&CMP); v.forms(o, &mut |v| (integer(v, 1), integer(v, 1))) }
            3 => {
                // the division law
                let (a, b) = operands(&mut v, Op::Div, 0);
                let (x, y) = (v.fresh(), v.fresh());
                let (sa, sb) = (v.let_(&x, a), v.let_(&y, b));
                v.ops.push(vec![sa, sb]);
                let (a, b, c, d, e, f) = (v.v(&x), v.v(&x), v.v(&y), v.v(&y), v.v(&x), v.v(&y));
                let q = v.bin(Op::Div, b, c);
                let q = v.bin(Op::Mul, q, d);
                let r = v.bin(Op::Mod, e, f);
                let t = v.bin(Op::Add, q, r);
                let (g, h, i, j) = (v.v(&x), v.v(&y), v.v(&x), v.v(&y));
                let q = v.bin(Op::Div, g, h);
                let r = v.bin(Op::Mod, i, j);
                let law = v.bin(Op::Eq, a, t);
                v.list(vec![q, r, law])
            }
            _ => {
                cx.label("other type");
                let o = *v.s().pick(&ARITH[..]);
                let left = v.chance(1, 2);
                v.forms(o, &mut |v| { let (a, b) = (integer(v, 0), v.any(0)); if left { (b, a) } else { (a, b) } })
            }
        };
        let p = v.show(vec![op]);
        v.ops.push(vec![p]);
    }
    v.run(cx)
}

fn number(v: &mut Vals, d: u32) -> E {
    match v.s().weighted(&[3, 1, 4, 4, 3, 4 * d, d]) {
        0 => v.arg(K::Int, 0),
        1 => v.arg(K::Bool, 0),
        2 => v.arg(K::Cx, 0),
        3 => v.arg(K::Rat, 0),
        4 => vect(v, 1),
        5 => { let o = *v.s().pick(&[Op::Add, Op::Sub, Op::Mul, Op::Div]); let (a, b) = like(v, d - 1); v.bin(o, a, b) }
        _ => { let a = number(v, d - 1); v.un(Un::Neg, a) }
    }
}

fn vect(v: &mut Vals, d: u32) -> E {
    if v.chance(1, 3) { return v.arg(K::Vect, 1); }
    let n = v.n(1, 3);
    let k = *v.s().pick(&[K::Int, K::Int, K::Cx, K::Rat, K::Str, K::Bool, K::Vect]);
    let a = (0..n).map(|_| if k == K::Vect { if d > 0 { vect(v, d - 1) } else { v.int() } } else { v.arg(k, 0) }).collect();
    v.vector(a)
}

/// Two numbers which operators can mix
fn like(v: &mut Vals, d: u32) -> (E, E) {
    match v.s().weighted(&[4, 4, 4, 2]) {
        0 => { let a = v.arg(K::Cx, 0); let b = *v.s().pick(&[K::Cx, K::Int, K::Bool]); let b = v.arg(b, 0); if v.chance(1, 2) { (a, b) } else { (b, a) } }
        1 => { let a = v.arg(K::Rat, 0); let b = *v.s().pick(&[K::Rat, K::Int, K::Bool]); let b = v.arg(b, 0); if v.chance(1, 2) { (a, b) } else { (b, a) } }
        2 => { let a = vect(v, 1); let b = if v.chance(1, 2) { vect(v, 1) } else { number(v, 0) }; if v.chance(1, 2) { (a, b) } else { (b, a) } }
        _ => (number(v, d), number(v, d)),
    }
}

pub fn c12(s: &mut Src, cx: &mut Cx) -> Result<(), Failure> {
    let mut v = Vals::new(s);
    v.ints = *v.s().pick(&[Ints::Small, Ints::Mixed, Ints::Edge]);
    for k in [K::Int, K::Cx, K::Cx, K::Rat, K::Rat] { let e = v.value(k, 0); v.hold(k, e); }
    let e = vect(&mut v, 1);
    v.hold(K::Vect, e);
    let n = v.n(4, 10);
    for _ in 0..n {
        let mut shown = Vec::new();
        let e = match v.s().weighted(&[12, 3, 3, 2, 2, 1, 1, 2]) {
            0 => { let o = *v.s().pick(&ARITH[..6]); let o = if v.chance(1, 10) { *v.s().pick(&ARITH[..]) } else { o }; v.forms(o, &mut |v| { let (a, b) = like(v, 1); if o == Op::Pow && v.chance(4, 5) { let k = v.s().int(-4, 9); (a, v.i(k)) } else { (a, b) } }) }
            1 => { let o = *v.s().pick(&UNARY); let a = number(&mut v, 1); v.un(o, a) }
            2 => { let o = *v.s().pick(&CMP); v.forms(o, &mut |v| like(v, 1)) }
            3 => { let o = *v.s().pick(&[Nat::Real, Nat::Imag, Nat::Numer, Nat::Denom, Nat::Abs, Nat::Vector, Nat::Bool, Nat::Int, Nat::Str]); let a = number(&mut v, 1); v.nat(o, vec![a]) }
            4 => { let o = *v.s().pick(&[Nat::Int, Nat::Bool, Nat::Complex, Nat::Rational, Nat::Vector]); let a = number(&mut v, 1); let f = v.f(o); v.bin(Op::Is, a, f) }
            5 => { let o = *v.s().pick(&ARITH[..]); let left = v.chance(1, 2); v.forms(o, &mut |v| { let (a, b) = (number(v, 0), v.any(0)); if left { (b, a) } else { (a, b) } }) }
            6 => {
                // of two numbers of any kind
                let (a, b) = (number(&mut v, 1), number(&mut v, 1));
                v.nat(Nat::Rational, vec![a, b])
            }
            _ => {
                // many terms
                let o = *v.s().pick(&[Op::Add, Op::Mul, Op::Sub]);
                let k = *v.s().pick(&[K::Cx, K::Rat]);
                let mut e = v.arg(k, 0);
                for _ in 0..v.n(1, 4) { let k = if v.chance(1, 4) { K::Int } else { k }; let b = v.arg(k, 0); e = v.bin(o, e, b); }
                e
            }
        };
        let z = v.fresh();
        let l = v.let_(&z, e);
        let (x, y) = (v.v(&z), v.v(&z));
        let t = v.nat(Nat::TypeOf, vec![y]);
        shown.extend([x, t]);
        let p = v.show(shown);
        v.ops.push(vec![l, p]);
    }
    v.run(cx)
}

/// The same arguments as many, or in one collection
fn spread(v: &mut Vals, f: Nat, mut a: Vec<E>) -> E {
    match v.s().weighted(&[4, 3, 1, 1, 1, 1]) {
        0 => v.nat(f, a),
        1 => { let l = v.list(a); v.nat(f, vec![l]) }
        2 => { let l = v.vector(a); v.nat(f, vec![l]) }
        3 => { let l = v.set(a); v.nat(f, vec![l]) }
        4 => { let l = v.list(a); let f = v.f(f); let id = v.g.uid(); v.e(EK::Call(Box::new(f), vec![Arg::Unroll(id, l)])) }
        _ => { let x = if a.is_empty() { return v.nat(f, a); } else { a.remove(0) }; let l = v.list(a); let f = v.f(f); let id = v.g.uid(); v.e(EK::Call(Box::new(f), vec![Arg::E(x), Arg::Unroll(id, l)])) }
    }
}

pub fn c28(s: &mut Src, cx: &mut Cx) -> Result<(), Failure> {
    let mut v = Vals::new(s);
    v.ints = *v.s().pick(&[Ints::Small, Ints::Mixed, Ints::Edge, Ints::Edge]);
    for k in [K::Int, K::Int, K::Cx, K::Rat] { let e = v.value(k, 0); v.hold(k, e); }
    let n = v.n(4, 10);
    for _ in 0..n {
        let e = match v.s().weighted(&[3, 4, 4, 2, 4, 5, 1, 3, 2, 1]) {
            0 => { let a = number(&mut v, 0); v.nat(Nat::Abs, vec![a]) }
            1 => {
                let a = match v.s().weighted(&[4, 3, 2, 1]) {
                    0 => { let i = v.int_value(); v.i(i.unsigned_abs().min(crate::model::value::MAX_INT as u64) as i64) }
                    1 => { let k = v.s().int(0, 2147483647); let r = k.min(*v.s().pick(&[9, 100, 70000, i64::MAX])); let d = v.s().int(-1, 1); v.i((r * r + d).max(0)) }
                    2 => if v.chance(1, 2) { v.arg(K::Rat, 0) } else { let (a, b, c) = (v.s().int(0, 9), v.s().int(1, 9), v.s().int(1, 3)); let (x, y) = (v.i(a * a * c), v.i(b * b * c)); v.nat(Nat::Rational, vec![x, y]) },
                    _ => v.any(0),
                };
                v.nat(Nat::Sqrt, vec![a])
            }
            2 => {
                let f = *v.s().pick(&[Nat::Gcd, Nat::Lcm]);
                let n = v.n(1, 4);
                let m = v.s().int(1, 12);
                let a = (0..n).map(|_| match v.s().weighted(&[4, 2, 1]) { 0 => { let k = v.s().int(-9, 12) * m; v.i(k) } 1 => v.int(), _ => v.arg(K::Bool, 0) }).collect();
                spread(&mut v, f, a)
            }
            3 => {
                // as many bits as there are zeros in 0 (see the known finding)
                let x = v.int_value();
                let all = v.i(0);
                let all = v.nat(Nat::CountZeros, vec![all]);
                let a = v.i(x);
                let ones = v.nat(Nat::CountOnes, vec![a]);
                let a = v.i(x);
                let zeros = v.nat(Nat::CountZeros, vec![a]);
                let (p, q) = if x >= 0 { (ones, v.bin(Op::Sub, zeros, all)) } else { (v.bin(Op::Sub, ones, all), zeros) };
                v.list(vec![p, q])
            }
            4 => { let n = v.n(0, 5); let a = (0..n).map(|_| if v.chance(1, 8) { v.arg(K::Bool, 0) } else { v.arg(K::Int, 0) }).collect(); spread(&mut v, Nat::Sum, a) }
            5 => { let f = *v.s().pick(&[Nat::Min, Nat::Max]); let n = v.n(1, 5); let a = if v.chance(2, 3) { (0..n).map(|_| v.int()).collect() } else { v.ordered(n) }; spread(&mut v, f, a) }
            6 => { let f = *v.s().pick(&[Nat::Min, Nat::Max]); let t = v.f(Nat::Int); v.nat(f, vec![t]) }
            7 => {
                // min= and max=
                let k = *v.s().pick(&[K::Int, K::Int, K::Rat, K::Str]);
                let (a, b) = (v.value(k, 0), v.value(k, 0));
                let z = v.fresh();
                let l = v.let_(&z, a);
                let o = *v.s().pick(&[AOp::Min, AOp::Max]);
                let x = v.e(EK::OpAssign(Lv::Var(z.clone()), o, Box::new(b)));
                v.ops.push(vec![l]);
                let p = v.show(vec![x]);
                v.ops.push(vec![p]);
                v.v(&z)
            }
            8 => { let f = *v.s().pick(&[Nat::Real, Nat::Imag, Nat::Numer, Nat::Denom]); let a = number(&mut v, 0); v.nat(f, vec![a]) }
            _ => { let f = *v.s().pick(&[Nat::Abs, Nat::Sqrt, Nat::Gcd, Nat::Lcm, Nat::Sum, Nat::Min, Nat::Max, Nat::Real, Nat::Numer, Nat::Denom, Nat::Imag]); let a = v.any(1); if v.chance(1, 3) { let b = v.any(0); v.nat(f, vec![a, b]) } else { v.nat(f, vec![a]) } }
        };
        let p = v.show(vec![e]);
        v.ops.push(vec![p]);
    }
    natives::set_count_bits(true);
    let r = v.run(cx);
    natives::set_count_bits(false);
    r
}

/// The documented number of bits is 63
pub fn c28_fixed() -> Vec<(String, Result<(), Failure>)> {
    [("print(count_zeros(0))", "63"), ("print(count_ones(-1))", "63")].iter().map(|(p, want)| {
        let r = crate::vmrun::run(p, true);
        let got = r.out.trim().to_string();
        (p.to_string(), if got == *want { Ok(()) } else { fail(format!("{} printed {}", p, got), format!("{}: expected {}, got {}", p, want, r.show())) })
    }).collect()
}
