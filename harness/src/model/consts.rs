//! Operations on constants which always fail. An optimising compiler may report these when compiling.

use super::ast::*;
use super::interp::Ctl;
use super::natives::Nat;
use super::ops::{binary, unary, Op};
use super::value::V;

/// the value of a constant expression
fn eval(e: &E, errs: &mut Vec<String>) -> Option<V> {
    let r = match &e.k {
        EK::Nil => return Some(V::Nil),
        EK::Bool(b) => return Some(V::Bool(*b)),
        EK::Int(i) => return Some(V::Int(*i)),
        EK::Imag(i) => return Some(super::value::cx(0, *i)),
        EK::Str(s) => return Some(V::Str(s.as_str().into())),
        EK::Paren(a) => return eval(a, errs),
        EK::Un(o, a) => unary(*o, &eval(a, errs)?),
        EK::Bin(o, a, b) => { let a = eval(a, errs)?; let b = eval(b, errs)?; binary(*o, &a, &b) }
        EK::Tern(c, z) => {
            for (c, v) in c { if eval(c, errs)?.truthy() { return eval(v, errs); } }
            return eval(z, errs);
        }
        EK::Call(f, a) if matches!(&strip(f).k, EK::Nat(Nat::Min | Nat::Max)) => {
            if let [Arg::E(x)] = &a[..] {
                if let (EK::Nat(n), EK::Nat(Nat::Int)) = (&strip(f).k, &strip(x).k) { return Some(V::Int(if *n == Nat::Min { super::value::MIN_INT } else { super::value::MAX_INT })); }
            }
            return None;
        }
        EK::Call(f, a) => {
            let a: Vec<&E> = a.iter().map(|x| match x { Arg::E(e) => Some(e), _ => None }).collect::<Option<Vec<_>>>()?;
            return apply(f, &a, errs);
        }
        EK::Bare(f, a) => return apply(f, &[a], errs),
        EK::Comp(a, f) => {
            if let EK::List(l) = &strip(f).k {
                if l.iter().all(|x| matches!(x, Arg::E(_))) && l.len() != 1 { errs.push(format!("ValueError: Evaluating an index must have len = 1, got len = {}", l.len())); }
            }
            return apply(f, &[a], errs);
        }
        _ => return None,
    };
    keep(r, errs)
}

fn strip(mut e: &E) -> &E { while let EK::Paren(x) = &e.k { e = x } e }

fn keep(r: Result<V, Ctl>, errs: &mut Vec<String>) -> Option<V> {
    match r { Ok(v) => Some(v), Err(Ctl::Err(e)) => { errs.push(e.msg.clone()); None } Err(_) => None }
}

fn apply(f: &E, a: &[&E], errs: &mut Vec<String>) -> Option<V> {
    let f = strip(f);
    let mut go = |o: Op, x: &E, y: &E| { let x = eval(x, errs)?; let y = eval(y, errs)?; keep(binary(o, &x, &y), errs) };
    match (&f.k, a) {
        (EK::OpFn(o), [x, y]) => go(*o, x, y),
        (EK::SectL(x, o), [y]) => go(*o, x, y),
        // these have no variant with the operands swapped
        (EK::SectR(o @ (Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq | Op::Ne), x), [y]) => go(*o, x, y),
        (EK::SectR(o, y), [x]) => go(*o, x, y),
        (EK::Call(g, b), _) => {
            let mut b: Vec<&E> = b.iter().map(|x| match x { Arg::E(e) => Some(e), _ => None }).collect::<Option<Vec<_>>>()?;
            b.extend(a);
            apply(g, &b, errs)
        }
        (EK::Comp(x, g), _) => { let mut b: Vec<&E> = vec![x]; b.extend(a); apply(g, &b, errs) }
        (EK::Bare(g, x), _) => { let mut b: Vec<&E> = vec![x]; b.extend(a); apply(g, &b, errs) }
        (EK::Tern(c, z), _) => {
            for (c, v) in c { if eval(c, errs)?.truthy() { return apply(v, a, errs); } }
            apply(z, a, errs)
        }
        _ => None,
    }
}

/// every message which an operation on constants in the program reports
pub fn failures(p: &[S]) -> Vec<String> {
    let mut errs = Vec::new();
    walk_stmts(p, &mut |e| { eval(e, &mut errs); });
    errs
}
