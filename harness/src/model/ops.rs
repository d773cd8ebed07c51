//! Operators of the reference model, on exact integers where the reference defines the result mathematically.

use std::rc::Rc;

use rug::ops::Pow;
use rug::Rational;

use super::interp::{err, unknown, R};
use super::value::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Un { Neg, Not, LNot }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op { Mul, Div, Pow, Mod, Is, IsNot, In, NotIn, Add, Sub, Shl, Shr, And, Or, Xor, Lt, Gt, Le, Ge, Eq, Ne }

pub const ALL_OPS: [Op; 21] = [Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Mod, Op::Pow, Op::Eq, Op::Ne, Op::Lt, Op::Le, Op::Gt, Op::Ge, Op::And, Op::Or, Op::Xor, Op::Shl, Op::Shr, Op::In, Op::NotIn, Op::Is, Op::IsNot];

impl Op {
    pub fn text(self) -> &'static str {
        match self {
            Op::Mul => "*", Op::Div => "/", Op::Pow => "**", Op::Mod => "%", Op::Is => "is", Op::IsNot => "is not", Op::In => "in", Op::NotIn => "not in",
            Op::Add => "+", Op::Sub => "-", Op::Shl => "<<", Op::Shr => ">>", Op::And => "&", Op::Or => "|", Op::Xor => "^",
            Op::Lt => "<", Op::Gt => ">", Op::Le => "<=", Op::Ge => ">=", Op::Eq => "==", Op::Ne => "!=",
        }
    }
    pub fn is_cmp(self) -> bool { matches!(self, Op::Lt | Op::Gt | Op::Le | Op::Ge | Op::Eq | Op::Ne) }
    pub fn is_arith(self) -> bool { matches!(self, Op::Mul | Op::Div | Op::Pow | Op::Mod | Op::Add | Op::Sub | Op::Shl | Op::Shr | Op::And | Op::Or | Op::Xor) }
}

impl Un { pub fn text(self) -> &'static str { match self { Un::Neg => "-", Un::Not => "!", Un::LNot => "not " } } }

pub fn unary(op: Un, a: &V) -> R<V> {
    if op == Un::LNot { return Ok(V::Bool(!a.truthy())); }
    match (op, a) {
        (Un::Neg, V::Int(_) | V::Bool(_)) => Ok(int(-(a.as_int().unwrap() as i128))),
        (Un::Neg, V::Cx(re, im)) => Ok(cx(re.wrapping_neg(), im.wrapping_neg())),
        (Un::Neg, V::Rat(r)) => Ok(rat(-(**r).clone())),
        (Un::Not, V::Bool(b)) => Ok(V::Bool(!b)),
        (Un::Not, V::Int(i)) => Ok(V::Int(-i - 1)),
        (Un::Not, V::Cx(re, im)) => Ok(cx(*re, im.wrapping_neg())),
        (_, V::Vector(v)) => {
            let v = v.borrow().clone();
            Ok(vector(v.iter().map(|x| unary(op, x)).collect::<R<Vec<V>>>()?))
        }
        _ => err(format!("TypeError: Operator unary '{}' is not supported for type {}", op.text().trim(), a.type_name())),
    }
}

fn type_err(op: Op, a: &V, b: &V) -> R<V> {
    err(format!("TypeError: Operator '{}' is not supported for arguments of type {} and {}", op.text(), a.type_name(), b.type_name()))
}

fn fdiv(a: i128, b: i128) -> i128 { let q = a / b; if a % b != 0 && ((a < 0) != (b < 0)) { q - 1 } else { q } }
fn fmod(a: i128, b: i128) -> i128 { a - fdiv(a, b) * b }

fn w64(x: i128) -> i64 { x as i64 }

/// Vectors apply elementwise, where the left operand is dispatched on first
fn vectors(op: Op, a: &V, b: &V) -> Option<R<V>> {
    match (a, b) {
        (V::Vector(x), V::Vector(y)) => {
            let (x, y) = (x.borrow().clone(), y.borrow().clone());
            Some(x.iter().zip(y.iter()).map(|(p, q)| binary(op, p, q)).collect::<R<Vec<V>>>().map(vector))
        }
        (V::Vector(x), _) => Some(x.borrow().clone().iter().map(|p| binary(op, p, b)).collect::<R<Vec<V>>>().map(vector)),
        (_, V::Vector(y)) => Some(y.borrow().clone().iter().map(|q| binary(op, a, q)).collect::<R<Vec<V>>>().map(vector)),
        _ => None,
    }
}

pub fn shift(a: i64, n: i64) -> i64 {
    // n > 0 : left
    if n >= 0 {
        if n >= 63 { 0 } else { wrap63((a as i128) << n) }
    } else if n <= -63 { if a < 0 { -1 } else { 0 } } else { a >> -n }
}

pub fn pow63(a: i64, n: i64) -> i64 {
    // exact modulo 2^63: by repeated squaring on integers reduced modulo 2^64
    let (mut r, mut b, mut n) = (1u64, a as u64, n as u64);
    while n > 0 {
        if n & 1 == 1 { r = r.wrapping_mul(b); }
        b = b.wrapping_mul(b);
        n >>= 1;
    }
    wrap63(r as i64 as i128)
}

const MAX_SIZE: usize = 1 << 16;

fn repeat(op: Op, a: &V, n: i64, deep: bool) -> R<V> {
    if n < 0 {
        return err(format!("ValueError: Operator '{}' is not supported for arguments of type {} and negative integer {}", op.text(), a.type_name(), n));
    }
    match a {
        V::Str(s) => {
            if s.len().saturating_mul(n as usize) > MAX_SIZE { return unknown("size"); }
            Ok(V::Str(s.repeat(n as usize).into()))
        }
        V::List(l) => {
            let l = l.borrow().clone();
            if l.len().saturating_mul(n as usize) > MAX_SIZE { return unknown("size"); }
            let mut r = Vec::new();
            if l.is_empty() { return Ok(list(r)); }
            for _ in 0..n { for x in &l { r.push(if deep { copy(x) } else { x.clone() }); } }
            Ok(list(r))
        }
        _ => unreachable!(),
    }
}

/// Deep copy which keeps shared and self references
pub fn copy(v: &V) -> V { copy_with(v, &mut Vec::new()) }

fn copy_with(v: &V, seen: &mut Vec<(V, V)>) -> V {
    use std::cell::RefCell;
    fn same(a: &V, b: &V) -> bool {
        match (a, b) {
            (V::List(x), V::List(y)) | (V::Set(x), V::Set(y)) | (V::Vector(x), V::Vector(y)) | (V::Heap(x), V::Heap(y)) => Rc::ptr_eq(x, y),
            (V::Dict(x), V::Dict(y)) => Rc::ptr_eq(x, y),
            (V::Struct(x), V::Struct(y)) => Rc::ptr_eq(x, y),
            _ => false,
        }
    }
    if let Some((_, c)) = seen.iter().find(|(o, _)| same(o, v)) { return c.clone(); }
    match v {
        V::List(l) | V::Set(l) | V::Vector(l) | V::Heap(l) => {
            let cell = Rc::new(RefCell::new(Vec::new()));
            let c = match v { V::List(_) => V::List(cell.clone()), V::Set(_) => V::Set(cell.clone()), V::Vector(_) => V::Vector(cell.clone()), _ => V::Heap(cell.clone()) };
            seen.push((v.clone(), c.clone()));
            let items: Vec<V> = l.borrow().clone();
            let copied: Vec<V> = items.iter().map(|x| copy_with(x, seen)).collect();
            *cell.borrow_mut() = copied;
            c
        }
        V::Dict(d) => {
            let cell = Rc::new(RefCell::new(DictV { e: Vec::new(), default: d.borrow().default.clone() }));
            let c = V::Dict(cell.clone());
            seen.push((v.clone(), c.clone()));
            let items: Vec<(V, V)> = d.borrow().e.clone();
            let copied: Vec<(V, V)> = items.iter().map(|(k, x)| (copy_with(k, seen), copy_with(x, seen))).collect();
            cell.borrow_mut().e = copied;
            c
        }
        V::Struct(s) => {
            let cell = Rc::new(StructV { ty: s.ty.clone(), f: RefCell::new(Vec::new()) });
            let c = V::Struct(cell.clone());
            seen.push((v.clone(), c.clone()));
            let items: Vec<V> = s.f.borrow().clone();
            let copied: Vec<V> = items.iter().map(|x| copy_with(x, seen)).collect();
            *cell.f.borrow_mut() = copied;
            c
        }
        v => v.clone(),
    }
}

fn in_range(x: i64, r: (i64, i64, i64)) -> bool {
    let (a, b, c, x) = (r.0 as i128, r.1 as i128, r.2 as i128, x as i128);
    c != 0 && (if c > 0 { a <= x && x < b } else { b < x && x <= a }) && (x - a) % c == 0
}

pub fn is_of(a: &V, t: &V) -> R<bool> {
    use super::natives::Nat::*;
    Ok(match t {
        V::Nil => matches!(a, V::Nil),
        V::SType(s) => matches!(a, V::Struct(x) if Rc::ptr_eq(&x.ty, s)),
        V::Nat(n) => match n {
            Bool => matches!(a, V::Bool(_)),
            Int => a.is_int(),
            Complex => a.is_int() || matches!(a, V::Cx(..)),
            Rational => a.is_int() || matches!(a, V::Rat(_)),
            Str => matches!(a, V::Str(_)),
            Function => a.is_function(),
            List => matches!(a, V::List(_)),
            Set => matches!(a, V::Set(_)),
            Dict => matches!(a, V::Dict(_)),
            Vector => matches!(a, V::Vector(_)),
            Heap => matches!(a, V::Heap(_)),
            Iterable => a.is_iterable(),
            Range => matches!(a, V::Range(..)),
            Enumerate => matches!(a, V::Enum(_)),
            Any => true,
            _ => return err(format!("TypeError: {} is not a type and cannot be used with binary 'is' on {}", t.errstr(), a.errstr())),
        },
        _ => return err(format!("TypeError: {} is not a type and cannot be used with binary 'is' on {}", t.errstr(), a.errstr())),
    })
}

pub fn binary(op: Op, a: &V, b: &V) -> R<V> {
    match op {
        Op::Eq => return Ok(V::Bool(eq(a, b))),
        Op::Ne => return Ok(V::Bool(!eq(a, b))),
        Op::Lt => return Ok(V::Bool(cmp(a, b).is_lt())),
        Op::Gt => return Ok(V::Bool(cmp(a, b).is_gt())),
        Op::Le => return Ok(V::Bool(cmp(a, b).is_le())),
        Op::Ge => return Ok(V::Bool(cmp(a, b).is_ge())),
        Op::Is => return is_of(a, b).map(V::Bool),
        Op::IsNot => return is_of(a, b).map(|x| V::Bool(!x)),
        Op::In | Op::NotIn => {
            let r = match (a, b) {
                (V::Str(x), V::Str(y)) => {
                    let (x, y): (Vec<char>, Vec<char>) = (x.chars().collect(), y.chars().collect());
                    x.is_empty() || (x.len() <= y.len() && (0..=y.len() - x.len()).any(|i| y[i..i + x.len()] == x[..]))
                }
                (V::Int(_) | V::Bool(_), V::Range(p, q, r)) => in_range(a.as_int().unwrap(), (*p, *q, *r)),
                (_, V::Set(l)) => { hashed(a); l.borrow().iter().any(|x| eq(x, a)) }
                (_, V::List(l) | V::Heap(l) | V::Vector(l)) => l.borrow().iter().any(|x| eq(x, a)),
                (_, V::Dict(d)) => d.borrow().get(a).is_some(),
                _ => return type_err(Op::In, a, b),
            };
            return Ok(V::Bool(r == (op == Op::In)));
        }
        _ => {}
    }
    // strings and lists before vectors: the left operand is dispatched on first
    match (op, a, b) {
        (Op::Mul, V::Str(_) | V::List(_), V::Int(n)) => return repeat(op, a, *n, false),
        (Op::Mul, V::Int(n), V::Str(_) | V::List(_)) => return repeat(op, b, *n, false),
        (Op::Pow, V::List(_), V::Int(n)) => return repeat(op, a, *n, true),
        (Op::Pow, V::Int(n), V::List(_)) => return repeat(op, b, *n, true),
        (Op::Mod, V::Str(s), _) => return super::natives::format_string(s, b),
        (Op::Add, V::List(x), V::List(y)) => {
            let mut r = x.borrow().clone();
            r.extend(y.borrow().iter().cloned());
            if r.len() > MAX_SIZE { return unknown("size"); }
            return Ok(list(r));
        }
        (Op::Add, V::Str(x), y) => { let r = format!("{}{}", x, y.str()); return if r.len() > TOO_BIG { unknown("size") } else { Ok(V::Str(r.into())) } }
        (Op::Add, x, V::Str(y)) => { let r = format!("{}{}", x.str(), y); return if r.len() > TOO_BIG { unknown("size") } else { Ok(V::Str(r.into())) } }
        (Op::Sub | Op::And | Op::Or | Op::Xor, V::Set(x), V::Set(y)) => {
            let (x, y) = (x.borrow().clone(), y.borrow().clone());
            let has = |s: &[V], v: &V| s.iter().any(|w| eq(w, v));
            let mut r: Vec<V> = Vec::new();
            for v in &x {
                let keep = match op { Op::Sub | Op::Xor => !has(&y, v), Op::And => has(&y, v), _ => true };
                if keep { r.push(v.clone()); }
            }
            if matches!(op, Op::Or | Op::Xor) { for v in &y { if !has(&x, v) { r.push(v.clone()); } } }
            return Ok(set(r));
        }
        _ => {}
    }
    if let Some(r) = vectors(op, a, b) { return r; }
    if let (Some(x), Some(y)) = (a.as_int(), b.as_int()) {
        let (xi, yi) = (x as i128, y as i128);
        if let (V::Bool(p), V::Bool(q)) = (a, b) {
            match op {
                Op::And => return Ok(V::Bool(*p && *q)),
                Op::Or => return Ok(V::Bool(*p || *q)),
                Op::Xor => return Ok(V::Bool(*p != *q)),
                _ => {}
            }
        }
        return Ok(match op {
            Op::Add => int(xi + yi),
            Op::Sub => int(xi - yi),
            Op::Mul => int(xi * yi),
            Op::Div => { if y == 0 { return err("ValueError: Division by zero"); } int(fdiv(xi, yi)) }
            Op::Mod => { if y == 0 { return err("ValueError: Modulo by zero"); } int(fmod(xi, yi)) }
            Op::Pow => { if y < 0 { return err(format!("ValueError: Power of an integral value by '{}' which is negative", y)); } V::Int(pow63(x, y)) }
            Op::Shl => V::Int(shift(x, y)),
            Op::Shr => V::Int(shift(x, -y)),
            Op::And => V::Int(x & y),
            Op::Or => V::Int(x | y),
            Op::Xor => V::Int(x ^ y),
            _ => unreachable!(),
        });
    }
    if let (Some((ar, ai)), Some((br, bi))) = (a.as_cx(), b.as_cx()) {
        let (p, q, r, s) = (ar as i128, ai as i128, br as i128, bi as i128);
        let big = |x: i64| x.unsigned_abs() > (1 << 62);
        match op {
            Op::Add => return Ok(cx(w64(p + r), w64(q + s))),
            Op::Sub => return Ok(cx(w64(p - r), w64(q - s))),
            Op::Mul => {
                return Ok(cx(w64((p * r).wrapping_sub(q * s)), w64((p * s).wrapping_add(q * r))));
            }
            Op::Div => {
                if br == 0 && bi == 0 { return err("ValueError: Division by zero"); }
                if big(ar) || big(ai) || big(br) || big(bi) { return unknown("large complex"); }
                let n = r * r + s * s;
                return Ok(cx(w64(fdiv(p * r + q * s, n)), w64(fdiv(q * r - p * s, n))));
            }
            Op::Mod => if let (V::Cx(..), Some(m)) = (a, b.as_int()) {
                if m == 0 { return err("ValueError: Modulo by zero"); }
                return Ok(cx(w64(fmod(p, m as i128)), w64(fmod(q, m as i128))));
            },
            Op::Pow => if let (V::Cx(..), Some(n)) = (a, b.as_int()) {
                if n < 0 { return err(format!("ValueError: Power of an integral value by '{}' which is negative", n)); }
                let (mut re, mut im) = (1i128, 0i128);
                if n > 2000 { return unknown("large power"); }
                for _ in 0..n {
                    let t = w64((re * p).wrapping_sub(im * q)) as i128;
                    im = w64((re * q).wrapping_add(im * p)) as i128;
                    re = t;
                }
                return Ok(cx(w64(re), w64(im)));
            },
            _ => {}
        }
        return type_err(op, a, b);
    }
    if let (Some(x), Some(y)) = (a.as_rat(), b.as_rat()) {
        match op {
            Op::Add => return Ok(rat(x + y)),
            Op::Sub => return Ok(rat(x - y)),
            Op::Mul => return Ok(rat(x * y)),
            Op::Div => { if y.is_zero() { return err("ValueError: Division by zero"); } return Ok(rat(x / y)); }
            Op::Pow => if let (V::Rat(_), Some(n)) = (a, b.as_int()) {
                if n < 0 && x.is_zero() && n >= i32::MIN as i64 { return err("ValueError: Division by zero"); }
                if n.unsigned_abs() > 200 { return unknown("large power"); }
                // repeated multiplication
                let mut r = Rational::from(1);
                for _ in 0..n.unsigned_abs() { r *= &x; }
                if n < 0 { r.recip_mut(); }
                debug_assert!(r == x.pow(n as i32));
                return Ok(rat(r));
            },
            _ => {}
        }
    }
    type_err(op, a, b)
}
