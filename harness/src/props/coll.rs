//! Equality and order, histories of collections, indexing, and copies.

use std::rc::Rc;

use crate::engine::{Cx, Failure, Src};
use crate::model::ast::*;
use crate::model::natives::Nat;
use crate::model::ops::Op;
use crate::model::value::{MAX_INT, MIN_INT};

use super::vals::{Vals, K, NARROW};

// ----- C13 -----

/// The content of a value, which can be written in several ways
#[derive(Clone, PartialEq, Debug)]
enum D { Nil, Bool(bool), Int(i64), Cx(i64, i64), Rat(i64, i64), Str(String), List(Vec<D>), Vect(Vec<D>), Set(Vec<D>), Dict(Vec<(D, D)>), Heap(Vec<i64>), Struct(Vec<D>), Type(Nat), Range(i64, i64, i64), Enum(Vec<D>) }

fn datum(v: &mut Vals, k: usize, d: u32) -> D {
    match k {
        0 => D::Int(v.s().int(-1, 3)),
        1 => D::Str(v.text(2)),
        2 => D::Bool(v.chance(1, 2)),
        3 => D::Nil,
        4 => D::Cx(v.s().int(-1, 1), *v.s().pick(&[1, -1, 2])),
        5 => { let n = v.s().int(-3, 4); D::Rat(n, *v.s().pick(&[2, 1, 3])) }
        6 => D::List(data(v, 3, d)),
        7 => D::Vect(data(v, 3, d)),
        8 => D::Set(data(v, 3, d)),
        9 => { let k = data(v, 3, 0); let w = data(v, 3, d); D::Dict(k.into_iter().zip(w).collect()) }
        10 => { let n = v.n(0, 3); D::Heap((0..n).map(|_| v.s().int(0, 2)).collect()) }
        11 => { v.strukt(); let n = v.n(1, 2); D::Struct((0..n).map(|_| { let k = v.s().below(3); datum(v, k, 0) }).collect()) }
        12 => D::Int(*v.s().pick(&[MAX_INT, MIN_INT, MAX_INT - 1, 1 << 53, (1 << 53) + 1, 1 << 32])),
        13 => D::Type(*v.s().pick(&[Nat::Int, Nat::Str, Nat::Map])),
        14 => { let a = v.s().int(0, 1); let n = v.s().int(0, 3); let c = *v.s().pick(&[1, -1, 2]); D::Range(a, a + c * n, c) }
        _ => D::Enum(data(v, 2, 0)),
    }
}

/// Elements, usually of one kind
fn data(v: &mut Vals, max: usize, d: u32) -> Vec<D> {
    let n = v.n(0, max);
    let k = elem(v, d);
    let mixed = v.chance(1, 5);
    (0..n).map(|_| { let k = if mixed { elem(v, d) } else { k }; datum(v, k, d.saturating_sub(1)) }).collect()
}
fn elem(v: &mut Vals, d: u32) -> usize { v.s().weighted(&[8, 4, 1, 1, 1, 2, d, 2 * d, d, d, 0, d, 1]) }

fn shuffle(v: &mut Vals, mut x: Vec<E>) -> Vec<E> { for i in (1..x.len()).rev() { let j = i - v.s().below(i + 1); x.swap(i, j); } x }

/// One of the ways to write a value
fn write(v: &mut Vals, d: &D) -> E {
    let plain = v.chance(1, 2);
    match d {
        D::Nil => v.e(EK::Nil),
        D::Bool(b) => if plain { v.e(EK::Bool(*b)) } else { let i = v.i(*b as i64); v.nat(Nat::Bool, vec![i]) },
        D::Int(i) => if plain || i.abs() > 1 << 60 { v.i(*i) } else { let k = v.s().int(-3, 3); let (a, b) = (v.i(i - k), v.i(k)); v.bin(Op::Add, a, b) },
        D::Cx(a, b) => { let (x, y) = (v.i(*a), v.e(EK::Imag(1))); let b = v.i(*b); let y = v.bin(Op::Mul, b, y); if plain { v.bin(Op::Add, x, y) } else { v.bin(Op::Add, y, x) } }
        D::Rat(a, b) => { let k = if plain { 1 } else { v.s().int(2, 4) * if v.chance(1, 2) { -1 } else { 1 } }; let (a, b) = (v.i(a * k), v.i(b * k)); v.nat(Nat::Rational, vec![a, b]) }
        D::Str(s) => if plain || s.is_empty() { v.t(s) } else {
            let cs: Vec<char> = s.chars().collect();
            let k = v.s().below(cs.len() + 1);
            let (a, b): (String, String) = (cs[..k].iter().collect(), cs[k..].iter().collect());
            let (a, b) = (v.t(&a), v.t(&b));
            if v.chance(1, 2) { v.bin(Op::Add, a, b) } else { let l = v.list(vec![a, b]); let j = v.t(""); v.nat(Nat::Join, vec![j, l]) }
        },
        D::List(x) => {
            match v.s().weighted(&[4, 1, 1, 1, 1]) {
                0 => { let a = all(v, x); v.list(a) }
                1 => { let mut a = all(v, x); a.reverse(); let l = v.list(a); v.nat(Nat::Reverse, vec![l]) }
                2 => { let k = v.s().below(x.len() + 1); let (a, b) = (all(v, &x[..k]), all(v, &x[k..])); let (a, b) = (v.list(a), v.list(b)); v.bin(Op::Add, a, b) }
                3 => { let mut e = v.nat(Nat::List, vec![]); for y in x { let y = write(v, y); e = v.nat(Nat::Push, vec![y, e]); } e }
                _ => { let a = all(v, x); let l = v.list(a); v.nat(Nat::Copy, vec![l]) }
            }
        }
        D::Vect(x) => { let a = all(v, x); if plain { v.vector(a) } else { let l = v.list(a); v.nat(Nat::Vector, vec![l]) } }
        D::Set(x) => {
            let mut a = all(v, x);
            if v.chance(1, 2) { a = shuffle(v, a); }
            if !a.is_empty() && v.chance(1, 4) { let k = v.s().below(x.len()); let y = write(v, &x[k]); a.push(y); }
            match v.s().weighted(&[4, 2, 1, 1, 1]) {
                0 => v.set(a),
                1 => { let l = v.list(a); v.nat(Nat::Set, vec![l]) }
                2 => { let mut e = v.nat(Nat::Set, vec![]); for y in a { e = v.nat(Nat::Push, vec![y, e]); } e }
                3 => { let k = v.s().below(a.len() + 1); let b = a.split_off(k); let (a, b) = (v.set(a), v.list(b)); v.nat(Nat::Union, vec![b, a]) }
                _ => { let k = v.s().below(a.len() + 1); let b = a.split_off(k); let (a, b) = (v.set(a), v.set(b)); v.bin(Op::Or, a, b) }
            }
        }
        D::Dict(x) => {
            // the last of equal keys counts, so these stay in order
            let distinct = x.iter().enumerate().all(|(i, a)| x[..i].iter().all(|b| !same(&a.0, &b.0)));
            let mut p: Vec<(E, E)> = x.iter().map(|(k, w)| (write(v, k), write(v, w))).collect();
            if distinct && v.chance(1, 2) { for i in (1..p.len()).rev() { let j = i - v.s().below(i + 1); p.swap(i, j); } }
            match v.s().weighted(&[4, 2, 1]) {
                0 => v.dict(p),
                1 => { let p = p.into_iter().map(|(k, w)| v.vector(vec![k, w])).collect(); let l = v.list(p); v.nat(Nat::Dict, vec![l]) }
                _ => { let mut e = v.nat(Nat::Dict, vec![]); for (k, w) in p { e = v.nat(Nat::Insert, vec![k, w, e]); } e }
            }
        }
        D::Heap(x) => { let a = x.iter().map(|i| v.i(*i)).collect(); let a = shuffle(v, a); let l = v.list(a); v.nat(Nat::Heap, vec![l]) }
        D::Struct(x) => { let a = all(v, x); let f = v.v(if x.len() == 1 { "T" } else { "S" }); v.call(f, a) }
        D::Type(n) => v.f(*n),
        D::Range(a, b, c) => { let (a, b, c) = (v.i(*a), v.i(*b), v.i(*c)); v.nat(Nat::Range, vec![a, b, c]) }
        D::Enum(x) => { let a = all(v, x); let l = v.list(a); v.nat(Nat::Enumerate, vec![l]) }
    }
}

fn all(v: &mut Vals, x: &[D]) -> Vec<E> { x.iter().map(|y| write(v, y)).collect() }

/// Whether two keys may be equal
fn same(a: &D, b: &D) -> bool {
    match (a, b) {
        (D::Int(x), D::Rat(n, d)) | (D::Rat(n, d), D::Int(x)) => x * d == *n,
        (D::Rat(n, d), D::Rat(p, q)) => n * q == p * d,
        (D::Cx(..), _) | (_, D::Cx(..)) => a == b,
        (D::List(x), D::List(y)) | (D::Vect(x), D::Vect(y)) | (D::Struct(x), D::Struct(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| same(a, b)),
        (D::Set(_), D::Set(_)) | (D::Dict(_), D::Dict(_)) | (D::Heap(_), D::Heap(_)) | (D::Enum(_), D::Enum(_)) | (D::Range(..), D::Range(..)) => true,
        _ => a == b,
    }
}

/// A small change
fn change(v: &mut Vals, d: &D) -> D {
    let mut d = d.clone();
    match &mut d {
        D::Int(i) => { let k = v.s().int(-1, 1); if i.abs() < 1 << 60 { *i += k; } }
        D::Bool(b) => return if v.chance(1, 2) { D::Int(*b as i64) } else { D::Bool(!*b) },
        D::Str(s) => { let t = v.text(1); s.push_str(&t); }
        D::Cx(a, b) => { if v.chance(1, 2) { *a += 1 } else { *b = -*b } }
        D::Rat(n, m) => { if *n % *m == 0 && v.chance(1, 2) { return D::Int(*n / *m); } *n += 1; }
        D::List(x) | D::Vect(x) | D::Struct(x) | D::Enum(x) if !x.is_empty() => { let i = v.s().below(x.len()); x[i] = change(v, &x[i]); }
        D::List(x) | D::Enum(x) => x.push(D::Int(0)),
        D::Vect(x) if v.chance(1, 2) => { let x = x.clone(); return D::List(x); }
        D::Set(x) => if v.chance(1, 2) && !x.is_empty() { let i = v.s().below(x.len()); if v.chance(1, 2) { x.remove(i); } else { x[i] = change(v, &x[i]); } } else { let k = v.s().int(0, 3); x.push(D::Int(k)); },
        D::Dict(x) if !x.is_empty() => { let i = v.s().below(x.len()); match v.s().below(3) { 0 => { x.remove(i); } 1 => { let y = change(v, &x[i].1); x[i].1 = y; } _ => { let y = change(v, &x[i].0); x[i].0 = y; } } }
        D::Heap(x) => { let k = v.s().int(0, 2); x.push(k); }
        D::Range(_, b, _) => { let k = v.s().int(-1, 1); *b += k; }
        _ => {}
    }
    d
}

const CMP: [Op; 6] = [Op::Eq, Op::Ne, Op::Lt, Op::Le, Op::Gt, Op::Ge];

pub fn c13(s: &mut Src, cx: &mut Cx) -> Result<(), Failure> {
    let mut v = Vals::new(s);
    if v.chance(2, 3) { v.chars = NARROW; }
    let k = v.s().weighted(&[4, 4, 1, 1, 2, 3, 4, 4, 4, 4, 2, 2, 1, 1, 1, 1]);
    let base = datum(&mut v, k, 2);
    let n = v.n(2, 4);
    let mut ds = vec![base];
    for _ in 1..n {
        let i = v.s().below(ds.len());
        let d = match v.s().weighted(&[4, 4, 2, 1]) { 0 => ds[i].clone(), 1 => change(&mut v, &ds[i].clone()), 2 => datum(&mut v, k, 2), _ => { let k = v.s().below(16); datum(&mut v, k, 1) } };
        ds.push(d);
    }
    let names: Vec<String> = ds.iter().map(|d| { let e = write(&mut v, d); v.hold(K::List, e) }).collect();
    let n = names.len();
    // all comparisons of all pairs
    for i in 0..n {
        for j in 0..n {
            if v.chance(1, 4) { continue; }
            let a: Vec<E> = CMP.iter().map(|o| { let (a, b) = (v.v(&names[i]), v.v(&names[j])); v.bin(*o, a, b) }).collect();
            let p = v.show(a);
            v.ops.push(vec![p]);
        }
    }
    for _ in 0..v.n(3, 9) {
        // values by name or written in another way
        let val = |v: &mut Vals| { let i = v.s().below(n); if v.chance(1, 2) { let x = write(v, &ds[i]); v.e(EK::Paren(Box::new(x))) } else { v.v(&names[i]) } };
        let many = |v: &mut Vals| -> Vec<E> { let k = v.n(1, 5); (0..k).map(|_| { let i = v.s().below(n); if v.chance(1, 3) { write(v, &ds[i]) } else { v.v(&names[i]) } }).collect() };
        let e = match v.s().weighted(&[2, 3, 2, 3, 2, 2, 3, 3, 2, 2, 2, 1, 2, 2, 2, 1]) {
            15 => { let (a, b) = (val(&mut v), many(&mut v)); let l = v.list(b); let h = v.nat(Nat::Heap, vec![l]); let o = *v.s().pick(&[Op::In, Op::NotIn]); v.bin(o, a, h) }
            0 => { let (a, b) = (val(&mut v), many(&mut v)); let l = v.list(b); v.bin(Op::In, a, l) }
            1 => { let (a, b) = (val(&mut v), many(&mut v)); let l = v.set(b); let o = *v.s().pick(&[Op::In, Op::NotIn]); v.bin(o, a, l) }
            2 => { let b = many(&mut v); let l = v.set(b); v.nat(Nat::Len, vec![l]) }
            3 => {
                let b = many(&mut v);
                let p = b.into_iter().enumerate().map(|(i, e)| (e, v.i(i as i64))).collect();
                let d = v.dict(p);
                let a = val(&mut v);
                let k = v.i(-1);
                let d = v.nat(Nat::Default, vec![k, d]);
                v.index(d, a)
            }
            4 => { let b = many(&mut v); let p = b.into_iter().map(|e| (e, v.i(0))).collect(); let d = v.dict(p); let a = val(&mut v); let (l, i) = (v.bin(Op::In, a, d), v.t("in")); v.list(vec![l, i]) }
            5 => { let (a, b) = (val(&mut v), many(&mut v)); let l = v.list(b); let f = *v.s().pick(&[Nat::IndexOf, Nat::RightIndexOf, Nat::Find]); v.nat(f, vec![a, l]) }
            6 => { let b = many(&mut v); let l = v.list(b); v.nat(Nat::Sort, vec![l]) }
            7 => { let b = many(&mut v); let l = v.list(b); let f = *v.s().pick(&[Nat::Min, Nat::Max]); v.nat(f, vec![l]) }
            8 => {
                // a heap, emptied
                let b = many(&mut v);
                let k = b.len();
                let l = v.list(b);
                let h = v.nat(Nat::Heap, vec![l]);
                let z = v.fresh();
                let s = v.let_(&z, h);
                let mut r = Vec::new();
                for _ in 0..k { let h = v.v(&z); r.push(v.nat(Nat::Pop, vec![h])); }
                let p = v.show(r);
                v.ops.push(vec![s, p]);
                continue;
            }
            9 => { let b = many(&mut v); let mut l = v.list(b); if v.chance(1, 4) { let k = *v.s().pick(&[2, 90, 300, 700]); let k = v.i(k); l = v.bin(Op::Pow, l, k); } v.nat(Nat::Counter, vec![l]) }
            10 => { let (a, b) = (many(&mut v), many(&mut v)); let (a, b) = (v.set(a), v.set(b)); let o = *v.s().pick(&[Op::And, Op::Or, Op::Sub, Op::Xor, Op::Eq]); v.bin(o, a, b) }
            11 => { let b = many(&mut v); let l = v.list(b); let (x, y) = (v.v("x"), v.v("x")); let _ = y; let f = v.lam(&["x"], x); v.nat(Nat::GroupBy, vec![f, l]) }
            12 => { let (a, b) = (val(&mut v), many(&mut v)); let l = v.set(b); v.nat(Nat::Remove, vec![a, l]) }
            13 => {
                // one element, nested in equal collections
                let (a, b) = (val(&mut v), val(&mut v));
                let k = v.s().below(4);
                let f = |v: &mut Vals, e: E| match k { 0 => v.list(vec![e]), 1 => v.vector(vec![e]), 2 => v.set(vec![e]), _ => { let o = v.i(1); v.dict(vec![(e, o)]) } };
                let (a, b) = (f(&mut v, a), f(&mut v, b));
                let o = *v.s().pick(&CMP);
                v.bin(o, a, b)
            }
            _ => { let b = many(&mut v); let l = v.list(b); let (x, y) = (v.v("x"), v.v("y")); let c = v.bin(Op::Lt, x, y); let (x, y) = (v.v("x"), v.v("y")); let g = v.bin(Op::Gt, x, y); let (c, g) = (v.nat(Nat::Int, vec![c]), v.nat(Nat::Int, vec![g])); let d = v.bin(Op::Sub, g, c); let f = v.lam(&["x", "y"], d); let n = *v.s().pick(&[Nat::SortBy, Nat::MinBy, Nat::MaxBy]); v.nat(n, vec![f, l]) }
        };
        let p = v.show(vec![e]);
        v.ops.push(vec![p]);
    }
    if v.chance(1, 3) { long(&mut v); }
    v.run(cx)
}

/// Many elements: sorting, heaps, sets and dicts of more than a few
fn long(v: &mut Vals) {
    let n = v.n(8, 60);
    let hi = *v.s().pick(&[5, 30, 1000]);
    let kind = v.s().below(4);
    let a: Vec<E> = (0..n).map(|_| {
        let i = v.s().int(-hi / 3, hi);
        match kind { 0 | 1 => v.i(i), 2 => v.t(&format!("{}", i)), _ => { let (a, b) = (v.i(i % 3), v.i(i)); v.vector(vec![a, b]) } }
    }).collect();
    let l = v.list(a);
    let x = v.hold(K::List, l);
    for _ in 0..v.n(2, 4) {
        let l = v.v(&x);
        let e = match v.s().below(9) {
            8 => {
                // membership in a heap, in whatever order it keeps its elements
                let h = v.nat(Nat::Heap, vec![l]);
                let z = v.fresh();
                let s = v.let_(&z, h);
                let r = (0..8).map(|_| { let k = v.s().int(-hi / 3, hi); let k = match kind { 0 | 1 => v.i(k), 2 => v.t(&k.to_string()), _ => { let (a, b) = (v.i(k % 3), v.i(k)); v.vector(vec![a, b]) } }; let o = *v.s().pick(&[Op::In, Op::NotIn]); let h = v.v(&z); v.bin(o, k, h) }).collect();
                let p = v.show(r);
                v.ops.push(vec![s, p]);
                continue;
            }
            0 => v.nat(Nat::Sort, vec![l]),
            1 => { let s = v.nat(Nat::Sort, vec![l]); v.nat(Nat::Reverse, vec![s]) }
            2 => v.nat(Nat::Set, vec![l]),
            3 => v.nat(Nat::Counter, vec![l]),
            4 => { let (a, b) = (v.nat(Nat::Max, vec![l]), v.v(&x)); let b = v.nat(Nat::Min, vec![b]); v.list(vec![a, b]) }
            5 => {
                let h = v.nat(Nat::Heap, vec![l]);
                let z = v.fresh();
                let s = v.let_(&z, h);
                let r = (0..n.min(20)).map(|_| { let h = v.v(&z); v.nat(Nat::Pop, vec![h]) }).collect();
                let p = v.show(r);
                v.ops.push(vec![s, p]);
                continue;
            }
            6 => { let s = v.nat(Nat::Set, vec![l]); let b = v.v(&x); let b = v.nat(Nat::Reverse, vec![b]); let b = v.nat(Nat::Set, vec![b]); v.bin(Op::Eq, s, b) }
            _ => { let s = v.nat(Nat::Set, vec![l]); let k = v.s().int(0, 40); let k = match kind { 2 => v.t(&k.to_string()), _ => v.i(k) }; v.bin(Op::In, k, s) }
        };
        let p = v.show(vec![e]);
        v.ops.push(vec![p]);
    }
}

// ----- C14 -----

/// A small value to store
fn item(v: &mut Vals) -> E {
    match v.s().weighted(&[8, 3, 1, 1, 2]) {
        0 => { let i = v.s().int(0, 6); v.i(i) }
        1 => { let s = v.s().pick(&["a", "b", "", "é"]).to_string(); v.t(&s) }
        2 => v.e(EK::Nil),
        3 => v.bool(),
        _ => { let (a, b) = (v.s().int(0, 2), v.s().int(0, 2)); let (a, b) = (v.i(a), v.i(b)); v.vector(vec![a, b]) }
    }
}
fn number(v: &mut Vals) -> E { let i = v.s().int(0, 9); v.i(i) }

const COLLS: [K; 5] = [K::List, K::Set, K::Dict, K::Heap, K::Vect];

fn collection(v: &mut Vals, k: K) -> E {
    let n = v.n(0, 4);
    match k {
        K::List => { let a = (0..n).map(|_| item(v)).collect(); v.list(a) }
        K::Set => { let a = (0..n).map(|_| item(v)).collect(); v.set(a) }
        K::Dict => { let a = (0..n).map(|_| (item(v), item(v))).collect(); v.dict(a) }
        K::Heap => { let a = (0..n).map(|_| number(v)).collect(); let l = v.list(a); v.nat(Nat::Heap, vec![l]) }
        _ => { let a = (0..n).map(|_| item(v)).collect(); v.vector(a) }
    }
}

/// Statements which print what a collection holds
fn state(v: &mut Vals, n: &str, k: K) -> Vec<S> {
    let mut out = Vec::new();
    if k == K::Heap {
        let h = v.v(n);
        let f = v.v("drain");
        let e = v.call(f, vec![h]);
        out.push(v.show(vec![e]));
        return out;
    }
    let a = v.v(n);
    let b = v.v(n);
    let b = v.nat(Nat::Len, vec![b]);
    out.push(v.show(vec![a, b]));
    out
}

/// `fn drain(h) { let c = copy(h), r = [] ; while len(c) > 0 { r . push(pop(c)) } ; r }`
fn drain(v: &mut Vals) -> S {
    let id = v.g.uid();
    let h = v.v("h");
    let c = v.nat(Nat::Copy, vec![h]);
    let c = v.let_("c", c);
    let e = v.list(vec![]);
    let r = v.let_("r", e);
    let (a, z) = (v.v("c"), v.i(0));
    let a = v.nat(Nat::Len, vec![a]);
    let cond = v.bin(Op::Gt, a, z);
    let (c2, r2) = (v.v("c"), v.v("r"));
    let p = v.nat(Nat::Pop, vec![c2]);
    let p = v.nat(Nat::Push, vec![p, r2]);
    let p = v.se(p);
    let w = v.g.st(SK::While(cond, vec![p], None));
    let ret = v.v("r");
    let ret = v.se(ret);
    let params = vec![Param { pat: Pat::Lv(Lv::Var("h".into())), k: PK::Req }];
    v.g.st(SK::Fn(Rc::new(FnDef { id, name: "drain".into(), params, body: Body::Block(vec![c, r, w, ret]) }), vec![]))
}

pub fn c14(s: &mut Src, cx: &mut Cx) -> Result<(), Failure> {
    if s.chance(1, 1500) { return super::large::run(s, cx, super::large::COLLECTIONS | super::large::LITERALS); }
    let mut v = Vals::new(s);
    let d = drain(&mut v);
    v.setup.push(d);
    let n = v.n(1, 3);
    for _ in 0..n { let k = COLLS[v.s().weighted(&[4, 3, 4, 3, 2])]; let e = collection(&mut v, k); v.hold(k, e); }
    // other names, and collections which hold them
    let own = v.vars.len();
    for i in 0..own {
        if v.chance(1, 2) { let (n, k) = v.vars[i].clone(); let e = v.v(&n); v.hold(k, e); }
        else if v.chance(1, 4) && v.vars[i].1 != K::Heap { let n = v.vars[i].0.clone(); let e = v.v(&n); let o = v.i(7); let l = if v.chance(1, 2) { v.list(vec![e, o]) } else { v.dict(vec![(o, e)]) }; let k = if matches!(l.k, EK::List(_)) { K::List } else { K::Dict }; v.hold(k, l); }
    }
    let n = v.n(4, 16);
    for _ in 0..n {
        let (name, k) = v.pick_var();
        let c = v.v(&name);
        let mut then = Vec::new();
        let odd = v.chance(1, 12);
        let k2 = if odd { *v.s().pick(&COLLS) } else { k };
        let e = match k2 {
            K::List => match v.s().weighted(&[4, 3, 2, 2, 2, 2, 1, 4, 2, 1, 2, 2, 2, 1]) {
                0 => { let x = item(&mut v); v.nat(Nat::Push, vec![x, c]) }
                1 => v.nat(Nat::Pop, vec![c]),
                2 => { let x = item(&mut v); v.nat(Nat::PushFront, vec![x, c]) }
                3 => v.nat(Nat::PopFront, vec![c]),
                4 => { let i = v.s().int(-1, 5); let i = v.i(i); let x = item(&mut v); v.nat(Nat::Insert, vec![i, x, c]) }
                5 => { let i = v.s().int(-1, 4); let i = v.i(i); v.nat(Nat::Remove, vec![i, c]) }
                6 => v.nat(Nat::Clear, vec![c]),
                7 => { let i = v.s().int(-3, 3); let i = v.i(i); let x = item(&mut v); v.e(EK::Assign(Lv::Index(Box::new(c), Box::new(i)), Box::new(x))) }
                8 => v.nat(Nat::Peek, vec![c]),
                9 => { let i = v.s().int(-2, 2); let i = v.i(i); let x = number(&mut v); let o = *v.s().pick(&[Op::Add, Op::Mul]); v.e(EK::OpAssign(Lv::Index(Box::new(c), Box::new(i)), AOp::Op(o), Box::new(x))) }
                10 => { let x = item(&mut v); v.bin(Op::In, x, c) }
                11 => { let x = item(&mut v); let f = *v.s().pick(&[Nat::IndexOf, Nat::RightIndexOf]); v.nat(f, vec![x, c]) }
                12 => { let x = item(&mut v); let l = v.list(vec![x]); v.e(EK::OpAssign(Lv::Var(name.clone()), AOp::Op(Op::Add), Box::new(l))) }
                _ => { let f = *v.s().pick(&[Nat::Reverse, Nat::Set, Nat::Vector, Nat::List, Nat::Dict, Nat::Counter]); let c = if v.chance(1, 8) { let k = *v.s().pick(&[2, 60, 270]); let k = v.i(k); v.bin(Op::Pow, c, k) } else { c }; v.nat(f, vec![c]) }
            },
            K::Set => match v.s().weighted(&[5, 3, 3, 1, 3, 2, 2, 2, 3, 2]) {
                0 => { let x = item(&mut v); v.nat(Nat::Push, vec![x, c]) }
                1 => v.nat(Nat::Pop, vec![c]),
                2 => { let x = item(&mut v); v.nat(Nat::Remove, vec![x, c]) }
                3 => v.nat(Nat::Clear, vec![c]),
                4 => { let x = item(&mut v); v.bin(Op::In, x, c) }
                5 | 6 => { let f = *v.s().pick(&[Nat::Union, Nat::Intersect, Nat::Difference]); let k = *v.s().pick(&[K::Set, K::List, K::Vect, K::Heap]); let o = if v.chance(1, 3) { v.arg(K::Set, 0) } else { collection(&mut v, k) }; v.nat(f, vec![o, c]) }
                7 => v.nat(Nat::Peek, vec![c]),
                8 => { let o = *v.s().pick(&[Op::Or, Op::And, Op::Sub, Op::Xor]); let x = collection(&mut v, K::Set); if v.chance(1, 3) { v.e(EK::OpAssign(Lv::Var(name.clone()), AOp::Op(o), Box::new(x))) } else { v.bin(o, c, x) } }
                _ => v.nat(Nat::List, vec![c]),
            },
            K::Dict => match v.s().weighted(&[4, 4, 3, 1, 3, 2, 3, 3, 2, 2, 2, 2]) {
                0 => { let (x, y) = (item(&mut v), item(&mut v)); v.nat(Nat::Insert, vec![x, y, c]) }
                1 => { let (x, y) = (item(&mut v), item(&mut v)); v.e(EK::Assign(Lv::Index(Box::new(c), Box::new(x)), Box::new(y))) }
                2 => { let x = item(&mut v); v.nat(Nat::Remove, vec![x, c]) }
                3 => v.nat(Nat::Clear, vec![c]),
                4 => { let x = item(&mut v); let o = *v.s().pick(&[Op::In, Op::NotIn]); v.bin(o, x, c) }
                5 => v.nat(Nat::Pop, vec![c]),
                6 => { let x = item(&mut v); v.index(c, x) }
                7 => { let f = *v.s().pick(&[Nat::Keys, Nat::Values, Nat::Keys]); v.nat(f, vec![c]) }
                8 => {
                    let x = match v.s().weighted(&[6, 3, 1, 1, 1]) {
                        0 => item(&mut v),
                        1 => { let e = v.list(vec![]); v.lam(&[], e) }
                        2 => { let f = *v.s().pick(&[Nat::List, Nat::Set, Nat::Dict, Nat::Str, Nat::Vector, Nat::Len, Nat::Push, Nat::Int]); v.f(f) }
                        3 => { let i = item(&mut v); let f = *v.s().pick(&[Nat::Push, Nat::Map, Nat::Max, Nat::Default]); v.nat(f, vec![i]) }
                        _ => { let i = item(&mut v); v.lam(&["x"], i) }
                    };
                    v.nat(Nat::Default, vec![x, c])
                }
                9 => { let x = item(&mut v); let y = number(&mut v); v.e(EK::OpAssign(Lv::Index(Box::new(c), Box::new(x)), AOp::Op(Op::Add), Box::new(y))) }
                10 => v.nat(Nat::Peek, vec![c]),
                _ => { let f = *v.s().pick(&[Nat::List, Nat::Set, Nat::Vector, Nat::Dict]); v.nat(f, vec![c]) }
            },
            K::Heap => match v.s().weighted(&[6, 5, 2, 1, 2]) {
                0 => { let x = number(&mut v); v.nat(Nat::Push, vec![x, c]) }
                1 => v.nat(Nat::Pop, vec![c]),
                2 => v.nat(Nat::Peek, vec![c]),
                3 => v.nat(Nat::Clear, vec![c]),
                _ => { let x = number(&mut v); v.bin(Op::In, x, c) }
            },
            _ => match v.s().weighted(&[5, 2, 2, 1]) {
                0 => { let i = v.s().int(-3, 3); let i = v.i(i); let x = item(&mut v); v.e(EK::Assign(Lv::Index(Box::new(c), Box::new(i)), Box::new(x))) }
                1 => { let i = v.s().int(-3, 3); let i = v.i(i); v.index(c, i) }
                2 => { let x = item(&mut v); v.bin(Op::In, x, c) }
                _ => v.nat(Nat::Peek, vec![c]),
            },
        };
        // functions which return a heap would print it in an unspecified order
        let heap = k == K::Heap && k2 == K::Heap && !v.effects;
        let p = if heap && matches!(&e.k, EK::Call(f, _) if matches!(f.k, EK::Nat(Nat::Push | Nat::Clear))) { let t = v.nat(Nat::Len, vec![e]); v.show(vec![t]) } else { v.show(vec![e]) };
        then.push(p);
        if v.chance(1, 2) { then.extend(state(&mut v, &name, k)); }
        v.ops.push(then);
    }
    for i in 0..v.vars.len() { let (n, k) = v.vars[i].clone(); let s = state(&mut v, &n, k); v.ops.push(s); }
    v.run(cx)
}

// ----- C15 -----

fn edge(v: &mut Vals, n: i64) -> i64 {
    match v.s().weighted(&[8, 3, 1]) {
        0 => v.s().int(-n - 2, n + 2),
        1 => *v.s().pick(&[0, -1, 1, n, -n, n - 1, -n - 1, n + 1, 1 - n]),
        _ => *v.s().pick(&[MAX_INT, MIN_INT, MAX_INT - 1, 1 << 32, -(1 << 32), 1 << 31, MIN_INT + 1]),
    }
}

fn bound(v: &mut Vals, n: i64) -> Option<Box<E>> {
    match v.s().weighted(&[6, 2, 1]) {
        0 => { let i = edge(v, n); Some(Box::new(v.i(i))) }
        1 => None,
        _ => match v.s().weighted(&[3, 1, 1]) { 0 => Some(Box::new(v.e(EK::Nil))), 1 => Some(Box::new(v.bool())), _ => Some(Box::new(v.any(0))) },
    }
}

pub fn slice(v: &mut Vals, n: i64) -> Sl {
    let (a, b) = (bound(v, n), bound(v, n));
    let c = match v.s().weighted(&[3, 5, 1]) {
        0 => None,
        1 => { let k = if v.chance(4, 5) { let m = if n > 8 { 12 } else { 3 }; v.s().int(-m, m) } else { edge(v, n) }; let k = if k == 0 && v.chance(4, 5) { -1 } else { k }; Some(Some(Box::new(v.i(k)))) }
        _ => Some(bound(v, n)),
    };
    Sl { a, b, c }
}

pub fn c15(s: &mut Src, cx: &mut Cx) -> Result<(), Failure> {
    let mut v = Vals::new(s);
    let mut lens = Vec::new();
    for _ in 0..v.n(1, 3) {
        let k = *v.s().pick(&[K::List, K::Str, K::Vect]);
        let n = if v.chance(1, 8) { v.n(9, 70) } else { v.s().weighted(&[1, 1, 2, 3, 3, 2, 1, 1, 1]) };
        let e = match k {
            K::Str => {
                let cs = v.s().pick(&[['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h'], ['a', 'é', '€', '𝕏', 'b', 'ß', '日', 'c'], ['𝕏', '日', '€', 'é', 'z', '\n', '\u{301}', 'y'], ['\u{feff}', 'a', '\0', '\r', '\u{200d}', '😀', '\u{10ffff}', '\t']]).to_vec();
                let (k, m) = (v.s().below(8), v.s().int(0, 2) as usize);
                let t: String = (0..n).map(|i| cs[(k + i + i / 8 * m) % 8]).collect();
                v.t(&t)
            }
            k => { let a = (0..n).map(|i| v.i(10 + i as i64)).collect(); if k == K::List { v.list(a) } else { v.vector(a) } }
        };
        v.hold(k, e);
        lens.push(n as i64);
    }
    for _ in 0..v.n(4, 14) {
        let i = v.s().below(lens.len());
        let (name, k) = v.vars[i].clone();
        let n = lens[i];
        let c = v.v(&name);
        let (mut ops, mut after) = (Vec::new(), Vec::new());
        let e = match v.s().weighted(&[5, 6, 3, if k == K::Str { 1 } else { 4 }, 2, 1, 1, 1]) {
            0 => { let i = if v.chance(1, 20) { v.any(0) } else { let i = edge(&mut v, n); v.i(i) }; if v.chance(1, 4) { let f = v.list(vec![i]); v.e(EK::Call(Box::new(f), vec![Arg::E(c)])) } else { v.index(c, i) } }
            1 => { let s = slice(&mut v, n); v.e(EK::Slice(Box::new(c), s)) }
            2 => {
                let s = slice(&mut v, n);
                let f = if v.chance(1, 12) { let i = edge(&mut v, n); let i = v.i(i); v.list(vec![i]) } else { v.e(EK::SliceLit(s)) };
                match v.s().weighted(&[8, 8, 1, 1]) {
                    0 => v.call(f, vec![c]),
                    1 => v.e(EK::Comp(Box::new(c), Box::new(f))),
                    2 => { let x = v.any(0); v.call(f, vec![c, x]) }
                    _ => { let g = v.call(f, vec![]); if v.chance(1, 2) { g } else { v.call(g, vec![c]) } }
                }
            }
            3 => {
                let i = edge(&mut v, n);
                let i = v.i(i);
                let x = item(&mut v);
                after.push(v.v(&name));
                let lv = Lv::Index(Box::new(c), Box::new(i));
                if v.chance(1, 3) { v.e(EK::OpAssign(lv, AOp::Op(Op::Add), Box::new(x))) } else { v.e(EK::Assign(lv, Box::new(x))) }
            }
            4 => { let (s, t) = (slice(&mut v, n), slice(&mut v, n)); let a = v.e(EK::Slice(Box::new(c), s)); v.e(EK::Slice(Box::new(a), t)) }
            5 => { let s = slice(&mut v, n); let f = v.e(EK::SliceLit(s)); v.nat(Nat::Repr, vec![f]) }
            6 => { let k = *v.s().pick(&[K::Set, K::Dict, K::Heap, K::Range, K::Enum, K::Int, K::Nil, K::Struct, K::Fn]); let x = v.value(k, 1); let x = v.paren(x); if v.chance(1, 2) { let i = edge(&mut v, 2); let i = v.i(i); v.index(x, i) } else { let s = slice(&mut v, 2); v.e(EK::Slice(Box::new(x), s)) } }
            _ => {
                // a slice is a new value
                if k == K::Str { continue; }
                let s = slice(&mut v, n);
                let z = v.fresh();
                let a = v.e(EK::Slice(Box::new(c), s));
                ops.push(v.let_(&z, a));
                let (a, i) = (v.v(&z), v.i(0));
                let x = item(&mut v);
                after.push(v.v(&name));
                v.e(EK::Assign(Lv::Index(Box::new(a), Box::new(i)), Box::new(x)))
            }
        };
        ops.push(v.show(vec![e]));
        if !after.is_empty() { ops.push(v.show(after)); }
        v.ops.push(ops);
    }
    v.run(cx)
}

// ----- C22 -----

pub fn c22(s: &mut Src, cx: &mut Cx) -> Result<(), Failure> {
    match s.weighted(&[6, 2, 2]) {
        0 => graph(s, cx),
        1 => defaults(s, cx),
        _ => memo(s, cx),
    }
}

/// A change of a collection
fn mutate(v: &mut Vals, n: &str, k: K) -> E {
    let c = v.v(n);
    let x = item(v);
    match k {
        K::List => match v.s().below(4) {
            0 => v.nat(Nat::Push, vec![x, c]),
            1 => v.nat(Nat::Pop, vec![c]),
            2 => { let i = v.s().int(-2, 1); let i = v.i(i); v.e(EK::Assign(Lv::Index(Box::new(c), Box::new(i)), Box::new(x))) }
            _ => { let i = v.i(0); let a = v.index(c, i); v.nat(Nat::Push, vec![x, a]) }
        },
        K::Set => if v.chance(1, 3) { v.nat(Nat::Pop, vec![c]) } else { v.nat(Nat::Push, vec![x, c]) },
        K::Heap => { let x = number(v); let e = if v.chance(1, 3) { return v.nat(Nat::Pop, vec![c]); } else { v.nat(Nat::Push, vec![x, c]) }; v.nat(Nat::Len, vec![e]) }
        K::Dict => { let y = item(v); match v.s().below(3) { 0 => v.nat(Nat::Remove, vec![x, c]), 1 => { let i = v.s().int(0, 2); let i = v.i(i); let a = v.index(c, i); v.nat(Nat::Push, vec![x, a]) } _ => v.e(EK::Assign(Lv::Index(Box::new(c), Box::new(x)), Box::new(y))) } }
        K::Vect => { let i = v.s().int(-2, 1); let i = v.i(i); v.e(EK::Assign(Lv::Index(Box::new(c), Box::new(i)), Box::new(x))) }
        _ => { let f = v.s().pick(&["p", "q"]).to_string(); if v.chance(1, 4) { let a = v.e(EK::Field(Box::new(c), f)); return v.nat(Nat::Push, vec![x, a]); } v.e(EK::Assign(Lv::Field(Box::new(c), f), Box::new(x))) }
    }
}

/// A graph of collections, some of which are shared or contain themselves, and copies of it
fn graph(s: &mut Src, cx: &mut Cx) -> Result<(), Failure> {
    let mut v = Vals::new(s);
    v.strukt();
    let d = drain(&mut v);
    v.setup.push(d);
    let kinds = [K::List, K::List, K::Vect, K::Dict, K::Struct, K::Set, K::Heap];
    for _ in 0..v.n(2, 5) {
        let k = *v.s().pick(&kinds);
        // which contain some of those before
        let n = v.n(1, 3);
        let e = match k {
            K::Heap if v.chance(1, 2) => collection(&mut v, K::Heap),
            K::Heap => {
                // of collections which change
                let a = (0..n).map(|i| { let (i, p) = (v.i((i as i64 * 7) % 4), part(&mut v)); if v.chance(1, 2) { v.list(vec![i, p]) } else { v.vector(vec![i, p]) } }).collect();
                let l = v.list(a);
                v.nat(Nat::Heap, vec![l])
            }
            K::Set => { let a = (0..n).map(|_| item(&mut v)).collect(); v.set(a) }
            K::Struct => { let (a, b) = (part(&mut v), part(&mut v)); let f = v.v("S"); v.call(f, vec![a, b]) }
            K::Dict => { let a = (0..n).map(|i| (v.i(i as i64), part(&mut v))).collect(); v.dict(a) }
            K::Vect => { let a = (0..n).map(|_| part(&mut v)).collect(); v.vector(a) }
            _ => { let a = (0..n).map(|_| part(&mut v)).collect(); v.list(a) }
        };
        v.hold(k, e);
    }
    // cycles
    let n = v.vars.len();
    let mut cyclic = false;
    if v.chance(1, 3) {
        for _ in 0..v.n(1, 2) {
            let (a, b) = (v.s().below(n), v.s().below(n));
            let ((x, k), (y, _)) = (v.vars[a].clone(), v.vars[b].clone());
            let (x, y) = (v.v(&x), v.v(&y));
            let i = v.i(0);
            let e = match k {
                K::List => v.nat(Nat::Push, vec![y, x]),
                K::Dict | K::Vect => v.e(EK::Assign(Lv::Index(Box::new(x), Box::new(i)), Box::new(y))),
                K::Struct => v.e(EK::Assign(Lv::Field(Box::new(x), "p".into()), Box::new(y))),
                _ => continue,
            };
            cyclic = true;
            let s = v.se(e);
            v.setup.push(s);
        }
    }
    if cyclic { cx.label("graph with cycles"); }
    // aliases and copies
    for _ in 0..v.n(1, 4) {
        let (x, k) = v.pick_var();
        let e = v.v(&x);
        match v.s().weighted(&[5, 2, if k == K::List { 3 } else { 0 }, 2, 1]) {
            0 => { let e = v.nat(Nat::Copy, vec![e]); v.hold(k, e); }
            1 => { v.hold(k, e); }
            2 => { let c = v.s().int(0, 3); let c = v.i(c); let e = v.bin(Op::Pow, e, c); v.hold(K::List, e); }
            3 => { let f = if k == K::Struct { Nat::Copy } else { *v.s().pick(&[Nat::List, Nat::Vector]) }; let k = match f { Nat::List => K::List, Nat::Vector => K::Vect, _ => k }; let e = v.nat(f, vec![e]); v.hold(k, e); }
            _ => { let l = v.list(vec![e]); let e = v.nat(Nat::Copy, vec![l]); v.hold(K::List, e); }
        }
    }
    let show = |v: &mut Vals, out: &mut Vec<Vec<S>>| for i in 0..v.vars.len() { let (n, k) = v.vars[i].clone(); let s = state_of(v, &n, k); out.push(s); };
    let mut out = Vec::new();
    show(&mut v, &mut out);
    if !cyclic {
        for _ in 0..3 {
            let (x, y) = (v.pick_var().0, v.pick_var().0);
            let (x, y) = (v.v(&x), v.v(&y));
            let e = v.bin(Op::Eq, x, y);
            let p = v.show(vec![e]);
            out.push(vec![p]);
        }
    }
    for _ in 0..v.n(1, 6) {
        let (x, k) = v.pick_var();
        let e = mutate(&mut v, &x, k);
        let p = v.show(vec![e]);
        out.push(vec![p]);
        if v.chance(1, 2) { show(&mut v, &mut out); }
    }
    show(&mut v, &mut out);
    v.ops = out;
    v.run(cx)
}

fn state_of(v: &mut Vals, n: &str, k: K) -> Vec<S> {
    if k != K::Struct { return state(v, n, k); }
    let a = v.v(n);
    vec![v.show(vec![a])]
}

/// An earlier collection, or a small value
fn part(v: &mut Vals) -> E {
    let n: Vec<String> = v.vars.iter().filter(|x| x.1 != K::Heap).map(|x| x.0.clone()).collect();
    if !n.is_empty() && v.chance(2, 3) { let n = v.s().pick(&n).clone(); return v.v(&n); }
    if v.chance(1, 4) { let x = item(v); return v.list(vec![x]); }
    item(v)
}

/// Functions whose default arguments are collections which the calls change
fn defaults(s: &mut Src, cx: &mut Cx) -> Result<(), Failure> {
    let mut v = Vals::new(s);
    cx.label("default arguments");
    let e = collection(&mut v, K::List);
    v.hold(K::List, e);
    let nest = v.chance(1, 2);
    let dflt = match v.s().below(5) {
        0 => v.list(vec![]),
        1 => { let a = item(&mut v); v.list(vec![a]) }
        2 => { let a = v.list(vec![]); v.list(vec![a]) }
        3 => { let x = v.vars[0].0.clone(); let x = v.v(&x); v.list(vec![x]) }
        _ => { let x = v.vars[0].0.clone(); v.v(&x) }
    };
    let id = v.g.uid();
    let (x, l) = (v.v("x"), v.v("l"));
    let p = v.nat(Nat::Push, vec![x, l]);
    let p = v.se(p);
    let r = v.v("l");
    let r = v.se(r);
    let params = vec![Param { pat: Pat::Lv(Lv::Var("x".into())), k: PK::Req }, Param { pat: Pat::Lv(Lv::Var("l".into())), k: PK::Def(dflt) }];
    let f = v.g.st(SK::Fn(Rc::new(FnDef { id, name: "f".into(), params, body: Body::Block(vec![p, r]) }), vec![]));
    v.setup.push(f);
    for _ in 0..v.n(2, 6) {
        let x = item(&mut v);
        let f = v.v("f");
        let e = if v.chance(1, 3) { let l = v.arg(K::List, 0); v.call(f, vec![x, l]) } else { v.call(f, vec![x]) };
        if nest && v.chance(1, 2) {
            let z = v.fresh();
            let s = v.let_(&z, e);
            let (a, b) = (v.v(&z), item(&mut v));
            let m = v.nat(Nat::Push, vec![b, a]);
            let p = v.show(vec![m]);
            v.ops.push(vec![s, p]);
            v.vars.push((z, K::List));
        } else { let p = v.show(vec![e]); v.ops.push(vec![p]); }
    }
    for i in 0..v.vars.len() { let (n, k) = v.vars[i].clone(); let s = state(&mut v, &n, k); v.ops.push(s); }
    v.run(cx)
}

/// Memoized functions, which print when they are evaluated
fn memo(s: &mut Src, cx: &mut Cx) -> Result<(), Failure> {
    let mut v = Vals::new(s);
    cx.label("memoize");
    let n = v.n(0, 3);
    let ps: Vec<&str> = ["x", "y", "w"][..n].to_vec();
    let mut body = Vec::new();
    let mut a = vec![v.t("call")];
    for p in &ps { let e = v.v(p); a.push(v.repr(e)); }
    body.push(v.print(a));
    let a: Vec<E> = ps.iter().map(|p| v.v(p)).collect();
    let r = v.list(a);
    body.push(v.se(r));
    let optional = n > 0 && v.chance(1, 4);
    let recursive = v.chance(1, 4);
    if recursive {
        cx.label("recursive memoize");
        // fib
        let id = v.g.uid();
        let (x, two) = (v.v("x"), v.i(2));
        let c = v.bin(Op::Lt, x, two);
        let x = v.v("x");
        let call = |v: &mut Vals, k: i64| { let (x, k) = (v.v("x"), v.i(k)); let a = v.bin(Op::Sub, x, k); let f = v.v("fib"); v.call(f, vec![a]) };
        let (a, b) = (call(&mut v, 1), call(&mut v, 2));
        let r = v.bin(Op::Add, a, b);
        let t = v.e(EK::Tern(vec![(c, x)], Box::new(r)));
        let x = v.v("x");
        let p = v.print(vec![x]);
        let t = v.se(t);
        let params = vec![Param { pat: Pat::Lv(Lv::Var("x".into())), k: PK::Req }];
        let m = v.f(Nat::Memoize);
        let f = v.g.st(SK::Fn(Rc::new(FnDef { id, name: "fib".into(), params, body: Body::Block(vec![p, t]) }), vec![m]));
        v.setup.push(f);
        for _ in 0..v.n(1, 4) { let k = v.s().int(0, 12); let k = v.i(k); let f = v.v("fib"); let e = v.call(f, vec![k]); let p = v.show(vec![e]); v.ops.push(vec![p]); }
        return v.run(cx);
    }
    let id = v.g.uid();
    let params: Vec<Param> = ps.iter().enumerate().map(|(i, n)| Param { pat: Pat::Lv(Lv::Var(n.to_string())), k: if optional && i + 1 == ps.len() { PK::Opt } else { PK::Req } }).collect();
    let deco = v.chance(1, 2);
    let d = if deco { vec![v.f(Nat::Memoize)] } else { vec![] };
    let f = v.g.st(SK::Fn(Rc::new(FnDef { id, name: "f".into(), params, body: Body::Block(body) }), d));
    v.setup.push(f);
    let name = if deco { "f".to_string() } else { let f = v.v("f"); let m = v.nat(Nat::Memoize, vec![f]); v.hold(K::Fn, m) };
    for _ in 0..v.n(2, 9) {
        let k = if v.chance(1, 10) { v.n(0, 3) } else if optional && v.chance(1, 2) { n - 1 } else { n };
        let a: Vec<E> = (0..k).map(|_| match v.s().weighted(&[6, 2, 1, 2, 1, 1, 1]) {
            0 => { let i = v.s().int(0, 2); v.i(i) }
            1 => { let s = v.s().pick(&["", "a", "0"]).to_string(); v.t(&s) }
            2 => v.e(EK::Nil),
            3 => { let i = v.s().int(0, 1); let i = v.i(i); v.list(vec![i]) }
            4 => v.bool(),
            5 => { let (a, b) = (v.s().int(0, 1), v.s().int(0, 1)); let (a, b) = (v.i(a), v.i(b)); if v.chance(1, 2) { v.set(vec![a, b]) } else { v.set(vec![b, a]) } }
            _ => { let (a, b) = (v.s().int(0, 1), v.s().int(0, 1)); let (a, b) = (v.i(a), v.i(b)); v.vector(vec![a, b]) }
        }).collect();
        let f = v.v(&name);
        let e = if a.len() == n && n == 1 && v.chance(1, 4) { let a = a.into_iter().next().unwrap(); let l = v.list(vec![a]); v.nat(Nat::Map, vec![f, l]) } else if v.chance(1, 6) && a.len() == 1 { let a = a.into_iter().next().unwrap(); v.e(EK::Comp(Box::new(a), Box::new(f))) } else { v.call(f, a) };
        let p = v.show(vec![e]);
        v.ops.push(vec![p]);
    }
    v.run(cx)
}
