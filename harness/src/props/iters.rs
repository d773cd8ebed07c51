//! C18: library functions over iterables. C19: lazy ranges and enumerations.

use crate::engine::{Cx, Failure, Src};
use crate::model::ast::*;
use crate::model::natives::Nat;
use crate::model::ops::{Op, Un};
use crate::model::value::{MAX_INT, MIN_INT};

use super::vals::{Ints, Vals, ITERABLES, K};

type R = Result<(), Failure>;

/// What a callback is for
#[derive(Clone, Copy, PartialEq)]
enum Cb { Any, Pred, Iter, Two, Cmp, Key }

fn elem(v: &mut Vals) -> E { match v.s().weighted(&[8, 2, 1]) { 0 => { let i = v.s().int(0, 4); v.i(i) } 1 => { let t = v.s().pick(&["a", "b", "é", ""]).to_string(); v.t(&t) } _ => v.scalar_value() } }

/// An iterable, mostly of a few small integers
fn iterable(v: &mut Vals) -> (K, E) {
    let k = *v.s().pick(&ITERABLES);
    if k == K::Range || k == K::Enum || k == K::Str || v.chance(1, 4) { let e = v.value(k, 1); return (k, e); }
    let n = v.s().weighted(&[2, 2, 3, 4, 3, 2, 1]);
    let pairs = v.chance(1, 5);
    // elements which are false, or nearly
    let odd = v.chance(1, 8);
    let mut xs = Vec::new();
    for _ in 0..n {
        let i = v.s().int(-1, 3);
        let a = if odd { truth(v) } else { v.i(i) };
        xs.push(if pairs { let b = elem(v); v.vector(vec![a, b]) } else { a });
    }
    let e = match k {
        K::List => v.list(xs),
        K::Vect => v.vector(xs),
        K::Set => v.set(xs),
        K::Heap => { let l = v.list(xs); v.nat(Nat::Heap, vec![l]) }
        _ => { let mut d = Vec::new(); for x in xs { let y = elem(v); d.push((x, y)); } v.dict(d) }
    };
    (k, e)
}

/// A value of any kind, half of which are false
fn truth(v: &mut Vals) -> E {
    match v.s().below(14) {
        0 => v.i(0), 1 => v.e(EK::Nil), 2 => v.t(""), 3 => v.list(vec![]), 4 => v.vector(vec![]), 5 => v.nat(Nat::Set, vec![]), 6 => { let i = v.i(0); v.nat(Nat::Range, vec![i]) }
        7 => v.i(1), 8 => v.t("a"), 9 => { let z = v.i(0); v.list(vec![z]) } 10 => { let (a, b) = (v.i(0), v.i(0)); v.vector(vec![a, b]) } 11 => v.f(Nat::Int), 12 => v.e(EK::SliceLit(Sl { a: None, b: None, c: None })), _ => v.scalar_value(),
    }
}

fn it(v: &mut Vals) -> E {
    if !v.vars.is_empty() && !v.chance(1, 4) { let n = v.pick_var().0; return v.v(&n); }
    iterable(v).1
}

fn lam1(v: &mut Vals, f: impl FnOnce(&mut Vals, E) -> E) -> E { let x = v.v("x"); let b = f(v, x); v.lam(&["x"], b) }

fn callback(v: &mut Vals, c: Cb) -> E {
    if v.chance(1, 30) { return v.any(0); }
    if v.chance(1, 30) { let ps: &[&str] = *v.s().pick(&[&[] as &[&str], &["x", "y", "z"], &["x", "y"], &["x"]]); let e = v.int(); return v.lam(ps, e); }
    let two = matches!(c, Cb::Two | Cb::Cmp);
    let f = match c {
        Cb::Any | Cb::Key => v.function(1),
        Cb::Pred => match v.s().weighted(&[4, 3, 2, 2, 1, 2]) {
            0 => { let i = v.s().int(-1, 3); let o = *v.s().pick(&[Op::Lt, Op::Ge, Op::Eq, Op::Ne, Op::Mod]); let x = v.i(i); v.e(EK::SectR(o, Box::new(x))) }
            1 => { let t = *v.s().pick(&[Nat::Int, Nat::Str, Nat::Vector, Nat::Any]); let t = v.f(t); v.e(EK::SectR(Op::Is, Box::new(t))) }
            2 => { let k = elem(v); lam1(v, |v, x| v.bin(Op::Eq, x, k)) }
            3 => v.function(1),
            4 => { let r = v.range(); v.e(EK::SectR(Op::In, Box::new(r))) }
            _ => {
                // neither `true` nor `false`
                let k = elem(v);
                let (a, b) = (truth(v), truth(v));
                lam1(v, |v, x| { let c = v.bin(Op::Lt, x, k); v.e(EK::Tern(vec![(c, a)], Box::new(b))) })
            }
        },
        Cb::Iter => match v.s().weighted(&[3, 2, 2, 1, 1, 1]) {
            0 => lam1(v, |v, x| { let y = v.v("x"); v.list(vec![x, y]) }),
            1 => lam1(v, |v, x| v.nat(Nat::Range, vec![x])),
            2 => lam1(v, |v, x| v.nat(Nat::Str, vec![x])),
            3 => { let l = it(v); lam1(v, |_, _| l) }
            4 => { let f = v.f(Nat::Repr); f }
            _ => v.function(1),
        },
        Cb::Two => v.function(2),
        Cb::Cmp => match v.s().weighted(&[3, 3, 1, 1]) {
            0 => v.e(EK::OpFn(Op::Sub)),
            1 => { let (x, y) = (v.v("y"), v.v("x")); let b = v.bin(Op::Sub, x, y); v.lam(&["x", "y"], b) }
            2 => { let (x, y, z, w) = (v.v("x"), v.v("y"), v.v("x"), v.v("y")); let (a, b) = (v.bin(Op::Gt, x, y), v.bin(Op::Lt, z, w)); let b = v.bin(Op::Sub, a, b); v.lam(&["x", "y"], b) }
            _ => v.function(2),
        },
    };
    let how = v.s().weighted(&[6, 4, 1, 1]);
    match how {
        1 | 2 if !v.effects => f,
        1 if c != Cb::Cmp => {
            // shows when, and with what, it is called
            let ps: &[&str] = if two { &["x", "y"] } else { &["x"] };
            let a = ps.iter().map(|p| v.v(p)).collect();
            let f = v.e(EK::Paren(Box::new(f)));
            let b = v.call(f, a);
            v.noisy(ps, b)
        }
        2 if !two => {
            // fails on one of the elements
            let k = elem(v);
            let x = v.v("x");
            let ne = v.bin(Op::Ne, x, k);
            let a = v.g.st(SK::Assert(ne, None));
            let x = v.v("x");
            let f = v.e(EK::Paren(Box::new(f)));
            let b = v.call(f, vec![x]);
            let b = v.se(b);
            let p = v.v("x");
            let p = v.show(vec![p]);
            v.lam_block(&["x"], vec![p, a, b])
        }
        3 if !two => {
            // partially applied
            let f = v.e(EK::Paren(Box::new(f)));
            let a = vec![v.v("x")];
            let b = v.call(f, a);
            let g = v.lam(&["k", "x"], b);
            let g = v.e(EK::Paren(Box::new(g)));
            let k = elem(v);
            v.call(g, vec![k])
        }
        _ => f,
    }
}

/// Which elements are compared by `sort_by`, and when their keys are computed, is not specified
fn by(v: &mut Vals, n: Nat, c: Cb) -> E {
    v.effects = n != Nat::SortBy;
    let f = callback(v, c);
    v.effects = true;
    f
}

/// A call of a library function, in one of the forms which mean the same
pub fn apply(v: &mut Vals, n: Nat, mut a: Vec<E>) -> E {
    match v.s().weighted(&[6, 3, 2, 1]) {
        1 if a.len() == 2 => { let x = a.pop().unwrap(); let f = v.nat(n, a); v.e(EK::Comp(Box::new(x), Box::new(f))) }
        1 if a.len() == 1 => { let x = a.pop().unwrap(); let f = v.f(n); v.e(EK::Comp(Box::new(x), Box::new(f))) }
        2 if a.len() == 2 && n.arity().0 == 2 => { let x = a.pop().unwrap(); let f = v.nat(n, a); v.call(f, vec![x]) }
        3 if a.len() > 1 => {
            let l = v.list(a);
            let (f, id) = (v.f(n), v.g.uid());
            v.e(EK::Call(Box::new(f), vec![Arg::Unroll(id, l)]))
        }
        _ => v.nat(n, a),
    }
}

fn several(v: &mut Vals) -> Vec<E> {
    if v.chance(3, 5) { return vec![it(v)]; }
    let n = v.n(2, 4);
    if v.chance(1, 2) { (0..n).map(|_| elem(v)).collect() } else { (0..n).map(|_| { let i = v.s().int(-1, 4); v.i(i) }).collect() }
}

fn one(v: &mut Vals) -> E {
    use Nat::*;
    let n = *v.s().pick(&[Map, Filter, FlatMap, Concat, Zip, Reduce, Sort, SortBy, MinBy, MaxBy, GroupBy, Reverse, Permutations, Combinations, Any, All, Find, RightFind, IndexOf, RightIndexOf, Counter, Sum, Min, Max, Enumerate, List, Set, Dict, Vector, Len, Heap]);
    let a = match n {
        Map => { let f = callback(v, Cb::Any); vec![f, it(v)] }
        Filter | Any | All => { let f = callback(v, Cb::Pred); vec![f, it(v)] }
        Find | RightFind => { let f = if v.chance(1, 4) { elem(v) } else { callback(v, Cb::Pred) }; vec![f, it(v)] }
        IndexOf | RightIndexOf => { let f = if v.chance(1, 2) { elem(v) } else { callback(v, Cb::Pred) }; vec![f, it(v)] }
        FlatMap => { let f = callback(v, Cb::Iter); vec![f, it(v)] }
        Concat => if v.chance(1, 2) { let n = v.n(0, 3); let l = (0..n).map(|_| it(v)).collect(); vec![v.list(l)] } else { vec![it(v)] },
        Zip => if v.chance(1, 6) { vec![it(v)] } else if v.chance(1, 5) { let n = v.n(0, 3); let l = (0..n).map(|_| it(v)).collect(); vec![v.list(l)] } else { let n = v.n(2, 4); (0..n).map(|_| it(v)).collect() },
        Reduce => { let f = callback(v, Cb::Two); vec![f, it(v)] }
        SortBy | MinBy | MaxBy => { let c = if v.chance(1, 2) { Cb::Cmp } else { Cb::Key }; let f = by(v, n, c); vec![f, it(v)] }
        GroupBy => { let f = if v.chance(1, 3) { let i = v.s().int(-1, 4); v.i(i) } else { callback(v, Cb::Pred) }; vec![f, it(v)] }
        Permutations | Combinations => { let i = v.s().int(-1, 4); let i = v.i(i); vec![i, it(v)] }
        Sum | Min | Max | Sort | Reverse | List | Set | Heap | Vector => several(v),
        Dict => if v.chance(1, 2) { let x = it(v); vec![v.nat(Enumerate, vec![x])] } else { vec![it(v)] },
        _ => vec![it(v)],
    };
    let e = apply(v, n, a);
    if n == SortBy { return e; }
    // further functions
    match v.s().weighted(&[8, 1, 1, 1]) {
        1 => { let g = *v.s().pick(&[List, Len, Reverse, Enumerate, Set, Sort, Sum, Concat, Counter]); apply(v, g, vec![e]) }
        2 => { let f = callback(v, Cb::Any); apply(v, Map, vec![f, e]) }
        3 => { let f = callback(v, Cb::Pred); apply(v, Filter, vec![f, e]) }
        _ => e,
    }
}

pub fn c18(s: &mut Src, cx: &mut Cx) -> R {
    if s.chance(1, 1500) { return super::large::run(s, cx, super::large::COLLECTIONS); }
    let mut v = Vals::new(s);
    v.effects = true;
    for _ in 0..v.n(1, 4) { let (k, e) = iterable(&mut v); v.hold(k, e); }
    for _ in 0..v.n(2, 6) {
        let e = one(&mut v);
        let mut st = vec![v.show(vec![e])];
        if v.chance(1, 4) {
            // the argument is unchanged
            let all: Vec<E> = v.vars.clone().iter().map(|n| v.v(&n.0)).collect();
            st.push(v.show(all));
        }
        v.ops.push(st);
    }
    let all: Vec<String> = v.vars.iter().map(|n| n.0.clone()).collect();
    for n in all { let e = v.v(&n); let p = v.show(vec![e]); v.ops.push(vec![p]); }
    v.run(cx)
}

// ----- C19 -----

struct Rg { a: i64, b: i64, c: i64 }

impl Rg {
    fn len(&self) -> i128 {
        let (a, b, c) = (self.a as i128, self.b as i128, self.c as i128);
        if c > 0 && a < b { (b - a + c - 1) / c } else if c < 0 && a > b { (a - b - c - 1) / -c } else { 0 }
    }
}

fn rg(v: &mut Vals) -> Rg {
    let old = v.ints;
    let near = match v.s().weighted(&[6, 2, 2, 2]) { 0 => v.s().int(-6, 9), 1 => MAX_INT - v.s().int(0, 12), 2 => MIN_INT + v.s().int(0, 12), _ => { v.ints = Ints::Edge; v.int_value() } };
    let c = match v.s().weighted(&[5, 4, 2, 2, 1]) { 0 => 1, 1 => v.s().int(-4, 4), 2 => -1, 3 => { v.ints = Ints::Edge; v.int_value() } _ => *v.s().pick(&[MAX_INT, MIN_INT, MAX_INT - 1, MIN_INT + 1]) };
    let b = match v.s().weighted(&[6, 2, 1]) {
        0 => { let n = v.s().int(-1, 8) as i128; let r = v.s().int(-2, 2) as i128; (near as i128 + n * c as i128 + r).clamp(MIN_INT as i128, MAX_INT as i128) as i64 }
        1 => { v.ints = Ints::Edge; v.int_value() }
        _ => *v.s().pick(&[MAX_INT, MIN_INT, 0]),
    };
    v.ints = old;
    Rg { a: near, b, c }
}

fn rg_expr(v: &mut Vals, r: &Rg) -> E {
    if r.c == 1 && r.a == 0 && v.chance(1, 2) { let b = v.i(r.b); return v.nat(Nat::Range, vec![b]); }
    if r.c == 1 && v.chance(1, 2) { let (a, b) = (v.i(r.a), v.i(r.b)); return v.nat(Nat::Range, vec![a, b]); }
    let (a, b, c) = (v.i(r.a), v.i(r.b), v.i(r.c));
    v.nat(Nat::Range, vec![a, b, c])
}

/// Integers in and about a range
fn about(v: &mut Vals, r: &Rg) -> E {
    let x = match v.s().weighted(&[3, 3, 2, 2, 1]) {
        0 => r.a as i128 + v.s().int(-2, 9) as i128 * r.c as i128,
        1 => r.a as i128 + v.s().int(-3, 12) as i128,
        2 => r.b as i128 + v.s().int(-3, 3) as i128,
        3 => { let k = v.s().draw(0) as i128 & ((1 << 62) - 1); r.a as i128 + (k % r.len().max(1)) * r.c as i128 + if v.chance(1, 4) { 1 } else { 0 } }
        _ => { let o = v.ints; v.ints = Ints::Edge; let i = v.int_value(); v.ints = o; i as i128 }
    };
    let x = x.clamp(MIN_INT as i128, MAX_INT as i128) as i64;
    v.i(x)
}

pub fn c19(s: &mut Src, cx: &mut Cx) -> R {
    let mut v = Vals::new(s);
    v.effects = true;
    let enums = v.chance(1, 3);
    let mut long = false;
    let (name, r) = if enums {
        let (_, mut x) = iterable(&mut v);
        let mut n = v.hold(K::List, x);
        if v.chance(1, 3) { let r = rg(&mut v); long = r.len() > 40; x = rg_expr(&mut v, &r); n = v.hold(K::Range, x); }
        let x = v.v(&n);
        let e = v.nat(Nat::Enumerate, vec![x]);
        let e = if v.chance(1, 6) { v.nat(Nat::Enumerate, vec![e]) } else { e };
        (v.hold(K::Enum, e), None)
    } else {
        let r = rg(&mut v);
        let e = rg_expr(&mut v, &r);
        if r.c == 0 {
            // an error: there is nothing to hold
            let p = v.show(vec![e]);
            v.ops.push(vec![p]);
            let i = v.s().int(0, 3);
            let i = v.i(i);
            let e = v.nat(Nat::Range, vec![i]);
            (v.hold(K::Range, e), Some(Rg { a: 0, b: 0, c: 1 }))
        } else { (v.hold(K::Range, e), Some(r)) }
    };
    let small = r.as_ref().map_or(!long, |r| r.len() <= 40);
    for _ in 0..v.n(2, 6) {
        let x = v.v(&name);
        let st = match v.s().weighted(&[2, 3, 2, 2, 2, if small { 5 } else { 0 }, if small { 4 } else { 0 }, 2, 1, 2, 1]) {
            0 => { let l = v.nat(Nat::Len, vec![x]); v.show(vec![l]) }
            1 => {
                let mut a = Vec::new();
                for _ in 0..v.n(1, 4) {
                    let y = match &r { Some(r) => about(&mut v, r), None => { let i = v.s().int(-1, 4); let i = v.i(i); let e = elem(&mut v); v.vector(vec![i, e]) } };
                    let y = if v.chance(1, 15) { v.any(0) } else { y };
                    let o = if v.chance(1, 4) { Op::NotIn } else { Op::In };
                    let x = v.v(&name);
                    a.push(v.bin(o, y, x));
                }
                v.show(a)
            }
            2 => {
                let b = v.nat(Nat::Bool, vec![x]);
                let x = v.v(&name);
                let n = v.un(Un::LNot, x);
                let (x, y) = (v.v(&name), v.i(1));
                let o = v.e(EK::And(Box::new(x), Box::new(y)));
                v.show(vec![b, n, o])
            }
            3 => {
                // equality
                let o = *v.s().pick(&[Op::Eq, Op::Eq, Op::Ne]);
                let y = match &r {
                    Some(r) => match v.n(0, 3) {
                        0 => rg_expr(&mut v, r),
                        1 => { let r = Rg { a: r.a, b: r.b, c: if r.c == 1 { -1 } else { 1 } }; rg_expr(&mut v, &r) }
                        2 => { let r = Rg { a: r.a, b: (r.b + 1).min(MAX_INT), c: r.c }; rg_expr(&mut v, &r) }
                        _ => v.any(0),
                    },
                    None => if v.chance(1, 2) { v.v(&name) } else { v.any(0) },
                };
                let e = v.bin(o, x, y);
                v.show(vec![e])
            }
            4 => {
                // the first few
                let mut b = Vec::new();
                let p = v.v("y");
                b.push(v.show(vec![p]));
                let c = v.fresh();
                let zero = v.i(0);
                let l = v.let_(&c, zero);
                let one = v.i(1);
                let inc = v.e(EK::OpAssign(Lv::Var(c.clone()), AOp::Op(Op::Add), Box::new(one)));
                b.push(v.se(inc));
                let (cc, k) = (v.v(&c), v.n(1, 5));
                let k = v.i(k as i64);
                let cond = v.bin(Op::Ge, cc, k);
                let br = v.g.st(SK::Break);
                b.push(v.g.st(SK::If(vec![(cond, vec![br])], None)));
                let els = if v.chance(1, 3) { let t = v.t("all"); Some(vec![v.print(vec![t])]) } else { None };
                let f = v.g.st(SK::For(vec![Pat::Lv(Lv::Var("y".into()))], x, b, els));
                v.ops.push(vec![l, f]);
                continue;
            }
            5 => {
                let e = one_on(&mut v, x);
                v.show(vec![e])
            }
            6 => {
                // the lazy value and the list give the same
                let (a, b) = (v.v("w"), v.v(&name));
                let b = v.nat(Nat::List, vec![b]);
                let e = one_on(&mut v, a);
                let f = v.lam(&["w"], e);
                let g = v.fresh();
                let f = v.let_(&g, f);
                let (f1, f2) = (v.v(&g), v.v(&g));
                let (a, b) = (v.call(f1, vec![x]), v.call(f2, vec![b]));
                let p = v.show(vec![a, b]);
                v.ops.push(vec![f, p]);
                continue;
            }
            7 => {
                // stops early
                let n = *v.s().pick(&[Nat::Any, Nat::All, Nat::Find, Nat::IndexOf]);
                let i = match &r { Some(r) => about(&mut v, r), None => v.i(1) };
                let o = *v.s().pick(&[Op::Ge, Op::Eq, Op::Ne, Op::Lt]);
                let y = v.v("y");
                let c = v.bin(o, y, i);
                let f = if v.chance(1, 2) { v.noisy(&["y"], c) } else { v.lam(&["y"], c) };
                let e = v.nat(n, vec![f, x]);
                if !small && !v.chance(1, 1) { continue; }
                v.show(vec![e])
            }
            8 => { let n = *v.s().pick(&[Nat::Str, Nat::Repr, Nat::TypeOf, Nat::Copy, Nat::Iterable]); let e = if n == Nat::Iterable { let f = v.f(n); v.bin(Op::Is, x, f) } else { v.nat(n, vec![x]) }; v.print(vec![e]) }
            9 => {
                // as a key
                let y = v.v(&name);
                let i = v.i(1);
                let d = v.dict(vec![(x, i)]);
                let e = v.index(d, y);
                v.show(vec![e])
            }
            _ => { let i = v.s().int(-2, 3); let i = v.i(i); let e = v.index(x, i); v.show(vec![e]) }
        };
        v.ops.push(vec![st]);
    }
    v.run(cx)
}

/// A library function of one iterable
fn one_on(v: &mut Vals, x: E) -> E {
    use Nat::*;
    let n = *v.s().pick(&[Map, Filter, FlatMap, Zip, Reduce, Sort, SortBy, MinBy, MaxBy, GroupBy, Reverse, Permutations, Combinations, Any, All, Find, RightFind, IndexOf, RightIndexOf, Counter, Sum, Min, Max, Enumerate, List, Set, Dict, Vector, Len, Heap, Join, Concat]);
    let a = match n {
        Map => { let f = callback(v, Cb::Any); vec![f, x] }
        Filter | Any | All | Find | RightFind => { let f = callback(v, Cb::Pred); vec![f, x] }
        IndexOf | RightIndexOf => { let f = if v.chance(1, 2) { elem(v) } else { callback(v, Cb::Pred) }; vec![f, x] }
        FlatMap => { let f = callback(v, Cb::Iter); vec![f, x] }
        Zip => if v.chance(1, 2) { vec![x, it(v)] } else { vec![it(v), x] },
        Reduce => { let f = callback(v, Cb::Two); vec![f, x] }
        SortBy | MinBy | MaxBy => { let c = if v.chance(1, 2) { Cb::Cmp } else { Cb::Key }; let f = by(v, n, c); vec![f, x] }
        GroupBy => { let f = if v.chance(1, 3) { let i = v.s().int(-1, 4); v.i(i) } else { callback(v, Cb::Pred) }; vec![f, x] }
        Permutations | Combinations => { let i = v.s().int(-1, 3); let i = v.i(i); vec![i, x] }
        Join => { let t = v.str(); let f = v.f(Str); let m = v.nat(Map, vec![f, x]); vec![t, m] }
        Concat => { let l = it(v); vec![v.list(vec![x, l])] }
        Dict => vec![v.nat(Enumerate, vec![x])],
        _ => vec![x],
    };
    apply(v, n, a)
}
