//! Functions which are given their arguments in several stages, each of which is a value of its own: kept, used again
//! with other arguments, or called by a library function.

use crate::engine::{Cx, Failure, Src};
use crate::model::ast::*;
use crate::model::natives::Nat;
use crate::model::ops::Op;

use super::vals::Vals;

/// What a parameter takes
#[derive(Clone, Copy, PartialEq)]
enum A { I, P, Z, T, N, L, S, D, F1, F2, Any }

#[derive(Clone)]
enum Target { Name(String), Nat(Nat), Op(Op), Method(String, String) }

const NATIVES: &[(Nat, &[A])] = &[
    (Nat::Int, &[A::N, A::Any]), (Nat::Rational, &[A::I, A::P]), (Nat::Replace, &[A::T, A::T, A::T]), (Nat::Replace, &[A::T, A::F1, A::T]),
    (Nat::Search, &[A::T, A::T]), (Nat::Split, &[A::T, A::T]), (Nat::Join, &[A::T, A::L]), (Nat::Range, &[A::I, A::I, A::P]),
    (Nat::MinBy, &[A::F1, A::L]), (Nat::MaxBy, &[A::F1, A::L]), (Nat::Map, &[A::F1, A::L]), (Nat::Filter, &[A::F1, A::L]), (Nat::FlatMap, &[A::F1, A::L]),
    (Nat::Reduce, &[A::F2, A::L]), (Nat::GroupBy, &[A::P, A::L]), (Nat::Any, &[A::F1, A::L]), (Nat::All, &[A::F1, A::L]), (Nat::Union, &[A::L, A::S]),
    (Nat::Intersect, &[A::L, A::S]), (Nat::Difference, &[A::L, A::S]), (Nat::Push, &[A::Any, A::L]), (Nat::PushFront, &[A::Any, A::L]),
    (Nat::Insert, &[A::Z, A::Any, A::L]), (Nat::Insert, &[A::Any, A::Any, A::D]), (Nat::Remove, &[A::Z, A::L]), (Nat::Remove, &[A::I, A::D]), (Nat::Find, &[A::F1, A::L]), (Nat::RightFind, &[A::F1, A::L]),
    (Nat::IndexOf, &[A::I, A::L]), (Nat::RightIndexOf, &[A::I, A::L]), (Nat::Default, &[A::Any, A::D]), (Nat::Insert, &[A::Z, A::I, A::L]),
];
const OPS: [Op; 14] = [Op::Sub, Op::Div, Op::Mod, Op::Pow, Op::Shl, Op::Lt, Op::Ge, Op::Mul, Op::Add, Op::Xor, Op::Eq, Op::And, Op::Or, Op::Gt];

fn value(v: &mut Vals, a: A) -> E {
    match a {
        A::I => v.int(),
        A::P => { let i = v.s().int(1, 5); v.i(i) }
        A::Z => { let i = v.s().int(0, 1); v.i(i) }
        A::T => { let t = v.s().pick(&["a", "b", "ab", "banana", "", "aba", "c"]).to_string(); v.t(&t) }
        A::N => { let t = v.s().pick(&["12", "x", "-3"]).to_string(); v.t(&t) }
        A::L => { let n = v.n(2, 4); let xs = (0..n).map(|_| v.int()).collect(); let e = v.list(xs); if v.chance(1, 5) { v.nat(Nat::Vector, vec![e]) } else { e } }
        A::S => { let n = v.n(1, 3); let xs = (0..n).map(|_| v.int()).collect(); v.set(xs) }
        A::D => { let n = v.n(1, 3); let mut xs = Vec::new(); for _ in 0..n { let (a, b) = (v.int(), v.scalar_value()); xs.push((a, b)); } v.dict(xs) }
        A::F1 => v.function(1),
        A::F2 => v.function(2),
        A::Any => v.scalar_value(),
    }
}

fn expr(v: &mut Vals, t: &Target) -> E {
    match t {
        Target::Name(n) => v.v(n),
        Target::Nat(n) => v.f(*n),
        Target::Op(o) => v.e(EK::OpFn(*o)),
        Target::Method(o, m) => { let o = v.v(o); v.e(EK::Field(Box::new(o), m.clone())) }
    }
}

/// Gives a function some arguments, by any way of calling
fn give(v: &mut Vals, f: E, args: &[A]) -> E {
    let mut xs: Vec<E> = args.iter().map(|a| value(v, *a)).collect();
    if xs.len() == 1 {
        match v.s().below(5) {
            0 => { let x = xs.pop().unwrap(); let x = v.paren(x); let f = v.paren(f); return v.e(EK::Comp(Box::new(x), Box::new(f))); }
            1 if matches!(xs[0].k, EK::Str(_)) || matches!(xs[0].k, EK::Int(i) if i >= 0) => { let f = v.paren(f); return v.e(EK::Bare(Box::new(f), Box::new(xs.pop().unwrap()))); }
            _ => {}
        }
    }
    let f = v.paren(f);
    if !xs.is_empty() && v.chance(1, 5) {
        let cut = v.n(0, xs.len() - 1);
        let rest: Vec<E> = xs.drain(cut..).collect();
        let l = if v.chance(1, 25) { v.any(0) } else { v.list(rest) };
        let id = v.g.uid();
        let mut a: Vec<Arg> = xs.into_iter().map(Arg::E).collect();
        a.push(Arg::Unroll(id, l));
        return v.e(EK::Call(Box::new(f), a));
    }
    let xs = xs.into_iter().map(|x| v.paren(x)).collect();
    v.call(f, xs)
}

/// A function definition which returns a list of all of its arguments
fn define(v: &mut Vals, name: &str, this: bool, req: usize, opt: usize, var: bool) -> FnDef {
    let id = v.g.uid();
    let all = ["a", "b", "c", "d", "e", "f", "g", "h"];
    let total = req + opt + var as usize;
    let mut params = Vec::new();
    if this { params.push(Param { pat: Pat::Lv(Lv::Var("self".into())), k: PK::Req }); }
    for (i, n) in all.iter().enumerate().take(total) {
        let k = if i < req { PK::Req } else if i < req + opt { if v.chance(1, 2) { PK::Opt } else { let e = v.scalar_value(); PK::Def(e) } } else { PK::Var };
        params.push(Param { pat: Pat::Lv(Lv::Var(n.to_string())), k });
    }
    let mut xs = vec![v.t(name)];
    for n in &all[..total] { let n = v.v(n); xs.push(n); }
    if this { let s = v.v("self"); let f = v.e(EK::Field(Box::new(s), "p".into())); xs.push(f); }
    let l = v.list(xs);
    FnDef { id, name: name.into(), params, body: Body::Expr(l) }
}

pub fn run(s: &mut Src, cx: &mut Cx) -> Result<(), Failure> {
    cx.label("arguments in stages");
    let mut v = Vals::new(s);
    // functions of the program, with the arguments they need and may have
    let mut own: Vec<(Target, usize, usize)> = Vec::new();
    let n = v.n(1, 3);
    for i in 0..n {
        let (req, opt, var) = (v.n(1, 5), if v.chance(1, 4) { 1 } else { 0 }, v.chance(1, 5));
        let name = format!("u{}", i);
        let most = req + opt + if var { 2 } else { 0 };
        match v.s().below(5) {
            0 => {
                // captures a variable
                let mut f = define(&mut v, "_", false, req, opt, var);
                let k = format!("k{}", i);
                let e = v.t(&k);
                let l = v.let_(&k, e);
                v.setup.push(l);
                if let Body::Expr(E { k: EK::List(xs), .. }) = &mut f.body { xs.push(Arg::E(E { id: 0, k: EK::Var(k) })); }
                let f = v.e(EK::Lambda(std::rc::Rc::new(f)));
                let l = v.let_(&name, f);
                v.setup.push(l);
            }
            1 => {
                let f = define(&mut v, &name, false, req, opt, var);
                let m = v.f(Nat::Memoize);
                let s = v.g.st(SK::Fn(std::rc::Rc::new(f), vec![m]));
                v.setup.push(s);
            }
            _ => { let f = define(&mut v, &name, false, req, opt, var); let s = v.g.st(SK::Fn(std::rc::Rc::new(f), vec![])); v.setup.push(s); }
        }
        own.push((Target::Name(name), req, most));
    }
    if v.chance(1, 3) {
        let (r1, r2) = (v.n(1, 4), v.n(1, 3));
        let m = define(&mut v, "m", true, r1, 0, false);
        let n = define(&mut v, "n", false, r2, 0, false);
        let s = v.g.st(SK::Struct("R".into(), vec!["p".into()], vec![(std::rc::Rc::new(m), true), (std::rc::Rc::new(n), false)]));
        v.setup.push(s);
        let (f, a) = (v.v("R"), v.int());
        let o = v.call(f, vec![a]);
        let l = v.let_("o", o);
        v.setup.push(l);
        own.push((Target::Method("o".into(), "m".into()), r1, r1));
        own.push((Target::Method("R".into(), "n".into()), r2, r2));
        own.push((Target::Method("R".into(), "m".into()), r1 + 1, r1 + 1));
    }
    let n = v.n(1, 3);
    for _ in 0..n {
        let (target, kinds, least) = match v.s().weighted(&[5, 4, 1]) {
            0 => {
                let (t, least, most) = v.s().pick(&own).clone();
                let n = if v.chance(1, 2) { least } else { v.n(least, most) };
                let mut ks: Vec<A> = (0..n).map(|_| *v.s().pick(&[A::I, A::Any, A::T])).collect();
                if matches!(&t, Target::Method(o, m) if o == "R" && m == "m") { ks[0] = A::Z; }
                (t, ks, least)
            }
            1 => { let (n, ks) = *v.s().pick(NATIVES); let least = n.arity().0.min(ks.len()); (Target::Nat(n), ks.to_vec(), least) }
            _ => { let o = *v.s().pick(&OPS); (Target::Op(o), vec![A::I, A::I], 2) }
        };
        // what has been made so far, with the number of arguments it has been given
        let mut nodes: Vec<(Target, usize)> = vec![(target.clone(), 0)];
        let steps = v.n(2, 6);
        let mut block = Vec::new();
        for _ in 0..steps {
            let i = if v.chance(2, 3) { nodes.len() - 1 } else { v.n(0, nodes.len() - 1) };
            let (t, given) = nodes[i].clone();
            let left = kinds.len() - given;
            let need = least.saturating_sub(given);
            let method = matches!(&t, Target::Method(o, m) if o == "R" && m == "m");
            let mut f = expr(&mut v, &t);
            let f1 = |v: &mut Vals| v.n(1, 3);
            let (e, more) = match v.s().weighted(&[4, 5, 2, 2, 1, 1, 1, 1]) {
                1 if need > 1 && !method => { let k = v.n(1, need - 1); (give(&mut v, f, &kinds[given..given + k]), k) }
                2 if need > 0 && !method => {
                    let n = f1(&mut v);
                    let xs = (0..n).map(|_| value(&mut v, kinds[given])).collect();
                    let l = v.list(xs);
                    let m = if need == 1 { *v.s().pick(&[Nat::Map, Nat::Map, Nat::Filter, Nat::Any, Nat::All, Nat::Find, Nat::FlatMap, Nat::IndexOf, Nat::RightFind, Nat::MinBy, Nat::RightIndexOf]) } else { Nat::Map };
                    let e = v.nat(m, vec![f, l]);
                    if need == 1 { (e, left) } else { let k = v.n(0, n - 1); let k = v.i(k as i64); (v.index(e, k), 1) }
                }
                3 if need > 1 && !method => {
                    let (a, b) = (value(&mut v, kinds[given]), value(&mut v, kinds[given + 1]));
                    let l = v.list(vec![a, b]);
                    let m = if need == 2 && v.chance(1, 4) { *v.s().pick(&[Nat::SortBy, Nat::MinBy, Nat::MaxBy]) } else { Nat::Reduce };
                    let e = v.nat(m, vec![f, l]);
                    if m == Nat::Reduce { (e, 2) } else { (e, left) }
                }
                4 if need > 0 && !method => {
                    // called without arguments, as a default value
                    let d = v.dict(vec![]);
                    let d = v.nat(Nat::Default, vec![f, d]);
                    let k = v.i(1);
                    (v.index(d, k), 0)
                }
                5 if !method => { let x = v.list(vec![f]); let k = v.i(0); (v.index(x, k), 0) }
                6 if !method => { f = v.nat(Nat::Memoize, vec![f]); (give(&mut v, f, &kinds[given..]), left) }
                7 if !method && need > 0 => {
                    // through a function which passes all on
                    let (g, a, id, u) = (f, v.v("z"), v.g.uid(), v.g.uid());
                    let c = v.e(EK::Call(Box::new(g), vec![Arg::Unroll(id, a)]));
                    let d = FnDef { id: u, name: "_".into(), params: vec![Param { pat: Pat::Lv(Lv::Var("z".into())), k: PK::Var }], body: Body::Expr(c) };
                    let g = v.e(EK::Lambda(std::rc::Rc::new(d)));
                    let k = v.n(1, need);
                    if k == need { (give(&mut v, g, &kinds[given..]), left) } else { (give(&mut v, g, &kinds[given..given + k]), k) }
                }
                _ if method => {
                    // as a function of the instance too
                    let o = v.v("o");
                    let k = v.n(0, left - 1);
                    let rest: Vec<E> = kinds[given + 1..given + 1 + k].iter().map(|a| value(&mut v, *a)).collect();
                    let mut a = vec![o];
                    a.extend(rest);
                    let e = v.call(f, a);
                    (e, if k + 1 == left { left } else { k + 1 })
                }
                _ => { let k = if need < left && need > 0 { v.n(need, left) } else { left }; (give(&mut v, f, &kinds[given..given + k]), left) }
            };
            if more >= left { let p = v.show(vec![e]); block.push(p); continue; }
            let z = v.fresh();
            let l = v.let_(&z, e);
            block.push(l);
            let x = v.v(&z);
            let p = v.show(vec![x]);
            block.push(p);
            nodes.push((Target::Name(z), given + more));
        }
        // and all of them once more
        let all: Vec<(Target, usize)> = nodes.iter().skip(1).cloned().collect();
        for (t, given) in all {
            if !v.chance(1, 2) { continue; }
            let f = expr(&mut v, &t);
            let e = give(&mut v, f, &kinds[given..]);
            let p = v.show(vec![e]);
            block.push(p);
        }
        v.ops.push(block);
    }
    v.run(cx)
}
