//! Function calls: parameter shapes, partial application, call styles and decorators.

use std::rc::Rc;

use crate::engine::{Cx, Failure, Src};
use crate::model::ast::*;
use crate::model::gen::{Cfg, Gen};
use crate::model::natives::{self, Nat};
use crate::model::ops::{Op, Un};

use super::prog::{check, Verdict};

const OPS: [Op; 21] = [Op::Add, Op::Mul, Op::Div, Op::Pow, Op::Mod, Op::Is, Op::IsNot, Op::In, Op::NotIn, Op::Sub, Op::Shl, Op::Shr, Op::And, Op::Or, Op::Xor, Op::Lt, Op::Gt, Op::Le, Op::Ge, Op::Eq, Op::Ne];

const EFFECTS: [Nat; 14] = [Nat::SortBy, Nat::MinBy, Nat::MaxBy, Nat::Heap, Nat::Read, Nat::ReadLine, Nat::ReadText, Nat::WriteText, Nat::Env, Nat::Argv, Nat::Eval, Nat::Monitor, Nat::Permutations, Nat::Combinations];

/// The most arguments of a function which takes any number
const MANY: usize = 1000;

struct Ca<'a> {
    g: Gen<'a>,
    /// callable names, with the fewest and most arguments
    fs: Vec<(String, usize, usize)>,
    /// struct name, instance name, methods
    st: Option<(String, String, Vec<(String, bool)>)>,
    module: Option<(String, Vec<String>)>,
}

impl<'a> Ca<'a> {
    fn small(&mut self) -> E { let k = self.g.s.int(0, 9); self.g.int_lit(k) }

    fn traced(&mut self, e: E) -> E {
        if !self.g.s.chance(1, 3) { return e; }
        self.g.traces += 1;
        let k = self.g.traces;
        let (f, k) = (self.g.var("t"), self.g.int_lit(k));
        self.g.call(f, vec![k, e])
    }

    /// An argument value
    fn value(&mut self, d: u32) -> E {
        let e = match self.g.s.weighted(&[8, 3, 2, 2, 2, 1, 1, d * 2, d, 1]) {
            0 => self.small(),
            1 => { let s = self.g.s.pick(&["a", "xy", "", "12"]).to_string(); self.g.str_lit(&s) }
            2 => { let n = self.g.s.below(4); let v = (0..n).map(|_| self.small()).collect(); self.g.list_lit(v) }
            3 => { let (a, b) = (self.small(), self.small()); self.g.e(EK::Vector(vec![Arg::E(a), Arg::E(b)])) }
            4 => { let (a, b) = (self.small(), self.small()); self.g.list_lit(vec![a, b]) }
            5 => self.g.e(EK::Nil),
            6 => { let b = self.g.s.chance(1, 2); self.g.e(EK::Bool(b)) }
            7 => { let f = self.callable(d - 1); self.g.e(EK::Paren(Box::new(f))) }
            8 => { let n = self.g.s.below(3); self.invoke(n, d - 1) }
            _ => { let v = (0..3).map(|i| self.g.int_lit(i)).map(Arg::E).collect(); self.g.e(EK::Set(v)) }
        };
        self.traced(e)
    }

    /// The arguments of a library function, roughly of the right types
    fn native_args(&mut self, n: Nat, k: usize) -> Vec<E> {
        let ps = n.params();
        let names: Vec<&str> = ps.split(", ").collect();
        (0..k).map(|i| match names.get(i).copied().unwrap_or("...") {
            "f" | "predicate" | "value_or_predicate" | "key_or_cmp" => {
                let f = match self.g.s.below(4) { 0 => self.g.nat(Nat::Abs), 1 => { let x = self.small(); self.g.e(EK::SectL(Box::new(x), Op::Add)) } 2 => self.g.e(EK::OpFn(Op::Add)), _ => self.callable(0) };
                let f = if matches!(f.k, EK::Lambda(_)) { self.g.e(EK::Paren(Box::new(f))) } else { f };
                self.traced(f)
            }
            "iter" | "collection" | "it" | "this" | "other" => { let n = self.g.s.below(4); let v = (0..n).map(|_| self.small()).collect(); let l = self.g.list_lit(v); self.traced(l) }
            "pattern" | "joiner" => self.g.str_lit("a"),
            "dictionary" => self.g.native(Nat::Dict, vec![]),
            "x" | "index" | "n" | "start" | "stop" | "step" => { let e = self.small(); self.traced(e) }
            _ => { let e = self.small(); self.traced(e) }
        }).collect()
    }

    /// A call with as many arguments as it takes, or as it may
    fn fitting(&mut self, d: u32) -> E {
        if self.g.s.chance(1, 4) {
            let all: Vec<Nat> = natives::named().filter(|n| !EFFECTS.contains(n)).collect();
            let n = *self.g.s.pick(&all);
            let (lo, hi) = n.arity();
            let hi = hi.min(4);
            if self.g.s.chance(1, 24) {
                // some arguments, then more than are left
                let (n, hi) = if self.g.s.chance(1, 4) { (*self.g.s.pick(&[Nat::Replace, Nat::Insert]), 3) } else { (n, hi) };
                let j = self.g.s.below(hi.max(1));
                let k = hi + 1 + self.g.s.below(2);
                let mut args = self.native_args(n, k);
                let more = args.split_off(j);
                let mut f = self.g.nat(n);
                if j > 0 { f = self.given(f, args); }
                return self.given(f, more);
            }
            let k = if self.g.s.chance(1, 3) { self.g.s.below(hi + 1) } else { lo + self.g.s.below(hi.max(lo) - lo + 1) };
            let args = self.native_args(n, k);
            let f = self.g.nat(n);
            return self.split(f, args);
        }
        let (n, lo, hi) = self.g.s.pick(&self.fs).clone();
        let f = self.g.var(&n);
        if hi == MANY && self.g.s.chance(1, 4) || self.g.s.chance(1, 60) {
            // a long list of arguments
            let k = *self.g.s.pick(&[7, 8, 9, 15, 16, 17, 31, 40, 130, 260]);
            let mut args = Vec::new();
            if self.g.s.chance(1, 2) && k < 50 { for _ in 0..k { args.push(Arg::E(self.small())); } } else {
                for _ in 0..self.g.s.below(3) { args.push(Arg::E(self.small())); }
                let n = self.g.int_lit(k);
                let r = self.g.native(Nat::Range, vec![n]);
                let id = self.g.uid();
                args.push(Arg::Unroll(id, r));
                for _ in 0..self.g.s.below(2) { args.push(Arg::E(self.small())); }
            }
            return self.g.e(EK::Call(Box::new(f), args));
        }
        let k = if self.g.s.chance(1, 4) { self.g.s.below(lo + 1) } else { lo + self.g.s.below(hi.min(lo + 3) - lo + 1) };
        if self.g.s.chance(1, 3) {
            // rounds which together do not exceed what is needed
            return self.rounds(f, k.min(lo.max(1)), d);
        }
        self.apply(f, k, d)
    }

    /// Arguments at once, or one after another
    fn split(&mut self, f: E, args: Vec<E>) -> E {
        let mut f = f;
        let mut rest: std::collections::VecDeque<E> = args.into();
        loop {
            let k = if self.g.s.chance(1, 2) { self.g.s.below(rest.len() + 1) } else { rest.len() };
            let now: Vec<E> = (0..k).map(|_| rest.pop_front().unwrap()).collect();
            f = self.given(f, now);
            if rest.is_empty() { return f; }
        }
    }

    fn given(&mut self, f: E, mut a: Vec<E>) -> E {
        if a.len() == 1 && self.g.s.chance(1, 3) { let x = a.pop().unwrap(); return self.g.e(EK::Comp(Box::new(x), Box::new(f))); }
        if a.len() == 1 && matches!(a[0].k, EK::Int(_) | EK::Str(_)) && !matches!(f.k, EK::Int(_) | EK::Lambda(_)) && self.g.s.chance(1, 2) { let x = a.pop().unwrap(); return self.g.e(EK::Bare(Box::new(f), Box::new(x))); }
        self.g.call(f, a)
    }

    /// Something to be called, perhaps as the last element of a literal
    fn callable(&mut self, d: u32) -> E {
        let f = self.called(d);
        if !matches!(f.k, EK::SectL(..) | EK::SectR(..) | EK::OpFn(_) | EK::UnFn(_) | EK::FieldFn(_)) || self.g.s.chance(2, 3) { return f; }
        let at = self.g.int_lit(0);
        let l = match self.g.s.below(3) {
            0 => self.g.list_lit(vec![f]),
            1 => { let k = self.g.int_lit(0); self.g.e(EK::Dict(vec![DArg::Pair(k, f)])) }
            _ => { let x = self.g.e(EK::Set(vec![Arg::E(f)])); self.g.native(Nat::List, vec![x]) }
        };
        self.g.e(EK::Index(Box::new(l), Box::new(at)))
    }

    fn called(&mut self, d: u32) -> E {
        match self.g.s.weighted(&[12, 4, 2, 2, 3, d * 3, 1, 2, 1, 1]) {
            0 => { let n = self.g.s.pick(&self.fs).0.clone(); self.g.var(&n) }
            1 => {
                // every way of taking arguments, but no effects beyond the program
                let all: Vec<Nat> = natives::named().filter(|n| !EFFECTS.contains(n)).collect();
                let n = *self.g.s.pick(&all);
                self.g.nat(n)
            }
            2 => { let o = *self.g.s.pick(&OPS); self.g.e(EK::OpFn(o)) }
            3 => {
                // `(-3)` is a number
                let o = *self.g.s.pick(&OPS);
                let o = if o == Op::Sub { Op::Add } else { o };
                let x = self.small();
                if self.g.s.chance(1, 2) { self.g.e(EK::SectL(Box::new(x), o)) } else { self.g.e(EK::SectR(o, Box::new(x))) }
            }
            4 => { let n = self.g.s.below(3); let f = self.function("_", n, false); self.g.e(EK::Lambda(f)) }
            5 => { let n = self.g.s.below(3); self.invoke(n, d - 1) }
            6 => { let u = *self.g.s.pick(&[Un::Not, Un::LNot]); self.g.e(EK::UnFn(u)) }
            7 => {
                let Some((s, x, ms)) = self.st.clone() else { return self.small() };
                let k = self.g.s.below(ms.len() + 3);
                if k == 0 { return self.g.var(&s); }
                if k == 1 { return self.g.e(EK::FieldFn("p".into())); }
                if k == 2 { let m = ms[0].0.clone(); return self.g.e(EK::FieldFn(m)); }
                let (m, this) = ms[k - 3].clone();
                // through the instance or the type
                let o = if this && self.g.s.chance(2, 3) { x } else { s };
                let o = self.g.var(&o);
                self.g.e(EK::Field(Box::new(o), m))
            }
            8 => {
                let Some((m, fs)) = self.module.clone() else { return self.g.nat(Nat::Print) };
                let f = self.g.s.pick(&fs).clone();
                let o = self.g.var(&m);
                self.g.e(EK::Field(Box::new(o), f))
            }
            _ => if self.g.s.chance(1, 2) { let i = self.g.s.int(0, 2); let i = self.g.int_lit(i); self.g.list_lit(vec![i]) } else {
                let (a, b) = (self.small(), self.small());
                let b = if self.g.s.chance(1, 2) { Some(Box::new(b)) } else { None };
                self.g.e(EK::SliceLit(Sl { a: Some(Box::new(a)), b, c: None }))
            },
        }
    }

    /// Calls a function with some arguments at once or one after another
    fn invoke(&mut self, n: usize, d: u32) -> E {
        if self.g.s.chance(3, 5) { return self.fitting(d); }
        let f = self.callable(d);
        self.rounds(f, n, d)
    }

    fn rounds(&mut self, f: E, n: usize, d: u32) -> E {
        let mut f = f;
        let mut left = n;
        let mut rounds = 0;
        loop {
            rounds += 1;
            let k = if self.g.s.chance(1, 2) { self.g.s.below(left + 1) } else { left };
            left -= k;
            f = self.apply(f, k, d);
            if left == 0 && (rounds > 2 || self.g.s.chance(2, 3)) { return f; }
            if rounds > 6 { return f; }
        }
    }

    fn apply(&mut self, f: E, k: usize, d: u32) -> E {
        if k == 1 {
            match self.g.s.weighted(&[3, 2, 2, 1]) {
                0 => {}
                1 => {
                    // `f [x]` is an index, `f (x)` an ordinary call
                    let a = self.value(0);
                    let ok = matches!(a.k, EK::Int(_) | EK::Str(_) | EK::Nil | EK::Bool(_));
                    if ok && !matches!(f.k, EK::Int(_) | EK::Lambda(_)) { return self.g.e(EK::Bare(Box::new(f), Box::new(a))); }
                    return self.g.call(f, vec![a]);
                }
                2 => { let a = self.value(d); return self.g.e(EK::Comp(Box::new(a), Box::new(f))); }
                _ => {
                    let a = self.value(0);
                    let l = self.g.list_lit(vec![a]);
                    let id = self.g.uid();
                    return self.g.e(EK::Call(Box::new(f), vec![Arg::Unroll(id, l)]));
                }
            }
        }
        let mut args = Vec::new();
        let mut left = k;
        while left > 0 || self.g.s.chance(1, 12) {
            if self.g.s.chance(1, 6) || left == 0 {
                // several arguments from one collection
                let m = self.g.s.below(left.min(3) + 1);
                left -= m;
                let v = match self.g.s.below(4) {
                    _ if self.g.s.chance(1, 60) => self.value(0),
                    0 | 1 => { let v: Vec<E> = (0..m).map(|_| self.value(0)).collect(); self.g.list_lit(v) }
                    2 => { let s: String = "xyz".chars().take(m).collect(); self.g.str_lit(&s) }
                    _ => { let m = self.g.int_lit(m as i64); self.g.native(Nat::Range, vec![m]) }
                };
                let v = self.traced(v);
                let id = self.g.uid();
                args.push(Arg::Unroll(id, v));
            } else {
                left -= 1;
                args.push(Arg::E(self.value(d)));
            }
        }
        let f = if matches!(f.k, EK::Lambda(_)) { self.g.e(EK::Paren(Box::new(f))) } else { f };
        self.g.e(EK::Call(Box::new(f), args))
    }

    /// A function which returns a list of its parameters
    fn function(&mut self, name: &str, req: usize, this: bool) -> Rc<FnDef> {
        let id = self.g.uid();
        let mut params = Vec::new();
        let mut names = Vec::new();
        let mut k = 0;
        let mut fresh = || { k += 1; ["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l"][k - 1].to_string() };
        if this { params.push(Param { pat: Pat::Lv(Lv::Var("self".into())), k: PK::Req }); }
        for _ in 0..req {
            let pat = if self.g.s.chance(1, 12) {
                let (a, b) = (fresh(), fresh());
                names.push(a.clone());
                names.push(b.clone());
                if self.g.s.chance(1, 3) { Pat::Nest(vec![Pat::Lv(Lv::Var(a)), Pat::Rest(Some(b))]) } else { Pat::Nest(vec![Pat::Lv(Lv::Var(a)), Pat::Lv(Lv::Var(b))]) }
            } else { let a = fresh(); names.push(a.clone()); Pat::Lv(Lv::Var(a)) };
            params.push(Param { pat, k: PK::Req });
        }
        let opt = self.g.s.weighted(&[5, 3, 1]);
        for _ in 0..opt {
            let n = fresh();
            names.push(n.clone());
            let k = if self.g.s.chance(1, 2) { PK::Opt } else {
                let v = match self.g.s.below(3) { 0 => self.small(), 1 => self.g.list_lit(vec![]), _ => { let x = self.small(); self.g.native(Nat::Str, vec![x]) } };
                self.g.traces += 1;
                let k = self.g.traces;
                let (f, k) = (self.g.var("t"), self.g.int_lit(k));
                PK::Def(self.g.call(f, vec![k, v]))
            };
            params.push(Param { pat: Pat::Lv(Lv::Var(n)), k });
        }
        if self.g.s.chance(1, 4) {
            let n = fresh();
            names.push(n.clone());
            params.push(Param { pat: Pat::Lv(Lv::Var(n)), k: PK::Var });
        }
        let xs: Vec<E> = names.iter().map(|n| self.g.var(n)).collect();
        let mut l = self.g.list_lit(xs);
        if name != "_" { let s = self.g.str_lit(name); if let EK::List(v) = &mut l.k { v.insert(0, Arg::E(s)); } }
        if this { let s = self.g.var("self"); let f = self.g.e(EK::Field(Box::new(s), "p".into())); if let EK::List(v) = &mut l.k { v.push(Arg::E(f)); } }
        let body = match self.g.s.weighted(&[3, 2, 1]) {
            0 => Body::Expr(l),
            1 => {
                let s = self.g.str_lit(&format!("<{}>", name));
                let p = self.g.native(Nat::Print, vec![s]);
                Body::Block(vec![self.g.st(SK::Expr(p)), self.g.st(SK::Return(Some(l)))])
            }
            _ => {
                // parameters are variables of their own
                let mut b = Vec::new();
                if let Some(n) = names.last() {
                    let x = self.g.str_lit("!");
                    let y = self.g.var(n);
                    let v = self.g.list_lit(vec![x, y]);
                    let e = self.g.e(EK::Assign(Lv::Var(n.clone()), Box::new(v)));
                    b.push(self.g.st(SK::Expr(e)));
                }
                b.push(self.g.st(SK::Expr(l)));
                Body::Block(b)
            }
        };
        Rc::new(FnDef { id, name: name.into(), params, body })
    }

    /// `fn w0(f) { print('w0', repr(f)) ; fn(*a) { print('in w0', repr(a)) ; f(...a) } }`
    fn decorator(&mut self, name: &str) -> S {
        let show = |g: &mut Gen, s: &str, v: &str| { let s = g.str_lit(s); let v = g.var(v); let r = g.native(Nat::Repr, vec![v]); let e = g.native(Nat::Print, vec![s, r]); g.st(SK::Expr(e)) };
        let g = &mut self.g;
        let p1 = show(g, name, "f");
        let body = if g.s.chance(3, 4) {
            let p2 = show(g, &format!("in {}", name), "a");
            let (f, a, id) = (g.var("f"), g.var("a"), g.uid());
            let c = g.e(EK::Call(Box::new(f), vec![Arg::Unroll(id, a)]));
            let l = if g.s.chance(1, 2) { let s = g.str_lit(name); g.list_lit(vec![s, c]) } else { c };
            let r = g.st(SK::Expr(l));
            let id = g.uid();
            let inner = FnDef { id, name: "_".into(), params: vec![Param { pat: Pat::Lv(Lv::Var("a".into())), k: PK::Var }], body: Body::Block(vec![p2, r]) };
            g.e(EK::Lambda(Rc::new(inner)))
        } else { g.var("f") };
        let r = g.st(SK::Expr(body));
        let id = g.uid();
        let d = FnDef { id, name: name.into(), params: vec![Param { pat: Pat::Lv(Lv::Var("f".into())), k: PK::Req }], body: Body::Block(vec![p1, r]) };
        g.st(SK::Fn(Rc::new(d), vec![]))
    }

    fn named(&mut self, name: &str, decorators: &[String], out: &mut Vec<S>) {
        let n = self.g.s.weighted(&[2, 3, 3, 2]);
        let f = self.function(name, n, false);
        let arity = (f.min_args(), f.max_args().unwrap_or(MANY));
        let lambda = self.g.s.chance(1, 4);
        if lambda {
            let e = self.g.e(EK::Lambda(f));
            let mut p = Rc::try_unwrap(match e.k { EK::Lambda(f) => f, _ => unreachable!() }).ok().unwrap();
            p.name = "_".into();
            let e = self.g.e(EK::Lambda(Rc::new(p)));
            out.push(self.g.st(SK::Let(vec![(vec![Pat::Lv(Lv::Var(name.into()))], Some(e))])));
        } else {
            let mut ds = Vec::new();
            if self.g.s.chance(1, 4) {
                let k = 1 + self.g.s.below(3);
                for _ in 0..k {
                    ds.push(match self.g.s.below(6) {
                        0 => self.g.nat(Nat::Memoize),
                        _ => { let d = self.g.s.pick(decorators).clone(); self.g.var(&d) }
                    });
                }
            }
            out.push(self.g.st(SK::Fn(f, ds)));
        }
        self.fs.push((name.into(), arity.0, arity.1));
    }
}

pub fn run(s: &mut Src, cx: &mut Cx) -> Result<(), Failure> {
    let g = Gen::new(s, Cfg::default());
    let mut c = Ca { g, fs: vec![], st: None, module: None };
    let mut prog = vec![c.g.tracer()];
    let decorators = ["w0".to_string(), "w1".to_string()];
    for d in &decorators { let s = c.decorator(d); prog.push(s); }
    let n = 2 + c.g.s.below(3);
    for i in 0..n { c.named(&format!("f{}", i), &decorators, &mut prog); }
    if c.g.s.chance(1, 3) {
        let mut ms = Vec::new();
        for i in 0..2 { let n = c.g.s.below(3); let this = c.g.s.chance(2, 3); ms.push((c.function(&format!("m{}", i), n, this), this)); }
        let names = ms.iter().map(|m| (m.0.name.clone(), m.1)).collect();
        let nf = 1 + c.g.s.below(5);
        let at = c.g.s.below(nf);
        let mut fields: Vec<String> = ["q", "r", "s", "u"][..nf - 1].iter().map(|x| x.to_string()).collect();
        fields.insert(at, "p".into());
        prog.push(c.g.st(SK::Struct("S".into(), fields, ms)));
        let f = c.g.var("S");
        let a = (0..nf).map(|_| c.small()).collect();
        let x = c.g.call(f, a);
        c.fs.push(("S".into(), nf, nf));
        prog.push(c.g.st(SK::Let(vec![(vec![Pat::Lv(Lv::Var("o".into()))], Some(x))])));
        c.st = Some(("S".into(), "o".into(), names));
    }
    if c.g.s.chance(1, 4) {
        let n = c.g.s.below(3);
        let f = c.function("m", n, false);
        prog.push(c.g.st(SK::Module("M".into(), vec![f])));
        c.module = Some(("M".into(), vec!["m".into()]));
    }
    let n = 1 + c.g.s.below(4);
    let mut calls = 0;
    for _ in 0..n {
        let k = c.g.s.weighted(&[2, 4, 4, 3, 2, 1]);
        let e = c.invoke(k, 2);
        calls += 1;
        if c.g.s.chance(1, 4) {
            // partial functions are values
            let name = format!("p{}", calls);
            prog.push(c.g.st(SK::Let(vec![(vec![Pat::Lv(Lv::Var(name.clone()))], Some(e))])));
            c.fs.push((name.clone(), 1, 1));
            let v = c.g.var(&name);
            let r = c.g.native(Nat::Repr, vec![v]);
            let p = c.g.native(Nat::Print, vec![r]);
            prog.push(c.g.st(SK::Expr(p)));
        } else {
            let r = c.g.native(Nat::Repr, vec![e]);
            let p = c.g.native(Nat::Print, vec![r]);
            prog.push(c.g.st(SK::Expr(p)));
        }
    }
    match check(&prog, Style::default(), 0, cx)? {
        Verdict::Discard => return cx.discard(),
        Verdict::Ok { failed } => { cx.label(if failed { "ends in an error" } else { "ends normally" }); cx.nontrivial = cx.nontrivial || !failed; }
    }
    Ok(())
}
