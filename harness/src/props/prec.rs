//! Precedence and associativity: one tree, printed in several ways.

use std::rc::Rc;

use super::prog::{agree, folded, print_program};
use crate::engine::{Cx, Failure, Src};
use crate::model::ast::*;
use crate::model::gen::{Cfg, Gen};
use crate::model::interp::{End as MEnd, Interp};
use crate::model::natives::Nat;
use crate::model::ops::{Op, Un};
use crate::vmrun;

#[derive(Clone, Copy, PartialEq, Debug)]
enum T { I, B, F, L }

struct P<'a> { g: Gen<'a>, left: i32, w: bool, ops: usize }

const ARITH: [Op; 8] = [Op::Add, Op::Sub, Op::Mul, Op::And, Op::Or, Op::Xor, Op::Shl, Op::Shr];
const CMP: [Op; 6] = [Op::Lt, Op::Le, Op::Gt, Op::Ge, Op::Eq, Op::Ne];

impl<'a> P<'a> {
    fn bx(&mut self, t: T, d: u32) -> Box<E> { Box::new(self.ex(t, d)) }

    fn atom(&mut self, t: T) -> E {
        match t {
            T::I => match self.g.s.weighted(&[4, 3, 2]) {
                0 => { let v = *self.g.s.pick(&["a", "b", "c"]); self.g.var(v) }
                1 => { let i = self.g.s.int(0, 9); self.g.int_lit(i) }
                _ => { if self.w { self.g.var("w") } else { let i = self.g.s.int(-3, 70); self.g.int_lit(i) } }
            },
            T::B => match self.g.s.weighted(&[4, 1]) {
                0 => { let v = *self.g.s.pick(&["p", "q"]); self.g.var(v) }
                _ => { let b = self.g.s.chance(1, 2); self.g.e(EK::Bool(b)) }
            },
            T::F => match self.g.s.weighted(&[3, 2, 1]) {
                0 => self.g.var("inc"),
                1 => self.g.nat(Nat::Abs),
                _ => { let o = *self.g.s.pick(&[Un::Neg, Un::Not]); if o == Un::Neg { self.g.nat(Nat::Int) } else { self.g.e(EK::UnFn(o)) } }
            },
            T::L => self.g.var("xs"),
        }
    }

    fn var(&mut self, t: T) -> &'static str { if t == T::B { *self.g.s.pick(&["p", "q"]) } else { *self.g.s.pick(&["a", "b", "c"]) } }

    /// An index within `xs`
    fn index(&mut self, d: u32) -> E {
        let (a, n) = (self.ex(T::I, d), self.g.int_lit(3));
        if self.g.s.chance(1, 2) { let i = self.g.s.int(-3, 2); return self.g.int_lit(i); }
        self.g.bin(Op::Mod, a, n)
    }

    fn small(&mut self, lo: i64) -> E { let i = self.g.s.int(lo, 5); self.g.int_lit(i) }

    fn field(&mut self, d: u32) -> E {
        let s = match self.g.s.weighted(&[3, 1]) { 0 => self.g.var("s"), _ => { let (f, v) = (self.g.var("S"), self.ex(T::I, d)); self.g.call(f, vec![v]) } };
        self.g.e(EK::Field(Box::new(s), "v".into()))
    }

    fn ex(&mut self, t: T, d: u32) -> E {
        self.left -= 1;
        if d == 0 || self.left < 0 { return self.atom(t); }
        self.ops += 1;
        let n = d - 1;
        // of any type
        match self.g.s.weighted(&[24, 3, 1, 1]) {
            1 => {
                let k = 1 + self.g.s.weighted(&[4, 1]);
                let cs = (0..k).map(|_| (self.ex(T::B, n), self.ex(t, n))).collect();
                let z = self.bx(t, n);
                return self.g.e(EK::Tern(cs, z));
            }
            2 if t == T::I || t == T::B => {
                let v = self.var(t);
                let e = self.bx(t, n);
                if t == T::I && self.g.s.chance(1, 2) {
                    let o = match self.g.s.weighted(&[4, 1, 1]) { 0 => AOp::Op(*self.g.s.pick(&ARITH)), 1 => AOp::Min, _ => AOp::Max };
                    return self.g.e(EK::OpAssign(Lv::Var(v.into()), o, e));
                }
                return self.g.e(EK::Assign(Lv::Var(v.into()), e));
            }
            3 => { let e = self.bx(t, n); return self.g.e(EK::Paren(e)); }
            _ => {}
        }
        match t {
            T::I => match self.g.s.weighted(&[20, 4, 3, 4, 2, 3, 3, 3, 2, 1, 1, 1, 1]) {
                0 => { let o = *self.g.s.pick(&ARITH); let (a, b) = (self.ex(T::I, n), self.ex(T::I, n)); self.g.bin(o, a, b) }
                1 => {
                    let a = self.ex(T::I, n);
                    let (o, b) = match self.g.s.below(3) { 0 => (Op::Mod, self.small(1)), 1 => (Op::Div, self.small(1)), _ => (Op::Pow, self.small(0)) };
                    self.g.bin(o, a, b)
                }
                2 => { let a = self.bx(T::I, n); let o = *self.g.s.pick(&[Un::Neg, Un::Not]); self.g.e(EK::Un(o, a)) }
                3 => { let a = self.bx(T::I, n); let f = self.bx(T::F, n); self.g.e(EK::Comp(a, f)) }
                4 => { let f = self.ex(T::F, n); let a = self.ex(T::I, n); self.g.call(f, vec![a]) }
                5 => {
                    // a call without parentheses
                    let f = self.bx(T::F, n);
                    let a = self.ex(T::I, n);
                    let a = match a.k { EK::Var(_) | EK::Int(0..) | EK::Tern(..) => a, _ => self.atom(T::I) };
                    let a = if matches!(a.k, EK::Int(i) if i < 0) { self.g.var("a") } else { a };
                    self.g.e(EK::Bare(f, Box::new(a)))
                }
                6 => { let l = self.bx(T::L, n); let i = Box::new(self.index(n)); self.g.e(EK::Index(l, i)) }
                7 => self.field(n),
                8 => {
                    let (o, a, b) = (*self.g.s.pick(&ARITH), self.ex(T::I, n), self.ex(T::I, n));
                    let f = self.g.e(EK::OpFn(o));
                    if self.g.s.chance(1, 2) { self.g.call(f, vec![a, b]) } else { let f = self.g.call(f, vec![a]); self.g.call(f, vec![b]) }
                }
                9 => { let l = self.ex(T::L, n); let f = *self.g.s.pick(&[Nat::Sum, Nat::Len]); let f = self.g.nat(f); if self.g.s.chance(1, 2) { self.g.call(f, vec![l]) } else { self.g.e(EK::Comp(Box::new(l), Box::new(f))) } }
                10 => { let x = self.bx(T::I, n); let v = self.g.e(EK::FieldFn("v".into())); let s = { let f = self.g.var("S"); self.g.call(f, vec![*x]) }; self.g.e(EK::Comp(Box::new(s), Box::new(v))) }
                11 => { let f = self.ex(T::F, n); let l = self.ex(T::L, n); let m = self.g.nat(Nat::Map); let m = self.g.call(m, vec![f, l]); let s = self.g.nat(Nat::Sum); self.g.e(EK::Comp(Box::new(m), Box::new(s))) }
                _ => { let f = self.ex(T::F, n); let l = self.ex(T::L, n); let m = self.g.nat(Nat::Map); let m = self.g.call(m, vec![f]); let l = self.g.e(EK::Comp(Box::new(l), Box::new(m))); let s = self.g.nat(Nat::Sum); self.g.e(EK::Comp(Box::new(l), Box::new(s))) }
            },
            T::B => match self.g.s.weighted(&[8, 4, 8, 3, 3, 3, 2, 2, 2]) {
                0 => { let o = *self.g.s.pick(&CMP); let (a, b) = (self.ex(T::I, n), self.ex(T::I, n)); self.g.bin(o, a, b) }
                1 => {
                    let k = 2 + self.g.s.weighted(&[5, 3, 2, 1, 1]);
                    let a = self.bx(T::I, n);
                    let r = (0..k).map(|_| { let o = *self.g.s.pick(&CMP); let id = self.g.uid(); (o, id, self.ex(T::I, n)) }).collect();
                    self.g.e(EK::Chain(a, r))
                }
                2 => { let (a, b) = (self.bx(T::B, n), self.bx(T::B, n)); if self.g.s.chance(1, 2) { self.g.e(EK::And(a, b)) } else { self.g.e(EK::Or(a, b)) } }
                3 => { let a = self.bx(T::B, n); let o = *self.g.s.pick(&[Un::LNot, Un::Not]); self.g.e(EK::Un(o, a)) }
                4 => { let o = *self.g.s.pick(&[Op::In, Op::NotIn]); let (a, l) = (self.ex(T::I, n), self.ex(T::L, n)); self.g.bin(o, a, l) }
                5 => {
                    let o = *self.g.s.pick(&[Op::Is, Op::IsNot]);
                    let any = *self.g.s.pick(&[T::I, T::B, T::L]);
                    let a = self.ex(any, n);
                    let k = *self.g.s.pick(&[Nat::Int, Nat::Bool, Nat::List]);
                    let b = self.g.nat(k);
                    self.g.bin(o, a, b)
                }
                6 => {
                    // a predicate section, applied or mapped
                    let o = *self.g.s.pick(&CMP);
                    let f = self.section(o, n);
                    let a = self.ex(T::I, n);
                    if self.g.s.chance(1, 2) { self.g.call(f, vec![a]) } else { self.g.e(EK::Comp(Box::new(a), Box::new(f))) }
                }
                7 => {
                    // one of a list of sections
                    let k = 1 + self.g.s.below(3);
                    let at = self.g.s.below(k);
                    let mut arg = None;
                    let fs = (0..k).map(|i| {
                        let o = *self.g.s.pick(&[Op::NotIn, Op::In, Op::IsNot, Op::Is, Op::Lt, Op::Ne]);
                        let left = self.g.s.chance(1, 2);
                        let (l, r) = match o {
                            Op::In | Op::NotIn => (T::I, Some(T::L)),
                            Op::Is | Op::IsNot => (*self.g.s.pick(&[T::I, T::B, T::L]), None),
                            _ => (T::I, Some(T::I)),
                        };
                        let x = self.ex(l, n.min(1));
                        let y = match r { Some(r) => self.ex(r, n.min(1)), None => { let k = *self.g.s.pick(&[Nat::Int, Nat::Bool, Nat::List]); self.g.nat(k) } };
                        let (f, a) = if left { (EK::SectL(Box::new(x), o), y) } else { (EK::SectR(o, Box::new(y)), x) };
                        if i == at { arg = Some(a); }
                        self.g.e(f)
                    }).collect();
                    let fs: Vec<E> = fs;
                    let l = match self.g.s.below(3) {
                        1 => { let v = fs.into_iter().enumerate().map(|(i, f)| { let i = self.g.int_lit(i as i64); DArg::Pair(i, f) }).collect(); self.g.e(EK::Dict(v)) }
                        2 if k == 1 => { let x = self.g.e(EK::Set(fs.into_iter().map(Arg::E).collect())); self.g.native(Nat::List, vec![x]) }
                        _ => self.g.list_lit(fs),
                    };
                    let i = Box::new(self.g.int_lit(at as i64));
                    let f = self.g.e(EK::Index(Box::new(l), i));
                    let a = arg.unwrap();
                    self.g.call(f, vec![a])
                }
                _ => { let o = *self.g.s.pick(&[Op::Eq, Op::Ne, Op::And, Op::Or, Op::Xor]); let (a, b) = (self.ex(T::B, n), self.ex(T::B, n)); self.g.bin(o, a, b) }
            },
            T::F => match self.g.s.weighted(&[8, 4, 3, 2, 2]) {
                0 => { let o = *self.g.s.pick(&ARITH); self.section(o, n) }
                1 => self.lambda(n),
                2 => self.atom(T::F),
                3 => { let o = *self.g.s.pick(&ARITH); let a = self.ex(T::I, n); let f = self.g.e(EK::OpFn(o)); self.g.call(f, vec![a]) }
                _ => { let o = *self.g.s.pick(&[Op::Mod, Op::Div, Op::Pow]); let x = Box::new(self.small(1)); self.g.e(EK::SectR(o, x)) }
            },
            T::L => match self.g.s.weighted(&[3, 5, 3, 3, 2]) {
                0 => self.atom(T::L),
                1 => { let v = (0..3).map(|_| self.ex(T::I, n)).collect(); self.g.list_lit(v) }
                2 => { let o = *self.g.s.pick(&ARITH); let f = if self.g.s.chance(1, 2) { self.section(o, n) } else { self.ex(T::F, n) }; let l = self.ex(T::L, n); let m = self.g.nat(Nat::Map); self.g.call(m, vec![f, l]) }
                3 => { let f = self.ex(T::F, n); let l = self.ex(T::L, n); let m = self.g.nat(Nat::Map); let m = self.g.call(m, vec![f]); self.g.e(EK::Comp(Box::new(l), Box::new(m))) }
                _ => {
                    let l = self.bx(T::L, n);
                    let i = *self.g.s.pick(&[-1, 1]);
                    let i = self.g.int_lit(i);
                    self.g.e(EK::Slice(l, Sl { a: None, b: None, c: Some(Some(Box::new(i))) }))
                }
            },
        }
    }

    fn bare_fn(&mut self) -> E { let f = *self.g.s.pick(&[Nat::Repr, Nat::Str]); self.g.nat(f) }

    fn bare_arg(&mut self) -> E {
        match self.g.s.below(9) {
            0 => { let k = self.g.s.int(0, 300); self.g.int_lit(k) }
            1 => { let k = self.g.s.int(1, 300); self.g.e(EK::Imag(k)) }
            2 => self.g.e(EK::Nil),
            3 => { let b = self.g.s.chance(1, 2); self.g.e(EK::Bool(b)) }
            4 => { let t = self.g.s.pick(&["", "a", "xyz"]).to_string(); self.g.str_lit(&t) }
            5 => { let n = *self.g.s.pick(&[Nat::Int, Nat::Map, Nat::Print]); self.g.nat(n) }
            6 => self.g.var("inc"),
            7 => {
                // ends with its last expression
                let c = self.g.e(EK::Bool(true));
                let c = if self.g.s.chance(1, 2) { let l = self.g.int_lit(0); let m = self.g.int_lit(1); self.g.bin(Op::Lt, m, l) } else { c };
                let (a, b) = (self.g.str_lit("then"), self.g.str_lit("else"));
                let t = self.g.e(EK::Tern(vec![(c, a)], Box::new(b)));
                self.g.e(EK::Paren(Box::new(t)))
            }
            _ => {
                let id = self.g.uid();
                let (w, k) = (self.g.var("w"), self.g.int_lit(1));
                let body = self.g.bin(Op::Add, w, k);
                self.g.e(EK::Lambda(Rc::new(FnDef { id, name: "_".into(), params: vec![Param { pat: Pat::Lv(Lv::Var("w".into())), k: PK::Req }], body: Body::Expr(body) })))
            }
        }
    }

    fn section(&mut self, o: Op, n: u32) -> E {
        let x = self.bx(T::I, n);
        if o == Op::Sub || self.g.s.chance(1, 2) && o != Op::Sub {
            if o == Op::Sub { return self.g.e(EK::SectR(Op::Add, x)); }
            return self.g.e(EK::SectL(x, o));
        }
        self.g.e(EK::SectR(o, x))
    }

    fn lambda(&mut self, n: u32) -> E {
        let id = self.g.uid();
        let was = std::mem::replace(&mut self.w, true);
        let body = self.ex(T::I, n);
        self.w = was;
        let body = if self.g.s.chance(1, 4) { let s = self.g.st(SK::Expr(body)); Body::Block(vec![s]) } else { Body::Expr(body) };
        self.g.e(EK::Lambda(Rc::new(FnDef { id, name: "_".into(), params: vec![Param { pat: Pat::Lv(Lv::Var("w".into())), k: PK::Req }], body })))
    }
}

pub fn run(s: &mut Src, cx: &mut Cx) -> Result<(), Failure> {
    if s.chance(1, 3000) { return super::large::run(s, cx, super::large::TOKENS); }
    let salt = s.draw(u64::MAX);
    let mut p = P { g: Gen::new(s, Cfg::default()), left: 24, w: false, ops: 0 };
    let req = |n: &str| Param { pat: Pat::Lv(Lv::Var(n.into())), k: PK::Req };
    let id = p.g.uid();
    let body = { let (x, k) = (p.g.var("x"), p.g.int_lit(7)); p.g.bin(Op::Add, x, k) };
    let inc = p.g.st(SK::Fn(Rc::new(FnDef { id, name: "inc".into(), params: vec![req("x")], body: Body::Expr(body) }), vec![]));
    let st = p.g.st(SK::Struct("S".into(), vec!["v".into()], vec![]));
    let t = *p.g.s.pick(&[T::I, T::B, T::L, T::I]);
    let d = 2 + p.g.s.below(4) as u32;
    let e = p.ex(t, d);
    let id = p.g.uid();
    // in a block, the expression is a returned value; with an arrow, a body
    let body = if p.g.s.chance(1, 2) { let r = p.g.st(SK::Return(Some(e))); Body::Block(vec![r]) } else { Body::Expr(e) };
    let f = p.g.st(SK::Fn(Rc::new(FnDef { id, name: "f".into(), params: ["a", "b", "c", "p", "q", "xs", "s"].iter().map(|n| req(n)).collect(), body }), vec![]));
    let ops = p.ops;
    let mut prog = vec![st, inc, f];
    for k in 0..5 {
        let mut args = Vec::new();
        for j in 0..3 { let i = if k == 0 { [5, 3, 2][j] } else { p.g.s.int(-9, 9) }; args.push(p.g.int_lit(i)); }
        for j in 0..2 { let b = (k >> j) & 1 == 1; args.push(p.g.e(EK::Bool(b))); }
        let v = (0..3).map(|i| p.g.int_lit([4, 1, 3][i] + k)).collect();
        args.push(p.g.list_lit(v));
        let sf = p.g.var("S");
        let c = p.g.int_lit(k * 3 + 1);
        args.push(p.g.call(sf, vec![c]));
        if k == 1 {
            // every kind of argument which needs no parentheses, in front of another operator
            let mut v = Vec::new();
            for _ in 0..p.g.s.below(4) {
                let f = p.bare_fn();
                let a = p.bare_arg();
                let mut e = p.g.e(EK::Bare(Box::new(f), Box::new(a)));
                match p.g.s.below(4) {
                    0 => { let f = p.g.nat(Nat::Len); e = p.g.e(EK::Comp(Box::new(e), Box::new(f))); }
                    1 => { let x = p.g.str_lit("+"); e = p.g.bin(Op::Add, e, x); }
                    2 => { let x = p.g.int_lit(0); e = p.g.e(EK::Index(Box::new(e), Box::new(x))); }
                    _ => {}
                }
                v.push(e);
            }
            if !v.is_empty() { let c = p.g.native(Nat::Print, v); prog.push(p.g.st(SK::Expr(c))); }
        }
        let f = p.g.var("f");
        let c = p.g.call(f, args);
        let c = p.g.native(Nat::Repr, vec![c]);
        let c = p.g.native(Nat::Print, vec![c]);
        prog.push(p.g.st(SK::Expr(c)));
    }

    let mut m = Interp::new();
    let end = m.run(&prog);
    if let MEnd::Unknown(_) | MEnd::Fuel = end { return cx.discard(); }
    let styles = [
        ("minimal parentheses", Style::default()),
        ("all parentheses", Style { full_parens: true, ..Style::default() }),
        ("redundant parentheses", Style { extra: true, ..Style::default() }),
        ("open ends", Style { tails: true, ..Style::default() }),
        ("last commas", Style { commas: true, tails: true, ..Style::default() }),
        ("open ends and redundant parentheses", Style { tails: true, extra: true, ..Style::default() }),
    ];
    for (i, (what, style)) in styles.into_iter().enumerate() {
        let text = print_program(&prog, style, salt.wrapping_add(i as u64)).out;
        if i == 0 || i == 5 { cx.sample = text.clone(); }
        for opt in [false, true] {
            if opt && i != 0 && i != 3 { continue; }
            let r = vmrun::run(&text, opt);
            if opt && folded(&prog, &r) { cx.label("constant operation rejected"); continue; }
            agree(&text, &m, &end, &r, what, false)?;
        }
    }
    if let MEnd::Err(_) = end { cx.label("ends in an error"); } else { cx.label("ends normally"); }
    cx.nontrivial = ops >= 3 && m.out.lines().count() >= 3;
    Ok(())
}
