//! The optimiser: programs built from what it rewrites, run with and without optimisation.

use std::rc::Rc;

use super::prog::{agree, folded, styled_in};
use crate::engine::{fail, Cx, Failure, Src};
use crate::model::ast::*;
use crate::model::gen::{Cfg, Gen};
use crate::model::interp::{End as MEnd, Interp};
use crate::model::natives::Nat;
use crate::model::ops::{Op, Un};
use crate::vmrun::{self, End, Run};

struct Ops<'a> {
    g: Gen<'a>,
    /// variables which hold a number most of the time
    vars: Vec<&'static str>,
    key: i64,
    left: i32,
    inside: bool,
}

const INT_OPS: [Op; 21] = [Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Mod, Op::Pow, Op::And, Op::Or, Op::Xor, Op::Shl, Op::Shr, Op::Lt, Op::Le, Op::Gt, Op::Ge, Op::Eq, Op::Ne, Op::In, Op::NotIn, Op::Is, Op::IsNot];
const CMP: [Op; 6] = [Op::Lt, Op::Le, Op::Gt, Op::Ge, Op::Eq, Op::Ne];

impl<'a> Ops<'a> {
    fn bx(&mut self, d: u32) -> Box<E> { Box::new(self.ex(d)) }
    fn p(&mut self, e: E) -> Box<E> { Box::new(self.g.e(EK::Paren(Box::new(e)))) }

    fn constant(&mut self) -> E {
        match self.g.s.weighted(&[30, 3, 4, 2, 1, 2, 1]) {
            0 => { let i = self.g.s.int(0, 9); self.g.int_lit(i) }
            1 => { let i = self.g.int_value(); self.g.int_lit(i) }
            2 => { let b = self.g.s.chance(1, 2); self.g.e(EK::Bool(b)) }
            3 => { let v = self.g.str_value(); self.g.str_lit(&v) }
            4 => self.g.e(EK::Nil),
            5 => { let i = self.g.s.int(1, 5); self.g.e(EK::Imag(i)) }
            _ => { let n = *self.g.s.pick(&[Nat::Int, Nat::Str, Nat::Bool, Nat::List, Nat::Abs, Nat::Len, Nat::Max]); self.g.nat(n) }
        }
    }

    /// prints when it is evaluated
    fn traced(&mut self, e: E) -> E {
        self.key += 1;
        let k = self.g.int_lit(self.key);
        let f = self.g.var("t");
        match self.g.s.weighted(&[4, 1, 1]) {
            0 => self.g.call(f, vec![k, e]),
            1 => { let p = self.g.call(f, vec![k]); let c = self.g.e(EK::Comp(Box::new(e), Box::new(p))); *self.p(c) }
            _ => { let p = self.g.call(f, vec![k]); self.g.call(p, vec![e]) }
        }
    }

    fn atom(&mut self) -> E {
        match self.g.s.weighted(&[5, 4, 3]) {
            0 => self.constant(),
            1 => { let v = *self.g.s.pick(&self.vars); self.g.var(v) }
            _ => { let c = self.constant(); self.traced(c) }
        }
    }

    fn op(&mut self) -> Op { if self.g.s.chance(2, 3) { *self.g.s.pick(&[Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Lt, Op::Eq]) } else { *self.g.s.pick(&INT_OPS) } }
    /// an operator with a section
    fn sect_op(&mut self, left: bool) -> Op {
        loop {
            let o = self.op();
            let bad = matches!(o, Op::Sub) && !left || left && matches!(o, Op::Sub) || matches!(o, Op::Is | Op::IsNot | Op::In | Op::NotIn);
            if bad { return Op::Add }
            return o;
        }
    }

    /// a function of one argument
    fn func(&mut self, d: u32) -> E {
        match self.g.s.weighted(&[8, 8, 5, 4, 4, 4, 2, 1, 3, 2]) {
            0 => { let a = self.bx(d.saturating_sub(1)); let o = self.sect_op(true); let e = self.g.e(EK::SectL(a, o)); e }
            1 => { let a = self.bx(d.saturating_sub(1)); let o = self.sect_op(false); let e = self.g.e(EK::SectR(o, a)); e }
            2 => { let n = *self.g.s.pick(&[Nat::Abs, Nat::Repr, Nat::Str, Nat::Bool, Nat::TypeOf, Nat::Len, Nat::Sum, Nat::Max, Nat::Min, Nat::Print]); self.g.nat(n) }
            3 => { let o = self.op(); let f = self.g.e(EK::OpFn(o)); let a = self.ex(d.saturating_sub(1)); self.g.call(f, vec![a]) }
            4 => self.lambda(d),
            5 => { let a = self.ex(d.saturating_sub(1)); let f = self.g.var("t"); self.g.call(f, vec![a]) }
            6 => {
                let a = self.ex(d.saturating_sub(1));
                if self.g.s.chance(1, 2) { return self.g.list_lit(vec![a]); }
                // one unrolled element, or several
                let l = if self.g.s.chance(1, 3) { a } else { let b = self.constant(); let l = self.g.list_lit(vec![b]); self.traced(l) };
                let id = self.g.uid();
                self.g.e(EK::List(vec![Arg::Unroll(id, l)]))
            }
            7 => { let sl = self.slice(d); self.g.e(EK::SliceLit(sl)) }
            8 => { let v = *self.g.s.pick(&["put", "h"]); self.g.var(v) }
            _ => { let c = self.bx(1); let a = self.func(0); let b = self.func(0); let t = self.g.e(EK::Tern(vec![(*c, a)], Box::new(b))); *self.p(t) }
        }
    }

    fn slice(&mut self, d: u32) -> Sl {
        let d = d.saturating_sub(1);
        let part = |s: &mut Self| if s.g.s.chance(1, 3) { None } else { Some(s.bx(d)) };
        let (a, b) = (part(self), part(self));
        let c = if self.g.s.chance(2, 3) { None } else { Some(part(self)) };
        Sl { a, b, c }
    }

    fn lambda(&mut self, d: u32) -> E {
        let id = self.g.uid();
        let saved = self.vars.clone();
        self.vars.push("w");
        let was = std::mem::replace(&mut self.inside, true);
        let body = self.ex(d.saturating_sub(1));
        self.inside = was;
        self.vars = saved;
        let f = self.g.e(EK::Lambda(Rc::new(FnDef { id, name: "_".into(), params: vec![Param { pat: Pat::Lv(Lv::Var("w".into())), k: PK::Req }], body: Body::Expr(body) })));
        *self.p(f)
    }

    fn list(&mut self, d: u32) -> E {
        let n = self.g.s.weighted(&[1, 3, 3, 2]);
        let v = (0..n).map(|_| self.ex(d.saturating_sub(1))).collect();
        let l = self.g.list_lit(v);
        if self.g.s.chance(1, 4) { self.traced(l) } else { l }
    }

    /// an expression without effects around another
    fn still(&mut self, e: E) -> E {
        let c = |c: &mut Self| match c.g.s.below(4) { 0 => { let b = c.g.s.chance(1, 2); c.g.e(EK::Bool(b)) } 1 => { let i = c.g.s.int(0, 3); c.g.int_lit(i) } 2 => { let (x, k) = (c.g.var("x"), c.g.int_lit(3)); let o = *c.g.s.pick(&CMP); let e = c.g.bin(o, x, k); *c.p(e) } _ => c.g.e(EK::Nil) };
        match self.g.s.below(12) {
            0 => { let (a, b) = (c(self), c(self)); let e = self.g.e(EK::Tern(vec![(e, a)], Box::new(b))); *self.p(e) }
            1 => { let (a, b) = (c(self), c(self)); let e = self.g.e(EK::Tern(vec![(a, e)], Box::new(b))); *self.p(e) }
            2 => { let (a, b) = (c(self), c(self)); let e = self.g.e(EK::Tern(vec![(a, b)], Box::new(e))); *self.p(e) }
            3 => { let a = c(self); let e = if self.g.s.chance(1, 2) { EK::And(Box::new(a), Box::new(e)) } else { EK::Or(Box::new(a), Box::new(e)) }; let e = self.g.e(e); *self.p(e) }
            4 => { let a = c(self); let e = if self.g.s.chance(1, 2) { EK::And(Box::new(e), Box::new(a)) } else { EK::Or(Box::new(e), Box::new(a)) }; let e = self.g.e(e); *self.p(e) }
            5 => { let a = c(self); let v = if self.g.s.chance(1, 2) { vec![e, a] } else { vec![a, e] }; self.g.list_lit(v) }
            6 => { let v = vec![Arg::E(e)]; if self.g.s.chance(1, 2) { self.g.e(EK::Set(v)) } else { self.g.e(EK::Vector(v)) } }
            7 => { let a = c(self); let l = self.g.list_lit(vec![a, e]); let i = self.g.int_lit(1); self.g.e(EK::Index(Box::new(l), Box::new(i))) }
            8 => { let o = self.sect_op(true); let s = self.g.e(EK::SectL(Box::new(e), o)); *self.p(s) }
            9 => { let f = { let n = *self.g.s.pick(&[Nat::Map, Nat::Push, Nat::Split]); self.g.nat(n) }; self.g.call(f, vec![e]) }
            10 => { let o = *self.g.s.pick(&[Un::Neg, Un::Not, Un::LNot]); let e = self.g.e(EK::Un(o, Box::new(e))); *self.p(e) }
            _ => *self.p(e),
        }
    }

    /// an effect, inside of that many expressions without any
    fn buried(&mut self, d: u32) -> E {
        if d > 0 { let e = self.buried(d - 1); return self.still(e); }
        let k = self.constant();
        match self.g.s.below(4) {
            0 | 1 => { let x = *self.g.s.pick(&["x", "y"]); let x = if self.vars.contains(&x) { x } else { "x" }; let e = self.g.e(EK::Assign(Lv::Var(x.into()), Box::new(k))); *self.p(e) }
            2 => { let f = self.g.var("put"); self.g.call(f, vec![k]) }
            _ => self.traced(k),
        }
    }

    fn ex(&mut self, d: u32) -> E {
        self.left -= 1;
        if d == 0 || self.left < 0 { return self.atom(); }
        match self.g.s.weighted(&[3, 8, 3, 4, 4, 6, 6, 4, 3, 4, 4, 3, 4, 3, 3, 3, 2, 2, 2, 2, 1, 1, 4]) {
            0 => self.atom(),
            1 => { let (a, b) = (self.ex(d - 1), self.ex(d - 1)); let o = self.op(); self.g.bin(o, a, b) }
            2 => { let a = self.bx(d - 1); let o = *self.g.s.pick(&[Un::Neg, Un::Not, Un::LNot]); self.g.e(EK::Un(o, a)) }
            3 => { let o = self.op(); let f = self.g.e(EK::OpFn(o)); let (a, b) = (self.ex(d - 1), self.ex(d - 1)); self.g.call(f, vec![a, b]) }
            4 => { let o = self.op(); let f = self.g.e(EK::OpFn(o)); let (a, b) = (self.ex(d - 1), self.ex(d - 1)); let f = self.g.call(f, vec![a]); self.g.call(f, vec![b]) }
            5 => { let f = self.func(d); let a = self.ex(d - 1); self.g.call(f, vec![a]) }
            6 => { let a = self.bx(d - 1); let f = self.func(d); let e = self.g.e(EK::Comp(a, Box::new(f))); *self.p(e) }
            7 => { let e = self.ex(d - 1); self.traced(e) }
            8 => {
                // arguments of a native function, given in parts
                let n = *self.g.s.pick(&[Nat::Map, Nat::Filter, Nat::Reduce, Nat::Push, Nat::IndexOf, Nat::Insert, Nat::Replace, Nat::Union, Nat::Join, Nat::SortBy, Nat::Any, Nat::Default]);
                let mut args: Vec<E> = match n {
                    Nat::Map | Nat::Filter | Nat::Any => vec![self.func(d - 1), self.list(d - 1)],
                    Nat::Reduce | Nat::SortBy => { let o = *self.g.s.pick(&[Op::Add, Op::Mul, Op::Sub]); let f = self.g.e(EK::OpFn(o)); let f = if self.g.s.chance(1, 3) { self.traced(f) } else { f }; vec![f, self.list(d - 1)] }
                    Nat::Insert => vec![self.ex(d - 1), self.ex(d - 1), self.list(d - 1)],
                    Nat::Replace => { let (a, b, c) = (self.g.str_lit("a"), self.ex(1), self.g.str_lit("banana")); vec![a, b, c] }
                    Nat::Join => { let a = self.g.str_lit("-"); let a = if self.g.s.chance(1, 2) { self.traced(a) } else { a }; vec![a, self.list(d - 1)] }
                    Nat::Union | Nat::Default => vec![self.list(d - 1), self.list(d - 1)],
                    _ => vec![self.ex(d - 1), self.list(d - 1)],
                };
                let mut f = self.g.nat(n);
                if self.g.s.chance(1, 4) { f = self.traced(f); }
                while args.len() > 1 && self.g.s.chance(1, 2) { let a = args.remove(0); f = self.g.call(f, vec![a]); }
                if args.len() == 1 && self.g.s.chance(1, 2) { let a = args.pop().unwrap(); let e = self.g.e(EK::Comp(Box::new(a), Box::new(f))); return *self.p(e); }
                let a: Vec<Arg> = args.into_iter().map(Arg::E).collect();
                self.g.e(EK::Call(Box::new(f), a))
            }
            9 => {
                let n = 1 + self.g.s.weighted(&[3, 1]);
                let cs = (0..n).map(|_| { let c = self.ex(d - 1); let v = self.ex(d - 1); (c, v) }).collect();
                let z = self.bx(d - 1);
                let e = self.g.e(EK::Tern(cs, z));
                *self.p(e)
            }
            10 => { let (a, b) = (self.bx(d - 1), self.bx(d - 1)); let e = if self.g.s.chance(1, 2) { EK::And(a, b) } else { EK::Or(a, b) }; let e = self.g.e(e); *self.p(e) }
            11 => {
                let a = self.bx(d - 1);
                let n = 2 + self.g.s.below(2);
                let r = (0..n).map(|_| { let o = *self.g.s.pick(&CMP); let id = self.g.uid(); let e = self.ex(d - 1); (o, id, e) }).collect();
                let e = self.g.e(EK::Chain(a, r));
                *self.p(e)
            }
            12 => {
                let a = *self.g.s.pick(&["x", "y"]);
                if !self.vars.contains(&a) { return self.atom(); }
                let v = self.bx(d - 1);
                let e = match self.g.s.below(4) {
                    0 | 1 => EK::Assign(Lv::Var(a.into()), v),
                    2 => EK::OpAssign(Lv::Var(a.into()), *self.g.s.pick(&[AOp::Op(Op::Add), AOp::Op(Op::Sub), AOp::Max, AOp::Min]), v),
                    _ => { let f = self.func(d - 1); EK::OpAssign(Lv::Var(a.into()), AOp::Comp, Box::new(f)) }
                };
                let e = self.g.e(e);
                *self.p(e)
            }
            13 => { let l = self.list(d); let i = self.bx(d - 1); self.g.e(EK::Index(Box::new(l), i)) }
            14 => { let l = self.list(d); let sl = self.slice(d); self.g.e(EK::Slice(Box::new(l), sl)) }
            15 => {
                // unrolled arguments
                let f = match self.g.s.below(4) { 0 => { let o = self.op(); self.g.e(EK::OpFn(o)) } 1 => self.g.nat(Nat::Max), 2 => self.func(d - 1), _ => self.g.var("t") };
                let n = self.g.s.below(3);
                let mut a: Vec<Arg> = (0..n).map(|_| Arg::E(self.ex(d - 1))).collect();
                let l = self.list(d - 1);
                let id = self.g.uid();
                let at = self.g.s.below(a.len() + 1);
                a.insert(at, Arg::Unroll(id, l));
                self.g.e(EK::Call(Box::new(f), a))
            }
            16 => { let n = *self.g.s.pick(&[Nat::Min, Nat::Max]); let a = if self.g.s.chance(1, 2) { let i = self.g.nat(Nat::Int); vec![i] } else { vec![self.ex(d - 1), self.ex(d - 1)] }; self.g.native(n, a) }
            17 => { let f = self.g.var("put"); let a = self.ex(d - 1); self.g.call(f, vec![a]) }
            18 => {
                let n = self.g.s.below(3);
                let v: Vec<Arg> = (0..n + 1).map(|_| Arg::E(self.ex(d - 1))).collect();
                if self.g.s.chance(1, 2) || n == 0 { self.g.e(EK::Set(v)) } else { self.g.e(EK::Vector(v)) }
            }
            19 => { let f = self.g.var("P"); let a = self.ex(d - 1); let o = self.g.call(f, vec![a]); if self.g.s.chance(1, 2) { self.g.e(EK::Field(Box::new(o), "a".into())) } else { let f = self.g.e(EK::FieldFn("a".into())); let e = self.g.e(EK::Comp(Box::new(o), Box::new(f))); *self.p(e) } }
            20 => if self.g.s.chance(1, 4) { self.g.e(EK::Exit) } else { self.lambda(d - 1) },
            22 => {
                // a variable, and something which changes it deep inside what is applied to it
                let x = *self.g.s.pick(&["x", "y"]);
                let x = if self.vars.contains(&x) { x } else { "x" };
                let n = self.g.s.below(4) as u32;
                let b = self.buried(n);
                let x = self.g.var(x);
                let x = if self.g.s.chance(1, 4) { self.still(x) } else { x };
                let e = match self.g.s.below(8) {
                    0 => { let f = { let n = *self.g.s.pick(&[Nat::Push, Nat::Map, Nat::Filter, Nat::Join, Nat::Split]); self.g.nat(n) }; let f = self.g.call(f, vec![b]); EK::Comp(Box::new(x), Box::new(f)) }
                    1 | 2 => { let o = self.op(); let f = self.g.e(EK::OpFn(o)); let f = self.g.call(f, vec![b]); EK::Comp(Box::new(x), Box::new(f)) }
                    3 => { let o = self.sect_op(true); let f = self.g.e(EK::SectL(Box::new(b), o)); EK::Comp(Box::new(x), Box::new(f)) }
                    4 => { let o = self.sect_op(false); let f = self.g.e(EK::SectR(o, Box::new(b))); EK::Comp(Box::new(x), Box::new(f)) }
                    5 => { let o = self.op(); return self.g.bin(o, x, b) }
                    6 => return self.g.list_lit(vec![x, b]),
                    _ => { let f = { let o = self.op(); self.g.e(EK::OpFn(o)) }; return self.g.call(f, vec![x, b]) }
                };
                let e = self.g.e(e);
                *self.p(e)
            }
            _ => if self.inside { self.g.var("late") } else { let f = self.g.var("use_late"); self.g.call(f, vec![]) },
        }
    }

    fn stmt(&mut self, out: &mut Vec<S>) {
        self.left = 25;
        match self.g.s.weighted(&[8, 2, 2, 2, 2, 1, 1, 1]) {
            0 => { let d = 1 + self.g.s.below(4) as u32; let e = self.ex(d); let e = self.g.native(Nat::Repr, vec![e]); let e = self.g.native(Nat::Print, vec![e]); out.push(self.g.st(SK::Expr(e))); }
            1 => { let e = self.ex(3); let x = *self.g.s.pick(&["x", "y"]); if self.vars.contains(&x) { let e = self.g.e(EK::Assign(Lv::Var(x.into()), Box::new(e))); out.push(self.g.st(SK::Expr(e))); } }
            2 => {
                // stored, then loaded
                let x = *self.g.s.pick(&["x", "y"]);
                if !self.vars.contains(&x) { return; }
                let e = self.ex(2);
                let e = if self.g.s.chance(1, 2) { self.g.e(EK::Assign(Lv::Var(x.into()), Box::new(e))) } else { self.g.e(EK::OpAssign(Lv::Var(x.into()), AOp::Op(Op::Add), Box::new(e))) };
                out.push(self.g.st(SK::Expr(e)));
                let (v, b) = (self.g.var(x), self.ex(1));
                let l = self.g.list_lit(vec![v, b]);
                let e = self.g.native(Nat::Print, vec![l]);
                out.push(self.g.st(SK::Expr(e)));
            }
            3 => { let c = self.ex(2); let mut a = Vec::new(); self.stmt(&mut a); let z = if self.g.s.chance(1, 2) { let mut z = Vec::new(); self.stmt(&mut z); Some(z) } else { None }; out.push(self.g.st(SK::If(vec![(c, a)], z))); }
            4 => {
                let m = if self.g.s.chance(1, 3) { Some(self.ex(1)) } else { None };
                let c = match self.g.s.below(3) { 0 => { let (a, b) = (self.ex(2), self.ex(2)); let o = *self.g.s.pick(&CMP); self.g.bin(o, a, b) } 1 => { let t = self.g.e(EK::Bool(true)); let a = self.bx(2); self.g.e(EK::Or(Box::new(t), a)) } _ => self.ex(2) };
                out.push(self.g.st(SK::Assert(c, m)));
            }
            5 => { let e = self.ex(3); out.push(self.g.st(SK::Expr(e))); }
            6 => {
                // variables which leave a scope together
                let n = 1 + self.g.s.below(3);
                let mut b = Vec::new();
                let saved = self.vars.clone();
                for v in ["l0", "l1", "l2"].into_iter().take(n) {
                    if saved.contains(&v) { break; }
                    let e = self.ex(2);
                    b.push(self.g.st(SK::Let(vec![(vec![Pat::Lv(Lv::Var(v.into()))], Some(e))])));
                    self.vars.push(v);
                }
                self.stmt(&mut b);
                self.vars = saved;
                out.push(self.g.st(SK::Do(b, None, None)));
            }
            _ => {
                let mut b = Vec::new();
                let saved = self.vars.clone();
                let v = if saved.contains(&"i") { "j" } else { "i" };
                if saved.contains(&v) { return; }
                self.vars.push(v);
                self.stmt(&mut b);
                self.vars = saved;
                let n = self.g.int_lit(2);
                let r = self.g.native(Nat::Range, vec![n]);
                out.push(self.g.st(SK::For(vec![Pat::Lv(Lv::Var(v.into()))], r, b, None)));
            }
        }
    }
}

/// One program run in both ways
pub fn differ(text: &str, a: &Run, b: &Run, full: bool) -> Result<(), Failure> {
    let detail = |why: &str| format!("{}\n--- program\n{}\n--- not optimised\n{}\n--- optimised\n{}", why, text, a.show(), b.show());
    for r in [a, b] { if let End::Panic(p) = &r.end { return fail(vmrun::panic_sig(p), detail("the interpreter crashed")); } }
    if let (End::Compile(x), End::Compile(y)) = (&a.end, &b.end) {
        return if x == y { Ok(()) } else { fail("compile errors differ", detail("the compile errors differ")) };
    }
    if let End::Compile(_) = a.end { return fail("rejected", detail("only compiles when optimised")); }
    if let End::Compile(_) = b.end { return fail("rejected", detail("only compiles when not optimised")); }
    if a.out != b.out { return fail("output", detail("the output differs")); }
    match (&a.end, &b.end) {
        (End::Diverged, _) | (_, End::Diverged) if std::mem::discriminant(&a.end) != std::mem::discriminant(&b.end) => fail("diverged", detail("only one of them ends")),
        (End::Error(x), End::Error(y)) => {
            let t = |e: &str| e.lines().take_while(|l| full || !l.is_empty()).map(|l| l.to_string()).collect::<Vec<_>>();
            if t(x) == t(y) { Ok(()) } else { fail("error", detail("the error differs")) }
        }
        (x, y) => if std::mem::discriminant(x) == std::mem::discriminant(y) { Ok(()) } else { fail("end", detail("they end differently")) },
    }
}

fn structured(s: &mut Src, cx: &mut Cx) -> Result<(), Failure> {
    let g = Gen::new(s, Cfg::default());
    let mut c = Ops { g, vars: vec![], key: 0, left: 0, inside: false };
    let mut prog = vec![c.g.tracer()];
    let def = |c: &mut Ops, name: &str, params: &[&str], body: Vec<S>| {
        let id = c.g.uid();
        let params = params.iter().map(|n| Param { pat: Pat::Lv(Lv::Var(n.to_string())), k: PK::Req }).collect();
        let f = Rc::new(FnDef { id, name: name.into(), params, body: Body::Block(body) });
        c.g.st(SK::Fn(f, vec![]))
    };
    // let x = 3, fn put(v) { x = v ; v }, fn h(v) -> v + x, struct P(a)
    let v = c.g.int_lit(3);
    prog.push(c.g.st(SK::Let(vec![(vec![Pat::Lv(Lv::Var("x".into()))], Some(v))])));
    let a = { let v = Box::new(c.g.var("v")); let e = c.g.e(EK::Assign(Lv::Var("x".into()), v)); c.g.st(SK::Expr(e)) };
    let b = { let v = c.g.var("v"); c.g.st(SK::Expr(v)) };
    prog.push(def(&mut c, "put", &["v"], vec![a, b]));
    let b = { let (v, x) = (c.g.var("v"), c.g.var("x")); let e = c.g.bin(Op::Add, v, x); c.g.st(SK::Expr(e)) };
    prog.push(def(&mut c, "h", &["v"], vec![b]));
    let b = { let v = c.g.var("late"); c.g.st(SK::Expr(v)) };
    prog.push(def(&mut c, "use_late", &[], vec![b]));
    prog.push(c.g.st(SK::Struct("P".into(), vec!["a".into()], vec![])));
    let mut body = Vec::new();
    let n = 1 + c.g.s.below(4);
    match c.g.s.below(3) {
        0 => {
            // at the top level
            c.vars = vec!["x"];
            for _ in 0..n { c.stmt(&mut body); }
            prog.append(&mut body);
        }
        1 => {
            // in a function, with a local
            c.vars = vec!["x", "y", "p"];
            c.inside = true;
            let v = c.g.int_lit(5);
            body.push(c.g.st(SK::Let(vec![(vec![Pat::Lv(Lv::Var("y".into()))], Some(v))])));
            for _ in 0..n { c.stmt(&mut body); }
            prog.push(def(&mut c, "main", &["p"], body));
            let f = c.g.var("main");
            let a = c.g.int_lit(7);
            let e = c.g.call(f, vec![a]);
            prog.push(c.g.st(SK::Expr(e)));
        }
        _ => {
            // in a function which captures
            c.vars = vec!["x", "y", "p"];
            c.inside = true;
            let mut inner = Vec::new();
            for _ in 0..n { c.stmt(&mut inner); }
            let v = c.g.int_lit(5);
            body.push(c.g.st(SK::Let(vec![(vec![Pat::Lv(Lv::Var("y".into()))], Some(v))])));
            body.push(def(&mut c, "inner", &["q"], inner));
            let f = c.g.var("inner");
            let a = c.g.int_lit(1);
            let e = c.g.call(f, vec![a]);
            body.push(c.g.st(SK::Expr(e)));
            prog.push(def(&mut c, "main", &["p"], body));
            let f = c.g.var("main");
            let a = c.g.int_lit(7);
            let e = c.g.call(f, vec![a]);
            prog.push(c.g.st(SK::Expr(e)));
        }
    }
    let v = c.g.int_lit(1);
    prog.push(c.g.st(SK::Let(vec![(vec![Pat::Lv(Lv::Var("late".into()))], Some(v))])));
    let (x, l) = (c.g.var("x"), c.g.var("late"));
    let e = c.g.native(Nat::Print, vec![x, l]);
    prog.push(c.g.st(SK::Expr(e)));
    both(prog, cx)
}

fn both(prog: Vec<S>, cx: &mut Cx) -> Result<(), Failure> {
    let w = styled_in(&prog, Style::default(), 0, false);
    cx.sample = w.out.clone();
    let mut m = Interp::new();
    let end = m.run(&prog);
    if matches!(end, MEnd::Fuel | MEnd::Unknown(_)) { return cx.discard(); }
    let a = vmrun::run(&w.out, false);
    let b = vmrun::run(&w.out, true);
    if a.out.len() > 200_000 || matches!(a.end, End::Diverged) && matches!(b.end, End::Diverged) { return cx.discard(); }
    // the location of `a . [b:c]` in its line is not exact
    let mut full = true;
    walk_stmts(&prog, &mut |e| if let EK::SliceLit(_) = e.k { full = false });
    let constant = !matches!(a.end, End::Compile(_)) && folded(&prog, &b);
    if constant { cx.label("constant operation rejected"); } else { differ(&w.out, &a, &b, full)?; }
    agree(&w.out, &m, &end, &a, "not optimised", false)?;
    cx.label(match end { MEnd::Err(_) => "ends in an error", _ => "ends normally" });
    cx.nontrivial = m.out.lines().count() >= 3 && !constant;
    Ok(())
}

pub fn run(s: &mut Src, cx: &mut Cx) -> Result<(), Failure> {
    if s.chance(1, 2000) { return super::large::run(s, cx, super::large::ALL); }
    if s.chance(1, 1500) { return super::large::run(s, cx, super::large::MOVES); }
    if s.chance(3, 4) { return structured(s, cx); }
    let wild = *s.pick(&[3, 30, 150]);
    let prog = Gen::new(s, Cfg { wild, ..Cfg::default() }).program();
    both(prog, cx)
}
