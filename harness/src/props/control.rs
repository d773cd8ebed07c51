//! Control flow: loops, conditions and returns in any nesting, and what each evaluates and how often.

use std::rc::Rc;

use crate::engine::{Cx, Failure, Src};
use crate::model::ast::*;
use crate::model::gen::{Cfg, Gen};
use crate::model::natives::Nat;
use crate::model::ops::{Op, Un};

use super::prog::{check, Verdict};

struct Co<'a> {
    g: Gen<'a>,
    /// ints which may be read and assigned
    vars: Vec<String>,
    names: u32,
    loops: u32,
    func: bool,
    left: i32,
}

const CMP: [Op; 6] = [Op::Lt, Op::Le, Op::Gt, Op::Ge, Op::Eq, Op::Ne];

impl<'a> Co<'a> {
    fn i(&mut self, k: i64) -> E { self.g.int_lit(k) }
    fn name(&mut self, p: &str) -> String { self.names += 1; format!("{}{}", p, self.names) }
    fn se(&mut self, e: E) -> S { self.g.st(SK::Expr(e)) }
    fn print(&mut self, v: Vec<E>) -> S { let e = self.g.native(Nat::Print, v); self.se(e) }
    fn let_(&mut self, n: &str, e: E) -> S { self.g.st(SK::Let(vec![(vec![Pat::Lv(Lv::Var(n.into()))], Some(e))])) }
    fn set(&mut self, n: &str, e: E) -> S { let e = self.g.e(EK::Assign(Lv::Var(n.into()), Box::new(e))); self.se(e) }
    fn bump(&mut self, n: &str) -> S { let k = self.i(1); let e = self.g.e(EK::OpAssign(Lv::Var(n.into()), AOp::Op(Op::Add), Box::new(k))); self.se(e) }

    fn t(&mut self, e: E) -> E {
        self.g.traces += 1;
        let k = self.g.traces;
        let (f, k) = (self.g.var("t"), self.i(k));
        self.g.call(f, vec![k, e])
    }

    fn some(&mut self) -> E { let v = self.g.s.pick(&self.vars).clone(); self.g.var(&v) }

    /// a value which counts as true or false
    fn truth(&mut self, d: u32) -> E {
        match self.g.s.weighted(&[4, 1, 1, 1, 1, 1, d * 3, d * 2]) {
            0 => { let b = self.g.s.chance(1, 2); self.g.e(EK::Bool(b)) }
            1 => { let k = self.g.s.int(0, 1); self.i(k) }
            2 => { let t = self.g.s.pick(&["", "s"]).to_string(); self.g.str_lit(&t) }
            3 => self.g.e(EK::Nil),
            4 => { let n = self.g.s.below(2); let v = (0..n).map(|_| self.g.int_lit(0)).collect(); self.g.list_lit(v) }
            5 => { let k = self.g.s.int(0, 1); let k = self.i(k); self.g.native(Nat::Range, vec![k]) }
            6 => self.logic(d - 1),
            _ => { let e = self.compare(d - 1); self.g.e(EK::Paren(Box::new(e))) }
        }
    }

    /// `and` / `or`, each operand evaluated when it matters
    fn logic(&mut self, d: u32) -> E {
        let n = 1 + self.g.s.below(3);
        let x = self.truth(d);
        let mut e = self.t(x);
        for _ in 0..n {
            let x = self.truth(d);
            let x = if self.g.s.chance(2, 3) { self.t(x) } else { self.g.e(EK::Paren(Box::new(x))) };
            // on the left or on the right
            let (a, b) = if self.g.s.chance(1, 4) { (x, e) } else { (e, x) };
            e = if self.g.s.chance(1, 2) { self.g.e(EK::And(Box::new(a), Box::new(b))) } else { self.g.e(EK::Or(Box::new(a), Box::new(b))) };
            e = self.g.e(EK::Paren(Box::new(e)));
            if self.g.s.chance(1, 6) { e = self.g.e(EK::Un(Un::LNot, Box::new(e))); e = self.g.e(EK::Paren(Box::new(e))); }
        }
        e
    }

    fn compare(&mut self, d: u32) -> E {
        let n = 1 + self.g.s.weighted(&[3, 3, 2, 1]);
        if self.g.s.chance(1, 4) {
            // lists, which are changed as the comparison goes on
            let item = |c: &mut Co| { let l = *c.g.s.pick(&["p", "q"]); let l = c.g.var(l); if c.g.s.chance(1, 2) { let f = c.g.var("grow"); c.g.call(f, vec![l]) } else { l } };
            let a = item(self);
            let r: Vec<(Op, Id, E)> = (0..n).map(|_| { let o = *self.g.s.pick(&[Op::Eq, Op::Le, Op::Ge, Op::Lt, Op::Ne]); let id = self.g.uid(); (o, id, item(self)) }).collect();
            return self.chain(a, r);
        }
        let a = self.int(d);
        let a = self.t(a);
        let r = (0..n).map(|_| { let o = *self.g.s.pick(&CMP); let id = self.g.uid(); let e = self.int(d); (o, id, self.t(e)) }).collect();
        self.chain(a, r)
    }

    fn chain(&mut self, a: E, mut r: Vec<(Op, Id, E)>) -> E {
        if r.len() == 1 { let (o, _, b) = r.pop().unwrap(); return self.g.bin(o, a, b); }
        self.g.e(EK::Chain(Box::new(a), r))
    }

    fn int(&mut self, d: u32) -> E {
        match self.g.s.weighted(&[4, 5, d * 2, d * 2, d, d, d, d]) {
            0 => { let k = self.g.s.int(0, 5); self.i(k) }
            1 => self.some(),
            2 => { let (a, b) = (self.int(d - 1), self.int(d - 1)); let o = *self.g.s.pick(&[Op::Add, Op::Sub, Op::Mul]); self.g.bin(o, a, b) }
            3 => {
                let k = 1 + self.g.s.weighted(&[3, 1]);
                let cs = (0..k).map(|_| { let c = self.truth(d - 1); let c = if self.g.s.chance(1, 2) { self.t(c) } else { c }; (c, self.int(d - 1)) }).collect();
                let z = self.int(d - 1);
                let e = self.g.e(EK::Tern(cs, Box::new(z)));
                self.g.e(EK::Paren(Box::new(e)))
            }
            4 => {
                let v = self.g.s.pick(&self.vars).clone();
                let e = self.int(d - 1);
                let e = self.g.e(EK::Assign(Lv::Var(v), Box::new(e)));
                self.g.e(EK::Paren(Box::new(e)))
            }
            5 => { let e = self.int(d - 1); self.t(e) }
            6 => {
                let v: Vec<E> = (0..3).map(|_| { let e = self.int(d - 1); self.t(e) }).collect();
                let l = self.g.list_lit(v);
                let k = self.g.s.int(0, 2);
                let k = self.i(k);
                self.g.e(EK::Index(Box::new(l), Box::new(k)))
            }
            _ => self.block_value(d),
        }
    }

    /// A function with a block in it, called where it stands
    fn block_value(&mut self, d: u32) -> E {
        let id = self.g.uid();
        let (loops, func) = (std::mem::take(&mut self.loops), std::mem::replace(&mut self.func, true));
        let p = self.name("p");
        let n = self.vars.len();
        self.vars.push(p.clone());
        let mut b = self.block(d.saturating_sub(1), 3);
        let e = self.int(0);
        b.push(if self.g.s.chance(1, 2) { self.g.st(SK::Return(Some(e))) } else { self.se(e) });
        self.vars.truncate(n);
        (self.loops, self.func) = (loops, func);
        let f = self.g.e(EK::Lambda(Rc::new(FnDef { id, name: "_".into(), params: vec![Param { pat: Pat::Lv(Lv::Var(p)), k: PK::Req }], body: Body::Block(b) })));
        let f = self.g.e(EK::Paren(Box::new(f)));
        let a = self.int(0);
        self.g.call(f, vec![a])
    }

    /// A scope of its own, whose variables are shown at its end
    fn block(&mut self, d: u32, max: usize) -> Vec<S> {
        let n = self.vars.len();
        let k = self.g.s.below(max + 1);
        let mut out = Vec::new();
        for _ in 0..k { self.stmt(&mut out, d); }
        if self.vars.len() > n && self.g.s.chance(2, 3) {
            let v = self.vars[n..].to_vec().iter().map(|x| self.g.var(x)).collect();
            out.push(self.print(v));
        }
        self.vars.truncate(n);
        out
    }

    fn orelse(&mut self, d: u32) -> Option<Vec<S>> { if self.g.s.chance(1, 3) { let loops = self.loops; let b = self.block(d, 2); self.loops = loops; Some(b) } else { None } }

    fn body(&mut self, d: u32, counter: &str) -> Vec<S> {
        let n = self.vars.len();
        let mut b = vec![];
        if !counter.is_empty() { b.push(self.bump(counter)); }
        self.loops += 1;
        b.extend(self.block(d, 4));
        self.loops -= 1;
        self.vars.truncate(n);
        b
    }

    fn cond(&mut self, counter: &str) -> E {
        let (c, k) = (self.g.var(counter), self.g.s.int(1, 4));
        let k = self.i(k);
        let e = self.g.bin(Op::Lt, c, k);
        match self.g.s.below(4) {
            0 => self.t(e),
            1 => { let x = self.truth(1); let x = self.g.e(EK::Paren(Box::new(x))); self.g.e(EK::And(Box::new(e), Box::new(x))) }
            _ => e,
        }
    }

    fn collection(&mut self) -> E {
        let n = self.g.s.below(4) as i64;
        match self.g.s.weighted(&[4, 3, 1, 1, 1, 1, 2, 1]) {
            0 => { let n = self.i(n); self.g.native(Nat::Range, vec![n]) }
            1 => { let v = (0..n).map(|_| self.int(0)).collect(); self.g.list_lit(v) }
            2 => { let v: Vec<E> = (0..n.max(2)).map(|_| self.int(0)).collect(); self.g.e(EK::Vector(v.into_iter().map(Arg::E).collect())) }
            3 => { let a = self.g.s.int(-2, 3); let (a, b) = (self.i(n), self.i(a)); let c = if self.g.s.chance(1, 2) { -1 } else { 2 }; let c = self.i(c); self.g.native(Nat::Range, vec![a, b, c]) }
            4 => { let t = self.g.s.pick(&["", "1", "123"]).to_string(); let t = self.g.str_lit(&t); let f = self.g.nat(Nat::Int); self.g.native(Nat::Map, vec![f, t]) }
            5 => { let v: Vec<E> = (0..n.max(1)).map(|k| self.g.int_lit(k)).collect(); self.g.e(EK::Set(v.into_iter().map(Arg::E).collect())) }
            6 => { let l = *self.g.s.pick(&["p", "q"]); self.g.var(l) }
            _ => { let c = self.truth(0); let (a, b) = (self.i(n), self.i(2)); let (a, b) = (self.g.native(Nat::Range, vec![a]), self.g.native(Nat::Range, vec![b])); let e = self.g.e(EK::Tern(vec![(c, a)], Box::new(b))); self.g.e(EK::Paren(Box::new(e))) }
        }
    }

    fn stmt(&mut self, out: &mut Vec<S>, d: u32) {
        self.left -= 1;
        let deep = if d > 0 && self.left > 0 { 1 } else { 0 };
        let inner = if self.loops > 0 { 1 } else { 0 };
        let n = self.vars.len();
        match self.g.s.weighted(&[4, 3, 2, 2, 5 * deep, 4 * deep, 3 * deep, 2 * deep, 2 * deep, 4 * deep, 3 * inner, 3 * inner, if self.func { 2 } else { 0 }, 2 * deep, 1, 1, deep]) {
            0 => { let e = self.some(); let e = self.t(e); out.push(self.se(e)); }
            1 => { let e = self.int(2); let v = self.name("v"); out.push(self.let_(&v, e)); self.vars.push(v); }
            2 => { let e = self.int(2); let v = self.g.s.pick(&self.vars).clone(); out.push(self.set(&v, e)); }
            3 => { let e = if self.g.s.chance(1, 2) { self.logic(2) } else { self.compare(2) }; let e = self.g.native(Nat::Repr, vec![e]); out.push(self.print(vec![e])); }
            4 => {
                let k = 1 + self.g.s.weighted(&[4, 2, 1]);
                let cs = (0..k).map(|_| { let c = if self.g.s.chance(1, 3) { self.compare(1) } else { let c = self.truth(1); self.t(c) }; (c, self.block(d - 1, 3)) }).collect();
                let z = if self.g.s.chance(1, 2) { Some(self.block(d - 1, 3)) } else { None };
                out.push(self.g.st(SK::If(cs, z)));
            }
            5 => {
                let c = self.name("k");
                let z = self.i(0);
                out.push(self.let_(&c, z));
                let e = self.cond(&c);
                let b = self.body(d - 1, &c);
                let z = self.orelse(d - 1);
                out.push(self.g.st(SK::While(e, b, z)));
                self.vars.push(c);
            }
            6 => {
                // at least once
                let c = self.name("k");
                let z = self.i(0);
                out.push(self.let_(&c, z));
                let b = self.body(d - 1, &c);
                let e = self.cond(&c);
                let z = self.orelse(d - 1);
                out.push(self.g.st(SK::Do(b, Some(e), z)));
                self.vars.push(c);
            }
            7 => {
                // a scope
                let b = self.block(d - 1, 3);
                out.push(self.g.st(SK::Do(b, None, None)));
            }
            8 => {
                let c = self.name("k");
                let z = self.i(0);
                out.push(self.let_(&c, z));
                let k = self.g.s.int(1, 3);
                let (x, k) = (self.g.var(&c), self.i(k));
                let e = self.g.bin(Op::Gt, x, k);
                let br = self.g.st(SK::Break);
                let mut b = vec![self.bump(&c), self.g.st(SK::If(vec![(e, vec![br])], None))];
                b.extend(self.body(d - 1, ""));
                out.push(self.g.st(SK::Loop(b)));
                self.vars.push(c);
            }
            9 => {
                let e = self.collection();
                let e = if self.g.s.chance(1, 3) { self.t(e) } else { e };
                let v = self.name("i");
                self.vars.push(v.clone());
                let mut b = self.body(d - 1, "");
                if self.g.s.chance(1, 2) { let x = self.g.var(&v); let x = self.t(x); b.insert(0, self.se(x)); }
                self.vars.truncate(n);
                let z = self.orelse(d - 1);
                out.push(self.g.st(SK::For(vec![Pat::Lv(Lv::Var(v))], e, b, z)));
            }
            k @ (10 | 11) => {
                // usually on a condition, sometimes with code which is never reached behind it
                let s = self.g.st(if k == 10 { SK::Break } else { SK::Continue });
                if self.g.s.chance(1, 8) { out.push(s); return; }
                let c = self.compare(1);
                let mut b = self.block(0, 1);
                b.push(s);
                if self.g.s.chance(1, 3) { let z = self.block(d.saturating_sub(1), 2); out.push(self.g.st(SK::If(vec![(c, b)], Some(z)))); } else { out.push(self.g.st(SK::If(vec![(c, b)], None))); }
            }
            12 => {
                let e = if self.g.s.chance(1, 6) { None } else { Some(self.int(1)) };
                let e = e.unwrap_or_else(|| self.g.int_lit(0));
                let s = self.g.st(SK::Return(Some(e)));
                let c = self.compare(1);
                out.push(self.g.st(SK::If(vec![(c, vec![s])], None)));
            }
            13 => {
                // a function with any of these in it, called a few times
                let f = self.name("f");
                let p = self.name("p");
                let (loops, func) = (std::mem::take(&mut self.loops), std::mem::replace(&mut self.func, true));
                self.vars.push(p.clone());
                let id = self.g.uid();
                let body = if self.g.s.chance(1, 3) { Body::Expr(self.int(3)) } else { let mut b = self.block(d - 1, 4); let e = self.int(1); b.push(self.se(e)); Body::Block(b) };
                self.vars.truncate(n);
                (self.loops, self.func) = (loops, func);
                out.push(self.g.st(SK::Fn(Rc::new(FnDef { id, name: f.clone(), params: vec![Param { pat: Pat::Lv(Lv::Var(p)), k: PK::Req }], body }), vec![])));
                for _ in 0..1 + self.g.s.below(2) {
                    let (g, a) = (self.g.var(&f), self.int(1));
                    let c = self.g.call(g, vec![a]);
                    if self.g.s.chance(1, 3) { out.push(self.se(c)); } else { let x = self.some(); out.push(self.print(vec![c, x])); }
                }
            }
            14 => {
                let c = self.compare(1);
                let m = if self.g.s.chance(1, 2) { let m = self.int(1); Some(self.t(m)) } else { None };
                // fails only now and then
                let c = if self.g.s.chance(9, 10) { let y = self.g.e(EK::Bool(true)); let c = self.g.e(EK::Paren(Box::new(c))); self.g.e(EK::Or(Box::new(c), Box::new(y))) } else { c };
                out.push(self.g.st(SK::Assert(c, m)));
            }
            15 => { let e = if self.g.s.chance(1, 2) { self.int(3) } else { self.logic(2) }; out.push(self.se(e)); }
            _ => {
                if !self.g.s.chance(1, 6) { return; }
                let e = self.g.e(EK::Exit);
                let c = self.compare(1);
                let s = self.se(e);
                out.push(self.g.st(SK::If(vec![(c, vec![s])], None)));
            }
        }
    }
}

pub fn run(s: &mut Src, cx: &mut Cx) -> Result<(), Failure> {
    let left = *s.pick(&[12, 25, 40]);
    let depth = *s.pick(&[2, 3, 4, 1]);
    let g = Gen::new(s, Cfg::default());
    let mut c = Co { g, vars: vec![], names: 0, loops: 0, func: false, left };
    let mut prog = vec![c.g.tracer()];
    // fn grow(l) { l . push(9) ; l }
    let id = c.g.uid();
    let (l, k) = (c.g.var("l"), c.i(9));
    let e = c.g.native(Nat::Push, vec![k, l]);
    let (a, b) = (c.se(e), c.g.var("l"));
    let b = c.se(b);
    prog.push(c.g.st(SK::Fn(Rc::new(FnDef { id, name: "grow".into(), params: vec![Param { pat: Pat::Lv(Lv::Var("l".into())), k: PK::Req }], body: Body::Block(vec![a, b]) }), vec![])));
    let local = c.g.s.chance(1, 3);
    let mut body = Vec::new();
    for n in ["p", "q"] { let k = c.i(1); let l = c.g.list_lit(vec![k]); body.push(c.let_(n, l)); }
    for (n, k) in [("a", 0), ("b", 2)] { let k = c.i(k); body.push(c.let_(n, k)); c.vars.push(n.into()); }
    c.func = local;
    let n = 1 + c.g.s.below(5);
    for _ in 0..n { c.stmt(&mut body, depth); }
    let mut v: Vec<E> = c.vars.clone().iter().map(|n| c.g.var(n)).collect();
    for n in ["p", "q"] { v.push(c.g.var(n)); }
    body.push(c.print(v));
    if local {
        let id = c.g.uid();
        prog.push(c.g.st(SK::Fn(Rc::new(FnDef { id, name: "main".into(), params: vec![], body: Body::Block(body) }), vec![])));
        let f = c.g.var("main");
        let e = c.g.call(f, vec![]);
        prog.push(c.print(vec![e]));
    } else { prog.extend(body); }
    match check(&prog, Style::default(), 0, cx)? {
        Verdict::Discard => return cx.discard(),
        Verdict::Ok { failed } => { cx.label(if failed { "ends in an error" } else { "ends normally" }); cx.label("control flow"); }
    }
    Ok(())
}
