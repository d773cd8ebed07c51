//! Scoping and closures: programs dense in shadowing, captures, and control flow which leaves scopes early.

use std::rc::Rc;

use crate::engine::{Cx, Failure, Src};
use crate::model::ast::*;
use crate::model::gen::{Cfg, Gen};
use crate::model::natives::Nat;
use crate::model::ops::Op;

use super::prog::{check, Verdict};
use super::vals::Vals;

struct Sc<'a> {
    g: Gen<'a>,
    /// names by scope, with whether it is a variable rather than a function
    names: Vec<Vec<(String, bool)>>,
    funcs: u32,
    loops: u32,
    left: i32,
    /// the function whose parameters are being declared
    banned: Option<String>,
}

const POOL: [&str; 4] = ["a", "b", "c", "d"];

impl<'a> Sc<'a> {
    fn visible(&self) -> Vec<(String, bool)> {
        let mut r: Vec<(String, bool)> = Vec::new();
        for s in self.names.iter().rev() { for n in s.iter().rev() { if !r.iter().any(|x| x.0 == n.0) { r.push(n.clone()); } } }
        r.retain(|x| x.1 && self.banned.as_ref() != Some(&x.0));
        r
    }

    /// a name not yet declared in the innermost scope
    fn fresh(&mut self) -> Option<String> {
        let free: Vec<&str> = POOL.iter().copied().filter(|n| !self.names.last().unwrap().iter().any(|x| x.0 == *n)).collect();
        if free.is_empty() { return None; }
        Some(self.g.s.pick(&free).to_string())
    }

    fn leaf(&mut self) -> E {
        let vs = self.visible();
        if !vs.is_empty() && self.g.s.chance(4, 5) { let n = self.g.s.pick(&vs).0.clone(); return self.g.var(&n); }
        let k = self.g.s.int(0, 9);
        self.g.int_lit(k)
    }

    fn expr(&mut self, d: u32) -> E {
        self.left -= 1;
        if d == 0 || self.left < 0 || !self.g.s.chance(3, 5) { return self.leaf(); }
        match self.g.s.weighted(&[5, 3, 2, 2, 1]) {
            0 => { let a = self.expr(d - 1); let b = self.expr(d - 1); let o = *self.g.s.pick(&[Op::Add, Op::Sub, Op::Mul]); self.g.bin(o, a, b) }
            1 => match self.assign(d) { Some(e) => self.g.e(EK::Paren(Box::new(e))), None => self.leaf() },
            2 => self.invoke(),
            3 => { let f = self.lambda(d - 1); let f = self.g.e(EK::Paren(Box::new(f))); self.g.call(f, vec![]) }
            _ => { let c = self.expr(d - 1); let k = self.g.int_lit(3); let c = self.g.bin(Op::Gt, c, k); let a = self.expr(d - 1); let b = self.expr(d - 1); self.g.e(EK::Tern(vec![(c, a)], Box::new(b))) }
        }
    }

    fn assign(&mut self, d: u32) -> Option<E> {
        let vs: Vec<String> = self.visible().into_iter().filter(|x| x.1).map(|x| x.0).collect();
        if vs.is_empty() { return None; }
        let n = self.g.s.pick(&vs).clone();
        let v = self.expr(d - 1);
        Some(if self.g.s.chance(1, 2) { self.g.e(EK::OpAssign(Lv::Var(n), AOp::Op(Op::Add), Box::new(v))) } else { self.g.e(EK::Assign(Lv::Var(n), Box::new(v))) })
    }

    fn invoke(&mut self) -> E {
        let k = self.g.s.below(6) as i64;
        let k = self.g.int_lit(k);
        let f = self.g.var("call");
        self.g.call(f, vec![k])
    }

    fn function(&mut self, name: &str, d: u32) -> Rc<FnDef> {
        let id = self.g.uid();
        self.funcs += 1;
        let loops = std::mem::replace(&mut self.loops, 0);
        self.names.push(vec![]);
        let mut params = Vec::new();
        let n = self.g.s.weighted(&[5, 2, 1]);
        for _ in 0..n {
            let Some(p) = self.fresh() else { break };
            // the default is evaluated outside
            let k = self.names.pop().unwrap();
            let ban = if name == "_" { self.banned.clone() } else { Some(name.to_string()) };
            let ban = std::mem::replace(&mut self.banned, ban);
            let v = self.expr(1);
            self.banned = ban;
            self.names.push(k);
            self.names.last_mut().unwrap().push((p.clone(), true));
            params.push(Param { pat: Pat::Lv(Lv::Var(p)), k: PK::Def(v) });
        }
        let body = if d == 0 || !self.g.s.chance(3, 5) { Body::Expr(self.expr(1)) } else {
            self.names.push(vec![]);
            let k = 1 + self.g.s.below(3);
            let mut b = self.stmts(k, d - 1);
            let e = self.expr(2);
            b.push(if self.g.s.chance(1, 3) { self.g.st(SK::Return(Some(e))) } else { self.g.st(SK::Expr(e)) });
            self.names.pop();
            Body::Block(b)
        };
        self.names.pop();
        self.loops = loops;
        self.funcs -= 1;
        Rc::new(FnDef { id, name: name.into(), params, body })
    }

    fn lambda(&mut self, d: u32) -> E { let f = self.function("_", d); self.g.e(EK::Lambda(f)) }

    fn block(&mut self, d: u32) -> Vec<S> {
        self.names.push(vec![]);
        let n = 1 + self.g.s.below(3);
        let b = self.stmts(n, d);
        self.names.pop();
        b
    }

    fn stmts(&mut self, n: usize, d: u32) -> Vec<S> {
        let mut out = Vec::new();
        for _ in 0..n { if self.left < 0 { break; } self.stmt(&mut out, d); }
        out
    }

    fn cond(&mut self) -> E {
        let a = self.expr(1);
        let k = self.g.s.int(0, 6);
        let k = self.g.int_lit(k);
        let o = *self.g.s.pick(&[Op::Ge, Op::Lt, Op::Eq, Op::Ne]);
        self.g.bin(o, a, k)
    }

    fn print(&mut self, xs: Vec<E>) -> S { let e = self.g.native(Nat::Print, xs); self.g.st(SK::Expr(e)) }

    fn stmt(&mut self, out: &mut Vec<S>, d: u32) {
        self.left -= 1;
        let deep = (d > 0) as u32;
        match self.g.s.weighted(&[6, 3, 4, 5, deep * 2, deep * 3, deep * 3, deep * 2, deep * 2, (self.loops > 0) as u32 * 3, (self.funcs > 0) as u32 * 2, 2]) {
            0 => {
                let Some(n) = self.fresh() else { return };
                let v = self.expr(2);
                self.names.last_mut().unwrap().push((n.clone(), true));
                out.push(self.g.st(SK::Let(vec![(vec![Pat::Lv(Lv::Var(n))], Some(v))])));
            }
            1 => { let k = 1 + self.g.s.below(2); let xs = (0..k).map(|_| self.expr(2)).collect(); out.push(self.print(xs)); }
            2 => if let Some(e) = self.assign(2) { out.push(self.g.st(SK::Expr(e))); },
            3 => {
                // keep a closure for later
                let f = self.lambda(d);
                let f = self.g.e(EK::Paren(Box::new(f)));
                let p = self.g.native(Nat::Push, vec![f]);
                let l = self.g.var("fs");
                let e = self.g.e(EK::Comp(Box::new(l), Box::new(p)));
                out.push(self.g.st(SK::Expr(e)));
            }
            4 => {
                let Some(n) = self.fresh() else { return };
                // only late bound if global
                let f = self.function(&n, d - 1);
                self.names.last_mut().unwrap().push((n.clone(), false));
                out.push(self.g.st(SK::Fn(f, vec![])));
                let f = self.g.var(&n);
                let c = self.g.call(f, vec![]);
                out.push(self.print(vec![c]));
            }
            5 => {
                let c = self.cond();
                let a = self.block(d - 1);
                let z = if self.g.s.chance(1, 3) { Some(self.block(d - 1)) } else { None };
                out.push(self.g.st(SK::If(vec![(c, a)], z)));
            }
            6 => {
                // for
                let (k, r) = (self.g.s.int(1, 3), 0);
                let _ = r;
                let k = self.g.int_lit(k);
                let mut it = self.g.native(Nat::Range, vec![k]);
                self.names.push(vec![]);
                let i = self.g.s.pick(&POOL).to_string();
                let ps = if self.g.s.chance(1, 3) {
                    let j = POOL[(POOL.iter().position(|x| *x == i).unwrap() + 1) % 4].to_string();
                    self.names.last_mut().unwrap().push((j.clone(), true));
                    it = self.g.native(Nat::Enumerate, vec![it]);
                    vec![Pat::Lv(Lv::Var(i.clone())), Pat::Lv(Lv::Var(j))]
                } else { vec![Pat::Lv(Lv::Var(i.clone()))] };
                self.names.last_mut().unwrap().push((i, true));
                self.loops += 1;
                let b = self.block(d - 1);
                self.loops -= 1;
                self.names.pop();
                let z = if self.g.s.chance(1, 5) { Some(self.block(d - 1)) } else { None };
                out.push(self.g.st(SK::For(ps, it, b, z)));
            }
            7 => {
                // while, do-while or loop, bounded by a counter
                let n = self.g.fresh_name("n");
                let z = self.g.int_lit(0);
                out.push(self.g.st(SK::Let(vec![(vec![Pat::Lv(Lv::Var(n.clone()))], Some(z))])));
                let one = self.g.int_lit(1);
                let inc = self.g.e(EK::OpAssign(Lv::Var(n.clone()), AOp::Op(Op::Add), Box::new(one)));
                self.loops += 1;
                let mut b = vec![self.g.st(SK::Expr(inc))];
                let (v, k) = (self.g.var(&n), self.g.s.int(1, 3));
                let k = self.g.int_lit(k);
                let kind = self.g.s.below(3);
                let test = self.g.bin(Op::Lt, v, k);
                if kind != 0 {
                    let (v, m) = (self.g.var(&n), self.g.int_lit(3));
                    let c = self.g.bin(Op::Gt, v, m);
                    let br = self.g.st(SK::Break);
                    b.push(self.g.st(SK::If(vec![(c, vec![br])], None)));
                }
                b.extend(self.block(d - 1));
                self.loops -= 1;
                out.push(match kind {
                    0 => { let z = if self.g.s.chance(1, 5) { Some(self.block(d - 1)) } else { None }; self.g.st(SK::While(test, b, z)) }
                    1 => self.g.st(SK::Do(b, Some(test), None)),
                    _ => self.g.st(SK::Loop(b)),
                });
            }
            8 => { self.loops += 1; let b = self.block(d - 1); self.loops -= 1;
                // `continue` would run it again forever
                let b = bounded(b);
                out.push(self.g.st(SK::Do(b, None, None))); }
            9 => {
                let c = self.cond();
                let s = if self.g.s.chance(1, 2) { self.g.st(SK::Break) } else { self.g.st(SK::Continue) };
                // leaves from within a further scope, which may have locals of its own
                self.names.push(vec![]);
                let k = self.g.s.below(2);
                let mut b = self.stmts(k, 0);
                self.names.pop();
                b.push(s);
                out.push(self.g.st(SK::If(vec![(c, b)], None)));
            }
            10 => {
                let c = self.cond();
                self.names.push(vec![]);
                let k = self.g.s.below(2);
                let mut b = self.stmts(k, 0);
                let e = self.expr(2);
                self.names.pop();
                b.push(self.g.st(SK::Return(Some(e))));
                out.push(self.g.st(SK::If(vec![(c, b)], None)));
            }
            _ => { let e = self.invoke(); out.push(self.print(vec![e])); }
        }
    }
}

fn bounded(b: Vec<S>) -> Vec<S> {
    fn fix(b: &mut [S]) {
        for s in b {
            match &mut s.k {
                SK::Continue => s.k = SK::Break,
                SK::If(c, z) => { for x in c { fix(&mut x.1) } if let Some(z) = z { fix(z) } }
                SK::For(_, _, _, Some(z)) | SK::While(_, _, Some(z)) | SK::Do(_, _, Some(z)) => fix(z),
                _ => {}
            }
        }
    }
    let mut b = b;
    fix(&mut b);
    b
}

/// `let fs = [], fuel = 40 ; fn call(i) { if fuel > 0 and i < len(fs) { fuel -= 1 ; fs[i]() } else { 0 } }`
fn prelude(g: &mut Gen) -> Vec<S> {
    let (l, k) = (g.list_lit(vec![]), g.int_lit(40));
    let s1 = g.st(SK::Let(vec![(vec![Pat::Lv(Lv::Var("fs".into()))], Some(l))]));
    let s2 = g.st(SK::Let(vec![(vec![Pat::Lv(Lv::Var("fuel".into()))], Some(k))]));
    let (v, z) = (g.var("fuel"), g.int_lit(0));
    let c1 = g.bin(Op::Gt, v, z);
    let (i, l) = (g.var("i"), g.var("fs"));
    let n = g.native(Nat::Len, vec![l]);
    let c2 = g.bin(Op::Lt, i, n);
    let c = g.e(EK::And(Box::new(c1), Box::new(c2)));
    let one = g.int_lit(1);
    let dec = g.e(EK::OpAssign(Lv::Var("fuel".into()), AOp::Op(Op::Sub), Box::new(one)));
    let dec = g.st(SK::Expr(dec));
    let (l, i) = (g.var("fs"), g.var("i"));
    let x = g.e(EK::Index(Box::new(l), Box::new(i)));
    let call = g.call(x, vec![]);
    let r = g.st(SK::Return(Some(call)));
    let s = g.st(SK::If(vec![(c, vec![dec, r])], None));
    let z = g.int_lit(0);
    let z = g.st(SK::Expr(z));
    let id = g.uid();
    let f = FnDef { id, name: "call".into(), params: vec![Param { pat: Pat::Lv(Lv::Var("i".into())), k: PK::Req }], body: Body::Block(vec![s, z]) };
    let f = g.st(SK::Fn(Rc::new(f), vec![]));
    vec![s1, s2, f]
}

pub fn run(s: &mut Src, cx: &mut Cx) -> Result<(), Failure> {
    let mut g = Gen::new(s, Cfg::default());
    let mut prog = prelude(&mut g);
    let mut sc = Sc { g, names: vec![vec![]], funcs: 0, loops: 0, left: 90, banned: None };
    let n = 2 + sc.g.s.below(6);
    prog.extend(sc.stmts(n, 4));
    for i in 0..6 { let k = sc.g.int_lit(i); let f = sc.g.var("call"); let c = sc.g.call(f, vec![k]); prog.push(sc.print(vec![c])); }
    let vs = sc.visible();
    for v in vs { let x = sc.g.var(&v.0); prog.push(sc.print(vec![x])); }
    let closures = { let mut k = 0; walk_stmts(&prog, &mut |e| if let EK::Lambda(_) = e.k { k += 1 }); k };
    match check(&prog, Style::default(), 0, cx)? {
        Verdict::Discard => return cx.discard(),
        Verdict::Ok { failed } => if failed { cx.label("ends in an error") } else { cx.label("ends normally") },
    }
    cx.nontrivial = closures >= 2;
    Ok(())
}

/// Variables which hold anything (nothing at first, perhaps), read and written by closures of every depth, during and
/// after the life of the scope which declares them
struct Ce<'a> {
    v: Vals<'a>,
    names: Vec<Vec<String>>,
    funcs: u32,
    left: i32,
    count: usize,
}

const CELLS: [&str; 6] = ["a", "b", "c", "d", "e", "x"];

impl<'a> Ce<'a> {
    fn visible(&self) -> Vec<String> {
        let mut r: Vec<String> = Vec::new();
        for s in self.names.iter().rev() { for n in s { if !r.contains(n) { r.push(n.clone()); } } }
        r
    }

    fn value(&mut self) -> E {
        self.count += 1;
        match self.v.s().weighted(&[5, 2, 2, 2, 1, 1]) {
            0 => self.v.i(self.count as i64),
            1 => self.v.e(EK::Nil),
            2 => self.v.bool(),
            3 => { let t = format!("s{}", self.count); self.v.t(&t) }
            4 => { let i = self.v.i(self.count as i64); self.v.list(vec![i]) }
            _ => { let k = self.v.i(self.count as i64); self.v.lam(&[], k) }
        }
    }

    fn fresh(&mut self) -> Option<String> {
        let free: Vec<&str> = CELLS.iter().copied().filter(|n| !self.names.last().unwrap().iter().any(|x| x == n)).collect();
        if free.is_empty() { return None; }
        Some(self.v.s().pick(&free).to_string())
    }
    fn declare(&mut self, n: &str) { self.names.last_mut().unwrap().push(n.to_string()); }

    fn read(&mut self) -> E {
        let vs = self.visible();
        let n = self.v.n(1, 3);
        let mut xs = Vec::new();
        for _ in 0..n { if vs.is_empty() { break; } let n = self.v.s().pick(&vs).clone(); xs.push(self.v.v(&n)); }
        self.v.list(xs)
    }

    /// an assignment of a value, or of the variable `p`
    fn write(&mut self, value: bool) -> E {
        let vs = self.visible();
        if vs.is_empty() { return self.value(); }
        let n = self.v.s().pick(&vs).clone();
        let x = if value && self.v.chance(1, 2) { self.v.v("p") } else { self.value() };
        let x = self.v.paren(x);
        match self.v.s().weighted(&[5, 2, 1, 1]) {
            1 if vs.len() > 1 => {
                let m = self.v.s().pick(&vs).clone();
                let y = self.value();
                let y = self.v.paren(y);
                let t = if self.v.chance(1, 2) { self.v.list(vec![x, y]) } else { self.v.vector(vec![x, y]) };
                self.v.e(EK::PatAssign(vec![Pat::Lv(Lv::Var(n)), Pat::Lv(Lv::Var(m))], Box::new(t)))
            }
            2 => { let m = self.v.s().pick(&vs).clone(); let i = self.v.e(EK::Assign(Lv::Var(m), Box::new(x))); self.v.e(EK::Assign(Lv::Var(n), Box::new(i))) }
            3 => { let m = self.v.s().pick(&vs).clone(); let y = self.v.v(&m); self.v.e(EK::Assign(Lv::Var(n), Box::new(y))) }
            _ => self.v.e(EK::Assign(Lv::Var(n), Box::new(x))),
        }
    }

    /// `fn(p) { ... }`, perhaps within another function
    fn closure(&mut self) -> E {
        let depth = self.v.s().weighted(&[5, 2, 1]);
        let mut b = Vec::new();
        let n = self.v.n(1, 2);
        let mut shadowed = false;
        for _ in 0..n {
            if !shadowed && self.v.chance(1, 8) { shadowed = true; if let Some(x) = self.fresh() { let e = self.value(); b.push(self.v.let_(&x, e)); continue; } }
            if self.v.chance(3, 5) { let e = self.write(true); b.push(self.v.se(e)); }
        }
        let r = self.read();
        b.push(self.v.se(r));
        let mut f = self.v.lam_block(&["p"], b);
        for _ in 0..depth {
            // `fn(p) { (fn(p) { ... })(p) }`
            let g = self.v.e(EK::Paren(Box::new(f)));
            let p = self.v.v("p");
            let c = self.v.call(g, vec![p]);
            f = if self.v.chance(1, 2) { self.v.lam(&["p"], c) } else { let c = self.v.se(c); self.v.lam_block(&["p"], vec![c]) };
        }
        f
    }

    fn keep(&mut self) -> S {
        let f = self.closure();
        let f = self.v.e(EK::Paren(Box::new(f)));
        let p = self.v.nat(Nat::Push, vec![f]);
        let l = self.v.v("fs");
        let e = self.v.e(EK::Comp(Box::new(l), Box::new(p)));
        self.v.se(e)
    }

    fn invoke(&mut self) -> S {
        let k = self.v.n(0, 5);
        let k = self.v.i(k as i64);
        let x = self.value();
        let x = self.v.paren(x);
        let f = self.v.v("call");
        let e = self.v.call(f, vec![k, x]);
        self.v.show(vec![e])
    }

    fn decl(&mut self, out: &mut Vec<S>) {
        let Some(n) = self.fresh() else { return };
        match self.v.s().weighted(&[4, 4, 2]) {
            0 => { let e = self.value(); out.push(self.v.let_(&n, e)); }
            1 => out.push(self.v.g.st(SK::Let(vec![(vec![Pat::Lv(Lv::Var(n.clone()))], None)]))),
            _ => {
                let (e, f) = (self.value(), self.value());
                let (e, f) = (self.v.paren(e), self.v.paren(f));
                let l = self.v.list(vec![e, f]);
                let rest = if self.v.chance(1, 2) { Pat::Rest(None) } else { Pat::Discard };
                out.push(self.v.g.st(SK::Let(vec![(vec![Pat::Lv(Lv::Var(n.clone())), rest], Some(l))])));
            }
        }
        self.declare(&n);
    }

    fn body(&mut self, d: u32, n: usize) -> Vec<S> {
        let mut out = Vec::new();
        for _ in 0..n { if self.left < 0 { break; } self.stmt(&mut out, d); }
        out
    }

    fn stmt(&mut self, out: &mut Vec<S>, d: u32) {
        self.left -= 1;
        let deep = (d > 0) as u32;
        match self.v.s().weighted(&[5, 6, 4, 2, 3, deep * 2, deep * 2, deep * 3, deep]) {
            0 => self.decl(out),
            1 => out.push(self.keep()),
            2 => { let e = self.write(false); out.push(self.v.se(e)); }
            3 => { let e = self.read(); out.push(self.v.show(vec![e])); }
            4 => out.push(self.invoke()),
            5 => {
                // a block
                self.names.push(vec![]);
                let n = self.v.n(1, 4);
                let b = self.body(d - 1, n);
                self.names.pop();
                let c = self.v.e(EK::Bool(true));
                out.push(self.v.g.st(SK::If(vec![(c, b)], None)));
            }
            6 => {
                // a loop over some values
                let n = self.v.n(1, 3);
                let mut xs = Vec::new();
                for _ in 0..n { let e = self.value(); xs.push(self.v.paren(e)); }
                let l = self.v.list(xs);
                self.names.push(vec![]);
                let i = self.fresh().unwrap();
                self.declare(&i);
                self.names.push(vec![]);
                let n = self.v.n(1, 4);
                let mut b = self.body(d - 1, n);
                if self.v.chance(1, 3) {
                    let k = if self.v.chance(1, 2) { SK::Break } else { SK::Continue };
                    let v = self.v.v(&i);
                    let t = self.v.nat(Nat::Repr, vec![v]);
                    let t = self.v.nat(Nat::Len, vec![t]);
                    let two = self.v.i(2);
                    let c = self.v.bin(Op::Mod, t, two);
                    let s = self.v.g.st(k);
                    b.push(self.v.g.st(SK::If(vec![(c, vec![s])], None)));
                    b.push(self.keep());
                }
                self.names.pop();
                self.names.pop();
                out.push(self.v.g.st(SK::For(vec![Pat::Lv(Lv::Var(i))], l, b, None)));
            }
            7 => {
                // a function called once or twice
                self.names.push(vec![]);
                self.funcs += 1;
                let mut params = Vec::new();
                let k = self.v.n(0, 2);
                for _ in 0..k {
                    let Some(p) = self.fresh() else { break };
                    self.declare(&p);
                    let k = match self.v.s().below(3) { 0 => PK::Opt, _ => { let e = self.value(); let e = self.v.paren(e); PK::Def(e) } };
                    params.push(Param { pat: Pat::Lv(Lv::Var(p)), k });
                }
                self.names.push(vec![]);
                let n = self.v.n(1, 5);
                let mut b = self.body(d - 1, n);
                if self.v.chance(1, 3) { let e = self.read(); b.push(self.v.g.st(SK::Return(Some(e)))); }
                self.names.pop();
                self.names.pop();
                self.funcs -= 1;
                let id = self.v.g.uid();
                self.count += 1;
                let name = format!("g{}", self.count);
                let f = FnDef { id, name: name.clone(), params, body: Body::Block(b) };
                out.push(self.v.g.st(SK::Fn(Rc::new(f), vec![])));
                for _ in 0..self.v.n(1, 2) { let g = self.v.v(&name); let c = self.v.call(g, vec![]); out.push(self.v.se(c)); }
            }
            _ => {
                // a function called by a library function
                self.names.push(vec![]);
                let p = self.fresh().unwrap();
                self.declare(&p);
                self.funcs += 1;
                self.names.push(vec![]);
                let n = self.v.n(1, 3);
                let b = self.body(d - 1, n);
                self.names.pop();
                self.names.pop();
                self.funcs -= 1;
                let f = self.v.lam_block(&[&p], b);
                let f = self.v.e(EK::Paren(Box::new(f)));
                let (x, y) = (self.value(), self.value());
                let (x, y) = (self.v.paren(x), self.v.paren(y));
                let l = self.v.list(vec![x, y]);
                let m = self.v.nat(Nat::Map, vec![f]);
                let e = self.v.e(EK::Comp(Box::new(l), Box::new(m)));
                out.push(self.v.se(e));
            }
        }
    }
}

/// `let fs = [], fuel = 60 ; fn call(i, x) { if fuel > 0 and i < len(fs) { fuel -= 1 ; return fs[-1 - i](x) } nil }`
pub fn cells(s: &mut Src, cx: &mut Cx) -> Result<(), Failure> {
    let mut v = Vals::new(s);
    let mut p = prelude(&mut v.g);
    // the closures kept last are called with a value
    if let SK::Fn(f, _) = &p[2].k {
        let mut f = FnDef { id: f.id, name: f.name.clone(), params: vec![Param { pat: Pat::Lv(Lv::Var("i".into())), k: PK::Req }, Param { pat: Pat::Lv(Lv::Var("w".into())), k: PK::Req }], body: Body::Block(vec![]) };
        let (x, z) = (v.v("fuel"), v.i(0));
        let c1 = v.bin(Op::Gt, x, z);
        let (i, l) = (v.v("i"), v.v("fs"));
        let n = v.nat(Nat::Len, vec![l]);
        let c2 = v.bin(Op::Lt, i, n);
        let c = v.e(EK::And(Box::new(c1), Box::new(c2)));
        let one = v.i(1);
        let dec = v.e(EK::OpAssign(Lv::Var("fuel".into()), AOp::Op(Op::Sub), Box::new(one)));
        let dec = v.se(dec);
        let (l, m, i) = (v.v("fs"), v.i(-1), v.v("i"));
        let i = v.bin(Op::Sub, m, i);
        let x = v.index(l, i);
        let w = v.v("w");
        let c3 = v.call(x, vec![w]);
        let r = v.g.st(SK::Return(Some(c3)));
        let i = v.g.st(SK::If(vec![(c, vec![dec, r])], None));
        f.body = Body::Block(vec![i]);
        p[2] = v.g.st(SK::Fn(Rc::new(f), vec![]));
    }
    let mut prog = p;
    let mut c = Ce { v, names: vec![vec![]], funcs: 0, left: 50, count: 0 };
    let n = c.v.n(2, 6);
    prog.extend(c.body(4, n));
    let n = c.v.n(3, 12);
    for _ in 0..n { prog.push(c.invoke()); if c.v.chance(1, 6) { let e = c.write(false); prog.push(c.v.se(e)); } }
    let e = c.visible();
    for n in e { let x = c.v.v(&n); prog.push(c.v.show(vec![x])); }
    cx.label("cells");
    match check(&prog, Style::default(), 0, cx)? {
        Verdict::Discard => return cx.discard(),
        Verdict::Ok { failed } => if failed { cx.label("ends in an error") } else { cx.label("ends normally") },
    }
    Ok(())
}
