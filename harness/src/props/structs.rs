//! Structs, modules and late-bound names, and reordering of declarations.

use std::rc::Rc;

use crate::engine::{fail, Cx, Failure, Src};
use crate::model::ast::*;
use crate::model::gen::{Cfg, Gen};
use crate::model::interp::{End as MEnd, Interp};
use crate::model::natives::Nat;
use crate::model::ops::Op;
use crate::vmrun;

use super::vals::Vals;
use super::prog::{agree, folded, styled};

#[derive(Clone)]
struct Ty { name: String, fields: Vec<String>, /** name, has self */ methods: Vec<(String, bool)>, module: bool }

struct St<'a> {
    g: Gen<'a>,
    tys: Vec<Ty>,
    fns: Vec<String>,
    globals: Vec<String>,
    /// instances: variable, type
    objs: Vec<(String, usize)>,
    /// in a method: the type, and whether it has a self
    this: Option<(usize, bool)>,
    /// integer locals
    locals: Vec<String>,
    inside: bool,
    left: i32,
}

const FIELDS: [&str; 5] = ["a", "b", "c", "d", "g0"];
const METHODS: [&str; 5] = ["m", "n", "q", "r", "f0"];

impl<'a> St<'a> {
    fn small(&mut self) -> E { let k = self.g.s.int(0, 9); self.g.int_lit(k) }

    fn shadowed(&self, n: &str) -> bool { self.locals.iter().any(|x| x == n) }

    /// whether a name is a member of the type whose method this is (a field or a method with `self` hides other
    /// names even in a method without `self`, where it cannot be used)
    fn member(&self, n: &str) -> bool {
        self.this.is_some_and(|(t, _)| self.tys[t].methods.iter().any(|m| m.0 == n) || self.tys[t].fields.iter().any(|f| f == n))
    }

    /// the remaining number of nested calls
    fn depth(&mut self) -> E {
        if self.inside { let k = self.g.var("k"); let one = self.g.int_lit(1); self.g.bin(Op::Sub, k, one) } else { let k = self.g.s.int(0, 4); self.g.int_lit(k) }
    }

    fn new_of(&mut self, t: usize, d: u32) -> E {
        let n = self.tys[t].name.clone();
        let k = self.tys[t].fields.len();
        let a = (0..k).map(|_| self.int(d.min(1))).collect();
        let f = self.g.var(&n);
        self.g.call(f, a)
    }

    /// an instance, and its type
    fn obj(&mut self, d: u32) -> (E, usize) {
        if let Some((t, true)) = self.this { if self.g.s.chance(1, 2) { return (self.g.var("self"), t); } }
        if !self.objs.is_empty() && !self.inside && self.g.s.chance(3, 4) { let (n, t) = self.g.s.pick(&self.objs).clone(); return (self.g.var(&n), t); }
        let real: Vec<usize> = (0..self.tys.len()).filter(|i| !self.tys[*i].module).collect();
        let t = *self.g.s.pick(&real);
        (self.new_of(t, d), t)
    }

    /// Something which can be assigned to
    fn place(&mut self) -> Lv {
        if let Some((t, true)) = self.this {
            if self.g.s.chance(1, 2) {
                let f = { let n = self.tys[t].fields.clone(); self.g.s.pick(&n).clone() };
                if !self.shadowed(&f) { return Lv::Var(f); }
            }
        }
        let gs: Vec<String> = self.globals.iter().filter(|n| !self.shadowed(n) && !self.member(n)).cloned().collect();
        if !gs.is_empty() && self.g.s.chance(1, 3) { return Lv::Var(self.g.s.pick(&gs).clone()); }
        let (o, t) = self.obj(0);
        let f = { let n = self.tys[t].fields.clone(); self.g.s.pick(&n).clone() };
        Lv::Field(Box::new(o), f)
    }

    /// a pattern assignment to several places
    fn pattern(&mut self) -> E {
        let n = 2 + self.g.s.below(2);
        let mut ps: Vec<Pat> = Vec::new();
        let mut v: Vec<E> = Vec::new();
        for i in 0..n {
            ps.push(if i > 0 && self.g.s.chance(1, 6) { Pat::Discard } else { Pat::Lv(self.place()) });
            v.push(self.int(1));
        }
        let v = self.g.list_lit(v);
        self.g.e(EK::PatAssign(ps, Box::new(v)))
    }

    fn int(&mut self, d: u32) -> E {
        self.left -= 1;
        if d == 0 || self.left < 0 {
            if !self.locals.is_empty() && self.g.s.chance(1, 2) { let n = self.g.s.pick(&self.locals).clone(); return self.g.var(&n); }
            if let Some((t, true)) = self.this {
                let n = self.tys[t].fields.clone();
                let f = self.g.s.pick(&n).clone();
                if self.g.s.chance(1, 2) && !self.shadowed(&f) { return self.g.var(&f); }
            }
            let gs: Vec<String> = self.globals.iter().filter(|n| !self.shadowed(n) && !self.member(n)).cloned().collect();
            if !gs.is_empty() && self.g.s.chance(1, 3) { let n = self.g.s.pick(&gs).clone(); return self.g.var(&n); }
            return self.small();
        }
        match self.g.s.weighted(&[2, 4, 3, 3, 4, 3, 2, 2, 1]) {
            0 => self.int(0),
            1 => { let (a, b) = (self.int(d - 1), self.int(d - 1)); let o = *self.g.s.pick(&[Op::Add, Op::Sub, Op::Mul]); self.g.bin(o, a, b) }
            2 => { let (o, t) = self.obj(d - 1); let n = self.tys[t].fields.clone(); let f = self.g.s.pick(&n).clone(); self.g.e(EK::Field(Box::new(o), f)) }
            3 => {
                // a function
                let fs: Vec<String> = self.fns.iter().filter(|n| !self.shadowed(n) && !self.member(n)).cloned().collect();
                if fs.is_empty() { return self.int(0); }
                let f = self.g.s.pick(&fs).clone();
                let (f, k, x) = (self.g.var(&f), self.depth(), self.int(d - 1));
                self.g.call(f, vec![k, x])
            }
            4 => {
                // a method, of an instance or of its type
                let (o, t) = self.obj(d - 1);
                if self.tys[t].methods.is_empty() { return self.int(d - 1); }
                let ms = self.tys[t].methods.clone();
                let (m, this) = self.g.s.pick(&ms).clone();
                let (k, x) = (self.depth(), self.int(d - 1));
                if this && self.g.s.chance(2, 3) { let f = self.g.e(EK::Field(Box::new(o), m)); return self.g.call(f, vec![k, x]); }
                let n = self.tys[t].name.clone();
                let ty = self.g.var(&n);
                let f = self.g.e(EK::Field(Box::new(ty), m));
                if this { self.g.call(f, vec![o, k, x]) } else { self.g.call(f, vec![k, x]) }
            }
            5 => {
                // a method of this type by its name
                let Some((t, this)) = self.this else { return self.int(d - 1) };
                let ms: Vec<(String, bool)> = self.tys[t].methods.iter().filter(|m| (!m.1 || this) && !self.shadowed(&m.0)).cloned().collect();
                if ms.is_empty() { return self.int(d - 1); }
                let m = self.g.s.pick(&ms).0.clone();
                let (f, k, x) = (self.g.var(&m), self.depth(), self.int(d - 1));
                self.g.call(f, vec![k, x])
            }
            6 => {
                let ms: Vec<usize> = (0..self.tys.len()).filter(|i| self.tys[*i].module && !self.tys[*i].methods.is_empty()).collect();
                if ms.is_empty() { return self.int(d - 1); }
                let t = *self.g.s.pick(&ms);
                let all = self.tys[t].methods.clone();
                let m = self.g.s.pick(&all).0.clone();
                let n = self.tys[t].name.clone();
                let ty = self.g.var(&n);
                let f = self.g.e(EK::Field(Box::new(ty), m));
                let (k, x) = (self.depth(), self.int(d - 1));
                self.g.call(f, vec![k, x])
            }
            7 => {
                let l = self.place();
                let v = self.int(d - 1);
                let e = if self.g.s.chance(1, 2) { self.g.e(EK::Assign(l, Box::new(v))) } else { self.g.e(EK::OpAssign(l, AOp::Op(Op::Add), Box::new(v))) };
                self.g.e(EK::Paren(Box::new(e)))
            }
            _ => {
                // a closure over all of these
                let id = self.g.uid();
                let x = self.int(0);
                let n = if self.shadowed("y") { "z" } else { "y" };
                self.locals.push(n.into());
                let b = self.int(d - 1);
                self.locals.pop();
                let f = self.g.e(EK::Lambda(Rc::new(FnDef { id, name: "_".into(), params: vec![Param { pat: Pat::Lv(Lv::Var(n.into())), k: PK::Req }], body: Body::Expr(b) })));
                let f = self.g.e(EK::Paren(Box::new(f)));
                self.g.call(f, vec![x])
            }
        }
    }

    /// `fn name(self, k, x) { if k <= 0 { return x } ... }`
    fn function(&mut self, name: &str, this: Option<(usize, bool)>) -> Rc<FnDef> {
        let id = self.g.uid();
        self.this = this;
        self.inside = true;
        self.left = 14;
        // the last may be named as a field
        let x = if self.g.s.chance(1, 6) { self.g.s.pick(&FIELDS).to_string() } else { "x".to_string() };
        self.locals = vec![x.clone()];
        let mut params = vec![];
        if this.is_some_and(|t| t.1) { params.push(Param { pat: Pat::Lv(Lv::Var("self".into())), k: PK::Req }); }
        for n in ["k", &x] { params.push(Param { pat: Pat::Lv(Lv::Var(n.into())), k: PK::Req }); }
        let (k, z, v) = (self.g.var("k"), self.g.int_lit(0), self.g.var(&x));
        let c = self.g.bin(Op::Le, k, z);
        let body = if self.g.s.chance(1, 2) {
            let e = self.int(3);
            let t = self.g.e(EK::Tern(vec![(c, v)], Box::new(e)));
            Body::Expr(t)
        } else {
            let r = self.g.st(SK::Return(Some(v)));
            let mut b = vec![self.g.st(SK::If(vec![(c, vec![r])], None))];
            let n = self.g.s.below(3);
            for _ in 0..n {
                if self.g.s.chance(1, 3) {
                    let n = self.g.s.pick(&["a", "b", "y", "w"]).to_string();
                    if self.shadowed(&n) { continue; }
                    let v = self.int(2);
                    self.locals.push(n.clone());
                    b.push(self.g.st(SK::Let(vec![(vec![Pat::Lv(Lv::Var(n))], Some(v))])));
                } else if self.g.s.chance(1, 2) {
                    let e = match self.g.s.below(4) {
                        0 | 1 => { let l = self.place(); let v = self.int(2); self.g.e(EK::Assign(l, Box::new(v))) }
                        2 => self.pattern(),
                        _ => { let (l, l2) = (self.place(), self.place()); let v = self.int(1); let e = self.g.e(EK::Assign(l2, Box::new(v))); self.g.e(EK::Assign(l, Box::new(e))) }
                    };
                    b.push(self.g.st(SK::Expr(e)));
                } else {
                    let s = self.g.str_lit(name);
                    let v = self.int(1);
                    let e = self.g.native(Nat::Print, vec![s, v]);
                    b.push(self.g.st(SK::Expr(e)));
                }
            }
            let e = self.int(3);
            b.push(self.g.st(SK::Expr(e)));
            Body::Block(b)
        };
        self.this = None;
        self.inside = false;
        self.locals = vec![];
        Rc::new(FnDef { id, name: name.into(), params, body })
    }

    fn print(&mut self, e: E) -> S { let e = self.g.native(Nat::Print, vec![e]); self.g.st(SK::Expr(e)) }

    fn any_field(&mut self) -> String { let all: Vec<String> = self.tys.iter().flat_map(|t| t.fields.iter().cloned().chain(t.methods.iter().map(|m| m.0.clone()))).collect(); self.g.s.pick(&all).clone() }

    fn stmt(&mut self, out: &mut Vec<S>) {
        self.left = 14;
        match self.g.s.weighted(&[4, 4, 3, 2, 2, 1, 1, 2, 1]) {
            0 => {
                let (e, t) = if self.objs.is_empty() || self.g.s.chance(2, 3) { let real: Vec<usize> = (0..self.tys.len()).filter(|i| !self.tys[*i].module).collect(); let t = *self.g.s.pick(&real); (self.new_of(t, 2), t) } else { self.obj(1) };
                let n = format!("o{}", self.objs.len());
                out.push(self.g.st(SK::Let(vec![(vec![Pat::Lv(Lv::Var(n.clone()))], Some(e))])));
                self.objs.push((n, t));
            }
            1 => { let e = self.int(3); out.push(self.print(e)); }
            2 => { let (o, _) = self.obj(1); out.push(self.print(o)); }
            3 if self.g.s.chance(1, 3) => { let e = self.pattern(); out.push(self.g.st(SK::Expr(e))); }
            3 => { let l = self.place(); let v = self.int(2); let e = self.g.e(EK::Assign(l, Box::new(v))); let e = self.g.e(EK::Paren(Box::new(e))); out.push(self.print(e)); }
            4 => {
                // values of members: bound methods, partials, getters
                let (o, t) = self.obj(1);
                match self.g.s.below(5) {
                    0 => { let f = self.g.s.pick(&self.tys[t].fields.clone()).clone(); let f = self.g.e(EK::FieldFn(f)); let e = self.g.e(EK::Comp(Box::new(o), Box::new(f))); out.push(self.print(e)); }
                    1 => {
                        let f = self.g.s.pick(&self.tys[t].fields.clone()).clone();
                        let f = self.g.e(EK::FieldFn(f));
                        let x = self.new_of(t, 1);
                        let l = self.g.list_lit(vec![o, x]);
                        let e = self.g.native(Nat::Map, vec![f, l]);
                        out.push(self.print(e));
                    }
                    2 => {
                        let ms: Vec<String> = self.tys[t].methods.iter().filter(|m| m.1).map(|m| m.0.clone()).collect();
                        if ms.is_empty() { return; }
                        let m = self.g.s.pick(&ms).clone();
                        let f = self.g.e(EK::Field(Box::new(o), m));
                        let k = self.depth();
                        let p = self.g.call(f, vec![k]);
                        let v = (0..2).map(|_| self.small()).collect();
                        let l = self.g.list_lit(v);
                        let e = self.g.native(Nat::Map, vec![p, l]);
                        out.push(self.print(e));
                    }
                    3 => {
                        // a field of a type is its getter
                        let f = self.g.s.pick(&self.tys[t].fields.clone()).clone();
                        let n = self.tys[t].name.clone();
                        let ty = self.g.var(&n);
                        let f = self.g.e(EK::Field(Box::new(ty), f));
                        let e = self.g.call(f, vec![o]);
                        out.push(self.print(e));
                    }
                    _ => {
                        let f = self.any_field();
                        let e = self.g.e(EK::Field(Box::new(o), f));
                        let e = self.g.native(Nat::Repr, vec![e]);
                        out.push(self.print(e));
                    }
                }
            }
            5 => {
                // may well not be there
                let f = self.any_field();
                let o = match self.g.s.below(4) {
                    0 => self.small(),
                    1 => { let n = self.g.s.pick(&self.tys).name.clone(); self.g.var(&n) }
                    _ => self.obj(0).0,
                };
                let e = if self.g.s.chance(1, 3) { let v = self.small(); let e = self.g.e(EK::Assign(Lv::Field(Box::new(o), f), Box::new(v))); self.g.e(EK::Paren(Box::new(e))) } else { let e = self.g.e(EK::Field(Box::new(o), f)); self.g.native(Nat::Repr, vec![e]) };
                out.push(self.print(e));
            }
            6 => {
                // a method of one type on an instance of another
                let (o, _) = self.obj(0);
                let t = self.g.s.below(self.tys.len());
                let ms: Vec<String> = self.tys[t].methods.iter().filter(|m| m.1).map(|m| m.0.clone()).collect();
                if ms.is_empty() { return; }
                let m = self.g.s.pick(&ms).clone();
                let n = self.tys[t].name.clone();
                let ty = self.g.var(&n);
                let f = self.g.e(EK::Field(Box::new(ty), m));
                let (k, x) = (self.depth(), self.small());
                let e = self.g.call(f, vec![o, k, x]);
                out.push(self.print(e));
            }
            7 => {
                // types
                let (o, t) = self.obj(0);
                let u = if self.g.s.chance(1, 2) { t } else { self.g.s.below(self.tys.len()) };
                if self.tys[u].module { return; }
                let n = self.tys[u].name.clone();
                let ty = self.g.var(&n);
                let e = match self.g.s.below(4) {
                    0 => self.g.bin(Op::Is, o, ty),
                    1 => { let x = self.g.native(Nat::TypeOf, vec![o]); self.g.bin(Op::Eq, x, ty) }
                    2 => { let x = self.new_of(u, 0); self.g.bin(Op::Eq, o, x) }
                    _ => { let x = self.new_of(u, 0); let l = self.g.list_lit(vec![o, x]); self.g.native(Nat::Repr, vec![l]) }
                };
                out.push(self.print(e));
            }
            _ => {
                let n = self.g.s.pick(&self.tys).name.clone();
                let e = self.g.var(&n);
                out.push(self.print(e));
            }
        }
    }
}

/// names used within a statement, including those of functions
fn names(s: &S, out: &mut Vec<String>) {
    walk_stmts(std::slice::from_ref(s), &mut |e| match &e.k {
        EK::Var(n) => out.push(n.clone()),
        EK::Assign(Lv::Var(n), _) | EK::OpAssign(Lv::Var(n), ..) => out.push(n.clone()),
        _ => {}
    });
}

fn declared(s: &S) -> Option<&str> { match &s.k { SK::Fn(d, _) => Some(&d.name), SK::Struct(n, ..) | SK::Module(n, _) => Some(n), _ => None } }

/// everything the names lead to
fn reach(from: &S, decls: &[&S]) -> Vec<usize> {
    let mut names_seen = Vec::new();
    names(from, &mut names_seen);
    let mut r: Vec<usize> = Vec::new();
    let mut i = 0;
    while i < names_seen.len() {
        for (k, d) in decls.iter().enumerate() {
            if declared(d) == Some(&names_seen[i]) && !r.contains(&k) { r.push(k); names(d, &mut names_seen); }
        }
        i += 1;
    }
    r
}

pub fn run(s: &mut Src, cx: &mut Cx) -> Result<(), Failure> {
    let g = Gen::new(s, Cfg::default());
    let mut c = St { g, tys: vec![], fns: vec![], globals: vec![], objs: vec![], this: None, locals: vec![], inside: false, left: 0 };
    let n = 1 + c.g.s.weighted(&[1, 2, 2]);
    for i in 0..n + 1 {
        let module = i == n;
        if module && c.g.s.chance(1, 2) { break; }
        let mut fields: Vec<String> = Vec::new();
        if !module { for f in FIELDS { if c.g.s.chance(2, 5) { fields.push(f.into()); } } if fields.is_empty() { fields.push("a".into()); } }
        if c.g.s.chance(1, 2) { fields.reverse(); }
        let mut methods = Vec::new();
        for m in METHODS { if c.g.s.chance(1, 3) { methods.push((m.to_string(), !module && c.g.s.chance(3, 4))); } }
        c.tys.push(Ty { name: if module { "M".into() } else { format!("S{}", i) }, fields, methods, module });
    }
    let k = c.g.s.below(4);
    c.fns = (0..k).map(|i| format!("f{}", i)).collect();
    let gn = c.g.s.below(3);
    c.globals = (0..gn).map(|i| format!("g{}", i)).collect();
    // declarations
    let mut decls: Vec<S> = Vec::new();
    for i in 0..c.tys.len() {
        let t = c.tys[i].clone();
        let mut ms = Vec::new();
        for (m, this) in &t.methods { ms.push((c.function(m, Some((i, *this))), *this)); }
        let k = if t.module { SK::Module(t.name, ms.into_iter().map(|m| m.0).collect()) } else { SK::Struct(t.name, t.fields, ms) };
        decls.push(c.g.st(k));
    }
    for f in c.fns.clone() { let d = c.function(&f, None); decls.push(c.g.st(SK::Fn(d, vec![]))); }
    // statements
    let mut body: Vec<S> = Vec::new();
    for n in c.globals.clone() { let v = c.small(); body.push(c.g.st(SK::Let(vec![(vec![Pat::Lv(Lv::Var(n))], Some(v))]))); }
    let n = 2 + c.g.s.below(7);
    for _ in 0..n { c.stmt(&mut body); }
    for (o, _) in c.objs.clone() { let e = c.g.var(&o); let p = c.print(e); body.push(p); }
    for n in c.globals.clone() { let e = c.g.var(&n); let p = c.print(e); body.push(p); }
    // the place of each declaration: anywhere before it may be needed
    let refs: Vec<&S> = decls.iter().collect();
    let needs: Vec<Vec<usize>> = body.iter().map(|b| reach(b, &refs)).collect();
    let late: Vec<usize> = (0..decls.len()).map(|d| needs.iter().position(|n| n.contains(&d)).unwrap_or(body.len())).collect();
    let mut prog: Vec<S> = Vec::new();
    let keys: Vec<u64> = (0..decls.len() * 2).map(|_| c.g.s.draw(1 << 20)).collect();
    let at: Vec<usize> = late.iter().map(|l| c.g.s.below(l + 1)).collect();
    let all_first = c.g.s.chance(1, 2);
    // first in the order they were made
    let nd = decls.len();
    prog.append(&mut decls);
    prog.append(&mut body);
    let mut m = Interp::new();
    let end = m.run(&prog);
    let w = styled(&prog, Style::default(), 0);
    cx.sample = w.out.clone();
    if let MEnd::Unknown(_) | MEnd::Fuel = end { return cx.discard(); }
    for opt in [false, true] {
        let r = vmrun::run(&w.out, opt);
        if opt && folded(&prog, &r) { cx.label("constant operation rejected"); continue; }
        agree(&w.out, &m, &end, &r, if opt { "optimised" } else { "not optimised" }, false)?;
    }
    // another order
    let body = prog.split_off(nd);
    let mut order: Vec<usize> = (0..nd).collect();
    order.sort_by_key(|i| keys[*i]);
    let mut slots: Vec<Option<S>> = prog.into_iter().map(Some).collect();
    let mut moved: Vec<S> = Vec::new();
    for (i, s) in body.into_iter().enumerate() {
        for d in &order { if slots[*d].is_some() && (all_first || at[*d] == i) { moved.push(slots[*d].take().unwrap()); } }
        moved.push(s);
    }
    for d in order { if let Some(s) = slots[d].take() { moved.push(s); } }
    let w2 = styled(&moved, Style::default(), 0);
    for opt in [false, true] {
        let r = vmrun::run(&w2.out, opt);
        if opt && folded(&moved, &r) { continue; }
        if let Err(f) = agree(&w2.out, &m, &end, &r, if opt { "declarations reordered, optimised" } else { "declarations reordered" }, false) { return fail(&format!("reordered: {}", f.sig), f.detail); }
    }
    cx.label(if matches!(end, MEnd::Err(_)) { "ends in an error" } else { "ends normally" });
    if w2.out != w.out { cx.label("reordered"); }
    cx.nontrivial = m.out.lines().count() >= 3;
    Ok(())
}

/// Structs as records of anything: every way to make them, to read, write and pass on their fields and methods
pub fn records(s: &mut Src, cx: &mut Cx) -> Result<(), Failure> {
    cx.label("records");
    let mut v = Vals::new(s);
    let names = ["a", "b", "c", "d", "e", "f"];
    let methods = ["m", "n", "o"];
    let nt = v.n(1, 3);
    let mut tys: Vec<(String, Vec<String>, Vec<(String, usize, bool)>)> = Vec::new();
    for i in 0..nt {
        let n = v.n(1, 5);
        let mut fs: Vec<String> = names.iter().map(|x| x.to_string()).collect();
        while fs.len() > n { let k = v.n(0, fs.len() - 1); fs.remove(k); }
        if v.chance(1, 2) { fs.reverse(); }
        let mut ms = Vec::new();
        let mut defs = Vec::new();
        for m in methods {
            if !v.chance(1, 2) { continue; }
            let (this, k) = (v.chance(3, 4), v.n(0, 3));
            let id = v.g.uid();
            let mut params = Vec::new();
            if this { params.push(Param { pat: Pat::Lv(Lv::Var("self".into())), k: PK::Req }); }
            for p in &["x", "y", "z"][..k] { params.push(Param { pat: Pat::Lv(Lv::Var(p.to_string())), k: PK::Req }); }
            // a method changes a field, or reads some
            let mut body = Vec::new();
            if this && v.chance(1, 2) {
                let f = v.s().pick(&fs).clone();
                let lv = if v.chance(1, 2) && !["x", "y", "z"].contains(&f.as_str()) { Lv::Var(f) } else { let o = v.v("self"); Lv::Field(Box::new(o), f) };
                let x = if k > 0 { v.v("x") } else { record_value(&mut v) };
                let e = v.e(EK::Assign(lv, Box::new(x)));
                body.push(v.se(e));
            }
            let mut xs = vec![v.t(m)];
            for p in &["x", "y", "z"][..k] { let p = v.v(p); xs.push(p); }
            if this { let f = v.s().pick(&fs).clone(); let x = if v.chance(1, 2) { v.v(&f) } else { let o = v.v("self"); v.e(EK::Field(Box::new(o), f)) }; xs.push(x); }
            let l = v.list(xs);
            let body = if body.is_empty() { Body::Expr(l) } else { body.push(v.se(l)); Body::Block(body) };
            defs.push((Rc::new(FnDef { id, name: m.into(), params, body }), this));
            ms.push((m.to_string(), k, this));
        }
        let name = format!("R{}", i);
        let s = v.g.st(SK::Struct(name.clone(), fs.clone(), defs));
        v.setup.push(s);
        tys.push((name, fs, ms));
    }
    // some instances, some under two names or within others
    let n = v.n(1, 3);
    let mut objs: Vec<(String, usize)> = Vec::new();
    for i in 0..n {
        let t = v.n(0, nt - 1);
        let name = format!("o{}", i);
        let e = if i > 0 && v.chance(1, 4) { let o = v.s().pick(&objs).clone(); objs.push((name.clone(), o.1)); v.v(&o.0) } else {
            let mut a = Vec::new();
            for _ in 0..tys[t].1.len() { a.push(if i > 0 && v.chance(1, 5) { let o = v.s().pick(&objs).0.clone(); v.v(&o) } else { record_value(&mut v) }); }
            objs.push((name.clone(), t));
            let f = v.v(&tys[t].0);
            v.call(f, a)
        };
        let l = v.let_(&name, e);
        v.setup.push(l);
    }
    let n = v.n(3, 9);
    for _ in 0..n {
        let (o, t) = v.s().pick(&objs).clone();
        let (name, fs, ms) = tys[t].clone();
        let x = v.v(&o);
        let all: Vec<String> = tys.iter().flat_map(|t| t.1.iter().cloned().chain(t.2.iter().map(|m| m.0.clone()))).collect();
        let f = if v.chance(1, 8) { v.s().pick(&all).clone() } else { v.s().pick(&fs).clone() };
        let mut state = v.chance(1, 2);
        let e = match v.s().weighted(&[3, 5, 3, 3, 1, 2, 3, 3, 3, 2, 2, 2, 2, 2, 2, 1]) {
            0 => v.e(EK::Field(Box::new(x), f)),
            1 => { let y = record_value(&mut v); state = true; v.e(EK::Assign(Lv::Field(Box::new(x), f), Box::new(y))) }
            2 => { let y = v.int(); state = true; let op = *v.s().pick(&[AOp::Op(Op::Add), AOp::Op(Op::Mul), AOp::Min, AOp::Max]); v.e(EK::OpAssign(Lv::Field(Box::new(x), f), op, Box::new(y))) }
            3 => { let g = v.e(EK::FieldFn(f)); if v.chance(1, 2) { v.call(g, vec![x]) } else { v.e(EK::Comp(Box::new(x), Box::new(g))) } }
            4 => { let g = v.e(EK::FieldFn(f)); let k = *v.s().pick(&[0, 0, 2, 3]); let a = (0..k).map(|_| v.v(&o)).collect(); v.call(g, a) }
            5 => {
                // over several instances
                let g = v.e(EK::FieldFn(f));
                let m = v.n(0, 3);
                let same: Vec<String> = objs.iter().filter(|x| x.1 == t || v.g.s.chance(1, 10)).map(|x| x.0.clone()).collect();
                let xs = (0..m).map(|_| { let n = v.s().pick(&same).clone(); v.v(&n) }).collect();
                let l = v.list(xs);
                let n = *v.s().pick(&[Nat::Map, Nat::Map, Nat::Filter, Nat::MinBy, Nat::MaxBy, Nat::Any, Nat::All, Nat::Find, Nat::IndexOf]);
                v.nat(n, vec![g, l])
            }
            6 if !ms.is_empty() => {
                // a method through the instance
                let (m, k, this) = v.s().pick(&ms).clone();
                let k = if v.chance(1, 8) { v.n(0, 4) } else { k };
                state = true;
                let g = if this { v.e(EK::Field(Box::new(x), m)) } else { let r = v.v(&name); v.e(EK::Field(Box::new(r), m)) };
                let a: Vec<E> = (0..k).map(|_| record_value(&mut v)).collect();
                v.call(g, a)
            }
            7 if !ms.is_empty() => {
                // through the type
                let (m, k, this) = v.s().pick(&ms).clone();
                state = true;
                let r = v.v(&name);
                let g = v.e(EK::Field(Box::new(r), m));
                let mut a: Vec<E> = if this { vec![x] } else { vec![] };
                for _ in 0..k { a.push(record_value(&mut v)); }
                v.call(g, a)
            }
            8 => {
                // a constructor, with the right number of arguments or not
                let k = if v.chance(1, 3) { v.n(0, 6) } else { fs.len() };
                let r = v.v(&name);
                let mut a = Vec::new();
                for _ in 0..k { a.push(record_value(&mut v)); }
                if v.chance(1, 4) { let l = v.list(a); let id = v.g.uid(); v.e(EK::Call(Box::new(r), vec![Arg::Unroll(id, l)])) } else { v.call(r, a) }
            }
            9 => { let r = v.v(&name); let n = v.n(0, 2); let xs = (0..n).map(|_| record_value(&mut v)).collect(); let l = v.list(xs); v.nat(Nat::Map, vec![r, l]) }
            10 => { let p = v.s().pick(&objs).0.clone(); let y = v.v(&p); let o = *v.s().pick(&[Op::Eq, Op::Ne, Op::Lt, Op::Ge]); v.bin(o, x, y) }
            11 => {
                // a copy of its own
                let c = v.nat(Nat::Copy, vec![x]);
                let z = v.fresh();
                let l = v.let_(&z, c);
                let (w, y) = (v.v(&z), record_value(&mut v));
                let a = v.e(EK::Assign(Lv::Field(Box::new(w), f), Box::new(y)));
                let a = v.se(a);
                let w = v.v(&z);
                let p = v.show(vec![w]);
                let y = v.v(&o);
                let q = v.show(vec![y]);
                v.ops.push(vec![l, a, p, q]);
                continue;
            }
            12 => { let k = tys[v.n(0, nt - 1)].0.clone(); let r = v.v(&k); if v.chance(1, 2) { v.bin(Op::Is, x, r) } else { let y = v.nat(Nat::TypeOf, vec![x]); v.bin(Op::Eq, y, r) } }
            13 => {
                // several fields at once
                let (p, g) = (v.s().pick(&objs).clone(), v.s().pick(&fs).clone());
                let h = v.s().pick(&tys[p.1].1).clone();
                let y = v.v(&p.0);
                let pats = vec![Pat::Lv(Lv::Field(Box::new(x), g)), Pat::Lv(Lv::Field(Box::new(y), h))];
                let (a, b) = (record_value(&mut v), record_value(&mut v));
                let l = v.list(vec![a, b]);
                let e = v.e(EK::PatAssign(pats, Box::new(l)));
                let e = v.se(e);
                let (y, z) = (v.v(&o), v.v(&p.0));
                let q = v.show(vec![y, z]);
                v.ops.push(vec![e, q]);
                continue;
            }
            14 if !ms.is_empty() => {
                // a method kept as a function, given its arguments in two parts
                let (m, k, this) = v.s().pick(&ms).clone();
                let g = if this { v.e(EK::Field(Box::new(x), m)) } else { let r = v.v(&name); v.e(EK::Field(Box::new(r), m)) };
                let z = v.fresh();
                let l = v.let_(&z, g);
                let i = if k > 1 { v.n(0, k - 1) } else { 0 };
                let mut f = v.v(&z);
                if i > 0 { let mut a = Vec::new(); for _ in 0..i { a.push(record_value(&mut v)); } f = v.call(f, a); }
                let mut a = Vec::new();
                for _ in i..k { a.push(record_value(&mut v)); }
                let e = v.call(f, a);
                let p = v.show(vec![e]);
                let y = v.v(&o);
                let q = v.show(vec![y]);
                v.ops.push(vec![l, p, q]);
                continue;
            }
            _ => { let w = *v.s().pick(&[Nat::Str, Nat::Repr, Nat::Bool, Nat::TypeOf]); v.nat(w, vec![x]) }
        };
        let mut b = vec![v.show(vec![e])];
        if state { for (o, _) in objs.clone() { let y = v.v(&o); b.push(v.show(vec![y])); } }
        v.ops.push(b);
    }
    v.run(cx)
}

fn record_value(v: &mut Vals) -> E {
    match v.s().weighted(&[5, 2, 2, 2, 1, 1]) {
        0 => v.int(),
        1 => v.e(EK::Nil),
        2 => v.str(),
        3 => v.bool(),
        4 => { let x = v.int(); v.list(vec![x]) }
        _ => v.scalar_value(),
    }
}
