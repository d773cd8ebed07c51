//! Assignment in all its forms, and pattern destructuring.

use std::rc::Rc;

use crate::engine::{Cx, Failure, Src};
use crate::model::ast::*;
use crate::model::gen::{Cfg, Gen};
use crate::model::natives::Nat;
use crate::model::ops::Op;

use super::prog::{check, Verdict};

struct As<'a> { g: Gen<'a>, risk: u64, more: Vec<String> }

const STATE: [&str; 12] = ["i0", "i1", "i2", "l0", "l1", "n0", "d0", "o", "o2", "r0", "r1", "s0"];

impl<'a> As<'a> {
    fn traced(&mut self, e: E) -> E {
        if !self.g.s.chance(1, 4) { return e; }
        self.g.traces += 1;
        let k = self.g.traces;
        let (f, k) = (self.g.var("t"), self.g.int_lit(k));
        self.g.call(f, vec![k, e])
    }

    /// an index into a list of about `n` elements
    fn index(&mut self, n: i64) -> E {
        let k = if self.g.s.chance(self.risk, 60) { self.g.s.int(-n - 2, n + 1) } else { let k = self.g.s.int(0, n - 1); if self.g.s.chance(1, 4) { k - n } else { k } };
        let e = self.g.int_lit(k);
        self.traced(e)
    }

    fn name(&mut self, n: &str) -> E { let e = self.g.var(n); self.traced(e) }

    /// A place which holds an integer
    fn place(&mut self) -> Lv {
        match self.g.s.weighted(&[5, 4, 3, 3, 2, 2, 2, 2]) {
            0 => Lv::Var(self.g.s.pick(&["i0", "i1", "i2"]).to_string()),
            1 => { let l = *self.g.s.pick(&["l0", "l1"]); let l = self.name(l); let i = self.index(3); Lv::Index(Box::new(l), Box::new(i)) }
            2 => {
                let a = self.name("n0");
                let i = self.index(2);
                let x = self.g.e(EK::Index(Box::new(a), Box::new(i)));
                let i = self.index(2);
                Lv::Index(Box::new(x), Box::new(i))
            }
            3 => { let o = self.name("o"); let f = *self.g.s.pick(&["p", "q"]); Lv::Field(Box::new(o), f.into()) }
            4 => { let o = self.g.var("o2"); let x = self.g.e(EK::Field(Box::new(o), "q".into())); let x = self.traced(x); let f = *self.g.s.pick(&["p", "q"]); Lv::Field(Box::new(x), f.into()) }
            5 => { let o = self.name("o2"); let x = self.g.e(EK::Field(Box::new(o), "p".into())); let i = self.index(3); Lv::Index(Box::new(x), Box::new(i)) }
            6 => { let d = self.name("d0"); let k = self.g.s.pick(&["a", "b", "c"]).to_string(); let k = self.g.str_lit(&k); Lv::Index(Box::new(d), Box::new(k)) }
            _ => { let i = self.g.s.int(0, 1); let d = self.name("d0"); let i = self.g.int_lit(i); Lv::Index(Box::new(d), Box::new(i)) }
        }
    }

    /// reads a place
    fn read(&mut self) -> E {
        match self.place() {
            Lv::Var(n) => self.g.var(&n),
            Lv::Index(a, i) => self.g.e(EK::Index(a, i)),
            Lv::Field(a, f) => self.g.e(EK::Field(a, f)),
        }
    }

    fn int(&mut self, d: u32) -> E {
        let e = match self.g.s.weighted(&[4, 3, d * 2, d]) {
            0 => { let k = self.g.s.int(0, 20); self.g.int_lit(k) }
            1 => self.read(),
            2 => { let (a, b) = (self.int(d - 1), self.int(d - 1)); let o = *self.g.s.pick(&[Op::Add, Op::Sub, Op::Mul]); self.g.bin(o, a, b) }
            _ => { let e = self.assign(d - 1); self.g.e(EK::Paren(Box::new(e))) }
        };
        self.traced(e)
    }

    /// An assignment expression to an integer
    fn assign(&mut self, d: u32) -> E {
        let l = self.place();
        if self.g.s.chance(2, 5) {
            let o = match self.g.s.weighted(&[8, 2, 2, 2]) {
                0 => AOp::Op(*self.g.s.pick(&[Op::Add, Op::Sub, Op::Mul, Op::And, Op::Or, Op::Xor, Op::Shl, Op::Mod, Op::Div, Op::Shr, Op::Pow])),
                1 => AOp::Min,
                2 => AOp::Max,
                _ => AOp::Comp,
            };
            let v = match o {
                AOp::Comp => { let k = self.g.s.int(0, 9); let k = self.g.int_lit(k); let f = self.g.e(EK::SectL(Box::new(k), Op::Add)); self.traced(f) }
                AOp::Op(Op::Shl | Op::Shr | Op::Pow) => { let k = self.g.s.int(0, 3); let k = self.g.int_lit(k); self.traced(k) }
                _ => self.int(d),
            };
            return self.g.e(EK::OpAssign(l, o, Box::new(v)));
        }
        let v = if d > 0 && self.g.s.chance(1, 3) { self.assign(d - 1) } else { self.int(d) };
        self.g.e(EK::Assign(l, Box::new(v)))
    }

    fn print(&mut self, e: E) -> S { let r = self.g.native(Nat::Repr, vec![e]); let e = self.g.native(Nat::Print, vec![r]); self.g.st(SK::Expr(e)) }

    fn state(&mut self) -> S {
        let mut names: Vec<String> = STATE.iter().map(|s| s.to_string()).collect();
        names.extend(self.more.iter().cloned());
        let v = names.iter().map(|n| self.g.var(n)).collect();
        let l = self.g.list_lit(v);
        self.print(l)
    }

    /// A pattern of places, or of new names
    fn pattern(&mut self, n: usize, d: u32, fresh: &mut Option<Vec<String>>, rests: &mut u32) -> Vec<Pat> {
        let rest = if self.g.s.chance(1, 3) { Some(self.g.s.below(n)) } else { None };
        let mut r = Vec::new();
        for i in 0..n {
            let name = |f: &mut Option<Vec<String>>| -> Option<String> { f.as_mut().map(|f| { let x = format!("{}{}", ["a", "b", "c"][f.len() % 3], f.len()); f.push(x.clone()); x }) };
            if rest == Some(i) {
                r.push(if self.g.s.chance(1, 4) { Pat::Rest(None) } else if let Some(x) = name(fresh) { Pat::Rest(Some(x)) } else { *rests += 1; if *rests > 2 { Pat::Rest(None) } else { Pat::Rest(Some(["r0", "r1"][*rests as usize - 1].into())) } });
                continue;
            }
            r.push(match self.g.s.weighted(&[6, 2, d * 3]) {
                0 => Pat::Lv(match name(fresh) { Some(x) => Lv::Var(x), None => self.place() }),
                1 => Pat::Discard,
                _ => {
                    let k = 1 + self.g.s.below(3);
                    let mut q = self.pattern(k, d - 1, fresh, rests);
                    // `(*x)` in an expression is an operator section
                    if fresh.is_none() && matches!(q[..], [Pat::Rest(_)]) { q.push(Pat::Lv(self.place())); }
                    Pat::Nest(q)
                }
            });
        }
        r
    }

    /// Whether anything is stored
    fn useful(p: &[Pat]) -> bool { p.iter().all(|x| match x { Pat::Nest(q) => Self::useful(q), _ => true }) && p.iter().any(|x| !matches!(x, Pat::Discard | Pat::Rest(None))) }

    /// A value which a pattern takes apart
    fn matching(&mut self, p: &[Pat], d: u32) -> E {
        let wrong = self.g.s.chance(self.risk, 80);
        let simple = p.iter().all(|x| !matches!(x, Pat::Nest(_)));
        let fixed = p.iter().filter(|x| !matches!(x, Pat::Rest(_))).count();
        let rest = fixed < p.len();
        if simple && !wrong && self.g.s.chance(1, 5) {
            // something which already exists
            if fixed == 3 || rest && fixed <= 3 { let n = *self.g.s.pick(&["l0", "l1"]); return self.name(n); }
            if fixed == 2 { let i = self.index(2); let n = self.g.var("n0"); return self.g.e(EK::Index(Box::new(n), Box::new(i))); }
        }
        let mut v: Vec<E> = Vec::new();
        for x in p {
            match x {
                Pat::Nest(q) => { let e = self.matching(q, d); v.push(e); }
                Pat::Rest(_) => { let k = self.g.s.below(4); for _ in 0..k { v.push(self.int(0)); } }
                _ => v.push(self.int(d)),
            }
        }
        if wrong { if self.g.s.chance(1, 2) { v.push(self.g.int_lit(99)); v.push(self.g.int_lit(98)); } else { v.pop(); } }
        match self.g.s.weighted(&[5, 5, simple as u32, simple as u32]) {
            0 => self.g.list_lit(v),
            1 => { let v = v.into_iter().map(Arg::E).collect::<Vec<_>>(); if v.is_empty() { self.g.native(Nat::Vector, vec![]) } else { self.g.e(EK::Vector(v)) } }
            2 => { let n = v.len() as i64; let n = self.g.int_lit(n); self.g.native(Nat::Range, vec![n]) }
            _ => { let s: String = "bcdefghij".chars().take(v.len()).collect(); self.g.str_lit(&s) }
        }
    }

    /// A function around an expression, called at once
    fn wrapped(&mut self, b: Vec<S>) -> E {
        let id = self.g.uid();
        let f = self.g.e(EK::Lambda(Rc::new(FnDef { id, name: "_".into(), params: vec![], body: Body::Block(b) })));
        let f = self.g.e(EK::Paren(Box::new(f)));
        self.g.call(f, vec![])
    }

    fn stmt(&mut self, out: &mut Vec<S>) {
        match self.g.s.weighted(&[4, 4, 4, 2, 2, 2, 2, 2]) {
            0 => { let e = self.assign(2); out.push(self.g.st(SK::Expr(e))); }
            1 => { let e = self.assign(2); let e = self.g.e(EK::Paren(Box::new(e))); out.push(self.print(e)); }
            2 => {
                let n = 2 + self.g.s.below(3);
                let mut rests = 0;
                let mut p = self.pattern(n, 2, &mut None, &mut rests);
                // `*` at the start would continue the previous line
                if let Pat::Rest(_) = p[0] { p.rotate_left(1); }
                if !Self::useful(&p) { return; }
                let v = self.matching(&p, 1);
                let e = self.g.e(EK::PatAssign(p, Box::new(v)));
                let s = self.g.st(SK::Expr(e));
                if self.g.s.chance(1, 4) {
                    // its value is what was taken apart
                    let e = self.wrapped(vec![s]);
                    out.push(self.print(e));
                } else { out.push(s); }
            }
            3 => {
                // new names, in a scope of their own
                let n = 2 + self.g.s.below(3);
                let mut names = Some(vec![]);
                let p = self.pattern(n, 2, &mut names, &mut 0);
                if !Self::useful(&p) { return; }
                let names = names.unwrap();
                let v = self.matching(&p, 1);
                let s = self.g.st(SK::Let(vec![(p, Some(v))]));
                let vs = names.iter().map(|n| self.g.var(n)).collect();
                let l = self.g.list_lit(vs);
                let pr = self.print(l);
                if self.g.s.chance(1, 2) {
                    let id = self.g.uid();
                    let f = format!("f{}", id);
                    out.push(self.g.st(SK::Fn(Rc::new(FnDef { id, name: f.clone(), params: vec![], body: Body::Block(vec![s, pr]) }), vec![])));
                    let f = self.g.var(&f);
                    let e = self.g.call(f, vec![]);
                    out.push(self.g.st(SK::Expr(e)));
                } else {
                    let c = self.g.e(EK::Bool(true));
                    out.push(self.g.st(SK::If(vec![(c, vec![s, pr])], None)));
                }
            }
            4 => {
                let n = 2 + self.g.s.below(2);
                let mut names = Some(vec![]);
                let p = self.pattern(n, 1, &mut names, &mut 0);
                if !Self::useful(&p) { return; }
                let names = names.unwrap();
                let k = 1 + self.g.s.below(3);
                let vs = (0..k).map(|_| self.matching(&p, 0)).collect();
                let it = self.g.list_lit(vs);
                let vs = names.iter().map(|n| self.g.var(n)).collect();
                let l = self.g.list_lit(vs);
                let mut b = vec![self.print(l)];
                // the variables of an iteration are its own
                if let Some(n) = names.first() { let v = self.g.int_lit(77); let e = self.g.e(EK::Assign(Lv::Var(n.clone()), Box::new(v))); b.push(self.g.st(SK::Expr(e))); }
                out.push(self.g.st(SK::For(p, it, b, None)));
            }
            5 => {
                // parameters
                let mut names = Some(vec![]);
                let k = 1 + self.g.s.below(3);
                let mut params = Vec::new();
                let mut args = Vec::new();
                let mut defaults = false;
                for _ in 0..k {
                    let n = 2 + self.g.s.below(2);
                    let nested = self.g.s.chance(2, 3);
                    let p = if nested { self.pattern(n, 1, &mut names, &mut 0) } else { let f = names.as_mut().unwrap(); let x = format!("v{}", f.len()); f.push(x.clone()); vec![Pat::Lv(Lv::Var(x))] };
                    let v = if nested { self.matching(&p, 0) } else { self.int(0) };
                    if !Self::useful(&p) { return; }
                    let pat = if nested { Pat::Nest(p) } else { p.into_iter().next().unwrap() };
                    if defaults || self.g.s.chance(1, 5) { defaults = true; params.push(Param { pat, k: PK::Def(v) }); } else { params.push(Param { pat, k: PK::Req }); args.push(v); }
                }
                let vs = names.unwrap().iter().map(|n| self.g.var(n)).collect();
                let l = self.g.list_lit(vs);
                let id = self.g.uid();
                let f = self.g.e(EK::Lambda(Rc::new(FnDef { id, name: "_".into(), params, body: Body::Expr(l) })));
                let f = self.g.e(EK::Paren(Box::new(f)));
                let e = self.g.call(f, args);
                out.push(self.print(e));
            }
            6 => {
                // exchange of two places
                let (a, b) = (self.place(), self.place());
                let (x, y) = (self.again(&b), self.again(&a));
                let v = self.g.e(EK::Vector(vec![Arg::E(x), Arg::E(y)]));
                let e = self.g.e(EK::PatAssign(vec![Pat::Lv(a), Pat::Lv(b)], Box::new(v)));
                out.push(self.g.st(SK::Expr(e)));
            }
            _ => {
                if self.g.s.chance(1, 2) { return self.shared(out); }
                // whole collections
                let n = *self.g.s.pick(&["l0", "l1", "s0"]);
                let m = *self.g.s.pick(&["l0", "l1"]);
                let e = if self.g.s.chance(1, 2) { self.g.var(m) } else { let v = (0..3).map(|_| self.int(0)).collect(); self.g.list_lit(v) };
                let o = self.g.e(EK::Assign(Lv::Var(n.into()), Box::new(e)));
                out.push(self.g.st(SK::Expr(o)));
            }
        }
    }

    /// A place which holds a list
    fn list_place(&mut self) -> Lv {
        match self.g.s.below(4) {
            0 | 1 => Lv::Var(self.g.s.pick(&["l0", "l1", "s0"]).to_string()),
            2 => { let a = self.name("n0"); let i = self.index(2); Lv::Index(Box::new(a), Box::new(i)) }
            _ => { let o = self.name("o2"); Lv::Field(Box::new(o), "p".into()) }
        }
    }

    fn list_value(&mut self) -> E {
        match self.g.s.below(3) {
            0 => { let k = *self.g.s.pick(&[10, 20, 30, 32, 52]); let n = if k == 30 || k == 32 { 2 } else { 3 }; let v = (0..n).map(|i| self.g.int_lit(k + i)).collect(); self.g.list_lit(v) }
            _ => match self.list_place() { Lv::Var(n) => self.g.var(&n), Lv::Index(a, i) => self.g.e(EK::Index(a, i)), Lv::Field(a, f) => self.g.e(EK::Field(a, f)) }
        }
    }

    /// Which of two lists a place holds afterwards, although they may be equal: one of them is changed
    fn shared(&mut self, out: &mut Vec<S>) {
        let l = self.list_place();
        let equal = self.g.s.chance(1, 2);
        let v = if equal {
            // two equal lists, both of which remain visible
            let x = *self.g.s.pick(&["l0", "l1", "s0"]);
            let a = self.g.list_lit(vec![]);
            let e = self.g.e(EK::Assign(Lv::Var(x.into()), Box::new(a)));
            out.push(self.g.st(SK::Expr(e)));
            let a = self.g.list_lit(vec![]);
            let p = match &l { Lv::Var(n) => Lv::Var(n.clone()), Lv::Index(a, i) => Lv::Index(Box::new(self.dup(a)), Box::new(self.dup(i))), Lv::Field(a, f) => Lv::Field(Box::new(self.dup(a)), f.clone()) };
            let e = self.g.e(EK::Assign(p, Box::new(a)));
            out.push(self.g.st(SK::Expr(e)));
            self.g.var(x)
        } else { self.list_value() };
        let v = self.traced(v);
        let e = match self.g.s.below(5) {
            0 => EK::Assign(l, Box::new(v)),
            1 => EK::OpAssign(l, AOp::Max, Box::new(v)),
            2 => EK::OpAssign(l, AOp::Min, Box::new(v)),
            3 => EK::OpAssign(l, AOp::Op(Op::Add), Box::new(v)),
            _ => { let k = self.g.int_lit(7); let p = self.g.native(Nat::Push, vec![k]); EK::OpAssign(l, AOp::Comp, Box::new(p)) }
        };
        let e = self.g.e(e);
        out.push(self.g.st(SK::Expr(e)));
        let k = self.g.int_lit(8);
        let v = self.list_value();
        let e = self.g.native(Nat::Push, vec![k, v]);
        out.push(self.g.st(SK::Expr(e)));
    }

    /// the same place, evaluated again
    fn again(&mut self, l: &Lv) -> E {
        match l {
            Lv::Var(n) => self.g.var(n),
            Lv::Index(a, i) => { let (a, i) = (self.dup(a), self.dup(i)); self.g.e(EK::Index(Box::new(a), Box::new(i))) }
            Lv::Field(a, f) => { let a = self.dup(a); self.g.e(EK::Field(Box::new(a), f.clone())) }
        }
    }

    fn dup(&mut self, e: &E) -> E {
        match &e.k {
            EK::Int(i) => self.g.int_lit(*i),
            EK::Str(s) => self.g.str_lit(s),
            EK::Var(n) => self.g.var(n),
            EK::Call(_, a) => self.dup(a[1].e()),
            EK::Index(a, i) => { let (a, i) = (self.dup(a), self.dup(i)); self.g.e(EK::Index(Box::new(a), Box::new(i))) }
            EK::Field(a, f) => { let a = self.dup(a); self.g.e(EK::Field(Box::new(a), f.clone())) }
            _ => self.g.int_lit(0),
        }
    }
}

pub fn run(s: &mut Src, cx: &mut Cx) -> Result<(), Failure> {
    let g = Gen::new(s, Cfg::default());
    let mut c = As { g, risk: 1, more: vec![] };
    if c.g.s.chance(3, 5) { c.risk = 0; }
    let mut prog = vec![c.g.tracer()];
    prog.push(c.g.st(SK::Struct("S".into(), vec!["p".into(), "q".into()], vec![])));
    let ints = |g: &mut Gen, v: &[i64]| { let v = v.iter().map(|i| g.int_lit(*i)).collect(); g.list_lit(v) };
    let how = c.g.s.weighted(&[4, 3, 2]);
    let mut body = Vec::new();
    let g = &mut c.g;
    let mut decl = |g: &mut Gen, n: &str, e: E| { body.push(g.st(SK::Let(vec![(vec![Pat::Lv(Lv::Var(n.into()))], Some(e))]))); };
    for (n, k) in [("i0", 1), ("i1", 2), ("i2", 3)] { let e = g.int_lit(k); decl(g, n, e); }
    let e = ints(g, &[10, 11, 12]);
    decl(g, "l0", e);
    let e = if g.s.chance(1, 3) { g.var("l0") } else { ints(g, &[20, 21, 22]) };
    decl(g, "l1", e);
    let (x, y) = (ints(g, &[30, 31]), ints(g, &[32, 33]));
    let e = g.list_lit(vec![x, y]);
    decl(g, "n0", e);
    let mut pairs = Vec::new();
    for k in ["a", "b"] { let a = g.str_lit(k); let b = g.int_lit(5); pairs.push(DArg::Pair(a, b)); }
    for k in 0..2 { let a = g.int_lit(k); let b = g.int_lit(6); pairs.push(DArg::Pair(a, b)); }
    let e = g.e(EK::Dict(pairs));
    decl(g, "d0", e);
    let (f, a, b) = (g.var("S"), g.int_lit(40), g.int_lit(41));
    let e = g.call(f, vec![a, b]);
    decl(g, "o", e);
    let (f, f2, a, b) = (g.var("S"), g.var("S"), g.int_lit(50), g.int_lit(51));
    let l = if g.s.chance(1, 3) { g.var("l0") } else { ints(g, &[52, 53, 54]) };
    let inner = if g.s.chance(1, 3) { g.var("o") } else { g.call(f2, vec![a, b]) };
    let e = g.call(f, vec![l, inner]);
    decl(g, "o2", e);
    for n in ["r0", "r1", "s0"] { let e = ints(g, &[]); decl(g, n, e); }
    let declared = body.len();
    let n = 1 + c.g.s.below(6);
    for _ in 0..n { c.stmt(&mut body); if c.g.s.chance(1, 2) { let s = c.state(); body.push(s); } }
    let s = c.state();
    body.push(s);
    if how == 2 {
        // a function before the variables it uses, which are declared in some order
        let rest = body.split_off(declared);
        let id = c.g.uid();
        prog.push(c.g.st(SK::Fn(Rc::new(FnDef { id, name: "main".into(), params: vec![], body: Body::Block(rest) }), vec![])));
        let name = |s: &S| match &s.k { SK::Let(v) => match &v[0].0[0] { Pat::Lv(Lv::Var(n)) => n.clone(), _ => unreachable!() }, _ => unreachable!() };
        while !body.is_empty() {
            let names: Vec<String> = body.iter().map(name).collect();
            let ready: Vec<usize> = (0..names.len()).filter(|i| match names[*i].as_str() { "l1" => !names.contains(&"l0".to_string()), "o2" => !names.iter().any(|n| n == "l0" || n == "o"), _ => true }).collect();
            let i = *c.g.s.pick(&ready);
            prog.push(body.remove(i));
        }
        let f = c.g.var("main");
        let e = c.g.call(f, vec![]);
        prog.push(c.g.st(SK::Expr(e)));
    } else if how == 1 {
        // all variables local to a function
        let id = c.g.uid();
        prog.push(c.g.st(SK::Fn(Rc::new(FnDef { id, name: "main".into(), params: vec![], body: Body::Block(body) }), vec![])));
        let f = c.g.var("main");
        let e = c.g.call(f, vec![]);
        prog.push(c.g.st(SK::Expr(e)));
    } else { prog.extend(body); }
    match check(&prog, Style::default(), 0, cx)? {
        Verdict::Discard => return cx.discard(),
        Verdict::Ok { failed } => { cx.label(if failed { "ends in an error" } else { "ends normally" }); cx.nontrivial = true; }
    }
    Ok(())
}
