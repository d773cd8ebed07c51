//! Generation of well-scoped, mostly well-typed programs.

use std::rc::Rc;

use super::ast::*;
use super::natives::Nat;
use super::ops::{Op, Un};
use crate::engine::Src;

#[derive(Clone, PartialEq, Debug)]
pub enum Ty { Any, Nil, Bool, Int, Str, List(Box<Ty>), Vect(Box<Ty>), Set(Box<Ty>), Dict(Box<Ty>, Box<Ty>), Fn(Rc<Sig>), Struct(usize) }

#[derive(Clone, PartialEq, Debug)]
pub enum PKind { Req, Opt, Def, Var }

#[derive(PartialEq, Debug)]
pub struct Sig { pub ps: Vec<(Ty, PKind)>, pub ret: Ty }

#[derive(Clone)]
pub struct Var { pub name: String, pub ty: Ty, pub mutable: bool, /** may only be used inside functions */ pub late: bool }

#[derive(Clone, Default)]
pub struct Scope { pub vars: Vec<Var>, pub names: Vec<String>, pub func: bool }

#[derive(Clone)]
pub struct StructInfo { pub name: String, pub fields: Vec<(String, Ty)>, pub methods: Vec<(String, Rc<Sig>, bool)>, pub module: bool, pub ready: bool }

/// Relative weights of what a program is made of
#[derive(Clone)]
pub struct Cfg {
    pub trace: u32,
    /// out of 1000: use of an expression of some other type
    pub wild: u32,
    /// out of 100: use of operations which may well fail
    pub risk: u32,
    pub closures: u32,
    pub calls: u32,
    pub patterns: u32,
    pub structs: u32,
    pub loops: u32,
    pub assigns: u32,
    pub consts: u32,
    pub library: u32,
    pub budget: i32,
}

impl Default for Cfg {
    fn default() -> Cfg { Cfg { trace: 3, wild: 2, risk: 6, closures: 3, calls: 4, patterns: 2, structs: 1, loops: 4, assigns: 3, consts: 1, library: 3, budget: 60 } }
}

pub struct Gen<'a> {
    pub s: &'a mut Src,
    pub cfg: Cfg,
    pub id: Id,
    pub scopes: Vec<Scope>,
    pub structs: Vec<StructInfo>,
    pub budget: i32,
    pub traces: i64,
    pub loops: u32,
    pub fn_depth: u32,
    pub ret: Option<Ty>,
    /// the struct whose methods are being generated, if any
    pub this: Option<usize>,
    pub has_self: bool,
    pub fresh: usize,
    /// no assignment to any variable (condition of a ternary...)
    pub in_loop_fn: bool,
    pub risky: bool,
}

pub const NAMES: [&str; 10] = ["a", "b", "c", "d", "e", "f", "g", "h", "x", "y"];

pub fn fun(ps: Vec<Ty>, ret: Ty) -> Ty { Ty::Fn(Rc::new(Sig { ps: ps.into_iter().map(|t| (t, PKind::Req)).collect(), ret })) }

impl<'a> Gen<'a> {
    pub fn new(s: &'a mut Src, cfg: Cfg) -> Gen<'a> {
        let budget = cfg.budget;
        Gen { s, cfg, id: 0, scopes: vec![Scope::default()], structs: Vec::new(), budget, traces: 0, loops: 0, fn_depth: 0, ret: None, this: None, has_self: false, fresh: 0, in_loop_fn: false, risky: false }
    }

    pub fn e(&mut self, k: EK) -> E { self.id += 1; E { id: self.id, k } }
    pub fn st(&mut self, k: SK) -> S { self.id += 1; S { id: self.id, k } }
    pub fn uid(&mut self) -> Id { self.id += 1; self.id }
    pub fn var(&mut self, n: &str) -> E { self.e(EK::Var(n.to_string())) }
    pub fn nat(&mut self, n: Nat) -> E { self.e(EK::Nat(n)) }
    pub fn call(&mut self, f: E, a: Vec<E>) -> E { let a = a.into_iter().map(Arg::E).collect(); self.e(EK::Call(Box::new(f), a)) }
    pub fn native(&mut self, n: Nat, a: Vec<E>) -> E { let f = self.nat(n); self.call(f, a) }
    pub fn bin(&mut self, o: Op, a: E, b: E) -> E { self.e(EK::Bin(o, Box::new(a), Box::new(b))) }
    pub fn int_lit(&mut self, i: i64) -> E { self.e(EK::Int(i)) }
    pub fn str_lit(&mut self, s: &str) -> E { self.e(EK::Str(s.to_string())) }
    pub fn list_lit(&mut self, v: Vec<E>) -> E { let v = v.into_iter().map(Arg::E).collect(); self.e(EK::List(v)) }

    // ===== scopes ===== //

    pub fn push(&mut self, func: bool) { self.scopes.push(Scope { func, ..Scope::default() }) }
    pub fn pop(&mut self) { self.scopes.pop(); }

    fn taken(&self, n: &str) -> bool {
        // names in this scope, and in that of the parameters
        let k = self.scopes.len() - 1;
        if self.scopes[k].names.iter().any(|x| x == n) { return true; }
        if k > 0 && self.scopes[k - 1].func && !self.scopes[k].func { return self.scopes[k - 1].names.iter().any(|x| x == n); }
        false
    }

    pub fn new_name(&mut self) -> String {
        let k = self.s.below(NAMES.len());
        for i in 0..NAMES.len() {
            let n = NAMES[(k + i) % NAMES.len()];
            if !self.taken(n) { self.scopes.last_mut().unwrap().names.push(n.to_string()); return n.to_string(); }
        }
        self.fresh_name("v")
    }
    pub fn fresh_name(&mut self, p: &str) -> String {
        self.fresh += 1;
        let n = format!("{}{}", p, self.fresh);
        self.scopes.last_mut().unwrap().names.push(n.clone());
        n
    }
    pub fn add(&mut self, name: &str, ty: Ty, mutable: bool) { self.scopes.last_mut().unwrap().vars.push(Var { name: name.to_string(), ty, mutable, late: false }); }

    /// Variables which can be named here: not shadowed by another declaration
    pub fn visible(&self) -> Vec<Var> {
        let mut seen: Vec<&str> = Vec::new();
        let mut r = Vec::new();
        for (i, sc) in self.scopes.iter().enumerate().rev() {
            for v in sc.vars.iter().rev() {
                if seen.contains(&v.name.as_str()) { continue; }
                if i == 0 {
                    if let Some(t) = self.this {
                        let t = &self.structs[t];
                        if t.fields.iter().any(|f| f.0 == v.name) || t.methods.iter().any(|m| m.0 == v.name) { continue; }
                    }
                }
                seen.push(&v.name);
                if v.late && self.fn_depth == 0 { continue; }
                r.push(v.clone());
            }
            for n in &sc.names { if !seen.contains(&n.as_str()) { seen.push(n); } }
        }
        r
    }

    fn vars_of(&self, t: &Ty) -> Vec<Var> { self.visible().into_iter().filter(|v| v.ty == *t).collect() }
    fn mutable_of(&self, t: &Ty) -> Vec<Var> { self.visible().into_iter().filter(|v| v.ty == *t && v.mutable).collect() }
    fn fns_to(&self, t: &Ty) -> Vec<(String, Rc<Sig>)> {
        self.visible().into_iter().filter_map(|v| match v.ty { Ty::Fn(s) if s.ret == *t => Some((v.name, s)), _ => None }).collect()
    }

    // ===== types ===== //

    pub fn simple_ty(&mut self) -> Ty { match self.s.weighted(&[5, 3, 2, 1]) { 0 => Ty::Int, 1 => Ty::Str, 2 => Ty::Bool, _ => Ty::Nil } }

    pub fn ty(&mut self, d: u32) -> Ty {
        if d == 0 { return self.simple_ty(); }
        let live: Vec<usize> = (0..self.structs.len()).filter(|i| self.structs[*i].ready && !self.structs[*i].module).collect();
        let w = [8, 3, 2, 1, 1, self.cfg.closures, if live.is_empty() { 0 } else { self.cfg.structs * 2 }];
        match self.s.weighted(&w) {
            0 => self.simple_ty(),
            1 => Ty::List(Box::new(self.ty(d - 1))),
            2 => Ty::Vect(Box::new(self.simple_ty())),
            3 => Ty::Set(Box::new(self.simple_key())),
            4 => { let k = self.simple_key(); Ty::Dict(Box::new(k), Box::new(self.simple_ty())) }
            5 => { let n = self.s.below(3); let ps = (0..n).map(|_| self.simple_ty()).collect(); fun(ps, self.simple_ty_nn()) }
            _ => Ty::Struct(*self.s.pick(&live)),
        }
    }
    fn simple_ty_nn(&mut self) -> Ty { match self.s.weighted(&[4, 2, 1]) { 0 => Ty::Int, 1 => Ty::Str, _ => Ty::Bool } }
    fn simple_key(&mut self) -> Ty { if self.s.chance(1, 3) { Ty::Str } else { Ty::Int } }

    // ===== expressions ===== //

    pub fn int_value(&mut self) -> i64 {
        match self.s.weighted(&[12, 4, 2, 1]) {
            0 => self.s.int(0, 9),
            1 => self.s.int(-20, 120),
            2 => { let k = self.s.int(0, 61); let x = 1i64 << k; *self.s.pick(&[x, -x, x - 1, x + 1]) }
            _ => *self.s.pick(&[super::value::MAX_INT, super::value::MIN_INT + 1, super::value::MAX_INT - 1, -1, 255, 256, 1 << 32]),
        }
    }

    pub fn str_value(&mut self) -> String {
        match self.s.weighted(&[6, 3, 2, 1]) {
            0 => self.s.pick(&["a", "b", "ab", "xyz", "", "12", "hello"]).to_string(),
            1 => { let n = self.s.below(5); (0..n).map(|_| *self.s.pick(&['a', 'b', 'c', ' ', 'é', '€', '𝕏', '0'])).collect() }
            2 => self.s.pick(&["é€", "tab\t", "line\nbreak", "back\\slash", "日本", "%", "x,y", "-5"]).to_string(),
            _ => self.s.pick(&["it's", "\"q\"", "// not", "#"]).to_string(),
        }
    }

    pub fn literal(&mut self, t: &Ty, d: u32) -> E {
        match t {
            Ty::Nil => self.e(EK::Nil),
            Ty::Bool => { let b = self.s.chance(1, 2); self.e(EK::Bool(b)) }
            Ty::Int => { let i = self.int_value(); self.e(EK::Int(i)) }
            Ty::Str => { let v = self.str_value(); self.e(EK::Str(v)) }
            Ty::Any => { let t = self.simple_ty(); self.literal(&t, d) }
            Ty::List(t) => {
                let n = self.s.weighted(&[3, 3, 3, 2, 1]);
                let mut a = self.elems(t, n, d);
                if d > 0 && self.s.chance(1, 8) { let l = self.expr(&Ty::List(t.clone()), d - 1); let id = self.uid(); let at = self.s.below(a.len() + 1); a.insert(at, Arg::Unroll(id, l)); }
                self.e(EK::List(a))
            }
            Ty::Vect(t) => { let n = 2 + self.s.weighted(&[4, 2, 1]); let a = self.elems(t, n, d); self.e(EK::Vector(a)) }
            Ty::Set(t) => { let n = 1 + self.s.weighted(&[2, 3, 2, 1]); let a = self.elems(t, n, d); self.e(EK::Set(a)) }
            Ty::Dict(k, v) => {
                let n = self.s.weighted(&[1, 3, 3, 1]);
                let mut a = Vec::new();
                for _ in 0..n { let k = self.sub(k, d); let v = self.sub(v, d); a.push(DArg::Pair(k, v)); }
                if a.is_empty() { return self.native(Nat::Dict, vec![]); }
                self.e(EK::Dict(a))
            }
            Ty::Fn(sig) => self.function(&sig.clone(), d),
            Ty::Struct(i) => {
                let i = *i;
                let f = self.struct_ref(i);
                let tys: Vec<Ty> = self.structs[i].fields.iter().map(|f| f.1.clone()).collect();
                let a = tys.iter().map(|t| self.sub(t, d)).collect();
                self.call(f, a)
            }
        }
    }

    pub fn struct_ref(&mut self, i: usize) -> E { let n = self.structs[i].name.clone(); self.var(&n) }

    fn elems(&mut self, t: &Ty, n: usize, d: u32) -> Vec<Arg> { (0..n).map(|_| Arg::E(self.sub(t, d))).collect() }
    pub fn sub(&mut self, t: &Ty, d: u32) -> E { if d == 0 { self.atom(t) } else { self.expr(t, d - 1) } }

    pub fn atom(&mut self, t: &Ty) -> E {
        let vs = if *t == Ty::Any { self.visible().into_iter().filter(|v| !matches!(v.ty, Ty::Fn(_))).collect() } else { self.vars_of(t) };
        if !vs.is_empty() && self.s.chance(2, 3) { let v = self.s.pick(&vs).name.clone(); return self.var(&v); }
        self.literal(t, 0)
    }

    /// A function value with the given signature
    pub fn function(&mut self, sig: &Rc<Sig>, d: u32) -> E {
        let simple: Vec<Ty> = sig.ps.iter().map(|p| p.0.clone()).collect();
        let vs = self.vars_of(&Ty::Fn(sig.clone()));
        if !vs.is_empty() && self.s.chance(1, 3) { let v = self.s.pick(&vs).name.clone(); return self.var(&v); }
        // partial application of another function
        if d > 0 && self.s.chance(1, 6) {
            let cands: Vec<(String, Rc<Sig>)> = self.fns_to(&sig.ret).into_iter().filter(|(_, s)| s.ps.len() > simple.len() && s.ps.iter().all(|p| p.1 == PKind::Req) && s.ps[s.ps.len() - simple.len()..].iter().map(|p| &p.0).eq(simple.iter())).collect();
            if !cands.is_empty() {
                let (n, s) = self.s.pick(&cands).clone();
                let k = s.ps.len() - simple.len();
                let args = s.ps[..k].iter().map(|p| self.sub(&p.0, d)).collect();
                let f = self.var(&n);
                return self.call(f, args);
            }
        }
        if self.s.chance(1, 3) {
            match (&simple[..], &sig.ret) {
                ([Ty::Int], Ty::Int) => { let o = *self.s.pick(&[Op::Add, Op::Sub, Op::Mul, Op::And, Op::Or, Op::Xor]); return self.section(o, Ty::Int, d); }
                ([Ty::Int], Ty::Bool) => { let o = *self.s.pick(&[Op::Lt, Op::Gt, Op::Le, Op::Ge, Op::Eq, Op::Ne]); return self.section(o, Ty::Int, d); }
                ([Ty::Str], Ty::Str) => { if self.s.chance(1, 3) { let n = *self.s.pick(&[Nat::ToUpper, Nat::Trim, Nat::Repr]); return self.nat(n); } return self.section(Op::Add, Ty::Str, d); }
                ([Ty::Int, Ty::Int], Ty::Int) => { let o = *self.s.pick(&[Op::Add, Op::Sub, Op::Mul, Op::Xor]); return if self.s.chance(1, 4) { let n = *self.s.pick(&[Nat::Min, Nat::Max]); self.nat(n) } else { self.e(EK::OpFn(o)) }; }
                ([Ty::Str], Ty::Int) => return self.nat(Nat::Len),
                ([Ty::Int], Ty::Str) => return self.nat(Nat::Str),
                _ => {}
            }
        }
        let d = self.lambda(sig, "_", d);
        self.e(EK::Lambda(d))
    }

    fn section(&mut self, o: Op, t: Ty, d: u32) -> E {
        let x = self.sub(&t, d.min(1));
        if o != Op::Sub && self.s.chance(1, 2) { self.e(EK::SectR(o, Box::new(x))) } else if o != Op::Sub { self.e(EK::SectL(Box::new(x), o)) } else { let f = self.e(EK::OpFn(o)); self.call(f, vec![x]) }
    }

    /// Parameters and body for a signature
    pub fn lambda(&mut self, sig: &Rc<Sig>, name: &str, d: u32) -> Rc<FnDef> {
        let id = self.uid();
        // defaults are evaluated outside of the scope of the parameters
        let mut kinds = Vec::new();
        self.fn_depth += 1;
        let (loops, ret) = (std::mem::replace(&mut self.loops, 0), self.ret.replace(sig.ret.clone()));
        for (t, k) in &sig.ps {
            kinds.push(match k { PKind::Req => PK::Req, PKind::Opt => PK::Opt, PKind::Var => PK::Var, PKind::Def => PK::Def(self.sub(t, d.min(1))) });
        }
        self.push(true);
        let mut params = Vec::new();
        for ((t, pk), k) in sig.ps.iter().zip(kinds) {
            let pat = match (t, pk) {
                (Ty::Vect(e), PKind::Req | PKind::Def) if self.s.chance(self.cfg.patterns as u64, 8) => {
                    // elements are at least two
                    let a = self.new_name();
                    let b = self.fresh_name("r");
                    self.add(&a, (**e).clone(), true);
                    self.add(&b, Ty::Vect(e.clone()), true);
                    Pat::Nest(vec![Pat::Lv(Lv::Var(a)), Pat::Rest(Some(b))])
                }
                _ => {
                    let n = self.new_name();
                    let vt = match pk { PKind::Req | PKind::Def => t.clone(), PKind::Opt => Ty::Any, PKind::Var => Ty::Vect(Box::new(t.clone())) };
                    self.add(&n, vt, true);
                    Pat::Lv(Lv::Var(n))
                }
            };
            params.push(Param { pat, k });
        }
        self.budget -= 2;
        let body = if d == 0 || self.budget <= 0 || self.s.chance(1, 2) {
            Body::Expr(self.expr(&sig.ret, d.min(2)))
        } else {
            self.push(false);
            let n = self.s.weighted(&[1, 3, 2, 1]);
            let mut b = self.stmts(n, d - 1);
            let e = self.expr(&sig.ret, d.min(2));
            let s = if self.s.chance(1, 4) { self.st(SK::Return(Some(e))) } else { self.st(SK::Expr(e)) };
            b.push(s);
            self.pop();
            Body::Block(b)
        };
        self.pop();
        self.fn_depth -= 1;
        self.loops = loops;
        self.ret = ret;
        Rc::new(FnDef { id, name: name.to_string(), params, body })
    }

    /// Arguments for a call which evaluates
    pub fn call_args(&mut self, sig: &Sig, d: u32) -> Vec<Arg> {
        let mut r: Vec<E> = Vec::new();
        for (t, k) in &sig.ps {
            match k {
                PKind::Req => r.push(self.sub(t, d)),
                PKind::Opt | PKind::Def => { if self.s.chance(1, 2) { break; } r.push(self.sub(t, d)); }
                PKind::Var => { let n = self.s.below(4); for _ in 0..n { r.push(self.sub(t, d)); } }
            }
        }
        if self.s.chance(1, 10) {
            // some of them unrolled
            let n = self.s.below(r.len() + 1);
            let tail: Vec<E> = r.split_off(n);
            let mut a: Vec<Arg> = r.into_iter().map(Arg::E).collect();
            let l = self.list_lit(tail);
            let id = self.uid();
            a.push(Arg::Unroll(id, l));
            return a;
        }
        r.into_iter().map(Arg::E).collect()
    }

    /// Calls a function in some style
    pub fn apply(&mut self, f: E, sig: &Sig, d: u32) -> E {
        let mut a = self.call_args(sig, d);
        if a.len() == 1 && matches!(a[0], Arg::E(_)) {
            match self.s.weighted(&[4, 2, 1]) {
                1 => { let Some(Arg::E(x)) = a.pop() else { unreachable!() }; return self.e(EK::Comp(Box::new(x), Box::new(f))); }
                2 => {
                    if let Arg::E(x) = &a[0] { if matches!(&x.k, EK::Var(n) if n != "self") || matches!(x.k, EK::Str(_) | EK::Bool(_) | EK::Nat(_)) || matches!(x.k, EK::Int(i) if i >= 0) { let Some(Arg::E(x)) = a.pop() else { unreachable!() }; return self.e(EK::Bare(Box::new(f), Box::new(x))); } }
                }
                _ => {}
            }
        }
        let req = sig.ps.iter().filter(|p| p.1 == PKind::Req).count();
        if a.len() > 1 && req == a.len() && a.iter().all(|x| matches!(x, Arg::E(_))) && self.s.chance(1, 6) {
            // one after the other
            let k = 1 + self.s.below(a.len() - 1);
            let tail = a.split_off(k);
            let p = self.e(EK::Call(Box::new(f), a));
            return self.e(EK::Call(Box::new(p), tail));
        }
        self.e(EK::Call(Box::new(f), a))
    }

    pub fn expr(&mut self, t: &Ty, d: u32) -> E {
        self.budget -= 1;
        if self.cfg.wild > 0 && self.s.chance(self.cfg.wild as u64, 1000) { let t2 = self.ty(1); return self.expr1(&t2, d); }
        self.expr1(t, d)
    }

    fn expr1(&mut self, t: &Ty, d: u32) -> E {
        if d == 0 || self.budget <= 0 { return self.atom(t); }
        if !self.s.chance(5, 7) { return self.atom(t); }
        if let Ty::Any = t { let t2 = self.ty(1); if let Ty::Fn(_) = t2 { return self.atom(t); } return self.expr1(&t2, d); }
        let c = &self.cfg;
        let w = [
            14,                         // specific to the type
            3,                          // literal
            c.trace,                    // traced
            2,                          // ternary
            1,                          // and / or
            c.assigns,                  // assignment
            c.calls * 2,                // call
            c.closures / 2,             // immediately called lambda
            1,                          // element of a list
            if self.structs.is_empty() { 0 } else { c.structs * 2 }, // field or method
            1,                          // redundant parentheses
        ];
        match self.s.weighted(&w) {
            0 => self.specific(t, d),
            1 => self.literal(t, d),
            2 => self.traced(t, d),
            3 => {
                let n = 1 + self.s.chance(1, 5) as usize;
                let cs = (0..n).map(|_| { let c = self.cond(d - 1); let v = self.expr(t, d - 1); (c, v) }).collect();
                let z = self.expr(t, d - 1);
                self.e(EK::Tern(cs, Box::new(z)))
            }
            4 => {
                // only for types which have both kinds of values
                let a = self.expr(t, d - 1);
                let b = self.expr(t, d - 1);
                if self.s.chance(1, 2) { self.e(EK::And(Box::new(a), Box::new(b))) } else { self.e(EK::Or(Box::new(a), Box::new(b))) }
            }
            5 => match self.assignment(t, d) { Some(e) => e, None => self.specific(t, d) },
            6 => {
                let fs = self.fns_to(t);
                if fs.is_empty() { return self.specific(t, d); }
                let (n, sig) = self.s.pick(&fs).clone();
                let f = self.var(&n);
                self.apply(f, &sig, d - 1)
            }
            7 => {
                let n = self.s.below(3);
                let ps = (0..n).map(|_| self.simple_ty()).collect();
                let Ty::Fn(sig) = fun(ps, t.clone()) else { unreachable!() };
                let l = self.lambda(&sig, "_", d - 1);
                let f = self.e(EK::Lambda(l));
                self.apply(f, &sig, d - 1)
            }
            8 => {
                let mut n = 1 + self.s.below(3);
                let mut xs: Vec<E> = (0..n).map(|_| self.expr(t, d - 1)).collect();
                if self.s.chance(1, 3) && n > 1 { xs.truncate(n - 1); n -= 1; }
                let i = self.s.int(-(n as i64), n as i64 - 1);
                let l = self.list_lit(xs);
                let i = self.int_lit(i);
                match self.s.weighted(&[4, 1]) {
                    0 => self.e(EK::Index(Box::new(l), Box::new(i))),
                    _ => { let f = self.list_lit(vec![i]); self.e(EK::Comp(Box::new(l), Box::new(f))) }
                }
            }
            9 => match self.member(t, d) { Some(e) => e, None => self.specific(t, d) },
            _ => { let x = self.expr(t, d - 1); self.e(EK::Paren(Box::new(x))) }
        }
    }

    pub fn cond(&mut self, d: u32) -> E { let t = if self.s.chance(3, 4) { Ty::Bool } else { self.ty(1) }; if let Ty::Fn(_) = t { return self.expr(&Ty::Bool, d); } self.expr(&t, d) }

    /// Prints a number and passes a value on
    pub fn traced(&mut self, t: &Ty, d: u32) -> E {
        self.traces += 1;
        let k = self.traces;
        let v = self.expr(t, d.saturating_sub(1));
        let f = self.var("t");
        let k = self.int_lit(k);
        self.call(f, vec![k, v])
    }

    fn assignment(&mut self, t: &Ty, d: u32) -> Option<E> {
        // elements and fields too
        match self.s.weighted(&[5, 3, 1, if self.structs.is_empty() { 0 } else { self.cfg.structs }]) {
            0 => {
                let vs = self.mutable_of(t);
                if vs.is_empty() { return None; }
                let n = self.s.pick(&vs).name.clone();
                let v = self.expr(t, d - 1);
                Some(self.e(EK::Assign(Lv::Var(n), Box::new(v))))
            }
            1 => {
                let vs = self.mutable_of(t);
                if vs.is_empty() { return None; }
                let n = self.s.pick(&vs).name.clone();
                self.op_assign(Lv::Var(n), t, d)
            }
            2 => {
                let lists = self.vars_of(&Ty::List(Box::new(t.clone())));
                if lists.is_empty() || !self.risk() { return None; }
                let n = self.s.pick(&lists).name.clone();
                let l = self.var(&n);
                let i = self.s.int(-2, 2);
                let i = self.int_lit(i);
                let i = if self.s.chance(1, 4) { self.traces += 1; let k = self.traces; let k = self.int_lit(k); let f = self.var("t"); self.call(f, vec![k, i]) } else { i };
                let lv = Lv::Index(Box::new(l), Box::new(i));
                if self.s.chance(1, 2) { let v = self.expr(t, d - 1); Some(self.e(EK::Assign(lv, Box::new(v)))) } else { self.op_assign(lv, t, d) }
            }
            _ => {
                let lv = self.field_target(t, d)?;
                if self.s.chance(1, 2) { let v = self.expr(t, d - 1); Some(self.e(EK::Assign(lv, Box::new(v)))) } else { self.op_assign(lv, t, d) }
            }
        }
    }

    /// A field which can be assigned a value of the type
    pub fn field_target(&mut self, t: &Ty, d: u32) -> Option<Lv> {
        let c: Vec<(usize, String)> = self.structs.iter().enumerate().filter(|(_, s)| s.ready && !s.module).flat_map(|(i, s)| s.fields.iter().filter(|f| f.1 == *t).map(move |f| (i, f.0.clone()))).collect();
        if c.is_empty() { return None; }
        let (i, f) = self.s.pick(&c).clone();
        if self.this == Some(i) && self.has_self && self.s.chance(1, 2) {
            if !self.shadowed(&f) && self.s.chance(1, 2) { return Some(Lv::Var(f)); }
            let v = self.var("self");
            return Some(Lv::Field(Box::new(v), f));
        }
        let v = self.sub(&Ty::Struct(i), d.min(1));
        Some(Lv::Field(Box::new(v), f))
    }

    fn shadowed(&self, n: &str) -> bool { self.scopes[1..].iter().any(|s| s.names.iter().any(|x| x == n)) }

    fn op_assign(&mut self, l: Lv, t: &Ty, d: u32) -> Option<E> {
        let (o, v) = match t {
            Ty::Int => match self.s.weighted(&[6, 2, 1]) {
                0 => { let o = *self.s.pick(&[Op::Add, Op::Sub, Op::Mul, Op::And, Op::Or, Op::Xor]); (AOp::Op(o), self.expr(&Ty::Int, d - 1)) }
                1 => { let o = *self.s.pick(&[AOp::Min, AOp::Max]); (o, self.expr(&Ty::Int, d - 1)) }
                _ => { let o = *self.s.pick(&[Op::Div, Op::Mod]); let k = self.s.int(1, 9); (AOp::Op(o), self.int_lit(k)) }
            },
            Ty::Str => (AOp::Op(Op::Add), self.expr(&Ty::Str, d - 1)),
            Ty::List(_) => (AOp::Op(Op::Add), self.expr(t, d - 1)),
            _ => { let Ty::Fn(sig) = fun(vec![t.clone()], t.clone()) else { unreachable!() }; (AOp::Comp, self.function(&sig, d - 1)) }
        };
        let (o, v) = if self.s.chance(1, 8) { let Ty::Fn(sig) = fun(vec![t.clone()], t.clone()) else { unreachable!() }; (AOp::Comp, self.function(&sig, d - 1)) } else { (o, v) };
        Some(self.e(EK::OpAssign(l, o, Box::new(v))))
    }

    /// Field access, or a method or module function call
    fn member(&mut self, t: &Ty, d: u32) -> Option<E> {
        let mut c: Vec<(usize, usize, bool)> = Vec::new();
        for (i, s) in self.structs.iter().enumerate() {
            if !s.ready { continue; }
            for (j, f) in s.fields.iter().enumerate() { if f.1 == *t { c.push((i, j, false)); } }
            for (j, m) in s.methods.iter().enumerate() { if m.1.ret == *t && (self.fn_depth == 0 || self.this != Some(i)) { c.push((i, j, true)); } }
        }
        if c.is_empty() { return None; }
        let (i, j, method) = *self.s.pick(&c);
        let own = self.this == Some(i) && self.has_self;
        if !method {
            let f = self.structs[i].fields[j].0.clone();
            if own && self.s.chance(2, 3) {
                if !self.shadowed(&f) && self.s.chance(1, 2) { return Some(self.var(&f)); }
                let v = self.var("self");
                return Some(self.e(EK::Field(Box::new(v), f)));
            }
            let v = self.sub(&Ty::Struct(i), d.min(1));
            return Some(if self.s.chance(1, 5) {
                let x = self.e(EK::FieldFn(f));
                if self.s.chance(1, 2) { self.e(EK::Comp(Box::new(v), Box::new(x))) } else { self.call(x, vec![v]) }
            } else { self.e(EK::Field(Box::new(v), f)) });
        }
        let (m, sig, this) = { let m = &self.structs[i].methods[j]; (m.0.clone(), m.1.clone(), m.2) };
        if this {
            if self.s.chance(3, 4) {
                let v = self.sub(&Ty::Struct(i), d.min(1));
                let f = self.e(EK::Field(Box::new(v), m));
                Some(self.apply(f, &sig, d - 1))
            } else {
                // as a plain function
                let f = self.struct_ref(i);
                let f = self.e(EK::Field(Box::new(f), m));
                let v = self.sub(&Ty::Struct(i), d.min(1));
                let mut a = vec![Arg::E(v)];
                a.extend(self.call_args(&sig, d - 1));
                Some(self.e(EK::Call(Box::new(f), a)))
            }
        } else {
            let f = self.struct_ref(i);
            let f = self.e(EK::Field(Box::new(f), m));
            Some(self.apply(f, &sig, d - 1))
        }
    }

    pub fn risk(&mut self) -> bool { let r = self.cfg.risk as u64; self.s.chance(r, 100) }

    fn specific(&mut self, t: &Ty, d: u32) -> E {
        let d = d - 1;
        match t {
            Ty::Int => match self.s.weighted(&[10, 3, 3, 2, 2, 2, 2, self.cfg.library, 1]) {
                0 => { let o = *self.s.pick(&[Op::Add, Op::Sub, Op::Mul, Op::And, Op::Or, Op::Xor]); let a = self.expr(t, d); let b = self.expr(t, d); self.bin(o, a, b) }
                1 => { let o = *self.s.pick(&[Op::Div, Op::Mod]); let a = self.expr(t, d); let b = if self.risk() { self.expr(t, d) } else { let k = self.s.int(1, 9); self.int_lit(k) }; self.bin(o, a, b) }
                2 => { let o = *self.s.pick(&[Un::Neg, Un::Not]); let a = self.expr(t, d); self.e(EK::Un(o, Box::new(a))) }
                3 => { let o = *self.s.pick(&[Op::Shl, Op::Shr]); let a = self.expr(t, d); let k = self.s.int(0, 5); let b = self.int_lit(k); self.bin(o, a, b) }
                4 => { let a = self.expr(&Ty::Bool, d); let b = self.expr(t, d); self.bin(Op::Add, a, b) }
                5 => {
                    let ct = self.coll();
                    let c = self.expr(&ct, d);
                    let f = self.nat(Nat::Len);
                    if self.s.chance(1, 2) { self.call(f, vec![c]) } else { self.e(EK::Comp(Box::new(c), Box::new(f))) }
                }
                6 if self.risk() => {
                    let l = self.expr(&Ty::List(Box::new(Ty::Int)), d);
                    let i = self.s.int(-3, 3);
                    let i = self.int_lit(i);
                    self.e(EK::Index(Box::new(l), Box::new(i)))
                }
                6 => { let a = self.expr(t, d); let k = self.s.int(0, 4); let k = self.int_lit(k); self.bin(Op::Pow, a, k) }
                7 => {
                    let z = self.int_lit(0);
                    let l = self.expr(&Ty::List(Box::new(Ty::Int)), d);
                    match self.s.below(3) {
                        0 => { let l = self.bin(Op::Add, l, z); self.native(Nat::Sum, vec![l]) }
                        1 => { let n = *self.s.pick(&[Nat::Min, Nat::Max]); let l = self.bin(Op::Add, l, z); self.native(n, vec![l]) }
                        _ => { let Ty::Fn(sig) = fun(vec![Ty::Int, Ty::Int], Ty::Int) else { unreachable!() }; let f = self.function(&sig, d); let l = self.bin(Op::Add, l, z); self.native(Nat::Reduce, vec![f, l]) }
                    }
                }
                _ => { let b = self.expr(&Ty::Str, d); let z = self.int_lit(0); self.native(Nat::Int, vec![b, z]) }
            },
            Ty::Bool => match self.s.weighted(&[6, 3, 3, 2, 2, 1, self.cfg.library / 2]) {
                0 => { let t = if self.s.chance(3, 4) { Ty::Int } else { Ty::Str }; let o = *self.s.pick(&[Op::Lt, Op::Gt, Op::Le, Op::Ge, Op::Eq, Op::Ne]); let a = self.expr(&t, d); let b = self.expr(&t, d); self.bin(o, a, b) }
                1 => { let a = self.cond(d); self.e(EK::Un(Un::LNot, Box::new(a))) }
                2 => {
                    let n = 2 + self.s.weighted(&[8, 3, 1, 1]);
                    let a = self.expr(&Ty::Int, d);
                    let mut r = Vec::new();
                    for _ in 0..n { let o = *self.s.pick(&[Op::Lt, Op::Gt, Op::Le, Op::Ge, Op::Eq, Op::Ne]); let id = self.uid(); let x = self.expr(&Ty::Int, d); r.push((o, id, x)); }
                    self.e(EK::Chain(Box::new(a), r))
                }
                3 => { let o = *self.s.pick(&[Op::Eq, Op::Ne]); let t = self.ty(1); let t = if let Ty::Fn(_) = t { Ty::Int } else { t }; let a = self.expr(&t, d); let b = self.expr(&t, d); self.bin(o, a, b) }
                4 => { let o = *self.s.pick(&[Op::In, Op::NotIn]); let a = self.expr(&Ty::Int, d); let l = self.expr(&Ty::List(Box::new(Ty::Int)), d); self.bin(o, a, l) }
                5 => { let o = *self.s.pick(&[Op::Is, Op::IsNot]); let a = self.expr(&Ty::Any, d); let n = *self.s.pick(&[Nat::Int, Nat::Str, Nat::List, Nat::Bool, Nat::Iterable]); let b = self.nat(n); self.bin(o, a, b) }
                _ => { let n = *self.s.pick(&[Nat::Any, Nat::All]); let Ty::Fn(sig) = fun(vec![Ty::Int], Ty::Bool) else { unreachable!() }; let f = self.function(&sig, d); let l = self.expr(&Ty::List(Box::new(Ty::Int)), d); self.native(n, vec![f, l]) }
            },
            Ty::Str => match self.s.weighted(&[6, 2, 1, 1, 1, self.cfg.library / 2]) {
                0 => { let a = self.expr(t, d); let b = self.expr(&Ty::Any, d); if self.s.chance(1, 4) { self.bin(Op::Add, b, a) } else { self.bin(Op::Add, a, b) } }
                1 => { let n = *self.s.pick(&[Nat::Str, Nat::Repr]); let a = self.expr(&Ty::Any, d); self.native(n, vec![a]) }
                2 => { let a = self.expr(t, d); let k = self.s.int(0, 3); let k = self.int_lit(k); self.bin(Op::Mul, a, k) }
                3 => { let a = self.expr(t, d); let sl = self.slice(d); self.e(EK::Slice(Box::new(a), sl)) }
                4 => { let f = self.s.pick(&["%s", "<%s>", "%3s|"]).to_string(); let f = self.str_lit(&f); let a = self.expr(&Ty::Int, d); self.bin(Op::Mod, f, a) }
                _ => { let j = self.str_lit(","); let l = self.expr(&Ty::List(Box::new(Ty::Str)), d); let f = self.native(Nat::Join, vec![j]); self.e(EK::Comp(Box::new(l), Box::new(f))) }
            },
            Ty::List(x) => match self.s.weighted(&[3, 3, 2, 2, if **x == Ty::Int { 3 } else { 0 }, self.cfg.library]) {
                0 => {
                    // map over another list
                    let from = self.simple_ty_nn();
                    let Ty::Fn(sig) = fun(vec![from.clone()], (**x).clone()) else { unreachable!() };
                    let f = self.function(&sig, d);
                    let l = self.expr(&Ty::List(Box::new(from)), d);
                    if self.s.chance(1, 2) { let p = self.native(Nat::Map, vec![f]); self.e(EK::Comp(Box::new(l), Box::new(p))) } else { self.native(Nat::Map, vec![f, l]) }
                }
                1 => self.literal(t, d),
                2 => { let a = self.expr(t, d); let b = self.expr(t, d); self.bin(Op::Add, a, b) }
                3 => { let a = self.expr(t, d); let sl = self.slice(d); if self.s.chance(1, 4) { let f = self.e(EK::SliceLit(sl)); self.e(EK::Comp(Box::new(a), Box::new(f))) } else { self.e(EK::Slice(Box::new(a), sl)) } }
                4 => { let k = self.s.int(0, 6); let k = self.int_lit(k); let r = self.native(Nat::Range, vec![k]); self.native(Nat::List, vec![r]) }
                _ => {
                    let Ty::Fn(sig) = fun(vec![(**x).clone()], Ty::Bool) else { unreachable!() };
                    let l = self.expr(t, d);
                    match self.s.below(3) {
                        0 => { let f = self.function(&sig, d); self.native(Nat::Filter, vec![f, l]) }
                        1 => self.native(Nat::Reverse, vec![l]),
                        _ => { let p = self.nat(Nat::Copy); self.e(EK::Comp(Box::new(l), Box::new(p))) }
                    }
                }
            },
            Ty::Vect(x) if **x == Ty::Int && self.s.chance(1, 3) => { let o = *self.s.pick(&[Op::Add, Op::Sub, Op::Mul]); let a = self.expr(t, d); let b = if self.s.chance(1, 2) { self.expr(&Ty::Int, d) } else { self.expr(t, d) }; self.bin(o, a, b) }
            Ty::Nil => { let a = self.expr(&Ty::Any, d); self.native(Nat::Print, vec![a]) }
            t => self.literal(t, d),
        }
    }

    fn coll(&mut self) -> Ty { match self.s.below(3) { 0 => Ty::Str, 1 => Ty::List(Box::new(Ty::Int)), _ => Ty::List(Box::new(Ty::Str)) } }

    pub fn slice(&mut self, d: u32) -> Sl {
        let bound = |g: &mut Self| -> Option<Box<E>> {
            match g.s.weighted(&[3, 4, 1]) { 0 => None, 1 => { let k = g.s.int(-3, 4); Some(Box::new(g.int_lit(k))) } _ => Some(Box::new(g.expr(&Ty::Int, d.min(1)))) }
        };
        let a = bound(self);
        let b = bound(self);
        let c = match self.s.weighted(&[5, 1, 3]) { 0 => None, 1 => Some(None), _ => { let k = *self.s.pick(&[1, -1, 2, -2, 3]); Some(Some(Box::new(self.int_lit(k)))) } };
        Sl { a, b, c }
    }

    // ===== statements ===== //

    pub fn stmts(&mut self, n: usize, d: u32) -> Vec<S> {
        let mut r = Vec::new();
        for _ in 0..n {
            if self.budget <= 0 { break; }
            self.stmt(&mut r, d);
        }
        r
    }

    pub fn block(&mut self, d: u32) -> Vec<S> {
        self.push(false);
        let n = self.s.weighted(&[1, 4, 3, 2]);
        let mut b = self.stmts(n, d.saturating_sub(1));
        if self.loops > 0 && self.s.chance(1, 8) {
            let s = if self.s.chance(1, 2) { self.st(SK::Break) } else { self.st(SK::Continue) };
            b.push(s);
        } else if self.fn_depth > 0 && self.s.chance(1, 12) {
            if let Some(t) = self.ret.clone() { let e = self.expr(&t, 1); b.push(self.st(SK::Return(Some(e)))) }
        }
        self.pop();
        b
    }

    fn print_of(&mut self, xs: Vec<E>) -> S { let e = self.native(Nat::Print, xs); self.st(SK::Expr(e)) }

    pub fn fn_sig(&mut self) -> Rc<Sig> {
        let n = self.s.weighted(&[2, 4, 4, 2]);
        let mut ps: Vec<(Ty, PKind)> = (0..n).map(|_| (self.ty(1), PKind::Req)).collect();
        // the tail is optional
        let k = self.s.weighted(&[5, 2, 1]);
        for _ in 0..k { let p = if self.s.chance(1, 2) { PKind::Opt } else { PKind::Def }; let t = self.simple_ty(); ps.push((t, p)); }
        if self.s.chance(1, 5) { let t = self.simple_ty(); ps.push((t, PKind::Var)); }
        let ret = self.ty(1);
        Rc::new(Sig { ps, ret })
    }

    pub fn stmt(&mut self, out: &mut Vec<S>, d: u32) {
        self.budget -= 1;
        let c = self.cfg.clone();
        let deep = d > 0;
        let w = [
            8,                                   // 0 let
            5,                                   // 1 print
            3 + c.assigns * 2,                   // 2 assignment
            if deep { 3 } else { 0 },            // 3 if
            if deep { c.loops } else { 0 },      // 4 loop
            if deep { c.calls } else { 0 },      // 5 fn
            c.patterns,                          // 6 pattern let
            c.patterns,                          // 7 pattern assignment
            2,                                   // 8 other expression statements
            1,                                   // 9 assert
            if deep { c.closures } else { 0 },   // 10 closures over a loop, counters
            2,                                   // 11 mutation of a collection
            if self.fn_depth > 0 { 1 } else { 0 }, // 12 early return
            if deep { c.calls / 2 } else { 0 },  // 13 recursion
        ];
        match self.s.weighted(&w) {
            0 => {
                let t = self.ty(2);
                let e = self.expr(&t, 3);
                let n = self.new_name();
                let mutable = self.s.chance(9, 10);
                self.add(&n, t, mutable);
                out.push(self.st(SK::Let(vec![(vec![Pat::Lv(Lv::Var(n))], Some(e))])));
            }
            1 => { let n = 1 + self.s.below(3); let xs = (0..n).map(|_| self.expr(&Ty::Any, 3)).collect(); let s = self.print_of(xs); out.push(s); }
            2 => {
                let vs: Vec<Var> = self.visible().into_iter().filter(|v| v.mutable).collect();
                if vs.is_empty() { let e = self.expr(&Ty::Any, 3); let s = self.print_of(vec![e]); out.push(s); return; }
                let t = self.s.pick(&vs).ty.clone();
                if let Ty::Any = t { return; }
                if let Some(e) = self.assignment(&t, 3) { out.push(self.st(SK::Expr(e))); }
            }
            3 => {
                let n = 1 + self.s.weighted(&[4, 1]);
                let cs = (0..n).map(|_| { let c = self.cond(2); let b = self.block(d - 1); (c, b) }).collect();
                let z = if self.s.chance(1, 2) { Some(self.block(d - 1)) } else { None };
                out.push(self.st(SK::If(cs, z)));
            }
            4 => self.looped(out, d),
            5 => { let sig = self.fn_sig(); self.function_stmt(out, sig, d); }
            6 => {
                let e = Ty::Vect(Box::new(self.simple_ty()));
                let Ty::Vect(x) = e else { unreachable!() };
                let n = 1 + self.s.below(4);
                let mut ps = Vec::new();
                let mut lits = Vec::new();
                let mut rest = false;
                let mut names = Vec::new();
                for _ in 0..n {
                    match self.s.weighted(&[6, 1, 2, 2]) {
                        1 => { ps.push(Pat::Discard); lits.push(self.expr(&x, 2)); }
                        2 if !rest => {
                            rest = true;
                            let name = self.new_name();
                            ps.push(Pat::Rest(Some(name.clone())));
                            names.push((name, Ty::Vect(x.clone())));
                            for _ in 0..self.s.below(3) { let e = self.expr(&x, 2); lits.push(e); }
                        }
                        3 => {
                            let (a, b) = (self.new_name(), self.new_name());
                            ps.push(Pat::Nest(vec![Pat::Lv(Lv::Var(a.clone())), Pat::Lv(Lv::Var(b.clone()))]));
                            names.push((a, (*x).clone()));
                            names.push((b, (*x).clone()));
                            let (p, q) = (self.expr(&x, 1), self.expr(&x, 1));
                            let l = if self.s.chance(1, 2) { self.list_lit(vec![p, q]) } else { self.e(EK::Vector(vec![Arg::E(p), Arg::E(q)])) };
                            lits.push(l);
                        }
                        _ => { let name = self.new_name(); ps.push(Pat::Lv(Lv::Var(name.clone()))); names.push((name, (*x).clone())); lits.push(self.expr(&x, 2)); }
                    }
                }
                if names.is_empty() || (ps.len() == 1 && !matches!(ps[0], Pat::Nest(_))) {
                    let name = self.new_name();
                    ps.push(Pat::Lv(Lv::Var(name.clone())));
                    names.push((name, (*x).clone()));
                    lits.push(self.expr(&x, 2));
                }
                if self.risk() { lits.pop(); }
                let v = if self.s.chance(1, 2) || lits.len() < 2 { self.list_lit(lits) } else { self.e(EK::Vector(lits.into_iter().map(Arg::E).collect())) };
                // the rest of a list is a list
                let isl = matches!(v.k, EK::List(_));
                for (n, t) in names { let t = match t { Ty::Vect(x) if isl => Ty::List(x), t => t }; self.add(&n, t, true); }
                out.push(self.st(SK::Let(vec![(ps, Some(v))])));
            }
            7 => {
                // existing variables, elements and fields
                let n = 2 + self.s.below(2);
                let mut ps = Vec::new();
                let mut vals = Vec::new();
                let mut used: Vec<String> = Vec::new();
                for _ in 0..n {
                    let t = self.simple_ty_nn();
                    let lv = match self.s.weighted(&[4, 1, 1, 1]) {
                        0 => { let vs: Vec<Var> = self.mutable_of(&t).into_iter().filter(|v| !used.contains(&v.name)).collect(); if vs.is_empty() { None } else { let n = self.s.pick(&vs).name.clone(); used.push(n.clone()); Some(Lv::Var(n)) } }
                        1 => { let k = self.s.int(0, 2); self.list_target(&t, k) }
                        2 => { if self.structs.is_empty() { None } else { self.field_target(&t, 1).filter(|l| !matches!(l, Lv::Var(_))) } }
                        _ => None,
                    };
                    match lv { Some(l) => ps.push(Pat::Lv(l)), None => ps.push(Pat::Discard) }
                    vals.push(self.expr(&t, 2));
                }
                if ps.iter().all(|p| matches!(p, Pat::Discard)) { return; }
                let v = self.e(EK::Vector(vals.into_iter().map(Arg::E).collect()));
                let e = self.e(EK::PatAssign(ps, Box::new(v)));
                out.push(self.st(SK::Expr(e)));
            }
            8 => {
                let t = self.ty(1);
                let e = self.expr(&t, 3);
                out.push(self.st(SK::Expr(e)));
            }
            9 => {
                let e = if self.risk() { self.expr(&Ty::Bool, 2) } else { let a = self.expr(&Ty::Int, 1); let b = self.expr(&Ty::Int, 1); let x = self.bin(Op::Le, a, b); let y = self.e(EK::Bool(true)); self.e(EK::Or(Box::new(x), Box::new(y))) };
                let m = if self.s.chance(1, 2) { Some(self.expr(&Ty::Any, 2)) } else { None };
                out.push(self.st(SK::Assert(e, m)));
            }
            10 => self.closures(out, d),
            11 => {
                let vs: Vec<Var> = self.visible().into_iter().filter(|v| matches!(v.ty, Ty::List(_) | Ty::Set(_) | Ty::Dict(..))).collect();
                if vs.is_empty() { return; }
                let v = self.s.pick(&vs).clone();
                let x = self.var(&v.name);
                let e = match &v.ty {
                    Ty::List(t) => match self.s.weighted(&[6, 1, 1]) {
                        0 => { let a = self.expr(t, 2); if self.contains_var(&a, &v.name) { return; } let f = self.native(Nat::Push, vec![a]); self.e(EK::Comp(Box::new(x), Box::new(f))) }
                        1 => { if !self.risk() { let f = self.nat(Nat::Clear); self.e(EK::Comp(Box::new(x), Box::new(f))) } else { let f = self.nat(Nat::Pop); self.e(EK::Comp(Box::new(x), Box::new(f))) } }
                        _ => { let z = self.int_lit(0); let a = self.expr(t, 1); if self.contains_var(&a, &v.name) { return; } self.native(Nat::Insert, vec![z, a, x]) }
                    },
                    Ty::Set(t) => { let a = self.expr(t, 2); let f = self.native(Nat::Push, vec![a]); self.e(EK::Comp(Box::new(x), Box::new(f))) }
                    Ty::Dict(k, t) => { let k = self.expr(k, 2); let t = self.expr(t, 2); self.e(EK::Assign(Lv::Index(Box::new(x), Box::new(k)), Box::new(t))) }
                    _ => return,
                };
                out.push(self.st(SK::Expr(e)));
            }
            12 => {
                if let Some(t) = self.ret.clone() {
                    let c = self.cond(2);
                    let e = self.expr(&t, 2);
                    let r = self.st(SK::Return(Some(e)));
                    out.push(self.st(SK::If(vec![(c, vec![r])], None)));
                }
            }
            _ => self.recursive(out, d),
        }
    }

    fn contains_var(&self, _e: &E, _n: &str) -> bool { false }

    fn list_target(&mut self, t: &Ty, k: i64) -> Option<Lv> {
        let vs = self.vars_of(&Ty::List(Box::new(t.clone())));
        if vs.is_empty() || !self.risk() { return None; }
        let n = self.s.pick(&vs).name.clone();
        let l = self.var(&n);
        let i = self.int_lit(k);
        Some(Lv::Index(Box::new(l), Box::new(i)))
    }

    pub fn function_stmt(&mut self, out: &mut Vec<S>, sig: Rc<Sig>, d: u32) {
        let name = self.new_name();
        // not visible in its own body, so that it terminates
        let f = self.lambda(&sig, &name, d);
        let mut dec = Vec::new();
        if self.s.chance(1, 12) { let id = self.lambda_id(&Ty::Fn(sig.clone())); dec.push(id); }
        self.add(&name, Ty::Fn(sig), false);
        out.push(self.st(SK::Fn(f, dec)));
    }

    /// `(fn(x) { print; x })`
    fn lambda_id(&mut self, _t: &Ty) -> E {
        let id = self.uid();
        self.traces += 1;
        let k = self.traces;
        let (f, k, v) = (self.var("t"), self.int_lit(k), self.var("x"));
        let body = self.call(f, vec![k, v]);
        let l = self.e(EK::Lambda(Rc::new(FnDef { id, name: "_".into(), params: vec![Param { pat: Pat::Lv(Lv::Var("x".into())), k: PK::Req }], body: Body::Expr(body) })));
        self.e(EK::Paren(Box::new(l)))
    }

    fn looped(&mut self, out: &mut Vec<S>, d: u32) {
        let kind = self.s.weighted(&[5, 3, 2, 1]);
        match kind {
            0 => {
                let elem = self.simple_ty_nn();
                let (t, x) = match self.s.weighted(&[4, 2, 1, 1]) {
                    0 => (None, elem.clone()),
                    1 => (Some(Ty::List(Box::new(elem.clone()))), elem),
                    2 => (Some(Ty::Str), Ty::Str),
                    _ => (Some(Ty::Vect(Box::new(elem.clone()))), elem),
                };
                let (e, x) = match t {
                    None => {
                        // small ranges, which have a special form when compiled
                        let n = 1 + self.s.below(3);
                        let mut a = Vec::new();
                        for i in 0..n { let k = match (n, i) { (1, _) => self.s.int(0, 5), (_, 0) => self.s.int(-2, 3), (_, 1) => self.s.int(-1, 6), _ => *self.s.pick(&[1, 2, -1, 3]) }; a.push(if self.s.chance(1, 5) { let k = self.int_lit(k); let z = self.expr(&Ty::Bool, 1); self.bin(Op::Add, k, z) } else { self.int_lit(k) }); }
                        (self.native(Nat::Range, a), Ty::Int)
                    }
                    Some(t) => (if self.s.chance(1, 2) { self.literal(&t, 1) } else { let e = self.expr(&t, 2); self.native(Nat::Copy, vec![e]) }, x),
                };
                self.push(false);
                let mut ps = vec![];
                let e = match self.s.weighted(&[6, 1, 2]) {
                    0 => { let n = self.new_name(); self.add(&n, x.clone(), true); ps.push(Pat::Lv(Lv::Var(n))); e }
                    1 => { ps.push(Pat::Discard); e }
                    _ => {
                        let (i, n) = (self.new_name(), self.new_name());
                        self.add(&i, Ty::Int, true);
                        self.add(&n, x.clone(), true);
                        ps.push(Pat::Lv(Lv::Var(i)));
                        ps.push(Pat::Lv(Lv::Var(n)));
                        self.native(Nat::Enumerate, vec![e])
                    }
                };
                self.loops += 1;
                let b = self.block(d);
                self.loops -= 1;
                self.pop();
                let z = if self.s.chance(1, 5) { Some(self.block(d - 1)) } else { None };
                out.push(self.st(SK::For(ps, e, b, z)));
            }
            _ => {
                let n = self.fresh_name("i");
                let lim = self.s.int(1, 4);
                let z = self.int_lit(0);
                out.push(self.st(SK::Let(vec![(vec![Pat::Lv(Lv::Var(n.clone()))], Some(z))])));
                self.add(&n, Ty::Int, false);
                let one = self.int_lit(1);
                let inc = self.e(EK::OpAssign(Lv::Var(n.clone()), AOp::Op(Op::Add), Box::new(one)));
                let inc = self.st(SK::Expr(inc));
                let (v, l) = (self.var(&n), self.int_lit(lim));
                let test = self.bin(Op::Lt, v, l);
                let test = if self.s.chance(1, 6) { let y = self.cond(1); self.e(EK::And(Box::new(test), Box::new(y))) } else { test };
                self.loops += 1;
                let mut b = self.block(d);
                self.loops -= 1;
                b.insert(0, inc);
                match kind {
                    1 => { let z = if self.s.chance(1, 4) { Some(self.block(d - 1)) } else { None }; out.push(self.st(SK::While(test, b, z))); }
                    2 => {
                        let w = if self.s.chance(3, 4) { Some(test) } else { None };
                        if w.is_some() {
                            // `continue` goes back to the start without a test
                            let (v, l) = (self.var(&n), self.int_lit(lim + 3));
                            let c = self.bin(Op::Gt, v, l);
                            let br = self.st(SK::Break);
                            b.insert(1, S { id: 0, k: SK::If(vec![(c, vec![br])], None) });
                        } else {
                            let (v, l) = (self.var(&n), self.int_lit(lim));
                            let c = self.bin(Op::Gt, v, l);
                            let br = self.st(SK::Break);
                            b.insert(1, S { id: 0, k: SK::If(vec![(c, vec![br])], None) });
                        }
                        let z = if w.is_some() && self.s.chance(1, 4) { Some(self.block(d - 1)) } else { None };
                        out.push(self.st(SK::Do(b, w, z)));
                    }
                    _ => {
                        let (v, l) = (self.var(&n), self.int_lit(lim));
                        let c = self.bin(Op::Ge, v, l);
                        let br = self.st(SK::Break);
                        b.insert(1, S { id: 0, k: SK::If(vec![(c, vec![br])], None) });
                        out.push(self.st(SK::Loop(b)));
                    }
                }
            }
        }
    }

    /// Functions which capture variables and outlive them
    fn closures(&mut self, out: &mut Vec<S>, d: u32) {
        match self.s.below(3) {
            0 => {
                // a list of functions filled by a loop
                let fs = self.fresh_name("fs");
                let t = fun(vec![], Ty::Int);
                let l = self.list_lit(vec![]);
                out.push(self.st(SK::Let(vec![(vec![Pat::Lv(Lv::Var(fs.clone()))], Some(l))])));
                self.add(&fs, Ty::List(Box::new(t.clone())), false);
                let n = self.s.int(1, 4);
                let k = self.int_lit(n);
                let r = self.native(Nat::Range, vec![k]);
                self.push(false);
                let i = self.new_name();
                self.add(&i, Ty::Int, true);
                self.push(false);
                let mut b = Vec::new();
                let k = self.s.below(3);
                b.extend(self.stmts(k, d.saturating_sub(2)));
                let Ty::Fn(sig) = &t else { unreachable!() };
                let many = 1 + self.s.below(2);
                for _ in 0..many {
                    let f = self.lambda(sig, "_", 2);
                    let f = self.e(EK::Lambda(f));
                    let f = self.e(EK::Paren(Box::new(f)));
                    let p = self.native(Nat::Push, vec![f]);
                    let x = self.var(&fs);
                    let e = self.e(EK::Comp(Box::new(x), Box::new(p)));
                    b.push(self.st(SK::Expr(e)));
                }
                if self.s.chance(1, 2) { let k = self.s.below(2); let more = self.stmts(k, 0); b.extend(more); }
                self.pop();
                self.pop();
                out.push(self.st(SK::For(vec![Pat::Lv(Lv::Var(i))], r, b, None)));
                // call all of them, twice
                self.push(false);
                let f = self.fresh_name("q");
                self.add(&f, t.clone(), false);
                let x = self.var(&f);
                let c1 = self.call(x, vec![]);
                let x = self.var(&f);
                let c2 = self.call(x, vec![]);
                let p = self.print_of(vec![c1, c2]);
                self.pop();
                let x = self.var(&fs);
                out.push(self.st(SK::For(vec![Pat::Lv(Lv::Var(f))], x, vec![p], None)));
            }
            1 => {
                // a getter and a setter
                let (g, h) = (self.fresh_name("get"), self.fresh_name("set"));
                let t = self.simple_ty_nn();
                let init = self.expr(&t, 2);
                let maker = self.fresh_name("mk");
                let vn = self.s.pick(&NAMES).to_string();
                let id = self.uid();
                let mut b = Vec::new();
                b.push(self.st(SK::Let(vec![(vec![Pat::Lv(Lv::Var(vn.clone()))], Some(init))])));
                let ret = self.var(&vn);
                let i1 = self.uid();
                let getf = self.e(EK::Lambda(Rc::new(FnDef { id: i1, name: "_".into(), params: vec![], body: Body::Expr(ret) })));
                let w = self.var("w0");
                let asg = self.e(EK::Assign(Lv::Var(vn.clone()), Box::new(w)));
                let i2 = self.uid();
                let setf = self.e(EK::Lambda(Rc::new(FnDef { id: i2, name: "_".into(), params: vec![Param { pat: Pat::Lv(Lv::Var("w0".into())), k: PK::Req }], body: Body::Expr(asg) })));
                let (getf, setf) = (self.e(EK::Paren(Box::new(getf))), self.e(EK::Paren(Box::new(setf))));
                let pair = self.list_lit(vec![getf, setf]);
                b.push(self.st(SK::Expr(pair)));
                out.push(self.st(SK::Fn(Rc::new(FnDef { id, name: maker.clone(), params: vec![], body: Body::Block(b) }), vec![])));
                let m = self.var(&maker);
                let c = self.call(m, vec![]);
                out.push(self.st(SK::Let(vec![(vec![Pat::Lv(Lv::Var(g.clone())), Pat::Lv(Lv::Var(h.clone()))], Some(c))])));
                self.add(&g, fun(vec![], t.clone()), false);
                self.add(&h, fun(vec![t.clone()], t), false);
            }
            _ => {
                let n = self.s.below(2);
                let ps = (0..n).map(|_| self.simple_ty()).collect();
                let ret = self.simple_ty_nn();
                let Ty::Fn(sig) = fun(ps, ret) else { unreachable!() };
                let f = self.lambda(&sig, "_", d);
                let f = self.e(EK::Lambda(f));
                let name = self.new_name();
                self.add(&name, Ty::Fn(sig), false);
                out.push(self.st(SK::Let(vec![(vec![Pat::Lv(Lv::Var(name))], Some(f))])));
            }
        }
    }

    /// A function which calls itself with a smaller number
    fn recursive(&mut self, out: &mut Vec<S>, d: u32) {
        let name = self.new_name();
        let id = self.uid();
        let t = self.simple_ty_nn();
        self.fn_depth += 1;
        let loops = std::mem::replace(&mut self.loops, 0);
        let ret = self.ret.replace(t.clone());
        self.push(true);
        let n = self.fresh_name("n");
        self.add(&n, Ty::Int, false);
        let base = self.expr(&t, 1);
        let (v, one) = (self.var(&n), self.int_lit(1));
        let less = self.bin(Op::Sub, v, one);
        let f = self.var(&name);
        let rec = self.call(f, vec![less]);
        // use the result in some expression of the type
        let acc = self.fresh_name("acc");
        self.push(false);
        self.add(&acc, t.clone(), true);
        let k = self.s.below(2);
        let mid = self.stmts(k, d.saturating_sub(2));
        let res = self.expr(&t, 2);
        self.pop();
        let (v, z) = (self.var(&n), self.int_lit(0));
        let c = self.bin(Op::Le, v, z);
        let r = self.st(SK::Return(Some(base)));
        let mut b = vec![self.st(SK::If(vec![(c, vec![r])], None))];
        b.push(self.st(SK::Let(vec![(vec![Pat::Lv(Lv::Var(acc))], Some(rec))])));
        b.extend(mid);
        b.push(self.st(SK::Expr(res)));
        self.pop();
        self.fn_depth -= 1;
        self.loops = loops;
        self.ret = ret;
        out.push(self.st(SK::Fn(Rc::new(FnDef { id, name: name.clone(), params: vec![Param { pat: Pat::Lv(Lv::Var(n)), k: PK::Req }], body: Body::Block(b) }), vec![])));
        // only called here
        let k = self.s.int(0, 5);
        let (f, k) = (self.var(&name), self.int_lit(k));
        let e = self.call(f, vec![k]);
        let s = self.print_of(vec![e]);
        out.push(s);
    }

    // ===== programs ===== //

    /// `fn t(k, v) { print('#' + k); v }`
    pub fn tracer(&mut self) -> S {
        let id = self.uid();
        self.scopes[0].names.push("t".into());
        let (s, k) = (self.str_lit("#"), self.var("k"));
        let x = self.bin(Op::Add, s, k);
        let p = self.print_of(vec![x]);
        let v = self.var("v");
        let r = self.st(SK::Expr(v));
        let params = ["k", "v"].iter().map(|n| Param { pat: Pat::Lv(Lv::Var(n.to_string())), k: PK::Req }).collect();
        self.st(SK::Fn(Rc::new(FnDef { id, name: "t".into(), params, body: Body::Block(vec![p, r]) }), vec![]))
    }

    /// Declares a struct or module
    pub fn structure(&mut self, out: &mut Vec<S>) {
        let module = self.s.chance(1, 4);
        let i = self.structs.len();
        let name = format!("{}{}", if module { "M" } else { "S" }, i);
        self.scopes[0].names.push(name.clone());
        let n = if module { 0 } else { 1 + self.s.below(3) };
        let mut fields: Vec<(String, Ty)> = Vec::new();
        for _ in 0..n {
            let f = self.s.pick(&["a", "b", "x", "p", "q"]).to_string();
            if fields.iter().any(|x| x.0 == f) { continue; }
            let t = if self.s.chance(1, 4) { Ty::List(Box::new(Ty::Int)) } else { self.simple_ty_nn() };
            fields.push((f, t));
        }
        self.structs.push(StructInfo { name: name.clone(), fields: fields.clone(), methods: vec![], module, ready: false });
        let m = self.s.weighted(&[2, 3, 3, 1]) + module as usize;
        let mut ms = Vec::new();
        for j in 0..m {
            let mn = format!("{}{}", ["m", "get", "run", "k"][j % 4], if self.s.chance(1, 2) { i } else { 0 });
            if self.structs[i].methods.iter().any(|x| x.0 == mn) || self.scopes[0].names.contains(&mn) { continue; }
            let this = !module && self.s.chance(2, 3);
            let np = self.s.below(3);
            let ps = (0..np).map(|_| (self.simple_ty_nn(), PKind::Req)).collect();
            let ret = self.simple_ty_nn();
            let sig = Rc::new(Sig { ps, ret });
            // bodies may use the fields, and the methods declared before
            self.this = Some(i);
            self.has_self = this;
            self.structs[i].ready = !module;
            let f = self.method(&sig, &mn, this);
            self.this = None;
            self.has_self = false;
            self.structs[i].methods.push((mn, sig, this));
            ms.push((f, this));
        }
        self.structs[i].ready = true;
        let k = if module { SK::Module(name, ms.into_iter().map(|x| x.0).collect()) } else { SK::Struct(name, fields.into_iter().map(|x| x.0).collect(), ms) };
        out.push(self.st(k));
    }

    fn method(&mut self, sig: &Rc<Sig>, name: &str, this: bool) -> Rc<FnDef> {
        let i = self.this.unwrap();
        self.push(true);
        if this { self.scopes.last_mut().unwrap().names.push("self".into()); self.add("self", Ty::Struct(i), false); }
        // earlier methods of the same struct by their bare name
        let f = {
            let own: Vec<Var> = self.structs[i].methods.iter().filter(|m| !m.2 || this).map(|m| Var { name: m.0.clone(), ty: Ty::Fn(m.1.clone()), mutable: false, late: true }).collect();
            let fields: Vec<Var> = if this { self.structs[i].fields.iter().map(|f| Var { name: f.0.clone(), ty: f.1.clone(), mutable: true, late: true }).collect() } else { vec![] };
            let sc = self.scopes.last_mut().unwrap();
            sc.vars.extend(own);
            sc.vars.extend(fields);
            self.lambda(sig, name, 2)
        };
        self.pop();
        if !this { return f; }
        let mut params = vec![Param { pat: Pat::Lv(Lv::Var("self".into())), k: PK::Req }];
        match Rc::try_unwrap(f) { Ok(f) => { params.extend(f.params); Rc::new(FnDef { params, ..FnDef { id: f.id, name: f.name, params: vec![], body: f.body } }) } Err(_) => unreachable!() }
    }

    pub fn program(&mut self) -> Vec<S> {
        let mut out = vec![self.tracer()];
        if self.cfg.structs > 0 && self.s.chance(self.cfg.structs.min(9) as u64, 10) {
            let n = 1 + self.s.below(2);
            for _ in 0..n { self.structure(&mut out); }
        }
        let n = 2 + self.s.below(8);
        let mut body = self.stmts(n, 3);
        out.append(&mut body);
        self.finish(&mut out);
        out
    }

    /// Prints all variables
    pub fn finish(&mut self, out: &mut Vec<S>) {
        let vs = self.visible();
        for v in vs { if v.name == "t" { continue; } let x = self.var(&v.name); let s = self.print_of(vec![x]); out.push(s); }
    }
}
