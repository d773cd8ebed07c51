//! Generation of values of every kind, and of programs which apply operations to them.

use std::rc::Rc;

use crate::engine::{Cx, Failure, Src};
use crate::model::ast::*;
use crate::model::gen::{Cfg, Gen};
use crate::model::interp::{End as MEnd, Interp};
use crate::model::natives::Nat;
use crate::model::ops::{Op, Un};
use crate::model::value::{MAX_INT, MIN_INT};

use super::prog::{check, Verdict};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K { Nil, Bool, Int, Cx, Rat, Str, List, Set, Dict, Heap, Vect, Range, Enum, Struct, Fn, Type }

pub const SCALARS: [K; 6] = [K::Int, K::Bool, K::Str, K::Nil, K::Cx, K::Rat];
pub const ITERABLES: [K; 8] = [K::List, K::Vect, K::Set, K::Dict, K::Str, K::Range, K::Enum, K::Heap];
pub const ALL: [K; 16] = [K::Int, K::Str, K::List, K::Bool, K::Nil, K::Cx, K::Rat, K::Set, K::Dict, K::Heap, K::Vect, K::Range, K::Enum, K::Struct, K::Fn, K::Type];

/// How large integers are
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Ints { Small, Mixed, Edge }

pub struct Vals<'a> {
    pub g: Gen<'a>,
    pub ints: Ints,
    pub setup: Vec<S>,
    /// operations, each of which may be left out
    pub ops: Vec<Vec<S>>,
    pub vars: Vec<(String, K)>,
    strukt: bool,
    pub effects: bool,
    /// text of strings
    pub chars: &'static [char],
}

pub const PLAIN: &[char] = &['a', 'b', 'c', 'd', ' ', 'A', 'Z', '0', '7', 'é', 'ß', '€', '日', '𝕏', '_', '-', ',', '\t', '\n', '"', '\\', '%', 'İ', '\u{301}', '\u{feff}', '\r', '\0'];
pub const NARROW: &[char] = &['a', 'b', 'é'];

impl<'a> Vals<'a> {
    pub fn new(s: &'a mut Src) -> Vals<'a> {
        Vals { g: Gen::new(s, Cfg::default()), ints: Ints::Small, setup: vec![], ops: vec![], vars: vec![], strukt: false, effects: false, chars: PLAIN }
    }

    // ----- building blocks -----

    pub fn s(&mut self) -> &mut Src { self.g.s }
    pub fn n(&mut self, lo: usize, hi: usize) -> usize { lo + self.g.s.below(hi - lo + 1) }
    pub fn chance(&mut self, a: u64, b: u64) -> bool { self.g.s.chance(a, b) }
    pub fn e(&mut self, k: EK) -> E { self.g.e(k) }
    pub fn i(&mut self, i: i64) -> E { self.g.int_lit(i) }
    pub fn t(&mut self, s: &str) -> E { self.g.str_lit(s) }
    pub fn v(&mut self, s: &str) -> E { self.g.var(s) }
    pub fn nat(&mut self, n: Nat, a: Vec<E>) -> E { self.g.native(n, a) }
    pub fn f(&mut self, n: Nat) -> E { self.g.nat(n) }
    pub fn call(&mut self, f: E, a: Vec<E>) -> E { self.g.call(f, a) }
    pub fn bin(&mut self, o: Op, a: E, b: E) -> E { self.g.bin(o, a, b) }
    pub fn un(&mut self, o: Un, a: E) -> E { self.e(EK::Un(o, Box::new(a))) }
    pub fn list(&mut self, v: Vec<E>) -> E { let v = self.spread(v); self.e(EK::List(v)) }
    pub fn set(&mut self, v: Vec<E>) -> E { if v.is_empty() { return self.nat(Nat::Set, vec![]); } let v = self.spread(v); self.e(EK::Set(v)) }
    pub fn dict(&mut self, v: Vec<(E, E)>) -> E {
        if v.is_empty() { return self.nat(Nat::Dict, vec![]); }
        if !self.chance(1, 12) { return self.e(EK::Dict(v.into_iter().map(|(a, b)| DArg::Pair(a, b)).collect())); }
        // some of them in unrolled dicts or lists of pairs, but at least one as it is
        let keep = self.g.s.below(v.len());
        let mut out = Vec::new();
        let mut group: Vec<(E, E)> = Vec::new();
        let n = v.len();
        for (i, x) in v.into_iter().enumerate() {
            if i != keep && self.chance(2, 3) { group.push(x); if i + 1 < n && i + 1 != keep && self.chance(1, 2) { continue; } }
            else { if !group.is_empty() { let d = self.pairs(std::mem::take(&mut group)); out.push(d); } out.push(DArg::Pair(x.0, x.1)); continue; }
            let d = self.pairs(std::mem::take(&mut group));
            out.push(d);
        }
        self.e(EK::Dict(out))
    }
    fn pairs(&mut self, v: Vec<(E, E)>) -> DArg {
        let e = if self.chance(1, 2) { self.e(EK::Dict(v.into_iter().map(|(a, b)| DArg::Pair(a, b)).collect())) } else {
            let l = v.into_iter().map(|(a, b)| if self.chance(1, 2) { self.e(EK::List(vec![Arg::E(a), Arg::E(b)])) } else { self.e(EK::Vector(vec![Arg::E(a), Arg::E(b)])) }).collect();
            self.g.list_lit(l)
        };
        DArg::Unroll(self.g.uid(), e)
    }
    /// Elements of a literal, some of which may be in unrolled ones
    fn spread(&mut self, v: Vec<E>) -> Vec<Arg> {
        if v.is_empty() || !self.chance(1, 20) { return v.into_iter().map(Arg::E).collect(); }
        let mut out = Vec::new();
        let mut group: Vec<E> = Vec::new();
        let n = v.len();
        for (i, x) in v.into_iter().enumerate() {
            group.push(x);
            if i + 1 < n && self.chance(1, 2) { continue; }
            let g = std::mem::take(&mut group);
            if g.len() == 1 && self.chance(1, 2) { out.extend(g.into_iter().map(Arg::E)); continue; }
            let l = if g.len() > 1 && self.chance(1, 3) { self.e(EK::Vector(g.into_iter().map(Arg::E).collect())) } else { self.g.list_lit(g) };
            if self.chance(1, 8) { let (e, id) = (self.g.list_lit(vec![]), self.g.uid()); out.push(Arg::Unroll(id, e)); }
            let id = self.g.uid();
            out.push(Arg::Unroll(id, l));
        }
        out
    }
    pub fn vector(&mut self, v: Vec<E>) -> E {
        if v.len() < 2 { let l = self.list(v); return self.nat(Nat::Vector, vec![l]); }
        let v = self.spread(v);
        self.e(EK::Vector(v))
    }
    pub fn index(&mut self, a: E, i: E) -> E { self.e(EK::Index(Box::new(a), Box::new(i))) }
    pub fn lam(&mut self, ps: &[&str], body: E) -> E {
        let id = self.g.uid();
        let params = ps.iter().map(|n| Param { pat: Pat::Lv(Lv::Var(n.to_string())), k: PK::Req }).collect();
        self.e(EK::Lambda(Rc::new(FnDef { id, name: "_".into(), params, body: Body::Expr(body) })))
    }
    pub fn lam_block(&mut self, ps: &[&str], body: Vec<S>) -> E {
        let id = self.g.uid();
        let params = ps.iter().map(|n| Param { pat: Pat::Lv(Lv::Var(n.to_string())), k: PK::Req }).collect();
        self.e(EK::Lambda(Rc::new(FnDef { id, name: "_".into(), params, body: Body::Block(body) })))
    }
    pub fn se(&mut self, e: E) -> S { self.g.st(SK::Expr(e)) }
    pub fn let_(&mut self, n: &str, e: E) -> S { self.g.st(SK::Let(vec![(vec![Pat::Lv(Lv::Var(n.to_string()))], Some(e))])) }
    pub fn print(&mut self, a: Vec<E>) -> S { let e = self.nat(Nat::Print, a); self.se(e) }
    pub fn repr(&mut self, e: E) -> E { self.nat(Nat::Repr, vec![e]) }
    /// `print(repr(e)...)`
    pub fn show(&mut self, a: Vec<E>) -> S { let a = a.into_iter().map(|e| self.repr(e)).collect(); self.print(a) }
    /// Another name for a value
    pub fn hold(&mut self, k: K, e: E) -> String {
        let n = format!("v{}", self.vars.len());
        let s = self.let_(&n, e);
        self.setup.push(s);
        self.vars.push((n.clone(), k));
        n
    }
    pub fn fresh(&mut self) -> String { self.g.fresh_name("z") }

    pub fn pick_var(&mut self) -> (String, K) { let i = self.g.s.below(self.vars.len()); self.vars[i].clone() }

    // ----- values -----

    pub fn int_value(&mut self) -> i64 {
        let s = &mut self.g.s;
        match self.ints {
            Ints::Small => s.int(-1, 5) - if s.chance(1, 6) { 3 } else { 0 },
            Ints::Mixed => self.g.int_value(),
            Ints::Edge => match s.weighted(&[6, 3, 4, 3, 3, 2]) {
                0 => s.int(-9, 12),
                1 => s.int(-70, 130),
                2 => { let k = s.int(0, 61); let x = 1i64 << k; let d = s.int(-2, 2); if s.chance(1, 2) { -(x + d) } else { x + d } }
                3 => *s.pick(&[MAX_INT, MIN_INT, MAX_INT - 1, MIN_INT + 1, 62, 63, 64, -62, -63, -64, 1 << 31, -(1 << 31), (1 << 32) - 1, 1 << 32, 3037000499, 3037000500, -3037000500, 2147483647, 1 << 61, -(1 << 61)]),
                4 => { let sh = s.below(62); let x = (s.draw(0) as i64) >> 1 >> sh; x.clamp(MIN_INT, MAX_INT) }
                _ => { let k = s.int(1, 19); let mut x: i64 = 1; for _ in 0..k.min(18) { x *= 10; } if s.chance(1, 2) { -x } else { x } }
            },
        }
    }

    pub fn text(&mut self, max: usize) -> String {
        let n = self.g.s.below(max + 1);
        let cs = self.chars;
        (0..n).map(|_| *self.g.s.pick(cs)).collect()
    }

    pub fn int(&mut self) -> E { let i = self.int_value(); self.i(i) }
    pub fn bool(&mut self) -> E { let b = self.chance(1, 2); self.e(EK::Bool(b)) }
    pub fn str(&mut self) -> E { let t = self.text(4); self.g.str_lit(&t) }
    pub fn complex(&mut self) -> E {
        let (a, b) = (self.int_value(), self.int_value());
        let b = if b == 0 { 1 } else { b };
        let im = self.e(EK::Imag(b.abs().min(MAX_INT)));
        if a == 0 && b > 0 { return im; }
        let a = self.i(a);
        self.bin(if b < 0 { Op::Sub } else { Op::Add }, a, im)
    }
    pub fn rational(&mut self) -> E {
        let a = self.int();
        if self.chance(1, 8) { return self.nat(Nat::Rational, vec![a]); }
        let mut b = self.int_value();
        if b == 0 { b = 2; }
        if self.ints != Ints::Small && self.chance(1, 8) {
            let t = format!("{}{:030}/{}", self.int_value(), self.int_value().unsigned_abs(), b.unsigned_abs());
            let t = self.t(&t);
            return self.nat(Nat::Rational, vec![t]);
        }
        let b = self.i(b);
        self.nat(Nat::Rational, vec![a, b])
    }

    pub fn strukt(&mut self) {
        if self.strukt { return; }
        self.strukt = true;
        let a = self.g.st(SK::Struct("S".into(), vec!["p".into(), "q".into()], vec![]));
        let b = self.g.st(SK::Struct("T".into(), vec!["q".into()], vec![]));
        self.setup.insert(0, b);
        self.setup.insert(0, a);
    }

    pub fn scalar(&mut self) -> K { let i = self.g.s.weighted(&[8, 2, 4, 1, 1, 1]); SCALARS[i] }

    /// Elements of a collection: usually of one kind
    pub fn elems(&mut self, n: usize, d: u32) -> Vec<E> {
        let k = if d > 0 && self.chance(1, 5) { *self.g.s.pick(&[K::List, K::Vect, K::Set, K::Dict]) } else { self.scalar() };
        let mixed = self.chance(1, 6);
        (0..n).map(|_| { let k = if mixed { self.scalar() } else { k }; self.value(k, d.saturating_sub(1)) }).collect()
    }

    /// Elements which can be ordered
    pub fn ordered(&mut self, n: usize) -> Vec<E> {
        let k = *self.g.s.pick(&[K::Int, K::Str, K::Int, K::Vect, K::Rat]);
        (0..n).map(|_| match k {
            K::Vect => { let (a, b) = (self.int(), self.int()); self.vector(vec![a, b]) }
            k => self.value(k, 0),
        }).collect()
    }

    pub fn value(&mut self, k: K, d: u32) -> E {
        match k {
            K::Nil => self.e(EK::Nil),
            K::Bool => self.bool(),
            K::Int => self.int(),
            K::Cx => self.complex(),
            K::Rat => self.rational(),
            K::Str => self.str(),
            K::List => { let n = self.g.s.weighted(&[2, 2, 3, 3, 2, 1]); let v = self.elems(n, d); self.list(v) }
            K::Set => { let n = self.g.s.weighted(&[1, 2, 3, 3, 1]); let v = self.elems(n, d); self.set(v) }
            K::Vect => { let n = self.g.s.weighted(&[1, 1, 4, 4, 1]); let v = self.elems(n, d); self.vector(v) }
            K::Dict => { let n = self.g.s.weighted(&[1, 2, 3, 2]); let a = self.elems(n, 0); let b = self.elems(n, d); self.dict(a.into_iter().zip(b).collect()) }
            K::Heap => { let n = self.g.s.weighted(&[1, 3, 2, 2]); let v = self.ordered(n); let v = self.list(v); self.nat(Nat::Heap, vec![v]) }
            K::Range => self.range(),
            K::Enum => { let k = *self.g.s.pick(&[K::List, K::Str, K::Set, K::Range, K::Vect]); let x = self.value(k, 0); self.nat(Nat::Enumerate, vec![x]) }
            K::Struct => {
                self.strukt();
                let a = self.scalar_value();
                if self.chance(1, 4) { let f = self.v("T"); return self.call(f, vec![a]); }
                let b = self.scalar_value();
                let f = self.v("S");
                self.call(f, vec![a, b])
            }
            K::Fn => self.function(1),
            K::Type => { if self.chance(1, 6) { self.strukt(); let n = *self.g.s.pick(&["S", "T"]); return self.v(n); } let n = *self.g.s.pick(&[Nat::Int, Nat::Str, Nat::List, Nat::Bool, Nat::Complex, Nat::Rational, Nat::Set, Nat::Dict, Nat::Vector, Nat::Heap, Nat::Iterable, Nat::Function, Nat::Any, Nat::Range, Nat::Enumerate]); self.f(n) }
        }
    }

    pub fn scalar_value(&mut self) -> E { let k = self.scalar(); self.value(k, 0) }
    pub fn any(&mut self, d: u32) -> E {
        let i = self.g.s.weighted(&[6, 4, 4, 2, 1, 2, 2, 3, 3, 2, 3, 2, 1, 2, 2, 1]);
        self.value(ALL[i], d)
    }

    /// A short range
    pub fn range(&mut self) -> E {
        let a = self.g.s.int(-3, 4);
        let n = self.g.s.int(0, 6);
        match self.g.s.weighted(&[3, 2, 4]) {
            0 => { let n = self.i(n); self.nat(Nat::Range, vec![n]) }
            1 => { let (a, b) = (self.i(a), self.i(a + n)); self.nat(Nat::Range, vec![a, b]) }
            _ => {
                let c = *self.g.s.pick(&[1, 2, -1, 3, -2, -4]);
                let r = self.g.s.int(0, 3).min((c as i64).abs() - 1);
                let (a, b, c) = (self.i(a), self.i(a + c * n - r * (c as i64).signum()), self.i(c));
                self.nat(Nat::Range, vec![a, b, c])
            }
        }
    }

    /// The value, or a variable which holds it
    pub fn maybe_var(&mut self, k: K, e: E) -> E { if self.chance(1, 2) { let n = self.hold(k, e); self.v(&n) } else { e } }

    /// A name used already, or the value
    pub fn arg(&mut self, k: K, d: u32) -> E {
        let names: Vec<String> = self.vars.iter().filter(|v| v.1 == k).map(|v| v.0.clone()).collect();
        if !names.is_empty() && self.chance(2, 3) { let n = self.g.s.pick(&names).clone(); return self.v(&n); }
        self.value(k, d)
    }

    /// `{ print(tag, x...); e }`
    pub fn noisy(&mut self, ps: &[&str], e: E) -> E {
        let mut a = vec![self.t("f")];
        for p in ps { let v = self.v(p); let v = self.repr(v); a.push(v); }
        let p = self.print(a);
        let r = self.se(e);
        self.lam_block(ps, vec![p, r])
    }

    /// A function of one or two arguments
    pub fn function(&mut self, nargs: usize) -> E {
        let f = if nargs == 1 {
            match self.g.s.weighted(&[3, 3, 2, 2, 2, 2, 1, 1, 2, 2, 1]) {
                0 => { let x = self.int(); let o = *self.g.s.pick(&[Op::Add, Op::Mul, Op::Mod, Op::Lt, Op::Eq, Op::Ge, Op::Ne]); self.e(EK::SectR(o, Box::new(x))) }
                1 => { let n = *self.g.s.pick(&[Nat::Str, Nat::Repr, Nat::TypeOf, Nat::Bool, Nat::Len, Nat::Abs, Nat::Any]); if n == Nat::Any { self.f(Nat::Repr) } else { self.f(n) } }
                2 => { let x = self.v("x"); self.lam(&["x"], x) }
                3 => { let (x, y) = (self.v("x"), self.v("x")); let b = self.list(vec![x, y]); self.lam(&["x"], b) }
                4 => { let x = self.v("x"); let k = self.int(); let b = self.bin(Op::Mod, x, k); self.lam(&["x"], b) }
                5 => { let x = self.v("x"); let k = self.scalar_value(); let b = self.bin(Op::Eq, x, k); self.lam(&["x"], b) }
                6 => { let i = self.int(); self.e(EK::List(vec![Arg::E(i)])) }
                7 => self.e(EK::UnFn(Un::LNot)),
                8 => { let x = self.v("x"); let b = self.vector_of(x); self.lam(&["x"], b) }
                9 => { let x = self.v("x"); let b = self.nat(Nat::Str, vec![x]); self.lam(&["x"], b) }
                _ => { let x = self.scalar_value(); self.e(EK::SectR(Op::Is, Box::new(x))) }
            }
        } else {
            match self.g.s.weighted(&[3, 3, 2, 2]) {
                0 => { let o = *self.g.s.pick(&[Op::Add, Op::Mul, Op::Sub, Op::Xor]); self.e(EK::OpFn(o)) }
                1 => { let (x, y) = (self.v("x"), self.v("y")); let b = self.bin(Op::Sub, x, y); self.lam(&["x", "y"], b) }
                2 => { let n = *self.g.s.pick(&[Nat::Max, Nat::List, Nat::Vector, Nat::Min, Nat::Zip, Nat::List]); self.f(n) }
                _ => { let (x, y) = (self.v("x"), self.v("y")); let b = self.list(vec![x, y]); self.lam(&["x", "y"], b) }
            }
        };
        if self.effects && self.chance(1, 3) {
            let ps: &[&str] = if nargs == 1 { &["x"] } else { &["x", "y"] };
            let a = ps.iter().map(|p| self.v(p)).collect();
            let f = self.e(EK::Paren(Box::new(f)));
            let b = self.call(f, a);
            return self.noisy(ps, b);
        }
        f
    }

    fn vector_of(&mut self, x: E) -> E { let y = self.int(); self.vector(vec![x, y]) }

    pub fn paren(&mut self, f: E) -> E { if matches!(f.k, EK::Lambda(_)) { self.e(EK::Paren(Box::new(f))) } else { f } }

    /// One operator on two operands, in each of its forms
    pub fn forms(&mut self, o: Op, x: &mut dyn FnMut(&mut Self) -> (E, E)) -> E {
        match self.g.s.weighted(&[6, 2, 1, 2, 2, 1, 2, 1]) {
            0 => { let (a, b) = x(self); self.bin(o, a, b) }
            1 => { let (a, b) = x(self); let f = self.e(EK::OpFn(o)); self.call(f, vec![a, b]) }
            2 => { let (a, b) = x(self); let f = self.e(EK::OpFn(o)); if o == Op::Sub { return self.call(f, vec![a, b]); } let f = self.call(f, vec![a]); self.call(f, vec![b]) }
            3 if o != Op::Sub => { let (a, b) = x(self); let f = self.e(EK::SectL(Box::new(a), o)); self.call(f, vec![b]) }
            4 | 3 if o != Op::Sub => { let (a, b) = x(self); let f = self.e(EK::SectR(o, Box::new(b))); self.call(f, vec![a]) }
            5 if o != Op::Sub => { let (a, b) = x(self); let f = self.e(EK::SectR(o, Box::new(b))); self.e(EK::Comp(Box::new(a), Box::new(f))) }
            6 if o.is_arith() => {
                // through an assignment operator
                let (a, b) = x(self);
                let z = self.fresh();
                let l = self.let_(&z, a);
                let w = self.g.st(SK::Expr(E { id: 0, k: EK::Nil }));
                let _ = w;
                let op = self.e(EK::OpAssign(Lv::Var(z.clone()), AOp::Op(o), Box::new(b)));
                let r = if self.chance(1, 2) { vec![l, self.se(op)] } else { let s = self.se(op); let v = self.v(&z); vec![l, s, self.se(v)] };
                let f = self.lam_block(&[], r);
                let f = self.e(EK::Paren(Box::new(f)));
                self.call(f, vec![])
            }
            7 if o.is_arith() => {
                let (a, b) = x(self);
                let z = self.fresh();
                let i = self.list(vec![a]);
                let l = self.let_(&z, i);
                let v = self.v(&z);
                let zero = self.i(0);
                let op = self.e(EK::OpAssign(Lv::Index(Box::new(v), Box::new(zero)), AOp::Op(o), Box::new(b)));
                let s = self.se(op);
                let v = self.v(&z);
                let zero = self.i(-1);
                let r = self.index(v, zero);
                let r = self.se(r);
                let f = self.lam_block(&[], vec![l, s, r]);
                let f = self.e(EK::Paren(Box::new(f)));
                self.call(f, vec![])
            }
            _ => { let (a, b) = x(self); self.bin(o, a, b) }
        }
    }

    pub fn forms_simple(&mut self, o: Op, a: E, b: E) -> E {
        let mut ab = Some((a, b));
        self.forms(o, &mut |_| ab.take().unwrap())
    }

    // ----- running -----

    /// Runs the operations which the model can decide; of those which fail, one at most is kept and put last
    pub fn run(self, cx: &mut Cx) -> Result<(), Failure> {
        let Vals { g, setup, ops, .. } = self;
        let mut it = Interp::new();
        crate::model::value::reset_too_big();
        if std::env::var("VH_SHOW").is_ok() { eprintln!("{}", super::prog::print_program(&setup, Style::default(), 0).out); for o in &ops { eprintln!("{}", super::prog::print_program(o, Style::default(), 0).out); } }
        if it.line(&setup).is_err() { return cx.discard(); }
        let mut keep: Vec<Vec<S>> = Vec::new();
        let mut bad: Vec<Vec<S>> = Vec::new();
        let mut unknown = 0;
        for o in ops {
            match it.line(&o) {
                Ok(_) if !crate::model::value::is_too_big() => keep.push(o),
                Err(MEnd::Err(_)) => bad.push(o),
                _ => { unknown += 1; crate::model::value::reset_too_big(); }
            }
        }
        if unknown > 0 { cx.label("left out an unspecified operation"); }
        if keep.is_empty() && bad.is_empty() { return cx.discard(); }
        let n = keep.len();
        let mut prog = setup;
        prog.extend(keep.into_iter().flatten());
        if !bad.is_empty() { let i = g.s.below(bad.len()); prog.extend(bad.swap_remove(i)); }
        match check(&prog, Style::default(), 0, cx)? {
            Verdict::Discard => return cx.discard(),
            Verdict::Ok { failed } => cx.label(if failed { "ends in an error" } else { "ends normally" }),
        }
        cx.nontrivial = n >= 2;
        Ok(())
    }
}
