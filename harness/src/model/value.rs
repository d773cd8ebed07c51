//! Values of the reference model. Written from the language and library reference: collections are plain
//! insertion-ordered vectors searched linearly, with no hashing, no laziness tricks and no pointer packing.

use std::cell::RefCell;
use std::cmp::Ordering;
use std::rc::Rc;

use rug::{Integer, Rational};

use super::ast::FnDef;
use super::interp::Env;
use super::natives::Nat;

pub const MIN_INT: i64 = -(1 << 62);
pub const MAX_INT: i64 = (1 << 62) - 1;

/// Reduces an exact integer to a 63-bit two's complement one
pub fn wrap63(x: i128) -> i64 {
    let m: i128 = 1 << 63;
    let mut r = x.rem_euclid(m);
    if r >= m / 2 { r -= m; }
    r as i64
}

#[derive(Clone)]
pub enum V {
    Nil,
    Bool(bool),
    Int(i64),
    Cx(i64, i64),
    Rat(Rc<Rational>),
    Str(Rc<str>),
    List(Rc<RefCell<Vec<V>>>),
    Set(Rc<RefCell<Vec<V>>>),
    Dict(Rc<RefCell<DictV>>),
    /// kept in ascending order
    Heap(Rc<RefCell<Vec<V>>>),
    Vector(Rc<RefCell<Vec<V>>>),
    Struct(Rc<StructV>),
    SType(Rc<StypeV>),
    Range(i64, i64, i64),
    Enum(Rc<V>),
    Slice(Rc<[V; 3]>),
    Field(Rc<str>),
    Nat(Nat),
    Fn(Rc<ClosureV>),
    /// partially evaluated user function
    Part(Rc<(Rc<ClosureV>, Vec<V>)>),
    /// partially evaluated native: leading arguments
    PartNat(Rc<(Nat, Vec<V>)>),
    Memo(Rc<MemoV>),
}

pub struct DictV { pub e: Vec<(V, V)>, pub default: Option<V> }
pub struct StructV { pub ty: Rc<StypeV>, pub f: RefCell<Vec<V>> }
pub struct StypeV {
    pub name: Rc<str>,
    pub fields: Vec<Rc<str>>,
    pub module: bool,
    /// name, function, takes self
    pub methods: RefCell<Vec<(Rc<str>, V, bool)>>,
}
pub struct ClosureV { pub def: Rc<FnDef>, pub env: Env }
pub struct MemoV { pub f: V, pub cache: RefCell<Vec<(Vec<V>, V)>> }

pub fn int(x: i128) -> V { V::Int(wrap63(x)) }
pub fn cx(re: i64, im: i64) -> V { if im == 0 { V::Int(wrap63(re as i128)) } else { V::Cx(re, im) } }
pub fn rat(r: Rational) -> V { V::Rat(Rc::new(r)) }
pub fn st(s: &str) -> V { if s.len() > TOO_BIG { set_too_big(); return V::Str("".into()); } V::Str(s.into()) }
pub fn list(v: Vec<V>) -> V { V::List(Rc::new(RefCell::new(v))) }
pub fn vector(v: Vec<V>) -> V { V::Vector(Rc::new(RefCell::new(v))) }
pub fn set(v: Vec<V>) -> V {
    let mut r: Vec<V> = Vec::new();
    for x in v { hashed(&x); if !r.iter().any(|y| eq(y, &x)) { r.push(x); } }
    V::Set(Rc::new(RefCell::new(r)))
}
pub fn dict(v: Vec<(V, V)>) -> V {
    let mut d = DictV { e: Vec::new(), default: None };
    for (k, x) in v { d.insert(k, x); }
    V::Dict(Rc::new(RefCell::new(d)))
}
pub fn heap(mut v: Vec<V>) -> V {
    v.sort_by(cmp);
    V::Heap(Rc::new(RefCell::new(v)))
}

impl DictV {
    pub fn get(&self, k: &V) -> Option<V> { hashed(k); self.e.iter().find(|(x, _)| eq(x, k)).map(|(_, v)| v.clone()) }
    /// An existing entry keeps its place and its key
    pub fn insert(&mut self, k: V, v: V) {
        hashed(&k);
        match self.e.iter_mut().find(|(x, _)| eq(x, &k)) {
            Some(e) => e.1 = v,
            None => self.e.push((k, v)),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum T { Nil, Bool, Int, Cx, Rat, Str, List, Set, Dict, Heap, Vector, Struct, SType, Range, Enum, Slice, Field, Nat, Fn, Part, PartNat, Memo }

impl V {
    pub fn ty(&self) -> T {
        match self {
            V::Nil => T::Nil, V::Bool(_) => T::Bool, V::Int(_) => T::Int, V::Cx(..) => T::Cx, V::Rat(_) => T::Rat, V::Str(_) => T::Str,
            V::List(_) => T::List, V::Set(_) => T::Set, V::Dict(_) => T::Dict, V::Heap(_) => T::Heap, V::Vector(_) => T::Vector,
            V::Struct(_) => T::Struct, V::SType(_) => T::SType, V::Range(..) => T::Range, V::Enum(_) => T::Enum, V::Slice(_) => T::Slice,
            V::Field(_) => T::Field, V::Nat(_) => T::Nat, V::Fn(_) => T::Fn, V::Part(_) => T::Part, V::PartNat(_) => T::PartNat, V::Memo(_) => T::Memo,
        }
    }
    /// name used in error messages
    pub fn type_name(&self) -> &'static str {
        match self {
            V::Nil => "nil", V::Bool(_) => "bool", V::Int(_) => "int", V::Cx(..) => "complex", V::Rat(_) => "rational", V::Str(_) => "str",
            V::List(_) => "list", V::Set(_) => "set", V::Dict(_) => "dict", V::Heap(_) => "heap", V::Vector(_) => "vector",
            V::Struct(_) => "struct", V::SType(_) => "struct type", V::Range(..) => "range", V::Enum(_) => "enumerate", V::Slice(_) => "slice",
            V::Field(_) => "get field", V::Nat(_) => "native function",
            V::Fn(_) => "function",
            V::Part(_) => "partial function", V::PartNat(_) => "partial native function", V::Memo(_) => "memoized",
        }
    }
    pub fn truthy(&self) -> bool {
        match self {
            V::Nil => false,
            V::Bool(b) => *b,
            V::Int(i) => *i != 0,
            V::Str(s) => !s.is_empty(),
            V::List(l) | V::Set(l) | V::Heap(l) | V::Vector(l) => !l.borrow().is_empty(),
            V::Dict(d) => !d.borrow().e.is_empty(),
            V::Range(_, _, s) => *s != 0,
            V::Enum(v) => v.truthy(),
            _ => true,
        }
    }
    pub fn is_int(&self) -> bool { matches!(self, V::Int(_) | V::Bool(_)) }
    pub fn as_int(&self) -> Option<i64> {
        match self { V::Int(i) => Some(*i), V::Bool(b) => Some(*b as i64), _ => None }
    }
    pub fn as_cx(&self) -> Option<(i64, i64)> {
        match self { V::Cx(a, b) => Some((*a, *b)), v => v.as_int().map(|i| (i, 0)) }
    }
    pub fn as_rat(&self) -> Option<Rational> {
        match self { V::Rat(r) => Some((**r).clone()), v => v.as_int().map(Rational::from) }
    }
    pub fn is_function(&self) -> bool {
        match self {
            V::SType(_) => true,
            V::Slice(_) | V::Field(_) | V::Nat(_) | V::Fn(_) | V::Part(_) | V::PartNat(_) | V::Memo(_) => true,
            _ => false,
        }
    }
    pub fn is_iterable(&self) -> bool {
        matches!(self, V::Str(_) | V::List(_) | V::Set(_) | V::Dict(_) | V::Heap(_) | V::Vector(_) | V::Range(..) | V::Enum(_))
    }
    fn ptr(&self) -> usize {
        match self {
            V::List(l) | V::Set(l) | V::Heap(l) | V::Vector(l) => Rc::as_ptr(l) as *const () as usize,
            V::Dict(d) => Rc::as_ptr(d) as *const () as usize,
            V::Struct(s) => Rc::as_ptr(s) as *const () as usize,
            _ => 0,
        }
    }
    pub fn str(&self) -> String {
        match self {
            V::Str(s) => s.to_string(),
            V::Fn(c) => c.def.name.to_string(),
            V::Part(p) => p.0.def.name.to_string(),
            V::Nat(n) => n.name().to_string(),
            V::PartNat(p) => p.0.name().to_string(),
            v => v.repr(),
        }
    }
    pub fn repr(&self) -> String { let mut o = String::new(); self.repr_to(&mut Vec::new(), &mut o); o }

    fn repr_to(&self, seen: &mut Vec<usize>, o: &mut String) {
        if o.len() > TOO_BIG { set_too_big(); return; }
        fn seq(v: &V, items: &[V], a: &str, b: &str, seen: &mut Vec<usize>, o: &mut String) {
            let p = v.ptr();
            if seen.contains(&p) { o.push_str(a); o.push_str("..."); o.push_str(b); return; }
            seen.push(p);
            o.push_str(a);
            for (i, x) in items.iter().enumerate() {
                if i > 0 { o.push_str(", "); }
                x.repr_to(seen, o);
            }
            o.push_str(b);
            seen.pop();
        }
        match self {
            V::Nil => o.push_str("nil"),
            V::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            V::Int(i) => o.push_str(&i.to_string()),
            V::Cx(re, im) => if *re == 0 { o.push_str(&format!("{}i", im)) } else if *im < 0 { o.push_str(&format!("{} - {}i", re, (*im as i128).abs())) } else { o.push_str(&format!("{} + {}i", re, im)) },
            V::Rat(r) => o.push_str(&format!("{} / {}", r.numer(), r.denom())),
            V::Str(s) => o.push_str(&quote(s)),
            V::List(l) => seq(self, &l.borrow(), "[", "]", seen, o),
            V::Heap(l) => {
                let p = self.ptr();
                if seen.contains(&p) { o.push_str("[...]"); return; }
                // the order of all but the first is not specified
                let l = l.borrow();
                seen.push(p);
                let mut r = |x: &V| { let mut o = String::new(); x.repr_to(seen, &mut o); o };
                if l.len() > 2 { let a = r(&l[1]); if !l[2..].iter().all(|x| r(x) == a) { set_too_big(); } }
                // nor which of equal ones is the first
                if l.len() > 1 && r(&l[0]) != r(&l[1]) && cmp(&l[0], &l[1]).is_eq() { set_too_big(); }
                seen.pop();
                seq(self, &l, "[", "]", seen, o)
            }
            V::Set(l) => seq(self, &l.borrow(), "{", "}", seen, o),
            V::Vector(l) => seq(self, &l.borrow(), "(", ")", seen, o),
            V::Dict(d) => {
                let p = self.ptr();
                if seen.contains(&p) { o.push_str("{...}"); return; }
                seen.push(p);
                o.push('{');
                for (i, (k, v)) in d.borrow().e.iter().enumerate() {
                    if i > 0 { o.push_str(", "); }
                    k.repr_to(seen, o);
                    o.push_str(": ");
                    v.repr_to(seen, o);
                }
                o.push('}');
                seen.pop();
            }
            V::Struct(s) => {
                let p = self.ptr();
                if seen.contains(&p) { o.push_str(&format!("{}(...)", s.ty.name)); return; }
                seen.push(p);
                o.push_str(&s.ty.name);
                o.push('(');
                for (i, (k, v)) in s.ty.fields.iter().zip(s.f.borrow().iter()).enumerate() {
                    if i > 0 { o.push_str(", "); }
                    o.push_str(k);
                    o.push('=');
                    v.repr_to(seen, o);
                }
                o.push(')');
                seen.pop();
            }
            V::SType(t) => if t.module { o.push_str(&format!("module {}", t.name)) } else { o.push_str(&format!("struct {}({})", t.name, t.fields.join(", "))) },
            V::Range(_, _, 0) => o.push_str("range(empty)"),
            V::Range(a, b, c) => o.push_str(&format!("range({}, {}, {})", a, b, c)),
            V::Enum(v) => { o.push_str("enumerate("); v.repr_to(seen, o); o.push(')'); }
            V::Slice(s) => {
                let p = |v: &V| if let V::Nil = v { String::new() } else { v.as_int().unwrap().to_string() };
                match &s[2] { V::Nil => o.push_str(&format!("[{}:{}]", p(&s[0]), p(&s[1]))), c => o.push_str(&format!("[{}:{}:{}]", p(&s[0]), p(&s[1]), p(c))) }
            }
            V::Field(_) => o.push_str("(->)"),
            V::Nat(n) => o.push_str(&n.repr()),
            V::PartNat(p) => o.push_str(&p.0.repr()),
            V::Fn(c) => o.push_str(&c.def.repr()),
            V::Part(p) => o.push_str(&p.0.def.repr()),
            V::Memo(m) => { o.push_str("@memoize "); m.f.repr_to(seen, o); }
        }
    }
    /// as shown in error messages
    pub fn errstr(&self) -> String { format!("'{}' of type '{}'", self.str(), self.type_name()) }
}

pub fn quote(s: &str) -> String {
    let mut o = String::from("'");
    for c in s.chars() {
        match c {
            '\\' => o.push_str("\\\\"),
            '"' => o.push_str("\\\""),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c => o.push(c),
        }
    }
    o.push('\'');
    o
}

pub fn seq_eq(a: &[V], b: &[V]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| eq(x, y)) }

thread_local! { static DEPTH: std::cell::Cell<u32> = const { std::cell::Cell::new(0) }; }

/// Values which contain themselves are not compared or hashed
fn deep<T>(other: T, f: impl FnOnce() -> T) -> T {
    let d = DEPTH.with(|c| c.replace(c.get() + 1));
    let r = if d > 200 { set_too_big(); other } else { f() };
    DEPTH.with(|c| c.set(d));
    r
}

/// Calls `f` for every value within, stopping when it returns false
pub fn each(v: &V, f: &mut dyn FnMut(&V) -> bool) -> bool {
    if !f(v) { return false; }
    deep(false, || match v {
        V::List(l) | V::Vector(l) | V::Set(l) | V::Heap(l) => l.borrow().iter().all(|x| each(x, f)),
        V::Dict(d) => d.borrow().e.iter().all(|(k, x)| each(k, f) && each(x, f)),
        V::Struct(s) => s.f.borrow().iter().all(|x| each(x, f)),
        V::Enum(x) => each(x, f),
        V::Part(p) => p.1.iter().all(|x| each(x, f)),
        V::PartNat(p) => p.1.iter().all(|x| each(x, f)),
        _ => true,
    })
}

pub fn hashed(v: &V) { let mut n = 0; each(v, &mut |_| { n += 1; if n > 20000 { set_too_big(); } n <= 20000 }); }

/// Whether hashing this value would hash the collection
pub fn reaches(v: &V, target: &V) -> bool {
    let mut found = false;
    each(v, &mut |x| {
        found |= match (x, target) { (V::Set(a), V::Set(b)) => Rc::ptr_eq(a, b), (V::Dict(a), V::Dict(b)) => Rc::ptr_eq(a, b), _ => false };
        !found
    });
    found
}

pub fn eq(a: &V, b: &V) -> bool { deep(false, || eq_(a, b)) }

fn eq_(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::Nil, V::Nil) => true,
        (V::Bool(a), V::Bool(b)) => a == b,
        (V::Int(a), V::Int(b)) => a == b,
        (V::Cx(a, b), V::Cx(c, d)) => a == c && b == d,
        (V::Rat(a), V::Rat(b)) => a == b,
        (V::Rat(r), V::Int(i)) | (V::Int(i), V::Rat(r)) => **r == *i,
        (V::Str(a), V::Str(b)) => a == b,
        (V::List(a), V::List(b)) | (V::Vector(a), V::Vector(b)) => Rc::ptr_eq(a, b) || seq_eq(&a.borrow(), &b.borrow()),
        (V::Heap(a), V::Heap(b)) => Rc::ptr_eq(a, b) || {
            let (a, b) = (a.borrow(), b.borrow());
            let mut used = vec![false; b.len()];
            a.len() == b.len() && a.iter().all(|x| match (0..b.len()).find(|i| !used[*i] && eq(x, &b[*i])) { Some(i) => { used[i] = true; true } None => false })
        },
        (V::Set(a), V::Set(b)) => Rc::ptr_eq(a, b) || {
            let (a, b) = (a.borrow(), b.borrow());
            a.len() == b.len() && a.iter().all(|x| b.iter().any(|y| eq(x, y)))
        },
        (V::Dict(a), V::Dict(b)) => Rc::ptr_eq(a, b) || {
            let (a, b) = (a.borrow(), b.borrow());
            a.e.len() == b.e.len() && a.e.iter().all(|(k, v)| b.e.iter().any(|(k2, v2)| eq(k, k2) && eq(v, v2)))
        },
        (V::Struct(a), V::Struct(b)) => Rc::ptr_eq(a, b) || (Rc::ptr_eq(&a.ty, &b.ty) && seq_eq(&a.f.borrow(), &b.f.borrow())),
        (V::SType(a), V::SType(b)) => Rc::ptr_eq(a, b),
        (V::Range(_, _, 0), V::Range(_, _, 0)) => true,
        (V::Range(a, b, c), V::Range(d, e, f)) => a == d && b == e && c == f,
        (V::Enum(a), V::Enum(b)) => eq(a, b),
        (V::Slice(a), V::Slice(b)) => seq_eq(&a[..], &b[..]),
        (V::Nat(a), V::Nat(b)) => a == b,
        (V::Field(a), V::Field(b)) => a == b,
        // whether two evaluations of one declaration make the same function is not specified, so such programs are not considered
        (V::Fn(a), V::Fn(b)) => Rc::ptr_eq(a, b) || { if Rc::ptr_eq(&a.def, &b.def) { set_too_big() } false },
        (V::Part(a), V::Part(b)) => Rc::ptr_eq(&a.0, &b.0) && seq_eq(&a.1, &b.1),
        (V::PartNat(a), V::PartNat(b)) => a.0 == b.0 && seq_eq(&a.1, &b.1),
        (V::Memo(a), V::Memo(b)) => eq(&a.f, &b.f),
        _ => false,
    }
}

pub fn seq_cmp(a: &[V], b: &[V]) -> Ordering {
    for (x, y) in a.iter().zip(b) {
        match cmp(x, y) { Ordering::Equal => {} o => return o }
    }
    a.len().cmp(&b.len())
}

/// `true` if the two values have a documented order relative to each other
pub fn ordered(a: &V, b: &V) -> bool { deep(false, || ordered_(a, b)) }

fn ordered_(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::Nil | V::Bool(_) | V::Int(_), V::Nil | V::Bool(_) | V::Int(_)) => true,
        (V::Cx(..), V::Cx(..) | V::Int(_) | V::Bool(_)) | (V::Int(_) | V::Bool(_), V::Cx(..)) => true,
        (V::Rat(_), V::Rat(_) | V::Int(_) | V::Bool(_)) | (V::Int(_) | V::Bool(_), V::Rat(_)) => true,
        (V::Str(_), V::Str(_)) => true,
        (V::List(x), V::List(y)) | (V::Vector(x), V::Vector(y)) => x.borrow().iter().zip(y.borrow().iter()).all(|(p, q)| ordered(p, q)),
        (V::Struct(x), V::Struct(y)) => Rc::ptr_eq(&x.ty, &y.ty) && x.f.borrow().iter().zip(y.f.borrow().iter()).all(|(p, q)| ordered(p, q)),
        _ => false,
    }
}

fn rank(v: &V) -> u8 { match v { V::Nil => 0, V::Bool(_) => 1, _ => 2 } }

pub fn cmp(a: &V, b: &V) -> Ordering { deep(Ordering::Equal, || cmp_(a, b)) }

fn cmp_(a: &V, b: &V) -> Ordering {
    match (a, b) {
        (V::Nil | V::Bool(_) | V::Int(_), V::Nil | V::Bool(_) | V::Int(_)) => {
            let (x, y) = (a.as_int().unwrap_or(0), b.as_int().unwrap_or(0));
            x.cmp(&y).then(rank(a).cmp(&rank(b)))
        }
        // not specified
        (V::Rat(_), V::Nil) | (V::Nil, V::Rat(_)) | (V::Rat(_), V::Cx(..)) | (V::Cx(..), V::Rat(_)) => { set_too_big(); Ordering::Equal }
        (V::Cx(_, im), V::Nil) => im.cmp(&0),
        (V::Nil, V::Cx(_, im)) => 0.cmp(im),
        (V::Cx(..), V::Cx(..) | V::Int(_) | V::Bool(_)) | (V::Int(_) | V::Bool(_), V::Cx(..)) => {
            let ((ar, ai), (br, bi)) = (a.as_cx().unwrap(), b.as_cx().unwrap());
            ai.cmp(&bi).then(ar.cmp(&br))
        }
        (V::Rat(_), V::Rat(_) | V::Int(_) | V::Bool(_)) | (V::Int(_) | V::Bool(_), V::Rat(_)) => a.as_rat().unwrap().cmp(&b.as_rat().unwrap()),
        (V::Str(a), V::Str(b)) => a.chars().cmp(b.chars()),
        (V::List(a), V::List(b)) | (V::Vector(a), V::Vector(b)) | (V::Set(a), V::Set(b)) => seq_cmp(&a.borrow(), &b.borrow()),
        (V::Dict(a), V::Dict(b)) => {
            let keys = |d: &Rc<RefCell<DictV>>| d.borrow().e.iter().map(|(k, _)| k.clone()).collect::<Vec<_>>();
            seq_cmp(&keys(a), &keys(b))
        }
        (V::Struct(a), V::Struct(b)) if Rc::ptr_eq(&a.ty, &b.ty) => seq_cmp(&a.f.borrow(), &b.f.borrow()),
        // values of different types compare equal, those of one type without a documented order are not considered
        _ => { if a.type_name() == b.type_name() { set_too_big(); } Ordering::Equal }
    }
}

pub fn rat_from(n: Integer, d: Integer) -> Rational { Rational::from((n, d)) }

/// Deep equality of structure used to compare a copy with its original, including shared and self references
pub fn iter_values(v: &V) -> Option<Vec<V>> {
    Some(match v {
        V::Str(s) => s.chars().map(|c| V::Str(c.to_string().into())).collect(),
        V::List(l) | V::Set(l) | V::Vector(l) | V::Heap(l) => l.borrow().clone(),
        V::Dict(d) => d.borrow().e.iter().map(|(k, v)| vector(vec![k.clone(), v.clone()])).collect(),
        V::Range(a, b, c) => {
            let mut r = Vec::new();
            let (mut x, b, c) = (*a as i128, *b as i128, *c as i128);
            if c != 0 {
                while (c > 0 && x < b) || (c < 0 && x > b) {
                    if r.len() > 20_000 { return None; }
                    r.push(V::Int(x as i64));
                    x += c;
                }
            }
            r
        }
        V::Enum(v) => iter_values(v)?.into_iter().enumerate().map(|(i, x)| vector(vec![V::Int(i as i64), x])).collect(),
        _ => return None,
    })
}

/// Programs which build huge values are not considered
pub const TOO_BIG: usize = 200_000;
thread_local! { static BIG: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
pub fn set_too_big() { BIG.with(|b| b.set(true)); }
pub fn reset_too_big() { BIG.with(|b| b.set(false)); }
pub fn is_too_big() -> bool { BIG.with(|b| b.get()) }
