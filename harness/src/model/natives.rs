//! Native functions of the reference model.

use std::rc::Rc;

use rug::{Integer, Rational};

use super::interp::{err, unknown, Interp, R};
use super::ops::{binary, copy, unary, Op, Un};
use super::regex::Re;
use super::value::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Args { Arg0, Arg0To1, Arg1, Arg1To2, Arg1To3, Arg2, Arg3, Unique, UniqueNonEmpty, Iter, IterNonEmpty, Invalid }

impl std::hash::Hash for Op { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { (*self as u8).hash(h) } }

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Nat {
    Read, ReadLine, Print, ReadText, WriteText, Env, Argv, Bool, Int, Complex, Rational, Str, List, Set, Dict, Heap, Vector, Function, Iterable, Repr, Eval, TypeOf, Monitor, ToLower, ToUpper, Replace, Search, Trim, Split, Join, Char, Ord, Hex, Bin, Len, Range, Enumerate, Sum, Min, Max, MinBy, MaxBy, Map, Filter, FlatMap, Concat, Zip, Reduce, Sort, SortBy, GroupBy, Reverse, Permutations, Combinations, Any, All, Memoize, Union, Intersect, Difference, Counter, Copy, Peek, Pop, PopFront, Push, PushFront, Insert, Remove, Clear, Find, RightFind, IndexOf, RightIndexOf, Default, Keys, Values, Abs, Sqrt, Gcd, Lcm, CountOnes, CountZeros, Real, Imag, Numer, Denom,
    /// `(-)`, `(!)`, `(not)`, a binary operator, and one which takes its operands swapped
    OpSub, OpNot, OpLNot, Op(Op), OpSwap(Op),
}

const TABLE: [(Nat, &str, &str, Args); 87] = [
    (Nat::Read, "read", "", Args::Arg0),
    (Nat::ReadLine, "read_line", "", Args::Arg0),
    (Nat::Print, "print", "...", Args::Unique),
    (Nat::ReadText, "read_text", "file", Args::Arg1),
    (Nat::WriteText, "write_text", "file, text", Args::Arg2),
    (Nat::Env, "env", "...", Args::Arg0To1),
    (Nat::Argv, "argv", "", Args::Arg0),
    (Nat::Bool, "bool", "x", Args::Arg1),
    (Nat::Int, "int", "x, default?", Args::Arg1To2),
    (Nat::Complex, "complex", "", Args::Invalid),
    (Nat::Rational, "rational", "x", Args::Arg1To2),
    (Nat::Str, "str", "x", Args::Arg1),
    (Nat::List, "list", "...", Args::Iter),
    (Nat::Set, "set", "...", Args::Iter),
    (Nat::Dict, "dict", "...", Args::Iter),
    (Nat::Heap, "heap", "...", Args::Iter),
    (Nat::Vector, "vector", "...", Args::Unique),
    (Nat::Function, "function", "", Args::Invalid),
    (Nat::Iterable, "iterable", "", Args::Invalid),
    (Nat::Repr, "repr", "x", Args::Arg1),
    (Nat::Eval, "eval", "expr", Args::Arg1),
    (Nat::TypeOf, "typeof", "x", Args::Arg1),
    (Nat::Monitor, "monitor", "cmd", Args::Arg1),
    (Nat::ToLower, "to_lower", "x", Args::Arg1),
    (Nat::ToUpper, "to_upper", "x", Args::Arg1),
    (Nat::Replace, "replace", "pattern, replacer, x", Args::Arg3),
    (Nat::Search, "search", "pattern, x", Args::Arg2),
    (Nat::Trim, "trim", "x", Args::Arg1),
    (Nat::Split, "split", "pattern, x", Args::Arg2),
    (Nat::Join, "join", "joiner, iter", Args::Arg2),
    (Nat::Char, "char", "x", Args::Arg1),
    (Nat::Ord, "ord", "x", Args::Arg1),
    (Nat::Hex, "hex", "x", Args::Arg1),
    (Nat::Bin, "bin", "x", Args::Arg1),
    (Nat::Len, "len", "x", Args::Arg1),
    (Nat::Range, "range", "start, stop, step", Args::Arg1To3),
    (Nat::Enumerate, "enumerate", "iter", Args::Arg1),
    (Nat::Sum, "sum", "...", Args::IterNonEmpty),
    (Nat::Min, "min", "...", Args::UniqueNonEmpty),
    (Nat::Max, "max", "...", Args::UniqueNonEmpty),
    (Nat::MinBy, "min_by", "key_or_cmp, iter", Args::Arg2),
    (Nat::MaxBy, "max_by", "key_or_cmp, iter", Args::Arg2),
    (Nat::Map, "map", "f, iter", Args::Arg2),
    (Nat::Filter, "filter", "f, iter", Args::Arg2),
    (Nat::FlatMap, "flat_map", "f, iter", Args::Arg2),
    (Nat::Concat, "concat", "iter", Args::Arg1),
    (Nat::Zip, "zip", "...", Args::IterNonEmpty),
    (Nat::Reduce, "reduce", "f, iter", Args::Arg2),
    (Nat::Sort, "sort", "...", Args::IterNonEmpty),
    (Nat::SortBy, "sort_by", "f, iter", Args::Arg2),
    (Nat::GroupBy, "group_by", "f, iter", Args::Arg2),
    (Nat::Reverse, "reverse", "...", Args::IterNonEmpty),
    (Nat::Permutations, "permutations", "n, iter", Args::Arg2),
    (Nat::Combinations, "combinations", "n, iter", Args::Arg2),
    (Nat::Any, "any", "f, it", Args::Arg2),
    (Nat::All, "all", "f, it", Args::Arg2),
    (Nat::Memoize, "memoize", "f", Args::Arg1),
    (Nat::Union, "union", "other, this", Args::Arg2),
    (Nat::Intersect, "intersect", "other, this", Args::Arg2),
    (Nat::Difference, "difference", "other, this", Args::Arg2),
    (Nat::Counter, "counter", "it", Args::Arg1),
    (Nat::Copy, "copy", "it", Args::Arg1),
    (Nat::Peek, "peek", "collection", Args::Arg1),
    (Nat::Pop, "pop", "collection", Args::Arg1),
    (Nat::PopFront, "pop_front", "collection", Args::Arg1),
    (Nat::Push, "push", "value, collection", Args::Arg2),
    (Nat::PushFront, "push_front", "value, collection", Args::Arg2),
    (Nat::Insert, "insert", "index, value, collection", Args::Arg3),
    (Nat::Remove, "remove", "param, collection", Args::Arg2),
    (Nat::Clear, "clear", "collection", Args::Arg1),
    (Nat::Find, "find", "predicate, collection", Args::Arg2),
    (Nat::RightFind, "rfind", "predicate, collection", Args::Arg2),
    (Nat::IndexOf, "index_of", "value_or_predicate, collection", Args::Arg2),
    (Nat::RightIndexOf, "rindex_of", "value_or_predicate, collection", Args::Arg2),
    (Nat::Default, "default", "value, dictionary", Args::Arg2),
    (Nat::Keys, "keys", "dictionary", Args::Arg1),
    (Nat::Values, "values", "dictionary", Args::Arg1),
    (Nat::Abs, "abs", "x", Args::Arg1),
    (Nat::Sqrt, "sqrt", "x", Args::Arg1),
    (Nat::Gcd, "gcd", "...", Args::IterNonEmpty),
    (Nat::Lcm, "lcm", "...", Args::IterNonEmpty),
    (Nat::CountOnes, "count_ones", "x", Args::Arg1),
    (Nat::CountZeros, "count_zeros", "x", Args::Arg1),
    (Nat::Real, "real", "x", Args::Arg1),
    (Nat::Imag, "imag", "x", Args::Arg1),
    (Nat::Numer, "numer", "x", Args::Arg1),
    (Nat::Denom, "denom", "x", Args::Arg1),
];

/// Library functions with a name
pub fn named() -> impl Iterator<Item = Nat> { TABLE.iter().map(|r| r.0) }

impl Nat {
    fn row(self) -> Option<&'static (Nat, &'static str, &'static str, Args)> { TABLE.iter().find(|r| r.0 == self) }
    pub fn name(self) -> String {
        match self {
            Nat::OpSub => "(-)".into(),
            Nat::OpNot => "(!)".into(),
            Nat::OpLNot => "(not)".into(),
            Nat::Op(o) | Nat::OpSwap(o) => format!("({})", o.text()),
            n => n.row().unwrap().1.into(),
        }
    }
    pub fn repr(self) -> String {
        let a = match self { Nat::OpSub | Nat::OpNot | Nat::OpLNot => "x", Nat::Op(_) | Nat::OpSwap(_) => "lhs, rhs", n => n.row().unwrap().2 };
        format!("fn {}({})", self.name(), a)
    }
    pub fn params(self) -> &'static str { self.row().map_or("", |r| r.2) }
    pub fn args(self) -> Args {
        match self { Nat::OpSub => Args::Arg1To2, Nat::OpNot | Nat::OpLNot => Args::Arg1, Nat::Op(_) | Nat::OpSwap(_) => Args::Arg2, n => n.row().unwrap().3 }
    }
    /// (fewest arguments which evaluate, most)
    pub fn arity(self) -> (usize, usize) {
        match self.args() {
            Args::Arg0 => (0, 0), Args::Arg0To1 => (0, 1), Args::Arg1 => (1, 1), Args::Arg1To2 => (1, 2), Args::Arg1To3 => (1, 3),
            Args::Arg2 => (2, 2), Args::Arg3 => (3, 3), Args::Unique | Args::Iter => (0, usize::MAX), Args::UniqueNonEmpty | Args::IterNonEmpty => (1, usize::MAX),
            Args::Invalid => (0, 0),
        }
    }
}

pub fn not_callable<T>(v: &V) -> R<T> { err(format!("Tried to evaluate {} but it is not a function.", v.repr())) }
fn bad_args<T>(n: Nat, k: usize) -> R<T> { err(format!("Incorrect number of arguments for {}, got {}", n.repr(), k)) }

/// Calls a native with all of its arguments, partially evaluating it if there are too few
pub fn call(it: &mut Interp, n: Nat, prior: usize, a: Vec<V>) -> R<V> {
    if n.args() == Args::Invalid { return not_callable(&V::Nat(n)); }
    let (lo, hi) = n.arity();
    if a.len() < lo {
        if n.args() == Args::UniqueNonEmpty || n.args() == Args::IterNonEmpty { return bad_args(n, a.len()); }
        if a.is_empty() { return Ok(V::Nat(n)); }
        return Ok(V::PartNat(Rc::new((n, a))));
    }
    let _ = prior;
    if a.len() > hi { return bad_args(n, a.len()); }
    use Nat::*;
    if let Map | Filter | FlatMap | Reduce | MinBy | MaxBy | SortBy | GroupBy | Any | All | Find | RightFind | IndexOf | RightIndexOf = n {
        // Changing a collection while a function iterates over it is not specified
        let c = a[1].clone();
        let before = contents(&c);
        it.watch.push((c, before));
        let r = apply(it, n, a);
        it.watch.pop();
        return r;
    }
    let expand = matches!(n.args(), Args::Iter | Args::IterNonEmpty) && a.len() == 1;
    if expand {
        let xs = iter(&a[0])?;
        return apply(it, n, xs);
    }
    apply(it, n, a)
}

/// Calls a function with each of the arguments. As the order is not specified, all calls must return, or fail alike
fn by_any_order<T>(a: impl Iterator<Item = Vec<V>>, mut f: impl FnMut(Vec<V>) -> R<T>) -> R<Vec<T>> {
    let mut r = Vec::new();
    let mut e: Option<Box<super::interp::ErrInfo>> = None;
    let class = |m: &str| m.split(':').next().unwrap_or("").to_string();
    for a in a {
        match f(a) {
            Ok(x) => if e.is_none() { r.push(x) } else { return unknown("some keys fail") },
            Err(super::interp::Ctl::Err(x)) => match &e {
                None if r.is_empty() => e = Some(x),
                Some(e) if class(&e.msg) == class(&x.msg) => {}
                _ => return unknown("some keys fail"),
            },
            Err(x) => return Err(x),
        }
    }
    match e { Some(e) => Err(super::interp::Ctl::Err(e)), None => Ok(r) }
}

/// Calls back from a function which iterates over a collection
fn cb(it: &mut Interp, f: &V, a: Vec<V>) -> R<V> {
    let r = it.call(f, a);
    if let Some((c, before)) = it.watch.last() { if !same_contents(before, &contents(c)) { return unknown("changed while iterating"); } }
    r
}

fn contents(v: &V) -> Vec<V> {
    match v {
        V::List(l) | V::Set(l) | V::Vector(l) | V::Heap(l) => l.borrow().clone(),
        V::Dict(d) => d.borrow().e.iter().flat_map(|e| [e.0.clone(), e.1.clone()]).collect(),
        V::Enum(v) => contents(v),
        _ => Vec::new(),
    }
}

fn same_contents(a: &[V], b: &[V]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(x, y)) }

/// The same object, or the same immutable value
fn same(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::List(x), V::List(y)) | (V::Set(x), V::Set(y)) | (V::Vector(x), V::Vector(y)) | (V::Heap(x), V::Heap(y)) => Rc::ptr_eq(x, y),
        (V::Dict(x), V::Dict(y)) => Rc::ptr_eq(x, y),
        (V::Struct(x), V::Struct(y)) => Rc::ptr_eq(x, y),
        (V::Fn(x), V::Fn(y)) => Rc::ptr_eq(x, y),
        (V::Nat(_) | V::Part(_) | V::PartNat(_) | V::SType(_) | V::Field(_) | V::Slice(_), _) => true,
        _ => eq(a, b),
    }
}

pub fn iter(v: &V) -> R<Vec<V>> {
    match v {
        V::Enum(x) => Ok(iter(x)?.into_iter().enumerate().map(|(i, x)| vector(vec![V::Int(i as i64), x])).collect()),
        V::Heap(l) if l.borrow().len() > 1 => unknown("heap order"),
        v if v.is_iterable() => match iter_values(v) { Some(x) => Ok(x), None => unknown("long range") },
        v => err(format!("TypeError: Expected {} to be an iterable", v.errstr())),
    }
}

/// Iteration over a collection visits elements by position, and sees changes made meanwhile; ranges are lazy
pub enum Steps { Live(V, usize), Fixed(std::vec::IntoIter<V>), Range(i128, i128, i128, u32), Enum(Box<Steps>, i64, i64) }

impl Steps {
    pub fn new(v: &V) -> R<Steps> {
        Ok(match v {
            V::List(_) | V::Set(_) | V::Vector(_) | V::Dict(_) => Steps::Live(v.clone(), 0),
            V::Range(a, b, c) => Steps::Range(*a as i128, if *c == 0 { *a } else { *b } as i128, *c as i128, 0),
            V::Enum(x) => Steps::Enum(Box::new(Steps::new(x)?), 0, 1),
            _ => Steps::Fixed(iter(v)?.into_iter()),
        })
    }

    /// From the end
    pub fn back(v: &V) -> R<Steps> {
        Ok(match v {
            V::Range(_, _, 0) => Steps::Range(0, 0, 1, 0),
            V::Range(a, _, c) => { let n = len(v)? as i128; Steps::Range(*a as i128 + (n - 1) * *c as i128, *a as i128 - *c as i128, -*c as i128, 0) }
            V::Enum(x) => Steps::Enum(Box::new(Steps::back(x)?), len(x)? as i64 - 1, -1),
            _ => { let mut x = iter(v)?; x.reverse(); Steps::Fixed(x.into_iter()) }
        })
    }

    pub fn next(&mut self) -> R<Option<V>> {
        Ok(match self {
            Steps::Fixed(it) => it.next(),
            Steps::Live(v, i) => {
                let x = match v {
                    V::Dict(d) => d.borrow().e.get(*i).map(|(k, v)| vector(vec![k.clone(), v.clone()])),
                    V::List(l) | V::Set(l) | V::Vector(l) => l.borrow().get(*i).cloned(),
                    _ => None,
                };
                *i += 1;
                x
            }
            Steps::Range(a, b, c, n) => {
                if if *c > 0 { *a >= *b } else { *a <= *b } { return Ok(None); }
                let x = *a;
                *a += *c;
                *n += 1;
                if *n > 20_000 { return unknown("long range"); }
                Some(V::Int(x as i64))
            }
            Steps::Enum(s, i, d) => {
                let x = s.next()?;
                let k = *i;
                *i += *d;
                x.map(|x| vector(vec![V::Int(k), x]))
            }
        })
    }
}

/// The order of the elements of a heap is not specified, so functions for which it matters do not decide on it
fn iter_any_order(v: &V) -> R<Vec<V>> { match v { V::Heap(l) => Ok(l.borrow().clone()), v => iter(v) } }

fn int_of(v: &V) -> R<i64> { match v.as_int() { Some(i) => Ok(i), None => err(format!("TypeError: Expected {} to be a int", v.errstr())) } }
fn str_of(v: &V) -> R<Rc<str>> { match v { V::Str(s) => Ok(s.clone()), v => err(format!("TypeError: Expected {} to be a string", v.errstr())) } }
fn list_of(v: &V) -> R<&std::cell::RefCell<Vec<V>>> { match v { V::List(l) => Ok(l), v => err(format!("TypeError: Expected {} to be a list", v.errstr())) } }
fn dict_of(v: &V) -> R<&std::cell::RefCell<DictV>> { match v { V::Dict(l) => Ok(l), v => err(format!("TypeError: Expected {} to be a dict", v.errstr())) } }
fn non_empty(n: Nat) -> R<V> { err(format!("ValueError: Expected '{}' argument to be a non-empty iterable", n.name())) }
fn iterable_err(v: &V) -> R<V> { err(format!("TypeError: Expected {} to be an iterable", v.errstr())) }

/// Fails for a value which cannot be called with `n` arguments, whether or not it would be
pub fn check_fn(f: &V, n: usize) -> R<()> {
    match f {
        V::Fn(_) | V::Part(_) | V::SType(_) | V::Memo(_) => Ok(()),
        V::List(_) | V::Slice(_) | V::Field(_) if n > 0 => Ok(()),
        V::Nat(x) => {
            if x.args() == Args::Invalid { return not_callable(f); }
            let (lo, hi) = x.arity();
            if n > hi || (n < lo && matches!(x.args(), Args::UniqueNonEmpty | Args::IterNonEmpty)) { return bad_args(*x, n); }
            Ok(())
        }
        V::PartNat(p) => {
            let k = p.1.len() + n;
            if k > p.0.arity().1 { return bad_args(p.0, 3.max(k.min(3))); }
            Ok(())
        }
        f => not_callable(f),
    }
}

pub fn min_nargs(f: &V) -> Option<usize> {
    Some(match f {
        V::Fn(c) => c.def.min_args(),
        V::Part(p) => p.0.def.min_args() - p.1.len(),
        V::Nat(n) => match n.args() { Args::Arg1 | Args::Arg1To2 | Args::Arg1To3 => 1, Args::Arg2 => 2, Args::Arg3 => 3, _ => 0 },
        V::PartNat(p) => p.0.arity().0 - p.1.len(),
        V::SType(t) => t.fields.len(),
        V::Slice(_) | V::Field(_) => 1,
        V::Memo(m) => return min_nargs(&m.f),
        _ => return None,
    })
}

fn all_ordered(v: &[V]) -> bool { v.iter().enumerate().all(|(i, a)| v[..i].iter().all(|b| ordered(a, b))) }

/// Values which compare as equal but are not interchangeable
fn ties(v: &[V]) -> bool { v.iter().enumerate().any(|(i, a)| v[..i].iter().any(|b| cmp(a, b).is_eq() && !(eq(a, b) && a.repr() == b.repr() && !matches!(a, V::List(_) | V::Struct(_) | V::Set(_) | V::Dict(_))))) }

/// Whether which element of a heap is the first is not specified
fn heap_tie(v: &V) -> bool { match v { V::Heap(l) => { let l = l.borrow(); l.len() > 1 && cmp(&l[0], &l[1]).is_eq() && l[0].repr() != l[1].repr() } _ => false } }

fn sort_values(mut v: Vec<V>) -> R<Vec<V>> {
    if v.len() <= 1 { return Ok(v); }
    if !all_ordered(&v) { return unknown("unordered values"); }
    if ties(&v) { return unknown("ties in sort"); }
    v.sort_by(cmp);
    Ok(v)
}

pub fn float_sqrt(n: i64) -> i64 {
    // binary search
    let (mut lo, mut hi) = (0i128, 1i128 << 32);
    while lo + 1 < hi { let m = (lo + hi) / 2; if m * m <= n as i128 { lo = m } else { hi = m } }
    lo as i64
}

fn gcd(a: i128, b: i128) -> i128 { if b == 0 { a.abs() } else { gcd(b, a % b) } }

fn trim(s: &str) -> &str {
    let mut s = s;
    while let Some(c) = s.chars().next() { if c.is_whitespace() { s = &s[c.len_utf8()..] } else { break } }
    while let Some(c) = s.chars().next_back() { if c.is_whitespace() { s = &s[..s.len() - c.len_utf8()] } else { break } }
    s
}

/// A decimal numeral: optional sign, then digits
pub fn parse_int(s: &str, radix: u32) -> Option<i64> {
    let (neg, d) = match s.strip_prefix('-') { Some(d) => (true, d), None => (false, s.strip_prefix('+').unwrap_or(s)) };
    if d.is_empty() { return None; }
    let mut n: i128 = 0;
    for c in d.chars() {
        n = n * radix as i128 + c.to_digit(radix)? as i128;
        if n > 1 << 64 { return None; }
    }
    if neg { n = -n; }
    (MIN_INT as i128 <= n && n <= MAX_INT as i128).then_some(n as i64)
}

pub fn index_of(len: usize, i: i64) -> R<usize> {
    let j = if i < 0 { i as i128 + len as i128 } else { i as i128 };
    if 0 <= j && j < len as i128 { Ok(j as usize) } else { err(format!("Index '{}' is out of bounds for list of length [0, {})", i, len)) }
}

pub fn get_index(it: &mut Interp, t: &V, i: &V) -> R<V> {
    match t {
        V::Dict(d) => {
            let (found, default) = { let d = d.borrow(); (d.get(i), d.default.clone()) };
            if let Some(v) = found { return Ok(v); }
            match default {
                None => err(format!("ValueError: Key {} not found in dictionary", i.errstr())),
                Some(f) => {
                    let v = if f.is_function() { cb(it, &f, vec![])? } else { f };
                    let mut d = d.borrow_mut();
                    if let Some(v) = d.get(i) { return Ok(v); }
                    d.insert(i.clone(), v.clone());
                    Ok(v)
                }
            }
        }
        V::Str(s) => {
            let k = index_of(s.chars().count(), int_of(i)?)?;
            Ok(V::Str(s.chars().nth(k).unwrap().to_string().into()))
        }
        V::List(l) | V::Vector(l) => {
            let l = l.borrow();
            let k = index_of(l.len(), int_of(i)?)?;
            Ok(l[k].clone())
        }
        t => err(format!("TypeError: Cannot index {}", t.errstr())),
    }
}

pub fn set_index(t: &V, i: &V, v: V) -> R<()> {
    match t {
        V::Dict(d) => { recursive(i, t)?; d.borrow_mut().insert(i.clone(), v); Ok(()) }
        V::Str(s) => { index_of(s.chars().count(), int_of(i)?)?; err(format!("TypeError: Cannot index {}", t.errstr())) }
        V::List(l) | V::Vector(l) => {
            let n = l.borrow().len();
            let k = index_of(n, int_of(i)?)?;
            l.borrow_mut()[k] = v;
            Ok(())
        }
        t => err(format!("TypeError: Cannot index {}", t.errstr())),
    }
}

/// The indices which a Python slice selects from a sequence of length `len`
pub fn slice_indices(len: usize, a: Option<i64>, b: Option<i64>, c: i64) -> Vec<usize> {
    // from the definition in the Python reference: bounds are adjusted, then x = i + n*k
    let n = len as i128;
    let c = c as i128;
    let adj = |x: Option<i64>, dflt: i128, lo: i128, hi: i128| match x {
        None => dflt,
        Some(x) => { let x = x as i128; let x = if x < 0 { x + n } else { x }; x.max(lo).min(hi) }
    };
    let (lo, hi) = if c > 0 { (0, n) } else { (-1, n - 1) };
    let start = adj(a, if c > 0 { 0 } else { n - 1 }, lo, hi);
    let stop = adj(b, if c > 0 { n } else { -1 }, lo, hi);
    let mut r = Vec::new();
    let mut i = start;
    while (c > 0 && i < stop) || (c < 0 && i > stop) {
        r.push(i as usize);
        i += c;
    }
    r
}

fn recursive(key: &V, target: &V) -> R<()> { if reaches(key, target) { err("ValueError: Cannot create recursive hash-based collection") } else { Ok(()) } }

pub fn get_slice(t: &V, a: &V, b: &V, c: &V) -> R<V> {
    let opt = |v: &V| -> R<Option<i64>> { match v { V::Nil => Ok(None), v => int_of(v).map(Some) } };
    let (a, b) = (opt(a)?, opt(b)?);
    let step = opt(c)?.unwrap_or(1);
    if !matches!(t, V::Str(_) | V::List(_) | V::Vector(_)) { return err(format!("TypeError: Cannot slice {}", t.errstr())); }
    if step == 0 { return err("ValueError: 'step' argument cannot be zero"); }
    match t {
        V::Str(s) => {
            let cs: Vec<char> = s.chars().collect();
            Ok(V::Str(slice_indices(cs.len(), a, b, step).into_iter().map(|i| cs[i]).collect::<String>().into()))
        }
        V::List(l) | V::Vector(l) => {
            let l = l.borrow();
            let r = slice_indices(l.len(), a, b, step).into_iter().map(|i| l[i].clone()).collect();
            Ok(if let V::List(_) = t { list(r) } else { vector(r) })
        }
        _ => unreachable!(),
    }
}

pub fn len(v: &V) -> R<usize> {
    Ok(match v {
        V::Str(s) => s.chars().count(),
        V::List(l) | V::Set(l) | V::Vector(l) | V::Heap(l) => l.borrow().len(),
        V::Dict(d) => d.borrow().e.len(),
        V::Range(_, _, 0) => 0,
        V::Range(a, b, c) => {
            let (a, b, c) = (*a as i128, *b as i128, *c as i128);
            let n = if c > 0 { (b - a + c - 1) / c } else { (a - b - c - 1) / -c };
            if n > MAX_INT as i128 { return unknown("length out of range"); }
            n as usize
        }
        V::Enum(x) => len(x)?,
        v => { iterable_err(v)?; 0 }
    })
}

pub fn make_range(a: i64, b: i64, c: i64) -> R<V> {
    if c == 0 { return err("ValueError: 'step' argument cannot be zero"); }
    Ok(if (c > 0 && a < b) || (c < 0 && a > b) { V::Range(a, b, c) } else { V::Range(0, 0, 0) })
}

pub fn type_of(v: &V) -> V {
    match v {
        V::Nil => V::Nil,
        V::Bool(_) => V::Nat(Nat::Bool), V::Int(_) => V::Nat(Nat::Int), V::Cx(..) => V::Nat(Nat::Complex), V::Rat(_) => V::Nat(Nat::Rational),
        V::Str(_) => V::Nat(Nat::Str), V::List(_) => V::Nat(Nat::List), V::Set(_) => V::Nat(Nat::Set), V::Dict(_) => V::Nat(Nat::Dict),
        V::Heap(_) => V::Nat(Nat::Heap), V::Vector(_) => V::Nat(Nat::Vector), V::Struct(s) => V::SType(s.ty.clone()),
        V::Range(..) => V::Nat(Nat::Range), V::Enum(_) => V::Nat(Nat::Enumerate),
        _ => V::Nat(Nat::Function),
    }
}

/// `format % args`
pub fn format_string(f: &str, args: &V) -> R<V> {
    let args: Vec<V> = match args { V::List(l) | V::Vector(l) => l.borrow().clone(), v => vec![v.clone()] };
    let mut args = args.into_iter();
    let mut o = String::new();
    let cs: Vec<char> = f.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        if cs[i] != '%' { o.push(cs[i]); i += 1; continue; }
        i += 1;
        if i < cs.len() && cs[i] == '%' { o.push('%'); i += 1; continue; }
        let zero = i < cs.len() && cs[i] == '0';
        if zero { i += 1; }
        if zero && i < cs.len() && cs[i] == '0' { return err("ValueError: Invalid format character '0' in format string"); }
        let mut w: u128 = 0;
        while i < cs.len() && cs[i].is_ascii_digit() { w = (w * 10 + cs[i] as u128 - 48).min(1 << 70); i += 1; }
        if w > u64::MAX as u128 { return err("ValueError: value would be too large!"); }
        if w > 20000 { return unknown("wide format"); }
        let w = w as usize;
        let kind = if i < cs.len() { Some(cs[i]) } else { None };
        match kind {
            Some('d' | 'x' | 'b' | 's') => {}
            Some(c) => return err(format!("ValueError: Invalid format character '{}' in format string", c)),
            None => return err("ValueError: Expected format character after '%', got end of string"),
        }
        i += 1;
        let a = match args.next() { Some(a) => a, None => return err("ValueError: Not enough arguments for format string") };
        let (neg, body) = match kind.unwrap() {
            's' => (false, a.str()),
            'd' => { let n = int_of(&a)?; (n < 0, (n as i128).abs().to_string()) }
            c => {
                let mut n = int_of(&a)?;
                if n < 0 { return unknown("negative radix format"); }
                let base = if c == 'x' { 16 } else { 2 };
                let mut digits = Vec::new();
                while n > 0 || digits.is_empty() { digits.push(char::from_digit((n % base) as u32, base as u32).unwrap()); n /= base; }
                (false, digits.iter().rev().collect())
            }
        };
        let width = body.chars().count() + neg as usize;
        let pad = w.saturating_sub(width);
        if zero && kind != Some('s') {
            if neg { o.push('-'); }
            for _ in 0..pad { o.push('0'); }
        } else {
            for _ in 0..pad { o.push(' '); }
            if neg { o.push('-'); }
        }
        o.push_str(&body);
    }
    match args.next() { Some(v) => err(format!("ValueError: Not all arguments consumed in format string, next: {}", v.errstr())), None => Ok(V::Str(o.into())) }
}

fn regex(p: &str) -> R<Re> {
    match Re::new(p) { Ok(r) => Ok(r), Err(true) => err(format!("ValueError: Cannot compile regex '{}'", p)), Err(false) => unknown("regex") }
}

/// Characters, and groups referred to by `$n`
fn template(s: &str) -> Option<Vec<Result<char, usize>>> {
    let cs: Vec<char> = s.chars().collect();
    let (mut r, mut i) = (Vec::new(), 0);
    while i < cs.len() {
        if cs[i] != '$' { r.push(Ok(cs[i])); i += 1; continue; }
        let mut j = i + 1;
        while j < cs.len() && cs[j].is_ascii_digit() { j += 1; }
        if j == i + 1 || j > i + 3 || (j < cs.len() && (cs[j].is_alphanumeric() || cs[j] == '_')) { return None; }
        r.push(Err(cs[i + 1..j].iter().collect::<String>().parse().unwrap()));
        i = j;
    }
    Some(r)
}

fn groups(cs: &[char], m: &[Option<(usize, usize)>]) -> V {
    let g = |r: &Option<(usize, usize)>| match r { Some((a, b)) => V::Str(cs[*a..*b].iter().collect::<String>().into()), None => V::Nil };
    if m.len() == 1 { g(&m[0]) } else { vector(m.iter().map(g).collect()) }
}

fn apply(it: &mut Interp, n: Nat, a: Vec<V>) -> R<V> {
    use Nat::*;
    Ok(match n {
        Read => st(&it.take_input().replace("\r\n", "\n")),
        ReadLine => return it.read_line(),
        Print => { let s = a.iter().map(|x| x.str()).collect::<Vec<_>>().join(" "); it.print(&s)?; V::Nil }
        ReadText | WriteText | Env | Monitor | Eval => return it.external(n, &a),
        Argv => list(it.args.iter().map(|x| st(x)).collect()),
        Bool => V::Bool(a[0].truthy()),
        Int => match &a[0] {
            V::Nil => V::Int(0),
            V::Bool(_) | V::Int(_) => V::Int(a[0].as_int().unwrap()),
            V::Str(s) => match (parse_int(s, 10), a.get(1)) {
                (Some(i), _) => V::Int(i),
                (None, Some(d)) => d.clone(),
                (None, None) => {
                    let why = if s.is_empty() { "cannot parse integer from empty string" } else {
                        let d = s.strip_prefix(['+', '-']).unwrap_or(s);
                        if !d.is_empty() && d.chars().all(|c| c.is_ascii_digit()) { if s.starts_with('-') { "number too small to fit in target type" } else { "number too large to fit in target type" } } else { "invalid digit found in string" }
                    };
                    return err(format!("ValueError: Cannot convert {} to an integer: {}", a[0].errstr(), why));
                }
            },
            V::Rat(r) => if *r.denom() == 1 {
                match r.numer().to_i64() {
                    Some(i) if (MIN_INT..=MAX_INT).contains(&i) => V::Int(i),
                    _ => return err(format!("ValueError: Cannot convert rational '{}' to an integer as it is too large for the target type", a[0].errstr())),
                }
            } else { return err(format!("ValueError: Cannot convert rational '{}' to an integer as it is not an integral value.", a[0].errstr())) },
            v => return err(format!("TypeError: Cannot convert {} to an int", v.errstr())),
        },
        Rational => match &a[0] {
            V::Bool(_) | V::Int(_) | V::Rat(_) => match a.get(1) {
                None => rat(a[0].as_rat().unwrap()),
                Some(d) => match d.as_rat() {
                    Some(d) if d.is_zero() => return err("ValueError: Division by zero"),
                    Some(d) => rat(a[0].as_rat().unwrap() / d),
                    None => return err(format!("TypeError: Cannot convert {} to an rational", d.errstr())),
                },
            },
            V::Str(s) => {
                // numeral, or numeral / numeral
                let p: Vec<&str> = s.splitn(2, '/').collect();
                let num = |x: &str| -> Option<Integer> {
                    let d = x.strip_prefix('-').unwrap_or(x);
                    (!d.is_empty() && d.chars().all(|c| c.is_ascii_digit())).then(|| x.parse::<Integer>().unwrap())
                };
                match (num(p[0]), p.get(1).map(|x| num(x))) {
                    (Some(n), None) => rat(n.into()),
                    (Some(n), Some(Some(d))) if d != 0 && !p[1].starts_with('-') => rat(rat_from(n, d)),
                    _ if s.chars().any(|c| "+_".contains(c) || c.is_whitespace() || c.is_control()) => return unknown("rational text"),
                    _ if p.len() == 2 && p[1].starts_with('-') => return unknown("rational text"),
                    _ => return err(format!("ValueError: Cannot convert {} to an rational", a[0].errstr())),
                }
            }
            v => return err(format!("TypeError: Cannot convert {} to an rational", v.errstr())),
        },
        Str => st(&a[0].str()),
        List => list(a),
        Set => set(a),
        Dict => {
            let mut r = Vec::new();
            for x in &a {
                match x {
                    V::List(l) | V::Vector(l) if l.borrow().len() == 2 => r.push((l.borrow()[0].clone(), l.borrow()[1].clone())),
                    v => return err(format!("ValueError: Cannot collect key-value pair {} into a dict", v.errstr())),
                }
            }
            dict(r)
        }
        Heap => { if a.len() > 1 && !all_ordered(&a) { return unknown("unordered values"); } heap(a) }
        Vector => if a.len() == 1 { match a[0].as_cx() { Some((re, im)) => vector(vec![int(re as i128), int(im as i128)]), None => vector(iter(&a[0])?) } } else { vector(a) },
        Repr => st(&a[0].repr()),
        TypeOf => type_of(&a[0]),
        OpSub => return if a.len() == 1 { unary(Un::Neg, &a[0]) } else { binary(super::ops::Op::Sub, &a[0], &a[1]) },
        OpNot => return unary(Un::Not, &a[0]),
        OpLNot => return unary(Un::LNot, &a[0]),
        Op(o) => return binary(o, &a[0], &a[1]),
        OpSwap(o) => return binary(o, &a[1], &a[0]),

        ToLower => st(&str_of(&a[0])?.to_lowercase()),
        ToUpper => st(&str_of(&a[0])?.to_uppercase()),
        Trim => st(trim(&str_of(&a[0])?)),
        Replace => {
            let p = str_of(&a[0])?;
            let re = regex(&p)?;
            let t = str_of(&a[2])?;
            let cs: Vec<char> = t.chars().collect();
            let f = a[1].clone();
            if f.is_function() { check_fn(&f, 1)?; } else {
                let s = str_of(&f)?;
                if template(&s).is_none() { return unknown("replacement with groups"); }
            }
            let mut o: Vec<char> = Vec::new();
            let mut last = 0;
            for m in re.matches(&cs)? {
                let (s, e) = m[0].unwrap();
                o.extend(&cs[last..s]);
                if f.is_function() { let v = cb(it, &f, vec![groups(&cs, &m)])?; o.extend(str_of(&v)?.chars()); } else {
                    for part in template(&str_of(&f)?).unwrap() {
                        match part {
                            Ok(c) => o.push(c),
                            Err(g) => if let Some(Some((s, e))) = m.get(g) { o.extend(&cs[*s..*e]); }
                        }
                    }
                }
                last = e;
            }
            o.extend(&cs[last..]);
            st(&o.into_iter().collect::<String>())
        }
        Search => {
            let p = str_of(&a[0])?;
            let re = regex(&p)?;
            let t = str_of(&a[1])?;
            let cs: Vec<char> = t.chars().collect();
            let mut r = Vec::new();
            for m in re.matches(&cs)? { if m[0].unwrap().0 != m[0].unwrap().1 { r.push(groups(&cs, &m)); } }
            list(r)
        }
        Split => {
            let p = str_of(&a[0])?;
            let t = |a: &V| str_of(a);
            if p.is_empty() { return Ok(list(t(&a[1])?.chars().map(|c| st(&c.to_string())).collect())); }
            let re = regex(&p)?;
            let cs: Vec<char> = t(&a[1])?.chars().collect();
            let mut r = Vec::new();
            let mut last = 0;
            for m in re.matches(&cs)? {
                let (s, e) = m[0].unwrap();
                r.push(st(&cs[last..s].iter().collect::<String>()));
                last = e;
            }
            r.push(st(&cs[last..].iter().collect::<String>()));
            list(r)
        }
        Join => {
            let xs = iter(&a[1])?;
            let j = str_of(&a[0])?;
            st(&xs.iter().map(|x| x.str()).collect::<Vec<_>>().join(&j))
        }
        Char => {
            let i = int_of(&a[0])?;
            let bad = i <= 0 || i > 0x10ffff || (0xd800..0xe000).contains(&i);
            if bad { return err(format!("ValueError: Cannot convert int {} to a character", i)); }
            st(&char::from_u32(i as u32).unwrap().to_string())
        }
        Ord => {
            let s = str_of(&a[0])?;
            if s.chars().count() != 1 { return err(format!("TypeError: Expected {} to be a single character string", a[0].errstr())); }
            V::Int(s.chars().next().unwrap() as i64)
        }
        Hex | Bin => {
            let radix = if n == Hex { 16 } else { 2 };
            match &a[0] {
                V::Int(i) if *i < 0 => return unknown("negative radix"),
                V::Int(i) => st(&if n == Hex { format!("{:x}", i) } else { format!("{:b}", i) }),
                V::Str(s) => match parse_int(s, radix) { Some(i) => V::Int(i), None => return err(format!("TypeError: Cannot convert {} to an int", a[0].errstr())) },
                v => return err(format!("TypeError: Expected {} to be a int or string", v.errstr())),
            }
        }
        Len => V::Int(len(&a[0])? as i64),
        Range => match a.len() {
            1 => return make_range(0, int_of(&a[0])?, 1),
            2 => return make_range(int_of(&a[0])?, int_of(&a[1])?, 1),
            _ => return make_range(int_of(&a[0])?, int_of(&a[1])?, int_of(&a[2])?),
        },
        Enumerate => V::Enum(Rc::new(a[0].clone())),
        Sum => {
            let mut s: i128 = 0;
            for x in &a { s += int_of(x)? as i128; }
            int(s)
        }
        Min | Max => {
            let xs = if a.len() == 1 {
                if let V::Nat(Nat::Int) = a[0] { return Ok(V::Int(if n == Min { MIN_INT } else { MAX_INT })); }
                iter_any_order(&a[0])?
            } else { a };
            if xs.is_empty() { return non_empty(n); }
            if !all_ordered(&xs) { return unknown("unordered values"); }
            let mut best = xs[0].clone();
            for x in &xs[1..] {
                let c = cmp(x, &best);
                // of equal values, min takes the first and max the last
                if (n == Min && c.is_lt()) || (n == Max && c.is_ge()) { best = x.clone(); }
            }
            best
        }
        MinBy | MaxBy | SortBy => {
            let xs = iter(&a[1])?;
            let f = a[0].clone();
            match min_nargs(&f) {
                Some(1) => {
                    check_fn(&f, 1)?;
                    if n == SortBy && xs.len() < 2 { return Ok(list(xs)); }
                    let mut ks = Vec::new();
                    if n == SortBy { ks = by_any_order(xs.iter().map(|x| vec![x.clone()]), |a| cb(it, &f, a))?; }
                    else { for x in &xs { ks.push(cb(it, &f, vec![x.clone()])?); } }
                    if xs.is_empty() { return non_empty(n); }
                    if !all_ordered(&ks) { return unknown("unordered values"); }
                    let tie = (0..ks.len()).any(|i| (0..i).any(|j| cmp(&ks[i], &ks[j]).is_eq()));
                    if n == SortBy {
                        if tie && xs.len() > 20 { return unknown("ties in sort_by"); }
                        let mut idx: Vec<usize> = (0..xs.len()).collect();
                        idx.sort_by(|i, j| cmp(&ks[*i], &ks[*j]));
                        if tie { return unknown("ties in sort_by"); }
                        list(idx.into_iter().map(|i| xs[i].clone()).collect())
                    } else {
                        let mut b = 0;
                        for i in 1..xs.len() { let c = cmp(&ks[i], &ks[b]); if (n == MinBy && c.is_lt()) || (n == MaxBy && c.is_ge()) { b = i; } }
                        xs[b].clone()
                    }
                }
                Some(2) => {
                    check_fn(&f, 2)?;
                    if xs.is_empty() { return if n == SortBy { Ok(list(xs)) } else { non_empty(n) }; }
                    if n == SortBy {
                        // insertion sort, only decided upon for a consistent comparison
                        let k = xs.len();
                        let mut rank = vec![0usize; k];
                        if k == 1 { return Ok(list(xs)); }
                        let pairs: Vec<(usize, usize)> = (0..k).flat_map(|i| (0..k).map(move |j| (i, j))).filter(|p| p.0 != p.1).collect();
                        let cs = by_any_order(pairs.iter().map(|&(i, j)| vec![xs[i].clone(), xs[j].clone()]), |a| { let v = cb(it, &f, a)?; int_of(&v) })?;
                        for (&(i, _), c) in pairs.iter().zip(cs) {
                            if c == 0 { return unknown("ties in sort_by"); }
                            if c > 0 { rank[i] += 1; }
                        }
                        let mut seen = vec![false; k];
                        for r in &rank { if seen[*r] { return unknown("inconsistent comparison"); } seen[*r] = true; }
                        let mut r: Vec<V> = vec![V::Nil; k];
                        for i in 0..k { r[rank[i]] = xs[i].clone(); }
                        list(r)
                    } else {
                        let mut best = xs[0].clone();
                        for x in &xs[1..] {
                            let v = cb(it, &f, vec![best.clone(), x.clone()])?;
                            let c = int_of(&v)?;
                            if (n == MinBy && c > 0) || (n == MaxBy && c <= 0) { best = x.clone(); }
                        }
                        best
                    }
                }
                Some(_) => return err(format!("TypeError: Expected {} to be a '<A, B> fn key(A) -> B' or '<A> cmp(A, A) -> int' function", f.errstr())),
                None => return err(format!("TypeError: Expected {} to be a function", f.errstr())),
            }
        }
        Map => { let f = a[0].clone(); check_fn(&f, 1)?; let mut r = Vec::new(); let mut xs = Steps::new(&a[1])?; while let Some(x) = xs.next()? { r.push(cb(it, &f, vec![x])?); } list(r) }
        Filter => { let f = a[0].clone(); check_fn(&f, 1)?; let mut r = Vec::new(); let mut xs = Steps::new(&a[1])?; while let Some(x) = xs.next()? { if cb(it, &f, vec![x.clone()])?.truthy() { r.push(x); } } list(r) }
        FlatMap => { let f = a[0].clone(); check_fn(&f, 1)?; let mut r = Vec::new(); let mut xs = Steps::new(&a[1])?; while let Some(x) = xs.next()? { let y = cb(it, &f, vec![x])?; r.extend(iter(&y)?); } list(r) }
        Concat => { let mut r = Vec::new(); for x in iter(&a[0])? { r.extend(iter(&x)?); } list(r) }
        Zip => {
            if a.is_empty() { return non_empty(n); }
            let mut cols = a.iter().map(Steps::new).collect::<R<Vec<_>>>()?;
            let mut r = Vec::new();
            loop {
                let mut row = Vec::new();
                for c in &mut cols { match c.next()? { Some(x) => row.push(x), None => return Ok(list(r)) } }
                r.push(vector(row));
            }
        }
        Reduce => {
            let mut xs = Steps::new(&a[1])?;
            let mut acc = match xs.next()? { Some(x) => x, None => return non_empty(n) };
            let f = a[0].clone();
            check_fn(&f, 2)?;
            while let Some(x) = xs.next()? { acc = cb(it, &f, vec![acc, x])?; }
            acc
        }
        Sort => list(sort_values(a)?),
        GroupBy => {
            let xs = iter(&a[1])?;
            if let Some(k) = a[0].as_int() {
                if k <= 0 { return err(format!("ValueError: Expected value '{}: int' to be positive", k)); }
                let mut r: Vec<Vec<V>> = Vec::new();
                for (i, x) in xs.into_iter().enumerate() { if i as i64 % k == 0 { r.push(Vec::new()); } r.last_mut().unwrap().push(x); }
                list(r.into_iter().map(vector).collect())
            } else {
                let f = a[0].clone();
                check_fn(&f, 1)?;
                let mut r: Vec<(V, Vec<V>)> = Vec::new();
                for x in xs {
                    let k = cb(it, &f, vec![x.clone()])?;
                    match r.iter_mut().find(|e| eq(&e.0, &k)) { Some(e) => e.1.push(x), None => r.push((k, vec![x])) }
                }
                dict(r.into_iter().map(|(k, v)| (k, vector(v))).collect())
            }
        }
        Reverse => list(a.into_iter().rev().collect()),
        Permutations | Combinations => {
            let k = int_of(&a[0])?;
            if k < 0 { return err(format!("ValueError: Expected {} arg to be a non-negative integer", n.name())); }
            let xs = iter(&a[1])?;
            let mut r: Vec<Vec<usize>> = Vec::new();
            if k as i128 <= xs.len() as i128 {
                if (0..k as u64).map(|i| (xs.len() as u64 - i) as f64).product::<f64>() > 20_000.0 { return unknown("many permutations"); }
                fn go(n: usize, k: usize, perm: bool, cur: &mut Vec<usize>, r: &mut Vec<Vec<usize>>) {
                    if cur.len() == k { r.push(cur.clone()); return; }
                    for i in 0..n {
                        if cur.contains(&i) || (!perm && cur.last().is_some_and(|l| *l >= i)) { continue; }
                        cur.push(i);
                        go(n, k, perm, cur, r);
                        cur.pop();
                    }
                }
                go(xs.len(), k as usize, n == Permutations, &mut Vec::new(), &mut r);
            }
            list(r.into_iter().map(|c| vector(c.into_iter().map(|i| xs[i].clone()).collect())).collect())
        }
        Any | All => {
            let f = a[0].clone();
            check_fn(&f, 1)?;
            let mut xs = Steps::new(&a[1])?;
            while let Some(x) = xs.next()? { if cb(it, &f, vec![x])?.truthy() == (n == Any) { return Ok(V::Bool(n == Any)); } }
            V::Bool(n == All)
        }
        Memoize => if a[0].is_function() { V::Memo(Rc::new(MemoV { f: a[0].clone(), cache: std::cell::RefCell::default() })) } else { return err(format!("TypeError: Expected {} to be a function", a[0].errstr())) },
        Union | Intersect | Difference => {
            let this = match &a[1] { V::Set(s) => s.clone(), v => return err(format!("TypeError: Expected {} to be a set", v.errstr())) };
            let other = if n == Union { iter(&a[0])? } else { iter_any_order(&a[0])? };
            let has = |v: &V, s: &[V]| s.iter().any(|w| eq(v, w));
            let mut cur = this.borrow().clone();
            match n {
                Union => for x in other { if !has(&x, &cur) { cur.push(x); } },
                Intersect => cur.retain(|x| has(x, &other)),
                _ => cur.retain(|x| !has(x, &other)),
            }
            *this.borrow_mut() = cur;
            a[1].clone()
        }
        Counter => {
            let mut r: Vec<(V, i64)> = Vec::new();
            for x in iter(&a[0])? { match r.iter_mut().find(|e| eq(&e.0, &x)) { Some(e) => e.1 += 1, None => r.push((x, 1)) } }
            dict(r.into_iter().map(|(k, v)| (k, V::Int(v))).collect())
        }
        Copy => copy(&a[0]),
        Peek | Pop if heap_tie(&a[0]) => return unknown("equal least elements of a heap"),
        Peek => match match &a[0] {
            V::List(l) | V::Set(l) | V::Vector(l) | V::Heap(l) => l.borrow().first().cloned(),
            V::Dict(d) => d.borrow().e.first().map(|(k, v)| vector(vec![k.clone(), v.clone()])),
            v => return iterable_err(v),
        } { Some(v) => v, None => return non_empty(n) },
        Pop => match match &a[0] {
            V::List(l) | V::Set(l) => l.borrow_mut().pop(),
            V::Heap(l) => { let mut l = l.borrow_mut(); if l.is_empty() { None } else { Some(l.remove(0)) } }
            V::Dict(d) => d.borrow_mut().e.pop().map(|(k, v)| vector(vec![k, v])),
            v => return iterable_err(v),
        } { Some(v) => v, None => return non_empty(n) },
        PopFront => { let l = list_of(&a[0])?; if l.borrow().is_empty() { return non_empty(n); } let v = l.borrow_mut().remove(0); v }
        Push => {
            match &a[1] {
                V::List(l) => l.borrow_mut().push(a[0].clone()),
                V::Set(l) => { recursive(&a[0], &a[1])?; hashed(&a[0]); let has = l.borrow().iter().any(|x| eq(x, &a[0])); if !has { l.borrow_mut().push(a[0].clone()); } }
                V::Heap(l) => {
                    if !l.borrow().iter().all(|x| ordered(x, &a[0])) { return unknown("unordered values"); }
                    let mut l = l.borrow_mut();
                    l.push(a[0].clone());
                    l.sort_by(cmp);
                }
                v => return iterable_err(v),
            }
            a[1].clone()
        }
        PushFront => { list_of(&a[1])?.borrow_mut().insert(0, a[0].clone()); a[1].clone() }
        Insert => match &a[2] {
            V::List(l) => {
                let i = int_of(&a[0])?;
                let k = l.borrow().len();
                if i < 0 || i as i128 > k as i128 { return err(format!("Index '{}' is out of bounds for list of length [0, {})", i, k)); }
                l.borrow_mut().insert(i as usize, a[1].clone());
                a[2].clone()
            }
            V::Dict(d) => { recursive(&a[0], &a[2])?; d.borrow_mut().insert(a[0].clone(), a[1].clone()); a[2].clone() }
            v => return err(format!("TypeError: Cannot index {}", v.errstr())),
        },
        Remove => match &a[1] {
            V::List(l) => {
                let i = int_of(&a[0])?;
                let k = l.borrow().len();
                if i < 0 || i as i128 >= k as i128 { return err(format!("Index '{}' is out of bounds for list of length [0, {})", i, k)); }
                let v = l.borrow_mut().remove(i as usize);
                v
            }
            V::Set(l) => { hashed(&a[0]); let p = l.borrow().iter().position(|x| eq(x, &a[0])); if let Some(p) = p { l.borrow_mut().remove(p); } V::Bool(p.is_some()) }
            V::Dict(d) => { let p = d.borrow().e.iter().position(|x| eq(&x.0, &a[0])); if let Some(p) = p { d.borrow_mut().e.remove(p); } V::Bool(p.is_some()) }
            v => return iterable_err(v),
        },
        Clear => {
            match &a[0] {
                V::List(l) | V::Set(l) | V::Heap(l) => l.borrow_mut().clear(),
                V::Dict(d) => d.borrow_mut().e.clear(),
                v => return iterable_err(v),
            }
            a[0].clone()
        }
        Find | RightFind | IndexOf | RightIndexOf => {
            let f = a[0].clone();
            let right = matches!(n, RightFind | RightIndexOf);
            let mut xs = if right { Steps::back(&a[1])? } else { Steps::new(&a[1])? };
            if f.is_function() { check_fn(&f, 1)?; }
            let mut i = if right { len(&a[1])? as i64 - 1 } else { 0 };
            while let Some(x) = xs.next()? {
                let hit = if f.is_function() { cb(it, &f, vec![x.clone()])?.truthy() } else { eq(&x, &f) };
                if hit { return Ok(match n { Find | RightFind => x, _ => V::Int(i) }); }
                i += if right { -1 } else { 1 };
            }
            match n { Find | RightFind => V::Nil, _ => V::Int(-1) }
        }
        Default => {
            let d = dict_of(&a[1])?;
            if a[0].is_function() { check_fn(&a[0], 0)?; }
            d.borrow_mut().default = Some(a[0].clone());
            a[1].clone()
        }
        Keys => set(dict_of(&a[0])?.borrow().e.iter().map(|e| e.0.clone()).collect()),
        Values => list(dict_of(&a[0])?.borrow().e.iter().map(|e| e.1.clone()).collect()),
        Abs => match &a[0] {
            V::Int(_) | V::Bool(_) => int((a[0].as_int().unwrap() as i128).abs()),
            V::Cx(re, im) => cx(re.wrapping_abs(), im.wrapping_abs()),
            V::Rat(r) => rat((**r).clone().abs()),
            V::Vector(l) => { let xs = l.borrow().clone(); return Ok(vector(xs.into_iter().map(|x| apply(it, Abs, vec![x])).collect::<R<Vec<V>>>()?)); }
            v => return err(format!("TypeError: Cannot convert {} to an int", v.errstr())),
        },
        Sqrt => match &a[0] {
            V::Bool(b) => V::Int(*b as i64),
            V::Int(i) => { if *i < 0 { return err(format!("ValueError: Expected {} to be non-negative", a[0].errstr())); } V::Int(float_sqrt(*i)) }
            V::Rat(r) => {
                if **r < 0 { return err(format!("ValueError: Expected {} to be non-negative", a[0].errstr())); }
                rat(rug::Rational::from((r.numer().clone().sqrt(), r.denom().clone().sqrt())))
            }
            v => return err(format!("TypeError: Expected {} to be a rational", v.errstr())),
        },
        Gcd | Lcm => {
            if a.is_empty() { return non_empty(n); }
            let mut acc = int_of(&a[0])? as i128;
            for x in &a[1..] {
                let y = int_of(x)? as i128;
                acc = if n == Gcd { gcd(acc, y) } else if acc == 0 || y == 0 { 0 } else { (acc / gcd(acc, y) * y).abs() };
                if acc > MAX_INT as i128 { return unknown("large lcm"); }
            }
            int(acc)
        }
        CountOnes => { let i = int_of(&a[0])?; if i < 0 && !count_bits() { return unknown("bit count of negative"); } V::Int((0..63).filter(|b| i >> b & 1 == 1).count() as i64) }
        CountZeros => { let i = int_of(&a[0])?; if !count_bits() { return unknown("count_zeros"); } V::Int((0..63).filter(|b| i >> b & 1 == 0).count() as i64) }
        Real | Imag => match a[0].as_cx() { Some((re, im)) => int(if n == Real { re } else { im } as i128), None => return err(format!("TypeError: Expected {} to be a complex", a[0].errstr())) },
        Numer | Denom => match a[0].as_rat() {
            Some(r) => rat(if n == Numer { r.numer().clone().into() } else { r.denom().clone().into() }),
            None => return err(format!("TypeError: Expected {} to be a rational", a[0].errstr())),
        },
        Complex | Function | Iterable => return not_callable(&V::Nat(n)),
    })
}

#[allow(unused)] fn _r(_: Rational) {}

thread_local! { static COUNT_BITS: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
/// Whether bits above the 63rd may be counted, by programs which do not depend on how many there are
pub fn set_count_bits(b: bool) { COUNT_BITS.with(|c| c.set(b)); }
fn count_bits() -> bool { COUNT_BITS.with(|c| c.get()) }
