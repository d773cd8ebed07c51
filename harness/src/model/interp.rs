//! Evaluation of syntax trees: a plain environment-passing tree walker.

use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

use super::ast::*;
use super::natives::{self, Nat};
use super::ops::{binary, unary, Op};
use super::value::*;

#[derive(Debug)]
pub struct ErrInfo {
    pub msg: String,
    /// the node which failed
    pub at: Option<Id>,
    /// user functions which were unwound, innermost first, with the node of the call
    pub trace: Vec<(String, Id)>,
}

#[derive(Debug)]
pub enum Ctl {
    Err(Box<ErrInfo>),
    Exit,
    /// the reference does not say
    Unknown(&'static str),
    Fuel,
}
pub type R<T> = Result<T, Ctl>;

pub fn err<T>(m: impl Into<String>) -> R<T> { Err(Ctl::Err(Box::new(ErrInfo { msg: m.into(), at: None, trace: Vec::new() }))) }
pub fn unknown<T>(why: &'static str) -> R<T> { Err(Ctl::Unknown(why)) }

pub enum Node { Bind(String, RefCell<V>, Env), Scope(Rc<StypeV>, Env) }
pub type Env = Option<Rc<Node>>;

fn bind(env: &Env, name: &str, v: V) -> Env { Some(Rc::new(Node::Bind(name.to_string(), RefCell::new(v), env.clone()))) }

enum Found { Cell(Rc<Node>), Method(V), InstanceMethod(V, V), Field(V), Global, Missing }

enum Slot<'a> { Lv(&'a Lv), Name(&'a str) }

pub enum Flow { Next, Break, Continue, Return(V), /** value of a final expression statement */ Value(V) }

pub enum End { Return, Exit, Err(Box<ErrInfo>), Unknown(&'static str), Fuel }

thread_local! { static EVALS: std::cell::RefCell<HashMap<String, Rc<E>>> = std::cell::RefCell::default(); }
/// The texts which `eval` knows other than those of values
pub fn forget_evals() { EVALS.with(|m| m.borrow_mut().clear()); }
pub fn know_eval(text: &str, e: E) { EVALS.with(|m| m.borrow_mut().insert(text.to_string(), Rc::new(e))); }

pub struct Interp {
    pub globals: HashMap<String, V>,
    pub out: String,
    pub args: Vec<String>,
    pub input: Vec<u8>,
    pub files: HashMap<String, String>,
    pub cur: Id,
    pub steps: usize,
    pub max_steps: usize,
    depth: usize,
    pub max_depth: usize,
    /// counts of what was exercised
    pub calls: usize,
    /// the collections which are iterated over by native functions, and what they contained
    pub watch: Vec<(V, Vec<V>)>,
    /// variables of the interactive mode, whose declaration failed
    pub dead: Vec<String>,
}

impl Default for Interp { fn default() -> Self { Interp::new() } }

/// Marks the place of the name which an operator assignment reads
pub const TARGET: u32 = 1 << 30;

impl Interp {
    pub fn new() -> Interp {
        Interp { globals: HashMap::new(), out: String::new(), args: Vec::new(), input: Vec::new(), files: HashMap::new(), cur: 0, steps: 0, max_steps: 40_000, depth: 0, max_depth: 150, calls: 0, watch: Vec::new(), dead: Vec::new() }
    }

    pub fn run(&mut self, prog: &[S]) -> End {
        reset_too_big();
        let mut env = None;
        for s in prog {
            match self.stmt(s, &mut env, true, false) {
                Ok(_) => {}
                Err(c) => return self.end(c),
            }
        }
        if is_too_big() { return End::Unknown("size"); }
        End::Return
    }

    /// Runs one input of the interactive mode. Returns the value of an expression at its end
    pub fn line(&mut self, prog: &[S]) -> Result<Option<V>, End> {
        reset_too_big();
        self.steps = 0;
        self.watch.clear();
        let mut env = None;
        let mut last = None;
        for (i, s) in prog.iter().enumerate() {
            match self.stmt(s, &mut env, true, i + 1 == prog.len()) {
                Ok(Flow::Value(v)) => last = Some(v),
                Ok(_) => last = None,
                Err(c) => { self.depth = 0; return Err(self.end(c)) }
            }
        }
        if is_too_big() { return Err(End::Unknown("size")); }
        Ok(last)
    }

    fn end(&mut self, c: Ctl) -> End {
        if is_too_big() { return End::Unknown("size"); }
        match c {
            Ctl::Err(mut e) => { if e.at.is_none() { e.at = Some(self.cur); } End::Err(e) }
            Ctl::Exit => End::Exit,
            Ctl::Unknown(w) => End::Unknown(w),
            Ctl::Fuel => End::Fuel,
        }
    }

    fn step(&mut self) -> R<()> {
        self.steps += 1;
        if self.steps > self.max_steps { return Err(Ctl::Fuel); }
        if is_too_big() { return unknown("size"); }
        Ok(())
    }

    pub fn print(&mut self, s: &str) -> R<()> {
        self.out.push_str(s);
        self.out.push('\n');
        if self.out.len() > 60_000 { return unknown("long output"); }
        Ok(())
    }
    pub fn take_input(&mut self) -> String { String::from_utf8_lossy(&std::mem::take(&mut self.input)).into_owned() }
    pub fn read_line(&mut self) -> R<V> {
        if self.input.is_empty() { return Ok(V::Nil); }
        let n = self.input.iter().position(|b| *b == b'\n').map(|i| i + 1).unwrap_or(self.input.len());
        let line: Vec<u8> = self.input.drain(..n).collect();
        let s = String::from_utf8_lossy(&line).into_owned();
        let s = s.strip_suffix('\n').map(|s| s.strip_suffix('\r').unwrap_or(s)).unwrap_or(&s);
        Ok(st(s))
    }
    pub fn external(&mut self, n: Nat, a: &[V]) -> R<V> {
        match (n, a) {
            (Nat::WriteText, [V::Str(f), V::Str(t)]) => { self.files.insert(f.to_string(), t.to_string()); Ok(V::Nil) }
            (Nat::ReadText, [V::Str(f)]) => match self.files.get(&**f) { Some(t) => Ok(st(&t.replace("\r\n", "\n"))), None => unknown("missing file") },
            (Nat::ReadText | Nat::WriteText, _) => {
                for x in a { if !matches!(x, V::Str(_)) { return err(format!("TypeError: Expected {} to be a string", x.errstr())); } }
                unknown("file")
            }
            (Nat::Eval, [V::Str(t)]) => {
                if let Some(e) = EVALS.with(|m| m.borrow().get(&**t).cloned()) { return self.expr(&e, &None); }
                match super::literal::value(t) { Some(v) => Ok(v), None => unknown("eval") }
            }
            (Nat::Eval, [v]) => err(format!("TypeError: Expected {} to be a string", v.errstr())),
            _ => unknown("external"),
        }
    }

    // ===== names ===== //

    fn find(&self, env: &Env, name: &str) -> R<Found> {
        let mut e = env;
        while let Some(n) = e {
            match &**n {
                Node::Bind(k, _, next) => { if k == name { return Ok(Found::Cell(n.clone())); } e = next; }
                Node::Scope(t, next) => {
                    if !t.module {
                        if t.fields.iter().any(|f| &**f == name) { return Ok(Found::Field(self.this(env)?)); }
                    }
                    if let Some((_, f, this)) = t.methods.borrow().iter().find(|m| &*m.0 == name) {
                        return Ok(if *this { Found::InstanceMethod(f.clone(), self.this(env)?) } else { Found::Method(f.clone()) });
                    }
                    e = next;
                }
            }
        }
        Ok(if self.globals.contains_key(name) { Found::Global } else { Found::Missing })
    }

    fn this(&self, env: &Env) -> R<V> {
        let mut e = env;
        while let Some(n) = e {
            match &**n { Node::Bind(k, v, next) => { if k == "self" { return Ok(v.borrow().clone()); } e = next; } Node::Scope(_, next) => e = next }
        }
        unknown("no self")
    }

    fn load(&mut self, env: &Env, name: &str) -> R<V> {
        match self.find(env, name)? {
            Found::Cell(c) => match &*c { Node::Bind(_, v, _) => Ok(v.borrow().clone()), _ => unreachable!() },
            Found::Method(f) => Ok(f),
            Found::InstanceMethod(f, this) => self.bind_method(f, this),
            Found::Field(this) => self.get_field(&this, name),
            Found::Global => Ok(self.globals[name].clone()),
            Found::Missing if self.dead.iter().any(|d| d == name) => unknown("variable whose declaration failed"),
            Found::Missing => err(format!("ValueError: '{}' was referenced but has not been declared yet", name)),
        }
    }

    fn bind_method(&mut self, f: V, this: V) -> R<V> {
        match f { V::Fn(c) => Ok(V::Part(Rc::new((c, vec![this])))), _ => unknown("method") }
    }

    fn store(&mut self, env: &Env, name: &str, v: V) -> R<()> {
        match self.find(env, name)? {
            Found::Cell(c) => { if let Node::Bind(_, cell, _) = &*c { *cell.borrow_mut() = v; } Ok(()) }
            Found::Field(this) => self.set_field(&this, name, v),
            Found::Global => { self.globals.insert(name.to_string(), v); Ok(()) }
            Found::Missing if self.dead.iter().any(|d| d == name) => unknown("variable whose declaration failed"),
            Found::Missing => err(format!("ValueError: '{}' was referenced but has not been declared yet", name)),
            _ => unknown("assignment to a method"),
        }
    }

    fn declare(&mut self, env: &mut Env, top: bool, name: &str, v: V) {
        if top { self.globals.insert(name.to_string(), v); } else { *env = bind(env, name, v); }
    }

    // ===== fields ===== //

    pub fn get_field(&mut self, v: &V, f: &str) -> R<V> {
        match v {
            V::Struct(s) => {
                if let Some(i) = s.ty.fields.iter().position(|x| &**x == f) { return Ok(s.f.borrow()[i].clone()); }
                let m = s.ty.methods.borrow().iter().find(|m| &*m.0 == f && m.2).map(|m| m.1.clone());
                match m {
                    Some(m) => self.bind_method(m, v.clone()),
                    None => err(format!("TypeError: Cannot get field '{}' on {}", f, V::SType(s.ty.clone()).repr())),
                }
            }
            V::SType(t) => {
                if let Some(m) = t.methods.borrow().iter().find(|m| &*m.0 == f) { return Ok(m.1.clone()); }
                if t.fields.iter().any(|x| &**x == f) { return Ok(V::Field(f.into())); }
                err(format!("TypeError: Cannot get field '{}' on {}", f, v.repr()))
            }
            v => err(format!("TypeError: Cannot get field '{}' on {}", f, v.errstr())),
        }
    }

    pub fn set_field(&mut self, v: &V, f: &str, x: V) -> R<()> {
        match v {
            V::Struct(s) => match s.ty.fields.iter().position(|y| &**y == f) {
                Some(i) => { s.f.borrow_mut()[i] = x; Ok(()) }
                None => err(format!("TypeError: Cannot set field '{}' on {}", f, V::SType(s.ty.clone()).repr())),
            },
            V::SType(_) => err(format!("TypeError: Cannot set field '{}' on {}", f, v.repr())),
            v => err(format!("TypeError: Cannot set field '{}' on {}", f, v.errstr())),
        }
    }

    // ===== calls ===== //

    fn too_many<T>(&self, c: &ClosureV, n: usize) -> R<T> { err(format!("Incorrect number of arguments for {}, got {}", c.def.repr(), n)) }

    pub fn call(&mut self, f: &V, a: Vec<V>) -> R<V> {
        self.step()?;
        match f {
            V::Fn(c) => {
                if a.len() < c.def.min_args() {
                    return Ok(if a.is_empty() { f.clone() } else { V::Part(Rc::new((c.clone(), a))) });
                }
                if c.def.max_args().is_some_and(|m| a.len() > m) { return self.too_many(c, a.len()); }
                self.invoke(c, a)
            }
            V::Part(p) => {
                let mut all = p.1.clone();
                all.extend(a);
                if all.len() < p.0.def.min_args() { return Ok(V::Part(Rc::new((p.0.clone(), all)))); }
                if p.0.def.max_args().is_some_and(|m| all.len() > m) { return self.too_many(&p.0, all.len()); }
                self.invoke(&p.0, all)
            }
            V::Nat(n) => natives::call(self, *n, 0, a),
            V::PartNat(p) => {
                let k = p.1.len();
                let mut all = p.1.clone();
                all.extend(a);
                natives::call(self, p.0, k, all)
            }
            V::List(l) => {
                if a.len() != 1 { return natives::not_callable(f); }
                let n = l.borrow().len();
                if n != 1 { return err(format!("ValueError: Evaluating an index must have len = 1, got len = {}", n)); }
                let i = l.borrow()[0].clone();
                natives::get_index(self, &a[0], &i)
            }
            V::Slice(s) => {
                if a.len() != 1 { return natives::not_callable(f); }
                natives::get_slice(&a[0], &s[0], &s[1], &s[2])
            }
            V::SType(t) => {
                if t.module { return natives::not_callable(f); }
                if t.fields.len() != a.len() { return err(format!("Incorrect number of arguments for {}, got {}", f.repr(), a.len())); }
                Ok(V::Struct(Rc::new(StructV { ty: t.clone(), f: RefCell::new(a) })))
            }
            V::Field(x) => {
                if a.len() != 1 { return err(format!("Incorrect number of arguments for native (->'{}'), got {}", x, a.len())); }
                self.get_field(&a[0], x)
            }
            V::Memo(m) => {
                if let Some((_, v)) = m.cache.borrow().iter().find(|(k, _)| seq_eq(k, &a)) { return Ok(v.clone()); }
                let v = self.call(&m.f, a.clone())?;
                m.cache.borrow_mut().push((a, v.clone()));
                Ok(v)
            }
            f => natives::not_callable(f),
        }
    }

    fn invoke(&mut self, c: &Rc<ClosureV>, a: Vec<V>) -> R<V> {
        self.calls += 1;
        self.depth += 1;
        if self.depth > self.max_depth { self.depth -= 1; return Err(Ctl::Fuel); }
        let site = self.cur;
        let r = self.body(c, a);
        self.depth -= 1;
        match r {
            Err(Ctl::Err(mut e)) => {
                if e.at.is_none() { e.at = Some(self.cur); }
                e.trace.push((c.def.repr(), site));
                Err(Ctl::Err(e))
            }
            r => { self.cur = site; r }
        }
    }

    fn body(&mut self, c: &Rc<ClosureV>, a: Vec<V>) -> R<V> {
        let d = &c.def;
        let mut env = c.env.clone();
        let mut given = a.into_iter();
        let mut pats: Vec<(&Pat, V)> = Vec::new();
        for p in &d.params {
            let v = match (&p.k, &p.pat) {
                (PK::Var, _) => vector(given.by_ref().collect()),
                (k, _) => match given.next() {
                    Some(v) => v,
                    None => match k { PK::Opt => V::Nil, PK::Def(e) => self.expr(e, &c.env)?, _ => unreachable!() },
                },
            };
            pats.push((&p.pat, v));
        }
        for (p, v) in &pats { if let Pat::Lv(Lv::Var(n)) = p { env = bind(&env, n, v.clone()); } }
        for (p, v) in pats {
            if let Pat::Nest(ps) = p { self.cur = d.id; self.destructure(ps, &v, &mut env, false)?; }
        }
        match &d.body {
            Body::Expr(e) => self.expr(e, &env),
            Body::Block(b) => match self.block(b, &env, true)? { Flow::Return(v) | Flow::Value(v) => Ok(v), _ => Ok(V::Nil) },
        }
    }

    /// Declares the names of a pattern
    fn destructure(&mut self, ps: &[Pat], v: &V, env: &mut Env, top: bool) -> R<()> {
        self.take_apart(ps, v, &mut |m, l, x| { match l { Slot::Name(n) => m.declare(env, top, n, x), Slot::Lv(Lv::Var(n)) => m.declare(env, top, n, x), _ => {} } Ok(()) })
    }

    /// Matches a value, giving each target its value from right to left
    fn take_apart<'a>(&mut self, ps: &'a [Pat], v: &V, out: &mut dyn FnMut(&mut Interp, Slot<'a>, V) -> R<()>) -> R<()> {
        let n = natives::len(v)?;
        let rest = ps.iter().position(|p| matches!(p, Pat::Rest(_)));
        let need = ps.len() - rest.is_some() as usize;
        if rest.is_some() && n < need { return err(format!("ValueError: Cannot unpack {} with length {}, expected at least {} elements", v.errstr(), n, need)); }
        if rest.is_none() && n != need { return err(format!("ValueError: Cannot unpack {} with length {}, expected exactly {} elements", v.errstr(), n, need)); }
        let k = ps.len();
        for (i, p) in ps.iter().enumerate().rev() {
            let at = match rest { Some(r) if i > r => i as i64 - k as i64, _ => i as i64 };
            match p {
                Pat::Discard | Pat::Rest(None) => {}
                Pat::Lv(l) => { let x = natives::get_index(self, v, &V::Int(at))?; out(self, Slot::Lv(l), x)?; }
                Pat::Nest(q) => { let x = natives::get_index(self, v, &V::Int(at))?; self.take_apart(q, &x, out)?; }
                Pat::Rest(Some(name)) => {
                    let after = (k - 1 - i) as i64;
                    let hi = if after == 0 { V::Nil } else { V::Int(-after) };
                    let x = natives::get_slice(v, &V::Int(at), &hi, &V::Int(1))?;
                    out(self, Slot::Name(name), x)?;
                }
            }
        }
        Ok(())
    }

    // ===== statements ===== //

    pub fn block(&mut self, b: &[S], env: &Env, last: bool) -> R<Flow> {
        let mut env = env.clone();
        for (i, s) in b.iter().enumerate() {
            match self.stmt(s, &mut env, false, last && i + 1 == b.len())? {
                Flow::Next => {}
                f => return Ok(f),
            }
        }
        Ok(Flow::Next)
    }

    fn closure(&self, d: &Rc<FnDef>, env: &Env) -> V { V::Fn(Rc::new(ClosureV { def: d.clone(), env: env.clone() })) }

    fn stmt(&mut self, s: &S, env: &mut Env, top: bool, last: bool) -> R<Flow> {
        self.step()?;
        match &s.k {
            SK::Comment(_) => {}
            SK::Let(items) => {
                for (ps, v) in items {
                    let v = match v { Some(v) => self.expr(v, env)?, None => V::Nil };
                    match &ps[..] {
                        [Pat::Lv(Lv::Var(n))] => self.declare(env, top, n, v),
                        ps => { self.cur = s.id; self.destructure(ps, &v, env, top)? }
                    }
                }
            }
            SK::Fn(d, dec) => {
                // decorators are evaluated before the function itself, and applied from the last to the first
                self.declare(env, top, &d.name, V::Nil);
                let mut ds = Vec::new();
                for e in dec { ds.push((e.id, self.expr(e, env)?)); }
                let mut v = self.closure(d, env);
                for (id, f) in ds.into_iter().rev() { self.cur = id; v = self.call(&f, vec![v])?; }
                self.store(env, &d.name, v)?;
            }
            SK::Struct(n, f, m) => {
                let ty = Rc::new(StypeV { name: n.as_str().into(), fields: f.iter().map(|x| x.as_str().into()).collect(), module: false, methods: RefCell::default() });
                let scope: Env = Some(Rc::new(Node::Scope(ty.clone(), env.clone())));
                let ms = m.iter().map(|(d, this)| (Rc::from(d.name.as_str()), self.closure(d, &scope), *this)).collect();
                *ty.methods.borrow_mut() = ms;
                self.declare(env, top, n, V::SType(ty));
            }
            SK::Module(n, m) => {
                let ty = Rc::new(StypeV { name: n.as_str().into(), fields: Vec::new(), module: true, methods: RefCell::default() });
                let scope: Env = Some(Rc::new(Node::Scope(ty.clone(), env.clone())));
                let ms = m.iter().map(|d| (Rc::from(d.name.as_str()), self.closure(d, &scope), false)).collect();
                *ty.methods.borrow_mut() = ms;
                self.declare(env, top, n, V::SType(ty));
            }
            SK::Expr(e) => {
                let v = self.expr(e, env)?;
                if last { return Ok(Flow::Value(v)); }
            }
            SK::If(cs, z) => {
                for (c, b) in cs {
                    if self.expr(c, env)?.truthy() { return self.block(b, env, false); }
                }
                if let Some(z) = z { return self.block(z, env, false); }
            }
            SK::While(c, b, z) => {
                loop {
                    self.step()?;
                    if !self.expr(c, env)?.truthy() { break; }
                    match self.block(b, env, false)? { Flow::Break => return Ok(Flow::Next), f @ Flow::Return(_) => return Ok(f), _ => {} }
                }
                if let Some(z) = z { return self.block(z, env, false); }
            }
            SK::Loop(b) => loop {
                self.step()?;
                match self.block(b, env, false)? { Flow::Break => return Ok(Flow::Next), f @ Flow::Return(_) => return Ok(f), _ => {} }
            },
            SK::Do(b, c, z) => {
                loop {
                    self.step()?;
                    match self.block(b, env, false)? {
                        Flow::Break => return Ok(Flow::Next),
                        Flow::Continue => continue,
                        f @ Flow::Return(_) => return Ok(f),
                        _ => {}
                    }
                    match c { Some(c) => if !self.expr(c, env)?.truthy() { break; }, None => break }
                }
                if let Some(z) = z { return self.block(z, env, false); }
            }
            SK::For(ps, e, b, z) => {
                let v = self.expr(e, env)?;
                self.cur = s.id;
                let mut at = natives::Steps::new(&v)?;
                while let Some(x) = at.next()? {
                    self.step()?;
                    let mut inner = env.clone();
                    self.cur = s.id;
                    match &ps[..] {
                        [Pat::Lv(Lv::Var(n))] => inner = bind(&inner, n, x),
                        [Pat::Discard] => {}
                        ps => self.destructure(ps, &x, &mut inner, false)?,
                    }
                    match self.block(b, &inner, false)? { Flow::Break => return Ok(Flow::Next), f @ Flow::Return(_) => return Ok(f), _ => {} }
                }
                if let Some(z) = z { return self.block(z, env, false); }
            }
            SK::Break => return Ok(Flow::Break),
            SK::Continue => return Ok(Flow::Continue),
            SK::Return(None) => return Ok(Flow::Return(V::Nil)),
            SK::Return(Some(e)) => { let v = self.expr(e, env)?; return Ok(Flow::Return(v)); }
            SK::Assert(e, m) => {
                let mut x = e;
                while let EK::Paren(y) = &x.k { x = y; }
                let why = match &x.k {
                    EK::Bin(o, a, b) if o.is_cmp() => {
                        let a = self.expr(a, env)?;
                        let b = self.expr(b, env)?;
                        self.cur = x.id;
                        if binary(*o, &a, &b)?.truthy() { None } else { Some(Some(format!("Expected {} {} {}", a.repr(), o.text(), b.repr()))) }
                    }
                    _ => if self.expr(x, env)?.truthy() { None } else { Some(None) },
                };
                if let Some(why) = why {
                    let m = match m { Some(m) => self.expr(m, env)?, None => V::Nil };
                    self.cur = s.id;
                    let mut t = String::from("Assertion Failed:");
                    if !matches!(m, V::Nil) { t.push(' '); t.push_str(&m.str()); }
                    if let Some(w) = why { t.push(if matches!(m, V::Nil) { ' ' } else { '\n' }); t.push_str(&w); }
                    return err(t);
                }
            }
            SK::Exit => return Err(Ctl::Exit),
        }
        Ok(Flow::Next)
    }

    // ===== expressions ===== //

    fn args(&mut self, a: &[Arg], env: &Env) -> R<Vec<V>> {
        let mut r = Vec::new();
        for x in a {
            match x {
                Arg::E(e) => r.push(self.expr(e, env)?),
                Arg::Unroll(id, e) => { let v = self.expr(e, env)?; self.cur = *id; r.extend(natives::iter(&v)?); }
            }
        }
        Ok(r)
    }

    fn slice(&mut self, s: &Sl, env: &Env) -> R<[V; 3]> {
        let a = match &s.a { Some(e) => self.expr(e, env)?, None => V::Nil };
        let b = match &s.b { Some(e) => self.expr(e, env)?, None => V::Nil };
        let c = match &s.c { Some(Some(e)) => self.expr(e, env)?, _ => V::Nil };
        Ok([a, b, c])
    }

    fn aop(&mut self, o: AOp, a: V, b: V) -> R<V> {
        match o {
            AOp::Op(o) => binary(o, &a, &b),
            AOp::Max | AOp::Min => {
                if !ordered(&a, &b) { return unknown("unordered values"); }
                let c = cmp(&b, &a);
                Ok(if (o == AOp::Max && c.is_gt()) || (o == AOp::Min && c.is_lt()) { b } else { a })
            }
            AOp::Comp => self.call(&b, vec![a]),
        }
    }

    pub fn expr(&mut self, e: &E, env: &Env) -> R<V> {
        self.step()?;
        Ok(match &e.k {
            EK::Nil => V::Nil,
            EK::Exit => return Err(Ctl::Exit),
            EK::Bool(b) => V::Bool(*b),
            EK::Int(i) => V::Int(*i),
            EK::Imag(i) => cx(0, *i),
            EK::Str(s) => st(s),
            EK::Var(n) => { self.cur = e.id; self.load(env, n)? }
            EK::Nat(n) => V::Nat(*n),
            EK::Un(o, a) => { let a = self.expr(a, env)?; self.cur = e.id; unary(*o, &a)? }
            EK::Bin(o, a, b) => {
                let a = self.expr(a, env)?;
                let b = self.expr(b, env)?;
                self.cur = e.id;
                binary(*o, &a, &b)?
            }
            EK::And(a, b) => { let a = self.expr(a, env)?; if a.truthy() { self.expr(b, env)? } else { a } }
            EK::Or(a, b) => { let a = self.expr(a, env)?; if a.truthy() { a } else { self.expr(b, env)? } }
            EK::Chain(a, r) => {
                let mut x = self.expr(a, env)?;
                for (i, (o, id, y)) in r.iter().enumerate() {
                    let y = self.expr(y, env)?;
                    self.cur = *id;
                    let v = binary(*o, &x, &y)?;
                    if !v.truthy() || i + 1 == r.len() { return Ok(v); }
                    x = y;
                }
                unreachable!()
            }
            EK::Tern(cs, z) => {
                for (c, v) in cs { if self.expr(c, env)?.truthy() { return self.expr(v, env); } }
                self.expr(z, env)?
            }
            EK::List(a) => list(self.args(a, env)?),
            EK::Set(a) => set(self.args(a, env)?),
            EK::Vector(a) => vector(self.args(a, env)?),
            EK::Dict(a) => {
                let mut r = Vec::new();
                for x in a {
                    match x {
                        DArg::Pair(k, v) => { let k = self.expr(k, env)?; let v = self.expr(v, env)?; r.push((k, v)); }
                        DArg::Unroll(id, e) => {
                            let v = self.expr(e, env)?;
                            self.cur = *id;
                            for x in natives::iter(&v)? {
                                match &x {
                                    V::List(p) | V::Vector(p) if p.borrow().len() == 2 => r.push((p.borrow()[0].clone(), p.borrow()[1].clone())),
                                    _ => return err(format!("ValueError: Cannot collect key-value pair {} into a dict", x.errstr())),
                                }
                            }
                        }
                    }
                }
                dict(r)
            }
            EK::Call(f, a) => {
                let f = self.expr(f, env)?;
                let a = self.args(a, env)?;
                self.cur = e.id;
                self.call(&f, a)?
            }
            EK::Bare(f, a) => {
                let f = self.expr(f, env)?;
                let a = self.expr(a, env)?;
                self.cur = e.id;
                self.call(&f, vec![a])?
            }
            EK::Comp(a, f) => {
                let a = self.expr(a, env)?;
                let f = self.expr(f, env)?;
                self.cur = e.id;
                self.call(&f, vec![a])?
            }
            EK::Index(a, i) => {
                let a = self.expr(a, env)?;
                let i = self.expr(i, env)?;
                self.cur = e.id;
                natives::get_index(self, &a, &i)?
            }
            EK::Slice(a, s) => {
                let a = self.expr(a, env)?;
                let [x, y, z] = self.slice(s, env)?;
                self.cur = e.id;
                natives::get_slice(&a, &x, &y, &z)?
            }
            EK::SliceLit(s) => {
                let s = self.slice(s, env)?;
                self.cur = e.id;
                for x in &s { if !matches!(x, V::Nil | V::Int(_) | V::Bool(_)) { return err(format!("TypeError: Expected {} to be a int", x.errstr())); } }
                V::Slice(Rc::new(s))
            }
            EK::Field(a, f) => { let a = self.expr(a, env)?; self.cur = e.id; self.get_field(&a, f)? }
            EK::FieldFn(f) => V::Field(f.as_str().into()),
            EK::SectL(x, o) => { let x = self.expr(x, env)?; V::PartNat(Rc::new((Nat::Op(*o), vec![x]))) }
            EK::SectR(o, x) => {
                let x = self.expr(x, env)?;
                let swap = !matches!(o, Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq | Op::Ne);
                V::PartNat(Rc::new((if swap { Nat::OpSwap(*o) } else { Nat::Op(*o) }, vec![x])))
            }
            EK::OpFn(o) => V::Nat(if *o == Op::Sub { Nat::OpSub } else { Nat::Op(*o) }),
            EK::UnFn(o) => V::Nat(match o { super::ops::Un::Neg => Nat::OpSub, super::ops::Un::Not => Nat::OpNot, super::ops::Un::LNot => Nat::OpLNot }),
            EK::Lambda(d) => self.closure(d, env),
            EK::Assign(l, v) => {
                match l {
                    Lv::Var(n) => { let v = self.expr(v, env)?; self.cur = e.id; self.store(env, n, v.clone())?; v }
                    Lv::Index(a, i) => {
                        let a = self.expr(a, env)?;
                        let i = self.expr(i, env)?;
                        let v = self.expr(v, env)?;
                        self.cur = e.id;
                        natives::set_index(&a, &i, v.clone())?;
                        v
                    }
                    Lv::Field(a, f) => {
                        let a = self.expr(a, env)?;
                        let v = self.expr(v, env)?;
                        self.cur = e.id;
                        self.set_field(&a, f, v.clone())?;
                        v
                    }
                }
            }
            EK::OpAssign(l, o, v) => {
                match l {
                    Lv::Var(n) => {
                        self.cur = e.id ^ TARGET;
                        let x = self.load(env, n)?;
                        let v = self.expr(v, env)?;
                        self.cur = e.id;
                        let r = self.aop(*o, x, v)?;
                        self.store(env, n, r.clone())?;
                        r
                    }
                    Lv::Index(a, i) => {
                        let a = self.expr(a, env)?;
                        let i = self.expr(i, env)?;
                        self.cur = e.id;
                        let x = natives::get_index(self, &a, &i)?;
                        let v = self.expr(v, env)?;
                        self.cur = e.id;
                        let r = self.aop(*o, x, v)?;
                        natives::set_index(&a, &i, r.clone())?;
                        r
                    }
                    Lv::Field(a, f) => {
                        let a = self.expr(a, env)?;
                        self.cur = e.id;
                        let x = self.get_field(&a, f)?;
                        let v = self.expr(v, env)?;
                        self.cur = e.id;
                        let r = self.aop(*o, x, v)?;
                        self.set_field(&a, f, r.clone())?;
                        r
                    }
                }
            }
            EK::PatAssign(ps, v) => {
                // targets, then the value, then stores from right to left
                let mut targets = Vec::new();
                self.targets(ps, env, &mut targets)?;
                let v = self.expr(v, env)?;
                self.cur = e.id;
                self.take_apart(ps, &v, &mut |m, l, x| {
                    match l {
                        Slot::Name(n) => m.store(env, n, x)?,
                        Slot::Lv(Lv::Var(n)) => m.store(env, n, x)?,
                        Slot::Lv(Lv::Index(..)) => { let (t, i) = targets.pop().unwrap(); natives::set_index(&t, &i.unwrap(), x)?; }
                        Slot::Lv(Lv::Field(_, f)) => { let (t, _) = targets.pop().unwrap(); m.set_field(&t, f, x)?; }
                    }
                    Ok(())
                })?;
                v
            }
            EK::Paren(a) => self.expr(a, env)?,
        })
    }

    fn targets(&mut self, ps: &[Pat], env: &Env, out: &mut Vec<(V, Option<V>)>) -> R<()> {
        for p in ps {
            match p {
                Pat::Nest(q) => self.targets(q, env, out)?,
                Pat::Lv(Lv::Index(a, i)) => { let a = self.expr(a, env)?; let i = self.expr(i, env)?; out.push((a, Some(i))); }
                Pat::Lv(Lv::Field(a, _)) => { let a = self.expr(a, env)?; out.push((a, None)); }
                _ => {}
            }
        }
        Ok(())
    }
}
