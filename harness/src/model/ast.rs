//! Syntax trees of the reference model, and their printer.

use std::collections::HashMap;
use std::rc::Rc;

use super::natives::Nat;
use super::ops::{Op, Un};

pub type Id = u32;

#[derive(Clone)]
pub struct E { pub id: Id, pub k: EK }

#[derive(Clone)]
pub enum Arg { E(E), Unroll(Id, E) }
impl Arg { pub fn e(&self) -> &E { match self { Arg::E(e) | Arg::Unroll(_, e) => e } } }

#[derive(Clone)]
pub enum EK {
    Nil,
    Bool(bool),
    Int(i64),
    Imag(i64),
    Str(String),
    Var(String),
    Nat(Nat),
    Un(Un, Box<E>),
    Bin(Op, Box<E>, Box<E>),
    And(Box<E>, Box<E>),
    Or(Box<E>, Box<E>),
    /// at least two comparisons
    Chain(Box<E>, Vec<(Op, Id, E)>),
    Tern(Vec<(E, E)>, Box<E>),
    List(Vec<Arg>),
    Set(Vec<Arg>),
    Vector(Vec<Arg>),
    Dict(Vec<DArg>),
    Call(Box<E>, Vec<Arg>),
    Bare(Box<E>, Box<E>),
    Comp(Box<E>, Box<E>),
    Index(Box<E>, Box<E>),
    Slice(Box<E>, Sl),
    SliceLit(Sl),
    Field(Box<E>, String),
    FieldFn(String),
    Exit,
    /// `(x op)`
    SectL(Box<E>, Op),
    /// `(op x)`
    SectR(Op, Box<E>),
    OpFn(Op),
    UnFn(Un),
    Lambda(Rc<FnDef>),
    Assign(Lv, Box<E>),
    OpAssign(Lv, AOp, Box<E>),
    /// only as a statement
    PatAssign(Vec<Pat>, Box<E>),
    /// redundant parentheses
    Paren(Box<E>),
}

#[derive(Clone)]
pub enum DArg { Pair(E, E), Unroll(Id, E) }

#[derive(Clone)]
pub struct Sl { pub a: Option<Box<E>>, pub b: Option<Box<E>>, pub c: Option<Option<Box<E>>> }

#[derive(Clone)]
pub enum Lv { Var(String), Index(Box<E>, Box<E>), Field(Box<E>, String) }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum AOp { Op(Op), Min, Max, Comp }
impl AOp {
    pub fn text(self) -> String { match self { AOp::Op(o) => format!("{}=", o.text()), AOp::Min => "min=".into(), AOp::Max => "max=".into(), AOp::Comp => ".=".into() } }
}

#[derive(Clone)]
pub enum Pat { Lv(Lv), Discard, Rest(Option<String>), Nest(Vec<Pat>) }

#[derive(Clone)]
pub enum PK { Req, Opt, Def(E), Var }
#[derive(Clone)]
pub struct Param { pub pat: Pat, pub k: PK }

#[derive(Clone)]
pub enum Body { Expr(E), Block(Vec<S>) }

#[derive(Clone)]
pub struct FnDef { pub id: Id, pub name: String, pub params: Vec<Param>, pub body: Body }

impl Pat {
    pub fn text(&self) -> String {
        match self {
            Pat::Lv(Lv::Var(n)) => n.clone(),
            Pat::Lv(_) => "?".into(),
            Pat::Discard => "_".into(),
            Pat::Rest(Some(n)) => format!("*{}", n),
            Pat::Rest(None) => "*_".into(),
            Pat::Nest(p) => format!("({})", p.iter().map(|x| x.text()).collect::<Vec<_>>().join(", ")),
        }
    }
    pub fn names(&self, out: &mut Vec<String>) {
        match self {
            Pat::Lv(Lv::Var(n)) | Pat::Rest(Some(n)) => out.push(n.clone()),
            Pat::Nest(p) => for x in p { x.names(out) },
            _ => {}
        }
    }
}

impl FnDef {
    pub fn min_args(&self) -> usize { self.params.iter().filter(|p| matches!(p.k, PK::Req)).count() }
    pub fn max_args(&self) -> Option<usize> { if self.variadic() { None } else { Some(self.params.len()) } }
    pub fn variadic(&self) -> bool { self.params.iter().any(|p| matches!(p.k, PK::Var)) }
    pub fn repr(&self) -> String {
        let p: Vec<String> = self.params.iter().map(|p| p.pat.text()).collect();
        format!("fn {}({})", self.name, p.join(", "))
    }
}

#[derive(Clone)]
pub struct S { pub id: Id, pub k: SK }

#[derive(Clone)]
pub enum SK {
    Let(Vec<(Vec<Pat>, Option<E>)>),
    Fn(Rc<FnDef>, Vec<E>),
    /// name, fields, methods (with `self` as the first parameter or not)
    Struct(String, Vec<String>, Vec<(Rc<FnDef>, bool)>),
    Module(String, Vec<Rc<FnDef>>),
    Expr(E),
    If(Vec<(E, Vec<S>)>, Option<Vec<S>>),
    While(E, Vec<S>, Option<Vec<S>>),
    Do(Vec<S>, Option<E>, Option<Vec<S>>),
    Loop(Vec<S>),
    For(Vec<Pat>, E, Vec<S>, Option<Vec<S>>),
    Break,
    Continue,
    Return(Option<E>),
    Assert(E, Option<E>),
    Exit,
    /// comment or blank line
    Comment(String),
}

/// Where the printer has a choice
#[derive(Clone, Copy)]
pub struct Style {
    pub full_parens: bool,
    pub break_lines: bool,
    /// redundant parentheses at random
    pub extra: bool,
    /// leaves out, at random, the parentheses of what extends as far as possible (conditionals, functions, assignments, sections)
    pub tails: bool,
    /// puts a `\u{1}` between statements
    pub marks: bool,
    /// a comma after the last element of what is separated by commas, at random
    pub commas: bool,
}
impl Default for Style { fn default() -> Self { Style { full_parens: false, break_lines: false, extra: false, tails: false, marks: false, commas: false } } }

#[derive(Default)]
pub struct Printer {
    pub out: String,
    /// the text which is blamed for an error in a node
    pub spans: HashMap<Id, (usize, usize)>,
    /// parts of the text which contain the blamed one, where it is not specified more closely
    pub loose: HashMap<Id, (usize, usize)>,
    pub style: Style,
    /// random bits used to break lines
    pub salt: u64,
    depth: usize,
    indent: usize,
}

pub fn level(e: &E) -> u8 {
    match &e.k {
        EK::Assign(..) | EK::OpAssign(..) | EK::PatAssign(..) | EK::Lambda(..) | EK::Tern(..) => 0,
        EK::And(..) | EK::Or(..) => 1,
        EK::Chain(..) => 2,
        EK::Bin(o, ..) => op_level(*o),
        EK::Comp(..) => 3,
        EK::Un(..) => 8,
        EK::Call(..) | EK::Bare(..) | EK::Index(..) | EK::Slice(..) | EK::Field(..) => 9,
        EK::Int(i) if *i < 0 && *i > super::value::MIN_INT => 8,
        EK::Imag(i) if *i < 0 => 8,
        _ => 10,
    }
}

pub fn op_level(o: Op) -> u8 {
    use Op::*;
    match o {
        Lt | Gt | Le | Ge | Eq | Ne => 2,
        And | Or | Xor => 4,
        Shl | Shr => 5,
        Add | Sub => 6,
        Mul | Div | Mod | Pow | Is | IsNot | In | NotIn => 7,
    }
}

pub fn str_lit(s: &str) -> String {
    let mut o = String::from("'");
    for c in s.chars() {
        match c { '\'' => o.push_str("\\'"), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), '\r' => o.push_str("\\r"), c => o.push(c) }
    }
    o.push('\'');
    o
}

impl Printer {
    pub fn new(style: Style) -> Printer { Printer { style, ..Printer::default() } }

    fn p(&mut self, s: &str) { self.out.push_str(s); }
    fn mark(&mut self, id: Id, start: usize) { let e = self.out.len(); self.spans.insert(id, (start, e)); }

    /// a place inside brackets or after a binary operator, where a line break makes no difference
    fn sp(&mut self) {
        if self.style.break_lines {
            self.salt = self.salt.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            match (self.salt >> 33) % 6 {
                0 => { self.p("\n"); let n = self.indent + 2; for _ in 0..n { self.p("  "); } return; }
                1 => { self.p(" // c\n "); return; }
                _ => {}
            }
        }
        self.p(" ");
    }

    fn coin(&mut self, n: u64) -> bool {
        self.salt = self.salt.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (self.salt >> 33) % n == 0
    }

    pub fn expr(&mut self, e: &E, min: u8) { self.ex(e, min, 0) }

    /// `tail` tells what follows the expression: 0 anything, 1 a comma or a token which ends an expression, 2 the latter
    fn ex(&mut self, e: &E, min: u8, tail: u8) {
        let l = level(e);
        let open = match e.k { EK::Tern(..) => tail >= 1, EK::Lambda(..) => tail == 2, _ => false };
        let mut paren = l < min || (self.style.full_parens && l < 10 && min > 0);
        if paren && open && self.style.tails && !self.style.full_parens && self.coin(2) { paren = false; }
        if !paren && matches!(e.k, EK::Lambda(_)) && tail < 2 { paren = true; }
        if !paren && min > 0 && self.style.extra && self.coin(6) { paren = true; }
        if paren { self.p("("); }
        self.raw(e, if paren { 2 } else { tail });
        if paren { self.p(")"); }
    }

    /// A place which takes any expression
    fn any(&mut self, e: &E, tail: u8) {
        let min = if self.style.tails && self.coin(2) { 0 } else { 1 };
        self.ex(e, min, tail)
    }

    fn args(&mut self, a: &[Arg], close: char) {
        for (i, x) in a.iter().enumerate() {
            if i > 0 { self.p(","); self.sp(); }
            let last = i + 1 == a.len() && close != ',';
            match x {
                Arg::E(e) => {
                    let bare = self.style.tails && match &e.k { EK::SectL(..) | EK::SectR(..) | EK::OpFn(_) | EK::UnFn(_) | EK::FieldFn(_) => true, _ => false };
                    if bare && self.coin(2) { self.section(e, if last { 2 } else { 1 }) } else { self.any(e, if last { 2 } else { 1 }) }
                }
                Arg::Unroll(id, e) => { let s = self.out.len(); self.p("..."); self.mark(*id, s); self.any(e, if last { 2 } else { 1 }); }
            }
        }
    }

    fn comma(&mut self, n: usize) { if n > 0 && self.style.commas && self.coin(3) { self.p(","); } }

    /// A section without its parentheses
    fn section(&mut self, e: &E, tail: u8) {
        match &e.k {
            EK::FieldFn(f) => { self.p("->"); self.p(f); }
            EK::SectL(x, o) => {
                if self.style.tails && self.coin(2) { self.ex(x, 0, 2) } else { self.expr(x, 9) }
                self.p(" ");
                self.p(o.text());
            }
            EK::SectR(o, x) => {
                self.p(o.text());
                self.p(" ");
                if *o == Op::Is && matches!(leftmost(x).k, EK::Un(Un::LNot, _)) { self.p("("); self.raw(x, 2); self.p(")"); } else { self.any(x, tail) }
            }
            EK::OpFn(o) => self.p(o.text()),
            EK::UnFn(o) => self.p(o.text().trim()),
            _ => unreachable!(),
        }
    }

    fn slice(&mut self, s: &Sl) {
        self.p("[");
        if let Some(a) = &s.a { self.any(a, 2); }
        self.p(":");
        if let Some(a) = &s.b { self.any(a, 2); }
        if let Some(c) = &s.c { self.p(":"); if let Some(a) = c { self.any(a, 2); } }
        self.p("]");
    }

    fn lv(&mut self, l: &Lv) {
        match l {
            Lv::Var(n) => self.p(n),
            Lv::Index(a, i) => { self.expr(a, 9); self.p("["); self.any(i, 2); self.p("]"); }
            Lv::Field(a, f) => { self.expr(a, 9); self.p("->"); self.p(f); }
        }
    }

    fn pats(&mut self, p: &[Pat]) {
        for (i, x) in p.iter().enumerate() {
            if i > 0 { self.p(", "); }
            self.pat(x);
        }
        // a pattern of one element needs a comma to be one
        if let [Pat::Nest(_)] = p {}
    }

    fn pat(&mut self, p: &Pat) {
        match p {
            Pat::Lv(l) => self.lv(l),
            Pat::Discard => self.p("_"),
            Pat::Rest(Some(n)) => { self.p("*"); self.p(n); }
            Pat::Rest(None) => self.p("*_"),
            Pat::Nest(ps) => { self.p("("); self.pats(ps); self.p(")"); }
        }
    }

    fn raw(&mut self, e: &E, t: u8) {
        let id = e.id;
        match &e.k {
            EK::Nil => self.p("nil"),
            EK::Exit => self.p("exit"),
            EK::Bool(b) => self.p(if *b { "true" } else { "false" }),
            EK::Int(i) => if *i <= super::value::MIN_INT { self.p("(-4611686018427387903 - 1)") } else { self.p(&i.to_string()) },
            EK::Imag(i) => self.p(&format!("{}i", i)),
            EK::Str(s) => self.p(&str_lit(s)),
            EK::Var(n) => { let s = self.out.len(); self.p(n); self.mark(id, s); }
            EK::Nat(n) => self.p(&n.name()),
            EK::Un(o, a) => {
                let s = self.out.len();
                self.p(o.text().trim());
                self.mark(id, s);
                if *o == Un::LNot { self.p(" "); }
                let neg = matches!(&a.k, EK::Un(Un::Neg, _)) || matches!(&a.k, EK::Int(i) | EK::Imag(i) if *i < 0);
                if *o == Un::Neg && neg { self.p("("); self.raw(a, 2); self.p(")"); } else { self.ex(a, 8, t); }
            }
            EK::Bin(o, a, b) => {
                let l = op_level(*o);
                self.expr(a, if o.is_cmp() { l + 1 } else { l });
                self.p(" ");
                let s = self.out.len();
                self.p(o.text());
                self.mark(id, s);
                self.sp();
                let not = matches!(leftmost(b).k, EK::Un(Un::LNot, _)) && matches!(o, Op::Is);
                if not { self.p("("); self.raw(b, 2); self.p(")"); } else { self.ex(b, l + 1, t); }
            }
            EK::And(a, b) => { self.expr(a, 1); self.p(" and"); self.sp(); self.ex(b, 2, t); }
            EK::Or(a, b) => { self.expr(a, 1); self.p(" or"); self.sp(); self.ex(b, 2, t); }
            EK::Chain(a, r) => {
                self.expr(a, 3);
                for (i, (o, id, x)) in r.iter().enumerate() {
                    self.p(" ");
                    let s = self.out.len();
                    self.p(o.text());
                    self.mark(*id, s);
                    self.sp();
                    self.ex(x, 3, if i + 1 == r.len() { t } else { 0 });
                }
            }
            EK::Tern(cs, z) => {
                for (i, (c, x)) in cs.iter().enumerate() {
                    self.p(if i == 0 { "if " } else { " elif " });
                    self.any(c, 2);
                    self.p(" then");
                    self.sp();
                    self.any(x, 2);
                }
                self.p(" else");
                self.sp();
                if t > 0 { self.any(z, t) } else { self.expr(z, 1) }
            }
            EK::List(a) => { self.p("["); self.args(a, ','); self.comma(a.len()); self.p("]"); }
            EK::Set(a) => { self.p("{"); self.args(a, ','); self.comma(a.len()); self.p("}"); }
            EK::Vector(a) => { self.p("("); self.args(a, if a.len() == 1 || self.style.commas { ',' } else { ')' }); if let [Arg::E(_)] = a[..] { self.p(","); } else { self.comma(a.len()); } self.p(")"); }
            EK::Dict(a) => {
                self.p("{");
                for (i, x) in a.iter().enumerate() {
                    if i > 0 { self.p(","); self.sp(); }
                    match x {
                        DArg::Pair(k, v) => { self.any(k, 2);
                            self.p(":");
                            self.sp();
                            let bare = self.style.tails && matches!(&v.k, EK::SectL(..) | EK::SectR(..) | EK::OpFn(_) | EK::UnFn(_) | EK::FieldFn(_));
                            if bare && self.coin(2) { self.section(v, 1) } else { self.any(v, 1) }
                        }
                        DArg::Unroll(id, e) => { let s = self.out.len(); self.p("..."); self.mark(*id, s); self.expr(e, 1); }
                    }
                }
                self.comma(a.len());
                self.p("}");
            }
            EK::Call(f, a) => {
                self.expr(f, 9);
                let s = self.out.len();
                self.p("(");
                self.args(a, if self.style.commas { ',' } else { ')' });
                self.comma(a.len());
                self.p(")");
                self.mark(id, s);
            }
            EK::Bare(f, a) => {
                self.expr(f, 9);
                self.p(" ");
                let s = self.out.len();
                self.ex(a, 10, t);
                self.mark(id, s);
            }
            EK::Comp(a, f) => {
                self.expr(a, 3);
                self.p(" ");
                let s = self.out.len();
                self.p(".");
                self.sp();
                self.ex(f, 4, t);
                self.mark(id, s);
            }
            EK::Index(a, i) => {
                self.expr(a, 9);
                let s = self.out.len();
                self.p("[");
                self.any(i, 2);
                self.p("]");
                self.mark(id, s);
            }
            EK::Slice(a, x) => {
                self.expr(a, 9);
                let s = self.out.len();
                self.slice(x);
                self.mark(id, s);
            }
            EK::SliceLit(x) => { let s = self.out.len(); self.slice(x); self.mark(id, s); }
            EK::Field(a, f) => {
                self.expr(a, 9);
                let s = self.out.len();
                self.p("->");
                self.p(f);
                self.mark(id, s);
            }
            EK::FieldFn(_) | EK::SectL(..) | EK::SectR(..) | EK::OpFn(_) | EK::UnFn(_) => { self.p("("); self.section(e, 2); self.p(")"); }
            EK::Lambda(d) => {
                self.p("fn");
                self.func(d, t);
            }
            EK::Assign(l, v) => {
                self.lv(l);
                self.p(" ");
                let s = self.out.len();
                self.p("=");
                self.mark(id, s);
                self.sp();
                self.ex(v, 0, t);
            }
            EK::OpAssign(l, o, v) => {
                let s = self.out.len();
                self.lv(l);
                if let Lv::Var(_) = l { self.mark(id ^ super::interp::TARGET, s); }
                self.p(" ");
                let s = self.out.len();
                self.p(&o.text());
                self.mark(id, s);
                self.sp();
                self.ex(v, 0, t);
            }
            EK::PatAssign(ps, v) => {
                self.pats(ps);
                self.p(" ");
                let s = self.out.len();
                self.p("=");
                self.mark(id, s);
                self.p(" ");
                match &v.k {
                    EK::Vector(a) if a.len() > 1 && a.iter().all(|x| matches!(x, Arg::E(y) if level(y) >= 4)) && id % 2 == 0 => self.args(a, ','),
                    _ => self.expr(v, 1),
                }
                self.spans.remove(&id);
                self.loose.insert(id, (s, self.out.len()));
            }
            EK::Paren(a) => { self.p("("); self.ex(a, 0, 2); self.p(")"); }
        }
    }

    fn func(&mut self, d: &FnDef, t: u8) {
        let start = self.out.len();
        self.p("(");
        let mut first = true;
        for x in &d.params {
            if !first { self.p(", "); }
            first = false;
            match &x.k {
                PK::Req => self.pat(&x.pat),
                PK::Opt => { self.pat(&x.pat); self.p("?"); }
                PK::Def(e) => { self.pat(&x.pat); self.p(" = "); self.expr(e, 1); }
                PK::Var => { self.p("*"); self.pat(&x.pat); }
            }
        }
        self.comma(d.params.len());
        self.p(")");
        self.loose.insert(d.id, (start, self.out.len()));
        match &d.body {
            Body::Expr(e) => { self.p(" -> "); self.ex(e, 0, t); }
            Body::Block(b) => { self.p(" "); self.block(b); }
        }
    }

    fn block(&mut self, b: &[S]) {
        if b.is_empty() { self.p("{ }"); return; }
        self.p("{\n");
        self.indent += 1;
        self.stmts(b);
        self.indent -= 1;
        self.tab();
        self.p("}");
    }

    fn tab(&mut self) { for _ in 0..self.indent { self.p("  "); } }

    pub fn stmts(&mut self, b: &[S]) {
        self.depth += 1;
        for (i, s) in b.iter().enumerate() {
            if i > 0 && self.style.marks { self.p("\u{1}"); }
            self.tab();
            let start = self.out.len();
            self.stmt(s);
            if let SK::Let(_) = s.k { self.loose.insert(s.id, (start, self.out.len())); }
            self.p("\n");
        }
        self.depth -= 1;
    }

    fn stmt(&mut self, s: &S) {
        match &s.k {
            SK::Let(items) => {
                self.p("let ");
                for (i, (p, v)) in items.iter().enumerate() {
                    if i > 0 { self.p(", "); }
                    self.pats(p);
                    if let Some(v) = v { self.p(" = "); let last = i + 1 == items.len(); let l = if last && matches!(v.k, EK::Lambda(_) | EK::Tern(..)) { 0 } else { 1 }; self.ex(v, l, if last { 2 } else { 1 }); }
                }
            }
            SK::Fn(d, dec) => {
                for x in dec { self.p("@"); self.expr(x, 10); self.p("\n"); self.tab(); }
                self.p("fn ");
                self.p(&d.name);
                self.func(d, 2);
            }
            SK::Struct(n, f, m) => {
                self.p(&format!("struct {}({}", n, f.join(", ")));
                self.comma(f.len());
                self.p(")");
                if !m.is_empty() {
                    self.p(" {\n");
                    self.indent += 1;
                    for (d, this) in m { self.tab(); self.p("fn "); self.p(&d.name); let _ = this; self.func(d, 2); self.p("\n"); }
                    self.indent -= 1;
                    self.tab();
                    self.p("}");
                }
            }
            SK::Module(n, m) => {
                self.p(&format!("module {} {{\n", n));
                self.indent += 1;
                for d in m { self.tab(); self.p("fn "); self.p(&d.name); self.func(d, 2); self.p("\n"); }
                self.indent -= 1;
                self.tab();
                self.p("}");
            }
            SK::Expr(e) => {
                let start = leftmost(e);
                let paren = match &start.k {
                    EK::Un(..) | EK::Lambda(..) | EK::Tern(..) | EK::Set(_) | EK::Dict(_) => true,
                    EK::Int(i) | EK::Imag(i) => *i < 0,
                    _ => false,
                };
                // a pattern cannot be in parentheses, and a brace on the line after `struct S(a)` would be its body
                let brace = match &e.k {
                    EK::PatAssign(ps, _) => matches!(ps.first(), Some(Pat::Lv(Lv::Index(a, _) | Lv::Field(a, _))) if matches!(leftmost(a).k, EK::Set(_) | EK::Dict(_))),
                    _ => false,
                };
                if brace { self.p("; "); }
                if paren { self.p("("); }
                self.ex(e, 0, 2);
                if paren { self.p(")"); }
            }
            SK::If(cs, z) => {
                for (i, (c, b)) in cs.iter().enumerate() {
                    self.p(if i == 0 { "if " } else { " elif " });
                    self.expr(c, 1);
                    self.p(" ");
                    self.block(b);
                }
                if let Some(z) = z { self.p(" else "); self.block(z); }
            }
            SK::While(c, b, z) => {
                self.p("while ");
                self.expr(c, 1);
                self.p(" ");
                self.block(b);
                if let Some(z) = z { self.p(" else "); self.block(z); }
            }
            SK::Do(b, c, z) => {
                self.p("do ");
                self.block(b);
                if let Some(c) = c { self.p(" while "); self.expr(c, 1); }
                if let Some(z) = z { self.p(" else "); self.block(z); }
            }
            SK::Loop(b) => { self.p("loop "); self.block(b); }
            SK::For(p, e, b, z) => {
                self.p("for ");
                self.pats(p);
                self.p(" in ");
                let start = self.out.len();
                self.expr(e, 1);
                self.loose.insert(s.id, (start, self.out.len()));
                self.p(" ");
                self.block(b);
                if let Some(z) = z { self.p(" else "); self.block(z); }
            }
            SK::Break => self.p("break"),
            SK::Continue => self.p("continue"),
            SK::Return(None) => self.p("return"),
            SK::Return(Some(e)) => { self.p("return "); self.ex(e, if matches!(e.k, EK::Lambda(_) | EK::Tern(..)) { 0 } else { 1 }, 2); }
            SK::Assert(e, m) => {
                let st = self.out.len() + 7;
                self.p("assert ");
                self.expr(e, 1);
                self.mark(s.id, st);
                if let Some(m) = m { self.p(" : "); self.expr(m, 1); }
            }
            SK::Exit => self.p("exit"),
            SK::Comment(c) => self.p(c),
        }
    }

}

/// The first node in the text of an expression
fn leftmost(e: &E) -> &E {
    match &e.k {
        EK::Bin(_, a, _) | EK::And(a, _) | EK::Or(a, _) | EK::Chain(a, _) | EK::Call(a, _) | EK::Bare(a, _) | EK::Comp(a, _) | EK::Index(a, _) | EK::Slice(a, _) | EK::Field(a, _) => {
            if level(a) < level(e) { e } else { leftmost(a) }
        }
        EK::Assign(Lv::Index(a, _) | Lv::Field(a, _), _) | EK::OpAssign(Lv::Index(a, _) | Lv::Field(a, _), _, _) => leftmost(a),
        _ => e,
    }
}

/// The line (from 1) of a byte offset
pub fn line_of(text: &str, at: usize) -> usize { text[..at].matches('\n').count() + 1 }

// Walking

fn args<'a>(a: &'a [Arg], f: &mut dyn FnMut(&'a E)) { for x in a { walk(x.e(), f) } }
fn lv<'a>(l: &'a Lv, f: &mut dyn FnMut(&'a E)) { match l { Lv::Var(_) => {} Lv::Index(a, b) => { walk(a, f); walk(b, f) } Lv::Field(a, _) => walk(a, f) } }
fn pats<'a>(p: &'a [Pat], f: &mut dyn FnMut(&'a E)) { for x in p { match x { Pat::Lv(l) => lv(l, f), Pat::Nest(p) => pats(p, f), _ => {} } } }
fn slice<'a>(s: &'a Sl, f: &mut dyn FnMut(&'a E)) { for x in [&s.a, &s.b] { if let Some(x) = x { walk(x, f) } } if let Some(Some(x)) = &s.c { walk(x, f) } }
fn fun<'a>(d: &'a FnDef, f: &mut dyn FnMut(&'a E)) {
    for p in &d.params { if let PK::Def(e) = &p.k { walk(e, f) } }
    match &d.body { Body::Expr(e) => walk(e, f), Body::Block(b) => walk_stmts(b, f) }
}

/// Visits every expression, children first
pub fn walk<'a>(e: &'a E, f: &mut dyn FnMut(&'a E)) {
    match &e.k {
        EK::Un(_, a) | EK::Field(a, _) | EK::SectL(a, _) | EK::SectR(_, a) | EK::Paren(a) => walk(a, f),
        EK::Bin(_, a, b) | EK::And(a, b) | EK::Or(a, b) | EK::Bare(a, b) | EK::Comp(a, b) | EK::Index(a, b) => { walk(a, f); walk(b, f) }
        EK::Chain(a, r) => { walk(a, f); for (_, _, x) in r { walk(x, f) } }
        EK::Tern(c, z) => { for (a, b) in c { walk(a, f); walk(b, f) } walk(z, f) }
        EK::List(a) | EK::Set(a) | EK::Vector(a) => args(a, f),
        EK::Dict(a) => for x in a { match x { DArg::Pair(a, b) => { walk(a, f); walk(b, f) } DArg::Unroll(_, a) => walk(a, f) } },
        EK::Call(g, a) => { walk(g, f); args(a, f) }
        EK::Slice(a, s) => { walk(a, f); slice(s, f) }
        EK::SliceLit(s) => slice(s, f),
        EK::Lambda(d) => fun(d, f),
        EK::Assign(l, a) | EK::OpAssign(l, _, a) => { lv(l, f); walk(a, f) }
        EK::PatAssign(p, a) => { pats(p, f); walk(a, f) }
        EK::Nil | EK::Exit | EK::Bool(_) | EK::Int(_) | EK::Imag(_) | EK::Str(_) | EK::Var(_) | EK::Nat(_) | EK::FieldFn(_) | EK::OpFn(_) | EK::UnFn(_) => {}
    }
    f(e)
}

pub fn walk_stmts<'a>(b: &'a [S], f: &mut dyn FnMut(&'a E)) {
    for s in b {
        match &s.k {
            SK::Let(v) => for (p, e) in v { if let Some(e) = e { walk(e, f) } pats(p, f) },
            SK::Fn(d, dec) => { for x in dec { walk(x, f) } fun(d, f) }
            SK::Struct(_, _, m) => for (d, _) in m { fun(d, f) },
            SK::Module(_, m) => for d in m { fun(d, f) },
            SK::Expr(e) | SK::Return(Some(e)) => walk(e, f),
            SK::If(c, z) => { for (e, b) in c { walk(e, f); walk_stmts(b, f) } if let Some(z) = z { walk_stmts(z, f) } }
            SK::While(e, b, z) => { walk(e, f); walk_stmts(b, f); if let Some(z) = z { walk_stmts(z, f) } }
            SK::Do(b, e, z) => { walk_stmts(b, f); if let Some(e) = e { walk(e, f) } if let Some(z) = z { walk_stmts(z, f) } }
            SK::Loop(b) => walk_stmts(b, f),
            SK::For(p, e, b, z) => { pats(p, f); walk(e, f); walk_stmts(b, f); if let Some(z) = z { walk_stmts(z, f) } }
            SK::Assert(e, m) => { walk(e, f); if let Some(m) = m { walk(m, f) } }
            SK::Return(None) | SK::Break | SK::Continue | SK::Exit | SK::Comment(_) => {}
        }
    }
}
