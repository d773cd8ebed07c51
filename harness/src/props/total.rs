//! Any operation on any values: a value or a reported error.

use crate::engine::{fail, no_fixed, Cx, Failure, Prop, Src};
use crate::model::natives::{self, Nat};
use crate::vmrun::{self, End, Reply, Session};

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C08", cases: (500_000, 20_000_000), run, fixed: no_fixed,
        rule: "A case is (4/5) a session of up to 14 inputs to one interactive machine, each any operation (87 library functions, all operators in every form, indexing, slicing, fields, calls, unrolled arguments and literals, patterns, loops, assignments, assertions, formats, regular expressions, eval) on operands of every kind: 40 kinds of fresh values, and the results of the operations before, also shared, self-containing, lazy, or changed by callbacks while iterated; or (1/5) up to 14 operations on small fresh values, each in a program of its own, optimised. Every operation must end in a value or in a reported error, and those on small fresh values within a bound of steps. Non-trivial: distinct case in which at least 4 operations returned values.",
        assumptions: &["operations with results too large for memory are not generated", "operations which may rightly take more than 50 000 steps (on huge ranges, or with callbacks which extend what is iterated) are ended and not judged"] }]
}

struct T<'a> { s: &'a mut Src, vars: usize, small: bool, n: usize }

const OPS: &[&str] = &["+", "-", "/", "%", "is", "is not", "in", "not in", "<<", ">>", "&", "|", "^", "<", ">", "<=", ">=", "==", "!=", "and", "or", "."];
const TEXTS: &[&str] = &["", "a", "ab", "abcabc", "12", "-7", "0x1f", "1/2", "é", "日本語", "𝕏y", "a,b,,c", " pad ", "(", "[a-", "a*", "(a)(b)?", "\\\\d+", "$1", "%d %s", "%5d|%-3x", "%", "%q", "%05b", "%%", "hello world, long text", "x\\ny", "\\t", "aaaaaaaaaaaaaaaaaaaa", "1 + 2", "[1, 2", "nil", "\\0", "'", "."];

impl T<'_> {
    fn pick<'b>(&mut self, v: &[&'b str]) -> &'b str { *self.s.pick(v) }
    fn var(&mut self) -> String { format!("r{}", self.s.below(self.vars.max(1))) }

    fn int(&mut self) -> String {
        match self.s.weighted(if self.small { &[10, 3, 0, 0] } else { &[10, 3, 3, 2] }) {
            0 => self.s.int(-3, 5).to_string(),
            1 => self.s.int(-40, 60).to_string(),
            2 => self.pick(&["4611686018427387903", "(-4611686018427387904)", "2147483648", "(-2147483649)", "4294967296", "4611686018427387902", "1099511627776", "(-4611686018427387903)", "65536", "1114112", "55296"]).to_string(),
            _ => { let b = self.s.below(62); format!("{}", (1i64 << b) - self.s.int(-1, 1)) }
        }
    }
    fn text(&mut self) -> String { let t = self.pick(TEXTS); if t.contains('\'') { format!("\"{}\"", t) } else { format!("'{}'", t) } }

    fn items(&mut self, d: u32) -> String {
        let n = self.s.below(5);
        let same = self.s.chance(2, 3);
        let k = self.s.below(6);
        (0..n).map(|_| if same { match k { 0 => self.int(), 1 => self.text(), 2 => { let (a, b) = (self.int(), self.int()); format!("({}, {})", a, b) } 3 => { let a = self.int(); format!("[{}]", a) } 4 => format!("rational({}, 3)", self.s.int(-4, 9)), _ => self.literal(d) } } else { self.literal(d) }).collect::<Vec<_>>().join(", ")
    }

    /// A fresh value of any kind
    fn literal(&mut self, d: u32) -> String {
        let k = if d == 0 { self.s.weighted(&[4, 8, 5, 2, 1, 1]) } else { self.s.below(42) };
        self.literal_of(k, d)
    }
    fn literal_of(&mut self, k: usize, d: u32) -> String {
        let d = d.saturating_sub(1);
        match k {
            0 => self.pick(&["nil", "true", "false"]).to_string(),
            1 => self.int(),
            2 => self.text(),
            3 => { let i = self.int(); let j = self.pick(&["1i", "2i", "-3i", "4611686018427387903i"]); format!("({} + {})", i, if self.small && j.len() > 4 { "1i" } else { j }) }
            4 => { let (a, b) = (self.int(), self.int()); format!("rational({}, {})", a, if b == "0" { "3" } else { &b }) }
            5 => "()".replace("()", "vector()"),
            6 | 7 | 8 => { let i = self.items(d); format!("[{}]", i) }
            9 | 10 => { let i = self.items(d); format!("vector([{}])", i) }
            11 | 12 => { let i = self.items(d); format!("set([{}])", i) }
            13 | 14 => {
                let n = self.s.below(4);
                if n == 0 { return "dict()".to_string(); }
                let v: Vec<String> = (0..n).map(|_| { let (a, b) = (self.literal(0), self.literal(d)); format!("{}: {}", a, b) }).collect();
                format!("{{{}}}", v.join(", "))
            }
            15 => { let i = self.items(d); format!("heap([{}])", i) }
            16 | 17 => { let (a, b, c) = (self.int(), self.int(), self.int()); match self.s.below(3) { 0 => format!("range({})", a), 1 => format!("range({}, {})", a, b), _ => format!("range({}, {}, {})", a, b, c) } }
            18 => { let i = self.literal(d); format!("enumerate({})", i) }
            19 | 20 | 21 => { let f = self.function(); f }
            22 => self.slice_literal(),
            23 => "(->a)".to_string(),
            24 => "(->m)".to_string(),
            25 => "S0".to_string(),
            26 | 27 => { let (a, b) = (self.literal(d), self.literal(d)); format!("S0({}, {})", a, b) }
            28 => "M0".to_string(),
            29 => self.pick(&["M0->f", "S0->s", "S0(1, 2)->m", "S0(nil, [])->s"]).to_string(),
            30 => self.pick(&["cyc", "cyd", "cys", "cyh", "cyo"]).to_string(),
            31 => self.pick(&["int", "str", "bool", "function", "iterable", "complex", "rational", "list", "dict", "vector", "any"]).to_string(),
            32 => { let f = self.function(); format!("memoize({})", f) }
            33 => "gen()".to_string(),
            34 => { let i = self.literal(d); format!("{}[:]", i) }
            35 => "clos".to_string(),
            36 => "reverse([1, 2, 3])".to_string(),
            37 => { let i = self.literal(d); format!("copy({})", i) }
            38 => "default([], dict())".to_string(),
            39 => "default((fn() -> 3), {1: 2})".to_string(),
            40 => "S1()".to_string(),
            _ => self.pick(&["S1", "(S0)", "(->b)", "typeof", "print"]).to_string(),
        }
    }

    fn slice_literal(&mut self) -> String {
        let part = |t: &mut Self| if t.s.chance(1, 3) { String::new() } else { t.int() };
        let (a, b, c) = (part(self), part(self), part(self));
        match self.s.below(2) { 0 => format!("[{}:{}]", a, b), _ => format!("[{}:{}:{}]", a, b, c) }
    }

    /// Functions: of the library, operators, sections, partial, anonymous
    fn function(&mut self) -> String {
        match self.s.below(14) {
            0 => self.native().name(),
            1 => format!("({})", self.pick(&["+", "-", "/", "%", "<<", ">>", "&", "|", "^", "!", "<", ">", "<=", ">=", "==", "!=", "is", "in"])),
            2 => { if self.s.chance(1, 8) { return format!("({} {})", self.pick(&["*", "**"]), self.s.int(-2, 5)) } let i = self.literal(0); format!("({} {})", self.pick(&["+", "/", "%", "<", "==", ">=", "in", "is", "&", "^"]), i) }
            3 => { if self.s.chance(1, 8) { return format!("({} *)", self.s.int(-2, 5)) } let i = self.literal(0); format!("({} {})", i, self.pick(&["+", "-", "/", "%", "<", "==", "<<", "in", "is"])) }
            4 => { let i = self.literal(0); format!("{}({})", self.pick(&["map", "filter", "push", "join", "split", "find", "sort_by", "reduce", "remove", "default"]), i) }
            5 => { let (i, j) = (self.literal(0), self.literal(0)); format!("{}({}, {})", self.pick(&["replace", "insert"]), i, j) }
            6 => { let x = self.body("x"); format!("(fn(x) -> {})", x) }
            7 => { let x = self.body("x"); format!("(fn(x, y) -> {})", x) }
            8 => { let x = self.body("x"); format!("(fn(x, y = 2, *z) -> {})", x) }
            9 => { let i = self.literal(0); format!("(fn() -> {})", i) }
            10 => { let x = self.body("x"); format!("(fn((x, y)) -> {})", x) }
            11 => "(fn(x, y) -> x - y)".to_string(),
            12 => "(fn(x) -> x)".to_string(),
            _ => { let x = self.body("x"); format!("(fn(*x) -> {})", x) }
        }
    }
    /// What a callback does with its argument
    fn body(&mut self, x: &str) -> String {
        let l = self.literal(0);
        match self.s.below(9) {
            0 => x.to_string(),
            1 => format!("[{}, {}]", x, l),
            2 => format!("{} {} {}", x, self.pick(&["+", "-", "<", "==", "%", "in", "is", "&"]), l),
            3 => format!("{}({})", self.pick(&["str", "repr", "len", "bool", "abs", "list", "typeof", "copy"]), x),
            4 => l,
            5 => format!("{}[{}]", x, l),
            6 => format!("if {} then {} else {}", x, l, x),
            7 => "assert_fail()".to_string(),
            _ => format!("{} == {}", x, l),
        }
    }

    fn native(&mut self) -> Nat {
        let v: Vec<Nat> = natives::named().filter(|n| !matches!(n, Nat::WriteText | Nat::ReadText | Nat::Permutations | Nat::Combinations)).collect();
        v[self.s.below(v.len())]
    }

    /// An operand: a fresh value or an earlier result
    fn arg(&mut self) -> String { if self.vars > 0 && self.s.chance(1, 2) { self.var() } else { self.literal(2) } }

    /// A value of a kind by number, see `literal`
    fn kind(&mut self, ks: &[usize]) -> String {
        let k = ks[self.s.below(ks.len())];
        self.literal_of(k, 1)
    }

    /// An argument of the kind the parameter wants
    fn fitting(&mut self, f: Nat, i: usize) -> String {
        if self.s.chance(1, 8) { return self.arg() }
        let names: Vec<&str> = f.params().split(", ").collect();
        match names.get(i).copied().unwrap_or("...") {
            "f" | "predicate" | "value_or_predicate" | "key_or_cmp" => if self.s.chance(1, 4) && self.vars > 0 { self.changing(2) } else { self.function() },
            "iter" | "it" | "other" | "this" | "collection" | "..." => { if self.vars > 0 && self.s.chance(1, 3) { return self.var() } let ks: &[usize] = if matches!(f, Nat::Union | Nat::Intersect | Nat::Difference) { &[11, 12, 6] } else { &[6, 7, 9, 11, 13, 15, 16, 18, 2] }; self.kind(ks) }
            "dictionary" => { if self.vars > 0 && self.s.chance(1, 3) { return self.var() } self.kind(&[13, 14, 38, 39]) }
            "pattern" | "joiner" | "text" | "expr" => self.text(),
            "replacer" => if self.s.chance(1, 2) { self.text() } else { self.function() },
            "x" => match f {
                Nat::ToLower | Nat::ToUpper | Nat::Trim | Nat::Ord | Nat::Replace | Nat::Search | Nat::Split => self.text(),
                Nat::Len => self.kind(&[2, 6, 9, 11, 13, 15, 16, 18]),
                Nat::Sqrt | Nat::Char | Nat::Hex | Nat::Bin | Nat::CountOnes | Nat::CountZeros => self.int(),
                Nat::Real | Nat::Imag | Nat::Numer | Nat::Denom | Nat::Abs => self.kind(&[1, 3, 4, 9]),
                Nat::Int | Nat::Rational => self.kind(&[0, 1, 2, 3, 4]),
                _ => self.arg(),
            },
            "index" | "n" | "start" | "stop" | "step" | "param" => self.int(),
            _ => self.arg(),
        }
    }

    fn operation(&mut self) -> String {
        match self.s.weighted(&[30, 10, 8, 6, 8, 8, 5, 8, 5, 5, 3, 3, 3, 3, 3, 3, 2]) {
            0 => {
                let f = self.native();
                let n = match self.s.below(8) { 0 => self.s.below(5), _ => { let (lo, hi) = f.arity(); lo + self.s.below(hi.min(lo + 2) - lo + 1) } };
                let fit = self.s.chance(2, 3);
                let mut a: Vec<String> = (0..n).map(|i| if fit { self.fitting(f, i) } else { self.arg() }).collect();
                if self.s.chance(1, 3) && n > 1 { a[0] = if self.s.chance(1, 3) && self.vars > 0 { self.changing(n) } else { self.function() }; }
                if n > 0 && self.s.chance(1, 3) { let last = a.pop().unwrap(); return if a.is_empty() { format!("{} . {}", last, f.name()) } else { format!("{} . {}({})", last, f.name(), a.join(", ")) }; }
                if n > 0 && self.s.chance(1, 8) { let k = self.s.below(n); a[k] = format!("...{}", a[k]); }
                format!("{}({})", f.name(), a.join(", "))
            }
            1 => { let (a, b) = (self.arg(), self.arg()); format!("{} {} {}", a, self.pick(OPS), b) }
            2 => { // repetition: of small numbers, or of numbers
                let a = self.arg();
                let n = self.s.int(-2, 6).to_string();
                let other = self.pick(&["nil", "true", "2i", "rational(1, 3)", "(fn(x) -> x)", "S0", "'a'", "[1]", "range(3)", "vector([1, 2])"]).to_string();
                match self.s.below(4) {
                    0 => format!("{} * {}", a, n), 1 => format!("{} * {}", n, a),
                    2 => { let (x, y) = (self.int(), self.pick(&["true", "2i", "rational(1, 3)", "vector([1, 2])", "''", "[]", "4611686018427387903", "(-1)", "nil", "set([])"])); if self.s.chance(1, 2) { format!("{} * {}", x, y) } else { format!("{} * {}", y, x) } }
                    _ => { let x = self.literal(0); if x.len() > 7 { format!("{} * {}", n, other) } else if x.starts_with('\'') || x.starts_with("vector") { format!("{} * {}", x, n) } else { format!("{} * {}", other, n) } }
                }
            }
            3 => { // powers
                let a = self.arg();
                match self.s.below(3) { 0 => format!("{} ** {}", a, self.s.int(-3, 5)), 1 => { let b = self.int(); format!("{} ** {}", self.s.int(-9, 9), b) } _ => format!("{} ** {}", self.s.int(-9, 9), self.pick(&["nil", "true", "2i", "'a'", "[]", "[1, 2]", "vector([1, 2])", "rational(1, 2)", "(fn() -> 1)"])) }
            }
            4 => { let (a, i) = (self.arg(), self.arg()); format!("{}[{}]", a, i) }
            5 => {
                let a = self.arg();
                let part = |t: &mut Self| match t.s.below(4) { 0 => String::new(), 1 => t.arg(), _ => t.int() };
                let (x, y, z) = (part(self), part(self), part(self));
                if self.s.chance(1, 2) { format!("{}[{}:{}]", a, x, y) } else { format!("{}[{}:{}:{}]", a, x, y, z) }
            }
            6 => { let a = self.arg(); let f = self.pick(&["a", "b", "m", "s", "f", "c"]); match self.s.below(3) { 0 => format!("{}->{}", a, f), 1 => { let b = self.arg(); format!("{}->{}({})", a, f, b) } _ => format!("(->{})({})", f, a) } }
            7 => {
                let f = if self.s.chance(1, 2) { self.function() } else { self.arg() };
                let n = self.s.below(4);
                let a: Vec<String> = (0..n).map(|_| { let x = self.arg(); if self.s.chance(1, 5) { format!("...{}", x) } else { x } }).collect();
                format!("({})({})", f, a.join(", "))
            }
            8 => {
                let n = self.s.below(4);
                let mut a: Vec<String> = (0..n).map(|_| { let x = self.arg(); if self.s.chance(1, 2) { format!("...{}", x) } else { x } }).collect();
                match self.s.below(4) {
                    0 => format!("[{}]", a.join(", ")), 1 => format!("{{{}}}", a.join(", ")),
                    2 => format!("({},)", if a.is_empty() { "1".to_string() } else { a.join(", ") }),
                    _ => { for x in a.iter_mut() { if !x.starts_with("...") { let v = self.arg(); *x = format!("{}: {}", x, v); } } a.push("1: 2".into()); format!("{{{}}}", a.join(", ")) }
                }
            }
            9 => { let a = self.arg(); format!("{}{}", self.pick(&["-", "!", "not ", "-!"]), a) }
            10 => { let (a, b, c) = (self.arg(), self.arg(), self.arg()); format!("{} {} {} {} {}", a, self.pick(&["<", "<=", "==", "!=", ">", ">="]), b, self.pick(&["<", "<=", "==", "!=", ">", ">="]), c) }
            11 => { let (a, b, c) = (self.arg(), self.arg(), self.arg()); format!("if {} then {} else {}", a, b, c) }
            12 => { let (f, a) = (self.text(), self.arg()); format!("{} % {}", f, a) }
            13 => { let (p, r, t) = (self.text(), if self.s.chance(1, 3) { self.function() } else { self.text() }, self.arg()); match self.s.below(4) { 0 => format!("replace({}, {}, {})", p, r, t), 1 => format!("search({}, {})", p, t), 2 => format!("split({}, {})", p, t), _ => format!("join({}, {})", p, t) } }
            14 => {
                let n = self.s.int(-1, 5);
                let v = if self.vars > 0 && self.s.chance(1, 2) { let v = self.var(); format!("{}[:5]", v) } else { let i = self.items(1); format!("[{}]", i) };
                let n = if self.s.chance(1, 6) { self.literal(1) } else { n.to_string() };
                format!("{}({}, {})", self.pick(&["permutations", "combinations"]), n, v)
            }
            15 => { let o = self.literal(2).replace('\\', "\\\\").replace('"', "\\\""); format!("eval(\"{}\")", o) }
            _ => match self.s.below(3) { 0 => { let i = self.literal(1); if i.starts_with('\'') || i.starts_with('"') { "read_text('/nonexistent/é')".into() } else { format!("read_text({})", i) } } 1 => "read_text('\0')".into(), _ => format!("write_text({}, 'x')", self.pick(&["nil", "1", "[]", "(fn() -> 1)", "vector(['a'])", "S0(1, 2)"])) },
        }
    }

    /// A callback which changes a variable, possibly the one which is iterated
    fn changing(&mut self, _n: usize) -> String {
        let v = self.var();
        let p = self.pick(&["x", "x, y", "*x", ""]);
        let x = if p.is_empty() { "1" } else { "x" };
        let act = match self.s.below(12) {
            0 => format!("{} . pop", v), 1 => format!("{} . pop_front", v), 2 => format!("{} . clear", v),
            3 => format!("if cnt < 30 {{ cnt += 1 ; {} . push({}) }}", v, x), 4 => format!("if cnt < 30 {{ cnt += 1 ; {} . push_front({}) }}", v, x),
            5 => format!("{}[0] = {}", v, x), 6 => format!("{} = nil", v), 7 => format!("{} . sort", v), 8 => format!("{} . remove({})", v, x),
            9 => format!("if cnt < 30 {{ cnt += 1 ; {} . insert(0, {}) }}", v, x), 10 => format!("{}->a = {}", v, x),
            _ => format!("{}[{}] = {}", v, x, v),
        };
        let ret = self.pick(&["1", "x == 1", "true", "[1]", "nil", "cnt"]);
        format!("(fn({}) {{ {} ; {} }})", p, act, if p.is_empty() { "1" } else { ret })
    }

    fn statement(&mut self) -> String {
        let v = format!("r{}", self.s.below(10));
        match self.s.weighted(&[24, 6, 6, 3, 3, 4, 3, 2, 2, 4]) {
            0 => { let o = self.operation(); format!("{} = {}", v, o) }
            1 => self.operation(),
            2 => {
                let (t, a) = (self.var(), self.arg());
                let target = match self.s.below(4) { 0 => t, 1 => { let i = self.arg(); format!("{}[{}]", t, i) } 2 => format!("{}[{}]", t, self.s.int(-2, 3)), _ => format!("{}->{}", t, self.pick(&["a", "b", "m"])) };
                match self.s.below(3) { 0 => format!("{} = {}", target, a), 1 => format!("{} {} {}", target, self.pick(&["+=", "-=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>=", "min=", "max="]), a), _ => match self.s.below(3) { 0 => format!("{} *= {}", target, self.s.int(-2, 4)), 1 => format!("{} **= {}", target, self.s.int(-2, 3)), _ => { let f = self.function(); format!("{} .= {}", target, f) } } }
            }
            3 => { let (a, b, c) = (self.var(), self.var(), self.arg()); match self.s.below(6) { 0 => format!("{}, {} = {}", a, b, c), 1 => format!("*{}, {} = {}", a, b, c), 2 => format!("{}, *{} = {}", a, b, c), 3 => format!("({}, _), {}[0] = {}", a, b, c), 4 => format!("{}[0], {}[1] = {}", a, b, c), _ => format!("{}, *_ = {}", a, c) } }
            4 => { let a = self.arg(); let v2 = self.var(); let act = match self.s.below(5) { 0 => format!("{} . pop", v2), 1 => format!("{} . clear", v2), 2 => format!("if cnt < 30 {{ cnt += 1 ; {} . push(x) }}", v2), 3 => format!("{} = x", v2), _ => format!("{}[0] = x", v2) }; format!("for {} in {} {{ {} }}", self.pick(&["x", "x, y", "x, *_", "(x, y), z", "x"]), a, act) }
            5 => { let (f, a) = (self.changing(1), self.arg()); let v = self.var(); let name = self.pick(&["map", "filter", "sort_by", "min_by", "max_by", "reduce", "find", "rfind", "index_of", "group_by", "any", "all", "flat_map", "default"]); format!("{}({}, {})", name, f, if self.s.chance(2, 3) { v } else { a }) }
            6 => { let (a, b) = (self.arg(), self.arg()); match self.s.below(3) { 0 => format!("assert {}", a), 1 => format!("assert {} : {}", a, b), _ => format!("assert {} == {} : {}", a, b, a) } }
            7 => { let (f, n) = (if self.s.chance(1, 2) { self.function() } else { self.arg() }, self.n); self.n += 1; format!("@({})\nfn g{}(x) -> [x]\n\n{} = g{}", f, n, v, n) }
            8 => { let a = self.arg(); format!("let q{}, *p{} = {}", { self.n += 1; self.n }, self.n, a) }
            _ => { let w = self.var(); match self.s.below(6) { 0 => format!("{} = {}", v, w), 1 => format!("{} . push({})", v, w), 2 => format!("{} = [{}, {}]", v, w, w), 3 => format!("{} = {{{}: {}}}", v, w, w), 4 => format!("{} = S0({}, {})", v, w, v), _ => format!("{} = (fn() -> {})", v, w) } }
        }
    }
}

const PREAMBLE: &[&str] = &[
    "struct S0(a, b) { fn m(self, x) -> x\nfn s(x) -> x }", "struct S1()", "module M0 { fn f(x, y) -> x }", "struct S2(c) { fn f(self) -> c }",
    "let cnt = 0", "fn assert_fail() { assert false }",
    "let cyc = [1]", "cyc . push(cyc)", "let cyd = dict()", "cyd[1] = cyd", "let cys = S0(1, 2)", "cys->a = cys", "let cyo = [set(), 1]", "cyo[0] . push(cyo[1:])", "let cyh = heap([])", "cyh . push([cyh])",
    "fn gen() { let n = 0\nfn() { n += 1\nn } }", "let clos = gen()",
    "let r0, r1, r2, r3, r4, r5, r6, r7, r8, r9",
];

fn run(s: &mut Src, cx: &mut Cx) -> Result<(), Failure> {
    if s.chance(1, 5) { fresh(s, cx) } else { history(s, cx) }
}

/// Operations on small fresh values, which must end
fn fresh(s: &mut Src, cx: &mut Cx) -> Result<(), Failure> {
    let n = s.below(14) + 1;
    let mut t = T { s, vars: 0, small: true, n: 0 };
    let (mut log, mut values) = (String::new(), 0);
    for _ in 0..n {
        let op = t.operation();
        let mut text = String::new();
        for l in PREAMBLE { text.push_str(l); text.push('\n'); }
        text.push_str(&format!("let res = {}\nprint(res)\n", op));
        log.push_str(&op);
        log.push('\n');
        let opt = t.s.chance(1, 2);
        let r = vmrun::run(&text, opt);
        match &r.end {
            End::Panic(m) => return fail(vmrun::panic_sig(m), format!("{} (opt {}) panics: {}", op, opt, m)),
            End::Diverged => return fail("a small operation does not end", format!("{} (opt {}) takes more than {} steps", op, opt, vmrun::RUN_FUEL)),
            End::Error(_) => cx.label("reported error"),
            End::Compile(_) => cx.label("compile error"),
            End::Exit | End::Return | End::Yield => { values += 1; cx.label("value") }
        }
    }
    cx.label("fresh values");
    cx.sample = log;
    cx.nontrivial = values >= 4 || values >= 1 && n < 4;
    Ok(())
}

fn history(s: &mut Src, cx: &mut Cx) -> Result<(), Failure> {
    let mut session = Session::new();
    session.fuel = 50_000;
    for l in PREAMBLE.iter().flat_map(|l| l.split('\n')) {
        match session.line(l) {
            Reply::Ok { out, .. } if !out.contains("  at: line ") => {}
            r => return fail("harness: preamble", format!("{}: {:?}", l, r)),
        }
    }
    let n = s.below(14) + 1;
    let mut t = T { s, vars: 10, small: false, n: 0 };
    let (mut log, mut values) = (String::new(), 0);
    'all: for _ in 0..n {
        let st = t.statement();
        log.push_str(&st);
        log.push('\n');
        for l in st.split('\n') {
            match session.line(l) {
                Reply::Ok { out, more } => {
                    if out.contains("  at: line ") { cx.label(if out.contains("Error") { "reported error" } else { "other report" }) } else { values += 1; cx.label("value") }
                    if more && l == st { // continued on the next line
                        if let Reply::Panic { msg, .. } = session.line("") { return fail(vmrun::panic_sig(&msg), format!("after\n{}\npanics: {}", log, msg)); }
                    }
                }
                Reply::Panic { msg, .. } => return fail(vmrun::panic_sig(&msg), format!("{}\npanics: {}", log, msg)),
                Reply::Diverged => { cx.label("too many steps"); break 'all }
                Reply::Exit { .. } => break 'all,
            }
        }
        match session.line("len(repr([r0, r1, r2, r3, r4, r5, r6, r7, r8, r9]))") {
            Reply::Ok { out, .. } => match out.trim().parse::<u64>() { Ok(n) if n < 4000 => {} Ok(_) => { cx.label("grew too large"); break } Err(_) => return fail("len(repr(list)) is an error", format!("{}\nthen: {}", log, out)) },
            Reply::Panic { msg, .. } => return fail(vmrun::panic_sig(&msg), format!("{}\nthen repr panics: {}", log, msg)),
            Reply::Diverged => break,
            Reply::Exit { .. } => return fail("the session ended", log),
        }
    }
    cx.sample = log;
    cx.nontrivial = values >= 4;
    Ok(())
}
