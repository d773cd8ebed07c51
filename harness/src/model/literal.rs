//! Values of the texts which `repr` gives for values other than functions, types and instances of structs.

use super::value::*;

struct P<'a> { s: &'a [char], i: usize }

impl P<'_> {
    fn peek(&self) -> Option<char> { self.s.get(self.i).copied() }
    fn eat(&mut self, t: &str) -> bool {
        let t: Vec<char> = t.chars().collect();
        if self.s[self.i..].starts_with(&t) { self.i += t.len(); true } else { false }
    }
    fn word(&mut self, t: &str) -> bool {
        let n = t.chars().count();
        if self.s.get(self.i + n).is_some_and(|c| c.is_alphanumeric() || *c == '_') { return false; }
        self.eat(t)
    }
    fn digits(&mut self) -> Option<i64> {
        let a = self.i;
        while self.peek().is_some_and(|c| c.is_ascii_digit()) { self.i += 1; }
        let t: String = self.s[a..self.i].iter().collect();
        if t.len() > 1 && t.starts_with('0') { return None; }
        let n: i128 = t.parse().ok()?;
        // the lowest integer is written as the negation of a number which is no integer
        if n <= -(MIN_INT as i128) { Some(n as i64) } else { None }
    }
    fn number(&mut self) -> Option<V> {
        let neg = self.eat("-");
        let n = self.digits()? as i128;
        let n = if neg { -n } else { n };
        if self.eat("i") { return Some(cx(0, n as i64)); }
        let j = self.i;
        let sub = self.eat(" - ");
        if sub || self.eat(" + ") {
            let m = self.digits()? as i128;
            if self.eat("i") { return Some(cx(n as i64, if sub { -m } else { m } as i64)); }
            self.i = j;
            return None;
        }
        if n > MAX_INT as i128 { return None; }
        Some(V::Int(n as i64))
    }
    fn seq(&mut self, end: &str) -> Option<Vec<V>> {
        let mut r = Vec::new();
        if self.eat(end) { return Some(r); }
        loop {
            r.push(self.value()?);
            if self.eat(end) { return Some(r); }
            if !self.eat(", ") { return None; }
        }
    }
    fn value(&mut self) -> Option<V> {
        match self.peek()? {
            '\'' => {
                self.i += 1;
                let mut o = String::new();
                loop {
                    let c = self.peek()?;
                    self.i += 1;
                    match c {
                        '\'' => return Some(st(&o)),
                        '\\' => {
                            let c = self.peek()?;
                            self.i += 1;
                            o.push(match c { 'n' => '\n', 't' => '\t', 'r' => '\r', '\\' | '\'' | '"' => c, _ => return None });
                        }
                        c => o.push(c),
                    }
                }
            }
            '[' => { self.i += 1; Some(list(self.seq("]")?)) }
            '(' => {
                self.i += 1;
                let mut r = self.seq(")")?;
                match r.len() { 0 => None, 1 => r.pop(), _ => Some(vector(r)) }
            }
            '{' => {
                self.i += 1;
                if self.eat("}") { return Some(set(Vec::new())); }
                let x = self.value()?;
                if self.eat(": ") {
                    let mut r = vec![(x, self.value()?)];
                    loop {
                        if self.eat("}") { return Some(dict(r)); }
                        if !self.eat(", ") { return None; }
                        let k = self.value()?;
                        if !self.eat(": ") { return None; }
                        r.push((k, self.value()?));
                    }
                }
                let mut r = vec![x];
                if self.eat(", ") { r.extend(self.seq("}")?); } else if !self.eat("}") { return None; }
                Some(set(r))
            }
            'n' => self.word("nil").then_some(V::Nil),
            't' => self.word("true").then_some(V::Bool(true)),
            'f' => self.word("false").then_some(V::Bool(false)),
            'r' => {
                if !self.eat("range(") { return None; }
                match &self.seq(")")?[..] { [V::Int(a), V::Int(b), V::Int(c)] => super::natives::make_range(*a, *b, *c).ok(), _ => None }
            }
            'e' => {
                if !self.eat("enumerate(") { return None; }
                let mut r = self.seq(")")?;
                if r.len() != 1 || !r[0].is_iterable() { return None; }
                Some(V::Enum(std::rc::Rc::new(r.pop()?)))
            }
            _ => self.number(),
        }
    }
}

/// The value, unless the text is not of this kind
pub fn value(s: &str) -> Option<V> {
    let s: Vec<char> = s.chars().collect();
    let mut p = P { s: &s, i: 0 };
    let v = p.value()?;
    (p.i == s.len()).then_some(v)
}
