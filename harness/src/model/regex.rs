//! A small backtracking regular expression matcher: leftmost match, first alternative first.

use super::interp::{unknown, R};

#[derive(Debug, Clone)]
enum N {
    Lit(char),
    Any,
    /// negated, ranges
    Class(bool, Vec<(char, char)>),
    Digit, Word, Space, NotDigit, NotWord, NotSpace,
    Start, End, 
    Seq(Vec<N>),
    Alt(Vec<N>),
    Group(usize, Box<N>),
    Rep(Box<N>, usize, usize, bool),
}

pub struct Re { n: N, groups: usize }

struct P { c: Vec<char>, i: usize, groups: usize }

impl P {
    fn peek(&self) -> Option<char> { self.c.get(self.i).copied() }
    fn eat(&mut self, c: char) -> bool { if self.peek() == Some(c) { self.i += 1; true } else { false } }
    fn alt(&mut self) -> Result<N, bool> {
        let mut v = vec![self.seq()?];
        while self.eat('|') { v.push(self.seq()?); }
        if v.len() == 1 { return Ok(v.pop().unwrap()); }
        if self.c.first() == Some(&'^') { return Err(false); }
        Ok(N::Alt(v))
    }
    fn seq(&mut self) -> Result<N, bool> {
        let mut v = Vec::new();
        while let Some(c) = self.peek() {
            if c == '|' || c == ')' { break; }
            let a = self.atom()?;
            v.push(self.reps(a)?);
        }
        Ok(N::Seq(v))
    }
    fn reps(&mut self, a: N) -> Result<N, bool> {
        let (lo, hi) = match self.peek() {
            Some('*') => { self.i += 1; (0, usize::MAX) }
            Some('+') => { self.i += 1; (1, usize::MAX) }
            Some('?') => { self.i += 1; (0, 1) }
            Some('{') => {
                self.i += 1;
                let num = |p: &mut P| { let mut n: Option<usize> = None; while let Some(d) = p.peek().and_then(|c| c.to_digit(10)) { n = Some(n.unwrap_or(0) * 10 + d as usize); p.i += 1; } n };
                let lo = match num(self) { Some(n) => n, None => return Err(false) };
                let hi = if self.eat(',') { num(self).unwrap_or(usize::MAX) } else { lo };
                if !self.eat('}') || hi < lo || lo > 50 { return Err(false); }
                (lo, hi)
            }
            _ => return Ok(a),
        };
        let lazy = self.eat('?');
        if matches!(a, N::Start | N::End) { return Err(false); }
        if nullable(&a) && hi == usize::MAX { return Err(false); }
        if matches!(self.peek(), Some('*' | '+' | '?' | '{')) { return Err(false); }
        Ok(N::Rep(Box::new(a), lo, hi, !lazy))
    }
    fn atom(&mut self) -> Result<N, bool> {
        let c = self.peek().unwrap();
        self.i += 1;
        Ok(match c {
            '(' => {
                let capture = if self.eat('?') { if !self.eat(':') { return Err(false); } false } else { true };
                let k = self.groups + 1;
                if capture { self.groups += 1; }
                let n = self.alt()?;
                if !self.eat(')') { return Err(true); }
                if capture { N::Group(k, Box::new(n)) } else { n }
            }
            '[' => {
                let neg = self.eat('^');
                let mut r = Vec::new();
                loop {
                    let c = match self.peek() { Some(c) => c, None => return Err(true) };
                    self.i += 1;
                    if c == ']' && !r.is_empty() { break; }
                    if "[]\\&~-^".contains(c) { return Err(false); }
                    if self.peek() == Some('-') && self.c.get(self.i + 1).is_some_and(|c| *c != ']') {
                        self.i += 1;
                        let d = self.peek().unwrap();
                        self.i += 1;
                        if "[]\\&~-^".contains(d) || d < c { return Err(false); }
                        r.push((c, d));
                    } else { r.push((c, c)); }
                }
                N::Class(neg, r)
            }
            '.' => N::Any,
            // `regex` 1.7.3 itself gets anchors inside a pattern wrong after an earlier match ('(?:^|a).*?' in 'aba')
            '^' => if self.i == 1 { N::Start } else { return Err(false) },
            '$' => if self.i == self.c.len() { N::End } else { return Err(false) },
            '*' | '+' | '?' | '{' | '}' => return Err(false),
            '\\' => {
                let c = match self.peek() { Some(c) => c, None => return Err(true) };
                self.i += 1;
                match c {
                    'd' => N::Digit, 'w' => N::Word, 's' => N::Space, 'D' => N::NotDigit, 'W' => N::NotWord, 'S' => N::NotSpace,
                    // `regex` 1.7.3 itself gets word boundaries wrong after an earlier match ('\\b.' in 'a b')
                    'b' => return Err(false),
                    'n' => N::Lit('\n'), 't' => N::Lit('\t'), 'r' => N::Lit('\r'),
                    c if c.is_ascii_punctuation() => N::Lit(c),
                    _ => return Err(false),
                }
            }
            c => N::Lit(c),
        })
    }
}

fn nullable(n: &N) -> bool {
    match n {
        N::Seq(v) => v.iter().all(nullable),
        N::Alt(v) => v.iter().any(nullable),
        N::Group(_, n) => nullable(n),
        N::Rep(n, lo, _, _) => *lo == 0 || nullable(n),
        N::Start | N::End => true,
        _ => false,
    }
}

fn word(c: char) -> bool { ('\u{300}'..='\u{36f}').contains(&c) || c.is_alphanumeric() || c == '_' }

type Caps = Vec<Option<(usize, usize)>>;

struct M<'a> { s: &'a [char], steps: usize }

impl M<'_> {
    /// matches `n` at `i`, then continues with `k`
    fn go(&mut self, n: &N, i: usize, caps: &Caps, k: &mut dyn FnMut(&mut Self, usize, &Caps) -> Option<(usize, Caps)>) -> Option<(usize, Caps)> {
        self.steps += 1;
        if self.steps > 200_000 { return None; }
        let one = |f: &dyn Fn(char) -> bool, s: &[char]| i < s.len() && f(s[i]);
        match n {
            N::Lit(c) => if one(&|x| x == *c, self.s) { k(self, i + 1, caps) } else { None },
            N::Any => if one(&|x| x != '\n', self.s) { k(self, i + 1, caps) } else { None },
            N::Class(neg, r) => if one(&|x| r.iter().any(|(a, b)| *a <= x && x <= *b) != *neg, self.s) { k(self, i + 1, caps) } else { None },
            N::Digit => if one(&|x| x.is_ascii_digit(), self.s) { k(self, i + 1, caps) } else { None },
            N::NotDigit => if one(&|x| !x.is_ascii_digit(), self.s) { k(self, i + 1, caps) } else { None },
            N::Word => if one(&word, self.s) { k(self, i + 1, caps) } else { None },
            N::NotWord => if one(&|x| !word(x), self.s) { k(self, i + 1, caps) } else { None },
            N::Space => if one(&|x| x.is_whitespace(), self.s) { k(self, i + 1, caps) } else { None },
            N::NotSpace => if one(&|x| !x.is_whitespace(), self.s) { k(self, i + 1, caps) } else { None },
            N::Start => if i == 0 { k(self, i, caps) } else { None },
            N::End => if i == self.s.len() { k(self, i, caps) } else { None },
            N::Seq(v) => self.seq(v, i, caps, k),
            N::Alt(v) => {
                for a in v { if let Some(r) = self.go(a, i, caps, k) { return Some(r); } }
                None
            }
            N::Group(g, n) => self.go(n, i, caps, &mut |m, j, c| {
                let mut c = c.clone();
                c[*g] = Some((i, j));
                k(m, j, &c)
            }),
            N::Rep(n, lo, hi, greedy) => self.rep(n, *lo, *hi, *greedy, i, caps, k),
        }
    }
    fn seq(&mut self, v: &[N], i: usize, caps: &Caps, k: &mut dyn FnMut(&mut Self, usize, &Caps) -> Option<(usize, Caps)>) -> Option<(usize, Caps)> {
        match v.split_first() {
            None => k(self, i, caps),
            Some((a, rest)) => self.go(a, i, caps, &mut |m, j, c| m.seq(rest, j, c, k)),
        }
    }
    #[allow(clippy::too_many_arguments)]
    fn rep(&mut self, n: &N, lo: usize, hi: usize, greedy: bool, i: usize, caps: &Caps, k: &mut dyn FnMut(&mut Self, usize, &Caps) -> Option<(usize, Caps)>) -> Option<(usize, Caps)> {
        if lo > 0 { return self.go(n, i, caps, &mut |m, j, c| m.rep(n, lo - 1, hi.saturating_sub(if hi == usize::MAX { 0 } else { 1 }), greedy, j, c, k)); }
        if hi == 0 { return k(self, i, caps); }
        let next = if hi == usize::MAX { hi } else { hi - 1 };
        if greedy {
            if let Some(r) = self.go(n, i, caps, &mut |m, j, c| if j == i { None } else { m.rep(n, 0, next, greedy, j, c, k) }) { return Some(r); }
            k(self, i, caps)
        } else {
            if let Some(r) = k(self, i, caps) { return Some(r); }
            self.go(n, i, caps, &mut |m, j, c| if j == i { None } else { m.rep(n, 0, next, greedy, j, c, k) })
        }
    }
}

impl Re {
    /// `Err(true)` if ill-formed, `Err(false)` if not supported here
    pub fn new(p: &str) -> Result<Re, bool> {
        let mut q = P { c: p.chars().collect(), i: 0, groups: 0 };
        let n = q.alt()?;
        if q.i < q.c.len() { return Err(true); }
        Ok(Re { n, groups: q.groups })
    }
    pub fn can_be_empty(&self) -> bool { nullable(&self.n) }
    /// Successive non-overlapping matches, each with its groups
    pub fn matches(&self, s: &[char]) -> R<Vec<Caps>> {
        let mut r: Vec<Caps> = Vec::new();
        let mut at = 0;
        let mut last_end: Option<usize> = None;
        while at <= s.len() {
            let mut m = M { s, steps: 0 };
            let caps: Caps = vec![None; self.groups + 1];
            let found = m.go(&self.n, at, &caps, &mut |_, j, c| Some((j, c.clone())));
            if m.steps > 200_000 { return unknown("regex steps"); }
            match found {
                Some((e, mut c)) => {
                    if e == at && last_end == Some(at) { at += 1; continue; }
                    c[0] = Some((at, e));
                    r.push(c);
                    last_end = Some(e);
                    at = if e == at { at + 1 } else { e };
                }
                None => at += 1,
            }
        }
        Ok(r)
    }
}
