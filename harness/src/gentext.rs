//! Generators of raw source text: characters, tokens, mutated programs.

use crate::engine::Src;

/// Kind of a token, as the highlighter reports it
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind { Keyword, Constant, Native, Type, Number, Str, Syntax }

pub const KEYWORDS: &[&str] = &["let", "fn", "return", "if", "elif", "else", "then", "loop", "while", "for", "break", "continue", "do", "struct", "exit", "assert", "module", "native"];
pub const CONSTANTS: &[&str] = &["true", "false", "nil", "and", "or", "not", "is", "in", "self"];
pub const TYPES: &[&str] = &["int", "str", "function", "list", "heap", "dict", "set", "vector", "any", "bool", "iterable", "complex", "rational"];
pub const NATIVES: &[&str] = &["print", "repr", "typeof", "len", "range", "enumerate", "sum", "min", "max", "min_by", "max_by", "map", "filter", "flat_map", "concat", "zip", "reduce",
    "sort", "sort_by", "group_by", "reverse", "permutations", "combinations", "all", "memoize", "union", "intersect", "difference", "counter", "copy", "peek", "pop", "pop_front", "push",
    "push_front", "insert", "remove", "clear", "find", "rfind", "index_of", "rindex_of", "default", "keys", "values", "abs", "sqrt", "gcd", "lcm", "count_ones", "count_zeros", "real",
    "imag", "numer", "denom", "to_lower", "to_upper", "replace", "search", "trim", "split", "join", "char", "ord", "hex", "bin", "eval"];
pub const SYNTAX: &[&str] = &["=", "+", "-", "*", "/", "%", "**", "&", "|", "^", "<<", ">>", "!", "==", "!=", "<", "<=", ">", ">=", "+=", "-=", "*=", "/=", "%=", "**=", "&=", "|=", "^=", "<<=", ">>=", ".=",
    "(", ")", "[", "]", "{", "}", ",", ".", ":", ";", "->", "_", "@", "...", "?"];
pub const IDENTS: &[&str] = &["x", "y", "z", "foo", "bar", "a1", "x_y", "Point", "fnord", "lets", "in_", "nils", "i"];

/// Characters of interest
pub fn any_char(s: &mut Src) -> char {
    match s.weighted(&[30, 10, 8, 6, 3, 3, 2]) {
        0 => (b' ' + s.draw(95) as u8) as char,
        1 => *s.pick(&[' ', '\n', '\t', '\r', '\n', ' ']),
        2 => *s.pick(&['\'', '"', '\\', '/', '*', '_', '.', '@', '-', '>']),
        3 => *s.pick(&['é', 'ß', 'λ', 'Ж', '€', '本', '\u{a0}', 'İ', 'ǅ']),
        4 => *s.pick(&['😀', '𝔸', '\u{10ffff}', '🇩']),
        5 => *s.pick(&['\u{0}', '\u{7f}', '\u{1b}', '\u{85}', '\u{200b}', '\u{feff}', '\u{301}', '\u{2028}']),
        _ => char::from_u32(s.draw(0xD7FF) as u32).unwrap_or('?'),
    }
}

pub fn any_string(s: &mut Src, max: usize) -> String {
    let n = s.below(max + 1);
    (0..n).map(|_| any_char(s)).collect()
}

pub fn number(s: &mut Src) -> String {
    let t = match s.weighted(&[10, 6, 4, 3, 3]) {
        0 => s.draw(20).to_string(),
        1 => s.draw(100000).to_string(),
        2 => { let n = if s.chance(1, 8) { s.draw(1 << 62) } else { s.draw(100000) }; if s.chance(1, 3) { format!("0x{:X}", n) } else { format!("0x{:x}", n) } }
        3 => format!("0b{:b}", s.draw(1000)),
        _ => format!("{}{}", s.draw(50), if s.chance(1, 4) { "j" } else { "i" }),
    };
    if !s.chance(1, 5) { return t; }
    // separators, and an imaginary one of any base
    let from = if t.starts_with('0') { 2 } else { 1 };
    if t.len() < from || t.len() == 1 && t.starts_with('0') { return t; }
    let mut o: String = t[..from].to_string();
    for c in t[from..].chars() {
        if c == 'i' || c == 'j' { if s.chance(1, 4) && from == 1 { o.push('_'); } } else if s.chance(1, 3) { o.push_str(*s.pick(&["_", "_", "__"])); }
        o.push(c);
    }
    if !o.ends_with(|c| c == 'i' || c == 'j') && !t.starts_with("0i") && !t.starts_with("0j") { o.push_str(*s.pick(&["", "", "_", "i", "_j"])); }
    o
}

pub fn string_literal(s: &mut Src) -> String {
    let q = *s.pick(&['\'', '"']);
    let n = s.below(6);
    let mut o = String::from(q);
    for _ in 0..n {
        match s.weighted(&[12, 2, 2, 2, 1]) {
            0 => o.push(*s.pick(&['a', 'b', ' ', 'z', '0', '%', '$', '{', '#', '/', '*'])),
            1 => o.push_str(*s.pick(&["\\n", "\\t", "\\r", "\\\\", "\\'", "\\\"", "\\q"])),
            2 => o.push(*s.pick(&['é', '本', '😀'])),
            3 => o.push(if q == '"' { '\'' } else { '"' }),
            _ => o.push('\n'),
        }
    }
    o.push(q);
    o
}

pub fn token(s: &mut Src) -> (String, Kind) {
    match s.weighted(&[20, 14, 10, 8, 3, 10, 5, 12]) {
        0 => (s.pick(SYNTAX).to_string(), Kind::Syntax),
        1 => (s.pick(IDENTS).to_string(), Kind::Syntax),
        2 => (s.pick(KEYWORDS).to_string(), Kind::Keyword),
        3 => (s.pick(CONSTANTS).to_string(), Kind::Constant),
        4 => (s.pick(TYPES).to_string(), Kind::Type),
        5 => (number(s), Kind::Number),
        6 => (string_literal(s), Kind::Str),
        _ => (s.pick(NATIVES).to_string(), Kind::Native),
    }
}

pub fn token_soup(s: &mut Src, max: usize) -> String {
    let n = s.below(max) + 1;
    let mut o = String::new();
    for _ in 0..n {
        o.push_str(&token(s).0);
        o.push_str(*s.pick(&[" ", "\n", " ", "", " ", "\n", "\r\n", " // c\n", "/* c */", " "]));
    }
    o
}

/// A source fragment close to grammatical: a random derivation of a loose grammar, with occasional wrong turns
pub fn loose_program(s: &mut Src, depth: usize) -> String {
    let n = s.below(4) + 1;
    let mut o = String::new();
    for _ in 0..n { stmt(s, depth, &mut o); o.push_str(*s.pick(&["\n", "\n", " ; ", " "])); }
    o
}

fn wrong(s: &mut Src, o: &mut String) -> bool {
    if s.chance(1, 60) {
        if s.chance(1, 2) { o.push_str(&token(s).0); }
        return true;
    }
    false
}

fn ident(s: &mut Src) -> &'static str { *s.pick(&["x", "y", "z", "f", "g", "S", "M", "a", "b", "self", "len", "map"][..9]) }

fn pattern(s: &mut Src, d: usize, o: &mut String) {
    let n = s.below(3) + 1;
    for i in 0..n {
        if i > 0 { o.push_str(", "); }
        match s.weighted(&[10, 2, 2, 2]) {
            0 => o.push_str(ident(s)),
            1 => o.push('_'),
            2 => { o.push('*'); o.push_str(*s.pick(&["x", "_", "r"])); }
            _ if d > 0 => { o.push('('); pattern(s, d - 1, o); o.push(')'); }
            _ => o.push_str("y"),
        }
    }
}

fn params(s: &mut Src, d: usize, o: &mut String) {
    o.push('(');
    let n = s.below(4);
    for i in 0..n {
        if i > 0 { o.push_str(", "); }
        match s.weighted(&[10, 2, 2, 2, 2, 1]) {
            0 => o.push_str(ident(s)),
            1 => { o.push_str(ident(s)); o.push('?'); }
            2 => { o.push_str(ident(s)); o.push_str(" = "); expr(s, d.saturating_sub(1), o); }
            3 => { o.push('*'); o.push_str(ident(s)); }
            4 => { o.push('('); pattern(s, 1, o); o.push(')'); }
            _ => o.push_str("self"),
        }
    }
    o.push(')');
}

fn block(s: &mut Src, d: usize, o: &mut String) {
    o.push_str("{ ");
    let n = s.below(3);
    for _ in 0..n { stmt(s, d, o); o.push_str(*s.pick(&["\n", " ; ", " "])); }
    if !s.chance(1, 60) { o.push_str("} "); }
}

fn stmt(s: &mut Src, d: usize, o: &mut String) {
    if wrong(s, o) { return; }
    if d == 0 { return expr(s, 0, o); }
    let d = d - 1;
    match s.weighted(&[30, 14, 8, 6, 6, 8, 4, 8, 4, 6, 4, 3, 4, 3, 3]) {
        0 => expr(s, d + 1, o),
        1 => { o.push_str("let "); pattern(s, 1, o); if !s.chance(1, 4) { o.push_str(" = "); expr(s, d, o); } if s.chance(1, 5) { o.push_str(", q = 1"); } }
        2 => {
            o.push_str("if "); expr(s, d, o); o.push(' '); block(s, d, o);
            while s.chance(1, 4) { o.push_str("elif "); expr(s, d, o); o.push(' '); block(s, d, o); }
            if s.chance(1, 3) { o.push_str("else "); block(s, d, o); }
        }
        3 => { o.push_str("while "); expr(s, d, o); o.push(' '); block(s, d, o); if s.chance(1, 4) { o.push_str("else "); block(s, d, o); } }
        4 => { o.push_str("loop "); block(s, d, o); }
        5 => { o.push_str("for "); pattern(s, 1, o); o.push_str(" in "); expr(s, d, o); o.push(' '); block(s, d, o); if s.chance(1, 4) { o.push_str("else "); block(s, d, o); } }
        6 => { o.push_str("do "); block(s, d, o); if s.chance(2, 3) { o.push_str("while "); expr(s, d, o); } if s.chance(1, 4) { o.push_str(" else "); block(s, d, o); } }
        7 => {
            if s.chance(1, 5) { o.push('@'); expr(s, d, o); o.push(' '); }
            o.push_str("fn "); o.push_str(ident(s)); params(s, d, o);
            if s.chance(1, 2) { o.push_str(" -> "); expr(s, d, o); } else { o.push(' '); block(s, d, o); }
        }
        8 => { o.push_str("return "); if s.chance(2, 3) { expr(s, d, o); } }
        9 => o.push_str(*s.pick(&["break", "continue", "exit"])),
        10 => { o.push_str("assert "); expr(s, d, o); if s.chance(1, 2) { o.push_str(" : "); expr(s, d, o); } }
        11 => {
            o.push_str("struct "); o.push_str(*s.pick(&["S", "T", "x"])); o.push('('); o.push_str(*s.pick(&["a", "a, b", "", "x, y, z", "a, a"])); o.push(')');
            if s.chance(1, 2) { o.push_str(" { "); let n = s.below(3); for _ in 0..n { o.push_str("fn "); o.push_str(ident(s)); params(s, d, o); o.push_str(" -> "); expr(s, d, o); o.push('\n'); } o.push_str("}"); }
        }
        12 => { o.push_str(*s.pick(&["module ", "module ", "native module "])); o.push_str(*s.pick(&["M", "N", "y"])); o.push_str(" { "); let n = s.below(3); for _ in 0..n { o.push_str("fn "); o.push_str(ident(s)); params(s, d, o); if s.chance(5, 6) { o.push_str(" -> "); expr(s, d, o); } o.push('\n'); } o.push('}'); }
        13 => { pattern(s, 1, o); o.push_str(" = "); expr(s, d, o); }
        _ => { expr(s, 1, o); o.push_str(*s.pick(&[" = ", " += ", " .= ", " max= ", " min= ", " <<= ", " **= "])); expr(s, d, o); }
    }
}

pub fn expr(s: &mut Src, d: usize, o: &mut String) {
    if wrong(s, o) { return; }
    if d == 0 {
        match s.weighted(&[10, 6, 4, 4, 2]) {
            0 => o.push_str(ident(s)),
            1 => o.push_str(&number(s)),
            2 => o.push_str(*s.pick(&["nil", "true", "false", "[]", "{}", "()", "'s'", "[1, 2]", "(1, 2)", "{1: 2}", "{1, 2}"])),
            3 => o.push_str(*s.pick(NATIVES)),
            _ => o.push_str(&string_literal(s)),
        }
        return;
    }
    let d = d - 1;
    match s.weighted(&[16, 12, 6, 8, 5, 5, 4, 4, 5, 5, 4, 4, 4, 3, 3]) {
        0 => expr(s, 0, o),
        1 => { expr(s, d, o); o.push(' '); o.push_str(*s.pick(&["+", "-", "*", "/", "%", "**", "&", "|", "^", "<<", ">>", "==", "!=", "<", "<=", ">", ">=", "and", "or", "is", "in", "is not", "not in", ".", "."])); o.push(' '); expr(s, d, o); }
        2 => { o.push_str(*s.pick(&["-", "!", "not ", "- ", "not not "])); expr(s, d, o); }
        3 => { expr(s, d, o); o.push('('); let n = s.below(3); for i in 0..n { if i > 0 { o.push_str(", "); } if s.chance(1, 6) { o.push_str("..."); } expr(s, d, o); } o.push(')'); }
        4 => { expr(s, d, o); o.push('['); match s.below(4) { 0 => expr(s, d, o), 1 => { expr(s, d, o); o.push(':'); expr(s, d, o); } 2 => o.push_str("::-1"), _ => { o.push(':'); expr(s, d, o); o.push(':'); expr(s, d, o); } } o.push(']'); }
        5 => { o.push('['); let n = s.below(4); for i in 0..n { if i > 0 { o.push_str(", "); } if s.chance(1, 8) { o.push_str("..."); } expr(s, d, o); } o.push(']'); }
        6 => { o.push('{'); let n = s.below(3); for i in 0..n { if i > 0 { o.push_str(", "); } expr(s, d, o); o.push_str(": "); expr(s, d, o); } o.push('}'); }
        7 => { o.push('{'); let n = s.below(3); for i in 0..n { if i > 0 { o.push_str(", "); } if s.chance(1, 8) { o.push_str("..."); } expr(s, d, o); } o.push('}'); }
        8 => { o.push('('); expr(s, d, o); if s.chance(1, 3) { o.push_str(", "); expr(s, d, o); } o.push(')'); }
        9 => { o.push_str("if "); expr(s, d, o); o.push_str(" then "); expr(s, d, o); if !s.chance(1, 20) { o.push_str(" else "); expr(s, d, o); } }
        10 => { o.push_str("fn"); params(s, d, o); if s.chance(1, 2) { o.push_str(" -> "); expr(s, d, o); } else { o.push(' '); block(s, d, o); } }
        11 => { o.push('('); o.push_str(*s.pick(&["+", "*", "/", "-", "%", "**", "<", "==", "is", "in", "not in", "not", "!", "->a", ">>", "."])); if s.chance(1, 2) { o.push(' '); expr(s, d, o); } o.push(')'); }
        12 => { o.push('('); expr(s, d, o); o.push(' '); o.push_str(*s.pick(&["+", "*", "/", "-", "%", "**", "<", "==", "is", "in", "not in", ">>"])); o.push(')'); }
        13 => { expr(s, d, o); o.push_str(*s.pick(&["->a", "->x", "->f"])); }
        _ => { o.push_str(ident(s)); o.push(' '); expr(s, d, o); }
    }
}

pub fn corpus() -> &'static Vec<String> {
    static C: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    C.get_or_init(|| {
        let mut names: Vec<_> = std::fs::read_dir(concat!(env!("CARGO_MANIFEST_DIR"), "/corpus")).expect("corpus").map(|e| e.unwrap().path()).collect();
        names.sort();
        names.iter().map(|p| std::fs::read_to_string(p).unwrap()).collect()
    })
}

/// A corpus program after a few random edits
pub fn mutated(s: &mut Src, base: String) -> String {
    let mut c: Vec<char> = base.chars().collect();
    let n = s.below(4) + 1;
    for _ in 0..n {
        let len = c.len();
        if len == 0 { break; }
        let i = s.below(len);
        match s.weighted(&[4, 4, 4, 3, 3, 2, 3]) {
            0 => { let j = (i + 1 + s.below(8)).min(len); c.drain(i..j); }
            1 => { let t: Vec<char> = format!(" {} ", token(s).0).chars().collect(); c.splice(i..i, t); }
            2 => { let ch = any_char(s); c.insert(i, ch); }
            3 => c.truncate(i),
            4 => { let j = (i + 1 + s.below(30)).min(len); let t: Vec<char> = c[i..j].to_vec(); let k = s.below(len); c.splice(k..k, t); }
            5 => { c.drain(..i); }
            _ => { // replace one word by a token
                let mut a = i; let mut b = i;
                while a > 0 && c[a - 1].is_alphanumeric() { a -= 1; }
                while b < len && c[b].is_alphanumeric() { b += 1; }
                let t: Vec<char> = token(s).0.chars().collect();
                c.splice(a..b, t);
            }
        }
    }
    c.into_iter().collect()
}
