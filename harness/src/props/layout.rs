//! Literals, comments and layout.

use super::prog::{agree, print_program};
use crate::engine::{fail, Cx, Failure, Src};
use crate::model::ast::*;
use crate::model::gen::{Cfg, Gen};
use crate::model::interp::{End as MEnd, Interp};
use crate::vmrun::{self, End};

const OPS: [&str; 47] = ["...", "<<=", ">>=", "**=", "==", "!=", "<=", ">=", "+=", "-=", "*=", "/=", "&=", "|=", "^=", "%=", ".=", "->", "<<", ">>", "**", "//", "/*", "+", "-", "*", "/", "%", "&", "|", "^", "!", "<", ">", "=", "(", ")", "[", "]", "{", "}", ",", ".", ":", ";", "?", "@"];

/// (blanks before it, token), and the blanks at the end
pub fn tokens(text: &str) -> (Vec<(String, String)>, String) {
    let c: Vec<char> = text.chars().collect();
    let (mut out, mut gap, mut i) = (Vec::new(), String::new(), 0);
    while i < c.len() {
        if c[i].is_ascii_whitespace() || c[i] == '\u{1}' { gap.push(c[i]); i += 1; continue; }
        let start = i;
        if c[i] == '/' && c.get(i + 1) == Some(&'/') && !gap.contains('\u{2}') {
            while i < c.len() && c[i] != '\n' { i += 1; }
            continue;
        }
        if c[i].is_ascii_alphabetic() {
            while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') { i += 1; }
        } else if c[i].is_ascii_digit() {
            if c[i] == '0' && matches!(c.get(i + 1), Some('x' | 'b')) { i += 2; }
            let hex = i > start && c[i - 1] == 'x';
            while i < c.len() && (c[i].is_ascii_digit() || c[i] == '_' || hex && c[i].is_ascii_hexdigit()) { i += 1; }
            if matches!(c.get(i), Some('i' | 'j')) { i += 1; }
        } else if c[i] == '\'' || c[i] == '"' {
            let q = c[i];
            i += 1;
            while i < c.len() && c[i] != q { if c[i] == '\\' { i += 1; } i += 1; }
            i += 1;
        } else if c[i] == '_' {
            i += 1;
        } else {
            let rest: String = c[i..c.len().min(i + 3)].iter().collect();
            i += OPS.iter().find(|o| rest.starts_with(**o)).map_or(1, |o| o.len());
        }
        out.push((std::mem::take(&mut gap), c[start..i.min(c.len())].iter().collect()));
    }
    (out, gap)
}

/// Whether a token can end an expression
fn ends(t: &str) -> bool {
    let c = t.chars().next().unwrap();
    if c.is_ascii_alphabetic() { return !["let", "fn", "return", "if", "elif", "else", "then", "loop", "while", "for", "in", "is", "not", "do", "and", "or", "struct", "assert", "module"].contains(&t); }
    c.is_ascii_digit() || matches!(c, '\'' | '"' | '_' | ')' | ']' | '}' | '?')
}

/// Whether a token on the same line as the end of an expression is an argument
fn starts(t: &str) -> bool {
    let c = t.chars().next().unwrap();
    if c.is_ascii_alphabetic() { return !["let", "return", "elif", "else", "then", "loop", "while", "for", "in", "is", "not", "do", "and", "or", "struct", "assert", "module", "break", "continue"].contains(&t); }
    c.is_ascii_digit() || matches!(c, '\'' | '"' | '(' | '[' | '@' | '_')
}

fn statement(t: &str) -> bool { ["let", "return", "loop", "while", "for", "do", "assert", "struct", "module", "break", "continue"].contains(&t) }

fn comment(s: &mut Src, out: &mut String, lines: bool) {
    const CHARS: [&str; 24] = ["*", "/", " ", "x", "'", "\"", "\\", "**", "é", "1", "(", "}", "//", "/*", "let", ";", "\u{2028}", "\u{85}", "\u{b}", "\u{c}", "\u{2029}", "\u{0}", "𝄞", "\r"];
    if lines && s.chance(1, 2) {
        out.push_str("//");
        for _ in 0..s.below(5) { let c = *s.pick(&CHARS); out.push_str(c); }
        out.push_str(if s.chance(1, 3) { "\r\n" } else { "\n" });
    } else {
        let mut body = String::new();
        for _ in 0..s.below(5) { let c = if lines && s.chance(1, 8) { "\n" } else { *s.pick(&CHARS) }; body.push_str(c); }
        while body.contains("*/") { body = body.replace("*/", "* /"); }
        out.push_str("/*");
        out.push_str(&body);
        out.push_str("*/");
    }
}

fn blanks(s: &mut Src, out: &mut String, lines: bool) {
    for _ in 0..1 + s.weighted(&[6, 2, 1]) {
        match s.weighted(&[8, 2, 2, 1, if lines { 4 } else { 0 }]) {
            0 => out.push(' '),
            1 => comment(s, out, lines),
            2 => out.push('\t'),
            3 => out.push('\r'),
            _ => out.push_str(if s.chance(1, 4) { "\r\n" } else { "\n" }),
        }
    }
}

fn gap(s: &mut Src, a: &str, b: &str, was: &str) -> String {
    let mut out = gap_text(s, a, b, was);
    if a.ends_with('/') && out.starts_with('/') { out.insert(0, ' '); }
    out
}

fn gap_text(s: &mut Src, a: &str, b: &str, was: &str) -> String {
    let mut out = String::new();
    let lines = !(ends(a) && starts(b));
    if was.contains('\u{1}') {
        match s.weighted(&[4, 2, if statement(b) { 2 } else { 0 }]) {
            0 => { if s.chance(1, 3) { blanks(s, &mut out, true); } out.push('\n'); if s.chance(1, 2) { blanks(s, &mut out, true); } }
            1 => { if s.chance(1, 2) { blanks(s, &mut out, true); } out.push(';'); while s.chance(1, 3) { blanks(s, &mut out, true); if s.chance(1, 4) { out.push(';'); } } }
            _ => blanks(s, &mut out, true),
        }
        return out;
    }
    if was.contains('\n') && a != "{" && b != "}" {
        if s.chance(1, 3) { blanks(s, &mut out, true); }
        out.push('\n');
        if s.chance(1, 2) { blanks(s, &mut out, true); }
        return out;
    }
    let munch = a == "0" && b.starts_with(|c: char| c.is_ascii_alphanumeric() || c == '_');
    if !munch && s.chance(1, 2) && tokens(&format!("{}{}", a, b)).0.iter().map(|x| x.1.as_str()).eq([a, b]) { return out; }
    blanks(s, &mut out, lines || a == "{" || b == "}");
    out
}

fn underscores(s: &mut Src, digits: &str, first: bool) -> String {
    let mut o = String::new();
    if first { while s.chance(1, 8) { o.push('_'); } }
    for c in digits.chars() { o.push(c); while s.chance(1, 6) { o.push('_'); } }
    o
}

fn number(s: &mut Src, v: u64) -> String {
    match s.weighted(&[2, 1, 1]) {
        0 => { let d = v.to_string(); if v == 0 { d } else { underscores(s, &d, false) } }
        1 => {
            let d: String = format!("{:x}", v).chars().map(|c| if s.chance(1, 2) { c.to_ascii_uppercase() } else { c }).collect();
            let z = "0".repeat(s.weighted(&[4, 1, 1]));
            format!("0x{}", underscores(s, &format!("{}{}", z, d), true))
        }
        _ => format!("0b{}", { let d = format!("{:b}", v); underscores(s, &d, true) }),
    }
}

fn string(s: &mut Src, v: &str) -> String {
    let q = if s.chance(1, 2) { '"' } else { '\'' };
    let mut o = String::from(q);
    let c: Vec<char> = v.chars().collect();
    for (i, &ch) in c.iter().enumerate() {
        match ch {
            '\n' => o.push_str(*s.pick(&["\\n", "\n", "\r\n"])),
            '\t' => o.push_str(*s.pick(&["\\t", "\t"])),
            '\r' => o.push_str("\\r"),
            '\\' => {
                let free = c.get(i + 1).map_or(false, |n| !matches!(n, 'n' | 'r' | 't' | '\'' | '"' | '\\' | '\n' | '\r' | '\t'));
                o.push_str(if free && s.chance(1, 2) { "\\" } else { "\\\\" });
            }
            '\'' | '"' => { if ch == q || s.chance(1, 2) { o.push('\\'); } o.push(ch); }
            _ => o.push(ch),
        }
    }
    o.push(q);
    o
}

/// The value of a literal which was printed by the model
fn unquote(t: &str) -> String {
    let mut o = String::new();
    let c: Vec<char> = t[1..t.len() - 1].chars().collect();
    let mut i = 0;
    while i < c.len() {
        if c[i] == '\\' { i += 1; o.push(match c[i] { 'n' => '\n', 't' => '\t', 'r' => '\r', x => x }); } else { o.push(c[i]); }
        i += 1;
    }
    o
}

pub fn relayout(s: &mut Src, text: &str, literals: bool) -> String {
    let (toks, _) = tokens(text);
    let mut out = String::new();
    let mut last = String::new();
    if s.chance(1, 4) { blanks(s, &mut out, true); }
    for (i, (was, t)) in toks.iter().enumerate() {
        let c = t.chars().next().unwrap();
        let new = if !literals || s.chance(1, 2) { t.clone() }
            else if c == '\'' { let v = unquote(t); string(s, &v) }
            else if c.is_ascii_digit() {
                let (d, suffix) = match t.strip_suffix('i') { Some(d) => (d, *s.pick(&["i", "j"])), None => (t.as_str(), "") };
                // a literal of zero is an integer in every notation, as `0i` is
                match d.parse::<u64>() { Ok(v) if suffix.is_empty() || v > 0 => format!("{}{}", number(s, v), suffix), _ => t.clone() }
            } else { t.clone() };
        if i > 0 { let g = gap(s, &last, &new, was); out.push_str(&g); }
        out.push_str(&new);
        last = new;
    }
    match s.weighted(&[3, 1, 1, 1]) { 0 => out.push('\n'), 1 => blanks(s, &mut out, true), 2 => {} _ => out.push_str(" // end") }
    out
}

fn program(s: &mut Src, cx: &mut Cx) -> Result<(), Failure> {
    let seed = s.draw(u64::MAX);
    let prog = {
        let cfg = Cfg { budget: 60, ..Cfg::default() };
        Gen::new(s, cfg).program()
    };
    let mut m = Interp::new();
    let end = m.run(&prog);
    if let MEnd::Unknown(_) | MEnd::Fuel = end { return cx.discard(); }
    let text = print_program(&prog, Style { marks: true, ..Style::default() }, seed).out;
    let new = relayout(s, &text, true);
    cx.sample = new.clone();
    let plain = text.replace('\u{1}', "");
    let r = vmrun::run(&plain, false);
    agree(&plain, &m, &end, &r, "as printed", false)?;
    let r = vmrun::run(&new, false);
    agree(&new, &m, &end, &r, "with another layout", false)?;
    cx.label("program");
    cx.nontrivial = m.out.lines().count() >= 3;
    Ok(())
}

enum Want { Out(String), Rejected }

fn literal(s: &mut Src) -> (String, Want) {
    const MAX: u128 = (1 << 62) - 1;
    match s.below(7) {
        0 | 1 => {
            // an integer near a boundary, or with any number of digits
            let radix = *s.pick(&[10u32, 16, 2]);
            let v: u128 = match s.below(3) {
                0 => s.below(300) as u128,
                1 => { let k = *s.pick(&[8u32, 31, 32, 61, 62, 63, 64, 65]); ((1u128 << k) as i128 + s.int(-3, 3) as i128) as u128 }
                _ => { let k = s.below(100); let r = s.draw(u64::MAX) as u128; (r << 40 | 0xfeed) >> k }
            };
            let imag = s.chance(1, 4);
            let d = match radix { 10 => v.to_string(), 16 => format!("{:x}", v), _ => format!("{:b}", v) };
            let mut t = match radix {
                10 => if v == 0 { d } else { underscores(s, &d, false) },
                16 => format!("0x{}", underscores(s, &d, true)),
                _ => format!("0b{}", underscores(s, &d, true)),
            };
            if imag { t.push(*s.pick(&['i', 'j'])); }
            let neg = s.chance(1, 3);
            if neg { t.insert(0, '-'); }
            let ok = if imag { v <= i64::MAX as u128 } else { v <= MAX || neg && v == MAX + 1 };
            if !imag && !neg && v == MAX + 1 { return ("1".into(), Want::Out("1".into())); }
            if imag && v == 0 { return ("0i".into(), Want::Out("0".into())); }
            let value = format!("{}{}{}", if neg && v != 0 { "-" } else { "" }, v, if imag { "i" } else { "" });
            (t, if ok { Want::Out(value) } else { Want::Rejected })
        }
        2 => {
            let t = match s.below(6) {
                0 => "0x".to_string() + *s.pick(&["", "_", "g", "__"]),
                1 => "0b".to_string() + *s.pick(&["", "_", "2", "__"]),
                2 => format!("0{}", s.pick(&['0', '1', '9', '_', 'o', 'X', 'B', 'a', 'z'])),
                3 => format!("0b1{}", "0".repeat(63 + s.below(3))),
                4 => format!("0x{}", "f".repeat(16 + s.below(3))),
                _ => format!("{}i", "9".repeat(19 + s.below(10))),
            };
            (t, Want::Rejected)
        }
        3 | 4 => {
            const CS: [char; 20] = ['a', 'n', 't', 'r', '\\', '\'', '"', '\n', ' ', 'é', '日', '😀', '/', '*', '{', '}', '\t', '0', 'x', ';'];
            let v: String = (0..s.below(8)).map(|_| *s.pick(&CS)).collect();
            (string(s, &v), Want::Out(v))
        }
        5 => {
            // any text between quotes
            const CS: [char; 12] = ['a', 'n', 't', 'r', '\\', '\\', '\'', '"', '\n', '\r', 'é', '.'];
            let q = *s.pick(&['\'', '"']);
            let raw: Vec<char> = (0..s.below(7)).map(|_| *s.pick(&CS)).collect();
            // carriage returns in source count for nothing
            let body: Vec<char> = raw.iter().copied().filter(|c| *c != '\r').collect();
            let (mut v, mut i, mut bad) = (String::new(), 0, false);
            while i < body.len() {
                match body[i] {
                    '\\' => {
                        i += 1;
                        match body.get(i) { None => bad = true, Some('n') => v.push('\n'), Some('t') => v.push('\t'), Some('r') => v.push('\r'), Some(c @ ('\\' | '\'' | '"')) => v.push(*c), Some(c) => { v.push('\\'); v.push(*c) } }
                    }
                    c if c == q => { bad = true; break }
                    c => v.push(c),
                }
                i += 1;
            }
            if bad && i < body.len() { return ("''".into(), Want::Out("".into())); }
            (format!("{}{}{}", q, raw.iter().collect::<String>(), q), if bad { Want::Rejected } else { Want::Out(v) })
        }
        _ => {
            // comments beside a literal
            let mut t = String::new();
            comment(s, &mut t, true);
            let v = s.below(10);
            t.push_str(&v.to_string());
            comment(s, &mut t, true);
            if s.chance(1, 5) { let open = *s.pick(&["/*", "/*/", "/* //", "/* *", "/*'*'/"]); t.push_str(open); return (t, Want::Rejected); }
            (t, Want::Out(v.to_string()))
        }
    }
}

fn one(s: &mut Src, cx: &mut Cx) -> Result<(), Failure> {
    let (lit, want) = literal(s);
    let reject = matches!(want, Want::Rejected);
    let (text, expect) = match want {
        Want::Out(v) => {
            // what is beside a literal makes no difference
            let (a, b, c) = *s.pick(&[("print(", ")", ""), ("let v = ", "\nprint(v)", ""), ("print([", "][0])", ""), ("print(if true then ", " else 0)", ""), ("print(1 ,", ")", "1 ")]);
            (format!("{}{}{}", a, lit, b), format!("{}{}\n", c, v))
        }
        Want::Rejected => (format!("print(nil)\nlet v = {} ;\nprint(v)", lit), String::new()),
    };
    cx.sample = text.clone();
    cx.label(if reject { "ill-formed literal" } else { "literal" });
    cx.nontrivial = lit.len() > 1;
    let r = vmrun::run(&text, false);
    if let End::Panic(p) = &r.end { return fail(vmrun::panic_sig(p), format!("the compiler crashed\n--- program\n{}\n--- actual\n{}", text, r.show())); }
    if reject {
        if !matches!(r.end, End::Compile(_)) { return fail("accepted", format!("an ill-formed or out-of-range literal was accepted\n--- program\n{}\n--- actual\n{}", text, r.show())); }
    } else if !matches!(r.end, End::Exit | End::Return) || r.out != expect {
        return fail("value", format!("a literal has the wrong value\n--- program\n{}\n--- expected output\n{}\n--- actual\n{}", text, expect, r.show()));
    }
    Ok(())
}

pub fn run(s: &mut Src, cx: &mut Cx) -> Result<(), Failure> {
    if s.chance(1, 3000) { return super::large::run(s, cx, super::large::TOKENS); }
    if s.chance(1, 2) { one(s, cx) } else { program(s, cx) }
}
