//! Error reports: the whole text against what the reference model says of the failure.

use std::cell::Cell;

use crate::engine::{fail, Cx, Failure, Src};
use crate::gentext;
use crate::model::ast::{Printer, Style};
use crate::model::gen::{Cfg, Gen};
use crate::model::interp::ErrInfo;

thread_local! { static FULL: Cell<Option<u64>> = const { Cell::new(None) }; }
/// Whether whole error reports are compared, of programs laid out by this seed
pub fn full() -> Option<u64> { FULL.with(|f| f.get()) }
pub fn set_full(b: Option<u64>) { FULL.with(|f| f.set(b)) }

struct Lcg(u64);
impl Lcg { fn below(&mut self, n: u64) -> u64 { self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (self.0 >> 33) % n } }

/// Changes the layout of a program: lines before it, comments, tabs, line ends
pub fn lay_out(w: &mut Printer, salt: u64) {
    if salt == 0 { return; }
    let mut r = Lcg(salt);
    let (comments, tabs, crlf) = (r.below(3) == 0, r.below(3) == 0, r.below(4) == 0);
    let mut out = String::new();
    for _ in 0..r.below(5) {
        out.push_str(["\n", "// note\n", "/* é€ */\n", "/* two\n𝕏 lines */\n", "\t\n"][r.below(5) as usize]);
    }
    let mut map = Vec::with_capacity(w.out.len() + 1);
    let mut start = true;
    for c in w.out.chars() {
        if start && comments && r.below(4) == 0 { out.push_str(["/* é */ ", "/* 日本 */\t", "/**/"][r.below(3) as usize]); }
        if start && tabs && c == ' ' { for _ in 0..c.len_utf8() { map.push(out.len()); } out.push('\t'); continue; }
        start = c == '\n';
        for _ in 0..c.len_utf8() { map.push(out.len()); }
        if c == '\n' && crlf { out.push('\r'); }
        out.push(c);
    }
    map.push(out.len());
    w.out = out;
    for m in [&mut w.spans, &mut w.loose] { for v in m.values_mut() { *v = (map[v.0], map[v.1 - 1] + 1); } }
    // ends of spans which end in a wide character
    let text = w.out.clone();
    for m in [&mut w.spans, &mut w.loose] { for v in m.values_mut() { while !text.is_char_boundary(v.1) { v.1 += 1; } } }
}

pub struct Lines { pub starts: Vec<usize>, pub lines: Vec<String> }

impl Lines {
    pub fn of(text: &str) -> Lines {
        let (mut starts, mut lines, mut at) = (vec![], vec![], 0);
        for l in text.split('\n') {
            starts.push(at);
            lines.push(l.strip_suffix('\r').unwrap_or(l).to_string());
            at += l.len() + 1;
        }
        Lines { starts, lines }
    }
    /// index of the line of a byte offset
    pub fn at(&self, b: usize) -> usize { self.starts.partition_point(|s| *s <= b) - 1 }
}

/// The part of a report after message and stack trace: the lines quoted, and the underline
pub fn quote(text: &str, span: (usize, usize)) -> (String, String) {
    let ls = Lines::of(text);
    let (a, b) = (ls.at(span.0), ls.at(span.1 - 1));
    let w = (b + 2).to_string().len();
    let mut o = String::new();
    let push_line = |o: &mut String, n: String, rest: &str| { o.push_str(&format!("{:>w$} |", n)); if !rest.is_empty() { o.push(' '); o.push_str(rest); } o.push('\n'); };
    for i in a..=b { push_line(&mut o, (i + 1).to_string(), &ls.lines[i]); }
    if a == b {
        let l = &text[ls.starts[a]..];
        let pad: String = l[..span.0 - ls.starts[a]].chars().map(|c| if c == '\t' { '\t' } else { ' ' }).collect();
        let n = text[span.0..span.1].chars().count();
        push_line(&mut o, (a + 2).to_string(), &format!("{}{}", pad, "^".repeat(n)));
    } else {
        let n = (a..=b).map(|i| ls.lines[i].chars().count()).max().unwrap();
        push_line(&mut o, (b + 2).to_string(), &"^".repeat(n));
    }
    (if a == b { format!("{}", a + 1) } else { format!("{} - {}", a + 1, b + 1) }, o)
}

/// Lines of the stack trace
pub fn trace(text: &str, e: &ErrInfo, w: &Printer) -> Option<String> {
    let ls = Lines::of(text);
    let mut o = String::new();
    let mut prev = (e.at, None);
    let mut last = None;
    let mut n = 0;
    for (f, site) in &e.trace {
        let line = ls.at(w.spans.get(site)?.0) + 1;
        let key = (prev.0, *site);
        if last == Some(key) { n += 1; } else {
            if n > 3 { o.push_str(&format!("  ... above line repeated {} more time(s) ...\n", n - 3)); }
            n = 0;
        }
        if n <= 3 { o.push_str(&format!("  at: `{}` (line {})\n", f, line)); }
        last = Some(key);
        prev = (Some(*site), None::<()>);
    }
    if n > 3 { o.push_str(&format!("  ... above line repeated {} more time(s) ...\n", n - 3)); }
    Some(o)
}

pub fn compare(text: &str, name: &str, e: &ErrInfo, w: &Printer, report: &str, opt: bool) -> Result<(), Failure> {
    let bad = |sig: &str, want: &str| fail(format!("report: {}", sig), format!("{} {}\n--- program\n{}\n--- expected report\n{}\n--- actual\n{}", sig, if opt { "(optimised)" } else { "" }, text, want, report));
    // whether a function captured anything is of no interest
    let head = format!("{}\n  at: line ", e.msg.replace("closure", "function"));
    let (first, others) = report.split_once('\n').unwrap_or((report, ""));
    let report = &format!("{}\n{}", first.replace("closure", "function"), others);
    // which elements a sort compares first is not specified
    if e.msg.starts_with("ValueError: Cannot compile regex") || e.msg.starts_with("ValueError: Cannot convert") { return Ok(()); }
    if text.contains("sort") { return Ok(()); }
    // an assertion in parentheses does not tell its operands
    if head.starts_with("Assertion Failed:") && head.contains("Expected ") && !report.contains("\nExpected ") && !report.starts_with("Assertion Failed: Expected ") && e.at.and_then(|a| w.spans.get(&a)).is_some_and(|s| text[s.0..].starts_with('(')) { return Ok(()); }
    let Some(rest) = report.strip_prefix(&head) else { return bad("message", &head) };
    if rest.lines().next().is_some_and(|l| l.ends_with("(<eval>)")) || report.contains("  at: `<script>` (line") { return Ok(()); }
    let Some(at) = e.at else { return bad("unknown place", "") };
    let Some(tr) = trace(text, e, w) else { return bad("unknown call", "") };
    let ls = Lines::of(text);
    if let Some(span) = w.spans.get(&at) {
        let (line, quote) = quote(text, *span);
        let want = format!("{}{} ({})\n{}\n{}", head, line, name, tr, quote);
        if *report == want { return Ok(()); }
        // `a . [b:c]` may be taken for one operation
        if opt && text[span.0..].starts_with('[') {
            let mut t = text[..span.0].trim_end();
            loop {
                let n = if t.ends_with("*/") { t.rfind("/*").unwrap() } else if t.ends_with(" // c") { t.len() - 5 } else { break };
                t = t[..n].trim_end();
            }
            if t.ends_with('.') { return Ok(()); }
        }
        if rest.lines().next() != want[head.len()..].lines().next() { return bad("line", &want); }
        if !report.starts_with(&format!("{}{} ({})\n{}\n", head, line, name, tr)) { return bad("stack trace", &want); }
        return bad("underline", &want);
    }
    let Some(range) = w.loose.get(&at) else { return bad("unknown extent", "") };
    let (lo, hi) = (ls.at(range.0) + 1, ls.at(range.1 - 1) + 1);
    let want = format!("{}{}..{} ({})\n{}", head, lo, hi, name, tr);
    let Some((line, rest)) = rest.split_once(&format!(" ({})\n", name)) else { return bad("form", &want) };
    let ok = |n: &str| n.parse::<usize>().is_ok_and(|n| lo <= n && n <= hi);
    if !line.split(" - ").all(ok) { return bad("line of a pattern", &want); }
    if !rest.starts_with(&format!("{}\n", tr)) { return bad("stack trace of a pattern", &want); }
    Ok(())
}

// ===== compile errors ===== //

/// A report of a compile error, taken apart
#[derive(Debug, PartialEq, Clone)]
pub struct Parts { pub msg: String, pub name: String, pub lines: (usize, usize), pub quoted: Vec<String>, pub under: String }

pub fn parts(report: &str) -> Option<Parts> {
    let at = report.rfind("\n  at: line ")?;
    let (head, quote) = report[at + 12..].split_once("\n\n")?;
    let (n, name) = head.split_once(" (")?;
    let lines: (usize, usize) = match n.split_once(" - ") { Some((a, b)) => (a.parse().ok()?, b.parse().ok()?), None => { let a = n.parse().ok()?; (a, a) } };
    let w = (lines.1 + 1usize).to_string().len();
    let mut rows = vec![];
    let q: Vec<&str> = quote.strip_suffix('\n')?.split('\n').collect();
    if lines.1 < lines.0 || q.len() != lines.1 - lines.0 + 2 { return None; }
    for (i, r) in q.iter().enumerate() {
        let r = r.strip_prefix(&format!("{:>w$} |", lines.0 + i))?;
        rows.push(r.strip_prefix(' ').unwrap_or(r).to_string());
    }
    let under = rows.pop()?;
    Some(Parts { msg: report[..at].to_string(), name: name.strip_suffix(')')?.to_string(), lines, quoted: rows, under })
}

/// The error named, the place it names and what the text says must fit
pub fn check_compile_error(text: &str, name: &str, report: &str) -> Result<Parts, Failure> {
    let err = |sig: &str| fail(format!("compile error: {}", sig), format!("{}\n--- text\n{}\n--- report\n{}", sig, text, report));
    let Some(p) = parts(report) else { return err("form of the report") };
    let ls = Lines::of(text);
    if p.name != name { return err("names another source"); }
    if p.lines.0 < 1 || p.lines.1 > ls.lines.len() { return err("line does not exist"); }
    for (i, q) in p.quoted.iter().enumerate() { if *q != ls.lines[p.lines.0 - 1 + i] { return err("quoted line is not the line of the source"); } }
    if p.lines.0 != p.lines.1 { return Ok(p); }
    let line: Vec<char> = p.quoted[0].chars().collect();
    let start = p.under.chars().take_while(|c| *c != '^').count();
    let n = p.under.chars().count() - start;
    if n == 0 && !line.is_empty() || !p.under.chars().skip(start).all(|c| c == '^') { return err("no underline"); }
    if start > line.len() { return err("underline outside of the line"); }
    for (i, c) in p.under.chars().take(start).enumerate() { if c != (if line[i] == '\t' { '\t' } else { ' ' }) { return err("underline is not aligned"); } }
    if start == line.len() { if n > 3 { return err("underline outside of the line"); } return Ok(p); }
    // whatever is not terminated extends to the end
    if p.msg.starts_with("Unterminated") { return Ok(p); }
    if start + n > line.len() + 1 { return err("underline outside of the line"); }
    let u: String = line[start..(start + n).min(line.len())].iter().collect();
    let m = p.msg.lines().last().unwrap_or("");
    let between = |a: &str, b: &str| -> Option<String> { let i = m.rfind(a)? + a.len(); m[i..].strip_suffix(b).map(|s| s.to_string()) };
    let token = between("Undeclared identifier: '", "'").or_else(|| between("Invalid character: '", "'")).or_else(|| between("Invalid or unknown field name: '", "'"))
        .or_else(|| between("got identifier '", "' instead")).or_else(|| between("got '", "' keyword instead")).or_else(|| between("got '", "' token instead"));
    if let Some(t) = token { if t != u && !(t == "*" && u.starts_with('*')) { return err("underlines something else than what it names"); } }
    Ok(p)
}

fn errors(text: &str) -> Result<Option<Vec<String>>, Failure> {
    match crate::vmrun::compile(text, true) {
        Ok(Ok(_)) => Ok(None),
        Ok(Err(v)) => Ok(Some(v)),
        // totality of the compiler is another property
        Err(_) => Ok(Some(vec![])),
    }
}

/// Blank lines and comments to put before a program: the text and how many lines it takes
fn preamble(s: &mut Src) -> (String, usize) {
    let n = s.below(4) + 1;
    let mut o = String::new();
    for _ in 0..n { o.push_str(*s.pick(&["\n", "// note\n", "/* é𝕏 */\n", "/* two\n lines */\n", "\t \n", "// '\n", "\r\n"])); }
    let k = o.matches('\n').count();
    (o, k)
}

/// Text which need not compile
fn any_text(s: &mut Src, cx: &mut Cx) -> Result<(), Failure> {
    let text = match s.weighted(&[2, 6, 4, 4]) {
        0 => gentext::token_soup(s, 20),
        1 => gentext::loose_program(s, 3),
        2 => { let c = gentext::corpus(); let b = c[s.below(c.len())].clone(); gentext::mutated(s, b) }
        _ => {
            let p = Gen::new(s, Cfg::default()).program();
            let b = super::prog::print_program(&p, Style::default(), 0).out;
            gentext::mutated(s, b)
        }
    };
    let (pre, k) = preamble(s);
    if text.contains('\r') { return cx.discard(); }
    let Some(es) = errors(&text)? else { cx.label("compiles"); return cx.discard() };
    cx.label("errors in arbitrary text");
    cx.nontrivial = true;
    cx.sample = format!("{}\n---\n{}", text, es.join("\n"));
    let mut ps = vec![];
    for e in &es { ps.push(check_compile_error(&text, "<test>", e)?); }
    for (what, other, k) in [("blank lines and comments before it", format!("{}{}", pre, text), k), ("other line ends", text.replace('\n', "\r\n"), 0)] {
        let bad = |sig: &str, got: String| fail(format!("compile error: {}", sig), format!("{} with {}\n--- text\n{}\n--- errors\n{}\n--- changed text\n{}\n--- errors\n{}", sig, what, text, es.join("\n"), other, got));
        let Some(os) = errors(&other)? else { return bad("vanishes", String::new()) };
        if os.len() != es.len() { return bad("different number of errors", os.join("\n")); }
        for (p, o) in ps.iter().zip(&os) {
            let q = check_compile_error(&other, "<test>", o)?;
            if p.msg.replace('\r', "") != q.msg.replace('\r', "") { return bad("different message", os.join("\n")); }
            if (p.lines.0 + k, p.lines.1 + k) != q.lines { return bad("line not shifted by the lines before it", os.join("\n")); }
            let (a, b) = (p.under.trim_end_matches('^'), q.under.trim_end_matches('^'));
            if a != b || k > 0 && p.under != q.under { return bad("different underline", os.join("\n")); }
        }
    }
    Ok(())
}

/// (text, error, what is underlined, if it must be that)
const WRONG: &[(&str, &str, &str)] = &[
    ("print(zzq + 1)", "Undeclared identifier: 'zzq'", "zzq"),
    ("let zz = [1, zzq]", "Undeclared identifier: 'zzq'", "zzq"),
    ("zzq = 3", "Undeclared identifier: 'zzq'", "zzq"),
    ("zzq += 3", "Undeclared identifier: 'zzq'", "zzq"),
    ("fn zf() -> 1 + zzq", "Undeclared identifier: 'zzq'", "zzq"),
    ("fn zf(a, b = zzq) -> 1", "Undeclared identifier: 'zzq'", "zzq"),
    ("(fn(zz) -> (fn() -> zz + zzq)())(1)", "Undeclared identifier: 'zzq'", "zzq"),
    ("print('𝕏é', /* ∞ */ zzq)", "Undeclared identifier: 'zzq'", "zzq"),
    ("if true { let zzq = 1 } else { zzq . print }", "Undeclared identifier: 'zzq'", "zzq"),
    ("for zz in [] { print(zz) } else { zzq }", "Undeclared identifier: 'zzq'", "zzq"),
    ("loop { fn zw() { break } }", "Invalid 'break' statement outside of an enclosing loop", "break"),
    ("loop { (fn() { continue })() ; break }", "Invalid 'continue' statement outside of an enclosing loop", "continue"),
    ("while false { } else { fn zw() { loop { break } ; break } }", "Invalid 'break' statement outside of an enclosing loop", ""),
    ("let print = 1", "Name for variable 'print' conflicts with the native function by the same name", ""),
    ("fn len() -> 1", "Name for variable 'len' conflicts with the native function by the same name", ""),
    ("fn zf(map) -> 1", "Name for variable 'map' conflicts with the native function by the same name", ""),
    ("for len in [1] {}", "Name for variable 'len' conflicts with the native function by the same name", ""),
    ("let zz = 1 ; let zz = 2", "Duplicate definition of variable 'zz' in the same scope", ""),
    ("fn zf(a, a) -> 1", "Duplicate definition of variable 'a' in the same scope", ""),
    ("1 = 2", "The left hand side is not a valid assignment target", ""),
    ("[1] = 2", "The left hand side is not a valid assignment target", ""),
    ("let zz ; zz + 1 = 2", "The left hand side is not a valid assignment target", ""),
    ("let zz ; zz() = 2", "The left hand side is not a valid assignment target", ""),
    ("let zz ; zz[1:2] = 3", "The left hand side is not a valid assignment target", ""),
    ("if true { struct Zs(a) }", "'struct' statements can only be present in global scope", "struct"),
    ("fn zf() { module Zm { fn a() -> 1 } }", "'struct' statements can only be present in global scope", "module"),
    ("fn zf(a?, b) -> a", "Non-default argument cannot follow default argument", ""),
    ("fn zf(a = 1, b) -> a", "Non-default argument cannot follow default argument", ""),
    ("fn zf(*a, b) -> a", "Variadic parameter must be the last one in the function", ""),
    ("fn zf(a, *b, *c) -> a", "Variadic parameter must be the last one in the function", ""),
    ("let *zz, *zy = [1]", "Pattern is not allowed to have more than one variadic ('*') term", ""),
    ("let _ = 1", "'let' statement must declare at least one named variable", "_"),
    ("let _, _ = 3", "'let' statement must declare at least one named variable", "_, _"),
    ("let *zz = [1]", "'let' statement cannot consist of a single variadic named variable", "*zz"),
    ("let (zz, zy)", "'let' with a pattern variable must be followed by an expression if the pattern contains nontrivial pattern elements", "(zz, zy)"),
    ("print(_)", "Expected an expression, got '_' instead", "_"),
    ("let zz = 99999999999999999999", "Invalid numeric value: number too large to fit in target type", "99999999999999999999"),
    ("let zz = 0x", "Invalid numeric value: cannot parse integer from empty string", "0x"),
    ("let zz = 0q1", "Invalid numeric prefix: '0q'", "0q"),
    ("let zz = é", "Invalid character: 'é'", "é"),
    ("print('𝕏') $", "Invalid character: '$'", "$"),
    ("[...[1]:3]", "Unrolled expression with '...' not allowed in slice literal", ""),
    ("let zz = nil->zzfield", "Invalid or unknown field name: 'zzfield'", "zzfield"),
    ("let zz ; zz->zzfield = 3", "Invalid or unknown field name: 'zzfield'", "zzfield"),
    ("print((->zzfield))", "Invalid or unknown field name: 'zzfield'", "zzfield"),
    // what follows these is not necessarily understood
    ("!let zz = )", "Expected an expression terminal, got ')' token instead", ")"),
    ("!print(1))", "Expected an expression terminal, got ')' token instead", ")"),
    ("!fn 3() -> 1", "Expected a function name after 'fn' keyword, got integer '3' instead", "3"),
    ("!fn zf( -> 1", "Expected a variable binding, either a name, '_', or pattern, got '->' token instead", "->"),
    ("!print([1, 2 ; 3])", "Expected a ',' or ']' after list literal, got ';' token instead", ";"),
    ("!print({1, 2 ; 3})", "Expected a ',' or '}' after set literal, got ';' token instead", ";"),
    ("!print({1: 2 ; 3})", "Expected a ',' or '}' after dict literal, got ';' token instead", ";"),
    ("!for 3 in [1] {}", "Expected a variable binding, either a name, '_', or pattern, got integer '3' instead", "3"),
    ("!nil->3", "Expected a field name after '->', got integer '3' instead", "3"),
    ("!fn zf() 3", "Expected a function body starting with '{' or `->` after 'fn', got integer '3' instead", "3"),
    ("!while true * print(1) ; {}", "Expected a '{' token, got ';' token instead", ";"),
    ("!print(1 ; 2)", "Expected a ',' or ')' after parenthesis, got ';' token instead", ";"),
    ("!let 3 = 4", "Expected a variable binding, either a name, '_', or pattern, got integer '3' instead", "3"),
    ("!if 1 then 2 ; 3", "Expected a 'else' keyword, got ';' token instead", ";"),
];
/// only where these are not within anything
const WRONG_OUTSIDE: &[(&str, &str, &str)] = &[
    ("break", "Invalid 'break' statement outside of an enclosing loop", "break"),
    ("if true { continue }", "Invalid 'continue' statement outside of an enclosing loop", "continue"),
    ("return 1", "Invalid 'return' statement outside of an enclosing function", "return"),
    ("struct Zs(a, a)", "Duplicate field name: 'a'", ""),
    ("struct Zs(a) { fn a(self) -> 1 }", "Duplicate field name: 'a'", "a"),
    ("self", "Unresolved reference to a 'self' outside of an instance method", "self"),
    ("struct Zs(a) { fn b() -> self }", "Unresolved reference to a 'self' outside of an instance method", "self"),
    ("!module Zm { let a = 1 }", "Expected a function within module body, got 'let' keyword instead", "let"),
    ("!struct 3", "Expected a name after 'struct' keyword, got integer '3' instead", "3"),
    ("!struct Zs(3)", "Expected a field name in struct declaration, got integer '3' instead", "3"),
];

/// A valid program with one mistake at a known place
fn planted(s: &mut Src, cx: &mut Cx) -> Result<(), Failure> {
    let p = Gen::new(s, Cfg::default()).program();
    let at = s.below(p.len() + 1);
    let n = s.below(WRONG.len() + WRONG_OUTSIDE.len());
    let (code, msg, under) = *if n < WRONG.len() { &WRONG[n] } else { &WRONG_OUTSIDE[n - WRONG.len()] };
    let (code, exact) = match code.strip_prefix('!') { Some(c) => (c, false), None => (code, true) };
    let (pre, _) = preamble(s);
    let a = super::prog::print_program(&p[..at], Style::default(), 0).out;
    let b = super::prog::print_program(&p[at..], Style::default(), 0).out;
    let (open, close) = if n >= WRONG.len() { ("", "") } else { *s.pick(&[("", ""), ("if true {\n\n", "\n}"), ("fn zo() {\n", "\n}"), ("fn zo(zp) {\n while zp {\n\n", "\n }\n zp\n}"), ("for zi in [1] {\n  if zi { /*\n*/ } else {\n", "\n }\n}"), ("struct Zo(zx) {\n fn zm(self) {\n", "\n }\n}"), ("let zo = [1, fn() {\n", "\n},\n 2]")]) };
    if open.contains("struct") && at < p.len() { /* any place of the program's outermost level will do */ }
    // `while` after the block of a `do` belongs to it
    if code.starts_with("while") && open.is_empty() && a.trim_end().ends_with('}') { return cx.discard(); }
    let indent = *s.pick(&["", "  ", "\t", "/* é */ "]);
    let before = format!("{}{}\n{}{}", pre, a, open, indent);
    let text = format!("{}{}{}\n{}", before, code, close, b);
    let line = before.matches('\n').count() + 1;
    cx.nontrivial = true;
    cx.label(if exact { "a mistake in a valid program" } else { "a syntax error in a valid program" });
    // (the optimiser reports failing constant operations of the program too)
    let es = match crate::vmrun::compile(&text, false) { Ok(Err(v)) => v, _ => vec![] };
    cx.sample = format!("{}\n---\n{}", text, es.join("\n"));
    let bad = |sig: &str| fail(format!("compile error of a mistake: {}", sig), format!("{}: expected '{}' at line {}\n--- text\n{}\n--- errors\n{}", sig, msg, line, text, es.join("\n")));
    if es.is_empty() { return bad("not reported"); }
    if exact && es.len() != 1 { return bad("more than one error"); }
    let q = check_compile_error(&text, "<test>", &es[0])?;
    if q.msg != msg { return bad("message"); }
    if q.lines != (line, line) { return bad("line"); }
    if !under.is_empty() {
        let col = text.lines().nth(line - 1).unwrap().trim_start_matches(indent).find(under).map(|_| ());
        let start = q.under.chars().take_while(|c| *c != '^').count();
        let u: String = q.quoted[0].chars().skip(start).take(q.under.chars().count() - start).collect();
        if col.is_none() || u != under { return bad("underline"); }
        // there may be several places with that text: it is the last one
        if code.matches(under).count() == 1 && q.quoted[0].chars().take(start).collect::<String>() != format!("{}{}", indent, code.split(under).next().unwrap()) { return bad("place of the underline"); }
    }
    Ok(())
}

const WRONG_EXPRESSION: &[(&str, &str)] = &[
    ("print(zzq + 1)", "Undeclared identifier: 'zzq'"), ("1 + zzq", "Undeclared identifier: 'zzq'"), ("(fn(a) -> [a, zzq])", "Undeclared identifier: 'zzq'"),
    ("(fn() { break })", "Invalid 'break' statement outside of an enclosing loop"), ("print(_)", "Expected an expression, got '_' instead"),
    ("99999999999999999999", "Invalid numeric value: number too large to fit in target type"), ("0q1", "Invalid numeric prefix: '0q'"),
    ("é", "Invalid character: 'é'"), ("nil->zzfield", "Invalid or unknown field name: 'zzfield'"), ("(fn(print) -> 1)", "Name for variable 'print' conflicts with the native function by the same name"),
    ("1 +", "Expected an expression terminal, got end of input instead"), ("[1, 2", "Expected a ',' or ']' after list literal, got end of input instead"), ("print(1", "Expected a ',' or ')' after parenthesis, got end of input instead"),
];

/// Mistakes in texts given to eval, several calls deep
fn evaluated(s: &mut Src, cx: &mut Cx) -> Result<(), Failure> {
    let (code, msg) = *s.pick(WRONG_EXPRESSION);
    let (pre, _) = preamble(s);
    let text = format!("{}{}{}{}", pre, s.pick(&["", "  ", "\t", "/* é */ "]), code, s.pick(&["", "\n", "\n\n", "\n// end", " /* 𝕏 */"]));
    let line = pre.matches('\n').count() + 1;
    let quoted = text.replace('\\', "\\\\").replace('\'', "\\'").replace('\n', "\\n").replace('\t', "\\t").replace('\r', "\\r");
    let (outer_pre, k) = preamble(s);
    let pos = s.below(3);
    let outer = match pos {
        0 => format!("{}eval('{}')\n", outer_pre, quoted),
        1 => format!("{}fn zev(zt) {{\n  eval(zt)\n}}\nzev('{}')", outer_pre, quoted),
        _ => format!("{}fn zev(zt)\n-> map(eval, [zt])\n\nzev('{}')", outer_pre, quoted),
    };
    cx.label("a mistake in text given to eval");
    cx.sample = outer.clone();
    cx.nontrivial = true;
    let opt = s.chance(1, 2);
    let r = crate::vmrun::run(&outer, opt);
    let bad = |sig: &str| fail(format!("compile error within eval: {}", sig), format!("{} (line {})\n--- text\n{}\n--- evaluated by\n{}\n--- result\n{}", sig, line, text, outer, r.show()));
    let crate::vmrun::End::Error(e) = &r.end else { return bad("no error") };
    let Some(e) = e.strip_prefix("Encountered compilation error(s) within 'eval':\n\n") else { return bad("message") };
    let (place, trace, quote) = match pos {
        0 => (k + 1, String::new(), format!("eval('{}')", quoted)),
        1 => (k + 2, format!("  at: `fn zev(zt)` (line {})\n", k + 4), "  eval(zt)".to_string()),
        _ => (k + 2, format!("  at: `fn zev(zt)` (line {})\n", k + 4), "-> map(eval, [zt])".to_string()),
    };
    let tail = format!("\n  at: line {} (<test>)\n{}\n{:>w$} | {}\n", place, trace, place, quote, w = (place + 1).to_string().len());
    let Some(i) = e.rfind(&tail) else { return bad("place of the eval") };
    let q = check_compile_error(&text, "<eval>", &e[..i])?;
    if q.msg != msg { return bad("message of the error"); }
    if q.lines != (line, line) { return bad("line of the error"); }
    Ok(())
}

pub fn compile_errors(s: &mut Src, cx: &mut Cx) -> Result<(), Failure> {
    if s.chance(1, 8) { return evaluated(s, cx); }
    if s.chance(1, 2) { planted(s, cx) } else { any_text(s, cx) }
}

/// Functions which call themselves and each other in runs of any length, until the innermost fails
pub fn deep(s: &mut Src, cx: &mut Cx) -> Result<(), Failure> {
    use crate::model::ast::{Arg, Body, FnDef, Lv, Param, Pat, EK, PK, S, SK, E};
    use crate::model::natives::Nat;
    use crate::model::ops::Op;
    use std::rc::Rc;
    let mut g = Gen::new(s, Cfg::default());
    let mut prog: Vec<S> = vec![];
    let k = 1 + g.s.below(3);
    let mut left = 130i64;
    let param = |n: &str| Param { pat: Pat::Lv(Lv::Var(n.into())), k: PK::Req };
    // the failing operation, or the call of the next function
    for i in 0..k {
        let mut body: Vec<S> = vec![];
        let bottom: E = if i == 0 {
            let a = g.var("n");
            match g.s.below(4) {
                0 => { let z = g.str_lit("é"); g.bin(Op::Sub, z, a) }
                1 => { let z = g.int_lit(7); g.bin(Op::Div, a, z) }
                2 => g.call(a, vec![]),
                _ => { let z = g.int_lit(0); let l = g.list_lit(vec![]); let _ = a; g.e(EK::Index(Box::new(l), Box::new(z))) }
            }
        } else { let n = down(&mut g, &mut left); let n = g.int_lit(n); let f = g.var(&format!("f{}", i - 1)); site(&mut g, f, n) };
        // the sites which are taken, by the remainder of n
        let m = 1 + g.s.weighted(&[3, 1, 1]) as i64;
        let name = format!("f{}", i);
        let rec = |g: &mut Gen| -> E { let (a, b) = (g.var("n"), g.int_lit(1)); let n = g.bin(Op::Sub, a, b); let f = g.var(&name); site(g, f, n) };
        let cond = |g: &mut Gen, o: Op, m: i64, c: i64| -> E { let a = g.var("n"); let a = if m > 1 { let m = g.int_lit(m); g.bin(Op::Mod, a, m) } else { a }; let c = g.int_lit(c); g.bin(o, a, c) };
        let c = cond(&mut g, Op::Lt, 1, 1);
        // a division is only by zero at the bottom
        let bottom = if let EK::Bin(Op::Div, ..) = &bottom.k { let (a, z) = (g.int_lit(7), g.var("n")); g.bin(Op::Div, a, z) } else { bottom };
        if g.s.chance(1, 2) {
            let mut cs = vec![(c, bottom)];
            for j in 1..m { let c = cond(&mut g, Op::Eq, m, j); let e = rec(&mut g); cs.push((c, e)); }
            let e = rec(&mut g);
            let t = g.e(EK::Tern(cs, Box::new(e)));
            if g.s.chance(1, 2) {
                prog.push({ let id = g.uid(); g.st(SK::Fn(Rc::new(FnDef { id, name: name.clone(), params: vec![param("n")], body: Body::Expr(t) }), vec![])) });
                continue;
            }
            body.push(g.st(SK::Expr(t)));
        } else {
            let r = g.st(SK::Return(Some(bottom)));
            body.push(g.st(SK::If(vec![(c, vec![r])], None)));
            for j in 1..m {
                let c = cond(&mut g, Op::Eq, m, j);
                let e = rec(&mut g);
                let r = g.st(SK::Return(Some(e)));
                body.push(g.st(SK::If(vec![(c, vec![r])], None)));
            }
            let e = rec(&mut g);
            // a value after the call: not in tail position
            if g.s.chance(1, 2) {
                body.push(g.st(SK::Expr(e)));
                let z = g.int_lit(1);
                body.push(g.st(SK::Expr(z)));
            } else { body.push(g.st(SK::Expr(e))); }
        }
        let id = g.uid();
        prog.push(g.st(SK::Fn(Rc::new(FnDef { id, name, params: vec![param("n")], body: Body::Block(body) }), vec![])));
    }
    let n = down(&mut g, &mut left);
    let n = g.int_lit(n);
    let f = g.var(&format!("f{}", k - 1));
    let e = site(&mut g, f, n);
    let p = { let p = g.nat(Nat::Print); g.e(EK::Call(Box::new(p), vec![Arg::E(e)])) };
    prog.push(g.st(SK::Expr(p)));
    match super::prog::check(&prog, Style::default(), 0, cx)? {
        super::prog::Verdict::Discard => return cx.discard(),
        super::prog::Verdict::Ok { failed } => { cx.label(if failed { "ends in an error" } else { "ends normally" }); cx.label("runs of calls"); }
    }
    Ok(())
}

fn down(g: &mut Gen, left: &mut i64) -> i64 {
    let n = match g.s.below(3) { 0 => g.s.int(0, 5), 1 => g.s.int(2, 9), _ => g.s.int(0, 60) }.min(*left - 4).max(0);
    *left -= n + 1;
    n
}

/// A call of `f`, in one of the ways to write one
fn site(g: &mut Gen, f: crate::model::ast::E, n: crate::model::ast::E) -> crate::model::ast::E {
    use crate::model::ast::EK;
    use crate::model::natives::Nat;
    use crate::model::ops::Op;
    match g.s.weighted(&[5, 2, 1, 1, 1]) {
        0 => g.call(f, vec![n]),
        1 => g.e(EK::Comp(Box::new(n), Box::new(f))),
        2 => { let c = g.call(f, vec![n]); let z = g.int_lit(1); g.bin(Op::Add, c, z) }
        3 => { let l = g.list_lit(vec![n]); let m = g.native(Nat::Map, vec![f, l]); m }
        _ => { let c = g.call(f, vec![n]); g.list_lit(vec![c]) }
    }
}
