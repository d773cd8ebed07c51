//! C07 (compiler totality) and C27 (syntax highlighting)

use cordy_sys::syntax::{self, BlockingFormatter, Formatter};
use cordy_sys::{compiler, ScanTokenType, SourceView};

use crate::engine::{fail, no_fixed, Cx, Failure, Prop, Src};
use crate::gentext::{self, Kind};
use crate::vmrun::{self, Caught, End};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C07", cases: (2_400_000, 8_000_000), run: c07, fixed: c07_fixed,
            rule: "A case is one source text (character soup, token soup, a loose random derivation of the grammar, or a corpus program after random edits), compiled twice with and without optimisation, then disassembled and run under a step budget if accepted. Non-trivial: distinct text of at least 3 tokens.",
            assumptions: &["programs are at most a few kilobytes and nested at most a few dozen levels deep, so native stack exhaustion by nesting is out of scope", "divergence is judged by a step budget of 3 million compiler look-aheads, far above what any generated text needs"],
        },
        Prop {
            id: "C27", cases: (3_600_000, 8_000_000), run: c27, fixed: no_fixed,
            rule: "A case is a text and a prompt prefix; well-formed cases are built from tokens of known kind separated by blanks and comments, the rest are arbitrary text. Non-trivial: distinct text with at least 2 tokens.",
            assumptions: &["expected token kinds are taken from the documented keyword, type and library tables"],
        },
    ]
}

// ---------------------------------------------------------------- C07

fn check_lines(text: &str, errs: &[String]) -> Result<(), Failure> {
    let lines = text.split('\n').count();
    if errs.is_empty() { return fail("no errors listed", "compilation failed with an empty error list"); }
    for e in errs {
        let at = e.lines().find_map(|l| l.strip_prefix("  at: line "));
        let Some(at) = at else { return fail("error without location", format!("error has no location: {}", e)) };
        let nums: Vec<usize> = at.split(" (").next().unwrap().split(" - ").filter_map(|n| n.parse().ok()).collect();
        if nums.is_empty() || nums.iter().any(|n| *n == 0 || *n > lines) || (nums.len() == 2 && nums[0] >= nums[1]) {
            return fail("error at a line that does not exist", format!("source has {} lines; error: {}", lines, e));
        }
    }
    Ok(())
}

fn total(text: &str, run_fuel: u64) -> Result<bool, Failure> {
    let mut accepted = false;
    for opt in [false, true] {
        let mut outcomes: Vec<Result<Vec<String>, Vec<String>>> = Vec::new();
        for _ in 0..2 {
            match vmrun::compile(text, opt) {
                Err(Caught::Panic(m)) => return fail(vmrun::panic_sig(&m), format!("compiler panicked (optimise={}): {}", opt, m)),
                Err(Caught::Fuel) => return fail("compiler diverged", format!("compilation did not finish (optimise={})", opt)),
                Ok(Err(e)) => { check_lines(text, &e)?; outcomes.push(Err(e)); }
                Ok(Ok(c)) => {
                    match vmrun::catch(|| { let mut d = c.res.disassemble(&c.view, true); d.extend(c.res.disassemble(&c.view, false)); d }) {
                        Ok(d) => {
                            if d.len() != 2 * c.res.code.len() { return fail("disassembly length", "disassembly does not have one line per instruction"); }
                            outcomes.push(Ok(d));
                        }
                        Err(Caught::Panic(m)) => return fail(vmrun::panic_sig(&m), format!("disassembler panicked (optimise={}): {}", opt, m)),
                        Err(Caught::Fuel) => return fail("disassembler diverged", "".to_string()),
                    }
                }
            }
        }
        if outcomes[0] != outcomes[1] { return fail("nondeterministic compile", format!("{:?}\nvs\n{:?}", outcomes[0], outcomes[1])); }
        if outcomes[0].is_ok() {
            accepted = true;
            let r = vmrun::run_any("<test>", text, opt, "", &[], run_fuel);
            if let End::Panic(m) = &r.end {
                return fail(vmrun::panic_sig(m), format!("accepted program made the interpreter fail (optimise={}): {}", opt, m));
            }
        }
    }
    Ok(accepted)
}

fn c07(s: &mut Src, cx: &mut Cx) -> Result<(), Failure> {
    let text = match s.weighted(&[6, 6, 26, 6, 6]) {
        0 => { cx.label("gen:token-soup"); gentext::token_soup(s, 25) }
        1 => { cx.label("gen:chars"); gentext::any_string(s, 40) }
        2 => { cx.label("gen:grammar"); let d = s.below(4) + 1; gentext::loose_program(s, d) }
        3 => { cx.label("gen:corpus-edit"); let base = s.pick(gentext::corpus()).clone(); gentext::mutated(s, base) }
        _ => { cx.label("gen:grammar-edit"); let d = s.below(4) + 1; let base = gentext::loose_program(s, d); gentext::mutated(s, base) }
    };
    if ["read_text", "write_text", "env"].iter().any(|w| text.contains(w)) { return cx.discard(); }
    cx.sample = text.clone();
    cx.nontrivial = text.split_whitespace().count() >= 3;
    if !text.is_ascii() { cx.label("non-ascii"); }
    let ok = total(&text, 20_000)?;
    cx.label(if ok { "accepted" } else { "rejected" });
    Ok(())
}

fn c07_fixed() -> Vec<(String, Result<(), Failure>)> {
    gentext::corpus().iter().map(|t| (t.clone(), total(t, 20_000).map(|_| ()))).collect()
}

// ---------------------------------------------------------------- C27

#[derive(Debug, Clone, PartialEq)]
enum Ev { Begin(ScanTokenType), End(ScanTokenType), Push(char) }

struct Rec(Vec<Ev>);
impl Formatter for Rec {
    fn begin(&mut self, ty: ScanTokenType) { self.0.push(Ev::Begin(ty)); }
    fn end(&mut self, ty: ScanTokenType) { self.0.push(Ev::End(ty)); }
    fn push(&mut self, c: char) { self.0.push(Ev::Push(c)); }
}

/// Checks the structure; returns regions (kind, text, start index in characters)
fn regions(evs: &[Ev], text: &str, blocking: bool) -> Result<Vec<(ScanTokenType, String, usize)>, Failure> {
    let mut out = String::new();
    let mut regs = Vec::new();
    let mut open: Option<(ScanTokenType, usize)> = None;
    let mut n = 0;
    for e in evs {
        match e {
            Ev::Push(c) => { out.push(*c); n += 1; if blocking && *c == '\n' && open.is_some() { return fail("newline inside a region", format!("{:?}", evs)); } }
            Ev::Begin(t) => { if open.is_some() { return fail("nested region", format!("{:?}", evs)); } open = Some((*t, n)); }
            Ev::End(t) => match open.take() {
                Some((t0, at)) if t0 == *t => regs.push((t0, out.chars().skip(at).collect::<String>(), at)),
                _ => return fail("unbalanced region", format!("{:?}", evs)),
            },
        }
    }
    if open.is_some() { return fail("unclosed region", format!("{:?}", evs)); }
    if out != text { return fail("text changed", format!("expected {:?}\nemitted  {:?}", text, out)); }
    Ok(regs)
}

fn kind_of(k: Kind) -> ScanTokenType {
    match k { Kind::Keyword => ScanTokenType::Keyword, Kind::Constant => ScanTokenType::Constant, Kind::Native => ScanTokenType::Native, Kind::Type => ScanTokenType::Type, Kind::Number => ScanTokenType::Number, Kind::Str => ScanTokenType::String, Kind::Syntax => ScanTokenType::Syntax }
}

fn highlight(input: &str, prefix: &str) -> Result<(Vec<Ev>, Vec<Ev>), Failure> {
    crate::engine::trace_flush(&format!("{}\n---\n{}", prefix, input));
    let r = vmrun::catch(|| {
        let mut a = Rec(vec![]);
        syntax::scan(input.to_string(), &prefix.to_string(), &mut a);
        let mut b = BlockingFormatter::new(Rec(vec![]));
        syntax::scan(input.to_string(), &prefix.to_string(), &mut b);
        (a.0, b.fmt.0)
    });
    crate::engine::trace_done();
    match r {
        Ok(v) => Ok(v),
        Err(Caught::Panic(m)) => fail(vmrun::panic_sig(&m), format!("highlighting panicked: {}", m)),
        Err(Caught::Fuel) => fail("diverged", ""),
    }
}

fn blank(c: char) -> bool { matches!(c, ' ' | '\n' | '\t' | '\r') }

/// Comment regions mark comments only: none of them starts with blank text, unless the comment began before the cut
fn comment_regions(regs: &[(ScanTokenType, String, usize)], straddles: bool) -> Result<(), Failure> {
    for (k, t, at) in regs {
        if *k != ScanTokenType::Comment { continue; }
        if t.is_empty() { return fail("empty comment region", format!("{:?}", regs)); }
        if t.chars().next().map_or(false, blank) && !(straddles && *at == 0) { return fail("blank text marked as a comment", format!("{:?} at character {}: {:?}", t, at, regs)); }
        if t.chars().all(blank) && !straddles { return fail("blank text marked as a comment", format!("{:?} at character {}: {:?}", t, at, regs)); }
    }
    Ok(())
}

/// The blocking formatter's regions are the plain regions, cut at each line break
fn blocked(plain: &[(ScanTokenType, String, usize)], block: &[(ScanTokenType, String, usize)]) -> Result<(), Failure> {
    let mut want = Vec::new();
    for (k, t, at) in plain {
        let mut pos = *at;
        for piece in t.split('\n') {
            if !piece.is_empty() { want.push((*k, piece.to_string(), pos)); }
            pos += piece.chars().count() + 1;
        }
    }
    let got: Vec<_> = block.iter().filter(|r| !r.1.is_empty()).cloned().collect();
    if got != want { return fail("blocking regions differ", format!("expected {:?}\ngot      {:?}", want, got)); }
    Ok(())
}

fn c27(s: &mut Src, cx: &mut Cx) -> Result<(), Failure> {
    if s.weighted(&[3, 2]) == 0 {
        // well-formed text: tokens of known kind, with separators; optionally cut into prefix and input at a line break
        cx.label("well-formed");
        let n = s.below(12) + 1;
        let mut text = String::new();
        let mut toks: Vec<(usize, String, ScanTokenType)> = Vec::new();
        let mut breaks = vec![0usize];
        let mut cuts: Vec<(usize, usize)> = Vec::new(); // the comments
        let mut sep = |s: &mut Src, text: &mut String, breaks: &mut Vec<usize>, must: bool| {
            let mut any = !must;
            loop {
                match (s.weighted(&[4, 4, 3, 2, 2, 6]) + 5) % 6 {
                    0 => { text.push(' '); any = true; }
                    1 => { text.push('\n'); any = true; breaks.push(text.chars().count()); }
                    2 => { text.push_str(*s.pick(&["\t", "\r\n", "  "])); any = true; if text.ends_with('\n') { breaks.push(text.chars().count()); } }
                    3 => { let from = text.chars().count(); text.push_str("//"); let n = s.below(6); for _ in 0..n { let c = gentext::any_char(s); if c != '\n' { text.push(c); } } cuts.push((from, text.chars().count())); text.push('\n'); any = true; breaks.push(text.chars().count()); }
                    4 => {
                        let from = text.chars().count();
                        text.push_str("/*"); let n = s.below(6);
                        for _ in 0..n { let c = gentext::any_char(s); if c != '*' && c != '/' { text.push(c); if c == '\n' { breaks.push(text.chars().count()); } } else { text.push(' '); text.push(c); text.push(' '); } }
                        text.push_str(*s.pick(&["*/", " */", "**/"])); any = true; cuts.push((from, text.chars().count()));
                    }
                    _ => { if any { break; } text.push(' '); break; }
                }
            }
        };
        sep(s, &mut text, &mut breaks, false);
        for _ in 0..n {
            let (t, k) = if s.chance(1, 60) { (s.pick(&["read", "read_line", "read_text", "write_text", "env", "argv", "monitor"]).to_string(), Kind::Native) } else { gentext::token(s) };
            let at = text.chars().count();
            toks.push((at, t.clone(), kind_of(k)));
            for (i, c) in t.chars().enumerate() { if c == '\n' { breaks.push(at + i + 1); } }
            text.push_str(&t);
            if t.ends_with('/') { text.push(' '); } // else a comment opener would merge with it
            sep(s, &mut text, &mut breaks, true);
        }
        let cut = if s.chance(1, 2) { *s.pick(&breaks) } else { 0 };
        let prefix: String = text.chars().take(cut).collect();
        let input: String = text.chars().skip(cut).collect();
        cx.sample = if cut > 0 { format!("{}⟪prompt⟫{}", prefix, input) } else { input.clone() };
        cx.nontrivial = toks.len() >= 2;
        if cut > 0 { cx.label("with-prefix"); if !prefix.is_ascii() { cx.label("non-ascii-prefix"); } }
        let (a, b) = highlight(&input, &prefix)?;
        let ra = regions(&a, &input, false)?;
        let rb = regions(&b, &input, true)?;
        blocked(&ra, &rb)?;
        comment_regions(&ra, cuts.iter().any(|(a, b)| *a < cut && cut < *b))?;
        // every token ending after the cut is one region of its kind; comments hold no token text
        let mut want: Vec<(ScanTokenType, String, usize)> = Vec::new();
        for (at, t, k) in &toks {
            let len = t.chars().count();
            if at + len <= cut { continue; }
            let skip = cut.saturating_sub(*at);
            want.push((*k, t.chars().skip(skip).collect(), at.saturating_sub(cut)));
        }
        let got: Vec<_> = ra.iter().filter(|r| r.0 != ScanTokenType::Comment).cloned().collect();
        if got != want { return fail("token regions differ", format!("expected {:?}\ngot      {:?}", want, got)); }
        // all non-blank characters outside tokens are in comment regions
        let mut covered: Vec<bool> = vec![false; input.chars().count()];
        for (_, t, at) in &ra { for i in *at..*at + t.chars().count() { covered[i] = true; } }
        // a comment region holds a comment: it starts where one starts, or where the visible part of one starts
        for (k, t, at) in &ra {
            if *k != ScanTokenType::Comment { continue; }
            let at = at + cut;
            if !cuts.iter().any(|(a, b)| at == *a || (*a < cut && cut <= at && at < *b && (cut..at).all(|i| blank(input.chars().nth(i - cut).unwrap())))) { return fail("region marked as a comment is none", format!("{:?} at character {}: {:?}", t, at - cut, ra)); }
        }
        for (i, c) in input.chars().enumerate() {
            if !covered[i] && !matches!(c, ' ' | '\n' | '\t' | '\r') { return fail("comment text unmarked", format!("character {} {:?} of the input is in no region: {:?}", i, c, ra)); }
        }
        Ok(())
    } else {
        cx.label("arbitrary");
        let full = match s.below(4) { 0 => gentext::any_string(s, 30), 1 => gentext::token_soup(s, 12), 2 => { let d = s.below(3); gentext::loose_program(s, d) } _ => { let base = s.pick(gentext::corpus()).clone(); gentext::mutated(s, base) } };
        let lines: Vec<usize> = std::iter::once(0).chain(full.chars().enumerate().filter(|(_, c)| *c == '\n').map(|(i, _)| i + 1)).collect();
        let cut = if s.chance(1, 2) { *s.pick(&lines) } else { 0 };
        let prefix: String = full.chars().take(cut).collect();
        let input: String = full.chars().skip(cut).collect();
        cx.sample = format!("{}⟪prompt⟫{}", prefix, input);
        cx.nontrivial = full.split_whitespace().count() >= 2;
        if !prefix.is_ascii() { cx.label("non-ascii-prefix"); }
        let (a, b) = highlight(&input, &prefix)?;
        let ra = regions(&a, &input, false)?;
        let rb = regions(&b, &input, true)?;
        blocked(&ra, &rb)?;
        comment_regions(&ra, true)?;
        // regions are the scanner's tokens
        let view = SourceView::new(String::new(), full.clone());
        let toks = compiler::scan(&view);
        let want: Vec<(ScanTokenType, usize, usize)> = toks.iter().filter(|(l, t)| *t != ScanTokenType::Blank && l.end() >= cut).map(|(l, t)| (*t, l.start().max(cut) - cut, l.end() + 1 - cut)).collect();
        let got: Vec<(ScanTokenType, usize, usize)> = ra.iter().filter(|r| r.0 != ScanTokenType::Comment).map(|r| (r.0, r.2, r.2 + r.1.chars().count())).collect();
        if got != want { return fail("token regions differ from the scanner's tokens", format!("expected {:?}\ngot      {:?}", want, got)); }
        Ok(())
    }
}
