//! Strings, formats and regular expressions.

use crate::engine::{Cx, Failure, Src};
use crate::model::ast::*;
use crate::model::natives::Nat;
use crate::model::ops::Op;

use super::vals::{Ints, Vals, K};

const WIDE: &[char] = &['a', 'b', 'c', 'A', 'Z', 'z', ' ', '0', '9', 'é', 'É', 'ß', '€', '日', '𝕏', '_', '-', ',', '\t', '\n', '\r', '"', '\\', '%', 'İ', 'ı', '\u{301}', 'Σ', 'σ', 'ς', '\u{a0}', '\u{3000}', '\u{200b}', 'ǅ', 'ﬁ', '\u{7f}', '\u{1}', '\u{10ffff}', '😀', '\0', '\u{feff}', '\u{85}', '\u{2028}', '\x0b', '\x0c'];
const CMP: [Op; 6] = [Op::Eq, Op::Ne, Op::Lt, Op::Le, Op::Gt, Op::Ge];

fn text(v: &mut Vals) -> E {
    match v.s().weighted(&[4, 5, 1]) {
        0 => v.str(),
        1 => v.arg(K::Str, 0),
        _ => { let (a, b) = (v.arg(K::Str, 0), v.str()); let e = v.bin(Op::Add, a, b); v.e(EK::Paren(Box::new(e))) }
    }
}

fn numeral(v: &mut Vals) -> String {
    let hex = v.chance(1, 2);
    let i = v.int_value();
    let mut s = match v.s().below(4) { 0 => format!("{:x}", i.unsigned_abs()), 1 => format!("{:b}", i.unsigned_abs()), 2 => format!("{:X}", i.unsigned_abs()), _ => i.to_string() };
    if hex && v.chance(1, 4) { s.insert(0, '-'); }
    match v.s().weighted(&[8, 1, 1, 1, 1, 1, 1]) {
        1 => s.push(' '),
        2 => s.insert_str(0, "0x"),
        3 => s.push('_'),
        4 => s.insert_str(0, "000"),
        5 => s.push_str("ffffffffffffffff"),
        6 => s.clear(),
        _ => {}
    }
    s
}

pub fn c16(s: &mut Src, cx: &mut Cx) -> Result<(), Failure> {
    if s.chance(1, 3000) { return super::large::run(s, cx, super::large::TEXTS); }
    let mut v = Vals::new(s);
    v.chars = WIDE;
    v.ints = Ints::Mixed;
    for _ in 0..v.n(1, 3) { let t = v.text(8); let e = v.t(&t); v.hold(K::Str, e); }
    for _ in 0..v.n(4, 12) {
        let s = text(&mut v);
        let e = match v.s().weighted(&[2, 2, 3, 3, 2, 3, 3, 2, 3, 3, 3, 3, 2, 2, 3, 3, 2, 3, 1, 2, 1]) {
            0 => v.nat(Nat::Len, vec![s]),
            1 => {
                // iteration
                let z = v.fresh();
                let l = v.list(vec![]);
                let a = v.let_(&z, l);
                let (x, r) = (v.v("x"), v.v(&z));
                let p = v.nat(Nat::Push, vec![x, r]);
                let p = v.se(p);
                let f = v.g.st(SK::For(vec![Pat::Lv(Lv::Var("x".into()))], s, vec![p], None));
                let r = v.v(&z);
                let o = v.show(vec![r]);
                v.ops.push(vec![a, f, o]);
                continue;
            }
            2 => { let i = v.s().int(-8, 8); let i = v.i(i); v.index(s, i) }
            3 => { let k = v.s().below(3); let b = match k { 0 => v.scalar_value(), 1 => v.any(1), _ => text(&mut v) }; let b = v.paren(b); if v.chance(1, 2) { v.forms_simple(Op::Add, s, b) } else { v.forms_simple(Op::Add, b, s) } }
            4 => { let k = v.s().int(-1, 5); let k = v.i(k); if v.chance(1, 2) { v.bin(Op::Mul, s, k) } else { v.bin(Op::Mul, k, s) } }
            5 => { let b = if v.chance(1, 3) { let i = v.s().int(-4, 4); let i = v.i(i); let t = text(&mut v); v.e(EK::Slice(Box::new(t), Sl { a: Some(Box::new(i)), b: None, c: None })) } else { text(&mut v) }; let o = *v.s().pick(&[Op::In, Op::NotIn]); v.bin(o, b, s) }
            6 => { let b = text(&mut v); let o = *v.s().pick(&CMP); v.bin(o, s, b) }
            7 => { let n = *v.s().pick(&[Nat::Reverse, Nat::List, Nat::Set, Nat::Sort, Nat::Counter, Nat::Min, Nat::Max, Nat::Vector, Nat::Enumerate]); let e = v.nat(n, vec![s]); if n == Nat::Enumerate { v.nat(Nat::List, vec![e]) } else { e } }
            8 => { let n = *v.s().pick(&[Nat::ToUpper, Nat::ToLower]); v.nat(n, vec![s]) }
            9 => { let p = v.s().pick(&["", " ", "\t\n", "\u{3000}", "\r", "\u{200b}", " \u{a0}"]).to_string(); let q = v.s().pick(&["", " ", "\n", "\u{3000}", "\r\n"]).to_string(); let (p, q) = (v.t(&p), v.t(&q)); let e = v.bin(Op::Add, p, s); let e = v.bin(Op::Add, e, q); v.nat(Nat::Trim, vec![e]) }
            10 => {
                let k = *v.s().pick(&[K::List, K::Str, K::Vect, K::Set, K::Range, K::Dict]);
                let l = if k == K::List { let n = v.n(0, 4); let a = (0..n).map(|_| text(&mut v)).collect(); v.list(a) } else { v.value(k, 1) };
                v.nat(Nat::Join, vec![s, l])
            }
            11 => { let p = v.t(""); v.nat(Nat::Split, vec![p, s]) }
            12 => { let i = v.s().int(-8, 8); let i = v.i(i); let c = if v.chance(4, 5) { v.index(s, i) } else { s }; v.nat(Nat::Ord, vec![c]) }
            13 => { let c = *v.s().pick(WIDE) as i64; let c = match v.s().weighted(&[4, 2, 2]) { 0 => c, 1 => *v.s().pick(&[0, -1, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0x10ffff, 0x110000, 1, 127, 128, 255, 256, 0xffff, 0x10000, 1 << 32, (1 << 32) + 65]), _ => v.s().int(1, 0x3000) }; let c = v.i(c); v.nat(Nat::Char, vec![c]) }
            14 => { let n = *v.s().pick(&[Nat::Hex, Nat::Bin]); let i = v.int_value().unsigned_abs().min(crate::model::value::MAX_INT as u64) as i64; let i = v.i(i); let e = v.nat(n, vec![i]); if v.chance(1, 2) { v.nat(n, vec![e]) } else { e } }
            15 => { let n = *v.s().pick(&[Nat::Hex, Nat::Bin, Nat::Int]); let t = numeral(&mut v); let t = v.t(&t); let e = v.nat(n, vec![t]); if n != Nat::Int && v.chance(1, 2) { v.nat(n, vec![e]) } else { e } }
            16 => {
                // ord and char
                let c = v.f(Nat::Ord);
                let l = v.nat(Nat::Map, vec![c, s]);
                if v.chance(1, 2) { l } else { let c = v.f(Nat::Char); let m = v.nat(Nat::Map, vec![c, l]); let t = v.t(""); v.nat(Nat::Join, vec![t, m]) }
            }
            17 => {
                // split and join by a separator
                let sep = v.s().pick(&[",", "-", "é", "ab", "  ", "\n", ""]).to_string();
                let n = v.n(0, 4);
                let a = (0..n).map(|_| text(&mut v)).collect();
                let l = v.list(a);
                let t = v.t(&sep);
                let j = v.nat(Nat::Join, vec![t, l]);
                let t = v.t(&sep);
                let p = v.nat(Nat::Split, vec![t, j]);
                if v.chance(1, 2) { let t = v.t(&sep); v.nat(Nat::Join, vec![t, p]) } else { p }
            }
            18 => { let n = *v.s().pick(&[Nat::ToUpper, Nat::ToLower, Nat::Trim, Nat::Ord, Nat::Hex, Nat::Bin, Nat::Char]); let a = v.any(0); v.nat(n, vec![a]) }
            19 => { let b = text(&mut v); let n = *v.s().pick(&[Nat::IndexOf, Nat::RightIndexOf, Nat::Find]); v.nat(n, vec![b, s]) }
            _ => { let (j, x) = (v.any(0), v.any(1)); let n = *v.s().pick(&[Nat::Join, Nat::Split]); v.nat(n, vec![j, x]) }
        };
        let p = v.show(vec![e]);
        v.ops.push(vec![p]);
    }
    v.run(cx)
}

pub fn c17(s: &mut Src, cx: &mut Cx) -> Result<(), Failure> {
    let mut v = Vals::new(s);
    for _ in 0..v.n(3, 8) {
        let e = if v.chance(1, 2) { format(&mut v) } else { regex(&mut v) };
        let p = v.show(vec![e]);
        v.ops.push(vec![p]);
    }
    v.run(cx)
}

fn format(v: &mut Vals) -> E {
    let mut f = String::new();
    let mut args = Vec::new();
    v.ints = Ints::Mixed;
    v.chars = WIDE;
    for _ in 0..v.n(1, 5) {
        match v.s().weighted(&[4, 1, 8]) {
            0 => { let t = v.text(3).replace('%', "!"); f.push_str(&t); }
            1 => f.push_str("%%"),
            _ => {
                f.push('%');
                let zero = v.chance(1, 3);
                if zero { f.push('0'); }
                if v.chance(1, 2) { let w = match v.s().weighted(&[6, 3, 1]) { 0 => v.s().int(1, 9), 1 => v.s().int(10, 30), _ => v.s().int(60, 140) }; f.push_str(&w.to_string()); }
                let k = *v.s().pick(&['d', 's', 'x', 'b', 'd']);
                f.push(k);
                let a = if v.chance(1, 40) { v.any(0) } else {
                    match k {
                        's' => match v.s().weighted(&[4, 2, 2, 1]) { 0 => v.str(), 1 => v.int(), 2 => v.scalar_value(), _ => v.any(1) },
                        'd' => if v.chance(1, 10) { v.bool() } else { v.int() },
                        _ => { let i = v.int_value(); v.i(i.unsigned_abs().min(crate::model::value::MAX_INT as u64) as i64) }
                    }
                };
                args.push(v.paren(a));
            }
        }
    }
    if v.chance(1, 12) {
        match v.s().below(5) {
            0 => { f.push('%'); }
            1 => { let c = *v.s().pick(&['q', 'f', 'D', '-', '+', ' ', '.', 'é', '0']); f.push('%'); f.push(c); }
            2 => { f.push_str("%d"); }
            3 => { let x = if v.chance(1, 3) { v.e(EK::Nil) } else { v.scalar_value() }; args.push(x); }
            _ => { args.pop(); }
        }
    }
    let t = v.t(&f);
    let a = match args.len() {
        1 if v.chance(2, 3) => args.pop().unwrap(),
        _ if v.chance(1, 30) => { let l = v.list(args); let f = *v.s().pick(&[Nat::Set, Nat::Heap, Nat::Enumerate]); v.nat(f, vec![l]) }
        _ => if v.chance(2, 3) { v.vector(args) } else { v.list(args) },
    };
    v.forms_simple(Op::Mod, t, a)
}

/// A regular expression over `abé 1` and its special characters
fn pattern(v: &mut Vals, d: u32, out: &mut String) {
    match v.s().weighted(&[8, 2, 2, 2 * d, 2 * d, 3 * d, 4 * d, 1]) {
        0 => { let c = *v.s().pick(&['a', 'b', 'é', '1', ' ', '-', 'a', 'b', '\n', '\r', '\t', '\x0c']); out.push(c); }
        1 => out.push('.'),
        2 => { let c = *v.s().pick(&["\\d", "\\w", "\\s", "\\D", "\\W", "\\S", "\\.", "\\n", "\\t", "\\r"]); out.push_str(c); }
        3 => { let c = *v.s().pick(&["[ab]", "[^a]", "[a-c]", "[é1]", "[^ -]", "[0-9]", "[a-zé]"]); out.push_str(c); }
        4 => { let g = *v.s().pick(&["(", "(", "(?:"]); out.push_str(g); pattern(v, d - 1, out); if v.chance(1, 2) { out.push('|'); pattern(v, d - 1, out); } out.push(')'); }
        5 => { pattern(v, d - 1, out); pattern(v, d - 1, out); }
        6 => { pattern(v, 0, out); let q = *v.s().pick(&["*", "+", "?", "*?", "+?", "??", "{2}", "{1,2}", "{2,}", "{0,1}?"]); out.push_str(q); }
        _ => out.push('|'),
    }
}

fn subject(v: &mut Vals) -> E {
    const CS: [char; 13] = ['a', 'b', 'a', 'é', '1', ' ', '-', '\n', '.', '𝕏', '\r', '\t', '\x0c'];
    let n = v.n(0, 8);
    let t: String = (0..n).map(|_| *v.s().pick(&CS)).collect();
    v.t(&t)
}

fn regex(v: &mut Vals) -> E {
    let mut p = String::new();
    if v.chance(1, 8) { p.push('^'); }
    for _ in 0..v.n(1, 3) { pattern(v, 2, &mut p); }
    if v.chance(1, 8) { p.push('$'); }
    if v.chance(1, 40) { p.push(*v.s().pick(&['(', ')', '[', '\\'])); }
    let x = subject(v);
    let pe = v.t(&p);
    match v.s().weighted(&[3, 3, 2, 2, 1, 2, 1]) {
        0 => v.nat(Nat::Search, vec![pe, x]),
        1 => v.nat(Nat::Split, vec![pe, x]),
        2 => { let r = v.s().pick(&["", "x", "<€>", "$0", "[$1]", "$1$0", "$2-", "$3"]).to_string(); let r = v.t(&r); v.nat(Nat::Replace, vec![pe, r, x]) }
        3 => {
            // with a function of the match
            let m = v.v("m");
            let m = v.nat(Nat::Repr, vec![m]);
            let (a, b) = (v.t("<"), v.t(">"));
            let e = v.bin(Op::Add, a, m);
            let e = v.bin(Op::Add, e, b);
            let f = v.lam(&["m"], e);
            v.nat(Nat::Replace, vec![pe, f, x])
        }
        4 => { let f = *v.s().pick(&[Nat::ToUpper, Nat::Str, Nat::Len]); let f = v.f(f); v.nat(Nat::Replace, vec![pe, f, x]) }
        5 => {
            // the pieces between the matches and the matches
            let s = v.nat(Nat::Split, vec![pe, x]);
            let n = v.f(Nat::Len);
            let (a, b) = (v.v("z"), v.v("z"));
            let m = v.nat(Nat::Map, vec![n, b]);
            let r = v.list(vec![a, m]);
            let f = v.lam(&["z"], r);
            v.call(f, vec![s])
        }
        _ => { let a = v.any(0); let n = *v.s().pick(&[Nat::Search, Nat::Split]); if v.chance(1, 2) { v.nat(n, vec![pe, a]) } else { v.nat(n, vec![a, x]) } }
    }
}
