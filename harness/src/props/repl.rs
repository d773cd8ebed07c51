//! The interactive mode: histories of inputs against the reference model, which runs the same statements.

use crate::engine::{fail, no_fixed, Cx, Failure, Prop, Src};
use crate::model::ast::*;
use crate::model::gen::{Cfg, Gen, Ty, Var};
use crate::model::interp::{End as MEnd, Interp};
use crate::model::value::is_too_big;
use crate::vmrun::{self, Reply, Session};

use super::prog::{class, print_program};

/// One input, which may have several lines
struct Input { text: String, kind: Kind }
enum Kind { Run(Vec<S>), /** rejected by the compiler */ Bad, /** names which are not declared */ Unknown(Vec<String>), /** nothing but comments */ Blank, /** fails when run */ Fails, Exit }

fn text_of(p: &[S]) -> String {
    let mut r = String::new();
    for (i, s) in p.iter().enumerate() {
        if i > 0 { r.push_str("; "); }
        r.push_str(print_program(std::slice::from_ref(s), Style::default(), 0).out.trim_end_matches('\n'));
    }
    r
}

/// Further line breaks and comments after brackets and commas (which all are in brackets, but those of `let`)
fn spread(text: &str, s: &mut Src) -> String {
    let mut out = String::new();
    let (mut depth, mut quote, mut esc) = (0, None, false);
    for c in text.chars() {
        // a line break within a text
        if esc && quote.is_some() && c == 'n' && s.chance(1, 2) { out.pop(); out.push('\n'); esc = false; continue; }
        out.push(c);
        if let Some(q) = quote {
            if esc { esc = false } else if c == '\\' { esc = true } else if c == q { quote = None }
            continue;
        }
        match c {
            '\'' | '"' => quote = Some(c),
            '(' | '[' | '{' => depth += 1,
            ')' | ']' | '}' => depth -= 1,
            _ => {}
        }
        if depth > 0 && matches!(c, '(' | '[' | '{' | ',') && s.chance(1, 4) {
            match s.below(6) {
                0 => out.push_str(" // more\n"),
                1 => out.push_str("\n\n"),
                2 => out.push_str("\n/* a\n  b */ "),
                _ => out.push('\n'),
            }
        }
    }
    out
}

/// Statements which fail when they are run, with variables, arguments and literals under way
fn bomb(g: &mut Gen) -> Vec<S> {
    let nil = g.e(EK::Nil);
    let one = g.int_lit(1);
    let boom = match g.s.below(8) {
        0 => g.bin(crate::model::ops::Op::Add, one, nil),
        1 => { let l = g.list_lit(vec![]); g.e(EK::Index(Box::new(l), Box::new(one))) }
        2 => g.call(nil, vec![one]),
        _ => { let f = g.var("boom"); g.call(f, vec![one]) }
    };
    let keep = |g: &mut Gen, e: E| { let k = g.var("keep"); let c = g.native(crate::model::natives::Nat::Push, vec![e, k]); g.st(SK::Expr(c)) };
    let count = |g: &mut Gen, m: &str| {
        let id = g.uid();
        let one = g.int_lit(1);
        let a = g.e(EK::OpAssign(Lv::Var(m.into()), AOp::Op(crate::model::ops::Op::Add), Box::new(one)));
        g.e(EK::Lambda(std::rc::Rc::new(FnDef { id, name: "_".into(), params: vec![], body: Body::Expr(a) })))
    };
    let fresh = |g: &mut Gen, e: E| { let m = g.fresh_name("m"); let s = g.st(SK::Let(vec![(vec![Pat::Lv(Lv::Var(m.clone()))], Some(e))])); (m, s) };
    let some = g.s.int(2, 40);
    let some = g.int_lit(some);
    match g.s.below(12) {
        0 => { let (_, s) = fresh(g, boom); vec![s] }
        1 => { let (_, a) = fresh(g, some); let (_, s) = fresh(g, boom); vec![a, s] }
        2 => {
            // a captured variable of a block
            let b = { g.push(false); let (m, a) = fresh(g, some); let f = count(g, &m); let k = keep(g, f); let e = g.st(SK::Expr(boom)); g.pop(); vec![a, k, e] };
            let c = g.e(EK::Bool(true));
            vec![g.st(SK::If(vec![(c, b)], None))]
        }
        3 => {
            // of a loop
            let x = g.fresh_name("i");
            let b = { g.push(false); let xs = g.var(&x); let v = g.bin(crate::model::ops::Op::Mul, xs, some); let (m, a) = fresh(g, v); let f = count(g, &m); let k = keep(g, f); let xs = g.var(&x); let two = g.int_lit(2); let c = g.bin(crate::model::ops::Op::Eq, xs, two); let e = g.st(SK::Expr(boom)); g.pop(); vec![a, k, { let s = g.st(SK::If(vec![(c, vec![e])], None)); s }] };
            let (p, q) = (g.int_lit(1), g.int_lit(2));
            let l = g.list_lit(vec![p, q]);
            vec![g.st(SK::For(vec![Pat::Lv(Lv::Var(x))], l, b, None))]
        }
        4 => {
            // of a function, and its parameter
            let n = g.fresh_name("f");
            let p = g.fresh_name("p");
            let id = g.uid();
            let v = g.var(&p);
            g.push(true);
            let (m, a) = fresh(g, v);
            let f = count(g, &m); let k = keep(g, f);
            let f = count(g, &p); let k2 = keep(g, f);
            g.pop();
            let e = g.st(SK::Expr(boom));
            let def = g.st(SK::Fn(std::rc::Rc::new(FnDef { id, name: n.clone(), params: vec![Param { pat: Pat::Lv(Lv::Var(p)), k: PK::Req }], body: Body::Block(vec![a, k, k2, e]) }), vec![]));
            let f = g.var(&n);
            let c = g.call(f, vec![some]);
            vec![def, g.st(SK::Expr(c))]
        }
        5 => {
            // in a literal in a literal
            let l = match g.s.below(3) { 0 => g.list_lit(vec![some, boom]), 1 => { let (a, b) = (Arg::E(some), Arg::E(boom)); g.e(EK::Set(vec![a, b])) } _ => g.e(EK::Dict(vec![DArg::Pair(some, boom)])) };
            let z = g.int_lit(0);
            let l = g.list_lit(vec![z, l]);
            let (_, s) = fresh(g, l);
            vec![s]
        }
        6 => {
            // among unrolled arguments
            let l = g.list_lit(vec![some]);
            let (i, f) = (g.uid(), g.e(EK::Nat(crate::model::natives::Nat::Print)));
            let mut a = vec![Arg::Unroll(i, l), Arg::E(boom)];
            if g.s.chance(1, 2) { let (i, l) = (g.uid(), g.list_lit(vec![])); a.push(Arg::Unroll(i, l)); }
            let c = g.e(EK::Call(Box::new(f), a));
            vec![g.st(SK::Expr(c))]
        }
        7 => {
            // in a callback
            let id = g.uid();
            let p = g.fresh_name("p");
            let f = g.e(EK::Lambda(std::rc::Rc::new(FnDef { id, name: "_".into(), params: vec![Param { pat: Pat::Lv(Lv::Var(p)), k: PK::Req }], body: Body::Expr(boom) })));
            let l = g.list_lit(vec![some]);
            let n = *g.s.pick(&[crate::model::natives::Nat::Map, crate::model::natives::Nat::Filter, crate::model::natives::Nat::GroupBy, crate::model::natives::Nat::Find]);
            let c = g.native(n, vec![f, l]);
            let (_, s) = fresh(g, c);
            vec![s]
        }
        8 => {
            // in a pattern
            let (a, b) = (g.fresh_name("m"), g.fresh_name("m"));
            let l = g.list_lit(vec![some]);
            vec![g.st(SK::Let(vec![(vec![Pat::Lv(Lv::Var(a)), Pat::Lv(Lv::Var(b))], Some(l))]))]
        }
        9 => {
            let e = if g.s.chance(1, 2) { g.e(EK::Bool(false)) } else { boom };
            vec![g.st(SK::Assert(e, None))]
        }
        10 => {
            // several declarations
            let (a, b, c) = (g.fresh_name("m"), g.fresh_name("m"), g.fresh_name("m"));
            let z = g.int_lit(5);
            let v = |n: String| vec![Pat::Lv(Lv::Var(n))];
            vec![g.st(SK::Let(vec![(v(a), Some(some)), (v(b), Some(boom)), (v(c), Some(z))]))]
        }
        _ => { let x = g.st(SK::Expr(some)); let y = g.st(SK::Expr(boom)); vec![x, y] }
    }
}

const ERRORS: [&str; 9] = ["zz1 + 1", "break", "let q1 = 1, q1 = 2", "fn q2(u, u) -> 1", "let map = 3", "1 + )", "x1 = = 2", "let let = 3", "struct q3(a, a)"];
/// Inputs which end the session
const EXITS: [&str; 12] = ["exit", "exit", "if true { exit }", "for i in [1, 2] { exit }", "fn zq() { exit } ; zq()", "[1] . map(fn(x) -> exit)", "let zq = exit", "[1, exit]", "while true { while true { exit } }", "{ { exit } }", "(fn() -> exit)()", "print(exit)"];
const UNFINISHED: [&str; 6] = ["if true {", "[1, ", "fn q9() {", "q9(", "let q9 = (", "{ 1 : [ 2,"];
const SCAN: [&str; 3] = ["let s1 = ~", "1 $ 2", "0x"];

pub fn c23(s: &mut Src, cx: &mut Cx) -> Result<(), Failure> { session(s, cx, false) }

/// A session of the interactive mode, and the same one of the web console
pub fn session(s: &mut Src, cx: &mut Cx, web: bool) -> Result<(), Failure> {
    let mut web = if web { Some(super::web::Web::new()?) } else { None };
    let cfg = match s.below(4) {
        0 => Cfg { risk: 20, wild: 30, ..Cfg::default() },
        1 => Cfg { closures: 10, loops: 6, ..Cfg::default() },
        2 => Cfg { structs: 6, patterns: 6, assigns: 6, ..Cfg::default() },
        _ => Cfg::default(),
    };
    let mut g = Gen::new(s, cfg);
    let mut m = Interp::new();
    let mut sess = Session::new();
    let mut log = String::new();
    let (mut ran, mut failed, mut bad) = (0, 0, 0);
    let n = 3 + g.s.below(14);
    // some sessions start with nothing
    let bare = g.s.chance(1, 10);
    let mut forgotten: Vec<String> = vec![];
    for step in 0..n {
        g.budget = 25;
        let kind = if bare { *g.s.pick(&[11, 11, 11, 2, 3, 11, 7, 12, 9]) } else if step < 3 { step as i32 - 3 } else { g.s.weighted(&[16, 10, 6, 4, 8, 2, 6, 2, 2, 1, 1, 3, 2, 1]) as i32 };
        let input = match kind {
            -3 => { let t = g.tracer(); one(&mut g, vec![t]) }
            -2 => {
                g.scopes[0].names.push("keep".into());
                let l = g.list_lit(vec![]);
                let s = g.st(SK::Let(vec![(vec![Pat::Lv(Lv::Var("keep".into()))], Some(l))]));
                one(&mut g, vec![s])
            }
            -1 => {
                g.scopes[0].names.push("boom".into());
                let (id, x, nil) = (g.uid(), g.var("x"), g.e(EK::Nil));
                let b = g.bin(crate::model::ops::Op::Sub, nil, x);
                let s = g.st(SK::Fn(std::rc::Rc::new(FnDef { id, name: "boom".into(), params: vec![Param { pat: Pat::Lv(Lv::Var("x".into())), k: PK::Req }], body: Body::Expr(b) }), vec![]));
                one(&mut g, vec![s])
            }
            0 => { let k = 1 + g.s.weighted(&[4, 2, 1]); let p = g.stmts(k, 3); if p.is_empty() { continue; } one(&mut g, p) }
            1 => { let e = g.expr(&Ty::Any, 3); let p = vec![g.st(SK::Expr(e))]; one(&mut g, p) }
            2 => {
                // everything this input declares is forgotten
                let (scopes, structs, fresh) = (g.scopes.clone(), g.structs.clone(), g.fresh);
                let k = g.s.below(3);
                let mut p = if bare { let z = g.fresh_name("w"); let i = g.int_lit(3); vec![g.st(SK::Let(vec![(vec![Pat::Lv(Lv::Var(z))], Some(i))]))] } else { g.stmts(k, 2) };
                if g.s.chance(1, 4) { p.clear(); g.structure(&mut p); }
                let t = text_of(&p);
                let e = if g.s.chance(1, 4) { *g.s.pick(&SCAN) } else { *g.s.pick(&ERRORS) };
                forgotten = g.scopes[0].names.iter().filter(|n| !scopes[0].names.contains(n)).cloned().collect();
                g.scopes = scopes;
                g.structs = structs;
                // the same names may be declared again
                if g.s.chance(1, 2) { g.fresh = fresh; }
                let unfinished = SCAN.contains(&e) == false && g.s.chance(1, 8);
                let text = if unfinished { let u = *g.s.pick(&UNFINISHED); format!("{}; {}", e, u) } else if p.is_empty() { e.to_string() } else if !t.contains('\n') && g.s.chance(1, 2) { format!("{}; {}", e, t) } else { format!("{}; {}", t, e) };
                Input { text, kind: Kind::Bad }
            }
            3 => { let t = *g.s.pick(&["", "   ", "// comment", "/* a */", "/* a\nb */", ";", " ; ;"]); Input { text: t.into(), kind: Kind::Blank } }
            4 => { let p = bomb(&mut g); one(&mut g, p) }
            5 => { if g.structs.len() >= 3 { continue; } let mut p = vec![]; g.structure(&mut p); one(&mut g, p) }
            6 => {
                // the closures kept so far
                let (k, x) = (g.var("keep"), g.fresh_name("k"));
                let f = g.var(&x);
                let c = g.call(f, vec![]);
                let c = g.native(crate::model::natives::Nat::Print, vec![c]);
                let c = g.st(SK::Expr(c));
                let p = vec![g.st(SK::For(vec![Pat::Lv(Lv::Var(x))], k, vec![c], None))];
                one(&mut g, p)
            }
            7 => {
                let t = *g.s.pick(&["1", "[1, 'a', (2, 3)]", "{1: 2, 3: 4}", "'text'", "nil"]);
                let t = g.str_lit(t);
                let e = g.native(crate::model::natives::Nat::Eval, vec![t]);
                let p = vec![g.st(SK::Expr(e))];
                one(&mut g, p)
            }
            8 => { let t = *g.s.pick(&["eval('1 +')", "eval('zz9')", "eval('let a = 1')", "print(...['a'], eval(')'))", "[1, [2, eval('1 + nil')]]", "for i in [1] { let j = i, l = [] ; l . push(fn() -> j += 1) ; eval('\\'') }"]); Input { text: t.into(), kind: Kind::Fails } }
            9 => Input { text: g.s.pick(&EXITS).to_string(), kind: Kind::Exit },
            13 => Input { text: format!("{}{}", g.s.pick(&["print('bye') ; ", "print('a') ; print('b') ; ", "for i in [1, 2] { print(i) } ; ", "if true { print([]) } ; "]), g.s.pick(&EXITS)), kind: Kind::Exit },
            11 => {
                // a new name, and its value
                let z = g.fresh_name("w");
                let i = g.s.int(-3, 9);
                let (e, t) = match g.s.below(4) { 0 => (g.int_lit(i), None), 1 => { let t = *g.s.pick(&["a\n\nb", "\n\n\n", "\n", "// a\n\n/*"]); (g.str_lit(t), if g.s.chance(2, 3) { Some(g.var(&z)) } else { None }) } 2 => { let x = g.int_lit(i); (g.list_lit(vec![x]), None) } _ => (g.int_lit(i), Some(g.var(&z))) };
                let mut p = vec![g.st(SK::Let(vec![(vec![Pat::Lv(Lv::Var(z.clone()))], Some(e))]))];
                if let Some(t) = t { p.push(g.st(SK::Expr(t))); }
                one(&mut g, p)
            }
            12 => {
                // names which do not exist, perhaps as their declaration was rejected
                let mut a: Vec<String> = (0..1 + g.s.below(6)).map(|i| format!("zz{}", i)).collect();
                let known: Vec<String> = g.scopes[0].names.clone();
                if let Some(n) = forgotten.iter().find(|n| !known.contains(n)) { if g.s.chance(2, 3) { a = vec![n.clone()]; } }
                Input { text: a.join("; "), kind: Kind::Unknown(a) }
            }
            _ => { let mut p = vec![]; g.finish(&mut p); if p.is_empty() { continue; } one(&mut g, p) }
        };

        // the model
        let before = m.out.len();
        let want: Want = match &input.kind {
            Kind::Bad => Want::Rejected(vec![]),
            Kind::Unknown(a) => Want::Rejected(a.clone()),
            Kind::Exit => Want::Exit(["bye\n", "a\nb\n", "1\n2\n", "[]\n"].into_iter().zip(["print('bye')", "print('a')", "for i in [1, 2] { print", "if true { print([])"]).find(|(_, p)| input.text.starts_with(p)).map_or(String::new(), |(o, _)| o.to_string())),
            Kind::Fails => Want::Fails,
            Kind::Blank => Want::Out(String::new()),
            Kind::Run(p) => match m.line(p) {
                Ok(v) => {
                    let mut o = m.out[before..].to_string();
                    if let Some(v) = v { o.push_str(&v.str()); o.push('\n'); }
                    if is_too_big() { break; }
                    Want::Out(o)
                }
                Err(MEnd::Err(e)) => Want::Error(m.out[before..].to_string(), e.msg),
                Err(MEnd::Exit) => Want::Exit(m.out[before..].to_string()),
                Err(_) => break,
            },
        };
        ran += 1;

        // the session
        let lines: Vec<&str> = input.text.split('\n').collect();
        let mut got = String::new();
        let mut reply = Reply::Exit { out: String::new() };
        for (i, l) in lines.iter().enumerate() {
            log.push_str(&format!("{} {}\n", if i == 0 { ">>>" } else { "..." }, l));
            reply = sess.line(l);
            if let Some(w) = &mut web { w.same(l, &reply)?; }
            let last = i + 1 == lines.len();
            if let Reply::Ok { out, more } = &reply {
                got.push_str(out);
                log.push_str(out);
                if *more == last || !last && !out.is_empty() {
                    return fail(if last { "wants more" } else { "did not wait for more" }, format!("{}\n--- session\n{}", if last { "a complete input is not run" } else { "an incomplete input is run" }, log));
                }
            }
        }
        let detail = |why: &str, want: &str| format!("{}\n--- session\n{}--- expected of the last input\n{}", why, log, want);
        cx.sample = log.clone();
        match (&reply, &want) {
            (Reply::Panic { msg, .. }, _) => return fail(vmrun::panic_sig(msg), detail(&format!("the interpreter crashed: {}", msg), "")),
            (Reply::Diverged, _) => return fail("diverged", detail("the input did not finish", "")),
            (Reply::Ok { .. }, Want::Out(o)) => if got != *o { return fail("output", detail("wrong output", o)); },
            (Reply::Ok { .. }, Want::Rejected(a)) => {
                bad += 1;
                if a.iter().any(|n| !got.contains(&format!("'{}'", n))) { return fail("not reported", detail("an unknown name is not reported", &a.join(" "))); }
                if !got.contains("\n  at: line ") || !got.contains("(<stdin>)") { return fail("accepted", detail("an invalid input is accepted", "a compile error")); }
            }
            (Reply::Ok { .. }, Want::Fails) => {
                failed += 1;
                if !got.contains("\n  at: line ") || !got.contains("(<stdin>)") && !got.contains("(<eval>)") { return fail("no error", detail("an input which fails is accepted", "an error")); }
            }
            (Reply::Ok { .. }, Want::Error(o, e)) => {
                failed += 1;
                let ok = got.strip_prefix(o.as_str()).is_some_and(|r| class(r) == class(e) && r.contains("\n  at: line ") && r.contains("(<stdin>)"));
                if !ok { return fail("error", detail("wrong output or error", &format!("{}{}\n...", o, e))); }
            }
            (Reply::Exit { out }, Want::Exit(o)) => { if out != o { return fail("output", detail("wrong output", o)); } break; }
            (Reply::Exit { .. }, _) => return fail("exit", detail("the session ended", "")),
            (_, Want::Exit(_)) => return fail("exit", detail("the session goes on after exit", "")),
        }
        // names whose declaration failed
        if let Want::Error(..) = want {
            let gone: Vec<String> = g.scopes[0].names.iter().filter(|n| !m.globals.contains_key(*n)).cloned().collect();
            g.scopes[0].vars.retain(|v: &Var| m.globals.contains_key(&v.name));
            m.dead = gone;
        }
    }
    if ran < 4 && !bare { return cx.discard(); }
    if failed > 0 { cx.label("run-time errors"); }
    if bad > 0 { cx.label("compile errors"); }
    cx.nontrivial = ran >= 6 || bare && ran >= 3;
    Ok(())
}

enum Want { Out(String), Error(String, String), Rejected(Vec<String>), Fails, Exit(String) }

fn one(g: &mut Gen, p: Vec<S>) -> Input {
    let text = text_of(&p);
    let text = if g.s.chance(1, 3) { spread(&text, g.s) } else { text };
    Input { text, kind: Kind::Run(p) }
}

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C23", cases: (800_000, 10_000_000), run: c23, fixed: no_fixed,
        rule: "A case is a history of 3 to 16 inputs to one session of the interactive mode: general statements and expressions, inputs which the compiler rejects after declaring variables, functions and structs, inputs which fail at run time in the middle of declarations, blocks, loops, calls, literals, unrolled arguments and callbacks (leaving captured variables behind), blank and comment inputs, inputs which print before they end the session or fail, calls of all closures kept so far, each on one line or spread over several with comments. Output of every input, the wish for more lines and errors are compared with the reference model, which runs the same statements one after the other. Non-trivial: distinct session of at least 6 inputs.",
        assumptions: &["variables whose own declaration failed are not used afterwards", "of error reports only the kind and the form are compared (C24 compares the rest)"] }]
}
