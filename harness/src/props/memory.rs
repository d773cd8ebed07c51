//! Memory: what a program no longer refers to is released.

use std::cell::Cell;

use crate::engine::{fail, Cx, Failure, Prop, Src};
use crate::heap;
use crate::model::ast::*;
use crate::model::gen::Cfg;
use crate::model::interp::{End as MEnd, Interp};
use crate::model::natives::Nat;
use crate::vmrun::{self, End};

use super::prog::Verdict;

thread_local! { static ON: Cell<u8> = const { Cell::new(0) }; }
/// Whether programs are measured, not compared
pub fn on() -> bool { ON.with(|f| f.get()) > 0 }

/// Blocks left over, and the most in use, when the program is run a second time
fn vm(text: &str, opt: bool) -> Result<Option<(isize, isize)>, Failure> {
    let r = vmrun::run(text, opt);
    if let End::Panic(p) = &r.end { return fail(vmrun::panic_sig(p), format!("the interpreter crashed: {}\n--- program\n{}", p, text)); }
    if !matches!(r.end, End::Return | End::Exit | End::Error(_)) { return Ok(None); }
    drop(r);
    Ok(Some(heap::measure(|| drop(vmrun::run(text, opt)))))
}

fn model(prog: &[S]) -> Option<(isize, isize)> {
    let mut ok = true;
    let n = heap::measure(|| { let mut m = Interp::new(); m.max_steps *= 4; if let MEnd::Unknown(_) | MEnd::Fuel = m.run(prog) { ok = false } });
    if ok { Some(n) } else { None }
}

pub fn check(prog: &[S], w: &Printer, m: &Interp, end: &MEnd, cx: &mut Cx) -> Result<Verdict, Failure> {
    let Some((kept, _)) = model(prog) else { return Ok(Verdict::Discard) };
    if kept != 0 { cx.label("values which refer to each other"); return Ok(Verdict::Discard); }
    for opt in [false, true] {
        let Some((kept, _)) = vm(&w.out, opt)? else { continue };
        if kept != 0 { return fail("not released", format!("{} blocks of memory are not released at the end ({})\n--- program\n{}", kept, if opt { "optimised" } else { "not optimised" }, w.out)); }
    }
    if m.out.lines().count() >= 3 { cx.nontrivial = true; }
    if ON.with(|f| f.get()) == 2 { repeated(prog, cx)?; }
    Ok(Verdict::Ok { failed: matches!(end, MEnd::Err(_)) })
}

/// The program in a loop, which must not need more memory the more often it is repeated
fn repeated(prog: &[S], cx: &mut Cx) -> Result<(), Failure> {
    let mut evals = false;
    walk_stmts(prog, &mut |e| if let EK::Nat(Nat::Eval) = e.k { evals = true });
    if evals { return Ok(()); }
    // functions and types come before the loop, if they keep nothing
    let head = prog.iter().take_while(|s| match &s.k {
        SK::Fn(d, _) => d.params.iter().all(|p| !matches!(p.k, PK::Def(_))),
        SK::Struct(..) | SK::Module(..) | SK::Comment(_) => true,
        _ => false,
    }).count();
    let looped = |n: i64| -> Vec<S> {
        let e = |k| E { id: u32::MAX, k };
        let range = e(EK::Call(Box::new(e(EK::Nat(Nat::Range))), vec![Arg::E(e(EK::Int(n)))]));
        let mut all = prog[..head].to_vec();
        all.push(S { id: u32::MAX, k: SK::For(vec![Pat::Lv(Lv::Var("again".into()))], range, prog[head..].to_vec(), None) });
        all
    };
    let (few, many) = (4, 40);
    let (a, b) = (looped(few), looped(many));
    let (Some(x), Some(y)) = (model(&a), model(&b)) else { return Ok(()) };
    if x.0 != 0 || y.0 != 0 || y.1 - x.1 > 4 { cx.label("keeps what it did before"); return Ok(()); }
    let text = |p: &[S]| super::prog::print_program(p, Style::default(), 0).out;
    let (ta, tb) = (text(&a), text(&b));
    for opt in [false, true] {
        let (Some(x), Some(y)) = (vm(&ta, opt)?, vm(&tb, opt)?) else { return Ok(()) };
        if y.0 != 0 || y.1 - x.1 >= (many - few) as isize / 2 {
            return fail("grows", format!("{} repetitions need at most {} blocks of memory, {} repetitions {}; {} are not released at the end ({})\n--- program\n{}", few, x.1, many, y.1, y.0, if opt { "optimised" } else { "not optimised" }, tb));
        }
    }
    cx.label("repeated");
    Ok(())
}

fn run(s: &mut Src, cx: &mut Cx) -> Result<(), Failure> {
    ON.with(|f| f.set(if s.chance(1, 3) { 2 } else { 1 }));
    let r = match s.below(24) {
        0 => super::calls::run(s, cx),
        1 => super::assign::run(s, cx),
        2 | 19 => super::control::run(s, cx),
        3 => super::structs::records(s, cx),
        4 => super::coll::c14(s, cx),
        5 => super::coll::c15(s, cx),
        6 => super::coll::c13(s, cx),
        7 => super::coll::c22(s, cx),
        8 => super::strs::c16(s, cx),
        9 => super::strs::c17(s, cx),
        10 => super::num::c12(s, cx),
        11 => super::num::c28(s, cx),
        12 | 13 => super::iters::c18(s, cx),
        14 => super::iters::c19(s, cx),
        15 => super::types::c20(s, cx),
        16 => super::stages::run(s, cx),
        17 => super::scope::run(s, cx),
        18 => super::control::run(s, cx),
        20 => super::prog::random(s, cx, Cfg { risk: 30, wild: 20, ..Cfg::default() }),
        _ => super::prog::random(s, cx, Cfg::default()),
    };
    ON.with(|f| f.set(0));
    r
}

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C30", cases: (250_000, 5_000_000), run, fixed: crate::engine::no_fixed,
        rule: "A case is a program of one of the generators of the other properties (general programs, calls, assignments, structs, collections, strings, numbers, iterables, closures, control flow, failing operations), which ends normally, by exit or by an error. Freed memory is overwritten, so that its use shows, and blocks of memory are counted by the allocator of the check: after a run, compilation included, all are released. Every third is also put into a loop of 4 and of 40 turns, of which the longer may not need more blocks at any time than the shorter (by more than half a block a turn). Programs after which the reference model, which counts references too, keeps memory are left out, as are those in which it needs more the longer they go on. Non-trivial: distinct program which prints at least 3 lines.",
        assumptions: &["values which refer to each other in a circle are never released, by design"] }]
}
