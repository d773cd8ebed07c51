//! Whole programs: the reference model against the virtual machine.

use crate::engine::{fail, no_fixed, Cx, Failure, Prop, Src};
use crate::model::ast::{Printer, Style, S};
use crate::model::gen::{Cfg, Gen};
use crate::model::interp::{End as MEnd, Interp};
use crate::vmrun::{self, End, Run};

pub fn print_program(p: &[S], style: Style, salt: u64) -> Printer {
    let mut w = Printer::new(style);
    w.salt = salt;
    w.stmts(p);
    w
}

/// One program in four is written in another style
pub fn styled(prog: &[S], style: Style, salt: u64) -> Printer { styled_in(prog, style, salt, true) }

pub fn styled_in(prog: &[S], style: Style, salt: u64, lines: bool) -> Printer {
    let w = print_program(prog, style, salt);
    let h = w.out.bytes().fold(14695981039346656037u64, |h, b| (h ^ b as u64).wrapping_mul(1099511628211));
    let plain = super::report::full().is_none();
    match (h >> 20) % 12 {
        0 if plain => print_program(prog, Style { commas: true, ..style }, h),
        1 if plain => print_program(prog, Style { commas: true, tails: true, break_lines: lines, ..style }, h),
        2 if plain => print_program(prog, Style { tails: true, extra: true, ..style }, h),
        _ => w,
    }
}

/// What kind of error a message reports
pub fn class(m: &str) -> String {
    let first = m.lines().next().unwrap_or("");
    match first.split_once(':') {
        Some((c, _)) if c.ends_with("Error") || c == "Assertion Failed" => c.to_string(),
        _ => first.split_whitespace().take(3).collect::<Vec<_>>().join(" "),
    }
}

pub enum Verdict { Discard, Ok { failed: bool } }

/// Compares a run with the model
pub fn agree(text: &str, m: &Interp, end: &MEnd, r: &Run, what: &str, full: bool) -> Result<(), Failure> {
    let show = |e: &MEnd| match e { MEnd::Return => "normal end".to_string(), MEnd::Exit => "exit".into(), MEnd::Err(e) => format!("runtime error: {}", e.msg), _ => "?".into() };
    let detail = |why: &str| format!("{} ({})\n--- program\n{}\n--- expected output\n{}--- expected end: {}\n--- actual\n{}", why, what, text, m.out, show(end), r.show());
    match &r.end {
        End::Panic(p) => return fail(vmrun::panic_sig(p), detail("the interpreter crashed")),
        End::Compile(_) => return fail("rejected", detail("a valid program was rejected")),
        End::Diverged => return fail("diverged", detail("the program did not finish")),
        _ => {}
    }
    if r.out != m.out { return fail("output", detail("wrong output")); }
    match (end, &r.end) {
        (MEnd::Return | MEnd::Exit, End::Return | End::Exit) => Ok(()),
        (MEnd::Err(e), End::Error(report)) => {
            let same = if full { report.starts_with(&format!("{}\n", e.msg)) } else { class(&e.msg) == class(report) };
            if same { Ok(()) } else { fail("error kind", detail("wrong error")) }
        }
        _ => fail("end", detail("wrong end")),
    }
}

/// Whether the program was rejected, only for operations on constants which always fail
pub fn folded(prog: &[S], r: &Run) -> bool {
    let End::Compile(es) = &r.end else { return false };
    let known = crate::model::consts::failures(prog);
    !es.is_empty() && es.iter().all(|e| known.iter().any(|k| e.starts_with(&format!("{}\n", k))))
}

pub fn check(prog: &[S], style: Style, salt: u64, cx: &mut Cx) -> Result<Verdict, Failure> {
    let mut w = match super::report::full() {
        Some(n) if n % 2 == 1 => print_program(prog, Style { break_lines: n % 3 == 0, commas: n % 5 == 0, tails: n % 7 == 0, ..Style::default() }, n),
        _ => styled(prog, style, salt),
    };
    if let Some(n) = super::report::full() { super::report::lay_out(&mut w, n); }
    cx.sample = w.out.clone();
    let mut m = Interp::new();
    let end = m.run(prog);
    if let MEnd::Unknown(_) | MEnd::Fuel = end { return Ok(Verdict::Discard); }
    if super::memory::on() { return super::memory::check(prog, &w, &m, &end, cx); }
    for opt in [false, true] {
        let r = vmrun::run(&w.out, opt);
        if opt && folded(prog, &r) { cx.label("constant operation rejected"); continue; }
        agree(&w.out, &m, &end, &r, if opt { "optimised" } else { "not optimised" }, false)?;
        if let (Some(_), MEnd::Err(e), End::Error(report)) = (super::report::full(), &end, &r.end) { super::report::compare(&w.out, "<test>", e, &w, report, opt)?; }
    }
    if m.out.lines().count() >= 3 { cx.nontrivial = true; }
    Ok(Verdict::Ok { failed: matches!(end, MEnd::Err(_)) })
}

pub fn random(s: &mut Src, cx: &mut Cx, cfg: Cfg) -> Result<(), Failure> {
    let prog = Gen::new(s, cfg).program();
    match check(&prog, Style::default(), 0, cx)? {
        Verdict::Discard => return cx.discard(),
        Verdict::Ok { failed } => if failed { cx.label("ends in an error") } else { cx.label("ends normally") },
    }
    Ok(())
}

fn c02(s: &mut Src, cx: &mut Cx) -> Result<(), Failure> {
    if s.chance(1, 3000) { return super::large::run(s, cx, super::large::LOCALS | super::large::CAPTURES | super::large::NAMES); }
    if s.chance(3, 10) { return super::scope::cells(s, cx); }
    if s.chance(4, 5) { return super::scope::run(s, cx); }
    random(s, cx, Cfg { closures: 10, loops: 6, assigns: 4, ..Cfg::default() })
}

fn c03(s: &mut Src, cx: &mut Cx) -> Result<(), Failure> {
    if s.chance(1, 3000) { return super::large::run(s, cx, super::large::ARGS); }
    if s.chance(3, 10) { return super::stages::run(s, cx); }
    super::calls::run(s, cx)
}

fn c04(s: &mut Src, cx: &mut Cx) -> Result<(), Failure> {
    if s.chance(1, 3000) { return super::large::run(s, cx, super::large::PATTERNS | super::large::MOVES); }
    if s.chance(3, 4) { return super::assign::run(s, cx); }
    random(s, cx, Cfg { assigns: 10, patterns: 8, structs: 3, ..Cfg::default() })
}

fn c05(s: &mut Src, cx: &mut Cx) -> Result<(), Failure> {
    if s.chance(1, 3000) { return super::large::run(s, cx, super::large::STRUCTS); }
    if s.chance(3, 10) { return super::structs::records(s, cx); }
    if s.chance(4, 5) { return super::structs::run(s, cx); }
    random(s, cx, Cfg { structs: 10, ..Cfg::default() })
}

fn c01(s: &mut Src, cx: &mut Cx) -> Result<(), Failure> {
    if s.chance(1, 1500) { return super::large::run(s, cx, super::large::ALL); }
    if s.chance(2, 5) { return super::control::run(s, cx); }
    random(s, cx, Cfg::default())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C01", cases: (560_000, 10_000_000), run: c01, fixed: no_fixed,
            rule: "A case is a random well-scoped, mostly well-typed program with functions, closures, loops, patterns and traced sub-expressions, run by the reference model and by the virtual machine with and without optimisation. Non-trivial: distinct program which prints at least 3 lines.",
            assumptions: UNSPECIFIED },
        Prop { id: "C03", cases: (800_000, 10_000_000), run: c03, fixed: no_fixed,
            rule: "A case is a program which defines functions of random parameter shapes (required, pattern, optional, default, variadic; decorated; methods; module functions), and calls them, native functions, operator functions, sections, partial functions and non-functions with random argument lists, in one or several rounds, in every call style and with unrolled arguments; all bound values and evaluation orders are printed and compared with the reference model. Three tenths give the arguments of functions, methods, operators and library functions in stages, each of which is a value kept, used again, held in collections, or called by a library function with one, two or no arguments; one in 3000 has up to 3000 arguments. Non-trivial: distinct program which ends normally, or prints at least 3 lines before an error.",
            assumptions: UNSPECIFIED },
        Prop { id: "C04", cases: (900_000, 10_000_000), run: c04, fixed: no_fixed,
            rule: "A case is a program over integers, lists, nested lists, a dict and structs (some shared), global or local, which stores through simple, chained, operator, index, field and nested pattern assignments with traced sub-expressions, and destructures values (sometimes of a wrong length) in let, for, parameters and assignments, printing all variables; compared with the reference model. A quarter are general programs heavy in assignments and patterns. Non-trivial: distinct program which runs to its modelled end (general ones: printing at least 3 lines).",
            assumptions: UNSPECIFIED },
        Prop { id: "C05", cases: (600_000, 8_000_000), run: c05, fixed: no_fixed,
            rule: "A case is a program of up to 3 structs and a module with overlapping field and method names, functions and global variables which all refer to each other, whose declarations are then moved to random places before their first use; the original is compared with the reference model, and so is the reordered program. Three tenths make structs of up to 5 fields of anything, and read, write, copy, compare and pass on their fields, methods and constructors in every form, with the right number of arguments or not; one in 3000 has up to 1500 fields, methods or structs. A seventh are general programs with structs. Non-trivial: distinct program which prints at least 3 lines.",
            assumptions: UNSPECIFIED },
        Prop { id: "C06", cases: (800_000, 10_000_000), run: super::opt::run, fixed: no_fixed,
            rule: "A case is a program made of what the optimiser rewrites (constant operators, sections, operator functions, partial calls split over several calls, composition, conditionals on constants, assertions, stores followed by loads, scopes left together, unrolled arguments, exit), with traced sub-expressions and callees, at the top level, in a function or in a closure; or a general program, often with ill-typed operations. It is run with and without optimisation: output, end, error message and trace must be equal; and compared with the reference model. Non-trivial: distinct program which prints at least 3 lines and was not rejected for a constant operation which fails.",
            assumptions: UNSPECIFIED },
        Prop { id: "C09", cases: (300_000, 5_000_000), run: super::prec::run, fixed: no_fixed,
            rule: "A case is a function of integers, booleans and a list which returns an expression of all operators, calls, sections, composition, conditionals, comparison chains and assignments, applied to several argument tuples; it is printed with the parentheses the documented operator table requires, with all parentheses, with random redundant ones, and with those left out around what extends as far as possible; every text is compared with the value of the tree in the reference model. Non-trivial: distinct program whose expression has at least 3 operators and which prints at least 3 values.",
            assumptions: UNSPECIFIED },
        Prop { id: "C10", cases: (1_250_000, 8_000_000), run: super::layout::run, fixed: no_fixed,
            rule: "A case is a general program, whose text is cut into tokens and put together again with random blanks, line breaks, line and block comments, semicolons, or nothing between them, and with every literal spelt in another way, both texts compared with the reference model; or a single integer, imaginary or string literal (a third of them ill-formed or out of range) or comment, compared with its value under a direct reading of the specification. Non-trivial: distinct program which prints at least 3 lines, or distinct literal longer than one character.",
            assumptions: UNSPECIFIED },
        Prop { id: "C11", cases: (800_000, 12_000_000), run: super::num::c11, fixed: no_fixed,
            rule: "A case is a program which applies every operator, in its operator, operator-function, section, composition and assignment forms, to integers (boundary values around powers of two and the 63-bit limits, small ones, random ones) and booleans, given as literals and as variables and nested in other operations, and prints the results; or to an operand of another type. Compared with exact arithmetic in the reference model. Non-trivial: distinct program in which at least 2 operations return values.",
            assumptions: UNSPECIFIED },
        Prop { id: "C12", cases: (800_000, 12_000_000), run: super::num::c12, fixed: no_fixed,
            rule: "A case is a program which applies operators and accessors to complex integers, rationals (with large numerators and denominators), vectors (nested, of different lengths, of texts), and integers and booleans mixed with them, in every form, and prints values and types. Compared with exact arithmetic in the reference model. Non-trivial: distinct program in which at least 2 operations return values.",
            assumptions: UNSPECIFIED },
        Prop { id: "C13", cases: (450_000, 8_000_000), run: super::coll::c13, fixed: no_fixed,
            rule: "A case is a program with 2 to 4 values of a small domain, many of them equal or almost equal but written in another way (construction order, arithmetic, conversions), all of whose pairs are compared with every comparison operator, and which are looked up, counted, grouped, sorted, put in heaps, sets and dicts under one spelling and found under another; a third also with 8 to 60 elements. Compared with the reference model. Non-trivial: distinct program in which at least 2 operations return values.",
            assumptions: UNSPECIFIED },
        Prop { id: "C14", cases: (300_000, 8_000_000), run: super::coll::c14, fixed: no_fixed,
            rule: "A case is a history of 4 to 16 operations on lists, sets, dicts, heaps and vectors, some known under several names or held in others, each of which prints its result, and often the state (a heap is printed by emptying a copy); at the end all states are printed, or an invalid operation ends it. Compared with the reference model. Non-trivial: distinct program in which at least 2 operations return values.",
            assumptions: UNSPECIFIED },
        Prop { id: "C15", cases: (1_200_000, 15_000_000), run: super::coll::c15, fixed: no_fixed,
            rule: "A case is a program which indexes, slices (as an operator, a function and by composition), assigns to and slices again lists, vectors and strings (of multi-byte characters) of 0 to 8, sometimes up to 70, elements with indices, bounds and steps around the ends of the sequence and of the integers, left out, nil or of another type. Compared with the reference model, whose slices follow the Python reference. Non-trivial: distinct program in which at least 2 operations return values.",
            assumptions: UNSPECIFIED },
        Prop { id: "C22", cases: (450_000, 8_000_000), run: super::coll::c22, fixed: no_fixed,
            rule: "A case is a program with a graph of lists, vectors, dicts, structs, sets and heaps, some shared and some cyclic, with aliases, copies, `**` repetitions and conversions of some of them, which are then changed under any name while all are printed; or a function with collections as default arguments, which change; or a memoized function (possibly recursive or with optional parameters), which prints when evaluated, called with repeated and equal arguments. Compared with the reference model. Non-trivial: distinct program in which at least 2 operations return values.",
            assumptions: UNSPECIFIED },
        Prop { id: "C16", cases: (800_000, 12_000_000), run: super::strs::c16, fixed: no_fixed,
            rule: "A case is a program which applies the string functions and operators to texts of up to 8 ASCII and non-ASCII characters (of one to four bytes, combining, with special case mappings, blanks of all kinds), numerals (also ill-formed and out of range) and character codes around the limits, and the inverse of the function to the result. Compared with the reference model. Non-trivial: distinct program in which at least 2 operations return values.",
            assumptions: UNSPECIFIED },
        Prop { id: "C17", cases: (800_000, 12_000_000), run: super::strs::c17, fixed: no_fixed,
            rule: "A case is a program which formats random templates of specifiers with flags and widths with matching arguments (or, one in twelve, too few, too many or ill-formed ones), and searches, splits and replaces random texts with random regular expressions (alternation, groups, classes, greedy and lazy repetition, anchors), with replacements by text, group reference and function. Compared with the reference model, which has its own backtracking matcher. Non-trivial: distinct program in which at least 2 operations return values.",
            assumptions: UNSPECIFIED },
        Prop { id: "C28", cases: (800_000, 12_000_000), run: super::num::c28, fixed: super::num::c28_fixed,
            rule: "A case is a program which applies abs, sqrt (around squares up to the largest integer), gcd, lcm, count_ones and count_zeros (related to each other and to the number of bits), sum, min, max, min=, max=, real, imag, numer and denom to boundary and random numbers, with arguments given one by one, unrolled, or in a list, vector or set; or to arguments outside of their domain. Compared with the mathematical definition in the reference model. Non-trivial: distinct program in which at least 2 operations return values.",
            assumptions: UNSPECIFIED },
        Prop { id: "C18", cases: (600_000, 10_000_000), run: super::iters::c18, fixed: no_fixed,
            rule: "A case is a program which applies 2 to 6 library functions to iterables of all eight kinds (empty, single, with equal elements), in each calling form, with callbacks which are user functions, operators, sections, partial and native functions, fail on an element, print each call, or are no functions of this many arguments; results and afterwards all inputs are printed. Compared with the reference model. Non-trivial: distinct program in which at least 2 operations return values.",
            assumptions: UNSPECIFIED },
        Prop { id: "C19", cases: (1_200_000, 20_000_000), run: super::iters::c19, fixed: no_fixed,
            rule: "A case is a program about one range (bounds small, at both ends of the integers or random; steps of either sign, dividing or not, up to the limits, zero) or one enumeration (of any iterable, nested): length, truth, membership, equality, the first elements, searches which stop early, use as a key, and, if it is short, any library function, also against the same function of the list. Compared with the reference model. Non-trivial: distinct program in which at least 2 operations return values.",
            assumptions: UNSPECIFIED },
        Prop { id: "C20", cases: (900_000, 12_000_000), run: super::types::c20, fixed: no_fixed,
            rule: "A case is a program which tests values of every type (also made in unusual ways: 1i * 1i, a sum of bools, a rational with denominator 1, a memoised function, a partially applied struct type) against every type in every form of `is`, compares types, and applies every conversion with and without default to values of every type and to texts which are, or nearly are, numerals (signs, zeros, out of range, other digits). Compared with the reference model. Non-trivial: distinct program in which at least 2 operations return values.",
            assumptions: UNSPECIFIED },
        Prop { id: "C21", cases: (400_000, 12_000_000), run: super::types::c21, fixed: super::types::c21_fixed,
            rule: "A case is a program which builds nested values (integers up to both limits, complex integers, texts of special and non-ASCII characters, lists, vectors, sets, dicts, ranges, enumerations) and prints whether eval(repr(x)) equals x and has the same type, in several contexts; renders values as text in six ways, including ones which contain themselves, also through enumerations; compares representations of two values; and evaluates random expressions given as text. Compared with the reference model. Non-trivial: distinct program in which at least 2 operations return values.",
            assumptions: UNSPECIFIED },
        Prop { id: "C24", cases: (800_000, 10_000_000), run: c24, fixed: no_fixed,
            rule: "A case is one of: (3/4) a random program, from the general generator with many failing operations or from the generator of one of C02 to C05 and C11 to C28, printed with a random layout (lines broken in the middle of expressions, comments, tabs, wide characters, CRLF), whose whole error report (message, line, stack trace with lines, quoted lines, underline) is compared with the one composed from the reference model's failure and the printed positions, with and without optimisation; (1/8) a valid random program with one of 69 mistakes inserted at a known place, whose only (or first) error must be that mistake at that line; or a mistake in text given to eval; (1/8) arbitrary text (token soup, loosely grammatical text, mutated programs) whose every error must quote existing lines exactly, underline what it names, and move by exactly the number of lines put before it. Non-trivial: distinct program which ran as the model says, or text with errors.", assumptions: UNSPECIFIED },
        Prop { id: "C02", cases: (750_000, 8_000_000), run: c02, fixed: no_fixed,
            rule: "A case is a random program over a handful of names, in which closures capturing variables of every enclosing scope are stored and called later, while loops, blocks and functions are left by break, continue and return (in three of ten the variables hold anything, also nothing at first, and are read and written by closures at any depth, during and after the life of their scope; one in 3000 has up to 3000 variables); it is run by the reference model and by the virtual machine with and without optimisation. Non-trivial: distinct program with at least 2 anonymous functions.",
            assumptions: UNSPECIFIED },
    ]
}

const UNSPECIFIED: &[&str] = &["programs whose meaning the reference leaves open (order of a heap's elements, ties of an unstable sort, more than 150 nested calls) are discarded"];

pub fn c24(s: &mut Src, cx: &mut Cx) -> Result<(), Failure> {
    if s.chance(1, 4) { return super::report::compile_errors(s, cx); }
    let salt = if s.chance(2, 3) { 0 } else { s.draw(1 << 32) };
    super::report::set_full(Some(salt));
    let r = match s.below(2) {
        0 => random(s, cx, Cfg { risk: 30, wild: 20, ..Cfg::default() }),
        _ => match s.below(27) {
            0 | 24 | 25 => super::calls::run(s, cx),
            26 => super::report::deep(s, cx),
            18 | 19 => super::stages::run(s, cx),
            20 => super::control::run(s, cx),
            21 => super::scope::cells(s, cx),
            22 => super::structs::records(s, cx),
            23 => super::prec::run(s, cx),
            1 => super::assign::run(s, cx),
            2 => super::structs::run(s, cx),
            3 => super::num::c11(s, cx),
            4 => super::num::c12(s, cx),
            5 => super::coll::c13(s, cx),
            6 => super::coll::c14(s, cx),
            7 => super::coll::c15(s, cx),
            8 => super::coll::c22(s, cx),
            9 => super::strs::c16(s, cx),
            10 => super::strs::c17(s, cx),
            11 => super::num::c28(s, cx),
            12 => super::iters::c18(s, cx),
            13 => super::iters::c19(s, cx),
            14 => super::types::c20(s, cx),
            15 => super::types::c21(s, cx),
            16 => super::scope::run(s, cx),
            _ => super::opt::run(s, cx),
        }
    };
    super::report::set_full(None);
    r
}
