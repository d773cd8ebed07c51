//! Native modules, through the command line tool, linked to libraries compiled from C.

use std::fmt::Write as _;
use std::path::PathBuf;
use std::process::Command;
use std::sync::OnceLock;

use crate::bin::{self, Dir};
use crate::engine::{fail, fnv, no_fixed, Cx, Failure, Prop, Src};

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C25", cases: (60_000, 3_000_000), run, fixed: no_fixed,
        rule: "A case is a program with 1 to 3 native modules, linked to 1 to 3 of the compiled C libraries (which export the same symbols), declaring functions in any order with required, optional, default and variadic parameters, and up to 14 calls of them: directly, through variables, partially, unrolled, composed with `.`, by map, in functions, and nested. Arguments are nil, booleans, integers of 63 bits, strings of up to 300 characters, and nested lists and vectors; the C side describes exactly what it received, or builds a value from a description. One in three ends with a call which must fail: a value which cannot be passed, too many arguments, a missing link, library, symbol or initialiser, or an error raised in C, by itself or inside a returned value (reported with its exact text). The tool runs it with or without optimisation. Non-trivial: distinct case in which at least 3 calls with arguments succeeded.",
        assumptions: &["gcc compiles the C side as its C standard says", "integers returned by C fit 63 bits"] }]
}

const C: &str = include_str!("ffi.c");
const TAGS: [&str; 3] = ["A", "B", "C"];

/// The directory of the compiled libraries: libA.so, libB.so, libC.so, and libN.so, which has no initialiser
fn libraries() -> &'static Result<PathBuf, String> {
    static LIBS: OnceLock<Result<PathBuf, String>> = OnceLock::new();
    LIBS.get_or_init(|| {
        let header = std::fs::read("/repo/cordy/cordy.h").map_err(|e| e.to_string())?;
        let mut key = header.clone();
        key.extend(C.as_bytes());
        let dir = bin::root().join(format!("target-bin/ffi-{:016x}", fnv(&key)));
        let dir = if dir.is_absolute() { dir } else { std::env::current_dir().map_err(|e| e.to_string())?.join(dir) };
        if dir.join("libN.so").exists() { return Ok(dir) }
        let tmp = bin::root().join(format!("target-bin/ffi-{}", std::process::id()));
        std::fs::create_dir_all(&tmp).map_err(|e| e.to_string())?;
        std::fs::write(tmp.join("cordy.h"), &header).map_err(|e| e.to_string())?;
        std::fs::write(tmp.join("ffi.c"), C).map_err(|e| e.to_string())?;
        std::fs::write(tmp.join("none.c"), "int cordy_none(void) { return 0; }\n").map_err(|e| e.to_string())?;
        for (tag, src) in TAGS.iter().map(|t| (*t, "ffi.c")).chain([("N", "none.c")]) {
            let o = Command::new("gcc").current_dir(&tmp).args(["-shared", "-fPIC", "-O1", "-w", "-o", &format!("lib{}.so", tag), &format!("-DTAG=\"{}\"", tag), src]).output().map_err(|e| format!("gcc: {}", e))?;
            if !o.status.success() { return Err(String::from_utf8_lossy(&o.stderr).into_owned()) }
        }
        let _ = std::fs::rename(&tmp, &dir);
        let _ = std::fs::remove_dir_all(&tmp);
        Ok(dir)
    })
}

#[derive(Clone, PartialEq, Debug)]
enum Fv { Nil, Bool(bool), Int(i64), Str(String), Arr(Vec<Fv>, bool) }

fn quote(t: &str) -> String {
    let mut o = String::from("'");
    for c in t.chars() { match c { '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), '\r' => o.push_str("\\r"), '\\' => o.push_str("\\\\"), '\'' => o.push_str("\\'"), c => o.push(c) } }
    o.push('\'');
    o
}

impl Fv {
    /// As an expression; as vectors if it comes from C
    fn lit(&self, back: bool) -> String {
        match self {
            Fv::Nil => "nil".into(), Fv::Bool(b) => b.to_string(),
            Fv::Int(i) => if *i < 0 { format!("({})", i) } else { i.to_string() },
            Fv::Str(t) => quote(t),
            Fv::Arr(v, list) => {
                let items = v.iter().map(|x| x.lit(back)).collect::<Vec<_>>().join(", ");
                if *list && !back { format!("[{}]", items) } else if v.len() > 1 && v.len() % 2 == 0 { format!("({})", items) } else { format!("vector([{}])", items) }
            }
        }
    }
    fn describe(&self) -> String {
        match self {
            Fv::Nil => "n".into(), Fv::Bool(true) => "t".into(), Fv::Bool(false) => "f".into(),
            Fv::Int(i) => format!("i{};", i),
            Fv::Str(t) => format!("s{}:{}", t.len(), t),
            Fv::Arr(v, _) => format!("[{}]", v.iter().map(|x| x.describe()).collect::<String>()),
        }
    }
    /// A description for C to build it from; some booleans are written without the rest of the union
    fn recipe(&self, s: &mut Src) -> String {
        match self {
            Fv::Bool(b) if s.chance(1, 2) => if *b { "T".into() } else { "F".into() },
            Fv::Arr(v, _) => { let t: String = v.iter().map(|x| x.recipe(s)).collect(); format!("[{}]", t) }
            x => x.describe(),
        }
    }
}

fn value(s: &mut Src, d: u32) -> Fv {
    match s.weighted(if d == 0 { &[2, 2, 4, 5, 0] } else { &[2, 2, 4, 5, 5] }) {
        0 => Fv::Nil,
        1 => Fv::Bool(s.chance(1, 2)),
        2 => Fv::Int(match s.below(5) { 0 => s.int(-5, 5), 1 => s.int(-70000, 70000), 2 => *s.pick(&[(1i64 << 62) - 1, -(1i64 << 62), 1 << 31, -(1i64 << 31), (1 << 31) - 1, 1 << 32, (1 << 32) - 1, 255, 256, -1, -128, 65535, 1 << 61, (1 << 53) + 1]), 3 => (1i64 << s.below(62)) + s.int(-1, 1), _ => s.int(-(1i64 << 62), (1i64 << 62) - 1) }),
        3 => {
            let n = match s.below(6) { 0 => 0, 1 => s.below(4), 2 => s.below(10), 3 => s.below(30), 4 => if s.chance(1, 8) { s.below(5000) } else { s.below(300) }, _ => s.below(12) };
            let alphabet: Vec<char> = match s.below(4) { 0 => "abc".chars().collect(), 1 => "aé日𝕏 ~".chars().collect(), 2 => " \n\t\r\\'\"%;:[]ins0".chars().collect(), _ => "xyzéß".chars().collect() };
            Fv::Str((0..n).map(|_| alphabet[s.below(alphabet.len())]).collect())
        }
        _ => {
            let n = match s.below(6) { 5 => if s.chance(1, 8) && d < 2 { s.below(600) } else { s.below(40) }, _ => s.below(5) };
            let list = s.chance(1, 2);
            Fv::Arr((0..n).map(|_| value(s, d - 1)).collect(), list)
        }
    }
}

/// A declared function: parameters which are required, which have a default (nil for `x?`), and whether it ends with a variadic one
#[derive(Clone)]
struct Func { name: &'static str, required: usize, defaults: Vec<Option<Fv>>, variadic: bool }

impl Func {
    fn params(&self) -> String {
        let mut v: Vec<String> = (0..self.required).map(|i| format!("p{}", i)).collect();
        for (i, d) in self.defaults.iter().enumerate() { v.push(match d { None => format!("o{}?", i), Some(x) => format!("o{} = {}", i, x.lit(false)) }) }
        if self.variadic { v.push("*rest".into()) }
        v.join(", ")
    }
    /// What C receives
    fn receive(&self, a: &[Fv]) -> Vec<Fv> {
        let fixed = self.required + self.defaults.len();
        let mut v: Vec<Fv> = a.iter().take(fixed).cloned().collect();
        while v.len() < fixed { v.push(self.defaults[v.len() - self.required].clone().unwrap_or(Fv::Nil)) }
        if self.variadic { v.push(Fv::Arr(a.iter().skip(fixed).cloned().collect(), false)) }
        v
    }
}

struct Module { name: String, lib: usize, funcs: Vec<Func> }

const NAMES: &[&str] = &["m", "alpha", "Mod2", "m2", "lib_with_a_long_name", "mm", "d0x", "z"];

fn shape(s: &mut Src, name: &'static str) -> Func {
    let required = s.below(4);
    let k = s.below(3);
    let defaults = (0..k).map(|_| if s.chance(1, 2) { None } else { Some(value(s, 1)) }).collect();
    Func { name, required, defaults, variadic: s.chance(1, 3) }
}

fn run(s: &mut Src, cx: &mut Cx) -> Result<(), Failure> {
    let libs = match libraries() { Ok(d) => d, Err(e) => return fail("the C libraries do not compile against cordy.h", e.clone()) };
    // Modules
    let count = 1 + s.below(3);
    let start = s.below(NAMES.len());
    let mut modules: Vec<Module> = Vec::new();
    for i in 0..count {
        let lib = s.below(3);
        let mut pool: Vec<&'static str> = vec!["d0", "d1", "d2", "d3", "d4", "d5", "d", "d10", "echo", "make", "count", "tick", "release", "last", "attempt", "reuse"];
        let n = 1 + s.below(7);
        let mut funcs = Vec::new();
        for _ in 0..n {
            let name = pool.remove(s.below(pool.len()));
            funcs.push(match name {
                "echo" | "make" | "attempt" => Func { name, required: 1, defaults: vec![], variadic: false },
                "tick" => Func { name, required: 0, defaults: vec![], variadic: false },
                "last" | "reuse" => { let mut f = shape(s, name); if f.required + f.defaults.len() == 0 || f.required == 0 { f.required = 1 } f }
                _ => shape(s, name),
            });
        }
        modules.push(Module { name: NAMES[(start + i) % NAMES.len()].into(), lib, funcs });
    }
    let mut text = String::new();
    let mut expected = String::new();
    let mut ticks = [0i64; 3];
    let declare = |text: &mut String, m: &Module, extra: &str| {
        let _ = writeln!(text, "native module {} {{", m.name);
        for f in &m.funcs { let _ = writeln!(text, "    fn {}({})", f.name, f.params()); }
        text.push_str(extra);
        text.push_str("}\n");
    };
    let failing = s.chance(1, 3);
    let kind = if failing { s.below(12) } else { 99 };
    // A function which refers to a module declared later
    if s.chance(1, 4) { let m = &modules[0]; let f = &m.funcs[0]; let _ = writeln!(text, "fn early(*a) -> {}->{}(...a)", m.name, f.name); } else { text.push_str("fn early() -> nil\n"); }
    let early = text.contains("->") && text.contains("...a");
    for (i, m) in modules.iter().enumerate() {
        match s.below(5) { 1 => { let _ = writeln!(text, "let g{} = {}", i, i); } 2 => { let _ = writeln!(text, "struct T{}(a, b) {{ fn d0(x) -> x }}", i); } 3 => { let _ = writeln!(text, "module U{} {{ fn d{}(x) -> 'wrong' }}", i, i); } _ => {} }
        declare(&mut text, m, "");
    }
    let (extra_module, extra_link): (Option<Module>, Option<String>) = match kind {
        5 => (Some(Module { name: "extra".into(), lib: 0, funcs: vec![Func { name: "d0", required: 0, defaults: vec![], variadic: true }] }), None),
        6 => (Some(Module { name: "extra".into(), lib: 0, funcs: vec![Func { name: "d0", required: 0, defaults: vec![], variadic: true }] }), Some("extra=./missing.so".into())),
        7 => (Some(Module { name: "extra".into(), lib: 0, funcs: vec![Func { name: "d0", required: 0, defaults: vec![], variadic: true }] }), Some(format!("extra={}", libs.join("libN.so").display()))),
        8 => (Some(Module { name: "extra".into(), lib: 0, funcs: vec![Func { name: *s.pick(&["missing", "dd", "d00", "D0", "describ"]), required: 0, defaults: vec![], variadic: true }, Func { name: "boom", required: 0, defaults: vec![], variadic: false }] }), Some(format!("extra={}", libs.join("libA.so").display()))),
        4 => (Some(Module { name: "extra".into(), lib: 0, funcs: vec![Func { name: "boom", required: 0, defaults: vec![], variadic: false }] }), Some(format!("extra={}", libs.join("libA.so").display()))),
        9..=11 => (Some(Module { name: "extra".into(), lib: 0, funcs: ["make", "attempt", "boom"].iter().map(|name| Func { name, required: 1, defaults: vec![], variadic: false }).collect() }), Some(format!("extra={}", libs.join("libA.so").display()))),
        _ => (None, None),
    };
    if let Some(m) = &extra_module { declare(&mut text, m, ""); }
    // Calls
    let calls = 1 + s.below(14);
    let mut done = 0;
    for i in 0..calls {
        let m = &modules[s.below(modules.len())];
        let f = &m.funcs[s.below(m.funcs.len())];
        let max = if f.variadic { f.required + f.defaults.len() + 4 } else { f.required + f.defaults.len() };
        let k = f.required + s.below(max - f.required + 1);
        let deep = if s.chance(1, 12) { 6 } else { 2 };
        let k = if f.variadic && s.chance(1, 15) { k + s.below(400) } else { k };
        let mut a: Vec<Fv> = (0..k).map(|i| value(s, if i == 0 { deep } else if k > 20 { 0 } else { 2 })).collect();
        let mut lits: Vec<String> = a.iter().map(|x| x.lit(false)).collect();
        let mut made = None;
        match f.name {
            "make" => { let x = a[0].clone(); lits[0] = quote(&x.recipe(s)); made = Some(x); }
            "attempt" => { a[0] = Fv::Bool(true); lits[0] = "true".into(); }
            _ => {}
        }
        let path = format!("{}->{}", m.name, f.name);
        let all = lits.join(", ");
        // Nested: an argument which is the result of another native call
        if k > 0 && s.chance(1, 5) && f.name != "make" && f.name != "attempt" {
            if let Some(m2) = modules.iter().find(|m| m.funcs.iter().any(|f| f.name == "echo")) {
                let j = s.below(k);
                lits[j] = format!("{}->echo({})", m2.name, lits[j]);
            }
        }
        let listed = lits.join(", ");
        let call = match s.below(9) {
            0 => format!("{}({})", path, listed),
            1 => { let _ = writeln!(text, "let v{} = {}", i, path); format!("v{}({})", i, listed) }
            2 if f.required > 0 => { let j = s.below(f.required); format!("{}({})({})", path, lits[..j].join(", "), lits[j..].join(", ")) }
            3 if k > 0 => { let j = s.below(k); format!("{}({})", path, lits[..j].iter().cloned().chain([format!("...[{}]", lits[j..].join(", "))]).collect::<Vec<_>>().join(", ")) }
            4 if k > 0 && k == f.required => { let l = lits.pop().unwrap(); if lits.is_empty() { format!("({} . {})", l, path) } else { format!("({} . {}({}))", l, path, lits.join(", ")) } }
            5 if k == 1 => format!("([{}] . map({}))[0]", listed, path),
            6 => { let _ = writeln!(text, "fn w{}() {{ let x = {}({})\nreturn x }}", i, path, listed); format!("w{}()", i) }
            7 if early && m.name == modules[0].name && f.name == modules[0].funcs[0].name => format!("early({})", listed),
            8 => { let _ = writeln!(text, "let s{} = [{}, fn(*zz) -> {}(...zz)]", i, path, path); let q = s.below(2); format!("s{}[{}]({})", i, q, listed) }
            _ => format!("{}({})", path, listed),
        };
        let got = f.receive(&a);
        let what = match f.name {
            "echo" => { let _ = writeln!(text, "print({} == {})", call, a[0].lit(true)); "true".to_string() }
            "last" => { let _ = writeln!(text, "print({} == {})", call, got.last().unwrap().lit(true)); "true".to_string() }
            "make" => { let _ = writeln!(text, "print({} == {})", call, made.unwrap().lit(true)); "true".to_string() }
            "count" => { let _ = writeln!(text, "print({} + 1)", call); (got.len() + 1).to_string() }
            "attempt" => { let _ = writeln!(text, "print({})", call); "77".to_string() }
            "tick" => { ticks[m.lib] += 1; let _ = writeln!(text, "print({})", call); ticks[m.lib].to_string() }
            "release" => { let _ = writeln!(text, "print({})", call); got.iter().filter(|x| matches!(x, Fv::Str(_))).count().to_string() }
            "reuse" => { let _ = writeln!(text, "print({})", call); got[0].describe() }
            _ => { let _ = writeln!(text, "print({})", call); format!("{} {} {} {}", TAGS[m.lib], f.name, got.len(), got.iter().map(|x| x.describe()).collect::<String>()) }
        };
        let _ = all;
        expected.push_str(&what);
        expected.push('\n');
        if k > 0 { done += 1; }
    }
    // A call which fails
    let mut failure: Option<&str> = None;
    let mut ending = String::new();
    if failing {
        let m = &modules[s.below(modules.len())];
        let f = &m.funcs[s.below(m.funcs.len())];
        let path = format!("{}->{}", m.name, f.name);
        let fixed = f.required + f.defaults.len();
        match kind {
            0 | 1 if fixed > 0 || f.variadic => {
                let bad = *s.pick(&["1i", "rational(1, 2)", "set([1])", "dict()", "{1: 2}", "heap([1])", "(fn(x) -> x)", "print", "range(3)", "enumerate([])", "'a\0b'", "'\0'", "(1 + 2i)", "int", "memoize(print)", "[:]", "(->d0)", "early", "print(1)"]);
                if bad == "print(1)" || bad == "(->d0)" && !modules.iter().any(|m| m.funcs.iter().any(|f| f.name == "d0")) { cx.label("no failure"); } else {
                    let bad = match s.below(4) { 0 => format!("[1, {}]", bad), 1 => format!("[[], vector([{}, 2])]", bad), _ => bad.to_string() };
                    let mut a: Vec<String> = (0..f.required.max(1)).map(|_| value(s, 1).lit(false)).collect();
                    let j = s.below(a.len());
                    a[j] = bad;
                    let _ = writeln!(text, "print('before')\nprint({}({}))\nprint('after')", path, a.join(", "));
                    expected.push_str("before\n");
                    failure = Some("OSError");
                }
            }
            2 if !f.variadic => {
                let a: Vec<String> = (0..fixed + 1 + s.below(2)).map(|_| value(s, 1).lit(false)).collect();
                let _ = writeln!(text, "print('before')\nprint({}({}))\nprint('after')", path, a.join(", "));
                expected.push_str("before\n");
                failure = Some("Incorrect number of arguments");
            }
            3 if fixed > 0 || f.variadic => {
                // self-containing
                let mut a: Vec<String> = (0..f.required.max(1)).map(|_| value(s, 1).lit(false)).collect();
                let j = s.below(a.len());
                a[j] = match s.below(3) { 0 => "cyc".into(), 1 => "[1, cyc]".into(), _ => "vector([cyc])".into() };
                let _ = writeln!(text, "let cyc = [1]\n{}\nprint('before')\nprint({}({}))\nprint('after')", s.pick(&["cyc . push(cyc)", "cyc . push([2, cyc])", "cyc . push(vector([cyc]))"]), path, a.join(", "));
                expected.push_str("before\n");
                failure = Some("OSError");
            }
            4..=8 => {
                let e = extra_module.as_ref().unwrap();
                let n = e.funcs[if kind == 8 { 0 } else { 0 }].name;
                let _ = writeln!(text, "print('before')\nprint(extra->{}())\nprint('after')", n);
                expected.push_str("before\n");
                failure = Some("OSError");
            }
            9 | 10 => {
                // C returns an error, by itself or as the first one in a value
                let k = s.below(5);
                let message = ["it went wrong", "", "é 日 \"x\"", "During handling of another error: ", "a\n  second line"][k];
                let mut recipe = format!("e{}", k);
                for _ in 0..if s.chance(1, 4) { 0 } else { 1 + s.below(3) } {
                    let before: String = (0..s.below(4)).map(|_| value(s, 1).recipe(s)).collect();
                    let after: String = (0..s.below(4)).map(|_| if s.chance(1, 6) { "e0".into() } else { value(s, 1).recipe(s) }).collect();
                    recipe = format!("[{}{}{}]", before, recipe, after);
                }
                let _ = writeln!(text, "print('before')\nprint(extra->make({}))\nprint('after')", quote(&recipe));
                expected.push_str("before\n");
                failure = Some("OSError: ");
                ending = format!("OSError: {}{}", message, if k == 3 { "" } else { "\n" });
            }
            11 => {
                // a failed assertion or check of a type in C
                let (call, message): (&str, &str) = *s.pick(&[("attempt(false)", "b"), ("attempt(1)", "args[0].ty == TY_BOOL"), ("attempt(nil)", "args[0].ty == TY_BOOL"), ("make(3)", "args[0].ty == TY_STR"), ("make([])", "args[0].ty == TY_STR"), ("boom(3)", "it went wrong\n")]);
                let _ = writeln!(text, "print('before')\nprint(extra->{})\nprint('after')", call);
                expected.push_str("before\n");
                failure = Some("OSError: ");
                ending = format!("OSError: {}{}", message, if message.ends_with('\n') { "" } else { "\n  at: line " });
            }
            _ => cx.label("no failure"),
        }
    }
    // Run
    let dir = Dir::new();
    let file = dir.0.join("p.cor");
    std::fs::write(&file, &text).expect("scratch");
    let mut args: Vec<String> = Vec::new();
    let mut links: Vec<String> = Vec::new();
    for (i, m) in modules.iter().enumerate() {
        let lib = libs.join(format!("lib{}.so", TAGS[m.lib]));
        // its own path, or another name for it
        let name = *s.pick(&["", "", "", "./x.so", "./a=b.so", "./d/é.so", "./d/a b,c=", "./=.so", "./d/-o"]);
        if name.is_empty() { links.push(format!("{}={}", m.name, lib.display())); continue; }
        let at = dir.0.join(&name[2..]);
        let at = at.with_file_name(format!("{}{}", i, at.file_name().unwrap().to_string_lossy()));
        let _ = std::fs::create_dir_all(at.parent().unwrap());
        let _ = std::os::unix::fs::symlink(&lib, &at);
        links.push(format!("{}=./{}", m.name, at.strip_prefix(&dir.0).unwrap().display()));
    }
    links.extend(extra_link);
    if s.chance(1, 2) { links.reverse(); }
    let opt = s.chance(1, 2);
    let at = s.below(links.len() + 1);
    for (i, l) in links.into_iter().enumerate() { if i == at && opt { args.push("-o".into()) } args.push((*s.pick(&["-l", "--link"])).into()); args.push(l); }
    if opt && !args.iter().any(|a| a == "-o") { args.push("-o".into()) }
    args.push("p.cor".into());
    let o = match bin::run(&args, b"", &[], &dir.0) { Ok(o) => o, Err(e) => return fail("harness: the tool does not start", e.to_string()) };
    let show = || format!("{}\n{}\nexpected:\n{}\n{}\ngot:\n{}", args.join(" "), text, expected, failure.unwrap_or("(success)"), o.show());
    if let Some(c) = o.crash() { return fail(format!("the tool fails: {}", crate::vmrun::panic_sig(c.lines().next().unwrap_or(""))), show()); }
    if o.stdout != expected.as_bytes() { return fail("the calls have other results", show()); }
    let e = o.errors();
    match failure {
        None => if !e.is_empty() { return fail("an error is reported", show()) },
        Some(f) => if !e.starts_with(f) || !e.starts_with(&ending) || !e.contains("  at: ") { return fail("the expected error is not reported", show()) },
    }
    cx.label(if failure.is_some() { "ends with an error" } else { "all succeed" });
    cx.label(if opt { "optimised" } else { "not optimised" });
    if early { cx.label("late bound module"); }
    if modules.len() > 1 { cx.label("several modules"); }
    cx.weight = calls as u64;
    cx.sample = text;
    cx.nontrivial = done >= 3;
    Ok(())
}
