//! C29: the web console, against the interactive mode, the scanner and the tokens its inputs are made of.

use std::collections::BTreeMap;

use cordy_sys::syntax::{self, BlockingFormatter, Formatter};
use cordy_sys::ScanTokenType;

use crate::engine::{fail, no_fixed, Cx, Failure, Prop, Src};
use crate::gentext;
use crate::model::value::V;
use crate::vmrun::{self, Caught, Reply, Session};

/// The console, and the lines of the input which is not complete yet
pub struct Web { prefix: String, pub log: String }

impl Web {
    pub fn new() -> Result<Web, Failure> {
        vmrun::install_hook();
        // the console's own panic hook is installed once, so this goes first
        static ONCE: std::sync::Once = std::sync::Once::new();
        ONCE.call_once(|| { let h = std::panic::take_hook(); cordy_web::load(); std::panic::set_hook(h); });
        let mut w = Web { prefix: String::new(), log: String::new() };
        w.load()?;
        Ok(w)
    }

    pub fn load(&mut self) -> Result<(), Failure> {
        self.prefix.clear();
        self.log.push_str("(load)\n");
        match vmrun::catch(|| { cordy_web::load(); cordy_web::prompt() }) {
            Ok(p) if p == ">>> " => Ok(()),
            Ok(p) => fail("prompt", format!("the prompt after loading is {:?}", p)),
            Err(Caught::Panic(m)) => fail(vmrun::panic_sig(&m), m),
            Err(Caught::Fuel) => fail("diverged", ""),
        }
    }

    /// One line: what was printed without the last line break, whether more is wanted, or that it ended
    pub fn line(&mut self, line: &str) -> Reply {
        self.log.push_str(&format!("{} {}\n", if self.prefix.is_empty() { ">>>" } else { "..." }, line));
        crate::engine::trace_flush(line);
        cordy_sys::verif::set_fuel(vmrun::RUN_FUEL);
        let r = vmrun::catch(|| cordy_web::exec(line.to_string()));
        cordy_sys::verif::set_fuel(u64::MAX);
        crate::engine::trace_done();
        match r {
            Ok(r) => {
                self.log.push_str(&format!("{}\n", r.lines));
                if r.exit { return Reply::Exit { out: r.lines }; }
                let more = cordy_web::prompt() == "... ";
                if more { self.prefix.push_str(line); self.prefix.push('\n'); } else { self.prefix.clear(); }
                Reply::Ok { out: r.lines, more }
            }
            Err(Caught::Panic(msg)) => Reply::Panic { out: String::new(), msg },
            Err(Caught::Fuel) => Reply::Diverged,
        }
    }

    /// The same line as the session has had, whose reply is `want`
    pub fn same(&mut self, line: &str, want: &Reply) -> Result<(), Failure> {
        let got = self.line(line);
        let strip = |s: &String| { let mut s = s.clone(); if s.ends_with('\n') { s.pop(); if s.ends_with('\r') { s.pop(); } } s };
        let want = match want {
            Reply::Ok { out, more } => Reply::Ok { out: strip(out), more: *more },
            Reply::Exit { out } => Reply::Exit { out: strip(out) },
            w => w.clone(),
        };
        if got != want { return fail("console", format!("the console's reply differs from that of the session\n--- console\n{}--- its reply\n{:?}\n--- the session's\n{:?}", self.log, got, want)); }
        Ok(())
    }

    /// The highlighted form of a further line
    pub fn scan(&self, line: &str) -> Result<String, Failure> {
        crate::engine::trace_flush(&format!("{}\n---\n{}", self.prefix, line));
        let r = vmrun::catch(|| cordy_web::scan(line.to_string()));
        crate::engine::trace_done();
        match r {
            Ok(v) => Ok(v),
            Err(Caught::Panic(m)) => fail(vmrun::panic_sig(&m), format!("{}\nhighlighting panicked: {}", self.log, m)),
            Err(Caught::Fuel) => fail("diverged", ""),
        }
    }
}

/// What the console shows of a highlighted text: pieces with their style, which is '' for plain ones
fn decode(t: &str) -> Result<Vec<(String, String)>, String> {
    let mut out: Vec<(String, String)> = vec![(String::new(), String::new())];
    let mut style: Option<String> = None;
    let mut i = 0;
    let mut put = |style: &Option<String>, c: char, new: bool| {
        let s = style.clone().unwrap_or_default();
        if new || out.last().unwrap().0 != s { out.push((s, String::new())); }
        out.last_mut().unwrap().1.push(c);
    };
    let mut begun = false;
    while i < t.len() {
        let r = &t[i..];
        let c = r.chars().next().unwrap();
        if r.starts_with("[[") {
            if style.is_some() { return Err("a style within a style".into()); }
            let Some(e) = r.find(']') else { return Err("a style without an end".into()) };
            let s = &r[2..e];
            if s.matches(';').count() != 2 || s.contains(['[', '\n', ' ']) { return Err(format!("no style: {:?}", s)); }
            style = Some(s.to_string());
            begun = true;
            i += e + 1;
            continue;
        }
        match c {
            ']' => { if style.take().is_none() { return Err("an end without a style".into()); } begun = true; i += 1; continue; }
            '[' | '\\' => return Err(format!("a {:?} which is not escaped", c)),
            '\n' if style.is_some() => return Err("a line break within a style".into()),
            _ => {}
        }
        let mut hit = false;
        for (e, c) in [("&#91;", '['), ("&#92;", '\\'), ("&#93;", ']')] {
            if r.starts_with(e) { put(&style, c, begun); i += e.len(); hit = true; break; }
        }
        if !hit { put(&style, c, begun); i += c.len_utf8(); }
        begun = false;
    }
    if style.is_some() { return Err("a style which does not end".into()); }
    out.retain(|x| !x.1.is_empty());
    Ok(out)
}

struct Rec(Vec<(ScanTokenType, String)>, Option<ScanTokenType>, bool);
impl Formatter for Rec {
    fn begin(&mut self, ty: ScanTokenType) { self.1 = Some(ty); self.2 = true; }
    fn end(&mut self, _: ScanTokenType) { self.1 = None; self.2 = true; }
    fn push(&mut self, c: char) {
        let k = self.1.unwrap_or(ScanTokenType::Blank);
        if self.2 || self.0.is_empty() { self.0.push((k, String::new())); }
        self.2 = false;
        self.0.last_mut().unwrap().1.push(c);
    }
}

fn plain(k: ScanTokenType) -> bool { matches!(k, ScanTokenType::Blank | ScanTokenType::Syntax) }

thread_local! { static STYLES: BTreeMap<String, String> = styles(); }

/// The style of each kind, as single words are shown
fn styles() -> BTreeMap<String, String> {
    let mut r = BTreeMap::new();
    for (k, t) in [("Keyword", "let"), ("Constant", "nil"), ("Native", "map"), ("Type", "int"), ("Number", "1"), ("String", "'a'"), ("Comment", "// a")] {
        let s = vmrun::catch(|| cordy_web::scan(t.to_string())).ok().and_then(|s| decode(&s).ok()).and_then(|d| d.first().map(|x| x.0.clone())).unwrap_or_default();
        r.insert(k.to_string(), s);
    }
    r
}

/// Highlights a line the console has not run yet
fn highlight(w: &Web, line: &str) -> Result<(), Failure> {
    let got = w.scan(line)?;
    let detail = |why: String, d: &dyn std::fmt::Debug| format!("{}\n--- console\n{}--- entered\n{:?}\n--- shown\n{:?}\n--- expected\n{:?}", why, w.log, line, got, d);
    let d = match decode(&got) { Ok(d) => d, Err(e) => return fail("markup", detail(e, &"")) };
    let shown: String = d.iter().map(|x| x.1.as_str()).collect();
    let undone = line.replace("&#91;", "[").replace("&#92;", "\\").replace("&#93;", "]");
    let undo = |t: &str| t.replace("&#91;", "[").replace("&#92;", "\\").replace("&#93;", "]");
    if undo(&shown) != undone { return fail("text", detail("the text is not the one entered".into(), &line)); }
    if undone != line { return Ok(()); } // it looks like an escape, so the pieces cannot be told
    let mut b = BlockingFormatter::new(Rec(vec![], None, false));
    if vmrun::catch(|| syntax::scan(line.to_string(), &w.prefix, &mut b)).is_err() { return Ok(()); } // C27
    let want: Vec<(String, String)> = STYLES.with(|st| {
        let mut v: Vec<(String, String, bool)> = vec![];
        for (k, t) in b.fmt.0 {
            let p = plain(k);
            let s = if p { String::new() } else { st[&format!("{:?}", k)].clone() };
            match v.last_mut() { Some(l) if p && l.2 => l.1.push_str(&t), _ => v.push((s, t, p)) }
        }
        v.into_iter().map(|x| (x.0, x.1)).collect()
    });
    // adjacent plain pieces are one
    let mut join: Vec<(String, String)> = vec![];
    for x in d { match join.last_mut() { Some(l) if l.0.is_empty() && x.0.is_empty() => l.1.push_str(&x.1), _ => join.push(x) } }
    if join != want { return fail("styles", detail("the styles are not those of the tokens".into(), &want)); }
    Ok(())
}

fn scanning(s: &mut Src, cx: &mut Cx) -> Result<(), Failure> {
    cx.label("highlighting");
    let mut w = Web::new()?;
    STYLES.with(|st| {
        let all: std::collections::BTreeSet<&String> = st.values().collect();
        if all.len() != st.len() || st.values().any(|v| v.is_empty()) { return fail("same style", format!("the kinds do not have styles of their own: {:?}", st)); }
        Ok(())
    })?;
    // lines which are not complete
    let mut sess = Session::new();
    for _ in 0..s.below(3) {
        let l = *s.pick(&["[1, ", "if true {", "print(", "[ // an [é]", "[ /* the", "['a\\'", "(\"ü ", "{", "[1,\t'x',", ""]);
        let r = sess.line(l);
        w.same(l, &r)?;
        if !matches!(r, Reply::Ok { .. }) { return cx.discard(); }
    }
    if !w.prefix.is_empty() { cx.label("highlighting after incomplete lines"); }
    for _ in 0..1 + s.below(3) {
        let text = match s.weighted(&[8, 1, 1, 2, 2]) {
            0 => {
                let mut t = String::new();
                for _ in 0..1 + s.below(10) {
                    t.push_str(&gentext::token(s).0);
                    t.push_str(*s.pick(&[" ", "\t", " ", "/* [a] \\ */", " // ]x[\n", "\n", "  ", "\r\n", "]", "["]));
                }
                t
            }
            1 => gentext::any_string(s, 30),
            2 => s.pick(&["", "&#91;", "'&#93;'", "\\", "[[b;#b5f;]x]", "]", "/*", "'", " "]).to_string(),
            3 => { let d = s.below(3); gentext::loose_program(s, d) }
            _ => { let base = s.pick(gentext::corpus()).clone(); gentext::mutated(s, base) }
        };
        cx.sample.push_str(&format!("{}⟪prompt⟫{}\n", w.prefix, text));
        if text.split_whitespace().count() >= 2 { cx.nontrivial = true; }
        highlight(&w, &text)?;
    }
    Ok(())
}

/// Calls of functions of native modules, which the console only reports
fn natives(s: &mut Src, cx: &mut Cx) -> Result<(), Failure> {
    cx.label("native functions");
    let mut w = Web::new()?;
    let mods = ["m", "lib", "js_1"];
    let funs = ["f", "go", "x2"];
    let nm = 1 + s.below(3);
    let mut sig: Vec<Vec<(usize, bool)>> = vec![];
    for m in &mods[..nm] {
        let fs: Vec<(usize, bool)> = funs[..1 + s.below(3)].iter().map(|_| (s.below(4), s.chance(1, 4))).collect();
        let decl: Vec<String> = fs.iter().enumerate().map(|(i, (n, v))| {
            let mut p: Vec<String> = (0..*n).map(|k| format!("p{}", k)).collect();
            if *v { p.push("*r".into()); }
            format!("fn {}({})", funs[i], p.join(", "))
        }).collect();
        let text = format!("native module {} {{ {} }}", m, decl.join(if s.chance(1, 2) { " " } else { "\n" }));
        let (mut out, n) = (Vec::new(), text.split('\n').count());
        for (i, l) in text.split('\n').enumerate() { out.push((w.line(l), i + 1 < n)); }
        for (r, more) in out { if r != (Reply::Ok { out: String::new(), more }) { return fail("declaration", format!("{}\n{:?}", w.log, r)); } }
        sig.push(fs);
    }
    let mut called = 0;
    // what was declared before loading again is gone
    if s.chance(1, 4) {
        let r = w.line("let before = 1, list_1 = [");
        if r != (Reply::Ok { out: String::new(), more: true }) { return fail("incomplete", format!("{}\n{:?}", w.log, r)); }
        if s.chance(1, 2) { w.line("2]"); }
        w.load()?;
        let r = w.line("before");
        if !matches!(&r, Reply::Ok { out, more: false } if out.contains("'before'") && out.contains("at: line 1 (<stdin>)")) { return fail("loading", format!("a variable is there after loading again\n{}\n{:?}", w.log, r)); }
        let r = w.line(&format!("native module m {{ {} }}", sig[0].iter().enumerate().map(|(i, (n, v))| format!("fn {}({})", funs[i], (0..*n).map(|k| format!("p{}", k)).chain(v.then(|| "*r".to_string())).collect::<Vec<_>>().join(", "))).collect::<Vec<_>>().join(" ")));
        if r != (Reply::Ok { out: String::new(), more: false }) { return fail("loading", format!("a module cannot be declared after loading again\n{}\n{:?}", w.log, r)); }
        sig.truncate(1);
    }
    let nm = sig.len();
    for _ in 0..1 + s.below(6) {
        // several in one input, whose results are printed or not
        let mut want = String::new();
        let mut stmts: Vec<String> = vec![];
        for _ in 0..1 + s.below(3) {
            let m = s.below(nm);
            let f = s.below(sig[m].len());
            let (n, v) = sig[m][f];
            let k = n + if v { s.below(4) } else { 0 };
            let args: Vec<V> = (0..k).map(|_| value(s, 2)).collect();
            // what variadic functions receive at the end is a vector
            let seen: Vec<V> = if v { let (a, b) = args.split_at(n); let mut a = a.to_vec(); a.push(V::Vector(std::rc::Rc::new(std::cell::RefCell::new(b.to_vec())))); a } else { args.clone() };
            let seen = V::Vector(std::rc::Rc::new(std::cell::RefCell::new(seen)));
            want.push_str(&format!("called native function '{}->{}{}'\n", mods[m], funs[f], seen.repr()));
            let call = format!("{}->{}({})", mods[m], funs[f], args.iter().map(source).collect::<Vec<_>>().join(", "));
            called += 1;
            match s.below(3) {
                0 => stmts.push(call),
                1 => { want.push_str("nil\n"); stmts.push(format!("print({})", call)); }
                _ => { want.push_str("[nil]\n"); stmts.push(format!("[{}] . print", call)); }
            }
        }
        // the value of the last one
        if s.chance(1, 2) { stmts.push("7".into()); want.push_str("7\n"); } else { want.push_str("nil\n"); }
        want.pop();
        let text = stmts.join(" ; ");
        let r = w.line(&text);
        if r != (Reply::Ok { out: want.clone(), more: false }) { return fail("native call", format!("{}\n--- reply\n{:?}\n--- expected\n{:?}", w.log, r, want)); }
    }
    cx.sample = w.log.clone();
    cx.nontrivial = called >= 3;
    Ok(())
}

fn value(s: &mut Src, d: usize) -> V {
    let list = |v| std::rc::Rc::new(std::cell::RefCell::new(v));
    match s.below(if d == 0 { 4 } else { 6 }) {
        0 => V::Int(s.int(-9, 99)),
        1 => V::Str(s.pick(&["", "a", "[x]", "it's", "é\n", "a longer text"]).to_string().into()),
        2 => V::Bool(s.chance(1, 2)),
        3 => V::Nil,
        4 => { let n = s.below(3); V::List(list((0..n).map(|_| value(s, d - 1)).collect())) }
        _ => { let n = 1 + s.below(3); V::Vector(list((0..n).map(|_| value(s, d - 1)).collect())) }
    }
}

fn source(v: &V) -> String {
    let all = |v: &Vec<V>| v.iter().map(source).collect::<Vec<_>>().join(", ");
    match v {
        V::List(l) => format!("[{}]", all(&l.borrow())),
        V::Vector(l) => format!("({},)", all(&l.borrow())),
        V::Str(t) => format!("\"{}\"", t.replace('\n', "\\n")),
        v => v.repr(),
    }
}

fn c29(s: &mut Src, cx: &mut Cx) -> Result<(), Failure> {
    match s.weighted(&[2, 3, 1]) {
        0 => { cx.label("session"); super::repl::session(s, cx, true) }
        1 => scanning(s, cx),
        _ => natives(s, cx),
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C29", cases: (300_000, 4_000_000), run: c29, fixed: no_fixed,
        rule: "A case is one of three histories of calls of the web console's functions, run natively. Sessions (the histories of C23: statements, expressions, rejected, failing, incomplete and ending inputs) are given line by line to the console and to a session of the interactive mode, whose output was already compared with the reference model; replies without their last line break, the end of the session and the prompt have to agree. Highlighting: after 0 to 2 incomplete lines, up to 3 texts (tokens with blanks, brackets, backslashes and comments between them, token and character soups, programs after random edits) are highlighted; the terminal's markup is decoded, and text and styled pieces are compared with the text entered and the regions of the scanner given what was entered before; kinds must have distinct styles. Native functions: 1 to 3 native modules, perhaps a new load, and up to 18 calls with generated values, whose reports and results are compared with the expected text. Non-trivial: distinct session of at least 6 inputs, text of at least 2 words, or at least 3 native calls.",
        assumptions: &["the functions are called natively, not through WebAssembly", "whether the scanner's regions are right is decided by C27, and whether the interactive mode's replies are right by C23", "texts which look like the markup's own escapes are compared only after undoing them"] }]
}
