//! The command line tool: options, input and output, disassembly, formatting and sessions.

use std::collections::{BTreeMap, BTreeSet};
use std::ffi::OsString;
use std::fmt::Write as _;
use std::os::unix::ffi::OsStringExt;
use std::path::Path;

use cordy_sys::syntax::{self, Formatter};
use cordy_sys::ScanTokenType;

use crate::bin::{self, Dir, Out};
use crate::engine::{fail, no_fixed, Cx, Failure, Prop, Src};
use crate::gentext;
use crate::vmrun::{self, Caught, End, Reply, Session};

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C26", cases: (40_000, 2_000_000), run, fixed: no_fixed,
        rule: "A case is one start of the tool in a directory of its own, with generated options (also conflicting, repeated and incomplete ones), a file, program arguments, environment and standard input. One half of the programs are built from print, read, read_line, read_text, write_text, argv and env statements over texts of all characters, line endings and invalid UTF-8, with known output and files, ending normally, by exit, by an error, or not compiling; the others are corpus programs, random programs and arbitrary texts, compared with the library run in this process. Formatting is parsed back, disassembly and sessions are compared with the library. The directory is compared afterwards. Non-trivial: distinct case in which the tool got as far as its file or session, and printed at least 3 lines or wrote a file.",
        assumptions: &["the tool is run on Linux", "the library itself, as used by the tool, is decided by the other properties", "exit codes are not specified"] }]
}

fn quote(t: &str) -> String {
    let mut o = String::from("'");
    for c in t.chars() { match c { '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), '\r' => o.push_str("\\r"), '\\' => o.push_str("\\\\"), '\'' => o.push_str("\\'"), c => o.push(c) } }
    o.push('\'');
    o
}

fn words(s: &mut Src) -> String {
    let n = match s.below(6) { 0 => 0, 1 => 1, 2 => s.below(5), 3 => s.below(12), 4 => s.below(40), _ => s.below(200) };
    let alphabet: Vec<char> = match s.below(6) { 0 => "abc".chars().collect(), 1 => "aé日𝕏 ~\u{feff}\u{a0}".chars().collect(), 2 => " \n\t\r\\'\"%;:[]<&>".chars().collect(), 3 => "\r\n".chars().collect(), 4 => "a\n\n\r \u{0b}\u{0c}\u{85}\u{2028}".chars().collect(), _ => "xyz\u{1}\u{1b}\u{7f}\0{}$".chars().collect() };
    (0..n).map(|_| alphabet[s.below(alphabet.len())]).collect()
}

/// Bytes which mostly are text
fn bytes(s: &mut Src) -> Vec<u8> {
    let mut b = words(s).into_bytes();
    if s.chance(1, 12) { let at = s.below(b.len() + 1); b.insert(at, *s.pick(&[0xff, 0x80, 0xc3, 0xed, 0xf8])); }
    b
}

struct World { files: BTreeMap<String, Vec<u8>>, dirs: BTreeSet<String>, stdin: Vec<u8>, pos: usize, args: Vec<String>, env: BTreeMap<String, String> }

/// What a program does: its output, and the kind of error it ends with
struct Want { out: String, error: Option<&'static str>, compile: bool }

const PATHS: &[&str] = &["f0", "f1.txt", "sub/f2", "./f1.txt", "sub/../f0", "f é.txt", "sub/new", "none/f", "sub", "f3", "", "f0\0", "sub/"];

fn norm(p: &str) -> Option<String> {
    Some(match p { "./f1.txt" => "f1.txt".into(), "sub/../f0" => "f0".into(), "none/f" | "" | "sub" | "sub/" | "f0\0" => return None, p => p.to_string() })
}

fn decode(b: &[u8]) -> Option<String> { String::from_utf8(b.to_vec()).ok() }

fn show_value(w: &mut Want, text: &mut String, v: &str, t: &str, s: &mut Src) {
    match s.below(4) {
        0 => { let _ = writeln!(text, "print({})", v); w.out.push_str(t); w.out.push('\n'); }
        1 => { let _ = writeln!(text, "print({} . map(ord))", v); let l: Vec<String> = t.chars().map(|c| (c as u32).to_string()).collect(); let _ = writeln!(w.out, "[{}]", l.join(", ")); }
        2 => { let _ = writeln!(text, "print(len({}), {} == {})", v, v, quote(t)); let _ = writeln!(w.out, "{} true", t.chars().count()); }
        _ => { let _ = writeln!(text, "print('<' + {} + '>')", v); let _ = writeln!(w.out, "<{}>", t); }
    }
}

/// Builds a program, and what it does to the world
fn io_program(s: &mut Src, w: &mut World, cx: &mut Cx) -> (String, Want) {
    let mut text = String::new();
    let mut want = Want { out: String::new(), error: None, compile: false };
    let n = 1 + s.below(10);
    let mut vars = 0;
    for _ in 0..n {
        match s.below(11) {
            0 => {
                let k = s.below(4);
                let mut lits = Vec::new();
                let mut shown = Vec::new();
                for _ in 0..k {
                    match s.below(4) {
                        0 => { let i = s.int(-1000, 1000); lits.push(format!("({})", i)); shown.push(i.to_string()); }
                        1 => { lits.push("nil".into()); shown.push("nil".into()); }
                        2 => { lits.push("[1, true]".into()); shown.push("[1, true]".into()); }
                        _ => { let t = words(s); lits.push(quote(&t)); shown.push(t); }
                    }
                }
                let call = if k == 1 && s.chance(1, 3) { format!("{} . print", lits[0]) } else { format!("print({})", lits.join(", ")) };
                let _ = writeln!(text, "{}", call);
                want.out.push_str(&shown.join(" "));
                want.out.push('\n');
            }
            1 | 2 => {
                let p = *s.pick(PATHS);
                let t = words(s);
                let call = match s.below(3) { 0 => format!("write_text({}, {})", quote(p), quote(&t)), 1 => format!("({} . write_text({}))", quote(&t), quote(p)), _ => format!("write_text({})({})", quote(p), quote(&t)) };
                let _ = writeln!(text, "print({})", call);
                match norm(p) {
                    Some(p) => { w.files.insert(p, t.into_bytes()); want.out.push_str("nil\n"); cx.label("writes a file"); }
                    None => { want.error = Some("IOError"); cx.label("fails to write"); return (text, want) }
                }
            }
            3 | 4 => {
                // Read what is there, mostly
                let there: Vec<String> = w.files.keys().cloned().collect();
                let p = if !there.is_empty() && !s.chance(1, 8) { there[s.below(there.len())].clone() } else { s.pick(PATHS).to_string() };
                let v = format!("v{}", vars);
                vars += 1;
                let _ = writeln!(text, "let {} = read_text({})", v, quote(&p));
                match norm(&p).and_then(|p| w.files.get(&p)).and_then(|b| decode(b)) {
                    Some(t) => { let t = t.replace("\r\n", "\n"); show_value(&mut want, &mut text, &v, &t, s); cx.label("reads a file"); }
                    None => { let _ = writeln!(text, "print('not here')"); want.error = Some("IOError"); cx.label("fails to read"); return (text, want) }
                }
            }
            5 => {
                // A copy
                let there: Vec<String> = w.files.keys().cloned().collect();
                if there.is_empty() { continue }
                let p = there[s.below(there.len())].clone();
                let Some(q) = norm(*s.pick(PATHS)) else { continue };
                let extra = words(s);
                let _ = writeln!(text, "write_text({}, read_text({}) + {})", quote(&q), quote(&p), quote(&extra));
                match decode(&w.files[&p]) {
                    Some(t) => { w.files.insert(q, (t.replace("\r\n", "\n") + &extra).into_bytes()); cx.label("writes a file"); }
                    None => { want.error = Some("IOError"); return (text, want) }
                }
            }
            6 | 7 => {
                let v = format!("v{}", vars);
                vars += 1;
                let _ = writeln!(text, "let {} = read_line()", v);
                let rest = &w.stdin[w.pos..];
                let end = rest.iter().position(|b| *b == b'\n').map_or(rest.len(), |i| i + 1);
                let line = rest[..end].to_vec();
                w.pos += end;
                match decode(&line) {
                    Some(t) => {
                        let t = t.strip_suffix("\r\n").or(t.strip_suffix('\n')).unwrap_or(&t).to_string();
                        show_value(&mut want, &mut text, &v, &t, s);
                        cx.label(if end == 0 { "reads past the end" } else { "reads a line" });
                    }
                    None => { want.error = Some("IOError"); cx.label("fails to read a line"); return (text, want) }
                }
            }
            8 => {
                let v = format!("v{}", vars);
                vars += 1;
                let _ = writeln!(text, "let {} = read()", v);
                let rest = w.stdin[w.pos..].to_vec();
                w.pos = w.stdin.len();
                match decode(&rest) {
                    Some(t) => { let t = t.replace("\r\n", "\n"); show_value(&mut want, &mut text, &v, &t, s); cx.label("reads the rest"); }
                    None => { want.error = Some("IOError"); cx.label("fails to read the rest"); return (text, want) }
                }
            }
            9 => {
                match s.below(3) {
                    0 => { let l: Vec<String> = w.args.iter().map(|a| quote(a)).collect(); let _ = writeln!(text, "print(argv() == [{}], len(argv()), argv() is list)", l.join(", ")); let _ = writeln!(want.out, "true {} true", w.args.len()); }
                    1 => { let _ = writeln!(text, "for a in argv() {{ print(a) }}"); for a in &w.args { want.out.push_str(a); want.out.push('\n'); } }
                    _ => {
                        let i = s.int(-3, 3);
                        let n = w.args.len() as i64;
                        let _ = writeln!(text, "print(argv()[{}])", i);
                        if i >= n || i < -n { want.error = Some("Index"); cx.label("argument out of bounds"); return (text, want) }
                        let _ = writeln!(want.out, "{}", w.args[(if i < 0 { i + n } else { i }) as usize]);
                    }
                }
                cx.label("arguments");
            }
            _ => {
                match s.below(4) {
                    0 => { let _ = writeln!(text, "print(len(env()))"); let _ = writeln!(want.out, "{}", w.env.len()); }
                    1 => { let l: Vec<String> = w.env.iter().map(|(k, v)| format!("{}: {}", quote(k), quote(v))).collect(); let _ = writeln!(text, "print(env() == {})", if l.is_empty() { "dict()".to_string() } else { format!("{{{}}}", l.join(", ")) }); want.out.push_str("true\n"); }
                    _ => {
                        let keys: Vec<String> = w.env.keys().cloned().collect();
                        let k = if keys.is_empty() || s.chance(1, 4) { s.pick(&["K", "NONE", "A=B", "", "é", "BAD", "K\0"]).to_string() } else { keys[s.below(keys.len())].clone() };
                        let _ = writeln!(text, "print(env({}))", quote(&k));
                        let _ = writeln!(want.out, "{}", w.env.get(&k).map_or("nil", |v| v));
                    }
                }
                cx.label("environment");
            }
        }
    }
    match s.below(8) {
        0 => { let _ = writeln!(text, "exit\nprint('after')\nwrite_text('f0', 'after')"); cx.label("exits"); }
        1 => { let (t, e) = *s.pick(&[("1 / 0", "Compile"), ("assert 1 == 2", "Assertion Failed"), ("[1][2]", "Index"), ("'a' . write_text(1)", "TypeError"), ("read_text(nil)", "TypeError"), ("write_text('f0', [])", "TypeError"), ("env(1)", "TypeError"), ("read_text([])", "TypeError"), ("write_text('f0', nil)", "TypeError")]);
               if e != "Compile" { let _ = writeln!(text, "{}\nprint('after')\nwrite_text('f0', 'after')", t); want.error = Some(e); cx.label("fails"); } }
        2 => { let _ = writeln!(text, "{}", s.pick(&["print(undeclared_name)", "print('a", "let v = (", "}", "let q = 1\nlet q = 2", "break", "fn", "@"])); want.compile = true; cx.label("does not compile"); }
        _ => {}
    }
    (text, want)
}

// ---------------------------------------------------------------- Options

#[derive(Clone, PartialEq, Debug)]
enum Mode { Default, Help, Version, Disassembly, Format }

#[derive(Clone, Debug)]
struct Options { mode: Mode, optimize: bool, no_numbers: bool, no_style: bool, no: BTreeSet<String>, links: BTreeMap<String, String>, file: Option<String>, args: Vec<String> }

const KINDS: [&str; 8] = ["keyword", "constant", "native", "type", "number", "string", "syntax", "comment"];

/// What the options mean
fn parse(tokens: &[String]) -> Result<Options, String> {
    let mut o = Options { mode: Mode::Default, optimize: false, no_numbers: false, no_style: false, no: BTreeSet::new(), links: BTreeMap::new(), file: None, args: vec![] };
    let mut i = 0;
    while i < tokens.len() {
        let t = tokens[i].as_str();
        i += 1;
        let mode = match t {
            "-h" | "--help" => Mode::Help, "-v" | "--version" => Mode::Version, "-d" | "--disassembly" => Mode::Disassembly, "-f" | "--format" => Mode::Format,
            "-o" | "--optimize" => { o.optimize = true; continue }
            "--no-line-numbers" => { o.no_numbers = true; continue }
            "--format-no-style" => { o.no_style = true; continue }
            "-l" | "--link" => {
                if i == tokens.len() { return Err("Missing argument after --link".into()) }
                let t = &tokens[i];
                i += 1;
                let Some(at) = t.find('=') else { return Err(format!("Missing '=' in --link argument {}", t)) };
                if o.links.insert(t[..at].into(), t[at + 1..].into()).is_some() { return Err(format!("Duplicate --link for module '{}'", &t[..at])) }
                continue
            }
            t if t.starts_with("--format-no=") => {
                for k in t["--format-no=".len()..].split(',') {
                    if !KINDS.contains(&k) { return Err(format!("Unrecognized argument to --format-no={}", k)) }
                    o.no.insert(k.into());
                }
                continue
            }
            t => { o.file = Some(t.into()); o.args = tokens[i..].to_vec(); break }
        };
        if o.mode != Mode::Default { return Err("Must only specify one of --help, --version, --disassembly, or --format".into()) }
        o.mode = mode;
    }
    Ok(o)
}

fn option(s: &mut Src, out: &mut Vec<String>) {
    match s.weighted(&[8, 4, 6, 6, 3, 6, 4, 1, 1, 1]) {
        0 => out.push((*s.pick(&["-o", "--optimize"])).into()),
        1 => out.push((*s.pick(&["-d", "--disassembly"])).into()),
        2 => out.push((*s.pick(&["-f", "--format"])).into()),
        3 => { let n = 1 + if s.chance(1, 4) { s.below(12) } else { s.below(3) }; let l: Vec<&str> = (0..n).map(|_| *s.pick(&KINDS)).collect(); out.push(format!("--format-no={}", l.join(","))) }
        4 => out.push("--format-no-style".into()),
        5 => out.push("--no-line-numbers".into()),
        6 => { out.push((*s.pick(&["-l", "--link"])).into()); out.push((*s.pick(&["m=lib", "m=other", "n=./x.so", "k=a=b", "=", "é=z"])).into()) }
        7 => out.push((*s.pick(&["-h", "--help", "-v", "--version"])).into()),
        8 => { out.push((*s.pick(&["-l", "--link"])).into()); if s.chance(1, 2) { out.push((*s.pick(&["mlib", "", "-o"])).into()) } }
        _ => out.push((*s.pick(&["--format-no=", "--format-no=keywords", "--format-no=number,", "--format-no=number string", "--format-no", "-x", "--Format", "-", "--", "-df", "-O"])).into()),
    }
}

fn argument(s: &mut Src) -> String {
    match s.below(4) { 0 => (*s.pick(&["-o", "--help", "-d", "p.cor", "a b", "", "--", "é𝕏", "1"])).to_string(), _ => words(s).replace('\0', "0") }
}

// ---------------------------------------------------------------- Formatting

struct Rec { out: Vec<(char, Option<ScanTokenType>)>, now: Option<ScanTokenType> }
impl Formatter for Rec {
    fn begin(&mut self, ty: ScanTokenType) { self.now = Some(ty); }
    fn end(&mut self, _: ScanTokenType) { self.now = None; }
    fn push(&mut self, c: char) { self.out.push((c, self.now)); }
}

fn kind(t: ScanTokenType) -> Option<&'static str> {
    Some(match t { ScanTokenType::Keyword => "keyword", ScanTokenType::Constant => "constant", ScanTokenType::Native => "native", ScanTokenType::Type => "type", ScanTokenType::Number => "number", ScanTokenType::String => "string", ScanTokenType::Syntax => "syntax", ScanTokenType::Comment => "comment", ScanTokenType::Blank => return None })
}

/// The characters of a formatted text, with their classes
fn unmark(h: &str) -> Result<Vec<(char, Option<String>)>, String> {
    let mut out = Vec::new();
    let mut open: Option<String> = None;
    let mut rest = h;
    while let Some(c) = rest.chars().next() {
        match c {
            '<' => {
                let Some(e) = rest.find('>') else { return Err("a tag does not end".into()) };
                let tag = &rest[1..e];
                rest = &rest[e + 1..];
                if tag == "/span" { if open.take().is_none() { return Err("a mark ends which did not begin".into()) } }
                else if let Some(k) = tag.strip_prefix("span class=\"cordy-").and_then(|t| t.strip_suffix('"')) {
                    if open.is_some() { return Err("marks are nested".into()) }
                    open = Some(k.to_string());
                } else { return Err(format!("unknown tag {}", tag)) }
                continue;
            }
            '>' | '"' | '\'' => return Err(format!("{:?} is not escaped", c)),
            '&' => {
                let Some(e) = rest.find(';') else { return Err("& is not escaped".into()) };
                let c = match &rest[..e] { "&lt" => '<', "&gt" => '>', "&quot" => '"', "&#39" => '\'', "&amp" => '&', _ => return Err("& is not escaped".into()) };
                out.push((c, open.clone()));
                rest = &rest[e + 1..];
                continue;
            }
            c => out.push((c, if c == '\n' { None } else { open.clone() })),
        }
        if c == '\n' && open.is_some() { return Err("a mark extends over several lines".into()) }
        rest = &rest[c.len_utf8()..];
    }
    if open.is_some() { return Err("a mark does not end".into()) }
    Ok(out)
}

fn formatted(text: &str, o: &Options, out: &str) -> Result<(), String> {
    let mut body = out;
    if !o.no_style {
        let Some(e) = body.find("</style>\n") else { return Err("the colours are missing".into()) };
        if !body.starts_with("<style>") { return Err("the colours are missing".into()) }
        for k in KINDS.iter().filter(|k| **k != "syntax") { if !body[..e].contains(&format!("span.cordy-{}", k)) { return Err(format!("there is no colour for {}", k)) } }
        body = body[e + "</style>\n".len()..].trim_start_matches('\n');
    }
    let Some(h) = body.strip_prefix("<code class=\"cordy\"><pre>").and_then(|b| b.strip_suffix("</pre></code>\n")) else { return Err("the frame is missing".into()) };
    let got = unmark(h)?;
    let mut rec = Rec { out: vec![], now: None };
    match vmrun::catch(|| { syntax::scan(text.to_string(), &String::new(), &mut rec); }) { Ok(()) => {}, Err(_) => return Ok(()) }
    let mut want: Vec<(char, Option<String>)> = Vec::new();
    for (c, t) in rec.out {
        let k = t.and_then(kind).filter(|k| !o.no.contains(*k)).map(|k| k.to_string());
        match c { '\r' => {}, '\t' => for _ in 0..4 { want.push((' ', k.clone())) }, '\n' => want.push(('\n', None)), c => want.push((c, k)) }
    }
    if got.iter().map(|x| x.0).ne(want.iter().map(|x| x.0)) { return Err("the text is changed".into()) }
    match got.iter().zip(&want).find(|(a, b)| a != b) { Some((a, b)) => Err(format!("{:?} is marked {:?} and not {:?}", a.0, a.1, b.1)), None => Ok(()) }
}

// ---------------------------------------------------------------- Cases

fn walk(d: &Path, at: &str, files: &mut BTreeMap<String, Vec<u8>>, dirs: &mut BTreeSet<String>) {
    for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
        let name = format!("{}{}", at, e.file_name().to_string_lossy());
        if e.path().is_dir() { walk(&e.path(), &format!("{}/", name), files, dirs); dirs.insert(name); } else { files.insert(name, std::fs::read(e.path()).unwrap_or_default()); }
    }
}

/// Programs which are not run: they might touch other files
fn harmless(t: &str) -> bool { !["read_text", "write_text", "env", "argv", "native", "monitor"].iter().any(|w| t.contains(w)) }

fn other_text(s: &mut Src, cx: &mut Cx) -> String {
    match s.below(6) {
        0 => { cx.label("arbitrary text"); gentext::any_string(s, 60) }
        1 => { cx.label("tokens"); gentext::token_soup(s, 25) }
        2 => { cx.label("corpus program"); s.pick(gentext::corpus()).clone() }
        3 => { cx.label("edited corpus program"); let b = s.pick(gentext::corpus()).clone(); gentext::mutated(s, b) }
        4 => { cx.label("random program"); let d = 1 + s.below(3); gentext::loose_program(s, d) }
        _ => { cx.label("model program");
            let cfg = crate::model::gen::Cfg::default();
            let p = crate::model::gen::Gen::new(s, cfg).program(); super::prog::print_program(&p, Default::default(), 0).out }
    }
}

fn session_lines(s: &mut Src) -> Vec<String> {
    let n = s.below(12);
    let mut v: Vec<String> = Vec::new();
    for i in 0..n {
        match s.below(12) {
            0 => v.push(format!("let a{} = {}", i, s.int(-9, 99))),
            1 => v.push(format!("a{} + 1", s.below(8))),
            2 => v.push(format!("print('{} é')", i)),
            3 => { v.push(format!("fn f{}(x) {{", i)); v.push("  x + 1".into()); if s.chance(3, 4) { v.push("}".into()); } }
            4 => v.push(format!("f{}({})", s.below(6), s.int(0, 9))),
            5 => { v.push("[1,".into()); v.push("2, 'é'".into()); v.push("]".into()); }
            6 => v.push((*s.pick(&["", " ", "// comment", "1 / 0", "[1] [2]", "assert false : 'why'", "let", ")", "'a", "read_line()", "read()", "argv()", "x = 1", "nil"])).into()),
            7 => v.extend(gentext::loose_program(s, 2).split('\n').map(|l| l.trim_end_matches('\r').to_string())),
            8 => { v.push("if true {".into()); v.push("print('inner')".into()); v.push("}".into()); }
            9 => v.push("exit".into()),
            10 => v.push(format!("[1, 2, 3] . map(*{}) . sum", i)),
            _ => v.push(format!("let s{} = 'it\\'s' ; print(s{})", i, i)),
        }
    }
    v
}

fn run(s: &mut Src, cx: &mut Cx) -> Result<(), Failure> {
    // The world
    let mut w = World { files: BTreeMap::new(), dirs: ["sub".to_string()].into(), stdin: vec![], pos: 0, args: vec![], env: BTreeMap::new() };
    for f in ["f0", "f1.txt", "sub/f2", "f é.txt"] { if s.chance(1, 2) { let b = bytes(s); w.files.insert(f.into(), b); } }
    for k in ["K", "A", "é", "LONG_NAME_1"] { if s.chance(1, 3) { let v = words(s).replace('\0', "0"); w.env.insert(k.into(), v); } }
    let mut env: Vec<(OsString, OsString)> = w.env.iter().map(|(k, v)| (k.into(), v.into())).collect();
    if s.chance(1, 10) { env.push(("BAD".into(), OsString::from_vec(vec![b'a', 0xff, b'b']))); cx.label("variable which is no text"); }
    if s.chance(1, 20) { env.push((OsString::from_vec(vec![b'N', 0xc3]), "v".into())); }
    for _ in 0..s.below(5) { let mut b = bytes(s); w.stdin.append(&mut b); w.stdin.extend(*s.pick(&[&b"\n"[..], b"\r\n", b"", b"\n\n", b"\r", b"\r\r\n"])); }
    // The command line
    let mut tokens: Vec<String> = Vec::new();
    match s.below(3) {
        0 => if s.chance(1, 2) { tokens.push("-o".into()) },
        _ => for _ in 0..s.below(4) { option(s, &mut tokens) },
    }
    let name = *s.pick(&["p.cor", "./p.cor", "sub/p q.cor", "é.cor", "p", "-p.cor"]);
    let no_file = s.chance(1, 8);
    if !no_file {
        tokens.push(if s.chance(1, 30) { (*s.pick(&["missing.cor", "sub", "none/p.cor", "p.cor/x"])).to_string() } else { name.to_string() });
        for _ in 0..s.below(4) { tokens.push(argument(s)) }
    }
    let options = parse(&tokens);
    if let Ok(o) = &options { w.args = o.args.clone(); }
    // The program
    let before = (w.files.clone(), w.dirs.clone());
    let mut want: Option<Want> = None;
    let session = matches!(&options, Ok(o) if o.file.is_none() && !matches!(o.mode, Mode::Help | Mode::Version));
    let mut text = if s.chance(1, 2) {
        let (t, x) = io_program(s, &mut w, cx);
        want = Some(x);
        t
    } else { other_text(s, cx) };
    let mut source: Vec<u8> = text.clone().into_bytes();
    let mut is_text = true;
    match s.below(12) {
        0 if want.is_some() => { text = text.replace('\n', "\r\n"); source = text.clone().into_bytes(); cx.label("lines end with \\r\\n"); }
        1 if want.is_some() => { text.pop(); source = text.clone().into_bytes(); }
        2 if s.chance(1, 4) => { let at = s.below(source.len() + 1); source.insert(at, 0xff); is_text = String::from_utf8(source.clone()).is_ok(); cx.label("file which is no text"); }
        _ => {}
    }
    let mut lines = Vec::new();
    if session {
        lines = session_lines(s);
        if !lines.iter().all(|l| harmless(l) || l == "argv()") || lines.iter().any(|l| l.contains('\r') || l.contains('\0')) { return cx.discard(); }
        w.stdin = lines.join("\n").into_bytes();
        if s.chance(1, 2) && !lines.is_empty() { w.stdin.push(b'\n'); }
        if lines.last().is_some_and(|l| l.is_empty()) && !w.stdin.ends_with(b"\n") { lines.pop(); }
    }
    // Set up
    let dir = Dir::new();
    let _ = std::fs::create_dir(dir.0.join("sub"));
    for (f, b) in &before.0 { std::fs::write(dir.0.join(f), b).expect("scratch"); }
    let mut after = before.0.clone();
    if !no_file { std::fs::write(dir.0.join(name), &source).expect("scratch"); after.insert(name.trim_start_matches("./").into(), source.clone()); }
    let mut argv: Vec<OsString> = tokens.iter().map(|t| t.into()).collect();
    let bad = s.chance(1, 40);
    if bad { let at = s.below(argv.len() + 1); argv.insert(at, OsString::from_vec(vec![b'x', 0x80])); cx.label("argument which is no text"); }
    let runs = matches!(&options, Ok(o) if o.mode == Mode::Default && o.file.as_deref() == Some(name)) && is_text && !bad;
    if runs && want.is_none() && !harmless(&text) { return cx.discard(); }
    cx.sample = format!("cordy {}\n{}", tokens.join(" "), if session { lines.join("\n") } else { text.clone() });
    // What the library does
    let lib = if runs && want.is_none() {
        let o = options.as_ref().unwrap();
        let stdin = String::from_utf8(w.stdin.clone());
        let Ok(stdin) = stdin else { return cx.discard() };
        let r = vmrun::run_any(name, &text, o.optimize, &stdin, &o.args, 200_000);
        if matches!(r.end, End::Panic(_) | End::Diverged) { return cx.discard(); }
        Some(r)
    } else { None };
    let mut expected = String::new();
    if session {
        let mut x = Session::new();
        let _ = writeln!(expected, "Welcome to Cordy v{}! (exit with 'exit' or Ctrl-C)", cordy_sys::SYS_VERSION);
        for l in &lines {
            match x.line(l) {
                Reply::Ok { out, .. } => expected.push_str(&out),
                Reply::Exit { out } => { expected.push_str(&out); break }
                _ => return cx.discard(),
            }
        }
    }
    // Run
    let o: Out = match bin::run(&argv, &w.stdin, &env, &dir.0) { Ok(o) => o, Err(e) => return fail("harness: the tool does not start", e.to_string()) };
    let details = |why: &str| format!("{}\ncordy {:?}\nenvironment {:?}\nstandard input {:?}\nfiles {:?}\n--- program\n{}\n--- got\n{}", why, argv, env, String::from_utf8_lossy(&w.stdin), before.0.iter().map(|(k, v)| (k, String::from_utf8_lossy(v))).collect::<Vec<_>>(), if session { lines.join("\n") } else { String::from_utf8_lossy(&source).into_owned() }, o.show());
    if let Some(c) = o.crash() { return fail(format!("the tool fails: {}", vmrun::panic_sig(c.lines().next().unwrap_or(""))), details(&c)); }
    let (out, err) = (o.stdout.as_slice(), o.errors());
    let bare = |e: &str, sig: &str| if !out.is_empty() { fail(sig, details("something is printed")) } else if err != e { fail(sig, details(&format!("expected error: {}", e))) } else { Ok(()) };
    let mut wrote = false;
    if bad {
        // The argument may come after what decides
        if err.is_empty() && !matches!(&options, Ok(o) if o.mode == Mode::Help || o.mode == Mode::Version) { return fail("an argument which is no text", details("no error is reported")); }
        if err.is_empty() || !out.is_empty() { return fail("an argument which is no text", details("something is printed")); }
    } else {
        match &options {
            Err(e) => { cx.label("wrong options"); bare(&format!("{}\n", e), "wrong options")? }
            Ok(p) => match (&p.mode, &p.file) {
                (Mode::Help, _) => {
                    let t = o.text();
                    if !err.is_empty() || !["cordy", "-h --help", "-v --version", "-d --disassembly", "--no-line-numbers", "-o --optimize", "-f --format", "--format-no-style", "--format-no=", "-l --link"].iter().all(|x| t.contains(x)) { return fail("help", details("help is incomplete")); }
                    cx.label("help");
                }
                (Mode::Version, _) => {
                    if !err.is_empty() || o.text() != format!("Cordy v{}\n", cordy_sys::SYS_VERSION) { return fail("version", details("not the version")); }
                    cx.label("version");
                }
                (_, None) => {
                    if o.text() != expected { return fail("session", details(&format!("expected\n{}", expected))); }
                    if !err.is_empty() { return fail("session", details("an error is reported")); }
                    cx.label("session");
                }
                (_, Some(f)) if f != name || !is_text => { cx.label("unreadable file"); bare(&format!("Unable to read file '{}'\n", f), "unreadable file")? }
                (Mode::Format, _) => {
                    if !err.is_empty() { return fail("formatting", details("an error is reported")); }
                    if let Err(e) = formatted(&text, p, &o.text()) { return fail("formatting", details(&e)); }
                    cx.label("formatted");
                }
                (Mode::Disassembly, _) => match compile(name, &text, p.optimize, !p.no_numbers) {
                    Err(Caught::Panic(_) | Caught::Fuel) => {}
                    Ok(Err(e)) => { cx.label("disassembly fails"); bare(&format!("{}\n", e.join("\n")), "compile errors of a disassembly")? }
                    Ok(Ok(l)) => {
                        if !err.is_empty() || o.text() != l.iter().map(|x| format!("{}\n", x)).collect::<String>() { return fail("disassembly", details(&format!("expected\n{}", l.join("\n")))); }
                        cx.label("disassembled");
                    }
                },
                (Mode::Default, _) => match (&want, &lib) {
                    (Some(x), _) => {
                        if x.compile {
                            if !out.is_empty() { return fail("it runs though it does not compile", details("something is printed")); }
                            match compile(name, &text, p.optimize, false) { Ok(Err(e)) => bare(&format!("{}\n", e.join("\n")), "compile errors")?, Ok(Ok(_)) => return fail("it compiles", details("expected compile errors")), _ => {} }
                        } else {
                            if out != x.out.as_bytes() { return fail("output", details(&format!("expected\n{}", x.out))); }
                            match x.error {
                                None => if !err.is_empty() { return fail("error", details("no error is expected")) },
                                Some(e) => if !err.starts_with(e) || !err.contains("\n  at: line ") || !err.contains(&format!("({})", name)) { return fail("error", details(&format!("expected error: {}", e))) },
                            }
                            if x.out.lines().count() >= 3 { wrote = true; }
                            after = w.files.clone();
                            after.insert(name.trim_start_matches("./").into(), source.clone());
                            if after != before.0 { wrote = true; }
                        }
                    }
                    (None, Some(r)) => {
                        if o.text() != r.out { return fail("output differs from the library", details(&format!("expected\n{}", r.show()))); }
                        let e = match &r.end { End::Error(e) => format!("{}\n", e), End::Compile(e) => { if !out.is_empty() { return fail("it runs though it does not compile", details("something is printed")); } format!("{}\n", e.join("\n")) } _ => String::new() };
                        if err != e { return fail("error differs from the library", details(&format!("expected\n{}", e))); }
                        cx.label("as the library");
                    }
                    (None, None) => return cx.discard(),
                },
            }
        }
    }
    let (mut files, mut dirs) = (BTreeMap::new(), BTreeSet::new());
    walk(&dir.0, "", &mut files, &mut dirs);
    if files != after || dirs != w.dirs {
        let show = |m: &BTreeMap<String, Vec<u8>>| m.iter().map(|(k, v)| format!("{:?}: {:?}", k, String::from_utf8_lossy(v))).collect::<Vec<_>>().join("\n");
        return fail("files", details(&format!("expected files\n{}\nfiles\n{}", show(&after), show(&files))));
    }
    cx.nontrivial = wrote || o.text().lines().count() >= 3 && matches!(&options, Ok(o) if o.mode != Mode::Help);
    Ok(())
}

fn compile(name: &str, text: &str, opt: bool, numbers: bool) -> Result<Result<Vec<String>, Vec<String>>, Caught> {
    cordy_sys::verif::set_fuel(vmrun::COMPILE_FUEL);
    let r = vmrun::catch(|| {
        let view = cordy_sys::SourceView::new(name.to_string(), text.to_string());
        cordy_sys::compiler::compile(opt, &view).map(|c| c.disassemble(&view, numbers))
    });
    cordy_sys::verif::set_fuel(u64::MAX);
    r
}
