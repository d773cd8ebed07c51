//! Programs which are simple but large: more variables, arguments, instructions, constants, elements or lines than any
//! small counter can hold. What they print is known in advance.

use crate::engine::{fail, Cx, Failure, Src};
use crate::vmrun::{self, End};

/// a size, often next to a power of two
fn size(s: &mut Src, max: usize) -> usize {
    let n = match s.below(6) {
        0 => 3,
        1 => 120 + s.below(20),
        2 | 3 => 250 + s.below(14),
        4 => 20 + s.below(1000),
        _ => 1000 + s.below(max.max(1001) - 1000),
    };
    n.min(max)
}

struct Big { text: String, out: String }

fn lines<T: std::fmt::Display>(v: impl IntoIterator<Item = T>, sep: &str) -> String { v.into_iter().map(|x| x.to_string()).collect::<Vec<_>>().join(sep) }

/// code inside of a function, a closure in a function, or at the top level
fn place(s: &mut Src, code: &str) -> String {
    match s.below(3) {
        0 => format!("{}\n", code),
        1 => format!("fn place() {{\n{}\n}}\nplace()\n", code),
        _ => format!("fn place() {{\nlet other = [1]\nlet inner = fn() {{\n{}\nprint(other[0])\n}}\ninner()\n}}\nplace()\n", code),
    }
}
fn placed(s: &mut Src, code: &str, out: &str) -> Big {
    let text = place(s, code);
    let tail = if text.contains("print(other[0])") { "1\n" } else { "" };
    Big { out: format!("{}{}", out, tail), text }
}

/// a branch over n statements
fn branch(s: &mut Src) -> Big {
    let n = if s.chance(1, 6) { 8000 + s.below(12000) } else { size(s, 4000) };
    let step = |v: &str| match n % 3 { 0 => format!("{0} = {0} + 1", v), 1 => format!("{} += 1", v), _ => format!("{0} = 1 + {0}", v) };
    let body = vec![step("x"); n].join("\n");
    let (code, out) = match s.below(13) {
        0 => (format!("let x = 0\nif x == 1 {{\n{body}\n}}\nprint(x)"), "0\n".to_string()),
        1 => (format!("let x = 0\nif x == 0 {{\n{body}\n}} else {{\nx = -1\n}}\nprint(x)"), format!("{n}\n")),
        2 => (format!("let x = 0\nif x == 1 {{\n{body}\n}} elif x == 0 {{\nx = 7\n}} else {{\n{body}\n}}\nprint(x)"), "7\n".to_string()),
        3 => (format!("let x = 0, i = 0\nwhile i < 2 {{\ni += 1\n{body}\n}} else {{\nprint('e')\n}}\nprint(x)"), format!("e\n{}\n", 2 * n)),
        4 => (format!("let x = 0\nfor i in range(3) {{\nif i == 1 {{ continue }}\n{body}\nif i == 2 {{ break }}\n}} else {{\nprint('e')\n}}\nprint(x)"), format!("{}\n", 2 * n)),
        5 => (format!("let x = 0\nloop {{\nif x > 0 {{ break }}\n{body}\n}}\nprint(x)"), format!("{n}\n")),
        6 => (format!("let x = 0\ndo {{\n{body}\n}} while x < {n} + 1\nprint(x)"), format!("{}\n", 2 * n)),
        7 => (format!("let x = 1\nprint(if x == 1 then 'y' else {})", lines(vec!["x"; n], " + ")), "y\n".to_string()),
        8 => (format!("let x = 1\nprint(x == 2 and {} or 'z')", lines(vec!["x"; n], " + ")), "z\n".to_string()),
        9 => (format!("let x = 1\nprint(x or {})\nprint({})", lines(vec!["x"; n], " + "), lines(vec!["x"; n], " + ")), format!("1\n{n}\n")),
        10 => (format!("let x = 1\nprint({} < {} < 0)", lines(vec!["x"; n], " + "), lines(vec!["x"; n], " + ")), "false\n".to_string()),
        11 => (format!("let x = 0\nassert x == 0 : {}\nprint(x)", lines(vec!["x"; n], " + ")), "0\n".to_string()),
        _ => (format!("let x = 0\nfn f(a, b = 0) {{\nif a {{ return 'early' }}\n{body}\nx\n}}\nprint(f(1))\nprint(f(0))"), format!("early\n{n}\n")),
    };
    placed(s, &code, &out)
}

/// n variables of a scope, which is left in several ways
fn locals(s: &mut Src) -> Big {
    let n = size(s, 3000);
    let k = s.below(n);
    let decl = match s.below(3) {
        0 => lines((0..n).map(|i| format!("let v{i} = {i}")), "\n"),
        1 => format!("let {}", lines((0..n).map(|i| format!("v{i} = {i}")), ", ")),
        _ => format!("let {} = range({n}) . list", lines((0..n).map(|i| format!("v{i}")), ", ")),
    };
    let decl = if n == 1 { "let v0 = 0".to_string() } else { decl };
    let write = format!("v{k} = -5\nprint(v{}, v{k}, v0, v{})", (k + n / 2) % n, n - 1);
    let at = |i: usize| if i == k { "-5".to_string() } else { i.to_string() };
    let written = format!("{} -5 {} {}\n", at((k + n / 2) % n), at(0), at(n - 1));
    let (code, out) = match s.below(6) {
        0 => (format!("if true {{\n{decl}\n{write}\n}}\nlet y = 'y', z = 'z'\nprint(y, z)"), format!("{written}y z\n")),
        1 => (format!("let y = 'y'\nfor i in range(3) {{\n{decl}\n{write}\nif i == 1 {{ break }}\n}}\nlet z = 'z'\nprint(y, z)"), format!("{written}{written}y z\n")),
        2 => (format!("let y = 'y'\nfor i in range(2) {{\n{decl}\nif i == 0 {{ continue }}\n{write}\n}}\nlet z = 'z'\nprint(y, z)"), format!("{written}y z\n")),
        3 => (format!("let y = 'y'\nloop {{\n{decl}\n{write}\nloop {{ let q = 1 ; break }}\nbreak\n}}\nlet z = 'z'\nprint(y, z)"), format!("{written}y z\n")),
        4 => (format!("let y = 'y'\nfn f() {{\n{decl}\n{write}\nif true {{ return v{k} }}\n}}\nprint(f(), y)"), format!("{written}-5 y\n")),
        _ => (format!("{decl}\nlet y = [7]\nlet g = fn() -> v{k} + y[0]\n{write}\nprint(g())"), format!("{written}2\n")),
    };
    placed(s, &code, &out)
}

/// values stored in and read from variables far apart (or the same), one just after the other
fn moves(s: &mut Src) -> Big {
    let n = if s.chance(2, 3) { 258 + s.below(300) } else { size(s, 1200).max(4) };
    let mut v: Vec<i64> = (0..n as i64).collect();
    let (mut code, mut out) = (lines((0..n).map(|i| format!("let v{i} = {i}")), "\n"), String::new());
    let mut a = s.below(n);
    for i in 0..4 + s.below(12) {
        let d = *s.pick(&[1usize, 256, 0, 1, 128, 255, 512, 64, 2]);
        let b = if s.chance(1, 4) { s.below(n) } else if s.chance(1, 2) { (a + d) % n } else { (a + n - d % n) % n };
        let c = s.below(n);
        let t = 1000 * (i as i64 + 1);
        let (st, x) = match s.below(6) {
            0 => (format!("v{a} = {t}\nv{c} = v{b}"), None),
            1 => (format!("v{a} = {t}\nv{b} += 1\nv{c} = v{b}"), None),
            2 => (format!("v{a} = v{b} + 0\nv{b} . print"), Some(b)),
            3 => (format!("v{a} = {t}\n(v{b} + v{a}) . print"), Some(n)),
            4 => (format!("v{a} = v{c}\nv{b} . print"), Some(b)),
            _ => (format!("v{a} = v{c} = {t}\nif v{b} == {t} {{ print('same') }} else {{ print('not') }}"), Some(n + 1)),
        };
        match &st { _ if st.contains("+=") => { v[a] = t; v[b] += 1; v[c] = v[b]; } _ if st.contains("+ 0") => v[a] = v[b], _ if st.contains("same") => { v[a] = t; v[c] = t; } _ if x == Some(b) => v[a] = v[c], _ => { v[a] = t; if x.is_none() { v[c] = v[b]; } } }
        match x { Some(x) if x < n => out += &format!("{}\n", v[x]), Some(x) if x == n => out += &format!("{}\n", v[b] + v[a]), Some(_) => out += if v[b] == t { "same\n" } else { "not\n" }, None => {} }
        code += &format!("\n{}", st);
        a = b;
    }
    code += &format!("\nprint({})", lines((0..n).map(|i| format!("v{i}")), ", "));
    out += &format!("{}\n", lines(&v, " "));
    placed(s, &code, &out)
}

/// a closure over n variables, some changed through it
fn captures(s: &mut Src) -> Big {
    let n = size(s, 1200);
    let k = s.below(n);
    let decl = lines((0..n).map(|i| format!("let v{i} = {i}")), "\n");
    let sum = lines((0..n).map(|i| format!("v{i}")), " + ");
    let total: usize = n * (n - 1) / 2;
    let (code, out) = match s.below(4) {
        0 => (format!("fn f() {{\n{decl}\nlet g = fn() -> {sum}\nlet h = fn() {{ v{k} += 1 }}\nh()\nv{k} += 1\nprint(g())\n(g, h)\n}}\nlet p = f()\np[1]()\nprint(p[0]())"), format!("{}\n{}\n", total + 2, total + 3)),
        1 => (format!("fn f() {{\n{decl}\nfn() {{ fn() {{ v{k} += 1 ; {sum} }} }}\n}}\nlet g = f()\nprint(g()())\nprint(g()())"), format!("{}\n{}\n", total + 1, total + 2)),
        2 => (format!("let fs = []\nfn f() {{\nfor i in range(3) {{\n{decl}\nv{k} += i\nfs . push((fn() -> i + {sum}))\n}}\n}}\nf()\nfor g in fs {{ print(g()) }}"), format!("{}\n{}\n{}\n", total, total + 2, total + 4)),
        _ => (format!("fn f() {{\n{decl}\nlet a = [{}]\nfor g in a {{ g() }}\nprint({sum})\n}}\nf()", lines((0..n).map(|i| format!("fn() {{ v{i} += 1 }}")), ",\n")), format!("{}\n", total + n)),
    };
    Big { text: code, out }
}

/// n globals, functions, constants or nested blocks
fn names(s: &mut Src) -> Big {
    let n = size(s, 3000);
    let k = s.below(n);
    let (code, out) = match s.below(6) {
        0 => (format!("{}\nprint(v{k})\nfn f() {{ v{k} = 'c' }}\nf()\nprint(v{k}, v{})", lines((0..n).map(|i| format!("let v{i} = {i}")), "\n"), n - 1), format!("{k}\nc {}\n", if k == n - 1 { "c".into() } else { (n - 1).to_string() })),
        1 => (format!("fn main() {{ print(f{k}(), f{}()) }}\n{}\nmain()", n - 1, lines((0..n).map(|i| format!("fn f{i}() -> {i}")), "\n")), format!("{k} {}\n", n - 1)),
        2 => (format!("fn main() {{\n{}\nprint(f{k}(), f{}())\n}}\nmain()", lines((0..n).map(|i| format!("fn f{i}() -> {i}")), "\n"), n - 1), format!("{k} {}\n", n - 1)),
        3 => (format!("let a = [{}]\nprint(a[{k}], len(a))", lines((0..n).map(|i| format!("'{}{}'", i, "x".repeat(i % 9))), ", ")), format!("{}{} {n}\n", k, "x".repeat(k % 9))),
        4 => { let n = n.min(40); (format!("let x = 0\n{}x = {n}{}\nprint(x)", lines((0..n).map(|i| format!("if x == {} {{\nlet y{i} = {i}\n", 0)), ""), lines(vec!["\n}"; n], "")), format!("{n}\n")) }
        _ => { let n = n.min(60); (format!("fn f0() {{\nlet v = 1\n{}v{}\n}}\nprint(f0(){})", lines((0..n).map(|_| "fn() {\n".to_string()), ""), lines(vec!["\n}"; n], ""), "()".repeat(n)), "1\n".to_string()) }
    };
    Big { text: format!("{}\n", code), out }
}

/// n arguments, parameters, or calls on top of each other
fn args(s: &mut Src) -> Big {
    let n = size(s, 3000);
    let k = s.below(n);
    let vals = lines(0..n, ", ");
    let params = lines((0..n).map(|i| format!("p{i}")), ", ");
    let j = s.below(n + 1);
    let cut = lines((0..j).map(|i| i.to_string()).chain([format!("...range({j}, {n})")]), ", ");
    let a = if s.chance(1, 2) { vals.clone() } else { cut };
    let (code, out) = match s.below(8) {
        0 => (format!("fn f(*a) -> (len(a), a[{k}], a[-1])\nprint(f({a}))"), format!("({n}, {k}, {})\n", n - 1)),
        1 => (format!("fn f({params}) -> (p{k}, p{})\nprint(f({a}))", n - 1), format!("({k}, {})\n", n - 1)),
        2 => (format!("fn f({params}) -> (p{k}, p{})\nlet g = f({})\nprint({})", n - 1, lines(0..j.min(n - 1), ", "), if n == 1 || j == 0 { format!("f({vals})") } else { format!("g({})", lines(j.min(n - 1)..n, ", ")) }), format!("({k}, {})\n", n - 1)),
        3 => (format!("fn f({}) -> (p{k}, p{})\nprint(f({}))", lines((0..n).map(|i| if i < j { format!("p{i}") } else { format!("p{i} = -{i}") }), ", "), n - 1, if j == 0 { "".into() } else { lines(0..j, ", ") }),
            format!("({}, {})\n", if k < j || k == 0 { k as i64 } else { -(k as i64) }, if n - 1 < j || n == 1 { n as i64 - 1 } else { -(n as i64 - 1) })),
        4 => (format!("print({a})"), format!("{}\n", lines(0..n, " "))),
        5 => (format!("print(max({a}), sum({a}), len([{a}]), len({{{a}}}), len(vector([{a}])))"), format!("{} {} {n} {n} {n}\n", n - 1, n * (n - 1) / 2)),
        6 => { let n = n.min(1500); (format!("fn f(x) -> if x <= 0 then 0 else 1 + f(x - 1)\nprint(f({}))", n.min(80)), format!("{}\n", n.min(80))) }
        _ => (format!("let x = 0\nfn f(y) {{ x += y }}\n{}\nprint(x)", vec!["f(2)"; n].join("\n")), format!("{}\n", 2 * n)),
    };
    placed(s, &code, &out)
}

/// patterns of n names
fn patterns(s: &mut Src) -> Big {
    let n = size(s, 2000).max(2);
    let k = s.below(n);
    let at = s.below(n);
    let kind = s.below(5);
    let star = s.chance(1, 2) && (kind != 4 || at > 0); // (a statement does not begin with `*_`)
    let names = lines((0..n).map(|i| if star && i == at { format!("*v{i}") } else if i != k && i % 7 == 3 { "_".to_string() } else { format!("v{i}") }), ", ");
    let m = n + if star { 2 } else { 0 };
    let of = |i: usize| if star && i == at { format!("({}, {}, {})", i, i + 1, i + 2) } else if star && i > at { (i + 2).to_string() } else { i.to_string() };
    let val = match s.below(3) { 0 => format!("range({m}) . list . reverse . reverse . list"), 1 => format!("vector(range({m}))"), _ => format!("list(range({m}))") };
    let show = |v: &str| v.replace('(', "").replace(')', "").replace(", ", " ");
    let got = if star && k == at { format!("print(...v{k})") } else { format!("print(v{k})") };
    let out = format!("{}\n", show(&of(k)));
    let decl = lines((0..n).map(|i| format!("let v{i}")), "\n");
    let code = match kind {
        0 => format!("let {names} = {val}\n{got}"),
        1 => format!("{decl}\n{names} = {val}\n{got}"),
        2 => format!("for {names} in [{val}] {{\n{got}\n}}"),
        3 => format!("fn f(({names})) {{\n{got}\n}}\nf({val})"),
        _ => format!("let a = [nil] * {n}\n{} = {val}\n{}", lines((0..n).map(|i| if star && i == at { "*b".to_string() } else { format!("a[{i}]") }), ", ").replacen("*b", "*_", 1), if star && k == at { format!("print({})", show(&of(k)).replace(' ', ", ")) } else { format!("print(a[{k}])") }),
    };
    placed(s, &code, &out)
}

/// structs of n fields and methods, and n structs
fn structs(s: &mut Src) -> Big {
    let n = size(s, 1500);
    let k = s.below(n);
    let (code, out) = match s.below(4) {
        0 => (format!("struct A({}) {{\nfn get(self) -> f{k}\nfn set(self, x) {{ f{k} = x }}\n}}\nlet a = A({})\nprint(a->f{k}, a->get(), a->f{})\na->set('s')\nprint(a->f{k}, a . (->f{k}))\na->f{k} = 't'\nprint(a->get())",
            lines((0..n).map(|i| format!("f{i}")), ", "), lines(0..n, ", "), n - 1), format!("{k} {k} {}\ns s\nt\n", n - 1)),
        1 => (format!("struct A(x) {{\n{}\n}}\nprint(A(1)->m{k}(), A(2)->m{}())", lines((0..n).map(|i| format!("fn m{i}(self) -> x + {i}")), "\n"), n - 1), format!("{} {}\n", 1 + k, 1 + n)),
        2 => (format!("{}\nprint(A{k}(5)->x{k}, A{k}(5) is A{k}, A{k}(5) is A{}, typeof(A{k}(1)) == A{k})", lines((0..n).map(|i| format!("struct A{i}(x{i}, y?)").replace(", y?", "")), "\n"), (k + 1) % n), format!("5 true {} true\n", n == 1)),
        _ => (format!("module M {{\n{}\nfn call() -> m{k}()\n}}\nprint(M->call(), M->m{}())", lines((0..n).map(|i| format!("fn m{i}() -> {i}")), "\n"), n - 1), format!("{k} {}\n", n - 1)),
    };
    Big { text: format!("{}\n", code), out }
}

/// literals of n elements
fn literals(s: &mut Src) -> Big {
    let n = size(s, 6000);
    let k = s.below(n);
    let j = s.below(n + 1);
    let body = |f: &dyn Fn(usize) -> String, u: &str| lines((0..j).map(f).chain([u.to_string()]), ", ");
    let (code, out) = match s.below(6) {
        0 => (format!("let a = [{}]\nprint(a[{k}], len(a), a[-1])", body(&|i| i.to_string(), &format!("...range({j}, {n})"))), format!("{k} {n} {}\n", n - 1)),
        1 => (format!("let a = ({})\nprint(a[{k}], len(a), a[-1])", body(&|i| i.to_string(), &format!("...range({j}, {n})"))), format!("{k} {n} {}\n", n - 1)),
        2 => (format!("let a = {{{}}}\nprint({k} in a, len(a), max(a))", body(&|i| i.to_string(), &format!("...range({j}, {n})"))), format!("true {n} {}\n", n - 1)),
        3 => (format!("let a = {{{}}}\nprint(a[{k}], len(a))", lines((0..n).map(|i| format!("{i}: '{i}'")), ", ")), format!("{k} {n}\n")),
        4 => (format!("let b = {{'p': 1}}, a = {{{}, ...b}}\nprint(a[{k}], len(a), a['p'])", lines((0..n).map(|i| format!("{i}: {}", n - i)), ", ")), format!("{} {} 1\n", n - k, n + 1)),
        _ => (format!("print([{}] . sum)", lines((0..n).map(|i| if i == k { format!("...[{i}, {i}]") } else { i.to_string() }), ", ")), format!("{}\n", n * (n - 1) / 2 + k)),
    };
    placed(s, &code, &out)
}

/// long tokens and deep or long expressions
fn tokens(s: &mut Src) -> Big {
    let n = size(s, 5000);
    let deep = n.min(200);
    let (code, out) = match s.below(11) {
        0 => { let v = "ab_c9é".repeat(0).to_string() + &"Ab_9".repeat(n); (format!("let {v} = 5\nlet {v}x = 6\nprint({v}, {v}x)"), "5 6\n".to_string()) }
        1 => { let t = "aé'\\n"[..3].repeat(n); (format!("let t = '{t}'\nprint(len(t))\nprint(t)"), format!("{}\n{t}\n", t.chars().count())) }
        2 => (format!("/*{}*/print(1)//{}\nprint(2)", "*\n".repeat(n), "x".repeat(n)), "1\n2\n".to_string()),
        3 => (format!("{}print(1){}print(2)", "\n".repeat(n), "\n \t".repeat(n)), "1\n2\n".to_string()),
        4 => (format!("print({}1)", "0".repeat(0) + &"- ".repeat(deep)), format!("{}\n", if deep % 2 == 0 { 1 } else { -1 })),
        5 => (format!("print({}1{})", "(".repeat(deep), ")".repeat(deep)), "1\n".to_string()),
        6 => (format!("let x = 1\nprint({})", lines((0..n).map(|i| if i % 2 == 0 { "x" } else { "2" }), " * ").replace("* 2", "- 1")), format!("{}\n", (n as i64 + 1) / 2 * 0 + eval_chain(n))),
        7 => (format!("print([{}])", lines(vec!["1"; 0], "")) + &format!("\nprint(({}))", lines((0..n.max(2)).map(|i| i.to_string()), ", ").as_str()), format!("[]\n({})\n", lines(0..n.max(2), ", "))),
        8 => (format!("print({}'x'{})", "[".repeat(deep), "]".repeat(deep)), format!("{}'x'{}\n", "[".repeat(deep), "]".repeat(deep))),
        9 => { let d: String = (0..n.min(500)).map(|_| "_0").collect(); (format!("print(1{d}_)\nprint(0x1{}_f)", "_".repeat(n)).replace(&format!("1{d}_)"), &format!("1{}7)", "_".repeat(n.min(500)))), "17\n31\n".to_string()) }
        _ => (format!("let f = (+ 1)\nprint(0{})", " . f".repeat(n)), format!("{n}\n")),
    };
    Big { text: format!("{}\n", code), out }
}

/// the value of `x - 1 * x - 1 ...`, with x = 1, as written by case 6 above
fn eval_chain(n: usize) -> i64 {
    // terms alternate "x" and "- 1", joined by " * " except that "* 2" became "- 1": x - 1 * x - 1 * x ...
    if n == 1 { return 1; }
    let mut v = 1i64;
    let mut i = 1;
    while i < n { v -= 1; i += 2; }
    v
}

/// collections of n elements and their operations
fn collections(s: &mut Src) -> Big {
    let n = size(s, 20_000);
    let (a, b) = (s.below(n + 1), s.below(n + 1));
    let k = s.below(n);
    let show = |v: &[usize]| { let sum: usize = v.iter().sum(); let mut w: i64 = 0; for x in v { w = (w * 31 + *x as i64) % 1_000_003; } format!("{} {} {}\n", v.len(), sum, w) };
    let head = "fn show(v) { let w = 0 ; for x in v { w = (w * 31 + x) % 1000003 } ; print(len(v), sum(v), w) }\n";
    let all: Vec<usize> = (0..n).collect();
    let set_a: Vec<usize> = (0..a).collect();
    let set_b: Vec<usize> = (b..n).collect();
    let (code, v): (String, Vec<usize>) = match s.below(18) {
        0 => (format!("let s = set(range({a})), t = set(range({b}, {n}))\nshow(s | t)"), set_a.iter().copied().chain(set_b.iter().copied().filter(|x| !set_a.contains(x))).collect()),
        1 => (format!("let s = set(range({a})), t = set(range({b}, {n}))\nshow(s & t)"), set_a.iter().copied().filter(|x| *x >= b).collect()),
        2 => (format!("let s = set(range({a})), t = set(range({b}, {n}))\nshow(s - t)"), set_a.iter().copied().filter(|x| *x < b).collect()),
        3 => (format!("let s = list(range({n}))\ns . remove({k})\nshow(s)"), { let mut v = all.clone(); v.remove(k); v }),
        4 => (format!("let s = []\nfor i in range({n}) {{ s . push(i) }}\ns . insert({k}, 5)\nshow(s)"), { let mut v = all.clone(); v.insert(k, 5); v }),
        5 => (format!("let h = heap([])\nfor i in range({n}) {{ h . push((i * 7) % {n}) }}\nlet r = []\nwhile h {{ r . push(h . pop) }}\nshow(r)"), { let mut v: Vec<usize> = (0..n).map(|i| i * 7 % n).collect(); v.sort(); v }),
        6 => (format!("let d = {{:}}\nfor i in range({n}) {{ d[i % {}] = i }}\nshow(d . values)\nshow(d . keys)", a + 1).replace("{:}", "dict([])"), { let m = a + 1; let v: Vec<usize> = (0..m.min(n)).map(|i| i + (n - 1 - i) / m * m).collect(); v }),
        7 => (format!("show(range({n}) . list . reverse)"), all.iter().rev().copied().collect()),
        8 => (format!("show(sort(range({n}) . map((fn(i) -> (i * 7919) % {n}))))"), { let mut v: Vec<usize> = (0..n).map(|i| i * 7919 % n).collect(); v.sort(); v }),
        9 => (format!("let s = list(range({n}))\nshow(s[{}:{}:3])", a.min(b), a.max(b)), (a.min(b)..a.max(b)).step_by(3).collect()),
        10 => (format!("let s = set(range({n}))\nfor i in range({a}) {{ s . remove(i) }}\nshow(s)"), (a..n).collect()),
        11 => (format!("show(flat_map((fn(x) -> [x, x]), range({n})))"), all.iter().flat_map(|x| [*x, *x]).collect()),
        12 => (format!("show(range({n}) . group_by({}) . map(sum))", a + 1), all.chunks(a + 1).map(|c| c.iter().sum()).collect()),
        13 => (format!("show(range({n}) . map((fn(i) -> i % {})) . counter . values)", a % 5 + 1), (0..(a % 5 + 1).min(n)).map(|r| (n - r + a % 5) / (a % 5 + 1)).collect()),
        14 => (format!("show(range({n}) . group_by((fn(i) -> i % {})) . values . map(len))", a % 5 + 1), (0..(a % 5 + 1).min(n)).map(|r| (n - r + a % 5) / (a % 5 + 1)).collect()),
        15 => (format!("let s = list(range({n}))\nshow([s . index_of({k}), s . rindex_of({k}), s . find(=={k}), s . max, s . min, s . peek, s . filter(<{k}) . len, s . reduce(+)])"), vec![k, k, k, n - 1, 0, 0, k, n * (n - 1) / 2]),
        16 => (format!("let s = range({n}) . enumerate . dict\nshow(s . keys)\ns . remove({k})\nshow(s . values)"), { let mut v = all.clone(); v.remove(k); v }),
        _ => (format!("let s = list(range({n}))\nfor i in range({a}) {{ s . push(s . pop_front) }}\nshow(s)"), { let mut v = all.clone(); v.rotate_left(a % n); v }),
    };
    let mut out = show(&v);
    if code.contains("enumerate . dict") { out.insert_str(0, &show(&all)); }
    if code.contains("d . keys") { out += &show(&(0..(a + 1).min(n)).collect::<Vec<_>>()); }
    Big { text: format!("{head}{code}\n"), out }
}

/// texts of n characters
fn texts(s: &mut Src) -> Big {
    let n = size(s, 20_000);
    let k = s.below(n);
    let cs: Vec<char> = "aé0 世𝄞z".chars().collect();
    let t: String = (0..n).map(|i| cs[(i * i + k) % cs.len()]).collect();
    let rev: String = t.chars().rev().collect();
    let (code, out) = match s.below(9) {
        0 => ("print(t . reverse . join(''))".to_string(), rev),
        1 => (format!("print(t[{k}], t[{k}:] . len, len(t))"), format!("{} {} {n}", t.chars().nth(k).unwrap(), n - k)),
        2 => ("print(t . to_upper)".into(), t.to_uppercase()),
        3 => ("print(t . split('') . join('-'))".into(), lines(t.chars(), "-")),
        4 => ("print(t . replace('a', 'bb'))".into(), t.replace('a', "bb")),
        5 => (format!("print('%{}s|' % ('x'))", n.min(900)), format!("{}x|", " ".repeat(n.min(900) - 1))),
        6 => ("let u = ''\nfor c in t { u += c }\nprint(u == t, u)".into(), format!("true {t}")),
        7 => ("print(t . split('z') . map(len) . sum)".into(), format!("{}", t.chars().filter(|c| *c != 'z').count())),
        _ => (format!("print(('ab' * {n}) . len, ('ab' * {n})[-1], t . find(fn(c) -> c == 'q'))"), format!("{} b nil", 2 * n)),
    };
    Big { text: format!("let t = '{t}'\n{code}\n"), out: format!("{out}\n") }
}

pub const BRANCH: u32 = 1; pub const LOCALS: u32 = 2; pub const CAPTURES: u32 = 4; pub const NAMES: u32 = 8; pub const ARGS: u32 = 16;
pub const PATTERNS: u32 = 32; pub const STRUCTS: u32 = 64; pub const LITERALS: u32 = 128; pub const TOKENS: u32 = 256; pub const COLLECTIONS: u32 = 512; pub const TEXTS: u32 = 1024;
pub const MOVES: u32 = 2048;
pub const ALL: u32 = 4095;

pub fn run(s: &mut Src, cx: &mut Cx, kinds: u32) -> Result<(), Failure> {
    let kinds = std::env::var("LARGE").map_or(kinds, |k| k.parse().unwrap());
    let ks: Vec<u32> = (0..12).filter(|k| kinds >> k & 1 == 1).collect();
    let b = match *s.pick(&ks) {
        0 => branch(s), 1 => locals(s), 2 => captures(s), 3 => names(s), 4 => args(s), 5 => patterns(s), 6 => structs(s), 7 => literals(s), 8 => tokens(s), 9 => collections(s), 10 => texts(s), _ => moves(s),
    };
    cx.label("large program");
    let cut = |t: &str| t.char_indices().nth(2000).map_or(t.to_string(), |(i, _)| format!("{}… ({} bytes)", &t[..i], t.len()));
    cx.sample = cut(&b.text);
    for opt in [false, true] {
        let r = vmrun::run_scaled("<test>", &b.text, opt, 200);
        let ok = matches!(r.end, End::Exit | End::Return | End::Yield) && r.out == b.out;
        if !ok { return fail(format!("large program goes wrong ({})", if opt { "optimised" } else { "not optimised" }), format!("program:\n{}\nexpected output:\n{}\n{}", b.text, cut(&b.out), cut(&r.show()))); }
    }
    cx.nontrivial = true;
    Ok(())
}
