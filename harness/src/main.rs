#![feature(alloc_error_hook)]
#![allow(dead_code, unused_imports)]
mod bin;
mod engine;
mod findings;
mod gentext;
mod heap;
mod model;
mod props;
mod vmrun;

#[global_allocator]
static HEAP: heap::Counting = heap::Counting;

/// The root of the verification tree
pub fn root() -> String {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| concat!(env!("CARGO_MANIFEST_DIR"), "/..").to_string())
}

fn on_big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(256 << 20).spawn(f).unwrap().join().unwrap_or_else(|_| std::process::exit(3))
}

fn find(id: &str) -> engine::Prop {
    props::all().into_iter().find(|p| p.id == id).unwrap_or_else(|| { eprintln!("unknown property {}", id); std::process::exit(2) })
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    vmrun::install_hook();
    let code = match a.get(1).copied() {
        Some("run") => {
            let p = find(a[2]);
            let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
            let tier = a.get(3).map(|s| s.to_string()).unwrap_or(tier);
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            on_big_stack(move || engine::run_prop(&p, &tier, seed))
        }
        Some("worker") => {
            let p = find(a[2]);
            let n: Vec<u64> = a[3..6].iter().map(|s| s.parse().unwrap()).collect();
            let (progress, max_fail) = (a[6].to_string(), a[7].parse().unwrap());
            engine::limit_memory(3 << 30);
            on_big_stack(move || { engine::worker(&p, n[0], n[1], n[2], &progress, max_fail, 3000); bin::clean(); 0 })
        }
        Some("one") => {
            let p = find(a[2]);
            let seed = a[3].parse().unwrap();
            let what = a[4].to_string();
            engine::limit_memory(3 << 30);
            on_big_stack(move || engine::one(&p, seed, &what))
        }
        Some("replay") => {
            // replays a saved failing case
            let text = std::fs::read_to_string(a[2]).expect("replay file");
            let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(k).map(|s| s.trim().to_string())).unwrap_or_default();
            let p = find(&get("property:"));
            let what = format!("data:{}", get("choices:"));
            on_big_stack(move || engine::one(&p, 1, &what))
        }
        Some("exec") => {
            // runs a source file through the code under test, both ways
            let text = if a[2] == "-" { std::io::read_to_string(std::io::stdin()).unwrap() } else { std::fs::read_to_string(a[2]).unwrap() };
            on_big_stack(move || { for o in [false, true] { println!("--- opt={}\n{}", o, vmrun::run(&text, o).show()); } 0 })
        }
        Some("blocks") => {
            // blocks of memory left over, and the most in use
            let text = std::fs::read_to_string(a[2]).unwrap();
            on_big_stack(move || { vmrun::run(&text, false); println!("{:?}", heap::measure(|| drop(vmrun::run(&text, false)))); 0 })
        }
        Some("repl") => {
            let text = if a[2] == "-" { std::io::read_to_string(std::io::stdin()).unwrap() } else { std::fs::read_to_string(a[2]).unwrap() };
            on_big_stack(move || {
                let mut s = vmrun::Session::new();
                let mut more = false;
                for l in text.lines() {
                    println!("{}{}", if more { "... " } else { ">>> " }, l);
                    match s.line(l) { vmrun::Reply::Ok { out, more: m } => { print!("{}", out); more = m; } r => { println!("{:?}", r); break } }
                }
                0
            })
        }
        Some("list") => { for p in props::all() { println!("{}", p.id); } 0 }
        _ => { eprintln!("usage: vh run ID [tier] | replay FILE | one ID SEED INDEX | exec FILE"); 2 }
    };
    std::process::exit(code);
}
