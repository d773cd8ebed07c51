//! Property-testing engine: recorded choice sequences, deterministic case seeds, generic shrinking,
//! and a driver which distributes cases over isolated worker processes.

use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- random source

#[derive(Clone)]
pub struct Rng(u64, u64);

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut s = seed;
        let a = splitmix(&mut s);
        let b = splitmix(&mut s) | 1;
        Rng(a, b)
    }
    pub fn next(&mut self) -> u64 {
        // xorshift128+
        let mut s1 = self.0;
        let s0 = self.1;
        let r = s0.wrapping_add(s1);
        self.0 = s0;
        s1 ^= s1 << 23;
        self.1 = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
        r
    }
}

pub fn fnv(s: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}

/// A recorded sequence of choices. Every random decision of a generator goes through here.
/// Zero is always the simplest choice.
pub struct Src {
    pub data: Vec<u64>,
    pos: usize,
    rng: Option<Rng>,
}

impl Src {
    pub fn random(seed: u64) -> Src { Src { data: Vec::new(), pos: 0, rng: Some(Rng::new(seed)) } }
    pub fn replay(data: Vec<u64>) -> Src { Src { data, pos: 0, rng: None } }
    pub fn used(&self) -> usize { self.pos }

    /// A uniform value in `[0, n)`
    pub fn draw(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let v = match &mut self.rng {
            Some(r) => {
                let v = r.next() % n;
                self.data.push(v);
                v
            }
            None => {
                let v = self.data.get(self.pos).copied().unwrap_or(0);
                if v >= n { n - 1 } else { v }
            }
        };
        self.pos += 1;
        if trace_path().is_some() { TRACE.with(|t| t.borrow_mut().push(v)); }
        v
    }
    pub fn below(&mut self, n: usize) -> usize { self.draw(n as u64) as usize }
    /// inclusive range
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        let span = (hi as i128 - lo as i128 + 1) as u128;
        if span > u64::MAX as u128 {
            return self.draw(u64::MAX) as i64;
        }
        lo.wrapping_add(self.draw(span as u64) as i64)
    }
    /// true with probability num/den; false is the simple choice
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.draw(den) >= den - num }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { let i = self.below(xs.len()); &xs[i] }
    /// index chosen by weight
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let total: u64 = ws.iter().map(|w| *w as u64).sum();
        let mut v = self.draw(total);
        for (i, w) in ws.iter().enumerate() {
            if v < *w as u64 {
                return i;
            }
            v -= *w as u64;
        }
        ws.len() - 1
    }
}

thread_local! { static TRACE: std::cell::RefCell<Vec<u64>> = const { std::cell::RefCell::new(Vec::new()) }; }

fn trace_path() -> Option<&'static str> {
    static P: std::sync::OnceLock<Option<String>> = std::sync::OnceLock::new();
    P.get_or_init(|| std::env::var("VH_TRACE").ok()).as_deref()
}

/// When tracing (single-case crash reproduction), saves the choices made so far and the input about to be run
pub fn trace_flush(text: &str) {
    if let Some(p) = trace_path() {
        TRACE.with(|t| { let _ = std::fs::write(p, format!("{}\n{}", fmt_data(&t.borrow()), text)); });
    }
}

/// The code under test has returned
pub fn trace_done() { if let Some(p) = trace_path() { let _ = std::fs::remove_file(p); } }

// ---------------------------------------------------------------- properties

pub struct Failure {
    pub sig: String,
    pub detail: String,
}

pub fn fail<T>(sig: impl Into<String>, detail: impl Into<String>) -> Result<T, Failure> {
    Err(Failure { sig: sig.into(), detail: detail.into() })
}

/// Per-case context: what the generator produced
#[derive(Default)]
pub struct Cx {
    pub labels: Vec<&'static str>,
    pub sample: String,
    pub nontrivial: bool,
    pub discard: bool,
    pub weight: u64,
}

impl Cx {
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn discard(&mut self) -> Result<(), Failure> { self.discard = true; Ok(()) }
}

pub type CaseFn = fn(&mut Src, &mut Cx) -> Result<(), Failure>;

pub struct Prop {
    pub id: &'static str,
    /// (quick, thorough) number of cases
    pub cases: (u64, u64),
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub run: CaseFn,
    /// Fixed regression inputs and probes of recorded findings, run on every tier
    pub fixed: fn() -> Vec<(String, Result<(), Failure>)>,
}

pub fn no_fixed() -> Vec<(String, Result<(), Failure>)> { Vec::new() }

fn case_seed(seed: u64, id: &str, index: u64) -> u64 {
    let mut s = seed.wrapping_mul(0x2545F4914F6CDD1D) ^ fnv(id.as_bytes()) ^ index.wrapping_mul(0xD6E8FEB86659FD93);
    splitmix(&mut s)
}

pub struct CaseResult {
    pub cx: Cx,
    pub res: Result<(), Failure>,
    pub data: Vec<u64>,
}

pub fn exec(p: &Prop, mut src: Src) -> CaseResult {
    let mut cx = Cx::default();
    let res = crate::vmrun::guard_harness(|| (p.run)(&mut src, &mut cx));
    let used = src.used().min(src.data.len());
    let mut data = src.data;
    data.truncate(used);
    CaseResult { cx, res, data }
}

/// Shrinks a failing choice sequence. Only keeps candidates failing with the same signature.
fn shrink(p: &Prop, data: Vec<u64>, sig: &str, budget: usize, deadline: Instant) -> (Vec<u64>, usize) {
    let mut best = data;
    let mut n = 0usize;
    let try_one = |cand: &Vec<u64>, n: &mut usize| -> Option<Vec<u64>> {
        *n += 1;
        let r = exec(p, Src::replay(cand.clone()));
        match r.res {
            Err(f) if f.sig == sig => {
                let mut d = r.data;
                while d.last() == Some(&0) { d.pop(); }
                Some(d)
            }
            _ => None,
        }
    };
    let better = |a: &Vec<u64>, b: &Vec<u64>| (a.len(), a) < (b.len(), b);
    let mut improved = true;
    while improved && n < budget && Instant::now() < deadline {
        improved = false;
        // delete chunks
        for size in [64usize, 32, 16, 8, 6, 5, 4, 3, 2, 1] {
            let mut i = best.len();
            while i >= size.min(best.len().max(1)) && i > 0 {
                if n >= budget || Instant::now() >= deadline { return (best, n); }
                let lo = i.saturating_sub(size);
                if i > best.len() { i = best.len(); continue; }
                let mut c = best.clone();
                c.drain(lo..i);
                if let Some(d) = try_one(&c, &mut n) {
                    if better(&d, &best) { best = d; improved = true; i = i.min(best.len()); continue; }
                }
                i = i.saturating_sub(if size > 4 { size / 2 } else { 1 });
                if i < size { break; }
            }
        }
        // zero chunks
        for size in [8usize, 4, 2] {
            let mut i = 0;
            while i + size <= best.len() {
                if n >= budget || Instant::now() >= deadline { return (best, n); }
                if best[i..i + size].iter().any(|v| *v != 0) {
                    let mut c = best.clone();
                    c[i..i + size].iter_mut().for_each(|v| *v = 0);
                    if let Some(d) = try_one(&c, &mut n) {
                        if better(&d, &best) { best = d; improved = true; }
                    }
                }
                i += size;
            }
        }
        // lower individual values
        let mut i = 0;
        while i < best.len() {
            let v = best[i];
            let mut cands = vec![0, 1, v / 2, v.saturating_sub(2), v.saturating_sub(1)];
            cands.retain(|c| *c < v);
            cands.dedup();
            for cv in cands {
                if n >= budget || Instant::now() >= deadline { return (best, n); }
                if i >= best.len() { break; }
                let mut c = best.clone();
                c[i] = cv;
                if let Some(d) = try_one(&c, &mut n) {
                    if better(&d, &best) { best = d; improved = true; break; }
                }
            }
            i += 1;
        }
    }
    (best, n)
}

// ---------------------------------------------------------------- json helpers

pub fn jstr(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

// ---------------------------------------------------------------- worker

const SEP: &str = "\u{1}";

fn esc(s: &str) -> String { s.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r").replace('\u{1}', "\\1") }
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('r') => o.push('\r'),
                Some('1') => o.push('\u{1}'),
                Some(c) => o.push(c),
                None => {}
            }
        } else { o.push(c) }
    }
    o
}

fn fmt_data(d: &[u64]) -> String { d.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(",") }
pub fn parse_data(s: &str) -> Vec<u64> { s.split(',').filter(|s| !s.is_empty()).map(|v| v.parse().unwrap()).collect() }

extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}

pub fn limit_memory(bytes: u64) {
    unsafe {
        setrlimit(9 /* RLIMIT_AS */, &[bytes, bytes]);
        setrlimit(4 /* RLIMIT_CORE */, &[0, 0]);
    }
}

/// Runs cases `lo..hi`; writes the index being run to the progress file and a report to stdout
pub fn worker(p: &Prop, seed: u64, lo: u64, hi: u64, progress: &str, max_fail: usize, shrink_budget: usize) {
    use std::os::unix::fs::FileExt;
    let pf = std::fs::OpenOptions::new().create(true).write(true).open(progress).unwrap();
    let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut hashes: HashSet<u64> = HashSet::new();
    let (mut evals, mut discards, mut nontrivial, mut weight) = (0u64, 0u64, 0u64, 0u64);
    let mut samples: Vec<String> = Vec::new();
    let mut seen: HashSet<String> = HashSet::new();
    let known = crate::findings::known(p.id);
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut out = String::new();
    for i in lo..hi {
        pf.write_all_at(&i.to_le_bytes(), 0).unwrap();
        let r = exec(p, Src::random(case_seed(seed, p.id, i)));
        evals += 1;
        if r.cx.discard { discards += 1; continue; }
        for l in &r.cx.labels { *labels.entry(l).or_insert(0) += 1; }
        weight += r.cx.weight;
        if r.cx.nontrivial {
            nontrivial += 1;
            let fresh = hashes.insert(fnv(r.cx.sample.as_bytes()));
            if fresh && samples.len() < 3 && (hashes.len() % 37 == 1 || samples.is_empty()) { samples.push(r.cx.sample.clone()); }
        }
        if let Err(f) = r.res {
            if known.iter().any(|k| k.sig == f.sig) {
                *known_hits.entry(f.sig).or_insert(0) += 1;
                continue;
            }
            if seen.insert(f.sig.clone()) {
                let (data, n) = if f.sig.starts_with("harness") { (r.data.clone(), 0) } else {
                    shrink(p, r.data.clone(), &f.sig, shrink_budget, Instant::now() + Duration::from_secs(60))
                };
                let rr = exec(p, Src::replay(data.clone()));
                let (detail, sample) = match rr.res {
                    Err(g) if g.sig == f.sig => (g.detail, rr.cx.sample),
                    _ => (f.detail, r.cx.sample),
                };
                out.push_str(&["FAIL".to_string(), i.to_string(), esc(&f.sig), esc(&detail), esc(&sample), fmt_data(&data), n.to_string()].join(SEP));
                out.push('\n');
                if seen.len() >= max_fail { break; }
            }
        }
    }
    out.push_str(&["STAT".to_string(), evals.to_string(), discards.to_string(), nontrivial.to_string(), weight.to_string()].join(SEP));
    out.push('\n');
    for (l, n) in labels { out.push_str(&["LABEL".into(), l.to_string(), n.to_string()].join(SEP)); out.push('\n'); }
    for (l, n) in known_hits { out.push_str(&["KNOWN".into(), esc(&l), n.to_string()].join(SEP)); out.push('\n'); }
    for s in samples { out.push_str(&["SAMPLE".into(), esc(&s)].join(SEP)); out.push('\n'); }
    out.push_str("HASHES");
    for h in hashes { out.push_str(SEP); out.push_str(&format!("{:x}", h)); }
    out.push('\n');
    out.push_str("DONE\n");
    std::io::stdout().write_all(out.as_bytes()).unwrap();
}

// ---------------------------------------------------------------- driver

pub struct Found { pub index: u64, pub sig: String, pub detail: String, pub sample: String, pub data: Vec<u64>, pub shrinks: u64 }

#[derive(Default)]
struct Agg {
    evals: u64, discards: u64, nontrivial: u64, weight: u64,
    labels: BTreeMap<String, u64>, known: BTreeMap<String, u64>,
    hashes: HashSet<u64>, samples: Vec<String>, fails: Vec<Found>,
}

fn absorb(a: &mut Agg, text: &str) -> bool {
    let mut done = false;
    for line in text.lines() {
        let f: Vec<&str> = line.split(SEP).collect();
        match f[0] {
            "FAIL" => a.fails.push(Found { index: f[1].parse().unwrap(), sig: unesc(f[2]), detail: unesc(f[3]), sample: unesc(f[4]), data: parse_data(f[5]), shrinks: f[6].parse().unwrap() }),
            "STAT" => {
                a.evals += f[1].parse::<u64>().unwrap(); a.discards += f[2].parse::<u64>().unwrap();
                a.nontrivial += f[3].parse::<u64>().unwrap(); a.weight += f[4].parse::<u64>().unwrap();
            }
            "LABEL" => *a.labels.entry(f[1].into()).or_insert(0) += f[2].parse::<u64>().unwrap(),
            "KNOWN" => *a.known.entry(unesc(f[1])).or_insert(0) += f[2].parse::<u64>().unwrap(),
            "SAMPLE" => if a.samples.len() < 400 { a.samples.push(unesc(f[1])) },
            "HASHES" => for h in &f[1..] { a.hashes.insert(u64::from_str_radix(h, 16).unwrap()); },
            "DONE" => done = true,
            _ => {}
        }
    }
    done
}

struct Job { child: std::process::Child, reader: std::thread::JoinHandle<String>, ereader: std::thread::JoinHandle<String>, lo: u64, hi: u64, progress: String, last: u64, since: Instant }

fn read_progress(path: &str) -> Option<u64> {
    let mut f = std::fs::File::open(path).ok()?;
    let mut b = [0u8; 8];
    f.read_exact(&mut b).ok()?;
    Some(u64::from_le_bytes(b))
}

fn spawn(p: &Prop, seed: u64, lo: u64, hi: u64, dir: &str, max_fail: usize) -> Job {
    let progress = format!("{}/p{}-{}", dir, lo, hi);
    let mut child = Command::new(std::env::current_exe().unwrap())
        .args(["worker", p.id, &seed.to_string(), &lo.to_string(), &hi.to_string(), &progress, &max_fail.to_string()])
        .stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().expect("spawn worker");
    let mut so = child.stdout.take().unwrap();
    let mut se = child.stderr.take().unwrap();
    let reader = std::thread::spawn(move || { let mut v = Vec::new(); let _ = so.read_to_end(&mut v); String::from_utf8_lossy(&v).into_owned() });
    let ereader = std::thread::spawn(move || {
        let mut v = Vec::new(); let mut b = [0u8; 4096];
        while let Ok(n) = se.read(&mut b) { if n == 0 { break; } if v.len() < 65536 { v.extend_from_slice(&b[..n]); } }
        String::from_utf8_lossy(&v).into_owned()
    });
    Job { child, reader, ereader, lo, hi, progress, last: u64::MAX, since: Instant::now() }
}

/// How a case run in a process of its own ended
enum Probe { Fine, Failed(String, String), Died(String), Harness(String) }

/// Runs one case (by index or choice data) in a process of its own, with the choices and input at the time of a crash
fn probe(p: &Prop, seed: u64, what: &str, limit: Duration) -> (Probe, Vec<u64>, String) {
    use std::os::unix::process::ExitStatusExt;
    let file = format!("/tmp/vh-crash-{}-{}", p.id, std::process::id());
    let _ = std::fs::remove_file(&file);
    let mut child = Command::new(std::env::current_exe().unwrap()).args(["one", p.id, &seed.to_string(), what]).env("VH_TRACE", &file)
        .stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().expect("spawn");
    let mut so = child.stdout.take().unwrap();
    let mut se = child.stderr.take().unwrap();
    let to = std::thread::spawn(move || { let mut v = Vec::new(); let _ = so.read_to_end(&mut v); String::from_utf8_lossy(&v).into_owned() });
    let te = std::thread::spawn(move || { let mut v = Vec::new(); let _ = se.read_to_end(&mut v); String::from_utf8_lossy(&v).into_owned() });
    let t0 = Instant::now();
    let mut hung = false;
    let status = loop {
        match child.try_wait() {
            Ok(Some(s)) => break s,
            _ => if t0.elapsed() > limit { hung = true; let _ = child.kill(); break child.wait().expect("wait"); }
        }
        std::thread::sleep(Duration::from_millis(2));
    };
    let (out, err) = (to.join().unwrap_or_default(), te.join().unwrap_or_default());
    // the file is only there while the code under test runs
    let t = std::fs::read_to_string(&file).unwrap_or_default();
    let _ = std::fs::remove_file(&file);
    let mut it = t.splitn(2, '\n');
    let data = parse_data(it.next().unwrap_or(""));
    let sample = it.next().unwrap_or("").to_string();
    let within = !t.is_empty();
    let memory = err.contains("memory allocation of") || err.contains("capacity overflow");
    let kind = if hung { if within { "does not terminate".to_string() } else { return (Probe::Harness("the harness does not terminate".into()), data, sample) } }
        else if let Some(sig) = status.signal() {
            if memory { if within { "runs out of memory".to_string() } else { return (Probe::Harness(format!("the harness ran out of memory: {}", err)), data, sample) } }
            else if sig == 9 { return (Probe::Harness("killed".into()), data, sample) }
            else if err.contains("has overflowed its stack") { if within { "stack overflow".to_string() } else { return (Probe::Harness("stack overflow in the harness".into()), data, sample) } }
            else if err.contains("unsafe precondition") { "undefined behaviour (unsafe precondition violated)".to_string() }
            else { format!("signal {}", sig) }
        }
        else if let Some(f) = out.split("-> FAIL ").nth(1).filter(|_| status.code() == Some(1)) {
            let (sig, detail) = f.split_once('\n').unwrap_or((f, ""));
            return (Probe::Failed(sig.to_string(), detail.to_string()), data, out.split("\n-> FAIL ").next().unwrap_or("").to_string());
        }
        else { return (Probe::Fine, data, sample) };
    (Probe::Died(kind), data, sample)
}

pub fn run_prop(p: &Prop, tier: &str, seed: u64) -> i32 {
    let start = Instant::now();
    let total = std::env::var("VERIF_CASES").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { p.cases.1 } else { p.cases.0 });
    let triage = std::env::var("VERIF_ALL").is_ok();
    let max_fail = if triage { 25 } else { 1 };
    let workers: usize = std::env::var("VERIF_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16));
    let dir = format!("/tmp/vh-{}-{}", p.id, std::process::id());
    std::fs::create_dir_all(&dir).unwrap();
    let mut a = Agg::default();
    let mut errors: Vec<String> = Vec::new();
    let mut fixed_n = 0u64;
    let known = crate::findings::known(p.id);
    let mut known_seen: HashSet<String> = HashSet::new();

    // fixed inputs first
    for (name, res) in (p.fixed)() {
        fixed_n += 1;
        if let Err(f) = res {
            if known.iter().any(|k| k.sig == f.sig) { known_seen.insert(f.sig); }
            else { a.fails.push(Found { index: u64::MAX, sig: f.sig, detail: f.detail, sample: name, data: vec![], shrinks: 0 }); }
        }
    }

    let chunk = (total / (workers as u64 * 6)).clamp(1, 50_000).max(1);
    let mut queue: std::collections::VecDeque<(u64, u64)> = (0..total.div_ceil(chunk)).map(|i| (i * chunk, ((i + 1) * chunk).min(total))).collect();
    let mut jobs: Vec<Job> = Vec::new();
    let hang_limit = Duration::from_secs(100);
    let mut crashes = 0;
    'outer: while !queue.is_empty() || !jobs.is_empty() {
        while jobs.len() < workers {
            match queue.pop_front() { Some((lo, hi)) => jobs.push(spawn(p, seed, lo, hi, &dir, max_fail)), None => break }
        }
        std::thread::sleep(Duration::from_millis(5));
        let mut k = 0;
        while k < jobs.len() {
            match jobs[k].child.try_wait() {
                Ok(Some(status)) => {
                    let j = jobs.swap_remove(k);
                    let text = j.reader.join().unwrap_or_default();
                    let err = j.ereader.join().unwrap_or_default();
                    let done = absorb(&mut a, &text);
                    if !done {
                        use std::os::unix::process::ExitStatusExt;
                        let at = read_progress(&j.progress).unwrap_or(j.lo);
                        if status.signal().is_some() {
                            match isolate(p, seed, at) {
                                Ok(f) => {
                                    crashes += 1;
                                    let sig = f.sig.clone();
                                    if known.iter().any(|k| k.sig == sig) { known_seen.insert(sig); } else { a.fails.push(f); }
                                    if crashes < 20 && at + 1 < j.hi { queue.push_back((at + 1, j.hi)); }
                                    if j.lo < at { queue.push_back((j.lo, at)); }
                                }
                                Err(e) => errors.push(format!("worker died ({:?}) at case {}: {}: {}", status, at, e, err)),
                            }
                        } else {
                            errors.push(format!("worker failed ({:?}) at case {}: {}", status, at, err));
                        }
                    }
                    let _ = std::fs::remove_file(&j.progress);
                    if !triage && (!a.fails.is_empty() || !errors.is_empty()) { break 'outer; }
                }
                _ => {
                    let now = read_progress(&jobs[k].progress).unwrap_or(0);
                    if now != jobs[k].last { jobs[k].last = now; jobs[k].since = Instant::now(); }
                    else if jobs[k].since.elapsed() > hang_limit {
                        match isolate(p, seed, now) {
                            Ok(f) => a.fails.push(f),
                            Err(e) => errors.push(format!("case {} made no progress for {} s: {}", now, hang_limit.as_secs(), e)),
                        }
                        break 'outer;
                    }
                    k += 1;
                }
            }
        }
    }
    for mut j in jobs { let _ = j.child.kill(); let _ = j.child.wait(); }
    let _ = std::fs::remove_dir_all(&dir);

    for k in a.known.keys() { known_seen.insert(k.clone()); }
    a.fails.sort_by(|x, y| (x.index, x.data.len()).cmp(&(y.index, y.data.len())));
    let mut sigs = HashSet::new();
    a.fails.retain(|f| sigs.insert(f.sig.clone()));
    let (harness_fails, fails): (Vec<Found>, Vec<Found>) = a.fails.drain(..).partition(|f| f.sig.starts_with("harness"));
    for f in &harness_fails { errors.push(format!("harness error {}: {}\n{}", f.sig, f.detail, f.sample)); }

    // evidence
    let wall = start.elapsed().as_secs_f64();
    let root = crate::root();
    let _ = std::fs::create_dir_all(format!("{}/evidence/replays", root));
    let step = (a.samples.len() / 8).max(1);
    let samples: Vec<String> = a.samples.iter().step_by(step).take(8).map(|s| jstr(&s.chars().take(1500).collect::<String>())).collect();
    let labels: Vec<String> = a.labels.iter().map(|(l, n)| format!("{}: {}", jstr(l), n)).collect();
    let mut ev = String::from("{\n");
    ev.push_str(&format!(" \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",\n", jstr(p.id), jstr(tier), seed));
    ev.push_str(&format!(" \"coverage\": {{\n  \"evaluations\": {}, \"distinct_nontrivial\": {}, \"nontrivial_with_repeats\": {}, \"discarded\": {}, \"fixed_inputs\": {}, \"work_items\": {},\n  \"rule\": {},\n  \"distribution\": {{{}}},\n  \"known_findings_excluded\": {{{}}},\n  \"samples\": [{}]\n }},\n",
        a.evals, a.hashes.len(), a.nontrivial, a.discards, fixed_n, a.weight, jstr(p.rule), labels.join(", "),
        a.known.iter().map(|(k, n)| format!("{}: {}", jstr(k), n)).collect::<Vec<_>>().join(", "), samples.join(",\n   ")));
    ev.push_str(&format!(" \"assumptions\": [{}],\n", p.assumptions.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", ")));
    ev.push_str(&format!(" \"wall_s\": {:.2}, \"violations\": {}\n}}\n", wall, fails.len()));
    std::fs::write(format!("{}/evidence/{}.json", root, p.id), ev).unwrap();

    for k in known.iter() {
        if known_seen.contains(&k.sig) { println!("KNOWN-FINDING: property={} {}", p.id, k.text); }
    }
    println!("{}: {} cases, {} distinct non-trivial, {} discarded, {:.1} s", p.id, a.evals, a.hashes.len(), a.discards, wall);
    if triage { for (l, n) in &a.labels { println!("   {:>9}  {}", n, l); } }
    for f in &fails {
        let path = format!("{}/evidence/replays/{}-{:016x}.txt", root, p.id, fnv(f.sig.as_bytes()) ^ fnv(fmt_data(&f.data).as_bytes()));
        let body = format!("property: {}\nsignature: {}\nseed: {}\ncase: {}\nshrink-steps: {}\nchoices: {}\n\n--- case ---\n{}\n\n--- failure ---\n{}\n", p.id, f.sig, seed, f.index, f.shrinks, fmt_data(&f.data), f.sample, f.detail);
        let _ = std::fs::write(&path, &body);
        println!("{}", body);
        println!("VIOLATION property={} replay={}", p.id, path);
    }
    if !fails.is_empty() { return 1; }
    if !errors.is_empty() {
        for e in &errors { eprintln!("ERROR: {}", e); }
        return 2;
    }
    0
}

/// Finds out what a case does in a process of its own, and shrinks it
fn isolate(p: &Prop, seed: u64, at: u64) -> Result<Found, String> {
    let (kind, mut best, mut sample) = match probe(p, seed, &at.to_string(), Duration::from_secs(40)) {
        (Probe::Died(k), d, s) => (k, d, s),
        (Probe::Failed(sig, detail), d, s) => return Ok(Found { index: at, sig, detail, sample: s, data: d, shrinks: 0 }),
        (Probe::Fine, _, _) => return Err("the case alone does not fail".into()),
        (Probe::Harness(e), _, _) => return Err(e),
    };
    let limit = Duration::from_secs(if kind == "does not terminate" { 5 } else { 20 });
    let mut n = 0;
    let t0 = Instant::now();
    let mut size = best.len() / 2;
    while size >= 1 && n < 150 && t0.elapsed() < Duration::from_secs(45) {
        let mut i = 0;
        while i + size <= best.len() && n < 150 && t0.elapsed() < Duration::from_secs(45) {
            let mut c = best.clone();
            c.drain(i..i + size);
            n += 1;
            match probe(p, seed, &format!("data:{}", fmt_data(&c)), limit) {
                (Probe::Died(k), d, s) if k == kind && d.len() < best.len() => { best = d; sample = s; }
                _ => i += size,
            }
        }
        size /= 2;
    }
    Ok(Found { index: at, sig: format!("crash: {}", kind), detail: format!("the process dies: {}", kind), sample, data: best, shrinks: n })
}

pub fn one(p: &Prop, seed: u64, what: &str) -> i32 {
    let src = match what.strip_prefix("data:") {
        Some(d) => Src::replay(parse_data(d)),
        None => Src::random(case_seed(seed, p.id, what.parse().unwrap())),
    };
    let r = exec(p, src);
    println!("{}", r.cx.sample);
    println!("labels: {:?} nontrivial: {} discard: {}", r.cx.labels, r.cx.nontrivial, r.cx.discard);
    match r.res {
        Ok(()) => { println!("-> ok"); 0 }
        Err(f) => { println!("-> FAIL {}\n{}", f.sig, f.detail); 1 }
    }
}
