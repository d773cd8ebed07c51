//! Runs source text through the real compiler and virtual machine, turning every outcome (including panics
//! and divergence) into a value.

use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Once;

use cordy_sys::{compiler, vm, SourceView};
use cordy_sys::util::{Noop, SharedWrite};
use cordy_sys::vm::{ExitType, VirtualMachine};

use crate::engine::Failure;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum End {
    /// ran to completion
    Return,
    /// via `exit`
    Exit,
    Yield,
    /// formatted runtime error report
    Error(String),
    Compile(Vec<String>),
    /// the implementation itself failed
    Panic(String),
    Diverged,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Run {
    pub out: String,
    pub end: End,
}

impl Run {
    /// first line of the error report
    pub fn err(&self) -> Option<&str> {
        match &self.end {
            End::Error(s) => Some(s.lines().next().unwrap_or("")),
            _ => None,
        }
    }
    pub fn show(&self) -> String { format!("output:\n{}\nend: {}", self.out, show_end(&self.end)) }
}

pub fn show_end(e: &End) -> String {
    match e {
        End::Error(s) => format!("runtime error\n{}", s),
        End::Compile(s) => format!("compile errors\n{}", s.join("\n")),
        e => format!("{:?}", e),
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_hook() {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| {
        std::panic::set_hook(Box::new(|info| {
            let msg = info.payload().downcast_ref::<&str>().map(|s| s.to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or_else(|| "<payload>".into());
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            if std::env::var("VH_PANICS").is_ok() || msg.contains("unsafe precondition") || !info_can_unwind(&msg) {
                eprintln!("{} at {}", msg, loc);
            }
            LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
        }));
    });
}

fn info_can_unwind(msg: &str) -> bool { !msg.contains("cannot unwind") && !msg.contains("in a destructor during cleanup") }

pub enum Caught { Panic(String), Fuel }

/// Runs code under test, catching panics
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, Caught> {
    install_hook();
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(e) => {
            if e.downcast_ref::<cordy_sys::verif::FuelExhausted>().is_some() { return Err(Caught::Fuel); }
            let (msg, loc) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            Err(Caught::Panic(format!("{} @ {}", msg, loc)))
        }
    }
}

/// Runs a whole case; panics of the harness itself become harness failures
pub fn guard_harness(f: impl FnOnce() -> Result<(), Failure>) -> Result<(), Failure> {
    match catch(f) {
        Ok(r) => r,
        Err(Caught::Panic(m)) => Err(Failure { sig: format!("harness panic {}", m), detail: m }),
        Err(Caught::Fuel) => Err(Failure { sig: "harness fuel".into(), detail: "fuel exhausted outside of guarded code".into() }),
    }
}

/// A stable signature for a panic: message with digits removed and the source file without the line
pub fn panic_sig(m: &str) -> String {
    let (msg, loc) = m.rsplit_once(" @ ").unwrap_or((m, ""));
    let file = loc.rsplit_once(':').map(|x| x.0).unwrap_or(loc);
    let file = file.rsplit_once("cordy-sys/src/").map(|x| x.1).or_else(|| file.rsplit_once("/registry/src/").map(|x| x.1)).or_else(|| file.rsplit_once("/library/").map(|x| x.1)).unwrap_or(file);
    let mut s: String = msg.chars().take(48).map(|c| if c.is_ascii_digit() { '#' } else { c }).collect();
    while s.contains("##") { s = s.replace("##", "#"); }
    let s = s.split(['`', '\n']).next().unwrap_or("").to_string();
    format!("panic: {} in {}", s.trim(), file)
}

pub const COMPILE_FUEL: u64 = 3_000_000;
pub const RUN_FUEL: u64 = 3_000_000;

pub fn run(text: &str, opt: bool) -> Run { run_full("<test>", text, opt, "", &[], RUN_FUEL) }
pub fn run_with_input(text: &str, opt: bool, input: &str) -> Run { run_full("<test>", text, opt, input, &[], RUN_FUEL) }

static LENIENT: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// Like run_full, for arbitrary text, which may rightly ask for more memory than there is: this counts as divergence
pub fn run_any(name: &str, text: &str, opt: bool, input: &str, args: &[String], fuel: u64) -> Run {
    use std::sync::atomic::Ordering::Relaxed;
    std::alloc::set_alloc_error_hook(|_| if LENIENT.load(Relaxed) { std::panic::panic_any(cordy_sys::verif::FuelExhausted) });
    LENIENT.store(true, Relaxed);
    let mut r = run_full(name, text, opt, input, args, fuel);
    LENIENT.store(false, Relaxed);
    std::alloc::take_alloc_error_hook();
    if matches!(&r.end, End::Panic(m) if m.contains("capacity overflow")) { r.end = End::Diverged; }
    r
}

/// Like run_full, with that many times the fuel
pub fn run_scaled(name: &str, text: &str, opt: bool, times: u64) -> Run {
    SCALE.store(times, std::sync::atomic::Ordering::Relaxed);
    let r = run_full(name, text, opt, "", &[], RUN_FUEL * times);
    SCALE.store(1, std::sync::atomic::Ordering::Relaxed);
    r
}
static SCALE: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1);

pub fn run_full(name: &str, text: &str, opt: bool, input: &str, args: &[String], fuel: u64) -> Run {
    crate::engine::trace_flush(text);
    let w = SharedWrite::new();
    let buf = w.inner();
    cordy_sys::verif::set_fuel(COMPILE_FUEL * SCALE.load(std::sync::atomic::Ordering::Relaxed));
    let r = catch(|| {
        let view = SourceView::new(name.to_string(), text.to_string());
        let c = match compiler::compile(opt, &view) {
            Ok(c) => c,
            Err(e) => return End::Compile(e),
        };
        cordy_sys::verif::set_fuel(fuel);
        let mut m = VirtualMachine::new(c, view, input.as_bytes(), w, Noop);
        if !args.is_empty() { m.with_args(args.to_vec()); }
        let end = m.run_until_completion();
        cordy_sys::verif::set_fuel(u64::MAX);
        let end = match end {
            ExitType::Return => End::Return,
            ExitType::Exit => End::Exit,
            ExitType::Yield => End::Yield,
            ExitType::Error(e) => End::Error(m.view().format(&e)),
        };
        drop(m);
        end
    });
    cordy_sys::verif::set_fuel(u64::MAX);
    crate::engine::trace_done();
    let out = String::from_utf8_lossy(&buf.borrow()).into_owned();
    let end = match r {
        Ok(e) => e,
        Err(Caught::Panic(m)) => End::Panic(m),
        Err(Caught::Fuel) => End::Diverged,
    };
    Run { out, end }
}

pub fn compile(text: &str, opt: bool) -> Result<Result<vm_compiled::C, Vec<String>>, Caught> {
    crate::engine::trace_flush(text);
    cordy_sys::verif::set_fuel(COMPILE_FUEL);
    let r = catch(|| {
        let view = SourceView::new("<test>".to_string(), text.to_string());
        compiler::compile(opt, &view).map(|c| vm_compiled::C { res: c, view })
    });
    cordy_sys::verif::set_fuel(u64::MAX);
    crate::engine::trace_done();
    r
}

pub mod vm_compiled {
    use cordy_sys::{compiler::CompileResult, SourceView};
    pub struct C { pub res: CompileResult, pub view: SourceView }
}

#[allow(unused)] pub use vm::DetailRuntimeError;

// ===== the interactive mode ===== //

/// A session of the interactive mode; each input may consist of several lines
pub struct Session {
    repl: Option<cordy_sys::repl::Repl<SharedWrite, Noop>>,
    w: SharedWrite,
    done: usize,
    pub fuel: u64,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Reply {
    /// what was printed, and whether more lines are wanted
    Ok { out: String, more: bool },
    Exit { out: String },
    Panic { out: String, msg: String },
    Diverged,
}

impl Session {
    pub fn new() -> Session {
        let w = SharedWrite::new();
        let repl = catch(|| cordy_sys::repl::Repl::new(w.clone(), Noop)).ok();
        Session { repl, w, done: 0, fuel: RUN_FUEL }
    }

    fn fresh(&mut self) -> String {
        let buf = self.w.inner();
        let b = buf.borrow();
        let s = String::from_utf8_lossy(&b[self.done..]).into_owned();
        self.done = b.len();
        s
    }

    /// One line. After anything but `Ok`, the session is over
    pub fn line(&mut self, line: &str) -> Reply {
        use cordy_sys::repl::{ReadResult, RunResult};
        let Some(mut repl) = self.repl.take() else { return Reply::Exit { out: String::new() } };
        crate::engine::trace_flush(line);
        cordy_sys::verif::set_fuel(self.fuel);
        let r = catch(|| repl.run(ReadResult::Ok(line.to_string())));
        cordy_sys::verif::set_fuel(u64::MAX);
        crate::engine::trace_done();
        let out = self.fresh();
        match r {
            Ok(RunResult::Ok) => {
                let more = repl.prompt() == "... ";
                self.repl = Some(repl);
                Reply::Ok { out, more }
            }
            Ok(RunResult::Exit) | Ok(RunResult::Error(_)) => Reply::Exit { out },
            Err(Caught::Panic(msg)) => { std::mem::forget(repl); Reply::Panic { out, msg } }
            Err(Caught::Fuel) => { std::mem::forget(repl); Reply::Diverged }
        }
    }
}
