//! Runs the command line tool, and compiles the native libraries it links to.

use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::OnceLock;
use std::time::{Duration, Instant};

pub struct Out { pub stdout: Vec<u8>, pub stderr: Vec<u8>, pub code: Option<i32>, pub signal: Option<i32>, pub late: bool }

impl Out {
    pub fn text(&self) -> String { String::from_utf8_lossy(&self.stdout).into_owned() }
    pub fn errors(&self) -> String { String::from_utf8_lossy(&self.stderr).into_owned() }
    /// Whether the tool itself failed, and how
    pub fn crash(&self) -> Option<String> {
        if self.late { return Some("it does not end within 30 s".into()) }
        if let Some(s) = self.signal { return Some(format!("it is ended by signal {}", s)) }
        let e = self.errors();
        if self.code == Some(101) || e.contains("panicked at") { return Some(format!("it panics: {}", e.lines().take(3).collect::<Vec<_>>().join(" | "))) }
        None
    }
    pub fn show(&self) -> String { format!("standard output:\n{}\nstandard error:\n{}\ncode {:?} signal {:?}", self.text(), self.errors(), self.code, self.signal) }
}

pub fn root() -> PathBuf { PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| concat!(env!("CARGO_MANIFEST_DIR"), "/..").to_string())) }
pub fn tool() -> PathBuf { root().join("target-bin/debug/cordy") }

/// Runs the tool, with the environment given and no other
pub fn run<S: AsRef<std::ffi::OsStr>>(args: &[S], stdin: &[u8], env: &[(std::ffi::OsString, std::ffi::OsString)], cwd: &Path) -> std::io::Result<Out> {
    let mut c = Command::new(tool());
    c.args(args.iter()).env_clear().current_dir(cwd).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped());
    for (k, v) in env { c.env(k, v); }
    let mut child = c.spawn()?;
    let (mut i, mut o, mut e) = (child.stdin.take().unwrap(), child.stdout.take().unwrap(), child.stderr.take().unwrap());
    let input = stdin.to_vec();
    let feed = std::thread::spawn(move || { let _ = i.write_all(&input); });
    let out = std::thread::spawn(move || { let mut b = Vec::new(); let _ = o.read_to_end(&mut b); b });
    let err = std::thread::spawn(move || { let mut b = Vec::new(); let _ = e.read_to_end(&mut b); b });
    let start = Instant::now();
    let mut nap = 200;
    let (status, late) = loop {
        if let Some(s) = child.try_wait()? { break (s, false) }
        if start.elapsed() > Duration::from_secs(30) { let _ = child.kill(); break (child.wait()?, true) }
        std::thread::sleep(Duration::from_micros(nap));
        nap = (nap * 2).min(5000);
    };
    let _ = feed.join();
    use std::os::unix::process::ExitStatusExt;
    Ok(Out { stdout: out.join().unwrap_or_default(), stderr: err.join().unwrap_or_default(), code: status.code(), signal: status.signal(), late })
}

/// A directory of this process, for files of the cases
pub fn scratch() -> &'static Path {
    static DIR: OnceLock<PathBuf> = OnceLock::new();
    DIR.get_or_init(|| {
        let d = std::env::temp_dir().join(format!("vh-{}", std::process::id()));
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(&d).expect("a scratch directory");
        d
    })
}

/// A fresh directory for one case, removed when dropped
pub struct Dir(pub PathBuf);
impl Dir {
    pub fn new() -> Dir {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        let d = scratch().join(format!("c{}", N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&d).expect("a scratch directory");
        Dir(d)
    }
}
impl Drop for Dir { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }

/// Removes what this process left
pub fn clean() { let _ = std::fs::remove_dir_all(std::env::temp_dir().join(format!("vh-{}", std::process::id()))); }
