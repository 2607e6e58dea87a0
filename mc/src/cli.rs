//! The command line tool as a process: it is built from the tree the checker itself is built against and run in scratch
//! directories.
use crate::report::*;
use std::collections::HashMap;
use std::ffi::OsStr;
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub fn repo() -> PathBuf {
    let m = include_str!("../Cargo.toml");
    let at = m.find("tinywasm = { path = \"").unwrap() + 21;
    PathBuf::from(&m[at..at + m[at..].find("/crates/").unwrap()])
}
/// Builds the tool; exits with status 2 (no answer) if that is impossible.
pub fn binary() -> PathBuf {
    let target = Path::new(env!("CARGO_MANIFEST_DIR")).join("../target/cli");
    let mut c = Command::new("cargo");
    c.args(["build", "--release", "--offline", "--locked", "-q", "-p", "tinywasm-cli", "--bin", "tinywasm", "--manifest-path"]).arg(repo().join("Cargo.toml")).arg("--target-dir").arg(&target);
    c.env("CARGO_PROFILE_RELEASE_LTO", "false").env("CARGO_PROFILE_RELEASE_CODEGEN_UNITS", "16").env("CARGO_PROFILE_RELEASE_DEBUG", "false").env("CARGO_PROFILE_RELEASE_OPT_LEVEL", "2").env("CARGO_PROFILE_RELEASE_INCREMENTAL", "true");
    let o = c.output().expect("cargo");
    if !o.status.success() { eprintln!("check: the command line tool does not build\n{}", String::from_utf8_lossy(&o.stderr)); std::process::exit(2) }
    target.join("release/tinywasm")
}
pub struct Ran { pub code: Option<i32>, pub sig: Option<i32>, pub out: Vec<u8>, pub err: String, pub slow: bool }
impl Ran {
    pub fn text(&self) -> String { String::from_utf8_lossy(&self.out).into_owned() }
    pub fn show(&self) -> String { format!("status {:?} signal {:?} stdout {:?} stderr {:?}", self.code, self.sig, self.text().chars().take(300).collect::<String>(), self.err.chars().take(300).collect::<String>()) }
}
type Live = Arc<Mutex<HashMap<u32, Instant>>>;
pub struct Tool { pub bin: PathBuf, root: PathBuf, n: AtomicU64, live: Live }
impl Tool {
    pub fn new(name: &str) -> Tool {
        let bin = binary();
        let root = std::env::temp_dir().join(format!("mc-{name}-{}", std::process::id()));
        std::fs::create_dir_all(&root).expect("scratch directory");
        let live: Live = Live::default();
        let l = live.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let old: Vec<u32> = l.lock().unwrap().iter().filter(|(_, t)| t.elapsed() > Duration::from_secs(40)).map(|x| *x.0).collect();
            for p in old { let _ = Command::new("kill").args(["-9", &p.to_string()]).status(); }
        });
        Tool { bin, root, n: AtomicU64::new(0), live }
    }
    /// A new empty directory.
    pub fn dir(&self) -> PathBuf {
        let d = self.root.join(self.n.fetch_add(1, Relaxed).to_string());
        std::fs::create_dir_all(&d).expect("scratch directory");
        d
    }
    pub fn command(&self, dir: &Path, args: &[impl AsRef<OsStr>]) -> Command { let mut c = Command::new(&self.bin); c.args(args); self.prepare(&mut c, dir); c }
    pub fn prepare(&self, c: &mut Command, dir: &Path) { c.current_dir(dir).env_clear().env("PATH", "/usr/bin:/bin").env("NO_COLOR", "1").env("RUST_BACKTRACE", "0"); }
    pub fn run(&self, dir: &Path, args: &[impl AsRef<OsStr>], stdin: &[u8]) -> Ran { self.go(self.command(dir, args), stdin) }
    pub fn go(&self, mut c: Command, stdin: &[u8]) -> Ran {
        c.stdin(if stdin.is_empty() { Stdio::null() } else { Stdio::piped() }).stdout(Stdio::piped()).stderr(Stdio::piped());
        let mut ch = c.spawn().expect("spawn");
        let id = ch.id();
        let t = Instant::now();
        self.live.lock().unwrap().insert(id, t);
        if let Some(mut i) = ch.stdin.take() { let _ = i.write_all(stdin); }
        let o = ch.wait_with_output().expect("wait");
        self.live.lock().unwrap().remove(&id);
        Ran { code: o.status.code(), sig: o.status.signal(), out: o.stdout, err: String::from_utf8_lossy(&o.stderr).into_owned(), slow: t.elapsed() > Duration::from_secs(40) }
    }
}
impl Drop for Tool { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.root); } }

/// What a run must end with.
#[derive(Clone, Debug)]
pub enum Want { Out(Vec<u8>), Ok, Fail }
pub fn judge(c: &Check, l: &mut Local, key: impl Into<String>, args: &str, files: &str, r: &Ran, w: &Want) -> bool {
    l.transitions += 1; l.traces += 1;
    l.states.insert(hash(&(args, r.code, &r.out)));
    let e = if r.slow { Some("does not end".to_string()) } else if r.sig.is_some() || r.code == Some(101) { Some(format!("the tool crashes: {}", r.show())) } else {
        match w {
            Want::Out(o) if r.code != Some(0) => Some(format!("fails, must print {:?}: {}", String::from_utf8_lossy(o).chars().take(200).collect::<String>(), r.show())),
            Want::Out(o) if *o != r.out => Some(format!("must print {:?}: {}", String::from_utf8_lossy(o).chars().take(600).collect::<String>(), r.show())),
            Want::Ok if r.code != Some(0) => Some(format!("must succeed: {}", r.show())),
            Want::Fail if r.code == Some(0) => Some(format!("must fail with a non-zero status: {}", r.show())),
            Want::Fail if !r.out.is_empty() => Some(format!("a failing run prints results: {}", r.show())),
            Want::Fail if r.err.trim().is_empty() => Some(format!("fails without a message: {}", r.show())),
            _ => None,
        }
    };
    if let Some(e) = &e { c.violation(key, format!("tinywasm {args}: {e}"), files); }
    l.sample(|| format!("tinywasm {args} -> {}", r.show()));
    e.is_none()
}
