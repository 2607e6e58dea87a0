//! Result collection, parallel job execution, evidence files and known findings.
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::path::PathBuf;
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier { Quick, Thorough }

pub fn verif_dir() -> PathBuf { std::env::var_os("VERIF_DIR").map(Into::into).unwrap_or_else(|| "/verif".into()) }

pub struct Violation { pub key: String, pub what: String, pub replay: String }

/// FNV-1a, stable across runs and toolchains.
#[derive(Clone)]
pub struct H(pub u64);
impl Default for H { fn default() -> Self { H(0xcbf29ce484222325) } }
impl Hasher for H {
    fn finish(&self) -> u64 { let mut x = self.0; x ^= x >> 32; x = x.wrapping_mul(0x9e3779b97f4a7c15); x ^ x >> 29 }
    fn write(&mut self, b: &[u8]) { for x in b { self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3) } }
}
pub fn hash(v: &(impl Hash + ?Sized)) -> u64 { let mut h = H::default(); v.hash(&mut h); h.finish() }

/// Counters local to one worker; merged when the worker finishes.
#[derive(Default)]
pub struct Local {
    pub transitions: u64,
    pub traces: u64,
    pub states: HashSet<u64>,
    pub extra: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
}
impl Local {
    pub fn add(&mut self, k: &'static str, n: u64) { *self.extra.entry(k).or_default() += n; }
    pub fn sample(&mut self, f: impl FnOnce() -> String) { if self.samples.len() < 2 { let s = f(); self.samples.push(if s.len() > 1500 { s.chars().take(1500).chain("...".chars()).collect() } else { s }) } }
}

pub struct Check {
    pub id: &'static str,
    pub tier: Tier,
    pub start: Instant,
    pub merged: Mutex<Local>,
    pub violations: Mutex<Vec<Violation>>,
    pub stop: AtomicBool,
    pub bounds: Mutex<Vec<String>>,
    pub assumptions: Mutex<Vec<String>>,
    pub capped: AtomicBool,
    pub job_count: AtomicU64,
    pub known: Vec<(String, String)>,
    pub known_seen: Mutex<HashSet<String>>,
}
impl Check {
    pub fn new(id: &'static str, tier: Tier) -> Check {
        Check { id, tier, start: Instant::now(), merged: Default::default(), violations: Default::default(), stop: AtomicBool::new(false), bounds: Default::default(), assumptions: Default::default(), capped: AtomicBool::new(false), job_count: AtomicU64::new(0), known: known_findings(id), known_seen: Default::default() }
    }
    pub fn quick(&self) -> bool { self.tier == Tier::Quick }
    pub fn pick<T>(&self, q: T, t: T) -> T { if self.quick() { q } else { t } }
    pub fn bound(&self, s: impl Into<String>) { self.bounds.lock().unwrap().push(s.into()) }
    pub fn assume(&self, s: impl Into<String>) { self.assumptions.lock().unwrap().push(s.into()) }
    pub fn violation(&self, key: impl Into<String>, what: impl Into<String>, replay: impl Into<String>) {
        let key = key.into();
        if self.known.iter().any(|(k, _)| *k == key) { self.known_seen.lock().unwrap().insert(key); return; }
        let mut v = self.violations.lock().unwrap();
        if v.len() >= 40 { self.stop.store(true, Relaxed); return; }
        if v.iter().any(|x| x.key == key) { return; }
        v.push(Violation { key, what: what.into(), replay: replay.into() });
    }
    pub fn stopped(&self) -> bool { self.stop.load(Relaxed) }
    pub fn merge(&self, l: Local) {
        let mut m = self.merged.lock().unwrap();
        m.transitions += l.transitions;
        m.traces += l.traces;
        m.states.extend(l.states);
        for (k, v) in l.extra { *m.extra.entry(k).or_default() += v; }
        for s in l.samples { if m.samples.len() < 6 && !m.samples.contains(&s) { m.samples.push(s) } }
    }
    /// Runs `f` for every job index on all cores; every job is executed exactly once.
    pub fn par(&self, jobs: usize, f: impl Fn(usize, &mut Local) + Sync) {
        let next = AtomicUsize::new(0);
        let n = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(jobs.max(1));
        std::thread::scope(|s| {
            for _ in 0..n {
                std::thread::Builder::new().stack_size(512 << 20).spawn_scoped(s, || {
                    let mut l = Local::default();
                    loop {
                        let j = next.fetch_add(1, Relaxed);
                        if j >= jobs || self.stopped() { break; }
                        self.job_count.fetch_add(1, Relaxed);
                        f(j, &mut l);
                        if l.states.len() > 2_000_000 { self.merge(std::mem::take(&mut l)) }
                    }
                    self.merge(l);
                }).unwrap();
            }
        });
    }
    /// Writes the evidence file, prints the verdict and returns the exit code.
    pub fn finish(&self) -> i32 {
        let dir = verif_dir();
        let m = self.merged.lock().unwrap();
        let fresh = self.violations.lock().unwrap();
        let seen_known = self.known_seen.lock().unwrap();
        for (k, d) in &self.known { println!("KNOWN-FINDING: property={} {} ({}{})", self.id, d, k, if seen_known.contains(k) { "" } else { "; not reached in this run" }); }
        let wall = self.start.elapsed().as_secs_f64();
        let mut cov = String::new();
        cov += &format!("\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{}", m.states.len(), m.transitions, m.traces);
        for (k, n) in &m.extra { cov += &format!(",\"{k}\":{n}"); }
        let complete = !self.capped.load(Relaxed) && !self.stopped();
        cov += &format!(",\"exhaustive\":{complete}");
        cov += &format!(",\"bounds\":[{}]", self.bounds.lock().unwrap().iter().map(|s| js(s)).collect::<Vec<_>>().join(","));
        cov += &format!(",\"samples\":[{}]", m.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(","));
        let ev = format!("{{\"property\":\"{}\",\"tier\":\"{}\",\"seed\":{},\"level\":\"model_checking\",\"coverage\":{{{cov}}},\"assumptions\":[{}],\"wall_s\":{wall:.2},\"violations\":{}}}\n",
            self.id, if self.quick() { "quick" } else { "thorough" }, std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1),
            self.assumptions.lock().unwrap().iter().map(|s| js(s)).collect::<Vec<_>>().join(","), fresh.len());
        let _ = std::fs::create_dir_all(dir.join("evidence"));
        std::fs::write(dir.join(format!("evidence/{}.json", self.id)), ev).expect("write evidence");
        println!("{}: states={} transitions={} traces={} {:?} exhaustive={complete} wall={wall:.1}s", self.id, m.states.len(), m.transitions, m.traces, m.extra);
        if fresh.is_empty() { return 0; }
        let rd = dir.join("evidence/replay");
        let _ = std::fs::create_dir_all(&rd);
        for (i, x) in fresh.iter().take(10).enumerate() {
            let p = rd.join(format!("{}-{i}.txt", self.id));
            let _ = std::fs::write(&p, format!("property {}\nkey {}\n{}\n\n{}\n", self.id, x.key, x.what, x.replay));
            println!("VIOLATION property={} replay={}", self.id, p.display());
            if i < 3 { println!("  key: {:.400}\n  {:.1200}", x.key, x.what.replace('\n', "\n  ")); }
        }
        1
    }
}
pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32), c => o.push(c) } }
    o + "\""
}
/// known_findings.txt: lines `known: property=<id> key=<key> :: <description>`; other lines are ignored here.
fn known_findings(id: &str) -> Vec<(String, String)> {
    let Ok(t) = std::fs::read_to_string(verif_dir().join("known_findings.txt")) else { return vec![] };
    t.lines().filter_map(|l| {
        let r = l.strip_prefix("known: property=")?;
        let (pid, r) = r.split_once(" key=")?;
        let (k, d) = r.split_once(" :: ")?;
        (pid == id).then(|| (k.to_string(), d.to_string()))
    }).collect()
}
