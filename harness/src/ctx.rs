//! Run context: what the monitors observed, violations, known findings, evidence, panics, hangs.

use serde_json::{Value, json};
use std::{
    cell::RefCell,
    collections::{BTreeMap, BTreeSet, HashSet},
    hash::{Hash, Hasher},
    panic::{AssertUnwindSafe, catch_unwind},
    path::PathBuf,
    sync::{
        Mutex,
        atomic::{AtomicBool, AtomicU64, Ordering},
    },
    time::{Duration, Instant},
};

/// The verdict of the machinery itself failing: never a violation, never a pass.
#[derive(Debug)]
pub struct HarnessError(pub String);

pub struct Violation {
    pub sig: String,
    pub detail: Value,
}

pub struct Ctx {
    pub pid: String,
    pub tier: String,
    pub seed: u64,
    pub start: Instant,
    pub budget: Duration,
    pub counters: BTreeMap<String, u64>,
    distinct: HashSet<u64>,
    pub samples: Vec<Value>,
    pub violations: Vec<Violation>,
    pub known_seen: BTreeMap<String, u64>,
    known: BTreeMap<String, String>,
    pub rule: String,
    pub level: String,
    pub assumptions: Vec<String>,
    required: Vec<(String, u64)>,
    pub notes: BTreeMap<String, Value>,
    replay_case: Option<u64>,
    cur_case: u64,
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".to_string()))
}

/// A unique scratch directory removed at drop. Lives in the system's temp directory.
pub fn scratch() -> tempfile::TempDir {
    let base = std::env::var("MON_SCRATCH").unwrap_or_else(|_| "/tmp".to_string());
    tempfile::Builder::new()
        .prefix("trane-mon-")
        .tempdir_in(base)
        .expect("harness: cannot create a scratch directory")
}

pub fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

// ---------------------------------------------------------------------------------------------
// Panic monitor.

#[derive(Clone, Debug, Default)]
pub struct PanicInfo {
    pub location: String,
    pub message: String,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<PanicInfo>> = const { RefCell::new(None) };
    static QUIET: RefCell<bool> = const { RefCell::new(false) };
}
static ALL_PANICS: Mutex<Vec<PanicInfo>> = Mutex::new(Vec::new());

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let location = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let message = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| (*s).to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "<non-string panic>".to_string());
        let p = PanicInfo { location, message };
        LAST_PANIC.with(|c| *c.borrow_mut() = Some(p.clone()));
        if let Ok(mut all) = ALL_PANICS.lock() {
            all.push(p.clone());
        }
        eprintln!("panic at {}: {}", p.location, p.message);
    }));
}

impl PanicInfo {
    /// Panics located in this crate's own sources are failures of the machinery.
    pub fn in_harness(&self) -> bool {
        self.location.starts_with("src/") || self.location.contains("/verif/")
            || self.message.starts_with("harness:")
    }
    /// A location without line number, so that signatures survive unrelated edits.
    pub fn file(&self) -> String {
        self.location.split(':').next().unwrap_or("").to_string()
    }
}

/// Runs code under test, turning a panic into a value.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, PanicInfo> {
    LAST_PANIC.with(|c| *c.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC
            .with(|c| c.borrow_mut().take())
            .unwrap_or_default()),
    }
}

// ---------------------------------------------------------------------------------------------
// Non-termination monitor: CPU time burnt by the process since the last sign of progress.

static PROGRESS: AtomicU64 = AtomicU64::new(0);
static WATCHING: AtomicBool = AtomicBool::new(false);

pub fn tick() {
    PROGRESS.fetch_add(1, Ordering::Relaxed);
}

pub fn cpu_seconds() -> f64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    if f.len() < 13 {
        return 0.0;
    }
    let u: f64 = f[11].parse().unwrap_or(0.0);
    let k: f64 = f[12].parse().unwrap_or(0.0);
    (u + k) / 100.0
}

/// A call into the code under test normally costs milliseconds; one that has burnt `limit` CPU
/// seconds without any sign of progress is reported by the process as non-terminating.
pub fn start_watchdog(pid: String, limit: f64) {
    if WATCHING.swap(true, Ordering::SeqCst) {
        return;
    }
    std::thread::spawn(move || {
        let mut last = PROGRESS.load(Ordering::Relaxed);
        let mut cpu = cpu_seconds();
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let now = PROGRESS.load(Ordering::Relaxed);
            let c = cpu_seconds();
            if now != last {
                last = now;
                cpu = c;
            } else if c - cpu > limit {
                let path = verif_dir().join("evidence").join(format!("{pid}.hang.json"));
                let _ = std::fs::create_dir_all(verif_dir().join("evidence"));
                let _ = std::fs::write(
                    &path,
                    json!({"property": pid, "what": "an operation of the code under test burnt CPU without returning",
                           "cpu_seconds": c - cpu, "last_step": last_step()})
                    .to_string(),
                );
                println!(
                    "VIOLATION property={pid} replay={} non-termination: {:.0} CPU seconds in one operation ({})",
                    path.display(),
                    c - cpu,
                    last_step()
                );
                std::process::exit(1);
            }
        }
    });
}

static LAST_STEP: Mutex<String> = Mutex::new(String::new());
pub fn step(s: impl Into<String>) {
    tick();
    if let Ok(mut g) = LAST_STEP.lock() {
        *g = s.into();
    }
}
fn last_step() -> String {
    LAST_STEP.lock().map(|s| s.clone()).unwrap_or_default()
}

// ---------------------------------------------------------------------------------------------

impl Ctx {
    pub fn new(pid: &str, tier: &str, seed: u64) -> Self {
        let thorough = tier == "thorough";
        let default_budget = if thorough { 600 } else { 40 };
        let budget = std::env::var("MON_BUDGET_S")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(default_budget);
        let known = load_known(pid);
        Ctx {
            pid: pid.to_string(),
            tier: tier.to_string(),
            seed,
            start: Instant::now(),
            budget: Duration::from_secs(budget),
            counters: BTreeMap::new(),
            distinct: HashSet::new(),
            samples: vec![],
            violations: vec![],
            known_seen: BTreeMap::new(),
            known,
            rule: String::new(),
            level: "exploration".to_string(),
            assumptions: vec![],
            required: vec![],
            notes: BTreeMap::new(),
            replay_case: std::env::var("MON_CASE").ok().and_then(|s| s.parse().ok()),
            cur_case: 0,
        }
    }

    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }

    /// n in quick, n*k in thorough.
    pub fn scale(&self, n: usize, k: usize) -> usize {
        if self.thorough() { n * k } else { n }
    }

    pub fn time_left(&self) -> bool {
        self.start.elapsed() < self.budget
    }

    /// Whether `frac` of the budget is not used yet: for checks of several parts.
    pub fn time_left_frac(&self, frac: f64) -> bool {
        self.start.elapsed().as_secs_f64() < self.budget.as_secs_f64() * frac
    }

    pub fn count(&mut self, k: &str) {
        self.add(k, 1);
    }

    pub fn add(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.to_string()).or_insert(0) += n;
    }

    pub fn get(&self, k: &str) -> u64 {
        self.counters.get(k).copied().unwrap_or(0)
    }

    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.counters.entry(k.to_string()).or_insert(0);
        *e = (*e).max(n);
    }

    /// Registers a distinct non-trivial observation.
    pub fn seen<T: Hash>(&mut self, t: &T) -> bool {
        self.distinct.insert(hash_of(t))
    }

    pub fn n_violations(&self) -> usize {
        self.violations.len()
    }

    pub fn n_distinct(&self) -> usize {
        self.distinct.len()
    }

    pub fn sample(&mut self, v: Value) {
        if self.samples.len() < 8 {
            self.samples.push(v);
        }
    }

    /// The run is a harness error unless the counter reaches `n`: a monitor that observed nothing
    /// has not decided anything.
    pub fn require(&mut self, counter: &str, n: u64) {
        self.required.push((counter.to_string(), n));
    }

    pub fn violate(&mut self, sig: impl Into<String>, detail: Value) {
        let sig = sig.into();
        if self.known.contains_key(&sig) {
            *self.known_seen.entry(sig).or_insert(0) += 1;
            return;
        }
        if self.violations.iter().any(|v| v.sig == sig) {
            return;
        }
        eprintln!("violation: {sig}: {detail}");
        let mut detail = detail;
        if let Some(o) = detail.as_object_mut() {
            o.insert("case".into(), json!(self.cur_case));
        }
        self.violations.push(Violation { sig, detail });
    }

    pub fn known_sigs(&self) -> Vec<String> {
        self.known.keys().cloned().collect()
    }

    pub fn stop(&self) -> bool {
        self.violations.len() >= 3
    }

    /// Runs numbered cases until the budget (as a fraction) or `max` is exhausted; at least `min`
    /// run regardless of the clock. A panic in the code under test is a violation of the property
    /// (the operation it promises a result for has none); a panic in the harness is an error.
    pub fn cases(
        &mut self,
        name: &str,
        min: usize,
        max: usize,
        frac: f64,
        mut f: impl FnMut(&mut Ctx, &mut Rng2) ,
    ) {
        for i in 0..max {
            if self.stop() || (i >= min && !self.time_left_frac(frac)) {
                break;
            }
            let stream = hash_of(&name) ^ (i as u64);
            if let Some(only) = self.replay_case
                && stream != only
            {
                continue;
            }
            self.cur_case = stream;
            let mut rng = crate::rng::Rng::stream(self.seed, stream);
            step(format!("{name} case {i}"));
            self.count(&format!("cases_{name}"));
            let r = {
                let me = AssertUnwindSafe(&mut *self);
                let rg = AssertUnwindSafe(&mut rng);
                let ff = AssertUnwindSafe(&mut f);
                guard(move || {
                    let (me, rg, ff) = (me, rg, ff);
                    (ff.0)(me.0, rg.0)
                })
            };
            if let Err(p) = r {
                if p.in_harness() {
                    eprintln!("harness panic at {}: {}", p.location, p.message);
                    println!("HARNESS-ERROR {}: {}", p.location, p.message);
                    std::process::exit(3);
                }
                self.violate(
                    format!("panic:{}", p.file()),
                    json!({"what": "the code under test panicked", "location": p.location,
                           "message": p.message, "phase": name, "index": i, "last_step": last_step()}),
                );
            }
        }
    }

    /// Writes the evidence, prints the verdict, returns the exit code.
    pub fn finish(mut self) -> i32 {
        let evid = verif_dir().join("evidence");
        let _ = std::fs::create_dir_all(&evid);
        let evaluations = self.get("evaluations");
        let mut problems = vec![];
        if self.violations.is_empty() && self.replay_case.is_none() {
            if evaluations == 0 {
                problems.push("the monitors evaluated nothing".to_string());
            }
            for (k, n) in self.required.clone() {
                if self.get(&k) < n {
                    problems.push(format!("observed {k}={} below the floor {n}", self.get(&k)));
                }
            }
        }
        let mut vio_json = vec![];
        for (i, v) in self.violations.iter().enumerate() {
            let path = evid.join(format!("{}.violation.{i}.json", self.pid));
            let body = json!({
                "property": self.pid, "signature": v.sig, "detail": v.detail,
                "seed": self.seed, "tier": self.tier,
                "replay": format!("VERIF_SEED={} MON_CASE={} /verif/run.sh {} {}", self.seed,
                    v.detail.get("case").and_then(Value::as_u64).unwrap_or(0), self.pid, self.tier),
            });
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap_or_default());
            println!(
                "VIOLATION property={} replay={} {}",
                self.pid,
                path.display(),
                v.sig
            );
            vio_json.push(json!({"signature": v.sig, "replay": path.display().to_string()}));
        }
        let known = self.known.clone();
        for (sig, text) in &known {
            println!("KNOWN-FINDING: property={} {} [{}]", self.pid, text, sig);
        }
        self.samples.truncate(8);
        let distinct = (self.n_distinct() as u64).min(evaluations);
        let ev = json!({
            "property": self.pid,
            "tier": if self.tier == "thorough" { "thorough" } else { "quick" },
            "seed": self.seed,
            "level": self.level,
            "coverage": {
                "evaluations": evaluations,
                "distinct_nontrivial": distinct,
                "rule": self.rule,
                "samples": self.samples,
                "observed": self.counters,
                "notes": self.notes,
                "known_findings_seen": self.known_seen,
                "violation_list": vio_json,
            },
            "wall_s": (self.start.elapsed().as_secs_f64() * 100.0).round() / 100.0,
            "violations": self.violations.len(),
            "assumptions": self.assumptions,
        });
        let path = evid.join(format!("{}.json", self.pid));
        if let Err(e) = std::fs::write(&path, serde_json::to_string_pretty(&ev).unwrap_or_default()) {
            println!("HARNESS-ERROR cannot write {}: {e}", path.display());
            return 3;
        }
        if !self.violations.is_empty() {
            return 1;
        }
        if !problems.is_empty() {
            for p in problems {
                println!("HARNESS-ERROR {p}");
            }
            return 3;
        }
        println!(
            "OK property={} evaluations={} distinct={} wall={:.1}s {:?}",
            self.pid,
            evaluations,
            distinct,
            self.start.elapsed().as_secs_f64(),
            self.counters
        );
        0
    }
}

pub type Rng2 = crate::rng::Rng;

/// Lines `known: property=<id> sig=<signature> :: <what fails>`; `fixed:` lines suppress nothing.
fn load_known(pid: &str) -> BTreeMap<String, String> {
    let mut out = BTreeMap::new();
    let path = verif_dir().join("KNOWN_FINDINGS.txt");
    let text = std::fs::read_to_string(path).unwrap_or_default();
    for line in text.lines() {
        let Some(rest) = line.strip_prefix("known: property=") else {
            continue;
        };
        let Some((id, rest)) = rest.split_once(" sig=") else {
            continue;
        };
        let Some((sig, what)) = rest.split_once(" :: ") else {
            continue;
        };
        if id == pid {
            out.insert(sig.to_string(), what.to_string());
        }
    }
    out
}

pub fn sorted<T: Ord>(it: impl IntoIterator<Item = T>) -> Vec<T> {
    let mut v: Vec<T> = it.into_iter().collect();
    v.sort();
    v
}

pub fn set_of<T: Ord>(it: impl IntoIterator<Item = T>) -> BTreeSet<T> {
    it.into_iter().collect()
}
