//! Monitors over faults: processes that die at any point (C13) and storage that refuses writes (C14).

use crate::{
    checks::values::{covers, prefs_json},
    ctx::{Ctx, scratch, step},
    io::{self, Plan},
    lib_gen::{Lib, Shape},
    rng::Rng,
    world::{grade, u},
};
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use std::{
    collections::{BTreeMap, BTreeSet},
    path::{Path, PathBuf},
    time::{Duration, Instant},
};
use trane::{
    Trane,
    blacklist::Blacklist,
    data::{ExerciseDelta, ExerciseTrial, UnitReward, UserPreferences},
    practice_deltas::PracticeDeltas,
    practice_rewards::PracticeRewards,
    practice_stats::PracticeStats,
    preferences_manager::PreferencesManager,
    review_list::ReviewList,
    scheduler::ExerciseScheduler,
};

const NOW: i64 = 1_900_000_000;
const DAY: i64 = 86_400;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Score(String, usize, i64),
    Trials(Vec<(String, usize, i64)>),
    Deltas(Vec<(String, f32, i64)>),
    Rewards(Vec<(String, f32, f32, i64)>),
    AddBlack(String),
    RemoveBlack(String),
    RemoveBlackPrefix(String),
    AddReview(String),
    RemoveReview(String),
    TrimScores(u32),
    TrimDeltas(u32),
    TrimRewards(u32),
    RemoveScores(String),
    RemoveDeltas(String),
    RemoveRewards(String),
    Prefs(UserPreferences),
}

impl Op {
    fn name(&self) -> &'static str {
        match self {
            Op::Score(..) => "score",
            Op::Trials(..) => "record-trials",
            Op::Deltas(..) => "record-deltas",
            Op::Rewards(..) => "record-rewards",
            Op::AddBlack(..) => "blacklist-add",
            Op::RemoveBlack(..) => "blacklist-remove",
            Op::RemoveBlackPrefix(..) => "blacklist-remove-prefix",
            Op::AddReview(..) => "review-add",
            Op::RemoveReview(..) => "review-remove",
            Op::TrimScores(..) => "trim-scores",
            Op::TrimDeltas(..) => "trim-deltas",
            Op::TrimRewards(..) => "trim-rewards",
            Op::RemoveScores(..) => "remove-scores",
            Op::RemoveDeltas(..) => "remove-deltas",
            Op::RemoveRewards(..) => "remove-rewards",
            Op::Prefs(..) => "set-preferences",
        }
    }

    fn text(&self) -> String {
        format!("{self:?}").chars().take(300).collect()
    }

    fn apply(&self, t: &mut Trane) -> Result<(), String> {
        fn e<T, E: std::fmt::Display>(r: Result<T, E>) -> Result<(), String> {
            r.map(|_| ()).map_err(|e| format!("{e:#}"))
        }
        match self {
            Op::Score(x, g, ts) => e(t.score_exercise(u(x), grade(*g), *ts)),
            Op::Trials(v) => e(t.record_exercise_scores(
                &v.iter()
                    .map(|(x, g, ts)| ExerciseTrial { exercise_id: u(x), score: *g as f32, timestamp: *ts })
                    .collect::<Vec<_>>(),
            )),
            Op::Deltas(v) => e(t.record_exercise_deltas(
                &v.iter()
                    .map(|(x, d, ts)| ExerciseDelta { exercise_id: u(x), delta: *d, timestamp: *ts })
                    .collect::<Vec<_>>(),
            )),
            Op::Rewards(v) => e(t.record_unit_rewards(
                &v.iter()
                    .map(|(x, d, w, ts)| UnitReward { unit_id: u(x), value: *d, weight: *w, timestamp: *ts })
                    .collect::<Vec<_>>(),
            )),
            Op::AddBlack(x) => e(t.add_to_blacklist(u(x))),
            Op::RemoveBlack(x) => e(t.remove_from_blacklist(u(x))),
            Op::RemoveBlackPrefix(p) => e(t.remove_prefix_from_blacklist(p)),
            Op::AddReview(x) => e(t.add_to_review_list(u(x))),
            Op::RemoveReview(x) => e(t.remove_from_review_list(u(x))),
            Op::TrimScores(n) => e(t.trim_scores(*n)),
            Op::TrimDeltas(n) => e(t.trim_deltas(*n)),
            Op::TrimRewards(n) => e(t.trim_rewards(*n)),
            Op::RemoveScores(p) => e(t.remove_scores_with_prefix(p)),
            Op::RemoveDeltas(p) => e(t.remove_deltas_with_prefix(p)),
            Op::RemoveRewards(p) => e(t.remove_rewards_with_prefix(p)),
            Op::Prefs(p) => e(t.set_user_preferences(p.clone())),
        }
    }
}

/// What a user can read of each store.
type Snap = BTreeMap<&'static str, Value>;

fn snap(t: &Trane, units: &[String]) -> Result<Snap, String> {
    let mut s = Snap::new();
    let (mut trials, mut deltas, mut rewards) = (vec![], vec![], vec![]);
    for x in units {
        let id = u(x);
        let mut v: Vec<(i64, u32)> = t
            .get_scores(id, 100_000)
            .map_err(|e| format!("{e:#}"))?
            .iter()
            .map(|r| (r.timestamp, r.score.to_bits()))
            .collect();
        v.sort_unstable();
        trials.push(json!([x, v]));
        let mut v: Vec<(i64, u32)> = t
            .get_deltas(id, 100_000)
            .map_err(|e| format!("{e:#}"))?
            .iter()
            .map(|r| (r.timestamp, r.delta.to_bits()))
            .collect();
        v.sort_unstable();
        deltas.push(json!([x, v]));
        let mut v: Vec<(i64, u32, u32)> = t
            .get_rewards(id, 100_000)
            .map_err(|e| format!("{e:#}"))?
            .iter()
            .map(|r| (r.timestamp, r.value.to_bits(), r.weight.to_bits()))
            .collect();
        v.sort_unstable();
        rewards.push(json!([x, v]));
    }
    s.insert("trials", json!(trials));
    s.insert("deltas", json!(deltas));
    s.insert("rewards", json!(rewards));
    let mut v: Vec<String> =
        t.get_blacklist_entries().map_err(|e| format!("{e:#}"))?.iter().map(ToString::to_string).collect();
    v.sort();
    s.insert("blacklist", json!(v));
    let mut v: Vec<String> =
        t.get_review_list_entries().map_err(|e| format!("{e:#}"))?.iter().map(ToString::to_string).collect();
    v.sort();
    s.insert("review list", json!(v));
    s.insert("preferences", prefs_json(&t.get_user_preferences().map_err(|e| format!("{e:#}"))?));
    Ok(s)
}

fn same(a: &Value, b: &Value) -> bool {
    a == b || (a.is_object() && covers(a, b) && covers(b, a))
}

/// Whether every record of `want` is in `got`, unit by unit, as far as the cap of records goes.
fn includes(got: &Value, want: &Value) -> bool {
    let (Some(g), Some(w)) = (got.as_array(), want.as_array()) else { return false };
    g.len() == w.len()
        && g.iter().zip(w).all(|(g, w)| {
            let (Some(g), Some(w)) = (g[1].as_array(), w[1].as_array()) else { return false };
            g.len() >= 20 || w.iter().all(|x| g.contains(x))
        })
}

fn brief(v: &Value) -> String {
    v.to_string().chars().take(1500).collect()
}

/// The parts of two values of a store that differ, for the report.
fn diff(a: &Value, b: &Value) -> Value {
    match (a.as_array(), b.as_array()) {
        (Some(x), Some(y)) if x.len() == y.len() => {
            json!(x.iter().zip(y).filter(|(p, q)| p != q).take(3).map(|(p, q)| json!([brief(p), brief(q)])).collect::<Vec<_>>())
        }
        _ => json!([brief(a), brief(b)]),
    }
}

fn prefs(r: &mut Rng) -> UserPreferences {
    // From a few bytes to several pages.
    let n = *r.pick(&[0usize, 1, 3, 40, 800]);
    UserPreferences {
        transcription: None,
        scheduler: r.chance(0.6).then(|| trane::data::SchedulerPreferences {
            batch_size: r.chance(0.7).then(|| r.usize_in(1, 60)),
        }),
        ignored_paths: (0..n).map(|i| format!("no/such/directory/{i}/{}", r.below(1000))).collect(),
    }
}

struct Gen {
    exs: Vec<String>,
    units: Vec<String>,
    clock: i64,
    black: Vec<String>,
    review: Vec<String>,
}

impl Gen {
    fn new(lib: &Lib, r: &mut Rng) -> Self {
        let mut units = lib.units();
        units.push("elsewhere".into());
        units.push("elsewhere::too".into());
        Gen { exs: lib.exercises(), units, clock: NOW - r.range(200, 900) * DAY, black: vec![], review: vec![] }
    }

    fn ts(&mut self, r: &mut Rng) -> i64 {
        self.clock += *r.pick(&[1, 60, DAY, 3 * DAY]);
        self.clock.min(NOW)
    }

    fn prefix(&self, r: &mut Rng) -> String {
        if r.chance(0.15) {
            return String::new();
        }
        let id = r.pick(&self.units).clone();
        let c: Vec<char> = id.chars().collect();
        let n = r.usize_in(1, c.len());
        c[..n].iter().collect()
    }

    fn op(&mut self, r: &mut Rng) -> Op {
        let ex = if self.exs.is_empty() { "elsewhere".to_string() } else { r.pick(&self.exs).clone() };
        let unit = r.pick(&self.units).clone();
        match r.below(26) {
            0..6 if !self.exs.is_empty() => Op::Score(ex, r.usize_in(1, 5), self.ts(r)),
            0..8 => Op::Trials(
                (0..*r.pick(&[1usize, 2, 5, 40]))
                    .map(|_| (r.pick(&self.units).clone(), r.usize_in(1, 5), self.ts(r)))
                    .collect(),
            ),
            8 => Op::Deltas(
                (0..*r.pick(&[1usize, 2, 5, 40]))
                    .map(|_| (r.pick(&self.units).clone(), r.range(-50, 50) as f32 / 10.0, self.ts(r)))
                    .collect(),
            ),
            9 => Op::Rewards(
                (0..*r.pick(&[1usize, 2, 5, 30]))
                    .map(|_| {
                        (r.pick(&self.units).clone(), r.range(-50, 50) as f32 / 10.0, r.range(1, 10) as f32 / 10.0, self.ts(r))
                    })
                    .collect(),
            ),
            10..13 => {
                self.black.push(unit.clone());
                Op::AddBlack(unit)
            }
            13 if !self.black.is_empty() && r.chance(0.8) => Op::RemoveBlack(r.pick(&self.black).clone()),
            13 => Op::RemoveBlack(unit),
            14 => Op::RemoveBlackPrefix(self.prefix(r)),
            15 | 16 => {
                self.review.push(unit.clone());
                Op::AddReview(unit)
            }
            17 if !self.review.is_empty() && r.chance(0.8) => Op::RemoveReview(r.pick(&self.review).clone()),
            17 => Op::RemoveReview(unit),
            18 => Op::TrimScores(*r.pick(&[0, 1, 2, 5])),
            19 => Op::TrimDeltas(*r.pick(&[0, 1, 2, 5])),
            20 => Op::TrimRewards(*r.pick(&[0, 1, 2, 5])),
            21 => Op::RemoveScores(self.prefix(r)),
            22 => Op::RemoveDeltas(self.prefix(r)),
            23 => Op::RemoveRewards(self.prefix(r)),
            _ => Op::Prefs(prefs(r)),
        }
    }
}

fn small_lib(r: &mut Rng) -> Lib {
    let shape = Shape { courses: (1, 3), lessons: (1, 3), exs: (1, 3), p_enc: 0.5, p_sup: 0.05, ..Shape::default() };
    Lib::generate(r, &shape)
}

fn cfg(root: &Path) -> PathBuf {
    root.join(".trane")
}

fn copy_dir(from: &Path, to: &Path) {
    std::fs::create_dir_all(to).expect("harness: mkdir");
    for e in std::fs::read_dir(from).expect("harness: read_dir") {
        let e = e.expect("harness: entry");
        let to = to.join(e.file_name());
        if e.file_type().expect("harness: type").is_dir() {
            copy_dir(&e.path(), &to);
        } else {
            std::fs::copy(e.path(), &to).expect("harness: copy");
        }
    }
}

/// Makes `to`'s practice data and settings those of `from`.
fn mirror(from: &Path, to: &Path) {
    if cfg(to).exists() {
        std::fs::remove_dir_all(cfg(to)).expect("harness: remove");
    }
    if cfg(from).exists() {
        copy_dir(&cfg(from), &cfg(to));
    }
}

fn open(root: &Path) -> Result<Trane, String> {
    let mut t = Trane::new_local(root, root).map_err(|e| format!("{e:#}"))?;
    t.override_current_timestamp(Some(NOW));
    Ok(t)
}

// ------------------------------------------------------------------------------------------------
// C13.

#[derive(Serialize, Deserialize)]
struct Job {
    root: PathBuf,
    acks: PathBuf,
    ops: Vec<Op>,
    kill: Option<(i64, bool)>,
    /// Whether the library is closed in order before the process ends.
    close: bool,
    /// How long to dawdle after the last acknowledgement, waiting to be killed.
    linger: bool,
}

/// The life of a process that will be killed: each finished operation is acknowledged with one byte.
pub fn child(path: &str) -> ! {
    use std::io::Write;
    let job: Job = serde_json::from_str(&std::fs::read_to_string(path).expect("harness: job")).expect("harness: job");
    let mut acks = std::fs::OpenOptions::new().append(true).create(true).open(&job.acks).expect("harness: acks");
    if let Some((nth, torn)) = job.kill {
        io::arm(Plan::Kill { nth, torn });
    }
    let mut t = match open(&job.root) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("open: {e}");
            std::process::exit(41);
        }
    };
    acks.write_all(b"o").expect("harness: ack");
    for op in &job.ops {
        match op.apply(&mut t) {
            Ok(()) => acks.write_all(b".").expect("harness: ack"),
            Err(e) => {
                eprintln!("{}: {e}", op.text());
                std::process::exit(42);
            }
        }
    }
    if job.linger {
        acks.write_all(b"|").expect("harness: ack");
        std::thread::sleep(Duration::from_secs(30));
    }
    if job.close {
        drop(t);
        std::process::exit(0);
    }
    std::process::abort();
}

fn crash_case(ctx: &mut Ctx, r: &mut Rng, exe: &Path) {
    let lib = small_lib(r);
    let (dir, refdir, extra) = (scratch(), scratch(), scratch());
    lib.write(dir.path()).expect("harness: write");
    lib.write(refdir.path()).expect("harness: write");
    let mut g = Gen::new(&lib, r);
    let mut log: Vec<String> = vec![];
    let rounds = r.usize_in(2, 6);
    for round in 0..rounds {
        let n = *r.pick(&[0usize, 1, 2, 4, 8, 14]);
        let ops: Vec<Op> = (0..n).map(|_| g.op(r)).collect();
        // The same operations, undisturbed, over a copy: every state the records go through.
        mirror(dir.path(), refdir.path());
        io::arm(Plan::Count);
        let mut marks = vec![];
        let mut t = match open(refdir.path()) {
            Ok(t) => t,
            Err(e) => {
                io::disarm();
                return ctx.violate("library-does-not-open", json!({"error": e, "history": log, "round": round}));
            }
        };
        marks.push(io::seen());
        let mut states = vec![match snap(&t, &g.units) {
            Ok(s) => s,
            Err(e) => {
                io::disarm();
                return ctx.violate("records-unreadable", json!({"error": e, "history": log}));
            }
        }];
        for op in &ops {
            let res = op.apply(&mut t);
            marks.push(io::seen());
            if let Err(e) = res {
                io::disarm();
                return ctx.violate("valid-operation-refused", json!({"op": op.text(), "error": e, "history": log}));
            }
            match snap(&t, &g.units) {
                Ok(s) => states.push(s),
                Err(e) => {
                    io::disarm();
                    return ctx.violate("records-unreadable", json!({"error": e, "op": op.text(), "history": log}));
                }
            }
        }
        drop(t);
        let (calls, _) = io::disarm();
        ctx.max("write_calls_of_one_process_max", calls as u64);

        // The process that dies.
        let acks = extra.path().join(format!("acks{round}"));
        let spec = extra.path().join(format!("job{round}"));
        let mode = r.below(10);
        let kill = (mode < 7 && calls > 0).then(|| {
            // Half of the time in the middle of a chosen operation, so that rare ones get their share.
            let nth = if r.chance(0.5) {
                let i = r.below(marks.len());
                let lo = if i == 0 { 0 } else { marks[i - 1] };
                if marks[i] > lo { r.range(lo + 1, marks[i]) } else { r.range(1, calls) }
            } else {
                r.range(1, calls)
            };
            (nth, r.chance(0.35))
        });
        let linger = kill.is_none() && r.chance(0.4);
        let job = Job {
            root: dir.path().to_path_buf(),
            acks: acks.clone(),
            ops: ops.clone(),
            kill,
            close: r.chance(0.6),
            linger,
        };
        std::fs::write(&spec, serde_json::to_string(&job).expect("harness: job")).expect("harness: job");
        step(format!("round {round}: {} operations, kill {kill:?}", ops.len()));
        let mut proc = std::process::Command::new(exe)
            .arg("__child")
            .arg(&spec)
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::piped())
            .spawn()
            .expect("harness: spawn");
        let t0 = Instant::now();
        // Without a chosen call the process is killed at a random moment of its life.
        let at = (kill.is_none() && !linger).then(|| Duration::from_micros(r.range(200, 40_000) as u64));
        let mut killed = false;
        let status = loop {
            if let Some(s) = proc.try_wait().expect("harness: wait") {
                break s;
            }
            let now = t0.elapsed();
            let due = at.is_some_and(|d| now >= d)
                || (linger && std::fs::read(&acks).is_ok_and(|a| a.ends_with(b"|")));
            if due && !killed {
                let _ = proc.kill();
                killed = true;
            }
            if now > Duration::from_secs(60) {
                let _ = proc.kill();
                let _ = proc.wait();
                panic!("harness: the child did not end");
            }
            std::thread::sleep(Duration::from_micros(200));
        };
        let mut err = String::new();
        if let Some(mut e) = proc.stderr.take() {
            use std::io::Read;
            let _ = e.read_to_string(&mut err);
        }
        let acked = std::fs::read(&acks).unwrap_or_default();
        let done = acked.iter().filter(|c| **c == b'.').count();
        let opened = acked.contains(&b'o');
        use std::os::unix::process::ExitStatusExt;
        let detail = |what: Value| {
            json!({"what": what, "operations": ops.iter().map(Op::text).collect::<Vec<_>>(), "acknowledged": done,
                   "killed at write call": format!("{kill:?}"), "exit": format!("{status:?}"), "earlier rounds": log})
        };
        ctx.count("processes");
        match (status.signal(), status.code()) {
            (Some(9), _) => {
                ctx.count("processes_killed");
                if kill.is_some() {
                    ctx.count("killed_at_a_write_call");
                    if job.kill.is_some_and(|k| k.1) {
                        ctx.count("killed_within_a_write");
                    }
                } else {
                    ctx.count("killed_at_a_moment");
                }
            }
            (Some(6), _) | (None, Some(0)) => ctx.count("processes_ended"),
            (_, Some(41)) => return ctx.violate("library-does-not-open", detail(json!(err))),
            (_, Some(42)) => return ctx.violate("valid-operation-refused", detail(json!(err))),
            _ if err.contains("harness:") => panic!("harness: the child failed: {err}"),
            _ => return ctx.violate("process-failed", detail(json!(err))),
        }
        if opened && done < ops.len() {
            ctx.count("died_within_an_operation");
            ctx.count(&format!("died_in_{}", ops[done].name()));
        } else if !opened {
            ctx.count("died_while_opening");
        }
        ctx.seen(&format!("{}:{done}:{kill:?}:{opened}", ops.get(done).map_or("end", Op::name)));

        // Half of the time the state is judged on a copy, leaving the wreck to the next process.
        let leave = r.chance(0.5);
        let judged = if leave {
            mirror(dir.path(), refdir.path());
            refdir.path()
        } else {
            dir.path()
        };
        let t = match open(judged) {
            Ok(t) => t,
            Err(e) => return ctx.violate("library-does-not-open", detail(json!(e))),
        };
        let got = match snap(&t, &g.units) {
            Ok(s) => s,
            Err(e) => return ctx.violate("records-unreadable", detail(json!(e))),
        };
        ctx.count("evaluations");
        for (store, v) in &got {
            let before = &states[done][store];
            let in_doubt = states.get(done + 1).map(|s| &s[store]);
            if same(v, before) || in_doubt.is_some_and(|a| same(v, a)) {
                if !same(v, before) {
                    ctx.count("in_doubt_and_there");
                }
                continue;
            }
            // Say which way it went.
            let earlier = states[..done].iter().any(|s| same(&s[store], v));
            let sig = if earlier { "acknowledged-change-lost" } else { "state-never-requested" };
            return ctx.violate(
                format!("{sig}:{store}"),
                detail(json!({"store": store, "difference to the acknowledged state": diff(before, v)})),
            );
        }
        drop(t);
        log.push(format!("round {round}: {} operations, {done} acknowledged, kill {kill:?}", ops.len()));
    }
}

/// C13.
pub fn crashes(ctx: &mut Ctx) {
    ctx.rule = "One line of life per case: a library's records written by a sequence of processes, each killed (SIGKILL) at a chosen write-side system call on the library's own files (before it, or after half of its bytes), at a random moment, or right after its last acknowledgement. After each death the library is opened again and everything readable of each store must be the state after the last acknowledged operation, or the one after the operation in progress, as observed when the same operations run undisturbed over a copy.".into();
    ctx.assumptions = vec![
        "Death of the process, not loss of power: what the process handed to the kernel stays.".into(),
        "score_exercise writes three stores; the operation in doubt may have reached some of them.".into(),
    ];
    ctx.level = "fault_enumeration".into();
    let exe = std::env::current_exe().expect("harness: exe");
    ctx.cases("crash", 15, 1_000_000, 1.0, |ctx, r| crash_case(ctx, r, &exe));
    ctx.require("processes_killed", 60);
    ctx.require("killed_at_a_write_call", 40);
    ctx.require("died_within_an_operation", 25);
}

// ------------------------------------------------------------------------------------------------
// C14.

/// The rows whose change can be refused by a trigger: (file, table).
const TABLES: [(&str, &str); 7] = [
    ("practice_stats.db", "practice_stats"),
    ("practice_stats.db", "uids"),
    ("practice_deltas.db", "practice_deltas"),
    ("practice_rewards.db", "practice_rewards"),
    ("practice_rewards.db", "uids"),
    ("blacklist.db", "blacklist"),
    ("review_list.db", "review_list"),
];

fn sql(path: &Path, q: &str) -> Result<(), String> {
    let c = rusqlite::Connection::open(path).map_err(|e| e.to_string())?;
    c.execute_batch(q).map_err(|e| format!("{q}: {e}"))
}

fn rows(path: &Path, table: &str) -> i64 {
    rusqlite::Connection::open(path)
        .and_then(|c| c.query_row(&format!("SELECT count(*) FROM {table}"), [], |r| r.get(0)))
        .expect("harness: count rows")
}

enum Fault {
    Calls(Plan),
    Trigger { file: PathBuf, what: String },
}

fn refuse_rows(r: &mut Rng, root: &Path, op: &Op) -> Option<Fault> {
    let mine: Vec<(&str, &str)> = TABLES
        .iter()
        .filter(|(f, _)| match op {
            Op::Score(..) => matches!(*f, "practice_stats.db" | "practice_deltas.db" | "practice_rewards.db"),
            Op::Trials(..) | Op::TrimScores(..) | Op::RemoveScores(..) => *f == "practice_stats.db",
            Op::Deltas(..) | Op::TrimDeltas(..) | Op::RemoveDeltas(..) => *f == "practice_deltas.db",
            Op::Rewards(..) | Op::TrimRewards(..) | Op::RemoveRewards(..) => *f == "practice_rewards.db",
            Op::AddBlack(..) | Op::RemoveBlack(..) | Op::RemoveBlackPrefix(..) => *f == "blacklist.db",
            Op::AddReview(..) | Op::RemoveReview(..) => *f == "review_list.db",
            Op::Prefs(..) => false,
        })
        .copied()
        .collect();
    if mine.is_empty() {
        return None;
    }
    let (file, table) = *r.pick(&mine);
    let path = cfg(root).join(file);
    let has: Result<bool, _> = rusqlite::Connection::open(&path).and_then(|c| {
        c.query_row("SELECT count(*) FROM sqlite_master WHERE type = 'table' AND name = ?1", [table], |r| r.get(0))
    });
    if !has.unwrap_or(false) {
        return None;
    }
    let n = rows(&path, table);
    let delete = matches!(
        op,
        Op::TrimScores(..)
            | Op::TrimDeltas(..)
            | Op::TrimRewards(..)
            | Op::RemoveScores(..)
            | Op::RemoveDeltas(..)
            | Op::RemoveRewards(..)
            | Op::RemoveBlack(..)
            | Op::RemoveBlackPrefix(..)
            | Op::RemoveReview(..)
    ) || (matches!(op, Op::Rewards(..) | Op::Score(..)) && table == "practice_rewards" && r.chance(0.3));
    let j = *r.pick(&[0i64, 0, 1, 1, 2, 3, 7]);
    let action = *r.pick(&["ABORT", "ABORT", "ROLLBACK", "FAIL"]);
    let (event, when) = if delete {
        ("DELETE", format!("(SELECT count(*) FROM {table}) <= {}", n - j))
    } else {
        ("INSERT", format!("(SELECT count(*) FROM {table}) >= {}", n + j))
    };
    let q = format!(
        "CREATE TRIGGER verif_fault BEFORE {event} ON {table} WHEN {when} BEGIN SELECT RAISE({action}, 'refused'); END;"
    );
    sql(&path, &q).expect("harness: trigger");
    Some(Fault::Trigger { file: path, what: q })
}

fn scores(t: &Trane, units: &[String]) -> BTreeMap<String, Option<f32>> {
    units.iter().map(|x| (x.clone(), t.get_unit_score(u(x)).unwrap_or(None))).collect()
}

/// The answers of an instance with a past agree with those of one that has just read the files.
fn coherent(t: &Trane, f: &Trane, units: &[String]) -> Result<(), String> {
    let entries: BTreeSet<String> =
        t.get_blacklist_entries().map_err(|e| e.to_string())?.iter().map(ToString::to_string).collect();
    for x in units {
        let b = t.blacklisted(u(x)).map_err(|e| e.to_string())?;
        if b != entries.contains(x) {
            return Err(format!("blacklisted({x:?}) is {b} but the list says otherwise"));
        }
    }
    let (a, b) = (scores(t, units), scores(f, units));
    for (x, s) in &a {
        let ok = match (s, &b[x]) {
            (None, None) => true,
            (Some(p), Some(q)) => (p - q).abs() < 1e-3,
            _ => false,
        };
        if !ok {
            return Err(format!("the score of {x:?} is reported as {s:?}, a fresh instance says {:?}", b[x]));
        }
    }
    Ok(())
}

fn fault_case(ctx: &mut Ctx, r: &mut Rng) {
    let lib = small_lib(r);
    let (dir, refdir) = (scratch(), scratch());
    lib.write(dir.path()).expect("harness: write");
    lib.write(refdir.path()).expect("harness: write");
    let mut g = Gen::new(&lib, r);
    let fail = |e: String| panic!("harness: {e}");
    let mut a = open(dir.path()).unwrap_or_else(fail);
    let mut b = open(refdir.path()).unwrap_or_else(fail);
    let mut log: Vec<String> = vec![];
    // A past both share.
    for _ in 0..r.below(25) {
        let op = g.op(r);
        for t in [&mut a, &mut b] {
            if let Err(e) = op.apply(t) {
                return ctx.violate("valid-operation-refused", json!({"op": op.text(), "error": e}));
            }
        }
        log.push(op.text());
    }
    for _ in 0..r.usize_in(3, 10) {
        let op = g.op(r);
        let units = g.units.clone();
        let before = match snap(&a, &units) {
            Ok(s) => s,
            Err(e) => return ctx.violate("records-unreadable", json!({"error": e, "history": log})),
        };
        // Scores are cached before the fault more often than not.
        if r.chance(0.7) {
            scores(&a, &units);
            scores(&b, &units);
        }
        io::arm(Plan::Count);
        let res = op.apply(&mut b);
        let (calls, _) = io::disarm();
        if let Err(e) = res {
            return ctx.violate("valid-operation-refused", json!({"op": op.text(), "error": e, "history": log}));
        }
        let after = snap(&b, &units).unwrap_or_else(|e| panic!("harness: {e}"));
        let fault = if r.chance(0.45) { refuse_rows(r, dir.path(), &op) } else { None };
        let fault = fault.unwrap_or_else(|| {
            Fault::Calls(Plan::Fail {
                nth: r.range(1, calls.max(1)),
                err: *r.pick(&[io::ENOSPC, io::EIO]),
                on: r.chance(0.5),
                torn: r.chance(0.25),
            })
        });
        let what = match &fault {
            Fault::Calls(p) => format!("{p:?} of {calls}"),
            Fault::Trigger { what, .. } => what.clone(),
        };
        step(format!("{} with {what}", op.text()));
        if let Fault::Calls(p) = &fault {
            io::arm(*p);
        }
        let res = op.apply(&mut a);
        let fired = match &fault {
            Fault::Calls(_) => io::disarm().1 > 0,
            Fault::Trigger { file, .. } => {
                sql(file, "DROP TRIGGER IF EXISTS verif_fault;").unwrap_or_else(|e| panic!("harness: {e}"));
                res.is_err()
            }
        };
        ctx.count("evaluations");
        if fired {
            ctx.count("faults_fired");
            ctx.count(if matches!(fault, Fault::Calls(_)) { "write_calls_refused" } else { "rows_refused" });
            ctx.count(&format!("fault_in_{}", op.name()));
            ctx.seen(&format!("{}:{what}", op.name()));
        }
        let past = log.clone();
        let detail = |w: Value| json!({"op": op.text(), "fault": what, "result": format!("{res:?}"), "what": w, "history": past});
        if res.is_err() && !fired {
            return ctx.violate("valid-operation-refused", detail(json!("the fault was never reached")));
        }
        if res.is_err() {
            ctx.count("errors_reported");
        }
        let live = match snap(&a, &units) {
            Ok(s) => s,
            Err(e) => return ctx.violate("records-unreadable", detail(json!(e))),
        };
        let fresh = match open(dir.path()) {
            Ok(t) => t,
            Err(e) => return ctx.violate("library-does-not-open", detail(json!(e))),
        };
        let reread = match snap(&fresh, &units) {
            Ok(s) => s,
            Err(e) => return ctx.violate("records-unreadable", detail(json!(e))),
        };
        let mut untouched = true;
        for (store, v) in &live {
            if !same(v, &reread[store]) {
                return ctx.violate(format!("live-and-reopened-differ:{store}"), detail(diff(v, &reread[store])));
            }
            let (b, a) = (&before[store], &after[store]);
            untouched &= same(v, b);
            match &res {
                Ok(()) if !same(v, a) => {
                    return ctx.violate(
                        format!("success-without-effect:{store}:{}", op.name()),
                        detail(json!({"expected, found": diff(a, v)})),
                    );
                }
                Err(_) if !same(v, a) && !same(v, b) => {
                    return ctx.violate(
                        format!("partial-effect:{store}:{}", op.name()),
                        detail(json!({"before, found": diff(b, v), "complete, found": diff(a, v)})),
                    );
                }
                _ => {}
            }
        }
        if let Err(e) = coherent(&a, &fresh, &units) {
            return ctx.violate(format!("incoherent-after-fault:{}", op.name()), detail(json!(e)));
        }
        drop(fresh);
        log.push(format!("{} [{what}] -> {}", op.text(), if res.is_ok() { "ok" } else { "error" }));
        if res.is_err() {
            // Storage has recovered: the same request again.
            if let Err(e) = op.apply(&mut a) {
                return ctx.violate(format!("refused-after-recovery:{}", op.name()), detail(json!(e)));
            }
            ctx.count("repeated_after_recovery");
            let again = match snap(&a, &units) {
                Ok(s) => s,
                Err(e) => return ctx.violate("records-unreadable", detail(json!(e))),
            };
            if untouched {
                for (store, v) in &again {
                    // A refused write makes the instance forget which rewards it has seen lately, so
                    // it may store one that is so similar to a recent one that it would be skipped.
                    let ok = same(v, &after[store]) || (*store == "rewards" && includes(v, &after[store]));
                    if !ok {
                        return ctx.violate(
                            format!("repetition-without-effect:{store}:{}", op.name()),
                            detail(json!({"expected, found": diff(&after[store], v)})),
                        );
                    }
                }
            }
            let fresh = match open(dir.path()) {
                Ok(t) => t,
                Err(e) => return ctx.violate("library-does-not-open", detail(json!(e))),
            };
            if let Err(e) = coherent(&a, &fresh, &units) {
                return ctx.violate(format!("incoherent-after-recovery:{}", op.name()), detail(json!(e)));
            }
            if matches!(op, Op::Score(..) | Op::Rewards(..)) || again.iter().any(|(k, v)| !same(v, &after[k])) {
                // The repeated request came on top of one that had taken effect.
                return;
            }
        }
    }
}

fn open_case(ctx: &mut Ctx, r: &mut Rng) {
    let lib = small_lib(r);
    let (dir, refdir) = (scratch(), scratch());
    lib.write(dir.path()).expect("harness: write");
    lib.write(refdir.path()).expect("harness: write");
    let mut g = Gen::new(&lib, r);
    let units = g.units.clone();
    let mut expected = None;
    if r.chance(0.6) {
        let mut t = open(dir.path()).unwrap_or_else(|e| panic!("harness: {e}"));
        for _ in 0..r.usize_in(1, 15) {
            let op = g.op(r);
            if let Err(e) = op.apply(&mut t) {
                return ctx.violate("valid-operation-refused", json!({"op": op.text(), "error": e}));
            }
        }
        expected = Some(snap(&t, &units).unwrap_or_else(|e| panic!("harness: {e}")));
        if r.chance(0.3) {
            // Closed without being put in order.
            mirror(dir.path(), refdir.path());
            drop(t);
            mirror(refdir.path(), dir.path());
        }
    }
    mirror(dir.path(), refdir.path());
    io::arm(Plan::Count);
    let t = open(refdir.path());
    drop(t);
    let (calls, _) = io::disarm();
    for _ in 0..3 {
        let plan = Plan::Fail {
            nth: r.range(1, calls.max(1)),
            err: *r.pick(&[io::ENOSPC, io::EIO]),
            on: r.chance(0.5),
            torn: r.chance(0.25),
        };
        step(format!("opening with {plan:?}"));
        io::arm(plan);
        let res = open(dir.path()).map(drop);
        let (_, fired) = io::disarm();
        if fired > 0 {
            ctx.count("faults_fired");
            ctx.count("faults_while_opening");
        }
        ctx.count("evaluations");
        ctx.seen(&format!("open {plan:?}"));
        if fired == 0
            && let Err(e) = &res
        {
            return ctx.violate("library-does-not-open", json!({"plan": format!("{plan:?}"), "error": e}));
        }
        if r.chance(0.4) {
            continue;
        }
        let t = match open(dir.path()) {
            Ok(t) => t,
            Err(e) => return ctx.violate("library-does-not-open", json!({"after": format!("{plan:?}"), "error": e})),
        };
        let got = match snap(&t, &units) {
            Ok(s) => s,
            Err(e) => return ctx.violate("records-unreadable", json!({"error": e, "after": format!("{plan:?}")})),
        };
        if let Some(want) = &expected {
            for (store, v) in &got {
                if !same(v, &want[store]) {
                    return ctx.violate(
                        format!("partial-effect:{store}:open"),
                        json!({"plan": format!("{plan:?}"), "expected, found": diff(&want[store], v)}),
                    );
                }
            }
        }
    }
}

/// C14.
pub fn refusals(ctx: &mut Ctx) {
    ctx.rule = "Two copies of a library share a history; an operation runs undisturbed on one and with a fault on the other: the n-th write-side system call on its files refused (no space, I/O error; once, or until recovery; possibly after half of its bytes), or a row refused by the database. An error must be reported unless the effect is complete; each store must then read as before the operation or as on the undisturbed copy, in the live instance and in one opened afresh, with equal scores; the same request must succeed, with its effect, after recovery. Opening a library under faults must leave it openable and unchanged.".into();
    ctx.assumptions = vec![
        "score_exercise writes three stores in turn; each store is judged on its own.".into(),
        "Only write-side calls fail; failed reads are the subject of C36.".into(),
    ];
    ctx.level = "fault_enumeration".into();
    ctx.cases("operations", 30, 1_000_000, 0.85, fault_case);
    ctx.cases("opening", 10, 1_000_000, 1.0, open_case);
    ctx.require("faults_fired", 150);
    ctx.require("rows_refused", 30);
    ctx.require("write_calls_refused", 60);
    ctx.require("errors_reported", 100);
}

// ------------------------------------------------------------------------------------------------
// C36.

/// What makes records unreadable for a while.
enum Outage {
    /// A table is not where it should be.
    Away(&'static str, &'static str),
    /// Reads fail from the n-th on.
    Reads(i64, i64),
}

impl Outage {
    fn begin(&self, root: &Path) -> Result<(), String> {
        match self {
            Outage::Away(file, table) => sql(&cfg(root).join(file), &format!("ALTER TABLE {table} RENAME TO verif_away;")),
            Outage::Reads(nth, many) => {
                io::arm_reads(*nth, *many);
                Ok(())
            }
        }
    }

    /// Ends the outage; whether anything was refused, if that is known.
    fn end(&self, root: &Path) -> Option<bool> {
        match self {
            Outage::Away(file, table) => {
                sql(&cfg(root).join(file), &format!("ALTER TABLE verif_away RENAME TO {table};"))
                    .unwrap_or_else(|e| panic!("harness: {e}"));
                None
            }
            Outage::Reads(..) => Some(io::disarm_reads().1 > 0),
        }
    }
}

fn outage_case(ctx: &mut Ctx, r: &mut Rng) {
    let lib = small_lib(r);
    let dir = scratch();
    lib.write(dir.path()).expect("harness: write");
    let exs = lib.exercises();
    if exs.is_empty() {
        return;
    }
    let mut g = Gen::new(&lib, r);
    let fail = |e: String| -> Trane { panic!("harness: {e}") };
    let mut a = open(dir.path()).unwrap_or_else(fail);
    let mut log: Vec<String> = vec![];
    for e in &exs {
        for _ in 0..r.below(4) {
            let op = Op::Score(e.clone(), r.usize_in(2, 5), g.ts(r));
            if let Err(e) = op.apply(&mut a) {
                return ctx.violate("valid-operation-refused", json!({"op": op.text(), "error": e}));
            }
            log.push(op.text());
        }
    }
    for _ in 0..r.below(3) {
        let op = Op::AddBlack(r.pick(&g.units).clone());
        op.apply(&mut a).unwrap_or_else(|e| panic!("harness: {e}"));
        log.push(op.text());
    }
    let units = lib.units();
    for _ in 0..r.usize_in(2, 6) {
        // What is cached when the outage begins.
        match r.below(4) {
            0 => {
                drop(a);
                a = open(dir.path()).unwrap_or_else(fail);
                log.push("reopen".into());
            }
            1 => {
                a.reset_scheduler_options();
                log.push("reset options".into());
            }
            2 => {
                scores(&a, &units);
            }
            _ => {}
        }
        let (truth, black, exact) = {
            let f = open(dir.path()).unwrap_or_else(fail);
            let black: BTreeSet<String> =
                f.get_blacklist_entries().expect("harness: blacklist").iter().map(ToString::to_string).collect();
            let exact: BTreeMap<String, (usize, usize)> = exs
                .iter()
                .map(|e| {
                    (e.clone(), (f.get_scores(u(e), 9999).expect("harness").len(), f.get_deltas(u(e), 9999).expect("harness").len()))
                })
                .collect();
            (scores(&f, &units), black, exact)
        };
        let o = match r.below(8) {
            0 => Outage::Away("practice_stats.db", "practice_stats"),
            1 => Outage::Away("practice_stats.db", "uids"),
            2 => Outage::Away("practice_deltas.db", "practice_deltas"),
            3 => Outage::Away("practice_rewards.db", "practice_rewards"),
            4 => Outage::Away("blacklist.db", "blacklist"),
            _ => Outage::Reads(r.range(1, 12), *r.pick(&[1, 2, 1_000_000])),
        };
        let what = match &o {
            Outage::Away(_, t) => format!("without table {t}"),
            Outage::Reads(n, m) => format!("reads {n} and the next {m} refused"),
        };
        if let Err(e) = o.begin(dir.path()) {
            panic!("harness: {e}");
        }
        let mut wrong = vec![];
        let mut errors = 0;
        let mut scored: Option<(String, usize, i64, bool)> = None;
        let mut done = vec![];
        for _ in 0..r.usize_in(1, 4) {
            match r.below(5) {
                0 => {
                    step(format!("a batch {what}"));
                    match a.get_exercise_batch(None) {
                        Ok(b) => {
                            for m in &b {
                                let l = lib.lesson_of(m.id.as_str()).map(|l| l.id.clone()).unwrap_or_default();
                                let c = lib.course_of(&l).map(|c| c.id.clone()).unwrap_or_default();
                                if [m.id.to_string(), l, c].iter().any(|x| black.contains(x)) {
                                    wrong.push(("blacklisted-offered", json!(m.id)));
                                }
                            }
                        }
                        Err(_) => errors += 1,
                    }
                    done.push("batch".to_string());
                }
                1 if scored.is_none() => {
                    let (e, n, ts) = (r.pick(&exs).clone(), r.usize_in(1, 5), g.ts(r));
                    let op = Op::Score(e.clone(), n, ts);
                    step(format!("{} {what}", op.text()));
                    let res = op.apply(&mut a);
                    errors += i32::from(res.is_err());
                    done.push(format!("{} -> {}", op.text(), if res.is_ok() { "ok" } else { "error" }));
                    scored = Some((e, n, ts, res.is_ok()));
                }
                _ => {
                    let x = r.pick(&units).clone();
                    step(format!("score of {x} {what}"));
                    let got = a.get_unit_score(u(&x));
                    done.push(format!("score of {x}: {got:?}"));
                    match got {
                        Ok(got) => {
                            let same = match (got, truth[&x]) {
                                (None, None) => true,
                                (Some(p), Some(q)) => (p - q).abs() < 1e-3,
                                _ => false,
                            };
                            // What a lesson or course counts for may rest on a superseding unit that
                            // cannot be read either; that must not last.
                            if !same && scored.is_none() && lib.ex_at.contains_key(&x) {
                                wrong.push(("wrong-score", json!([x, got, truth[&x]])));
                            }
                            ctx.count("scores_during_outage");
                        }
                        Err(_) => errors += 1,
                    }
                }
            }
        }
        let fired = o.end(dir.path()).unwrap_or(errors > 0);
        ctx.count("evaluations");
        ctx.count("outages");
        if errors > 0 {
            ctx.add("errors_reported", errors as u64);
        }
        if fired {
            ctx.count("outages_noticed");
        }
        ctx.seen(&(what.clone(), done.len(), errors, units.len()));
        let past = log.clone();
        let during = done.clone();
        let detail = |w: Value| json!({"outage": what, "requests": during, "what": w, "history": past});
        if let Some((sig, w)) = wrong.into_iter().next() {
            return ctx.violate(sig, detail(w));
        }
        log.push(format!("[{what}: {}]", done.join(", ")));
        let fresh = match open(dir.path()) {
            Ok(t) => t,
            Err(e) => return ctx.violate("library-does-not-open", detail(json!(e))),
        };
        if let Some((e, grade, ts, true)) = &scored {
            // It was reported as recorded.
            let t = fresh.get_scores(u(e), 9999).expect("harness: trials");
            let d = fresh.get_deltas(u(e), 9999).expect("harness: differences");
            let (n, k) = exact[e];
            ctx.count("scored_during_outage");
            if t.len() != n + 1 {
                return ctx.violate("trial-not-recorded", detail(json!({"before": n, "after": t.len()})));
            }
            if d.len() != k + usize::from(n > 0) {
                return ctx.violate("difference-not-recorded", detail(json!({"trials": n, "before": k, "after": d.len()})));
            }
            if n > 0
                && let Some(was) = truth[e]
                && let Some(x) = d.iter().find(|x| x.timestamp == *ts)
                && d.iter().filter(|x| x.timestamp == *ts).count() == 1
                && (f64::from(x.delta) - (*grade as f64 - f64::from(was))).abs() > 2e-3
            {
                return ctx.violate("wrong-difference", detail(json!({"score": was, "grade": grade, "recorded": x.delta})));
            }
        }
        if let Err(e) = coherent(&a, &fresh, &g.units) {
            return ctx.violate("incoherent-after-outage", detail(json!(e)));
        }
        ctx.count("coherent_after_outage");
    }
}

pub fn outages(ctx: &mut Ctx) {
    ctx.rule = "A library with practised exercises, some scores cached and some not, answers requests for scores and batches and records grades while one of its tables is away or its reads of files fail (once, twice, or until the end). The score of an exercise must be an error or the true one, a grade an error or completely recorded, no batch may contain blacklisted material; after the outage every score must equal that of an instance opened afresh. Distinct by outage and outcome.".into();
    ctx.assumptions = vec!["The blacklist is read when the library opens; outages begin later.".into()];
    ctx.level = "fault_enumeration".into();
    ctx.cases("outages", 60, 1_000_000, 1.0, outage_case);
    ctx.require("outages", 100);
    ctx.require("outages_noticed", 30);
    ctx.require("coherent_after_outage", 60);
}
