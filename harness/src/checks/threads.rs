//! Monitors of concurrent use (C15). The stress runs in a process of its own, once as built for all
//! checks and once under ThreadSanitizer, so that a crash, a deadlock or a data race there is an
//! observation here.

use crate::{
    checks::sched::Filt,
    ctx::{Ctx, cpu_seconds, guard, scratch, step, verif_dir},
    lib_gen::{Lib, Shape},
    rng::Rng,
    world::{World, grade, u},
};
use parking_lot::{Mutex, RwLock};
use serde_json::{Value, json};
use std::{
    collections::{BTreeMap, BTreeSet},
    sync::{
        Arc,
        atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering},
    },
    time::{Duration, Instant},
};
use trane::{
    Trane,
    blacklist::Blacklist,
    course_library::CourseLibrary,
    data::{
        ExerciseTrial, SchedulerOptions,
        filter::{ExerciseFilter, UnitFilter},
    },
    graph::UnitGraph,
    practice_deltas::PracticeDeltas,
    practice_rewards::PracticeRewards,
    practice_stats::PracticeStats,
    review_list::ReviewList,
    scheduler::ExerciseScheduler,
};

const NOW: i64 = 1_900_000_000;

// ------------------------------------------------------------------------------------------------
// Delays around every statement of the databases: that is where an operation that reads one store
// and then another can be overtaken.

static DELAYS: AtomicU64 = AtomicU64::new(0);
static SALT: AtomicU64 = AtomicU64::new(1);
static ORDER: AtomicU64 = AtomicU64::new(0);
static LAST: AtomicU64 = AtomicU64::new(0);
static SWITCHES: AtomicU64 = AtomicU64::new(0);

thread_local! {
    /// Number of the thread within its case, from one; zero for the main thread.
    static ME: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

unsafe extern "C" fn traced(
    _: std::ffi::c_uint,
    _: *mut std::ffi::c_void,
    _: *mut std::ffi::c_void,
    _: *mut std::ffi::c_void,
) -> std::ffi::c_int {
    // Which thread came when: the interleaving, told by the order of their statements.
    let me = ME.get();
    if me != 0 {
        ORDER.fetch_xor(ORDER.load(Ordering::Relaxed).rotate_left(7).wrapping_add(me).wrapping_mul(0x100_0000_01B3), Ordering::Relaxed);
        if LAST.swap(me, Ordering::Relaxed) != me {
            SWITCHES.fetch_add(1, Ordering::Relaxed);
        }
    }
    let level = DELAYS.load(Ordering::Relaxed);
    if level == 0 {
        return 0;
    }
    let x = SALT.fetch_add(0x9E37_79B9_7F4A_7C15, Ordering::Relaxed);
    let x = (x ^ (x >> 29)).wrapping_mul(0xBF58_476D_1CE4_E5B9) >> 33;
    match x % (24 / level.min(8)) {
        0 => std::thread::sleep(Duration::from_micros(x % 300)),
        1..3 => std::thread::yield_now(),
        _ => {}
    }
    0
}

unsafe extern "C" fn on_open(
    db: *mut rusqlite::ffi::sqlite3,
    _: *mut *mut std::ffi::c_char,
    _: *const rusqlite::ffi::sqlite3_api_routines,
) -> std::ffi::c_int {
    let mask = (rusqlite::ffi::SQLITE_TRACE_STMT | rusqlite::ffi::SQLITE_TRACE_PROFILE) as std::ffi::c_uint;
    unsafe { rusqlite::ffi::sqlite3_trace_v2(db, mask, Some(traced), std::ptr::null_mut()) }
}

// ------------------------------------------------------------------------------------------------
// The stress process.

#[derive(Default)]
struct Seen {
    violations: Vec<(String, Value)>,
    counters: BTreeMap<String, u64>,
    interleavings: BTreeSet<u64>,
}

impl Seen {
    fn count(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.to_string()).or_insert(0) += n;
    }

    fn violate(&mut self, sig: impl Into<String>, d: Value) {
        let sig = sig.into();
        if !self.violations.iter().any(|v| v.0 == sig) && self.violations.len() < 10 {
            self.violations.push((sig, d));
        }
    }

    fn report(&self) {
        let v: Vec<Value> = self.violations.iter().map(|(s, d)| json!({"sig": s, "detail": d})).collect();
        println!("STRESS {}", json!({"violations": v, "counters": self.counters, "interleavings": self.interleavings}));
    }
}

/// What the threads agree on, changed under the exclusive lock together with the library.
#[derive(Default)]
struct Model {
    black: BTreeSet<String>,
    review: BTreeSet<String>,
}

struct Shared {
    trane: RwLock<Trane>,
    model: RwLock<Model>,
    lib: Lib,
    seen: Mutex<Seen>,
    /// Acknowledged trials: (exercise, time, grade, whether a delta is due: None if it depends).
    acked: Mutex<Vec<(String, i64, usize, Option<bool>)>>,
    /// Trials acknowledged so far by exercise.
    known: Mutex<BTreeMap<String, u64>>,
    clock: AtomicI64,
    steps: AtomicU64,
}

fn inside(lib: &Lib, black: &BTreeSet<String>, ex: &str) -> bool {
    let l = lib.lesson_of(ex);
    black.contains(ex)
        || l.is_some_and(|l| black.contains(&l.id))
        || l.and_then(|l| lib.course_of(&l.id)).is_some_and(|c| black.contains(&c.id))
}

#[derive(Clone, Copy)]
struct Mix {
    writes: f64,
    batches: f64,
    scores: f64,
}

fn shared_op(s: &Shared, r: &mut Rng, m: Mix, exs: &[String], units: &[String]) {
    let t = s.trane.read();
    let x = r.unit();
    if x < m.batches {
        let f = Filt::random(r, &s.lib);
        let filter = f.unit_filter().map(ExerciseFilter::UnitFilter);
        let model = s.model.read();
        match t.get_exercise_batch(filter) {
            Ok(b) => {
                let ids: Vec<String> = b.iter().map(|e| e.id.to_string()).collect();
                let set: BTreeSet<&String> = ids.iter().collect();
                let mut seen = s.seen.lock();
                seen.count("batches", 1);
                if set.len() != ids.len() {
                    seen.violate("batch-repeats-an-exercise", json!({"batch": ids}));
                }
                if let Some(e) = ids.iter().find(|e| inside(&s.lib, &model.black, e)) {
                    seen.violate("blacklisted-exercise-offered", json!({"exercise": e, "blacklist": model.black}));
                }
            }
            Err(e) => {
                if !matches!(f, Filt::Lessons(_) | Filt::Courses(_) | Filt::Dependents(_) | Filt::Dependencies(..)) {
                    s.seen.lock().violate("request-fails", json!({"error": format!("{e:#}")}));
                }
            }
        }
    } else if x < m.batches + m.scores {
        let e = r.pick(exs).clone();
        let g = r.usize_in(1, 5);
        let ts = s.clock.fetch_add(1, Ordering::SeqCst);
        let before = s.known.lock().get(&e).copied().unwrap_or(0);
        match t.score_exercise(u(&e), grade(g), ts) {
            Ok(()) => {
                s.acked.lock().push((e.clone(), ts, g, (before > 0).then_some(true)));
                *s.known.lock().entry(e.clone()).or_insert(0) += 1;
                // What was acknowledged is there for the thread that was told so.
                let back = t.get_scores(u(&e), 1_000_000).unwrap_or_default();
                let n = back.iter().filter(|x| x.timestamp == ts).count();
                let mut seen = s.seen.lock();
                seen.count("trials_scored", 1);
                if n != 1 {
                    seen.violate("acknowledged-trial-not-there", json!({"exercise": e, "time": ts, "found": n}));
                }
            }
            Err(e) => s.seen.lock().violate("scoring-fails", json!({"error": format!("{e:#}")})),
        }
    } else {
        let id = r.pick(units).clone();
        match r.below(9) {
            0..4 => match t.get_unit_score(u(&id)) {
                Ok(v) => {
                    if v.is_some_and(|v| !(0.0..=5.0).contains(&v)) {
                        s.seen.lock().violate("score-out-of-range", json!({"unit": id, "score": format!("{v:?}")}));
                    }
                }
                Err(e) => s.seen.lock().violate("score-fails", json!({"unit": id, "error": format!("{e:#}")})),
            },
            4 => {
                let _ = t.get_rewards(u(&id), 20);
                let _ = t.get_deltas(u(&id), 20);
            }
            5 => {
                let model = s.model.read();
                let b = t.blacklisted(u(&id)).unwrap_or_default();
                let l: BTreeSet<String> =
                    t.get_blacklist_entries().unwrap_or_default().iter().map(ToString::to_string).collect();
                if b != model.black.contains(&id) || l != model.black {
                    s.seen.lock().violate("blacklist-differs", json!({"unit": id, "blacklisted": b, "entries": l, "model": model.black}));
                }
            }
            6 => {
                let model = s.model.read();
                let l: BTreeSet<String> =
                    t.get_review_list_entries().unwrap_or_default().iter().map(ToString::to_string).collect();
                if l != model.review {
                    s.seen.lock().violate("review-list-differs", json!({"entries": l, "model": model.review}));
                }
            }
            7 => t.invalidate_cached_score(u(&id)),
            _ => {
                let known = t.get_unit_type(u(&id)).is_some();
                let n = t.get_all_exercise_ids(None).len();
                let _ = t.get_dependents(u(&id));
                if !known || n != s.lib.exercises().len() {
                    s.seen.lock().violate("library-changed", json!({"unit": id, "known": known, "exercises": n}));
                }
            }
        }
    }
    s.steps.fetch_add(1, Ordering::Relaxed);
}

fn exclusive_op(s: &Shared, r: &mut Rng, units: &[String], exs: &[String]) {
    let mut t = s.trane.write();
    let mut model = s.model.write();
    let id = r.pick(units).clone();
    let ok = match r.below(8) {
        0 | 1 => {
            model.black.insert(id.clone());
            t.add_to_blacklist(u(&id)).is_ok()
        }
        2 | 3 => {
            let id = model.black.iter().next().cloned().unwrap_or(id);
            model.black.remove(&id);
            t.remove_from_blacklist(u(&id)).is_ok()
        }
        4 => {
            if model.review.remove(&id) {
                t.remove_from_review_list(u(&id)).is_ok()
            } else {
                model.review.insert(id.clone());
                t.add_to_review_list(u(&id)).is_ok()
            }
        }
        5 => {
            let e = r.pick(exs).clone();
            let ts = s.clock.fetch_add(1, Ordering::SeqCst);
            let g = r.usize_in(1, 5);
            let res = t.record_exercise_scores(&[ExerciseTrial { exercise_id: u(&e), score: g as f32, timestamp: ts }]);
            s.acked.lock().push((e.clone(), ts, g, Some(false)));
            *s.known.lock().entry(e).or_insert(0) += 1;
            res.is_ok()
        }
        6 => {
            let mut o = SchedulerOptions::default();
            o.batch_size = r.usize_in(1, 60);
            t.set_scheduler_options(o);
            true
        }
        _ => {
            if r.chance(0.5) {
                t.trim_rewards(r.below(5) as u32).is_ok()
            } else {
                t.remove_rewards_with_prefix(&id).is_ok()
            }
        }
    };
    drop(model);
    drop(t);
    let mut seen = s.seen.lock();
    seen.count("edits", 1);
    if !ok {
        seen.violate("edit-fails", json!({}));
    }
    s.steps.fetch_add(1, Ordering::Relaxed);
}

/// With nobody at work: everything recorded exactly once, and every score that of a fresh instance.
fn settle(s: &Shared, w: &World) {
    let t = s.trane.read();
    let mut seen = s.seen.lock();
    let mut fresh = match w.fresh() {
        Ok(t) => t,
        Err(e) => return seen.violate("does-not-open", json!({"error": e})),
    };
    fresh.override_current_timestamp(Some(NOW));
    fresh.set_scheduler_options(t.get_scheduler_options());
    let acked = s.acked.lock();
    let mut want: BTreeMap<&str, BTreeMap<i64, (usize, Option<bool>)>> = BTreeMap::new();
    for (e, ts, g, d) in acked.iter() {
        want.entry(e).or_default().insert(*ts, (*g, *d));
    }
    for e in s.lib.exercises() {
        let none = BTreeMap::new();
        let want = want.get(e.as_str()).unwrap_or(&none);
        let got: Vec<(i64, f32)> =
            fresh.get_scores(u(&e), 1_000_000).unwrap_or_default().iter().map(|x| (x.timestamp, x.score)).collect();
        seen.count("trials_compared", got.len() as u64);
        let lost: Vec<&i64> = want.keys().filter(|ts| !got.iter().any(|x| x.0 == **ts)).collect();
        if !lost.is_empty() {
            seen.violate("trial-lost", json!({"exercise": e, "times": lost}));
        }
        if got.len() != want.len()
            || got.iter().any(|(ts, g)| want.get(ts).is_none_or(|w| (w.0 as f32 - g).abs() > 1e-6))
        {
            seen.violate("trials-differ", json!({"exercise": e, "recorded": got.len(), "acknowledged": want.len()}));
        }
        let deltas: Vec<i64> =
            fresh.get_deltas(u(&e), 1_000_000).unwrap_or_default().iter().map(|x| x.timestamp).collect();
        let set: BTreeSet<i64> = deltas.iter().copied().collect();
        if set.len() != deltas.len() || set.iter().any(|ts| want.get(ts).is_none_or(|w| w.1 == Some(false))) {
            seen.violate("delta-without-trial", json!({"exercise": e, "deltas": deltas}));
        }
        let due: Vec<&i64> = want.iter().filter(|(ts, w)| w.1 == Some(true) && !set.contains(ts)).map(|x| x.0).collect();
        if !due.is_empty() {
            seen.violate("delta-lost", json!({"exercise": e, "times": due}));
        }
    }
    for id in s.lib.units() {
        let (a, b) = (t.get_unit_score(u(&id)).unwrap_or(None), fresh.get_unit_score(u(&id)).unwrap_or(None));
        seen.count("scores_compared", 1);
        let same = match (a, b) {
            (None, None) => true,
            (Some(a), Some(b)) => (a - b).abs() < 2e-3,
            _ => false,
        };
        if !same {
            seen.violate("stale-score", json!({"unit": id, "reported": format!("{a:?}"), "of a fresh instance": format!("{b:?}")}));
        }
    }
    seen.count("quiet_points", 1);
}

fn stress_case(r: &mut Rng, n_steps: usize, all: &mut Seen, dead: &dyn Fn(&Seen)) {
    let small = r.chance(0.5);
    let shape = Shape {
        courses: if small { (1, 2) } else { (2, 6) },
        lessons: (1, 3),
        exs: (1, 4),
        p_enc: 0.5,
        p_sup: 0.2,
        p_missing: 0.0,
        hostile_ids: false,
        ..Shape::default()
    };
    let lib = Lib::generate(r, &shape);
    if lib.exercises().is_empty() {
        return;
    }
    let mut w = World::new(lib, Some(r.usize_in(3, 30))).unwrap_or_else(|e| panic!("harness: {e}"));
    w.trane.override_current_timestamp(Some(NOW));
    let lib = w.lib.clone();
    let other = w.fresh().unwrap_or_else(|e| panic!("harness: {e}"));
    let trane = std::mem::replace(&mut w.trane, other);
    let s = Arc::new(Shared {
        trane: RwLock::new(trane),
        model: RwLock::new(Model::default()),
        lib,
        seen: Mutex::new(Seen::default()),
        acked: Mutex::new(vec![]),
        known: Mutex::new(BTreeMap::new()),
        clock: AtomicI64::new(NOW - 100 * 86_400),
        steps: AtomicU64::new(0),
    });
    let rounds = r.usize_in(1, 4);
    for _ in 0..rounds {
        let n_threads = *r.pick(&[2usize, 3, 4, 8]);
        let m = *r.pick(&[
            Mix { writes: 0.0, batches: 0.2, scores: 0.4 },
            Mix { writes: 0.0, batches: 0.0, scores: 0.4 },
            Mix { writes: 0.1, batches: 0.2, scores: 0.3 },
            Mix { writes: 0.3, batches: 0.2, scores: 0.3 },
            Mix { writes: 0.05, batches: 0.6, scores: 0.2 },
        ]);
        // Everybody at the same few exercises, or all over the place.
        let exs = s.lib.exercises();
        let exs: Vec<String> = if r.chance(0.5) { exs[..exs.len().min(2)].to_vec() } else { exs };
        let units = s.lib.units();
        DELAYS.store(*r.pick(&[0, 1, 4, 8]), Ordering::SeqCst);
        ORDER.store(0, Ordering::SeqCst);
        SWITCHES.store(0, Ordering::SeqCst);
        let running = Arc::new(AtomicU64::new(n_threads as u64));
        let failed = Arc::new(AtomicBool::new(false));
        let mut handles = vec![];
        for i in 0..n_threads {
            let (s, exs, units, running, failed) = (s.clone(), exs.clone(), units.clone(), running.clone(), failed.clone());
            let mut r = Rng::stream(r.next(), i as u64);
            handles.push(
                std::thread::Builder::new()
                    .stack_size(32 << 20)
                    .spawn(move || {
                        ME.set(i as u64 + 1);
                        let res = guard(|| {
                            for _ in 0..n_steps {
                                if failed.load(Ordering::Relaxed) {
                                    break;
                                }
                                if r.chance(m.writes) {
                                    exclusive_op(&s, &mut r, &units, &exs);
                                } else {
                                    shared_op(&s, &mut r, m, &exs, &units);
                                }
                                match r.below(12) {
                                    0 => std::thread::yield_now(),
                                    1 => std::thread::sleep(Duration::from_micros(r.below(200) as u64)),
                                    _ => {}
                                }
                            }
                        });
                        if let Err(p) = res {
                            failed.store(true, Ordering::SeqCst);
                            if p.in_harness() {
                                println!("HARNESS-ERROR {}: {}", p.location, p.message);
                                std::process::exit(3);
                            }
                            s.seen.lock().violate(
                                format!("panic:{}", p.file()),
                                json!({"location": p.location, "message": p.message}),
                            );
                        }
                        running.fetch_sub(1, Ordering::SeqCst);
                    })
                    .expect("harness: thread"),
            );
        }
        // Nobody advances and nobody computes: a deadlock.
        let (mut last, mut cpu, mut since) = (0, cpu_seconds(), Instant::now());
        while running.load(Ordering::SeqCst) > 0 {
            std::thread::sleep(Duration::from_millis(2));
            let n = s.steps.load(Ordering::Relaxed);
            if n != last {
                (last, cpu, since) = (n, cpu_seconds(), Instant::now());
            } else if since.elapsed() > Duration::from_secs(25) {
                if cpu_seconds() - cpu < 1.0 {
                    let mut out = Seen::default();
                    out.violate(
                        "deadlock",
                        json!({"what": "no thread has advanced or computed for 25 seconds",
                               "threads at work": running.load(Ordering::SeqCst), "steps": n}),
                    );
                    dead(&out);
                    std::process::exit(0);
                }
                (cpu, since) = (cpu_seconds(), Instant::now());
            }
        }
        for h in handles {
            h.join().expect("harness: join");
        }
        DELAYS.store(0, Ordering::SeqCst);
        crate::ctx::tick();
        all.interleavings.insert(ORDER.load(Ordering::SeqCst) >> 1);
        all.count("switches", SWITCHES.load(Ordering::SeqCst));
        if failed.load(Ordering::SeqCst) {
            break;
        }
        settle(&s, &w);
    }
    let mine = s.seen.lock();
    for (k, n) in &mine.counters {
        all.count(k, *n);
    }
    for (sig, d) in &mine.violations {
        all.violate(sig.clone(), d.clone());
    }
    all.count("stress_cases", 1);
    all.count("steps", s.steps.load(Ordering::Relaxed));
}

/// `__stress <seed> <seconds> <steps per thread>`
pub fn child(args: &[String]) -> ! {
    let n = |i: usize| args.get(i).and_then(|s| s.parse::<u64>().ok()).unwrap_or(1);
    let (seed, secs, steps) = (n(0), n(1), n(2) as usize);
    unsafe {
        rusqlite::ffi::sqlite3_auto_extension(Some(on_open));
    }
    let start = Instant::now();
    let mut all = Seen::default();
    let mut i = 0;
    while i == 0 || (start.elapsed() < Duration::from_secs(secs) && all.violations.len() < 3) {
        let mut r = Rng::stream(seed, 0xC15_0000 + i);
        stress_case(&mut r, steps, &mut all, &|d| d.report());
        i += 1;
    }
    all.report();
    std::process::exit(0);
}

// ------------------------------------------------------------------------------------------------

fn run(ctx: &mut Ctx, exe: &std::path::Path, what: &str, secs: u64, steps: usize) {
    let tmp = scratch();
    let seed = ctx.seed.wrapping_mul(1000).wrapping_add(steps as u64);
    let (out, err) = (tmp.path().join("out"), tmp.path().join("err"));
    let open = |p: &std::path::Path| std::fs::File::create(p).expect("harness: file");
    let mut c = std::process::Command::new(exe)
        .args(["__stress", &seed.to_string(), &secs.to_string(), &steps.to_string()])
        .env("TSAN_OPTIONS", "halt_on_error=0 exitcode=0 report_signal_unsafe=0 second_deadlock_stack=1 history_size=4")
        .stdout(open(&out))
        .stderr(open(&err))
        .spawn()
        .unwrap_or_else(|e| panic!("harness: cannot run the stress process: {e}"));
    let t0 = Instant::now();
    let status = loop {
        step(format!("stress ({what})"));
        if let Some(s) = c.try_wait().expect("harness: wait") {
            break s;
        }
        if t0.elapsed() > Duration::from_secs(secs + 150) {
            let _ = c.kill();
            let _ = c.wait();
            panic!("harness: the stress process did not end");
        }
        std::thread::sleep(Duration::from_millis(50));
    };
    let (out, err) = (
        String::from_utf8_lossy(&std::fs::read(&out).unwrap_or_default()).to_string(),
        String::from_utf8_lossy(&std::fs::read(&err).unwrap_or_default()).to_string(),
    );
    ctx.count(&format!("stress_processes_{what}"));
    let line = out.lines().rev().find_map(|l| l.strip_prefix("STRESS "));
    if let Some(v) = line.and_then(|l| serde_json::from_str::<Value>(l).ok()) {
        for (k, n) in v["counters"].as_object().cloned().unwrap_or_default() {
            let n = n.as_u64().unwrap_or(0);
            ctx.add(&format!("{k}_{what}"), n);
            if k == "steps" {
                ctx.add("evaluations", n);
            }
        }
        for x in v["interleavings"].as_array().cloned().unwrap_or_default() {
            ctx.seen(&("interleaving", x.as_u64()));
        }
        for x in v["violations"].as_array().cloned().unwrap_or_default() {
            ctx.violate(x["sig"].as_str().unwrap_or("?").to_string(), json!({"build": what, "seed": seed, "detail": x["detail"]}));
        }
    }
    // Reports of the sanitizer.
    let mut n = 0;
    for rep in err.split("==================").filter(|r| r.contains("WARNING: ThreadSanitizer:")) {
        n += 1;
        let kind = if rep.contains("lock-order-inversion") {
            "lock-order"
        } else if rep.contains("data race") || rep.contains("heap-use-after-free") {
            "data-race"
        } else {
            continue;
        };
        // Races inside SQLite alone are not the repository's.
        let summary = rep.lines().find(|l| l.starts_with("SUMMARY")).unwrap_or("");
        if !rep.contains("trane::") || summary.contains("sqlite3.c") {
            ctx.count("reports_not_judged");
            continue;
        }
        if kind == "lock-order" {
            ctx.count("lock_order_reports");
            continue;
        }
        // Named after the repository's files in it, told by its accesses and their frames there.
        let files: BTreeSet<&str> = rep
            .lines()
            .filter_map(|l| l.split_once("/repo/src/").map(|x| x.1))
            .filter_map(|l| l.split_once(':').map(|x| x.0))
            .collect();
        let lines: Vec<String> = rep
            .lines()
            .filter(|l| {
                let l = l.trim_start();
                !l.starts_with('#') || l.contains("/repo/src/") || l.contains("threads.rs")
            })
            .map(|l| {
                let n = l.chars().count();
                if n < 160 { l.to_string() } else { l.chars().take(60).chain(l.chars().skip(n - 100)).collect() }
            })
            .take(60)
            .collect();
        ctx.violate(
            format!("data-race:{}", files.into_iter().next().unwrap_or("?")),
            json!({"build": what, "seed": seed, "report": lines}),
        );
    }
    ctx.add(&format!("sanitizer_reports_{what}"), n);
    if line.is_none() {
        use std::os::unix::process::ExitStatusExt;
        if out.contains("HARNESS-ERROR") || err.contains("harness:") || err.contains("FATAL: ThreadSanitizer") {
            panic!("harness: the stress process failed: {out} {}", err.chars().take(2000).collect::<String>());
        }
        match status.signal() {
            Some(9) => panic!("harness: the stress process was killed"),
            Some(n) => ctx.violate(
                format!("process-died:{n}"),
                json!({"build": what, "seed": seed, "stderr": err.chars().rev().take(3000).collect::<String>().chars().rev().collect::<String>()}),
            ),
            None => panic!("harness: the stress process gave no report ({status:?}): {}", err.chars().take(2000).collect::<String>()),
        }
    }
}

/// C15.
pub fn concurrency(ctx: &mut Ctx) {
    ctx.rule = "Two to eight threads share one open library behind a reader-writer lock, as safe Rust allows: requests, scoring, score look-ups and reads under the shared lock, edits of lists, options, trials and rewards under the exclusive one, with random delays injected at every database statement. Monitors: no data race (ThreadSanitizer over the code, its dependencies, the standard library and SQLite), no panic, no death of the process, no deadlock; every acknowledged trial is visible at once to its thread and recorded exactly once, deltas match trials; lists equal the model kept under the same lock; at quiet points every score equals that of a fresh instance over the same files.".into();
    ctx.assumptions = vec![
        "Interleavings are those the stress reached, not all.".into(),
        "ThreadSanitizer reports confined to SQLite are not judged.".into(),
    ];
    let me = std::env::current_exe().expect("harness: exe");
    let tsan = std::env::var("MON_TSAN")
        .map_or_else(|_| verif_dir().join("harness/target-tsan/x86_64-unknown-linux-gnu/release/mon"), Into::into);
    if !tsan.exists() {
        panic!("harness: the ThreadSanitizer build is missing");
    }
    let budget: u64 = std::env::var("MON_BUDGET_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if ctx.thorough() { 600 } else { 60 });
    let mut left = budget;
    let mut i = 0usize;
    while left > 0 && ctx.n_violations() == 0 {
        let n = left.min(60);
        left -= n;
        run(ctx, &me, "plain", (n * 2 / 5).max(4), 40 + 60 * (i % 3));
        if ctx.n_violations() == 0 {
            run(ctx, &tsan, "tsan", (n * 3 / 5).max(4), 30 + 25 * (i % 3));
        }
        i += 1;
    }
    for (a, b) in [("quiet_points_plain", 10), ("quiet_points_tsan", 3), ("trials_scored_tsan", 100), ("batches_tsan", 20)] {
        ctx.require(a, b);
    }
}
