//! C38: the benchmark simulates its students as described.

use super::batches::{course, lesson};
use crate::ctx::{Ctx, scratch, step};
use crate::lib_gen::{Course, Lib, Shape};
use crate::rng::Rng;
use crate::world::u;
use rusqlite::Connection;
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use trane::Trane;
use trane::benchmark::{Benchmark, PerformanceProbs, StudentProfile, StudentResult, verify_probs};
use trane::data::SchedulerOptions;
use trane::scheduler::ExerciseScheduler;

const DAY: i64 = 86_400;
const STORES: [(&str, &str); 3] =
    [("practice_stats.db", "practice_stats"), ("practice_rewards.db", "practice_rewards"), ("practice_deltas.db", "practice_deltas")];

/// Probabilities that sum to one. Half of them leave no or little choice.
fn chances(r: &mut Rng) -> PerformanceProbs {
    let mut p = [0.0f32; 5];
    match r.below(4) {
        0 => p[r.below(5)] = 1.0,
        1 => {
            let a = r.unit() as f32;
            p[r.below(2) + 3] = a;
            p[r.below(3)] = 1.0 - a;
        }
        _ => {
            let w: Vec<f32> = (0..5).map(|_| r.unit() as f32 + 0.01).collect();
            let sum: f32 = w.iter().sum();
            (0..5).for_each(|i| p[i] = w[i] / sum);
        }
    }
    p
}

/// A profile whose sessions have a size of their own.
fn profile(r: &mut Rng, number: u32) -> StudentProfile {
    let strong = r.chance(0.5);
    let best = [0.0, 0.0, 0.0, 0.1, 0.9];
    StudentProfile {
        session_frequency: *r.pick(&[1, 1, 2, 3, 7, 30]),
        exercises_per_session: r.usize_in(0, 7) as u32 * 5 + number + 1,
        initial_performance: if strong && r.chance(0.5) { best } else { chances(r) },
        trials_before_stable: *r.pick(&[0, 1, 2, 3, 5, 20]),
        stable_performance: if strong { best } else { chances(r) },
        lapse_rate: *r.pick(&[0.0, 0.0, 0.05, 0.3, 1.0]),
    }
}

fn snapshot(root: &Path) -> BTreeMap<String, Option<Vec<u8>>> {
    let mut all = BTreeMap::new();
    let mut stack = vec![root.to_path_buf()];
    while let Some(d) = stack.pop() {
        for e in std::fs::read_dir(&d).expect("harness: list").flatten() {
            let p = e.path();
            let name = p.strip_prefix(root).expect("harness: path").display().to_string();
            if p.is_dir() {
                all.insert(name, None);
                stack.push(p);
            } else {
                all.insert(name, Some(std::fs::read(&p).expect("harness: read")));
            }
        }
    }
    all
}

/// What a student practised, in order: the exercise, its grade and the time.
fn trials(stats: &Path) -> Result<Vec<(String, i64, i64)>, String> {
    let c = Connection::open(stats).map_err(|e| e.to_string())?;
    let mut q = c
        .prepare("SELECT unit_id, score, timestamp FROM practice_stats JOIN uids USING (unit_uid) ORDER BY practice_stats.id")
        .map_err(|e| e.to_string())?;
    q.query_map([], |row| Ok((row.get(0)?, row.get::<_, f64>(1)?.round() as i64, row.get(2)?)))
        .and_then(Iterator::collect)
        .map_err(|e| e.to_string())
}

struct Student<'a> {
    profile: &'a StudentProfile,
    result: &'a StudentResult,
    stores: PathBuf,
    trials: Vec<(String, i64, i64)>,
}

/// The scores of all courses after the given number of sessions, from what was recorded until then.
fn scores(s: &Student, source: &Path, courses: &[String], options: &SchedulerOptions, sessions: u32) -> Result<Vec<Option<f32>>, String> {
    let n = s.profile.exercises_per_session;
    let anchor = s.trials[0].2;
    let start = anchor + i64::from(sessions - 1) * i64::from(s.profile.session_frequency) * DAY;
    let end = start + i64::from(n);
    let dir = scratch();
    for (name, content) in snapshot(source) {
        let p = dir.path().join(name);
        match content {
            None => std::fs::create_dir_all(&p),
            Some(b) => std::fs::create_dir_all(p.parent().expect("harness: parent")).and_then(|()| std::fs::write(&p, b)),
        }
        .map_err(|e| e.to_string())?;
    }
    std::fs::create_dir_all(dir.path().join(".trane")).map_err(|e| e.to_string())?;
    for (file, table) in STORES {
        let to = dir.path().join(".trane").join(file);
        std::fs::copy(s.stores.join(file), &to).map_err(|e| e.to_string())?;
        Connection::open(&to)
            .and_then(|c| c.execute(&format!("DELETE FROM {table} WHERE timestamp > ?1"), [end]))
            .map_err(|e| e.to_string())?;
    }
    let mut t = Trane::new_local(dir.path(), dir.path()).map_err(|e| e.to_string())?;
    t.set_scheduler_options(options.clone());
    t.override_current_timestamp(Some(end));
    courses.iter().map(|c| t.get_unit_score(u(c)).map_err(|e| e.to_string())).collect()
}

/// Whether all courses reach the threshold, unless that is too close to tell.
fn mastered(scores: &[Option<f32>], threshold: f32) -> Option<bool> {
    if scores.iter().any(|s| s.is_none_or(|s| s < threshold - 0.001)) {
        Some(false)
    } else if scores.iter().all(|s| s.is_some_and(|s| s > threshold + 0.001)) {
        Some(true)
    } else {
        None
    }
}

fn expected(p: &StudentProfile, trial: u32) -> [f64; 5] {
    let w = if trial >= p.trials_before_stable { 1.0 } else { f64::from(trial) / f64::from(p.trials_before_stable) };
    let lapse = if trial > p.trials_before_stable { f64::from(p.lapse_rate) } else { 0.0 };
    std::array::from_fn(|i| {
        let q = f64::from(p.initial_performance[i]) * (1.0 - w) + f64::from(p.stable_performance[i]) * w;
        q * (1.0 - lapse) + if i == 1 { lapse } else { 0.0 }
    })
}

/// Compares the grades with those the profile leads one to expect.
fn judge_grades(ctx: &mut Ctx, s: &Student) {
    let (mut seen, mut want, mut variance) = ([0.0; 5], [0.0; 5], [0.0; 5]);
    let mut n: BTreeMap<&str, u32> = BTreeMap::new();
    for (e, grade, at) in &s.trials {
        let k = n.entry(e).or_default();
        let trial = *k;
        *k += 1;
        // Whether stability is reached with this trial or after it is not documented.
        if trial == s.profile.trials_before_stable && s.profile.lapse_rate > 0.0 {
            continue;
        }
        let p = expected(s.profile, trial);
        let Some(i) = (0..5).find(|i| *i as i64 + 1 == *grade) else {
            ctx.violate("grades:none", json!({"grade": grade, "at": at}));
            return;
        };
        if p[i] < 1e-6 {
            ctx.violate("grades:impossible", json!({"trial": trial, "grade": grade, "expected": p, "profile": format!("{:?}", s.profile)}));
            return;
        }
        ctx.count("grades");
        for g in 0..5 {
            seen[g] += if g == i { 1.0 } else { 0.0 };
            want[g] += p[g];
            variance[g] += p[g] * (1.0 - p[g]);
        }
    }
    for g in 0..5 {
        let z = if variance[g] > 60.0 { (seen[g] - want[g]) / f64::sqrt(variance[g]) } else { 0.0 };
        ctx.max("largest_deviation_in_tenths", (z.abs() * 10.0) as u64);
        if z.abs() > 6.5 {
            ctx.violate("grades:share", json!({"grade": g + 1, "seen": seen[g], "expected": want[g], "deviations": z, "profile": format!("{:?}", s.profile)}));
        }
    }
}

struct Setup<'a> {
    source: &'a Path,
    lib: &'a Lib,
    bench: &'a Benchmark,
    began: i64,
}

fn judge(ctx: &mut Ctx, r: &mut Rng, w: &Setup, s: &Student) {
    let (p, res) = (s.profile, s.result);
    let n = p.exercises_per_session;
    let facts = |more: Value| {
        json!({"profile": format!("{p:?}"), "result": format!("{res:?}"), "recorded": s.trials.len(), "max_sessions": w.bench.max_sessions,
               "threshold": w.bench.mastery_threshold, "library": w.lib.to_json(), "more": more})
    };
    ctx.count("students");
    // The counts.
    if res.exercises_practiced as usize != s.trials.len() || res.exercises_practiced != res.sessions_run * n {
        ctx.violate("exercises", facts(json!(null)));
        return;
    }
    let known: std::collections::BTreeSet<String> = w.lib.exercises().into_iter().collect();
    // The rhythm.
    let anchor = s.trials.first().map_or(0, |t| t.2);
    for (k, (e, _, at)) in s.trials.iter().enumerate() {
        let (session, index) = (k as i64 / i64::from(n), k as i64 % i64::from(n));
        let due = anchor + session * i64::from(p.session_frequency) * DAY + index;
        if *at != due || !known.contains(e) {
            ctx.violate("rhythm", facts(json!({"trial": k, "exercise": e, "at": at - anchor, "due": due - anchor})));
            return;
        }
    }
    let today = chrono::Utc::now().timestamp();
    if res.sessions_run == 0 || anchor < w.began || anchor > today {
        ctx.violate("rhythm", facts(json!({"anchor": anchor, "began": w.began, "now": today})));
        return;
    }
    // The end.
    let courses: Vec<String> = w.lib.courses.iter().map(|c| c.id.clone()).collect();
    let right = match res.days_to_mastery {
        Some(d) => d == (res.sessions_run - 1) * p.session_frequency && res.sessions_run <= w.bench.max_sessions,
        None => res.sessions_run == w.bench.max_sessions,
    };
    if !right {
        ctx.violate("sessions", facts(json!(null)));
        return;
    }
    let advanced = courses.iter().any(|c| *c == w.bench.advanced_course.as_str());
    let mut at = vec![res.sessions_run];
    if res.sessions_run > 1 {
        at.push(res.sessions_run - 1);
        at.push(r.usize_in(1, res.sessions_run as usize - 1) as u32);
    }
    for k in at {
        let got = match scores(s, w.source, &courses, &w.bench.scheduler_opts, k) {
            Ok(v) => v,
            Err(e) => panic!("harness: {e}"),
        };
        let want = if advanced { mastered(&got, w.bench.mastery_threshold) } else { Some(false) };
        let reported = res.days_to_mastery.is_some() && k == res.sessions_run;
        match want {
            None => ctx.count("too_close_to_tell"),
            Some(m) => {
                ctx.count(if m { "sessions_with_mastery" } else { "sessions_without_mastery" });
                if m != reported {
                    ctx.violate(if m { "mastery:missed" } else { "mastery:early" }, facts(json!({"after session": k, "scores": got})));
                    return;
                }
            }
        }
    }
    judge_grades(ctx, s);
}

fn run(ctx: &mut Ctx, r: &mut Rng, lib: &Lib, bench: &mut Benchmark) -> Option<Vec<(StudentResult, Vec<(String, i64, i64)>)>> {
    let dir = scratch();
    lib.write(dir.path()).unwrap_or_else(|e| panic!("harness: {e}"));
    std::fs::create_dir_all(dir.path().join("notes/empty")).expect("harness: folder");
    std::fs::write(dir.path().join("notes/readme.txt"), "not a course").expect("harness: file");
    bench.library_dir = dir.path().to_path_buf();
    let before = snapshot(dir.path());
    let kept = scratch();
    let began = chrono::Utc::now().timestamp();
    step(format!("simulate at most {} sessions", bench.max_sessions));
    crate::io::keep_databases(Some(kept.path()));
    let results = bench.run_benchmark();
    crate::io::keep_databases(None);
    let facts = json!({"library": lib.to_json(), "max_sessions": bench.max_sessions});
    if snapshot(dir.path()) != before {
        ctx.violate("source-changed", facts.clone());
    }
    let results = match results {
        Ok(x) => x,
        Err(e) => {
            ctx.violate("error", json!({"error": format!("{e:#}"), "facts": facts}));
            return None;
        }
    };
    let results = [
        results.remedial_result,
        results.below_median_result,
        results.median_result,
        results.above_median_result,
        results.excellent_result,
    ];
    let profiles = [
        bench.remedial_profile.clone(),
        bench.below_median_profile.clone(),
        bench.median_profile.clone(),
        bench.above_median_profile.clone(),
        bench.excellent_profile.clone(),
    ];
    // The copies, by the size of their first session.
    let mut copies = BTreeMap::new();
    for e in std::fs::read_dir(kept.path()).expect("harness: list").flatten() {
        let stats = e.path().join("practice_stats.db");
        if stats.exists() {
            let v = trials(&stats).unwrap_or_else(|x| panic!("harness: {x}"));
            let first = v.first().map_or(0, |t| t.2);
            let size = v.iter().take_while(|t| t.2 < first + DAY / 2).count() as u32;
            copies.insert(size, (e.path(), v));
        }
    }
    let sizes: Vec<u32> = profiles.iter().map(|p| p.exercises_per_session).collect();
    if copies.len() != 5 || sizes.iter().any(|n| !copies.contains_key(n)) {
        ctx.violate("rhythm", json!({"sizes of sessions": sizes, "seen": copies.keys().collect::<Vec<_>>(), "facts": facts}));
        return None;
    }
    let mut all = vec![];
    for (profile, result) in profiles.iter().zip(&results) {
        let (stores, v) = copies.remove(&profile.exercises_per_session).expect("harness: copy");
        let s = Student { profile, result, stores, trials: v };
        judge(ctx, r, &Setup { source: dir.path(), lib, bench, began }, &s);
        all.push((result.clone(), s.trials));
    }
    Some(all)
}

fn configured(r: &mut Rng) -> Benchmark {
    Benchmark {
        remedial_profile: profile(r, 0),
        below_median_profile: profile(r, 1),
        median_profile: profile(r, 2),
        above_median_profile: profile(r, 3),
        excellent_profile: profile(r, 4),
        ..Benchmark::default()
    }
}

pub fn students(ctx: &mut Ctx) {
    ctx.rule = "distinct configurations of benchmarks and libraries".into();
    ctx.assumptions = vec![
        "Performance between the first and the stable trial is interpolated linearly.".into(),
        "The library has no practice of its own.".into(),
    ];
    ctx.cases("simulation", 12, 1_000_000, 0.85, |ctx, r| {
        let shape = Shape { courses: (1, 3), lessons: (1, 3), exs: (1, 5), p_missing: 0.0, p_empty: 0.0, ..Default::default() };
        let lib = Lib::generate(r, &shape);
        let mut bench = configured(r);
        bench.max_sessions = r.usize_in(1, 12) as u32;
        bench.mastery_threshold = *r.pick(&[0.5, 2.0, 3.0, 4.0, 4.3, 4.6]);
        let id = if r.chance(0.9) { r.pick(&lib.courses).id.clone() } else { "no such course".into() };
        bench.advanced_course = u(&id);
        ctx.count("evaluations");
        ctx.seen(&(lib.to_json().to_string(), format!("{:?}{:?}", bench.remedial_profile, bench.median_profile)));
        if let Some(v) = run(ctx, r, &lib, &mut bench) {
            ctx.add("sessions", v.iter().map(|(x, _)| u64::from(x.sessions_run)).sum());
            ctx.add("mastered", v.iter().filter(|(x, _)| x.days_to_mastery.is_some()).count() as u64);
            if ctx.get("evaluations") == 1 {
                ctx.sample(json!({"results": v.iter().map(|(x, _)| format!("{x:?}")).collect::<Vec<_>>()}));
            }
        }
    });
    // Students who always get the same grade: what they reach depends on the options.
    ctx.cases("options", 4, 1_000_000, 1.0, |ctx, r| {
        let mut second = lesson("a", "second", 3);
        second.deps.push("a::first".into());
        let courses: Vec<Course> = vec![course("a", vec![lesson("a", "first", 3), second])];
        let lib = Lib::from_courses(courses);
        let mut bench = configured(r);
        let easy = r.chance(0.5);
        let p = [0.0, 0.0, 1.0, 0.0, 0.0];
        for x in [
            &mut bench.remedial_profile,
            &mut bench.below_median_profile,
            &mut bench.median_profile,
            &mut bench.above_median_profile,
            &mut bench.excellent_profile,
        ] {
            (x.initial_performance, x.stable_performance, x.lapse_rate) = (p, p, 0.0);
        }
        bench.scheduler_opts.passing_score.min_score = if easy { 2.0 } else { 3.9 };
        bench.scheduler_opts.batch_size = r.usize_in(5, 20);
        bench.advanced_course = u("a");
        bench.mastery_threshold = 4.9;
        bench.max_sessions = 8;
        ctx.count("evaluations");
        ctx.seen(&(easy, bench.scheduler_opts.batch_size, format!("{:?}", bench.median_profile)));
        if let Some(v) = run(ctx, r, &lib, &mut bench) {
            for (res, trials) in v {
                let opened = trials.iter().any(|t| t.0.starts_with("a::second"));
                ctx.count(if easy { "students_let_through" } else { "students_held_back" });
                // A few sessions of several exercises are needed to get through.
                if opened != easy && (!easy || trials.len() > 100) {
                    ctx.violate("options", json!({"passing score": bench.scheduler_opts.passing_score.min_score, "practised": trials.len(), "result": format!("{res:?}")}));
                }
            }
        }
    });
    ctx.cases("verify", 200, 400, 1.0, |ctx, r| {
        let mut p = chances(r);
        let off = *r.pick(&[0.0f32, 0.0, 0.001, -0.001, 0.01, -0.3, 1.0, f32::NAN, f32::INFINITY]);
        p[r.below(5)] += off;
        ctx.count("evaluations");
        if verify_probs(&p).is_ok() != (off == 0.0) {
            ctx.violate("verify:probabilities", json!({"probabilities": p, "off": off}));
        }
        let mut bench = configured(r);
        let x = match r.below(5) {
            0 => &mut bench.remedial_profile,
            1 => &mut bench.below_median_profile,
            2 => &mut bench.median_profile,
            3 => &mut bench.above_median_profile,
            _ => &mut bench.excellent_profile,
        };
        if r.chance(0.5) {
            x.initial_performance = p;
        } else {
            x.stable_performance = p;
        }
        let mut valid = off == 0.0;
        if r.chance(0.3) {
            bench.scheduler_opts.mastered_window_opts.percentage += 0.2;
            valid = false;
        }
        if bench.verify().is_ok() != valid {
            ctx.violate("verify:benchmark", json!({"off": off, "valid": valid}));
        }
    });
    ctx.require("students", 60);
    ctx.require("grades", 2000);
    ctx.require("mastered", 3);
    ctx.require("sessions_with_mastery", 3);
    ctx.require("sessions_without_mastery", 30);
    ctx.require("students_let_through", 1);
}
