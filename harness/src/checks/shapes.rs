//! C37: everything completes, on libraries of any shape.

use super::batches::{course, lesson};
use crate::ctx::{Ctx, scratch, step};
use crate::lib_gen::{Course, Lib};
use crate::rng::Rng;
use crate::world::{grade, u};
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::BTreeMap;
use std::io::{BufRead, Write};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use trane::Trane;
use trane::blacklist::Blacklist;
use trane::course_library::CourseLibrary;
use trane::data::filter::{ExerciseFilter, FilterType, KeyValueFilter, UnitFilter};
use trane::data::ExerciseTrial;
use trane::graph::UnitGraph;
use trane::practice_stats::PracticeStats;
use trane::review_list::ReviewList;
use trane::scheduler::ExerciseScheduler;

/// Processor time one operation may take. The slowest one seen takes a twentieth of it.
const LIMIT_S: f64 = 40.0;
const MEMORY: u64 = 6 << 30;

const RLIMIT_CORE: i32 = 4;
const RLIMIT_AS: i32 = 9;

unsafe extern "C" {
    fn setrlimit(resource: i32, limits: *const [u64; 2]) -> i32;
    fn _exit(code: i32) -> !;
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Open,
    Scores,
    All,
    Courses(Vec<String>),
    Lessons(Vec<String>),
    Meta,
    Review,
    Dependents(Vec<String>),
    Dependencies(Vec<String>, usize),
    Grade(String, usize),
    Blacklist(String),
    Unblacklist(String),
    Practise(Vec<String>, f32),
    List(Vec<String>),
    Dot,
}

impl Op {
    fn kind(&self) -> &'static str {
        match self {
            Op::Open => "open",
            Op::Scores => "scores",
            Op::All => "all",
            Op::Courses(_) => "courses",
            Op::Lessons(_) => "lessons",
            Op::Meta => "metadata",
            Op::Review => "review",
            Op::Dependents(_) => "dependents",
            Op::Dependencies(..) => "dependencies",
            Op::Grade(..) => "grade",
            Op::Blacklist(_) | Op::Unblacklist(_) => "blacklist",
            Op::Practise(..) => "practise",
            Op::List(_) => "list",
            Op::Dot => "dot",
        }
    }
}

#[derive(Serialize, Deserialize)]
struct Job {
    root: PathBuf,
    ops: Vec<Op>,
}

static CURRENT: AtomicU64 = AtomicU64::new(0);

/// Performs the operations of a job, reporting the beginning and the end of each.
pub fn child(path: &str) -> ! {
    let job: Job = serde_json::from_str(&std::fs::read_to_string(path).expect("harness: job")).expect("harness: job");
    let limits = [(RLIMIT_AS, MEMORY), (RLIMIT_CORE, 0)];
    if limits.iter().any(|(what, n)| unsafe { setrlimit(*what, &[*n, *n]) } != 0) {
        eprintln!("harness: no limits");
        std::process::exit(46);
    }
    std::thread::spawn(|| {
        let mut op = 0;
        let mut since = crate::ctx::cpu_seconds();
        loop {
            std::thread::sleep(std::time::Duration::from_millis(200));
            let c = crate::ctx::cpu_seconds();
            let now = CURRENT.load(Ordering::SeqCst);
            if now != op {
                (op, since) = (now, c);
            } else if c - since > LIMIT_S {
                unsafe { _exit(42) };
            }
        }
    });
    // The stack of a usual main thread.
    let code = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || perform(&job))
        .expect("harness: thread")
        .join()
        .unwrap_or(43);
    std::process::exit(code);
}

fn perform(job: &Job) -> i32 {
    let mut open: Option<Trane> = None;
    let now = chrono::Utc::now().timestamp();
    for (i, op) in job.ops.iter().enumerate() {
        CURRENT.store(i as u64 + 1, Ordering::SeqCst);
        println!("b {i}");
        let _ = std::io::stdout().flush();
        let t0 = crate::ctx::cpu_seconds();
        if matches!(op, Op::Open) {
            open = None;
            match Trane::new_local(&job.root, &job.root) {
                Ok(t) => open = Some(t),
                Err(e) => {
                    println!("e {i} {e:#}");
                    return 44;
                }
            }
        }
        let Some(t) = open.as_mut() else { return 45 };
        let ids = |v: &[String]| v.iter().map(|s| u(s)).collect::<Vec<_>>();
        let mut offered = 0;
        let mut batch = |f: Option<UnitFilter>| {
            let f = f.map(ExerciseFilter::UnitFilter);
            t.get_exercise_batch(f).map(|b| offered = b.len()).map_err(|e| e.to_string())
        };
        let r: Result<(), String> = match op {
            Op::Open => Ok(()),
            Op::All => batch(None),
            Op::Courses(v) => batch(Some(UnitFilter::CourseFilter { course_ids: ids(v) })),
            Op::Lessons(v) => batch(Some(UnitFilter::LessonFilter { lesson_ids: ids(v) })),
            Op::Meta => batch(Some(UnitFilter::MetadataFilter {
                filter: KeyValueFilter::LessonFilter { key: "k".into(), value: "v".into(), filter_type: FilterType::Include },
            })),
            Op::Review => batch(Some(UnitFilter::ReviewListFilter)),
            Op::Dependents(v) => batch(Some(UnitFilter::Dependents { unit_ids: ids(v) })),
            Op::Dependencies(v, depth) => batch(Some(UnitFilter::Dependencies { unit_ids: ids(v), depth: *depth })),
            Op::Scores => t
                .get_course_ids()
                .into_iter()
                .chain(t.get_course_ids().into_iter().flat_map(|c| t.get_lesson_ids(c).unwrap_or_default()))
                .chain(t.get_all_exercise_ids(None))
                .try_for_each(|x| t.get_unit_score(x).map(|_| ()))
                .map_err(|e| e.to_string()),
            Op::Grade(e, g) => t.score_exercise(u(e), grade(*g), now).map_err(|e| e.to_string()),
            Op::Blacklist(x) => t.add_to_blacklist(u(x)).map_err(|e| e.to_string()),
            Op::Unblacklist(x) => t.remove_from_blacklist(u(x)).map_err(|e| e.to_string()),
            Op::Practise(v, g) => {
                let all: Vec<ExerciseTrial> = v
                    .iter()
                    .flat_map(|e| (0..2).map(move |k| ExerciseTrial { exercise_id: u(e), score: *g, timestamp: now - 3600 - k * 86_400 }))
                    .collect();
                t.record_exercise_scores(&all).map_err(|e| e.to_string())
            }
            Op::List(v) => v.iter().try_for_each(|x| t.add_to_review_list(u(x))).map_err(|e| e.to_string()),
            Op::Dot => {
                offered = t.generate_dot_graph(false).len();
                Ok(())
            }
        };
        if let Err(e) = r {
            println!("e {i} {e}");
            return 44;
        }
        println!("d {i} {} {offered}", ((crate::ctx::cpu_seconds() - t0) * 1000.0) as u64);
    }
    0
}

/// Which earlier places each of the given number of places follows.
fn connect(r: &mut Rng, shape: &str, n: usize) -> Vec<Vec<usize>> {
    let mut v = vec![vec![]; n];
    match shape {
        "chain" => (1..n).for_each(|i| v[i].push(i - 1)),
        "layers" => {
            let w = r.usize_in(2, 4);
            for i in w..n {
                let first = (i / w - 1) * w;
                v[i].extend(first..first + w);
            }
        }
        "complete" => (1..n).for_each(|i| v[i].extend(0..i)),
        "ladder" => {
            for i in 1..n {
                v[i].push(i - 1);
                if i > 1 {
                    v[i].push(i - 2);
                }
            }
        }
        "tree" => (1..n).for_each(|i| v[i].push((i - 1) / 3)),
        "funnel" => (1..n).for_each(|i| v[i].extend(((3 * i).saturating_sub(n)..i).take(3))),
        "sparse" => {
            for i in 1..n {
                for _ in 0..r.usize_in(0, 2) {
                    v[i].push(r.usize_in(i.saturating_sub(100), i - 1));
                }
                v[i].sort_unstable();
                v[i].dedup();
            }
        }
        _ => {
            let p = r.unit() * 0.6;
            for i in 1..n {
                for j in 0..i {
                    if r.chance(p) {
                        v[i].push(j);
                    }
                }
            }
        }
    }
    v
}

const SHAPES: [&str; 8] = ["layers", "complete", "ladder", "chain", "tree", "funnel", "random", "sparse"];

fn generate(r: &mut Rng, shape: &str) -> (Lib, Vec<&'static str>) {
    let mut used = vec![];
    let mut link = |r: &mut Rng, name: &'static str, p: f64| {
        let yes = r.chance(p);
        if yes {
            used.push(name);
        }
        yes
    };
    let deps = link(r, "dependencies", 0.9);
    let sup = link(r, "superseding", 0.5);
    let enc = link(r, "encompassing", 0.6);
    let n = match shape {
        "chain" => r.usize_in(50, 150),
        "complete" | "random" => r.usize_in(16, 26),
        "sparse" => r.usize_in(200, 600),
        _ => r.usize_in(40, 70),
    };
    // The time taken is a high power of the number of superseded units, whatever the shape.
    let n = if sup { n * 6 / 10 } else { n };
    let by_course = r.chance(0.35);
    if by_course {
        used.push("of courses");
    }
    let after = connect(r, shape, n);
    let name = |i: usize| if by_course { format!("c{i}") } else { format!("c::l{i}") };
    let even = r.chance(0.3);
    let matching = *r.pick(&[0.0, 0.03, 0.4]);
    let mut lessons = vec![];
    let mut courses: Vec<Course> = vec![];
    for i in 0..n {
        let d: Vec<String> = after[i].iter().map(|j| name(*j)).collect();
        let e: Vec<(String, f32)> = d.iter().map(|x| (x.clone(), if even { 1.0 } else { 0.5 + 0.5 * r.unit() as f32 })).collect();
        let mut l = if by_course { lesson(&format!("c{i}"), "l", r.usize_in(1, 2)) } else { lesson("c", &format!("l{i}"), r.usize_in(1, 2)) };
        if r.chance(matching) {
            l.meta = Some(BTreeMap::from([("k".to_string(), vec!["v".to_string()])]));
        }
        if by_course {
            let mut c = course(&format!("c{i}"), vec![]);
            (c.deps, c.enc, c.sup) = (if deps { d.clone() } else { vec![] }, if enc { e } else { vec![] }, if sup { d } else { vec![] });
            c.lessons.push(l);
            courses.push(c);
        } else {
            (l.deps, l.enc, l.sup) = (if deps { d.clone() } else { vec![] }, if enc { e } else { vec![] }, if sup { d } else { vec![] });
            lessons.push(l);
        }
    }
    if !by_course {
        courses.push(course("c", lessons));
    }
    (Lib::from_courses(courses), used)
}

pub fn shapes(ctx: &mut Ctx) {
    ctx.rule = "distinct libraries (shape, relations, size) and operations on them".into();
    ctx.assumptions = vec![
        format!("An operation on a library of at most 600 lessons that takes more than {LIMIT_S} s of processor time or {} GiB of memory does not complete in proportion.", MEMORY >> 30),
    ];
    let exe = std::env::current_exe().expect("harness: exe");
    ctx.cases("shape", SHAPES.len(), 1_000_000, 1.0, |ctx, r| {
        let shape = SHAPES[(ctx.get("cases_shape") as usize - 1) % SHAPES.len()];
        let (lib, used) = generate(r, shape);
        let dir = scratch();
        lib.write(dir.path()).unwrap_or_else(|e| panic!("harness: {e}"));
        let (exs, lessons) = (lib.exercises(), lib.lessons());
        let cids: Vec<String> = lib.courses.iter().map(|c| c.id.clone()).collect();
        let units = |r: &mut Rng, k: usize| {
            let mut v: Vec<String> = lessons.iter().chain(&cids).rev().take(3).cloned().collect();
            v.extend((0..k).map(|_| r.pick(&lessons).clone()));
            v.extend((0..k).map(|_| r.pick(&cids).clone()));
            v
        };
        let mut ops = vec![Op::Open];
        // How much of the library is mastered before and between the requests.
        let mut portions = vec![0.0, r.unit(), 1.0];
        if r.chance(0.5) {
            portions.reverse();
        }
        let mut some: Vec<String> = exs.clone();
        r.shuffle(&mut some);
        some.truncate(20);
        ops.push(Op::List(some));
        for (k, p) in portions.into_iter().enumerate() {
            let v = r.subset(&exs, p);
            if !v.is_empty() {
                ops.push(Op::Practise(v, *r.pick(&[3.0f32, 4.0, 5.0, 5.0])));
            }
            if k > 0 && r.chance(0.5) {
                ops.push(Op::Open);
            }
            let mut round = vec![
                Op::Scores,
                Op::All,
                Op::Courses(units(r, 2)),
                Op::Lessons(units(r, 2)),
                Op::Meta,
                Op::Review,
                Op::Dependents(units(r, 1)),
                Op::Dot,
            ];
            for _ in 0..3 {
                round.push(Op::Dependencies(units(r, 1), *r.pick(&[0usize, 1, 2, 4, 8, 12, 20, 30, 100, 10_000, usize::MAX])));
                round.push(Op::Grade(r.pick(&exs).clone(), r.usize_in(1, 5)));
                let x = if r.chance(0.5) { r.pick(&lessons).clone() } else { r.pick(&exs).clone() };
                round.push(if r.chance(0.5) { Op::Blacklist(x) } else { Op::Unblacklist(x) });
            }
            r.shuffle(&mut round);
            ops.extend(round);
        }
        let job = Job { root: dir.path().to_path_buf(), ops };
        let spec = dir.path().join(".job");
        std::fs::write(&spec, serde_json::to_string(&job).expect("harness: job")).expect("harness: job");
        step(format!("{shape} of {} lessons, {used:?}", lessons.len()));
        let mut proc = std::process::Command::new(&exe)
            .arg("__shape")
            .arg(&spec)
            .stdout(std::process::Stdio::piped())
            .stderr(std::process::Stdio::piped())
            .spawn()
            .expect("harness: spawn");
        let (mut begun, mut done) = (None, None);
        let mut error = None;
        for line in std::io::BufReader::new(proc.stdout.take().expect("harness: pipe")).lines() {
            let line = line.expect("harness: line");
            step(format!("{shape} of {} lessons, {used:?}: {line}", lessons.len()));
            let mut w = line.split(' ');
            match w.next() {
                Some("b") => begun = w.next().and_then(|x| x.parse::<usize>().ok()),
                Some("e") => error = Some(line.clone()),
                Some("d") => {
                    done = w.next().and_then(|x| x.parse::<usize>().ok());
                    let ms: u64 = w.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                    let kind = job.ops[done.expect("harness: number")].kind();
                    ctx.count("operations");
                    ctx.count(&format!("operations_{kind}"));
                    ctx.max(&format!("slowest_ms_{kind}"), ms);
                    ctx.add("exercises_offered", w.next().and_then(|x| x.parse().ok()).filter(|_| kind != "dot").unwrap_or(0));
                    ctx.seen(&(shape, &used, lessons.len(), kind, done));
                }
                _ => {}
            }
        }
        let status = proc.wait().expect("harness: wait");
        let mut err = String::new();
        if let Some(mut e) = proc.stderr.take() {
            let _ = std::io::Read::read_to_string(&mut e, &mut err);
        }
        ctx.count("evaluations");
        ctx.count(&format!("shape_{shape}"));
        ctx.max("most_lessons", lessons.len() as u64);
        for w in &used {
            ctx.count(&format!("relation_{w}"));
        }
        let unfinished = begun.filter(|b| done != Some(*b));
        if status.code() == Some(0) && unfinished.is_none() {
            return;
        }
        let Some(at) = unfinished else { panic!("harness: the child ended with {status}: {err}") };
        let what = if status.code() == Some(42) {
            "not-done"
        } else if error.is_some() {
            "error"
        } else {
            "died"
        };
        let op = &job.ops[at];
        ctx.violate(
            format!("{what}:{}:{}", op.kind(), used.join("+")),
            json!({"operation": format!("{op:?}").chars().take(400).collect::<String>(), "status": status.to_string(), "error": error,
                   "last words": err.chars().take(400).collect::<String>(), "shape": shape, "lessons": lessons.len(), "relations": used,
                   "operations before": format!("{:?}", job.ops[..at].iter().map(Op::kind).collect::<Vec<_>>())}),
        );
    });
    ctx.require("operations", 150);
    for s in SHAPES {
        ctx.require(&format!("shape_{s}"), 1);
    }
}
