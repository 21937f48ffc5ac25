//! Monitors of hostile input: valid libraries, user files and practice data are damaged in random
//! ways, opened and used. Nothing may panic or hang, and what was not damaged has to be there.

use crate::{
    checks::{
        generators::{GENS, instruments, make, prefs_json},
        library::{Expect, File, Layout, same, write_prefs},
        sched::Sim,
        stores::hostile_ids,
        values,
    },
    ctx::{Ctx, scratch, step},
    lib_gen::{Ids, Lib, Shape},
    rng::Rng,
    world::{grade, u},
};
use chrono::{Duration, Utc};
use serde_json::{Value, json};
use std::{
    collections::BTreeSet,
    ffi::OsString,
    os::unix::ffi::OsStringExt,
    path::{Path, PathBuf},
};
use trane::{
    Trane,
    blacklist::Blacklist,
    course_library::CourseLibrary,
    data::{
        UnitType,
        filter::{ExerciseFilter, FilterOp, FilterType, KeyValueFilter, SessionPart, StudySession, StudySessionData, UnitFilter},
    },
    filter_manager::FilterManager,
    graph::UnitGraph,
    practice_deltas::PracticeDeltas,
    practice_rewards::PracticeRewards,
    practice_stats::PracticeStats,
    review_list::ReviewList,
    scheduler::ExerciseScheduler,
    study_session_manager::StudySessionManager,
};

// ------------------------------------------------------------------------------------------------
// Damage.

fn hostile_value(r: &mut Rng, ids: &[String]) -> Value {
    match r.below(24) {
        0 => Value::Null,
        1 => json!(true),
        2 => json!(0),
        3 => json!(-1),
        4 => json!(1e308),
        5 => json!(-1e308),
        6 => json!(u64::MAX),
        7 => json!(i64::MIN),
        8 => json!(""),
        9 => json!("\u{0}"),
        10 => json!("x".repeat(70_000)),
        11 => json!([]),
        12 => json!({}),
        13 => json!([[]]),
        14 => {
            let mut v = json!(1);
            for _ in 0..r.usize_in(50, 200) {
                v = if r.chance(0.5) { json!([v]) } else { json!({"a": v}) };
            }
            v
        }
        15 => json!(".."),
        16 => json!("nonexistent/../../x"),
        17 => json!("."),
        18 => json!({"MarkdownAsset": {"path": ""}}),
        19 => json!([["a", 0.5, 1], ["b"]]),
        20 => json!(0.1),
        21 => json!([null]),
        _ if !ids.is_empty() => json!(r.pick(ids)),
        _ => json!("other"),
    }
}

/// Replaces, removes or adds something at a random place.
fn mutate_json(r: &mut Rng, v: &mut Value, ids: &[String]) {
    let stop = r.chance(0.3);
    match v {
        Value::Object(o) if !o.is_empty() && !stop => {
            let k = r.pick(&o.keys().cloned().collect::<Vec<_>>()).clone();
            match r.below(10) {
                0 => {
                    o.remove(&k);
                }
                1 => {
                    let x = hostile_value(r, ids);
                    o.insert(format!("{k}{}", r.pick(&["", "_", "s", " "])), x);
                }
                2 => {
                    let x = o.remove(&k).unwrap();
                    o.insert(k.to_uppercase(), x);
                }
                _ => mutate_json(r, o.get_mut(&k).unwrap(), ids),
            }
        }
        Value::Array(a) if !a.is_empty() && !stop => {
            let i = r.below(a.len());
            match r.below(6) {
                0 => {
                    a.remove(i);
                }
                1 => {
                    let x = a[i].clone();
                    a.push(x);
                }
                2 => {
                    let x = hostile_value(r, ids);
                    a.insert(i, x);
                }
                _ => mutate_json(r, &mut a[i], ids),
            }
        }
        _ => *v = hostile_value(r, ids),
    }
}

pub fn mutate_bytes(r: &mut Rng, b: &mut Vec<u8>) -> &'static str {
    let n = b.len();
    let range = |r: &mut Rng| {
        let i = r.below(n.max(1)).min(n);
        (i, (i + r.usize_in(1, 40)).min(n))
    };
    match r.below(13) {
        0 | 1 if n > 0 => {
            for _ in 0..r.usize_in(1, 4) {
                let i = r.below(n);
                b[i] ^= 1 << r.below(8);
            }
            "flip"
        }
        2 if n > 0 => {
            b.truncate(r.below(n));
            "truncate"
        }
        3 if n > 0 => {
            let (i, j) = range(r);
            b.drain(i..j);
            "delete"
        }
        4 if n > 0 => {
            let (i, j) = range(r);
            let c = b[i..j].to_vec();
            let at = r.below(n);
            b.splice(at..at, c);
            "duplicate"
        }
        5 => {
            let at = r.below(n + 1);
            let c: Vec<u8> = (0..r.usize_in(1, 8)).map(|_| r.below(256) as u8).collect();
            b.splice(at..at, c);
            "insert"
        }
        6 => {
            let at = r.below(n + 1);
            b.splice(at..at, *b"\xff\xfe\x00\xc3\x28");
            "not-utf8"
        }
        7 => {
            *b = b"[".repeat(r.usize_in(1000, 60_000));
            "brackets"
        }
        8 => {
            *b = br#"{"a":"#.repeat(r.usize_in(1000, 60_000));
            "braces"
        }
        9 => {
            b.clear();
            "empty"
        }
        10 => {
            b.splice(0..0, *b"\xef\xbb\xbf");
            "bom"
        }
        11 => {
            *b = vec![0; 4096];
            "zeros"
        }
        _ => {
            let s = b.clone();
            b.extend(s);
            "twice"
        }
    }
}

/// Damages one file or directory on disk and says how, or `None` when it is not there.
fn damage(r: &mut Rng, p: &Path, ids: &[String]) -> Option<String> {
    let meta = std::fs::symlink_metadata(p).ok()?;
    if !meta.is_file() {
        return None;
    }
    let what = match r.below(16) {
        0 => {
            std::fs::remove_file(p).ok()?;
            std::fs::create_dir(p).ok()?;
            "directory-in-place".to_string()
        }
        1 => {
            std::fs::remove_file(p).ok()?;
            std::os::unix::fs::symlink(p, p).ok()?;
            "link-to-itself".to_string()
        }
        2 => {
            std::fs::remove_file(p).ok()?;
            std::os::unix::fs::symlink("/nonexistent/x", p).ok()?;
            "dangling-link".to_string()
        }
        3 => {
            std::fs::remove_file(p).ok()?;
            "removed".to_string()
        }
        4 => {
            let mut n = p.file_name()?.to_os_string().into_vec();
            let at = r.below(n.len() + 1);
            n.insert(at, *r.pick(&[0xffu8, 0xc3, b'\n', b' ', b'.']));
            let to = p.with_file_name(OsString::from_vec(n));
            std::fs::rename(p, &to).ok()?;
            "renamed".to_string()
        }
        5..=10 => {
            let mut b = std::fs::read(p).ok()?;
            let Ok(mut v) = serde_json::from_slice::<Value>(&b) else {
                let w = mutate_bytes(r, &mut b);
                std::fs::write(p, b).ok()?;
                return Some(w.into());
            };
            for _ in 0..r.usize_in(1, 2) {
                mutate_json(r, &mut v, ids);
            }
            std::fs::write(p, v.to_string()).ok()?;
            format!("json {}", v.to_string().chars().take(400).collect::<String>())
        }
        11 => {
            // The same key twice.
            let t = std::fs::read_to_string(p).ok()?;
            let at = t.find('{')?;
            let t = format!("{{\"id\": \"twice\", \"name\": 3, \"dependencies\": [\"x\"],{}", &t[at + 1..]);
            std::fs::write(p, t).ok()?;
            "key-twice".to_string()
        }
        _ => {
            let mut b = std::fs::read(p).ok()?;
            let w = mutate_bytes(r, &mut b);
            std::fs::write(p, b).ok()?;
            w.to_string()
        }
    };
    Some(what)
}

/// Adds something hostile to a directory.
fn litter(r: &mut Rng, dir: &Path) -> Option<PathBuf> {
    let name: OsString = match r.below(9) {
        0 => OsString::from_vec(vec![0xff, 0xfe, b'x']),
        1 => OsString::from_vec(b"caf\xe9.lesson".to_vec()),
        2 => OsString::from_vec(b"caf\xe9.front.md".to_vec()),
        3 => "n".repeat(255).into(),
        4 => "new\nline".into(),
        5 => "course_manifest.json".into(),
        6 => "-rf".into(),
        7 => OsString::from_vec(b"lesson_manifest.json\xff".to_vec()),
        _ => "%s%n \u{202e}x".into(),
    };
    let p = dir.join(name);
    if p.exists() {
        return None;
    }
    match r.below(5) {
        0 => std::fs::create_dir(&p).ok()?,
        1 => std::os::unix::fs::symlink(dir, &p).ok()?,
        2 => {
            let mut q = p.clone();
            for _ in 0..40 {
                q = q.join("d");
            }
            std::fs::create_dir_all(&q).ok()?;
        }
        _ => std::fs::write(&p, b"{\xff").ok()?,
    }
    Some(p)
}

// ------------------------------------------------------------------------------------------------
// Use of an open library.

fn deep_filter(r: &mut Rng, depth: usize) -> KeyValueFilter {
    if depth == 0 {
        return KeyValueFilter::LessonFilter { key: values::text(r), value: values::text(r), filter_type: FilterType::Include };
    }
    let mut filters = vec![deep_filter(r, depth - 1)];
    if r.chance(0.3) {
        filters.push(KeyValueFilter::CombinedFilter { op: FilterOp::Any, filters: vec![] });
    }
    KeyValueFilter::CombinedFilter { op: if r.chance(0.5) { FilterOp::All } else { FilterOp::Any }, filters }
}

fn hostile_filter(r: &mut Rng, ids: &[String]) -> UnitFilter {
    let mut some: Vec<ustr::Ustr> = hostile_ids(r, 3).iter().map(|s| u(s)).collect();
    for _ in 0..r.below(4) {
        if !ids.is_empty() {
            some.push(u(r.pick(ids)));
        }
    }
    match r.below(9) {
        0 => UnitFilter::CourseFilter { course_ids: some },
        1 => UnitFilter::LessonFilter { lesson_ids: some },
        2 => UnitFilter::Dependents { unit_ids: some },
        3 => UnitFilter::Dependencies { unit_ids: some, depth: *r.pick(&[0, 1, 7, usize::MAX]) },
        4 => UnitFilter::ReviewListFilter,
        5 => {
            let d = r.usize_in(0, 60);
            UnitFilter::MetadataFilter { filter: deep_filter(r, d) }
        }
        6 => UnitFilter::CourseFilter { course_ids: vec![] },
        7 => UnitFilter::LessonFilter { lesson_ids: vec![] },
        _ => values::unit_filter(r).0,
    }
}

fn hostile_request(r: &mut Rng, ids: &[String]) -> Option<ExerciseFilter> {
    if r.chance(0.15) {
        return None;
    }
    if r.chance(0.3) {
        let parts = (0..r.below(4))
            .map(|_| {
                let duration = *r.pick(&[0u32, 1, 30, u32::MAX]);
                if r.chance(0.3) { SessionPart::NoFilter { duration } }
                else if r.chance(0.3) { SessionPart::SavedFilter { filter_id: values::text(r), duration } }
                else { SessionPart::UnitFilter { filter: hostile_filter(r, ids), duration } }
            })
            .collect();
        let start_time = match r.below(4) {
            0 => chrono::DateTime::<Utc>::MIN_UTC,
            1 => chrono::DateTime::<Utc>::MAX_UTC,
            2 => Utc::now() + Duration::days(r.range(-100_000, 100_000)),
            _ => Utc::now() - Duration::minutes(r.range(0, 60)),
        };
        return Some(ExerciseFilter::StudySession(StudySessionData {
            start_time,
            definition: StudySession { id: values::text(r), description: String::new(), parts },
        }));
    }
    Some(ExerciseFilter::UnitFilter(hostile_filter(r, ids)))
}

/// Uses the instance in every way, with known and unknown units. Errors are fine, and so are empty
/// answers; batches may only contain exercises the library has.
pub fn exercise_everything(ctx: &mut Ctx, t: &mut Trane, r: &mut Rng, what: &Value) {
    let known: Vec<String> = t.get_matching_prefix("", None).into_iter().map(|x| x.to_string()).collect();
    let all: BTreeSet<String> = t.get_all_exercise_ids(None).into_iter().map(|x| x.to_string()).collect();
    let mut ids = hostile_ids(r, 4);
    for _ in 0..4 {
        if !known.is_empty() {
            ids.push(r.pick(&known).clone());
        }
    }
    let mut batches = 0;
    for _ in 0..r.usize_in(2, 5) {
        let f = hostile_request(r, &known);
        step(format!("get_exercise_batch {f:?}").chars().take(300).collect::<String>());
        ctx.count("requests");
        if let Ok(b) = t.get_exercise_batch(f) {
            batches += 1;
            for m in b {
                if !all.contains(m.id.as_str()) {
                    ctx.violate("unknown-exercise-offered", json!({"exercise": m.id, "input": what}));
                }
            }
        }
    }
    ctx.add("batches_answered", batches);
    for id in ids {
        let x = u(&id);
        let is_known = known.contains(&id);
        step(format!("operations on {:?}", id.chars().take(100).collect::<String>()));
        ctx.count(if is_known { "known_units_used" } else { "unknown_units_used" });
        // Whether a refused score leaves a trace is judged for each store on its own (C14).
        let _ = t.score_exercise(x, grade(r.usize_in(1, 5)), Utc::now().timestamp() + r.range(-9, 9));
        let _ = t.get_unit_score(x);
        let _ = t.get_scores(x, *r.pick(&[0, 1, 20, u32::MAX]));
        let _ = t.get_rewards(x, *r.pick(&[0, 1, 20, u32::MAX]));
        let _ = t.get_deltas(x, *r.pick(&[0, 1, 20, u32::MAX]));
        let _ = t.invalidate_cached_score(x);
        if r.chance(0.4) {
            let _ = t.add_to_blacklist(x);
            if r.chance(0.6) {
                let _ = t.remove_from_blacklist(x);
            }
        }
        if r.chance(0.4) {
            let _ = t.add_to_review_list(x);
            if r.chance(0.5) {
                let _ = t.remove_from_review_list(x);
            }
        }
        if r.chance(0.2) {
            let _ = t.remove_prefix_from_blacklist(&id);
            t.invalidate_cached_scores_with_prefix(&id);
        }
        let _ = t.get_filter(&id);
        let _ = t.get_study_session(&id);
        let _ = crate::checks::serialized::graph_facts(t, x);
        let _ = t.get_lesson_ids(x);
        let _ = t.get_exercise_ids(x);
        let _ = t.get_all_exercise_ids(Some(x));
        let _ = t.get_matching_prefix(&id, Some(UnitType::Lesson));
    }
    step("whole-library operations");
    let _ = t.get_blacklist_entries();
    let _ = t.get_review_list_entries();
    let _ = t.list_filters();
    let _ = t.list_study_sessions();
    let _ = t.generate_dot_graph(r.chance(0.5));
    let _ = t.check_cycles();
    let _ = trane::preferences_manager::PreferencesManager::get_user_preferences(t);
    if r.chance(0.2) {
        let _ = t.trim_scores(*r.pick(&[0, 3, u32::MAX]));
        let _ = t.trim_deltas(*r.pick(&[0, 3, u32::MAX]));
        let _ = t.remove_scores_with_prefix("no such");
        let _ = t.remove_deltas_with_prefix("no such");
        let _ = t.remove_rewards_with_prefix("no such");
        let _ = t.trim_rewards(*r.pick(&[0, 3, u32::MAX]));
    }
    let _ = t.get_exercise_batch(None);
}

// ------------------------------------------------------------------------------------------------
// Cases.

fn library_case(ctx: &mut Ctx, r: &mut Rng) {
    let d = scratch();
    let outer = std::fs::canonicalize(d.path()).expect("harness: canonicalize");
    let root = outer.join("library");
    std::fs::create_dir(&root).expect("harness: mkdir");
    let mut parts: Vec<(PathBuf, Expect)> = vec![];
    let mut files: Vec<File> = vec![];
    let inst = instruments(r);
    let prefs = prefs_json(r, &inst);
    let hostile = r.chance(0.5);
    if r.chance(0.7) {
        let s = Shape { courses: (1, 4), lessons: (0, 3), exs: (0, 3), p_enc: 0.3, hostile_ids: hostile, ..Default::default() };
        let lib = Lib::generate(r, &s);
        let lay = Layout::generate(r, lib, &root);
        lay.write(r, &root);
        parts.extend(lay.units.iter().cloned());
        files.extend(lay.files.iter().cloned());
    }
    let mut ids = Ids::new(false);
    let mut earlier = vec![];
    for i in 0..r.usize_in(1, 3) {
        let g = *r.pick(&GENS);
        let dir = PathBuf::from(format!("generated_{i}/course"));
        let m = make(g, r, &root, &dir, &mut ids, &mut earlier, i + 50, &inst);
        crate::checks::generators::write_made(r, &root, std::slice::from_ref(&m));
        files.extend(m.files.iter().cloned());
        parts.push((dir, m.expect));
    }
    write_prefs(&root, prefs);
    let mut seen: BTreeSet<String> = BTreeSet::new();
    let mut all: Vec<String> = vec![];
    for (_, e) in &parts {
        for k in e.courses.keys().chain(e.lessons.keys()).chain(e.exercises.keys()) {
            if !seen.insert(k.clone()) {
                return;
            }
            all.push(k.clone());
        }
    }
    // A file several courses share belongs to no course directory: damaging it damages them all.
    files.retain(|f| parts.iter().any(|(d, _)| f.path.starts_with(d)));
    // Damage.
    let mut touched: Vec<(PathBuf, String)> = vec![];
    for _ in 0..r.usize_in(1, 4) {
        if r.chance(0.2) {
            let f = r.pick(&files).clone();
            let dir = root.join(&f.path).parent().unwrap().to_path_buf();
            if let Some(p) = litter(r, &dir) {
                touched.push((p, "litter".into()));
            }
            continue;
        }
        // Manifests and properties more often than texts.
        let f = loop {
            let f = r.pick(&files).clone();
            if f.path.extension().is_some_and(|e| e == "json") || r.chance(0.3) {
                break f;
            }
        };
        let p = root.join(&f.path);
        if let Some(w) = damage(r, &p, &all) {
            ctx.count(&format!("damage_{}", w.split(' ').next().unwrap()));
            touched.push((p, w));
        }
    }
    let desc = json!({"damage": touched.iter().map(|(p, w)| json!([p.display().to_string(), w])).collect::<Vec<_>>(),
        "courses": parts.iter().map(|(d, e)| json!([d.display().to_string(), e.courses.keys().collect::<Vec<_>>()])).collect::<Vec<_>>()});
    ctx.count("evaluations");
    ctx.seen(&desc.to_string());
    step(format!("opening a damaged library {desc}").chars().take(800).collect::<String>());
    let mut t = match Trane::new_local(&root, &root) {
        Err(_) => return ctx.count("refused"),
        Ok(t) => t,
    };
    ctx.count("opened");
    for (dir, e) in &parts {
        let d = root.join(dir);
        // Inside the course, or a directory the course is in.
        if touched.iter().any(|(p, _)| p.starts_with(&d) || d.starts_with(p)) {
            ctx.count("damaged_courses");
            continue;
        }
        ctx.count("intact_courses");
        for (kind, m) in [("course", &e.courses), ("lesson", &e.lessons), ("exercise", &e.exercises)] {
            for (id, w) in m {
                let x = u(id);
                let got = match kind {
                    "course" => t.get_course_manifest(x).map(|m| serde_json::to_value(&*m).unwrap()),
                    "lesson" => t.get_lesson_manifest(x).map(|m| serde_json::to_value(&*m).unwrap()),
                    _ => t.get_exercise_manifest(x).map(|m| serde_json::to_value(&*m).unwrap()),
                };
                ctx.count("units_checked");
                match got {
                    None => ctx.violate(format!("{kind}-disappeared"), json!({"unit": id, "library": desc})),
                    Some(g) => {
                        if let Err(e) = same(&g, w, "") {
                            ctx.violate(format!("{kind}-changed"), json!({"unit": id, "difference": e, "library": desc}));
                        }
                    }
                }
            }
        }
        for l in e.lessons.keys() {
            let got: BTreeSet<String> = t.get_exercise_ids(u(l)).unwrap_or_default().into_iter().map(|x| x.to_string()).collect();
            if let Some(x) = e.exercise_ids(l).into_iter().find(|x| !got.contains(x)) {
                ctx.violate("exercise-not-listed", json!({"lesson": l, "exercise": x, "library": desc}));
            }
        }
    }
    // Inside a damaged knowledge-base course, lessons are independent directories.
    for (dir, e) in &parts {
        let d = root.join(dir);
        let mut dirs: BTreeSet<String> = BTreeSet::new();
        let mut other = false;
        for (p, _) in touched.iter().filter(|(p, _)| p.starts_with(&d)) {
            let rel = p.strip_prefix(&d).unwrap();
            match rel.components().next().and_then(|c| c.as_os_str().to_str()) {
                Some(n) if n.ends_with(".lesson") && rel.components().count() > 1 => {
                    dirs.insert(n.to_string());
                }
                _ => other = true,
            }
        }
        if other || dirs.is_empty() {
            continue;
        }
        let Some(cid) = e.courses.keys().next() else { continue };
        for (id, w) in &e.exercises {
            let lid = w["lesson_id"].as_str().unwrap();
            if dirs.iter().any(|n| format!("{cid}::{}", n.strip_suffix(".lesson").unwrap()) == lid) {
                continue;
            }
            ctx.count("sibling_exercises_checked");
            if t.get_exercise_manifest(u(id)).is_none() {
                ctx.violate("sibling-exercise-disappeared", json!({"unit": id, "library": desc}));
            }
        }
    }
    if r.chance(0.6) {
        exercise_everything(ctx, &mut t, r, &desc);
    }
    ctx.sample(desc);
}

fn user_files_case(ctx: &mut Ctx, r: &mut Rng) {
    let d = scratch();
    let root = std::fs::canonicalize(d.path()).expect("harness: canonicalize");
    let s = Shape { courses: (1, 3), lessons: (1, 3), exs: (1, 3), p_empty: 0.0, hostile_ids: false, ..Default::default() };
    let lib = Lib::generate(r, &s);
    lib.write(&root).expect("harness: write");
    let cfg = root.join(".trane");
    for s in ["filters", "study_sessions"] {
        std::fs::create_dir_all(cfg.join(s)).expect("harness: mkdir");
    }
    let prefs = values::random_prefs(r);
    std::fs::write(cfg.join("user_preferences.json"), values::prefs_json(&prefs).to_string()).expect("harness: write");
    let mut paths = vec![cfg.join("user_preferences.json"); 3];
    let mut saved: Vec<(bool, PathBuf, String)> = vec![];
    for i in 0..r.usize_in(1, 4) {
        let id = format!("saved {i}");
        let session = r.chance(0.5);
        let v = if session {
            json!({"id": id, "description": "d", "parts": (0..r.below(3)).map(|_| values::session_part(r).1).collect::<Vec<_>>()})
        } else {
            json!({"id": id, "description": "d", "filter": values::unit_filter(r).1})
        };
        let p = cfg.join(if session { "study_sessions" } else { "filters" }).join(format!("f{i}.json"));
        std::fs::write(&p, v.to_string()).expect("harness: write");
        paths.push(p.clone());
        saved.push((session, p, id));
    }
    let mut touched = vec![];
    for _ in 0..r.usize_in(1, 2) {
        if r.chance(0.15) {
            let dir = cfg.join(*r.pick(&["filters", "study_sessions", "."]));
            if let Some(p) = litter(r, &dir) {
                touched.push((p, "litter".to_string()));
            }
            continue;
        }
        if r.chance(0.06) {
            // A file where a directory belongs, or the other way around.
            let p = cfg.join(*r.pick(&["filters", "study_sessions"]));
            std::fs::remove_dir_all(&p).expect("harness: remove");
            std::fs::write(&p, "x").expect("harness: write");
            touched.push((p, "file-in-place".to_string()));
            break;
        }
        let p = r.pick(&paths).clone();
        if let Some(w) = damage(r, &p, &lib.units()) {
            touched.push((p, w));
        }
    }
    let desc = json!({"damage": touched.iter().map(|(p, w)| json!([p.display().to_string(), w])).collect::<Vec<_>>()});
    ctx.count("evaluations");
    ctx.count("user_files_damaged");
    ctx.seen(&desc.to_string());
    step(format!("opening with damaged user files {desc}").chars().take(800).collect::<String>());
    let mut t = match Trane::new_local(&root, &root) {
        Err(_) => return ctx.count("refused"),
        Ok(t) => t,
    };
    ctx.count("opened");
    for (session, p, id) in &saved {
        if touched.iter().any(|(q, _)| p.starts_with(q)) {
            continue;
        }
        ctx.count("saved_values_checked");
        let there = if *session { t.get_study_session(id).is_some() } else { t.get_filter(id).is_some() };
        if !there {
            ctx.violate("saved-value-disappeared", json!({"id": id, "input": desc}));
        }
    }
    let prefs_path = cfg.join("user_preferences.json");
    if !touched.iter().any(|(q, _)| *q == prefs_path) && prefs.ignored_paths.is_empty() {
        for id in lib.exercises() {
            ctx.count("units_checked");
            if t.get_exercise_manifest(u(&id)).is_none() {
                ctx.violate("exercise-disappeared", json!({"unit": id, "input": desc}));
            }
        }
    }
    exercise_everything(ctx, &mut t, r, &desc);
}

const DBS: [&str; 5] = ["practice_stats.db", "practice_rewards.db", "practice_deltas.db", "blacklist.db", "review_list.db"];

fn practice_data_case(ctx: &mut Ctx, r: &mut Rng) {
    let s = Shape { courses: (1, 3), lessons: (1, 3), exs: (1, 3), p_empty: 0.0, hostile_ids: r.chance(0.5), ..Default::default() };
    let lib = Lib::generate(r, &s);
    let mut s = Sim::new(lib).unwrap_or_else(|e| panic!("harness: cannot open a valid library: {e}"));
    let fail = |e: String| panic!("harness: setup operation failed: {e}");
    s.warm(r, true).unwrap_or_else(fail);
    for _ in 0..r.below(3) {
        s.set_black(r).unwrap_or_else(fail);
        s.set_review(r).unwrap_or_else(fail);
    }
    let dir = s.w.dir.path().to_path_buf();
    let cfg = dir.join(".trane");
    let Sim { w, .. } = s;
    let crate::world::World { dir: keep, lib, trane } = w;
    drop(trane);
    let mut touched: Vec<Value> = vec![];
    let live = r.chance(0.3);
    // A live instance sees the damage while it runs.
    let mut alive = if live { Trane::new_local(&dir, &dir).ok() } else { None };
    for _ in 0..r.usize_in(1, 3) {
        let db = *r.pick(&DBS);
        let p = cfg.join(db);
        let how = r.below(10);
        let what = if how < 6 {
            row_damage(r, &p)
        } else if live {
            continue;
        } else {
            match how {
                6 => {
                    for x in ["", "-wal", "-shm"] {
                        let q = cfg.join(format!("{db}{x}"));
                        let _ = std::fs::remove_file(&q).or_else(|_| std::fs::remove_dir(&q));
                    }
                    match r.below(3) {
                        0 => std::fs::create_dir(&p).expect("harness: mkdir"),
                        1 => std::os::unix::fs::symlink(&p, &p).expect("harness: link"),
                        _ => std::fs::write(&p, "not a database, but long enough to look at as one").expect("harness: write"),
                    }
                    Some("replaced".to_string())
                }
                7 => {
                    // Pages overwritten.
                    std::fs::read(&p).ok().map(|mut b| {
                        for _ in 0..r.usize_in(1, 20) {
                            let i = if r.chance(0.3) { r.below(100.min(b.len())) } else { r.below(b.len()) };
                            let n = r.usize_in(1, 30);
                            for x in b.iter_mut().skip(i).take(n) {
                                *x = r.below(256) as u8;
                            }
                        }
                        std::fs::write(&p, b).expect("harness: write");
                        "overwritten".to_string()
                    })
                }
                _ => std::fs::read(&p).ok().map(|mut b| {
                    let w = mutate_bytes(r, &mut b);
                    std::fs::write(&p, b).expect("harness: write");
                    w.to_string()
                }),
            }
        };
        if let Some(w) = what {
            ctx.count("databases_damaged");
            touched.push(json!([db, w]));
        }
    }
    let desc = json!({"damage": touched, "live": live});
    ctx.count("evaluations");
    ctx.seen(&desc.to_string());
    if let Some(t) = &mut alive {
        ctx.count("live_damage");
        exercise_everything(ctx, t, r, &desc);
    }
    drop(alive);
    step(format!("opening with damaged databases {desc}").chars().take(800).collect::<String>());
    match Trane::new_local(&dir, &dir) {
        Err(_) => ctx.count("refused"),
        Ok(mut t) => {
            ctx.count("opened");
            for id in lib.exercises() {
                ctx.count("units_checked");
                if t.get_exercise_manifest(u(&id)).is_none() {
                    ctx.violate("exercise-disappeared", json!({"unit": id, "input": desc}));
                }
            }
            exercise_everything(ctx, &mut t, r, &desc);
        }
    }
    drop(keep);
}

/// Damages rows or the schema through SQL.
fn row_damage(r: &mut Rng, p: &Path) -> Option<String> {
    let c = rusqlite::Connection::open(p).ok()?;
    let tables: Vec<String> = {
        let mut s = c.prepare("SELECT name FROM sqlite_master WHERE type='table' AND name NOT LIKE 'sqlite_%'").ok()?;
        s.query_map([], |x| x.get(0)).ok()?.filter_map(Result::ok).collect()
    };
    if tables.is_empty() {
        return None;
    }
    let t = r.pick(&tables).clone();
    let cols: Vec<String> = {
        let mut s = c.prepare(&format!("PRAGMA table_info({t})")).ok()?;
        s.query_map([], |x| x.get(1)).ok()?.filter_map(Result::ok).collect()
    };
    let col = r.pick(&cols).clone();
    let v = *r.pick(&["NULL", "'text'", "''", "x'ff00'", "9223372036854775807", "-9223372036854775808", "1e300", "-1e300", "9e999", "-9e999", "-1", "0", "99",
        "0.5", "9223372036854775807 - rowid", "-62135596800", "253402300800", "1e18", "-2147483649", "4294967296"]);
    let some = *r.pick(&["", " WHERE rowid % 2 = 0", " WHERE rowid = 1"]);
    let sql = match r.below(12) {
        0 => format!("DROP TABLE {t}"),
        1 => format!("ALTER TABLE {t} RENAME TO other_{t}"),
        2 => format!("ALTER TABLE {t} RENAME COLUMN {col} TO other_{col}"),
        3 => format!("PRAGMA user_version = {}", r.pick(&["0", "1", "99", "-5"])),
        4 => format!("DELETE FROM {t}{some}"),
        5 => format!("ALTER TABLE {t} ADD COLUMN extra TEXT"),
        _ => format!("UPDATE OR IGNORE {t} SET {col} = {v}{some}"),
    };
    c.execute_batch(&format!("PRAGMA foreign_keys=OFF; PRAGMA ignore_check_constraints=ON; {sql}")).ok()?;
    Some(sql)
}

pub fn malformed(ctx: &mut Ctx) {
    ctx.rule = "one evaluation = one damaged library, set of user files or set of databases opened and, when it opens, used; distinct by damage".into();
    ctx.assumptions = vec![
        "A course is intact when nothing in its directory, or above it, was damaged.".into(),
        "Errors are as good as answers; units of intact courses must be there when the library opens.".into(),
        "Checks run as root, so files without permission are not among the damage.".into(),
    ];
    ctx.cases("library", 60, 1_000_000, 0.45, library_case);
    ctx.cases("user-files", 30, 1_000_000, 0.65, user_files_case);
    ctx.cases("practice-data", 20, 1_000_000, 1.0, practice_data_case);
    ctx.require("refused", 50);
    ctx.require("opened", 30);
    ctx.require("intact_courses", 20);
    ctx.require("sibling_exercises_checked", 1);
    ctx.require("requests", 100);
    ctx.require("batches_answered", 50);
    ctx.require("databases_damaged", 20);
    ctx.require("user_files_damaged", 20);
}
