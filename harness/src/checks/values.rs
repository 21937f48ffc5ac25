//! Monitors over saved values (C26), metadata filters (C27) and study sessions (C28).

use crate::{
    ctx::{Ctx, scratch, sorted, step},
    lib_gen::{Course, Ex, Lesson, Lib, Meta, Shape},
    rng::Rng,
    world::{MetaF, World, u},
};
use chrono::{DateTime, Duration, TimeZone, Utc};
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};
use trane::{
    Trane,
    course_library::CourseLibrary,
    data::{
        CourseManifest, LessonManifest, SchedulerPreferences, UserPreferences,
        course_generator::{Instrument, transcription::TranscriptionPreferences},
        filter::{ExerciseFilter, SavedFilter, SessionPart, StudySession, StudySessionData, UnitFilter},
    },
    filter_manager::{FilterManager, LocalFilterManager},
    preferences_manager::{LocalPreferencesManager, PreferencesManager},
    scheduler::ExerciseScheduler,
    study_session_manager::{LocalStudySessionManager, StudySessionManager},
};

const TEXTS: [&str; 16] = [
    "", "a", "A", "jazz", "Jazz", "jazz ", "ja", "C", "日本", "é", "e\u{301}", "\"q\"", "new\nline", "\\", "nul\u{0}x",
    "\u{1F3B5}",
];

pub fn text(r: &mut Rng) -> String {
    let mut s = (*r.pick(&TEXTS)).to_string();
    if r.chance(0.3) {
        s.push_str(r.pick(&TEXTS));
    }
    if r.chance(0.2) {
        s.push_str(&r.below(100).to_string());
    }
    s
}

fn wild_key(r: &mut Rng) -> String {
    (*r.pick(&["genre", "Genre", "key", "", "level", "lev", "日本"])).to_string()
}

fn wild_val(r: &mut Rng) -> String {
    (*r.pick(&["jazz", "Jazz", "jaz", "rock", "", "C", "C ", "é"])).to_string()
}

fn wild_meta(r: &mut Rng) -> Option<Meta> {
    if r.chance(0.15) {
        return None;
    }
    let mut m = Meta::new();
    for _ in 0..r.below(5) {
        let vals = (0..r.below(4)).map(|_| wild_val(r)).collect();
        m.insert(wild_key(r), vals);
    }
    Some(m)
}

fn wild_filter(r: &mut Rng, depth: usize) -> MetaF {
    let (k, v, inc) = (wild_key(r), wild_val(r), r.chance(0.6));
    match r.below(if depth == 0 { 2 } else { 5 }) {
        0 => MetaF::Course(k, v, inc),
        1 => MetaF::Lesson(k, v, inc),
        _ => {
            let n = r.below(5);
            MetaF::Combined(r.chance(0.5), (0..n).map(|_| wild_filter(r, depth - 1)).collect())
        }
    }
}

fn course_manifest(m: &Option<Meta>) -> CourseManifest {
    let mut v = json!({"id": "c", "name": "c"});
    if let Some(m) = m {
        v["metadata"] = json!(m);
    }
    serde_json::from_value(v).expect("harness: course manifest")
}

fn lesson_manifest(m: &Option<Meta>) -> LessonManifest {
    let mut v = json!({"id": "l", "course_id": "c", "name": "l"});
    if let Some(m) = m {
        v["metadata"] = json!(m);
    }
    serde_json::from_value(v).expect("harness: lesson manifest")
}

// ------------------------------------------------------------------------------------------------
// C27

pub fn metadata(ctx: &mut Ctx) {
    ctx.rule = "an evaluation is one filter expression applied to one course and lesson, or one offered batch under it; non-trivial: distinct (expression shape, verdicts)".into();
    ctx.assumptions.push("a combination with conditions other than on the course itself is decided at the level of the lesson when it is a disjunction".into());
    ctx.cases("expr", 2000, 4_000_000, 0.5, |ctx, r| {
        let depth = r.below(5);
        let f = wild_filter(r, depth);
        let tf = f.to_trane();
        for _ in 0..4 {
            let (cm, lm) = (wild_meta(r), wild_meta(r));
            let (c, l) = (course_manifest(&cm), lesson_manifest(&lm));
            let got_c = tf.apply_to_course(&c);
            let got_l = tf.apply_to_lesson(&c, &l);
            ctx.count("evaluations");
            ctx.count(if got_l { "lesson_selected" } else { "lesson_rejected" });
            ctx.count(if got_c { "course_selected" } else { "course_rejected" });
            ctx.seen(&(format!("{:?}", shape_of(&f)), got_c, got_l));
            let want_l = f.lesson(cm.as_ref(), lm.as_ref());
            if got_l != want_l {
                ctx.violate("lesson-verdict", json!({"filter": format!("{f:?}"), "course": cm, "lesson": lm, "got": got_l, "want": want_l}));
            }
            let want_c = f.course(cm.as_ref());
            if got_c != want_c {
                ctx.violate("course-verdict", json!({"filter": format!("{f:?}"), "course": cm, "got": got_c, "want": want_c}));
            }
            if got_c && !got_l {
                ctx.violate("course-without-lesson", json!({"filter": format!("{f:?}"), "course": cm, "lesson": lm}));
            }
        }
    });
    // End to end: a library without prerequisites offers exactly the lessons that match.
    ctx.cases("offer", 10, 40_000, 1.0, |ctx, r| {
        let s = Shape {
            courses: (1, 5),
            p_course_dep: 0.0,
            p_course_on_lesson: 0.0,
            p_lesson_dep: 0.0,
            p_cross_lesson: 0.0,
            p_missing: 0.0,
            p_sup: 0.0,
            p_enc: 0.0,
            p_meta: 0.85,
            ..Shape::default()
        };
        let lib = Lib::generate(r, &s);
        let mut w = match World::new(lib, Some(400)) {
            Ok(w) => w,
            Err(e) => {
                ctx.violate("does-not-open", json!({"error": e}));
                return;
            }
        };
        let mut o = w.trane.get_scheduler_options();
        o.max_lessons_in_progress = 1000;
        w.trane.set_scheduler_options(o);
        for _ in 0..6 {
            let f = MetaF::random(r, 3);
            let mut want = BTreeSet::new();
            for c in &w.lib.courses {
                for l in &c.lessons {
                    if f.lesson(c.meta.as_ref(), l.meta.as_ref()) {
                        want.extend(l.exs.iter().map(|e| e.id.clone()));
                    }
                }
            }
            let ef = || Some(ExerciseFilter::UnitFilter(UnitFilter::MetadataFilter { filter: f.to_trane() }));
            let mut got = BTreeSet::new();
            let mut rounds = 0;
            while rounds < 600 && !(rounds > 0 && want.is_subset(&got)) {
                rounds += 1;
                step("metadata request");
                match w.trane.get_exercise_batch(ef()) {
                    Ok(b) => got.extend(b.iter().map(|m| m.id.to_string())),
                    Err(e) => {
                        ctx.violate("request-fails", json!({"filter": format!("{f:?}"), "error": e.to_string()}));
                        return;
                    }
                }
            }
            ctx.count("evaluations");
            ctx.count("requests_compared");
            if !want.is_empty() {
                ctx.count("requests_with_matches");
            }
            ctx.seen(&(format!("{:?}", shape_of(&f)), want.len().min(8)));
            if got != want {
                let over: Vec<_> = got.difference(&want).collect();
                let missing: Vec<_> = want.difference(&got).collect();
                ctx.violate(
                    if over.is_empty() { "match-not-offered" } else { "offered-without-match" },
                    json!({"filter": format!("{f:?}"), "over": over, "missing": missing, "lib": w.lib.to_json()}),
                );
            }
        }
    });
    ctx.require("lesson_selected", 500);
    ctx.require("course_selected", 200);
    ctx.require("requests_with_matches", 10);
}

fn shape_of(f: &MetaF) -> Value {
    match f {
        MetaF::Course(_, _, i) => json!(["c", i]),
        MetaF::Lesson(_, _, i) => json!(["l", i]),
        MetaF::Combined(a, fs) => json!([if *a { "all" } else { "any" }, fs.iter().map(shape_of).collect::<Vec<_>>()]),
    }
}

// ------------------------------------------------------------------------------------------------
// C28

/// The part whose slot contains the time, by exact arithmetic on nanoseconds.
fn part_index(durations: &[u32], elapsed_ns: i128) -> usize {
    let mut end: i128 = 0;
    for (i, d) in durations.iter().enumerate() {
        end += i128::from(*d) * 60_000_000_000;
        if elapsed_ns < end {
            return i;
        }
    }
    durations.len() - 1
}

fn ns(t: DateTime<Utc>) -> i128 {
    i128::from(t.timestamp()) * 1_000_000_000 + i128::from(t.timestamp_subsec_nanos())
}

fn random_time(r: &mut Rng) -> DateTime<Utc> {
    match r.below(8) {
        0 => DateTime::<Utc>::MIN_UTC,
        1 => DateTime::<Utc>::MAX_UTC,
        2 => Utc.timestamp_opt(0, 0).unwrap(),
        3 => Utc.timestamp_opt(r.range(-5_000_000_000_000, 5_000_000_000_000), r.below(1_000_000_000) as u32).unwrap(),
        _ => Utc.timestamp_opt(r.range(0, 4_000_000_000), r.below(1_000_000_000) as u32).unwrap(),
    }
}

pub fn session_parts(ctx: &mut Ctx) {
    ctx.rule = "an evaluation is one look-up of the part at a time, or one request during a session; non-trivial: distinct (number of parts, index chosen, position in the slot)".into();
    ctx.cases("arith", 2000, 4_000_000, 0.6, |ctx, r| {
        let n = r.usize_in(1, 8);
        let durations: Vec<u32> = (0..n)
            .map(|_| match r.below(7) {
                0 => 0,
                1 => u32::MAX - r.below(3) as u32,
                2 => 1,
                _ => r.below(90) as u32,
            })
            .collect();
        let parts: Vec<SessionPart> = durations
            .iter()
            .enumerate()
            .map(|(i, d)| match r.below(3) {
                0 => SessionPart::SavedFilter { filter_id: format!("p{i}"), duration: *d },
                1 => SessionPart::UnitFilter {
                    filter: UnitFilter::CourseFilter { course_ids: vec![u(&format!("p{i}"))] },
                    duration: *d,
                },
                _ => SessionPart::UnitFilter {
                    filter: UnitFilter::LessonFilter { lesson_ids: vec![u(&format!("p{i}"))] },
                    duration: *d,
                },
            })
            .collect();
        let start = random_time(r);
        let data = StudySessionData {
            start_time: start,
            definition: StudySession { id: "s".into(), description: String::new(), parts: parts.clone() },
        };
        let mut bounds = vec![0i128];
        for d in &durations {
            bounds.push(bounds[bounds.len() - 1] + i128::from(*d) * 60_000_000_000);
        }
        let mut last: Option<(i128, usize)> = None;
        let mut times: Vec<DateTime<Utc>> = vec![DateTime::<Utc>::MAX_UTC];
        for _ in 0..8 {
            let off = match r.below(4) {
                0 => *r.pick(&bounds),
                1 => *r.pick(&bounds) - 1,
                2 => *r.pick(&bounds) + i128::from(r.range(-60_000_000_000, 60_000_000_000)),
                _ => i128::from(r.range(0, 400 * 60)) * 1_000_000_000,
            };
            if off < 0 {
                continue;
            }
            if let (Ok(s), nanos) = (i64::try_from(off / 1_000_000_000), (off % 1_000_000_000) as i64)
                && let Some(d) = Duration::try_seconds(s).and_then(|d| d.checked_add(&Duration::nanoseconds(nanos)))
                && let Some(t) = start.checked_add_signed(d)
            {
                times.push(t);
            }
        }
        times.sort();
        for t in times {
            let el = ns(t) - ns(start);
            step("session part");
            let got = data.get_part(t);
            let want = part_index(&durations, el);
            ctx.count("evaluations");
            ctx.seen(&(n, want, bounds.contains(&el)));
            if bounds.contains(&el) {
                ctx.count("exactly_on_a_boundary");
            }
            let Some(gi) = parts.iter().position(|p| *p == got) else {
                ctx.violate("foreign-part", json!({"got": format!("{got:?}"), "durations": durations}));
                continue;
            };
            if gi != want {
                ctx.violate("wrong-part", json!({"durations": durations, "start": start.to_string(), "time": t.to_string(), "got": gi, "want": want}));
            }
            if let Some((at, i)) = last
                && (at > el || gi < i)
            {
                ctx.violate("goes-back", json!({"durations": durations, "from": i, "to": gi}));
            }
            last = Some((el, gi));
        }
        // Before the start nothing is promised but an answer.
        let _ = data.get_part(DateTime::<Utc>::MIN_UTC);
        let _ = StudySessionData {
            start_time: start,
            definition: StudySession { id: "s".into(), description: String::new(), parts: vec![] },
        }
        .get_part(random_time(r));
        ctx.count("extreme_lookups");
    });
    ctx.cases("requests", 8, 20_000, 1.0, |ctx, r| {
        let nc = r.usize_in(2, 5);
        let lib = flat_lib(nc);
        let dir = scratch();
        lib.write(dir.path()).expect("harness: write");
        let fdir = dir.path().join(".trane/filters");
        std::fs::create_dir_all(&fdir).expect("harness: mkdir");
        for i in 0..nc {
            std::fs::write(
                fdir.join(format!("f{i}.json")),
                json!({"id": format!("saved {i}"), "description": "", "filter": {"CourseFilter": {"course_ids": [lib.courses[i].id]}}}).to_string(),
            )
            .expect("harness: write");
        }
        let t = match Trane::new_local(dir.path(), dir.path()) {
            Ok(t) => t,
            Err(e) => {
                ctx.violate("does-not-open", json!({"error": format!("{e:#}")}));
                return;
            }
        };
        for _ in 0..10 {
            let np = r.usize_in(1, 5);
            let mut parts = vec![];
            let mut allowed: Vec<Option<usize>> = vec![];
            let mut durations = vec![];
            for _ in 0..np {
                let i = r.below(nc);
                let d = if r.chance(0.2) { 0 } else { r.usize_in(2, 40) as u32 };
                durations.push(d);
                match r.below(5) {
                    0 => {
                        parts.push(SessionPart::NoFilter { duration: d });
                        allowed.push(None);
                    }
                    1 | 2 => {
                        parts.push(SessionPart::SavedFilter { filter_id: format!("saved {i}"), duration: d });
                        allowed.push(Some(i));
                    }
                    _ => {
                        parts.push(SessionPart::UnitFilter {
                            filter: UnitFilter::CourseFilter { course_ids: vec![u(&lib.courses[i].id)] },
                            duration: d,
                        });
                        allowed.push(Some(i));
                    }
                }
            }
            // Half a minute into some minute of the session, or long after its end.
            let total: i64 = durations.iter().map(|d| i64::from(*d)).sum();
            let mins = r.range(0, total + 3);
            let start = Utc::now() - Duration::minutes(mins) - Duration::seconds(30);
            let want = part_index(&durations, i128::from(mins) * 60_000_000_000 + 30_000_000_000);
            let f = ExerciseFilter::StudySession(StudySessionData {
                start_time: start,
                definition: StudySession { id: "s".into(), description: String::new(), parts },
            });
            step("session request");
            // Without a filter the whole library turns up, if not in one batch.
            let mut courses: BTreeSet<String> = BTreeSet::new();
            for _ in 0..if allowed[want].is_some() { 1 } else { 400 } {
                match t.get_exercise_batch(Some(f.clone())) {
                    Ok(b) => courses.extend(b.iter().map(|m| m.course_id.to_string())),
                    Err(e) => ctx.violate("request-fails", json!({"error": e.to_string()})),
                }
                if courses.len() == nc {
                    break;
                }
            }
            ctx.count("evaluations");
            ctx.count("session_requests");
            ctx.seen(&("req", np, want, allowed[want].is_some()));
            let ok = match allowed[want] {
                None => courses.len() == nc,
                Some(i) => courses.len() == 1 && courses.contains(&lib.courses[i].id),
            };
            if !ok {
                ctx.violate("request-in-wrong-part", json!({"durations": durations, "minutes": mins, "want": want,
                    "allowed": allowed[want].map(|i| lib.courses[i].id.clone()), "got": courses}));
            }
        }
        let unknown = ExerciseFilter::StudySession(StudySessionData {
            start_time: Utc::now(),
            definition: StudySession {
                id: "s".into(),
                description: String::new(),
                parts: vec![SessionPart::SavedFilter { filter_id: "nowhere".into(), duration: 5 }],
            },
        });
        ctx.count("evaluations");
        if t.get_exercise_batch(Some(unknown)).is_ok() {
            ctx.violate("unknown-saved-filter-accepted", json!({}));
        }
    });
    ctx.require("session_requests", 20);
    ctx.require("exactly_on_a_boundary", 100);
}

/// Courses without relations, one lesson of four exercises each.
pub fn flat_lib(n: usize) -> Lib {
    Lib::from_courses(
        (0..n)
            .map(|i| {
                let cid = format!("flat_{i}");
                let lid = format!("{cid}::lesson");
                Course {
                    id: cid.clone(),
                    deps: vec![],
                    enc: vec![],
                    sup: vec![],
                    meta: None,
                    dir: format!("dir_{i}"),
                    name: format!("Course {i}"),
                    lessons: vec![Lesson {
                        id: lid.clone(),
                        deps: vec![],
                        enc: vec![],
                        sup: vec![],
                        meta: None,
                        name: "Lesson".into(),
                        exs: (0..4)
                            .map(|e| Ex { id: format!("{lid}::e{e}"), declarative: false, asset: 0 })
                            .collect(),
                    }],
                }
            })
            .collect(),
    )
}

// ------------------------------------------------------------------------------------------------
// C26

/// A key-value filter and the way the documented JSON spells it.
fn kv(f: &MetaF) -> Value {
    let ty = |i: bool| if i { "Include" } else { "Exclude" };
    match f {
        MetaF::Course(k, v, i) => json!({"CourseFilter": {"key": k, "value": v, "filter_type": ty(*i)}}),
        MetaF::Lesson(k, v, i) => json!({"LessonFilter": {"key": k, "value": v, "filter_type": ty(*i)}}),
        MetaF::Combined(a, fs) => json!({"CombinedFilter": {"op": if *a {"All"} else {"Any"}, "filters": fs.iter().map(kv).collect::<Vec<_>>()}}),
    }
}

pub fn unit_filter(r: &mut Rng) -> (UnitFilter, Value) {
    let ids: Vec<String> = (0..r.below(4)).map(|_| text(r)).collect();
    let us = || ids.iter().map(|s| u(s)).collect::<Vec<_>>();
    match r.below(6) {
        0 => (UnitFilter::CourseFilter { course_ids: us() }, json!({"CourseFilter": {"course_ids": ids}})),
        1 => (UnitFilter::LessonFilter { lesson_ids: us() }, json!({"LessonFilter": {"lesson_ids": ids}})),
        2 => {
            let f = wild_filter(r, 3);
            (UnitFilter::MetadataFilter { filter: f.to_trane() }, json!({"MetadataFilter": {"filter": kv(&f)}}))
        }
        3 => (UnitFilter::ReviewListFilter, json!("ReviewListFilter")),
        4 => (UnitFilter::Dependents { unit_ids: us() }, json!({"Dependents": {"unit_ids": ids}})),
        _ => {
            let depth = if r.chance(0.1) { usize::MAX } else { r.below(7) };
            (
                UnitFilter::Dependencies { unit_ids: us(), depth },
                json!({"Dependencies": {"unit_ids": ids, "depth": depth}}),
            )
        }
    }
}

pub fn session_part(r: &mut Rng) -> (SessionPart, Value) {
    let duration = if r.chance(0.1) { u32::MAX } else { r.below(100) as u32 };
    match r.below(3) {
        0 => {
            let (f, j) = unit_filter(r);
            (SessionPart::UnitFilter { filter: f, duration }, json!({"UnitFilter": {"filter": j, "duration": duration}}))
        }
        1 => {
            let id = text(r);
            (
                SessionPart::SavedFilter { filter_id: id.clone(), duration },
                json!({"SavedFilter": {"filter_id": id, "duration": duration}}),
            )
        }
        _ => (SessionPart::NoFilter { duration }, json!({"NoFilter": {"duration": duration}})),
    }
}

fn file_name(r: &mut Rng, i: usize) -> String {
    match r.below(5) {
        0 => format!("{i}"),
        1 => format!(".hidden {i}"),
        2 => format!("日本 {i}.JSON"),
        3 => format!("f{i}.json.bak"),
        _ => format!("file_{i}.json"),
    }
}

fn write_json(r: &mut Rng, path: &std::path::Path, v: &Value) {
    let s = if r.chance(0.5) { v.to_string() } else { serde_json::to_string_pretty(v).expect("harness: json") + "\n" };
    std::fs::write(path, s).expect("harness: write");
}

fn spoil(r: &mut Rng, v: &Value, required: &[&str]) -> Option<String> {
    let mut o = v.clone();
    match r.below(4) {
        0 => {
            let s = v.to_string();
            let mut n = r.below(s.len());
            while !s.is_char_boundary(n) {
                n -= 1;
            }
            Some(s[..n].to_string())
        }
        1 => {
            let k = *r.pick(required);
            o.as_object_mut()?.remove(k)?;
            Some(o.to_string())
        }
        2 => {
            let k = *r.pick(required);
            o[k] = json!(7);
            Some(o.to_string())
        }
        _ => Some(format!("{v} x")),
    }
}

pub fn saved_values(ctx: &mut Ctx) {
    ctx.rule = "an evaluation is one saved value read back and compared; non-trivial: distinct values".into();
    ctx.cases("filters", 60, 200_000, 0.3, |ctx, r| {
        let dir = scratch();
        let n = r.below(7);
        let mut want: BTreeMap<String, (SavedFilter, Value)> = BTreeMap::new();
        for i in 0..n {
            let id = text(r);
            if want.contains_key(&id) {
                continue;
            }
            let (f, j) = unit_filter(r);
            let description = text(r);
            let v = json!({"id": id, "description": description, "filter": j});
            // Written either by hand or by the library's own serialization.
            let sf = SavedFilter { id: id.clone(), description, filter: f };
            let own = serde_json::to_value(&sf).expect("harness: to_value");
            if !covers(&own, &v) {
                ctx.violate("filter-format", json!({"own": own, "documented": v}));
            }
            let file = dir.path().join(file_name(r, i));
            write_json(r, &file, &v);
            want.insert(id, (sf, v));
        }
        let path = dir.path().to_str().expect("harness: path");
        let m = match LocalFilterManager::new(path) {
            Ok(m) => m,
            Err(e) => {
                ctx.violate("valid-filters-refused", json!({"error": format!("{e:#}"), "filters": want.values().map(|x| x.1.clone()).collect::<Vec<_>>()}));
                return;
            }
        };
        for (id, (sf, v)) in &want {
            ctx.count("evaluations");
            ctx.count("filters_read");
            ctx.seen(&v.to_string());
            match m.get_filter(id) {
                Some(g) if *g == *sf => {}
                g => ctx.violate("filter-changed", json!({"want": v, "got": format!("{g:?}")})),
            }
            let back: Result<SavedFilter, _> = serde_json::from_str(&serde_json::to_string(sf).expect("harness: ser"));
            if back.as_ref().ok() != Some(sf) {
                ctx.violate("filter-roundtrip", json!({"want": v, "got": format!("{back:?}")}));
            }
        }
        let list = m.list_filters();
        let expect: Vec<(String, String)> = want.iter().map(|(k, v)| (k.clone(), v.0.description.clone())).collect();
        if sorted(list.clone()) != expect {
            ctx.violate("filter-list", json!({"got": list, "want": expect}));
        }
        if m.get_filter("no such filter").is_some() {
            ctx.violate("filter-invented", json!({}));
        }
        // A second file with the same identifier, or an invalid file, is reported.
        if let Some((_, v)) = want.values().next() {
            let p = dir.path().join("second file");
            if r.chance(0.5) {
                let mut d = v.clone();
                if r.chance(0.5) {
                    d["description"] = json!("another");
                }
                write_json(r, &p, &d);
                ctx.count("duplicates");
            } else if let Some(s) = spoil(r, v, &["id", "description", "filter"]) {
                std::fs::write(&p, s).expect("harness: write");
                ctx.count("invalid_files");
            } else {
                return;
            }
            ctx.count("evaluations");
            if LocalFilterManager::new(path).is_ok() {
                let s = std::fs::read_to_string(&p).unwrap_or_default();
                ctx.violate("bad-filter-accepted", json!({"file": s}));
            }
        }
    });
    ctx.cases("sessions", 60, 200_000, 0.6, |ctx, r| {
        let dir = scratch();
        let mut want: BTreeMap<String, (StudySession, Value)> = BTreeMap::new();
        for i in 0..r.below(6) {
            let id = text(r);
            if want.contains_key(&id) {
                continue;
            }
            let ps: Vec<_> = (0..r.below(5)).map(|_| session_part(r)).collect();
            let parts: Vec<SessionPart> = ps.iter().map(|p| p.0.clone()).collect();
            let description = text(r);
            let mut v = json!({"id": id, "description": description, "parts": ps.iter().map(|p| p.1.clone()).collect::<Vec<_>>()});
            let s = StudySession { id: id.clone(), description: description.clone(), parts };
            let own = serde_json::to_value(&s).expect("harness: to_value");
            if !covers(&own, &v) {
                ctx.violate("session-format", json!({"own": own, "documented": v}));
            }
            if description.is_empty() && r.chance(0.5) {
                v.as_object_mut().expect("harness: object").remove("description");
            }
            if s.parts.is_empty() && r.chance(0.5) {
                v.as_object_mut().expect("harness: object").remove("parts");
            }
            let file = dir.path().join(file_name(r, i));
            write_json(r, &file, &v);
            want.insert(id, (s, v));
        }
        let path = dir.path().to_str().expect("harness: path");
        let m = match LocalStudySessionManager::new(path) {
            Ok(m) => m,
            Err(e) => {
                ctx.violate("valid-sessions-refused", json!({"error": format!("{e:#}"), "sessions": want.values().map(|x| x.1.clone()).collect::<Vec<_>>()}));
                return;
            }
        };
        for (id, (s, v)) in &want {
            ctx.count("evaluations");
            ctx.count("sessions_read");
            ctx.seen(&v.to_string());
            match m.get_study_session(id) {
                Some(g) if g == *s => {}
                g => ctx.violate("session-changed", json!({"want": v, "got": format!("{g:?}")})),
            }
            // A session in progress, with its start, survives as well.
            let data = StudySessionData { start_time: random_time(r), definition: s.clone() };
            let ef = ExerciseFilter::StudySession(data);
            let back: Result<ExerciseFilter, _> = serde_json::from_str(&serde_json::to_string(&ef).expect("harness: ser"));
            match back {
                Ok(b) if b == ef => {}
                // The calendar type does not parse years of more than four digits in every form.
                Err(_) if matches!(&ef, ExerciseFilter::StudySession(d) if d.start_time.timestamp().unsigned_abs() > 250_000_000_000) => {}
                b => ctx.violate("session-roundtrip", json!({"want": format!("{ef:?}"), "got": format!("{b:?}")})),
            }
        }
        let list = sorted(m.list_study_sessions());
        let expect: Vec<(String, String)> = want.iter().map(|(k, v)| (k.clone(), v.0.description.clone())).collect();
        if list != expect {
            ctx.violate("session-list", json!({"got": list, "want": expect}));
        }
        if let Some((_, v)) = want.values().next() {
            let p = dir.path().join("second file");
            if r.chance(0.5) {
                let mut d = v.clone();
                if r.chance(0.5) {
                    d["description"] = json!("another");
                }
                write_json(r, &p, &d);
                ctx.count("duplicates");
            } else if let Some(s) = spoil(r, v, &["id"]) {
                std::fs::write(&p, s).expect("harness: write");
                ctx.count("invalid_files");
            } else {
                return;
            }
            ctx.count("evaluations");
            if LocalStudySessionManager::new(path).is_ok() {
                let s = std::fs::read_to_string(&p).unwrap_or_default();
                ctx.violate("bad-session-accepted", json!({"file": s}));
            }
        }
    });
    ctx.cases("preferences", 60, 200_000, 0.8, |ctx, r| {
        let dir = scratch();
        let path = dir.path().join("user_preferences.json");
        let mut m = LocalPreferencesManager { path: path.clone() };
        for _ in 0..4 {
            let p = random_prefs(r);
            step("set preferences");
            if let Err(e) = m.set_user_preferences(p.clone()) {
                ctx.violate("preferences-refused", json!({"error": e.to_string()}));
                return;
            }
            ctx.count("evaluations");
            ctx.count("preferences_read");
            let again = LocalPreferencesManager { path: path.clone() };
            for g in [m.get_user_preferences(), again.get_user_preferences()] {
                match g {
                    Ok(g) if g == p => {}
                    g => ctx.violate("preferences-changed", json!({"want": format!("{p:?}"), "got": format!("{g:?}")})),
                }
            }
            let text = std::fs::read_to_string(&path).unwrap_or_default();
            ctx.seen(&text);
            let v: Value = serde_json::from_str(&text).unwrap_or_default();
            let want = prefs_json(&p);
            if !covers(&v, &want) {
                ctx.violate("preferences-format", json!({"file": v, "documented": want}));
            }
            // The documented form written by hand, with absent fields left out.
            let mut hand = want.clone();
            strip_null(&mut hand);
            std::fs::write(&path, hand.to_string()).expect("harness: write");
            match m.get_user_preferences() {
                Ok(g) if g == p => {}
                g => ctx.violate("preferences-by-hand", json!({"want": hand, "got": format!("{g:?}")})),
            }
        }
        let bad = match r.below(4) {
            0 => "",
            1 => "{\"scheduler\": {\"batch_size\": -1}}",
            2 => "{\"ignored_paths\": \"a\"}",
            _ => "[1",
        };
        std::fs::write(&path, bad).expect("harness: write");
        ctx.count("evaluations");
        if m.get_user_preferences().is_ok() {
            ctx.violate("bad-preferences-accepted", json!({"file": bad}));
        }
    });
    // Through the public entry point: what is saved is what requests use.
    ctx.cases("library", 8, 20_000, 1.0, |ctx, r| {
        let nc = r.usize_in(2, 5);
        let lib = flat_lib(nc);
        let dir = scratch();
        lib.write(dir.path()).expect("harness: write");
        // The first opening creates the directories and the preferences.
        let mut t = match Trane::new_local(dir.path(), dir.path()) {
            Ok(t) => t,
            Err(e) => {
                ctx.violate("does-not-open", json!({"error": format!("{e:#}")}));
                return;
            }
        };
        if t.get_user_preferences().ok() != Some(UserPreferences::default()) {
            ctx.violate("initial-preferences", json!({}));
        }
        let cfg = dir.path().join(".trane");
        let ignored = r.below(nc);
        let batch = r.usize_in(1, 12);
        let p = UserPreferences {
            transcription: None,
            scheduler: Some(SchedulerPreferences { batch_size: Some(batch) }),
            ignored_paths: if r.chance(0.5) { vec![lib.courses[ignored].dir.clone()] } else { vec![] },
        };
        if let Err(e) = t.set_user_preferences(p.clone()) {
            ctx.violate("preferences-refused", json!({"error": e.to_string()}));
        }
        let i = r.below(nc);
        std::fs::write(
            cfg.join("filters/x"),
            json!({"id": "fid", "description": "fd", "filter": {"CourseFilter": {"course_ids": [lib.courses[i].id]}}}).to_string(),
        )
        .expect("harness: write");
        std::fs::write(
            cfg.join("study_sessions/y"),
            json!({"id": "sid", "description": "sd", "parts": [{"SavedFilter": {"filter_id": "fid", "duration": 60}}]}).to_string(),
        )
        .expect("harness: write");
        for _ in 0..2 {
            t = match Trane::new_local(dir.path(), dir.path()) {
                Ok(t) => t,
                Err(e) => {
                    ctx.violate("does-not-open", json!({"error": format!("{e:#}")}));
                    return;
                }
            };
            ctx.count("evaluations");
            ctx.count("reopened_with_saved_values");
            if t.get_user_preferences().ok() != Some(p.clone()) {
                ctx.violate("preferences-lost", json!({}));
            }
            if t.get_scheduler_options().batch_size != batch {
                ctx.violate("batch-size-not-applied", json!({"want": batch, "got": t.get_scheduler_options().batch_size}));
            }
            let mut want: Vec<String> = lib.courses.iter().map(|c| c.id.clone()).collect();
            if !p.ignored_paths.is_empty() {
                want.remove(ignored);
            }
            let got = sorted(t.get_course_ids().iter().map(|x| x.to_string()));
            if got != sorted(want.clone()) {
                ctx.violate("ignored-paths-not-applied", json!({"want": want, "got": got}));
            }
            if t.list_filters() != vec![("fid".to_string(), "fd".to_string())]
                || t.list_study_sessions() != vec![("sid".to_string(), "sd".to_string())]
            {
                ctx.violate("listing", json!({}));
            }
            let (Some(f), Some(s)) = (t.get_filter("fid"), t.get_study_session("sid")) else {
                ctx.violate("saved-value-lost", json!({}));
                return;
            };
            for ef in [
                ExerciseFilter::UnitFilter(f.filter.clone()),
                ExerciseFilter::StudySession(StudySessionData { start_time: Utc::now(), definition: s }),
            ] {
                let b = t.get_exercise_batch(Some(ef)).unwrap_or_default();
                let courses: BTreeSet<String> = b.iter().map(|m| m.course_id.to_string()).collect();
                let expect: BTreeSet<String> = if p.ignored_paths.is_empty() || ignored != i {
                    [lib.courses[i].id.clone()].into()
                } else {
                    BTreeSet::new()
                };
                if courses != expect {
                    ctx.violate("saved-value-not-used", json!({"want": expect, "got": courses}));
                }
            }
        }
    });
    ctx.require("filters_read", 50);
    ctx.require("sessions_read", 50);
    ctx.require("preferences_read", 50);
    ctx.require("duplicates", 10);
    ctx.require("invalid_files", 10);
    ctx.require("reopened_with_saved_values", 4);
}

pub fn random_prefs(r: &mut Rng) -> UserPreferences {
    UserPreferences {
        transcription: r.chance(0.6).then(|| TranscriptionPreferences {
            instruments: (0..r.below(4)).map(|_| Instrument { name: text(r), id: text(r) }).collect(),
            download_path: r.chance(0.5).then(|| text(r)),
            download_path_alias: r.chance(0.5).then(|| text(r)),
        }),
        scheduler: r.chance(0.6).then(|| SchedulerPreferences {
            batch_size: r.chance(0.7).then(|| if r.chance(0.1) { usize::MAX } else { r.below(200) }),
        }),
        ignored_paths: (0..r.below(4)).map(|_| text(r)).collect(),
    }
}

pub fn prefs_json(p: &UserPreferences) -> Value {
    json!({
        "transcription": p.transcription.as_ref().map(|t| json!({
            "instruments": t.instruments.iter().map(|i| json!({"name": i.name, "id": i.id})).collect::<Vec<_>>(),
            "download_path": t.download_path, "download_path_alias": t.download_path_alias})),
        "scheduler": p.scheduler.as_ref().map(|s| json!({"batch_size": s.batch_size})),
        "ignored_paths": p.ignored_paths,
    })
}

/// Whether `got` has everything `want` has (absent and null are the same).
pub fn covers(got: &Value, want: &Value) -> bool {
    match (got, want) {
        (Value::Object(g), Value::Object(w)) => w.iter().all(|(k, v)| covers(g.get(k).unwrap_or(&Value::Null), v)),
        (Value::Array(g), Value::Array(w)) => g.len() == w.len() && g.iter().zip(w).all(|(a, b)| covers(a, b)),
        (Value::Number(a), Value::Number(b)) => a == b || a.as_f64() == b.as_f64(),
        _ => got == want,
    }
}

fn strip_null(v: &mut Value) {
    if let Some(o) = v.as_object_mut() {
        o.retain(|_, v| !v.is_null());
        for (_, v) in o.iter_mut() {
            strip_null(v);
        }
    }
}
