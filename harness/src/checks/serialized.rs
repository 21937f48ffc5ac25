//! Monitors of serialized libraries: every generated library is opened from disk and from its
//! serialized form, and the two are compared with each other and with what was written.

use crate::{
    checks::{
        generators::{GENS, instruments, make, prefs_json, write_made},
        library::{Expect, Layout, judge_library, write_prefs},
        sched,
    },
    ctx::{Ctx, scratch, sorted, step},
    lib_gen::{Ids, Lib, Shape},
    rng::Rng,
    world::{SERIALIZED, u},
};
use serde_json::json;
use std::{
    collections::BTreeSet,
    path::{Path, PathBuf},
};
use trane::{
    Trane,
    course_library::{CourseLibrary, LocalCourseLibrary, SerializedCourseLibrary},
    data::UserPreferences,
    graph::UnitGraph,
};
use ustr::Ustr;

/// Everything the unit graph says about one unit.
pub fn graph_facts(g: &dyn UnitGraph, id: Ustr) -> Vec<(&'static str, String)> {
    let set = |s: Option<std::sync::Arc<ustr::UstrSet>>| {
        format!("{:?}", sorted(s.iter().flat_map(|s| s.iter()).map(ToString::to_string)))
    };
    let weights = |w: Option<Vec<(Ustr, f32)>>| {
        format!("{:?}", w.unwrap_or_default().iter().map(|(i, w)| format!("{i} {w}")).collect::<BTreeSet<_>>())
    };
    vec![
        ("type", format!("{:?}", g.get_unit_type(id))),
        ("course lessons", set(g.get_course_lessons(id))),
        ("starting lessons", set(g.get_starting_lessons(id))),
        ("lesson course", format!("{:?}", g.get_lesson_course(id))),
        ("lesson exercises", set(g.get_lesson_exercises(id))),
        ("exercise lesson", format!("{:?}", g.get_exercise_lesson(id))),
        ("dependencies", set(g.get_dependencies(id))),
        ("dependents", set(g.get_dependents(id))),
        ("encompasses", weights(g.get_encompasses(id))),
        ("encompassed by", weights(g.get_encompassed_by(id))),
        ("supersedes", set(g.get_supersedes(id))),
        ("superseded by", set(g.get_superseded_by(id))),
    ]
}

/// Opens the library under `root` and serializes it.
pub fn serialized(root: &Path) -> Result<(LocalCourseLibrary, SerializedCourseLibrary, Vec<u8>), String> {
    let prefs = std::fs::read(root.join(".trane/user_preferences.json")).unwrap_or_else(|_| b"{}".to_vec());
    let prefs: UserPreferences = serde_json::from_slice(&prefs).map_err(|e| format!("harness: {e}"))?;
    let lib = LocalCourseLibrary::new(root, prefs).map_err(|e| format!("{e:#}"))?;
    let ser = SerializedCourseLibrary::from(&lib);
    let bytes = postcard::to_stdvec(&ser).map_err(|e| format!("encoding: {e:#}"))?;
    Ok((lib, ser, bytes))
}

/// An instance over `root` whose library comes from the serialized form.
pub fn open_serialized(root: &Path) -> Result<Trane, String> {
    let (_, _, bytes) = serialized(root)?;
    let back: SerializedCourseLibrary = postcard::from_bytes(&bytes).map_err(|e| format!("decoding: {e:#}"))?;
    Trane::new_local_from_serialized(root, back).map_err(|e| format!("{e:#}"))
}

fn case(ctx: &mut Ctx, r: &mut Rng) {
    let d = scratch();
    let outer = std::fs::canonicalize(d.path()).expect("harness: canonicalize");
    let root = outer.join("library");
    std::fs::create_dir(&root).expect("harness: mkdir");
    let mut want = Expect::default();
    let mut files: Vec<String> = vec![];
    let inst = instruments(r);
    let mut prefs = prefs_json(r, &inst);
    let mut ids = Ids::new(r.chance(0.6));
    let mut earlier: Vec<String> = vec![];
    let style = r.below(4);
    if style != 0 {
        let s = Shape { courses: (0, 4), lessons: (0, 4), exs: (0, 3), p_enc: 0.4, p_sup: 0.3, hostile_ids: r.chance(0.7), ..Default::default() };
        let lib = Lib::generate(r, &s);
        let lay = Layout::generate(r, lib, &root);
        lay.write(r, &root);
        want.merge(&lay.expect(&[]));
        files.extend(lay.files.iter().map(|f| f.path.display().to_string()));
    }
    if style != 1 {
        let mut made = vec![];
        for i in 0..r.usize_in(1, 3) {
            let g = *r.pick(&GENS);
            let dir = PathBuf::from(format!("generated_{i}/course"));
            let m = make(g, r, &root, &dir, &mut ids, &mut earlier, i + 50, &inst);
            let taken = |k: &String| want.courses.contains_key(k) || want.lessons.contains_key(k) || want.exercises.contains_key(k);
            if m.expect.lessons.keys().chain(m.expect.exercises.keys()).chain(m.expect.courses.keys()).any(taken)
                || m.expect.lessons.keys().any(|k| m.expect.exercises.contains_key(k) || m.expect.courses.contains_key(k))
            {
                return;
            }
            want.merge(&m.expect);
            ctx.count(&format!("generated_{g:?}"));
            made.push(m);
        }
        files.extend(made.iter().flat_map(|m| &m.files).map(|f| f.path.display().to_string()));
        write_made(r, &root, &made);
    }
    if !prefs.is_object() {
        prefs = json!({});
    }
    write_prefs(&root, prefs.clone());
    let desc = json!({"files": files, "preferences": prefs, "courses": want.courses, "lessons": want.lessons});
    step("opening the library to be serialized");
    let (lib, ser, bytes) = match serialized(&root) {
        Ok(x) => x,
        Err(e) if e.starts_with("encoding") => return ctx.violate("not-encoded", json!({"error": e, "library": desc})),
        // Whether valid libraries open is judged by the properties of loading.
        Err(e) if e.starts_with("harness") => panic!("{e}"),
        Err(_) => return ctx.count("not_opened"),
    };
    // The original has to be what was written: otherwise the loading properties speak.
    ctx.count("evaluations");
    ctx.add("bytes", bytes.len() as u64);
    let back: SerializedCourseLibrary = match postcard::from_bytes(&bytes) {
        Ok(b) => b,
        Err(e) => return ctx.violate("not-decoded", json!({"error": format!("{e:#}"), "library": desc})),
    };
    if back != ser {
        ctx.violate("decoded-differs", json!({"library": desc}));
    }
    // Opened over the same directory, or from the bytes alone over an empty one.
    let elsewhere = r.chance(0.4);
    let at = if elsewhere { outer.join("elsewhere") } else { root.clone() };
    if elsewhere {
        std::fs::create_dir(&at).expect("harness: mkdir");
        if r.chance(0.5) {
            write_prefs(&at, prefs.clone());
        }
        ctx.count("opened_elsewhere");
    }
    let again = match LocalCourseLibrary::new_from_serialized(back.clone(), UserPreferences::default()) {
        Ok(l) => l,
        Err(e) => return ctx.violate("not-restored", json!({"error": format!("{e:#}"), "library": desc})),
    };
    if SerializedCourseLibrary::from(&again) != ser {
        ctx.violate("serialized-again-differs", json!({"library": desc}));
    }
    step("opening the serialized library");
    let t = match Trane::new_local_from_serialized(&at, back) {
        Ok(t) => t,
        Err(e) => return ctx.violate("serialized-library-refused", json!({"error": format!("{e:#}"), "library": desc})),
    };
    judge_library(ctx, &t, &want, r, &desc);

    // The graphs.
    let direct = match Trane::new_local(&root, &root) {
        Ok(t) => t,
        Err(_) => return ctx.count("not_opened"),
    };
    let mut all: BTreeSet<String> = want.courses.keys().chain(want.lessons.keys()).chain(want.exercises.keys()).cloned().collect();
    for c in want.courses.values().chain(want.lessons.values()) {
        for k in ["dependencies", "superseded"] {
            let v = c[k].get("$set").unwrap_or(&c[k]);
            all.extend(v.as_array().into_iter().flatten().filter_map(|x| x.as_str().map(str::to_string)));
        }
    }
    all.insert("no such unit".into());
    for id in &all {
        for ((what, a), (_, b)) in graph_facts(&direct, u(id)).into_iter().zip(graph_facts(&t, u(id))) {
            ctx.count("graph_queries");
            if a != b {
                ctx.violate(format!("graph:{what}"), json!({"unit": id, "from disk": a, "from the serialized form": b, "library": desc}));
            }
        }
    }
    let whole = |t: &Trane| {
        let dot = |c| {
            let d = t.generate_dot_graph(c);
            sorted(d.lines().map(ToString::to_string))
        };
        (
            sorted(t.get_dependency_sinks().iter().map(ToString::to_string)),
            t.encompasing_equals_dependency(),
            t.check_cycles().is_ok(),
            dot(true),
            dot(false),
        )
    };
    let (a, b) = (whole(&direct), whole(&t));
    if a != b {
        ctx.violate("graph:whole", json!({"from disk": format!("{a:?}"), "from the serialized form": format!("{b:?}"), "library": desc}));
    }
    if t.get_course_ids().len() != lib.get_course_ids().len() {
        ctx.violate("courses", json!({"library": desc}));
    }
    ctx.add("units", all.len() as u64);
    ctx.seen(&desc.to_string());
    ctx.sample(json!({"courses": want.courses.len(), "lessons": want.lessons.len(), "exercises": want.exercises.len(), "bytes": bytes.len(), "elsewhere": elsewhere}));
}

pub fn serialization(ctx: &mut Ctx) {
    ctx.rule = "one evaluation = one library serialized, encoded, decoded, opened and compared, one judged batch, or one compared score; distinct = libraries by content".into();
    ctx.assumptions = vec![
        "The encoding is postcard, the one the documentation names.".into(),
        "Scheduling from a serialized library is judged by the reference search used for libraries from disk.".into(),
    ];
    ctx.cases("equal", 40, 1_000_000, 0.5, case);
    SERIALIZED.with(|s| s.set(true));
    sched::sessions(ctx, 0.75);
    sched::coverage(ctx, 1.0);
    SERIALIZED.with(|s| s.set(false));
    ctx.require("manifests_compared", 500);
    ctx.require("graph_queries", 1000);
    ctx.require("opened_elsewhere", 5);
    ctx.require("batches", 50);
    ctx.require("opened_serialized", 20);
    for g in GENS {
        ctx.require(&format!("generated_{g:?}"), 1);
    }
}
