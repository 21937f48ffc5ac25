//! Monitors of the course builders: random descriptions are built inside a scratch directory,
//! opened, and compared with the description; inconsistent descriptions have to be refused.

use crate::{
    checks::{
        generators::{Made, knowledge},
        library::{Expect, full_path, judge_library, write_prefs},
    },
    ctx::{Ctx, scratch, step},
    lib_gen::{Ids, Lib, Shape},
    rng::Rng,
    world::u,
};
use serde_json::{Value, json};
use std::{
    collections::BTreeMap,
    path::{Path, PathBuf},
};
use trane::{
    Trane,
    course_builder::{AssetBuilder, CourseBuilder, ExerciseBuilder, LessonBuilder, knowledge_base_builder as kb},
    data::{
        BasicAsset, CourseManifest, ExerciseAsset, ExerciseManifestBuilder, ExerciseType, LessonManifestBuilder,
        course_generator::knowledge_base::{KnowledgeBaseExercise, KnowledgeBaseLesson},
    },
};
use ustr::Ustr;

const TEXTS: [&str; 7] = ["text", "# Title\n\n*x*\n", "é 日本", "\"q\" \\", "a\r\nb\n", " padded ", ""];

fn ustrs(v: &[String]) -> Vec<Ustr> {
    v.iter().map(|s| u(s)).collect()
}

fn weights(v: &[(String, f32)]) -> Vec<(Ustr, f32)> {
    v.iter().map(|(s, w)| (u(s), *w)).collect()
}

/// An optional instruction or material: (builder value, expected value); its file goes to `assets`.
fn basic(r: &mut Rng, dir: &Path, name: &str, assets: &mut Vec<AssetBuilder>) -> (Option<BasicAsset>, Value) {
    let text = (*r.pick(&TEXTS)).to_string();
    match r.below(5) {
        0 => (Some(BasicAsset::InlinedAsset { content: text.clone() }), json!({"InlinedAsset": {"content": text}})),
        1 => (
            Some(BasicAsset::InlinedUniqueAsset { content: u(&text) }),
            json!({"InlinedUniqueAsset": {"content": text}}),
        ),
        2 => {
            let p = format!("{}{name}", r.pick(&["", "sub/", "a/b/", "é "]));
            assets.push(AssetBuilder { file_name: p.clone(), contents: text });
            (Some(BasicAsset::MarkdownAsset { path: p.clone() }), json!({"MarkdownAsset": {"path": full_path(&dir.join(p))}}))
        }
        _ => (None, Value::Null),
    }
}

/// What can be wrong with a description whose files are built with plain builders.
#[derive(Default)]
struct Wrong {
    /// The name of an asset whose file is not built.
    missing: Option<String>,
    /// An asset that is there already.
    existing: Option<PathBuf>,
    what: &'static str,
}

fn plain(ctx: &mut Ctx, r: &mut Rng) {
    let d = scratch();
    let root = std::fs::canonicalize(d.path()).expect("harness: canonicalize");
    let s = Shape { courses: (1, 3), lessons: (0, 3), exs: (0, 3), p_enc: 0.4, p_sup: 0.3, hostile_ids: r.chance(0.6), ..Default::default() };
    let lib = Lib::generate(r, &s);
    let mut want = Expect::default();
    let bad = r.chance(0.35);
    let mut wrong = Wrong::default();
    let bad_course = r.below(lib.courses.len());
    let mut refused = false;
    for (ci, c) in lib.courses.iter().enumerate() {
        let dir = root.join(&c.dir);
        let mut assets = vec![];
        // Everything that builds files: (directory, index into which list).
        let (instr, wi) = basic(r, &dir, "course_instructions.md", &mut assets);
        let (mat, wm) = basic(r, &dir, "course_material.md", &mut assets);
        let desc = r.chance(0.5).then(|| (*r.pick(&TEXTS)).to_string());
        let authors = r.chance(0.4).then(|| vec!["A".to_string(), "é".to_string()]);
        want.courses.insert(c.id.clone(), json!({
            "id": c.id, "name": c.name, "dependencies": c.deps, "encompassed": c.enc, "superseded": c.sup,
            "description": desc, "authors": authors, "metadata": c.meta,
            "course_instructions": wi, "course_material": wm, "generator_config": null,
        }));
        let manifest = CourseManifest {
            id: u(&c.id),
            name: c.name.clone(),
            dependencies: ustrs(&c.deps),
            encompassed: weights(&c.enc),
            superseded: ustrs(&c.sup),
            description: desc,
            authors,
            metadata: c.meta.clone(),
            course_material: mat,
            course_instructions: instr,
            generator_config: None,
        };
        // What all lessons share is set once, and overridden where a lesson differs.
        let shared_meta = r.chance(0.4).then(|| BTreeMap::from([("shared".to_string(), vec!["x".to_string()])]));
        let shared_desc = r.chance(0.4).then(|| "shared description".to_string());
        let mut template = LessonManifestBuilder::default();
        template.course_id(u(&c.id)).metadata(shared_meta.clone()).description(shared_desc.clone());
        let mut lessons = vec![];
        for (li, l) in c.lessons.iter().enumerate() {
            let ldir_name = format!("{}{li}", r.pick(&["lesson_", "é ", "l.l"]));
            let ldir = dir.join(&ldir_name);
            let mut lassets = vec![];
            let (instr, wi) = basic(r, &ldir, "lesson_instructions.md", &mut lassets);
            let (mat, wm) = basic(r, &ldir, "lesson_material.md", &mut lassets);
            let desc = if r.chance(0.5) { shared_desc.clone() } else { Some(format!("about {li}")) };
            let keep = l.meta.is_none();
            let meta = if keep { shared_meta.clone() } else { l.meta.clone() };
            want.lessons.insert(l.id.clone(), json!({
                "id": l.id, "course_id": c.id, "name": l.name, "dependencies": l.deps, "encompassed": l.enc, "superseded": l.sup,
                "description": desc, "metadata": meta, "lesson_instructions": wi, "lesson_material": wm,
            }));
            let ex_type = *r.pick(&["Declarative", "Procedural", ""]);
            let ty = |t: &str| if t == "Declarative" { ExerciseType::Declarative } else { ExerciseType::Procedural };
            let mut ex_template = ExerciseManifestBuilder::default();
            ex_template.lesson_id(u(&l.id)).course_id(u(&c.id));
            if !ex_type.is_empty() {
                ex_template.exercise_type(ty(ex_type));
            }
            let mut exs = vec![];
            for (ei, e) in l.exs.iter().enumerate() {
                let name = format!("{}{ei}", r.pick(&["exercise_", "é ", "e.e"]));
                let edir = ldir.join(&name);
                let mut eassets = vec![];
                let text = (*r.pick(&TEXTS)).to_string();
                let (asset, wa) = match r.below(5) {
                    0 => {
                        let (a, w) = loop {
                            if let (Some(a), w) = basic(r, &edir, "exercise.md", &mut eassets) {
                                break (a, w);
                            }
                        };
                        (ExerciseAsset::BasicAsset(a), json!({"BasicAsset": w}))
                    }
                    1 | 2 => {
                        let back = r.chance(0.6);
                        eassets.push(AssetBuilder { file_name: "front.md".into(), contents: text.clone() });
                        if back {
                            eassets.push(AssetBuilder { file_name: "deep/back.md".into(), contents: text });
                        }
                        (
                            ExerciseAsset::FlashcardAsset { front_path: "front.md".into(), back_path: back.then(|| "deep/back.md".into()) },
                            json!({"FlashcardAsset": {"front_path": full_path(&edir.join("front.md")),
                                "back_path": if back { full_path(&edir.join("deep/back.md")) } else { Value::Null }}}),
                        )
                    }
                    3 => {
                        let backup = r.chance(0.5);
                        if backup {
                            eassets.push(AssetBuilder { file_name: "sheet.xml".into(), contents: text });
                        }
                        (
                            ExerciseAsset::SoundSliceAsset { link: "https://x".into(), description: None, backup: backup.then(|| "sheet.xml".into()) },
                            json!({"SoundSliceAsset": {"link": "https://x", "description": null,
                                "backup": if backup { full_path(&edir.join("sheet.xml")) } else { Value::Null }}}),
                        )
                    }
                    _ => (
                        ExerciseAsset::InlineFlashcardAsset { front_content: text.clone(), back_content: None },
                        json!({"InlineFlashcardAsset": {"front_content": text, "back_content": null}}),
                    ),
                };
                let own = if r.chance(0.5) || ex_type.is_empty() { Some(*r.pick(&["Declarative", "Procedural"])) } else { None };
                let desc = r.chance(0.4).then(|| "d".to_string());
                want.exercises.insert(e.id.clone(), json!({
                    "id": e.id, "lesson_id": l.id, "course_id": c.id, "name": format!("ex {ei}"), "description": desc,
                    "exercise_type": own.unwrap_or(ex_type), "exercise_asset": wa,
                }));
                if bad && ci == bad_course && !refused && r.chance(0.5) {
                    refused |= spoil(r, &edir, &mut eassets, &mut wrong, "exercise");
                }
                let (id, nm) = (u(&e.id), format!("ex {ei}"));
                exs.push(ExerciseBuilder {
                    directory_name: name,
                    manifest_closure: Box::new(move |m| {
                        let mut m = m.clone();
                        m.id(id).name(nm.clone()).description(desc.clone()).exercise_asset(asset.clone());
                        if let Some(t) = own {
                            m.exercise_type(ty(t));
                        }
                        m.clone()
                    }),
                    asset_builders: eassets,
                });
            }
            if bad && ci == bad_course && !refused && r.chance(0.5) {
                refused |= spoil(r, &ldir, &mut lassets, &mut wrong, "lesson");
            }
            let l = l.clone();
            lessons.push(LessonBuilder {
                directory_name: ldir_name,
                manifest_closure: Box::new(move |m| {
                    let mut m = m.clone();
                    m.id(u(&l.id))
                        .name(l.name.clone())
                        .dependencies(ustrs(&l.deps))
                        .encompassed(weights(&l.enc))
                        .superseded(ustrs(&l.sup))
                        .description(desc.clone())
                        .lesson_instructions(instr.clone())
                        .lesson_material(mat.clone());
                    if !keep {
                        m.metadata(meta.clone());
                    }
                    m.clone()
                }),
                exercise_manifest_template: ex_template.clone(),
                exercise_builders: exs,
                asset_builders: lassets,
            });
        }
        if bad && ci == bad_course && !refused {
            refused |= spoil(r, &dir, &mut assets, &mut wrong, "course");
        }
        let b = CourseBuilder {
            directory_name: c.dir.clone(),
            course_manifest: manifest,
            lesson_manifest_template: template,
            lesson_builders: lessons,
            asset_builders: assets,
        };
        let expect_refusal = refused && ci == bad_course;
        if let Some(p) = wrong.existing.as_ref().filter(|_| expect_refusal) {
            std::fs::create_dir_all(p.parent().unwrap()).expect("harness: mkdir");
            std::fs::write(p, "was here before").expect("harness: write");
        }
        step("building a course");
        ctx.count("courses_built");
        let res = b.build(&root);
        let desc = json!({"library": lib.to_json(), "course": c.id, "wrong": wrong.what});
        match (res, expect_refusal) {
            (Ok(()), false) => {}
            (Err(e), false) => return ctx.violate("valid-course-refused", json!({"error": format!("{e:#}"), "description": desc})),
            (Ok(()), true) => {
                ctx.count("evaluations");
                return ctx.violate(
                    format!("built-{}", wrong.what),
                    json!({"missing": wrong.missing, "existing": wrong.existing.as_ref().map(|p| p.display().to_string()), "description": desc}),
                );
            }
            (Err(_), true) => {
                ctx.count("evaluations");
                ctx.count("refused");
                ctx.count(&format!("refused_{}", wrong.what));
                if let Some(p) = &wrong.existing
                    && std::fs::read(p).ok().as_deref() != Some(b"was here before")
                {
                    ctx.violate("asset-overwritten", desc);
                }
                return;
            }
        }
    }
    let desc = json!({"library": lib.to_json()});
    write_prefs(&root, json!({}));
    step("opening a built library");
    match Trane::new_local(&root, &root) {
        Err(e) => ctx.violate("built-library-refused", json!({"error": format!("{e:#}"), "description": desc})),
        Ok(t) => {
            judge_library(ctx, &t, &want, r, &desc);
            ctx.seen(&serde_json::to_string(&want.exercises).unwrap());
            ctx.sample(json!({"builder": "plain", "courses": want.courses.len(), "lessons": want.lessons.len(), "exercises": want.exercises.len()}));
        }
    }
}

/// Makes one of the assets inconsistent.
fn spoil(r: &mut Rng, dir: &Path, assets: &mut Vec<AssetBuilder>, w: &mut Wrong, unit: &str) -> bool {
    if assets.is_empty() {
        return false;
    }
    let i = r.below(assets.len());
    match r.below(3) {
        0 => {
            w.missing = Some(assets.remove(i).file_name);
            w.what = match unit {
                "course" => "course-with-missing-file",
                "lesson" => "lesson-with-missing-file",
                _ => "exercise-with-missing-file",
            };
        }
        1 => {
            w.existing = Some(dir.join(&assets[i].file_name));
            w.what = "over-existing-file";
        }
        _ => {
            let a = assets[i].clone();
            assets.push(a);
            w.what = "one-file-twice";
        }
    }
    true
}

// ------------------------------------------------------------------------------------------------
// Knowledge-base courses.

struct LessonFiles {
    short: String,
    files: BTreeMap<String, String>,
}

fn text(c: &[u8]) -> String {
    String::from_utf8(c.to_vec()).expect("harness: text")
}

/// Splits the files of a course into those of each lesson directory and the others.
fn split(m: &Made, dir: &Path) -> (Vec<LessonFiles>, Vec<(PathBuf, String)>, CourseManifest) {
    let mut lessons: BTreeMap<String, LessonFiles> = BTreeMap::new();
    let mut rest = vec![];
    let mut manifest = None;
    for d in &m.dirs {
        let n = d.file_name().unwrap().to_str().unwrap();
        if let Some(s) = n.strip_suffix(".lesson") {
            lessons.insert(n.to_string(), LessonFiles { short: s.to_string(), files: BTreeMap::new() });
        }
    }
    for f in &m.files {
        let rel = f.path.strip_prefix(dir).expect("harness: path");
        let first = rel.components().next().unwrap().as_os_str().to_str().unwrap().to_string();
        if rel == Path::new("course_manifest.json") {
            manifest = Some(serde_json::from_slice(&f.content).expect("harness: manifest"));
        } else if rel.components().count() > 1
            && let Some(l) = lessons.get_mut(&first)
        {
            l.files.insert(rel.strip_prefix(&first).unwrap().to_str().unwrap().to_string(), text(&f.content));
        } else {
            rest.push((rel.to_path_buf(), text(&f.content)));
        }
    }
    (lessons.into_values().collect(), rest, manifest.expect("harness: no manifest"))
}

/// Takes the property out of the files, or leaves it there as a plain file.
fn take<T: serde::de::DeserializeOwned>(r: &mut Rng, p: f64, files: &mut BTreeMap<String, String>, name: &str) -> Option<T> {
    if files.contains_key(name) && r.chance(p) {
        return serde_json::from_str(&files.remove(name).unwrap()).ok();
    }
    None
}

fn assets(files: BTreeMap<String, String>) -> Vec<AssetBuilder> {
    files.into_iter().map(|(file_name, contents)| AssetBuilder { file_name, contents }).collect()
}

fn exercises_of(l: &LessonFiles) -> Vec<String> {
    l.files.keys().filter_map(|f| f.strip_suffix(".front.md")).filter(|s| !s.is_empty() && !s.contains('/')).map(str::to_string).collect()
}

fn full_builder(r: &mut Rng, l: LessonFiles, course: Ustr) -> kb::LessonBuilder {
    let shorts = exercises_of(&l);
    let LessonFiles { short, mut files } = l;
    let short_id = u(&short);
    let mut exercises = vec![];
    for e in shorts {
        let mut a = BTreeMap::new();
        for side in ["front", "back"] {
            let n = format!("{e}.{side}.md");
            if let Some(c) = files.remove(&n) {
                a.insert(n, c);
            }
        }
        let back_file = a.contains_key(&format!("{e}.back.md")).then(|| format!("{e}.back.md"));
        exercises.push(kb::ExerciseBuilder {
            exercise: KnowledgeBaseExercise {
                short_id: e.clone(),
                short_lesson_id: short_id,
                course_id: course,
                front_file: format!("{e}.front.md"),
                back_file,
                name: take(r, 0.8, &mut files, &format!("{e}.name.json")),
                description: take(r, 0.8, &mut files, &format!("{e}.description.json")),
                exercise_type: take(r, 0.8, &mut files, &format!("{e}.type.json")),
            },
            asset_builders: assets(a),
        });
    }
    r.shuffle(&mut exercises);
    let lesson = KnowledgeBaseLesson {
        short_id,
        course_id: course,
        dependencies: take(r, 0.9, &mut files, "lesson.dependencies.json").unwrap_or_default(),
        encompassed: take(r, 0.9, &mut files, "lesson.encompassed.json").unwrap_or_default(),
        superseded: take(r, 0.9, &mut files, "lesson.superseded.json").unwrap_or_default(),
        name: take(r, 0.9, &mut files, "lesson.name.json"),
        description: take(r, 0.9, &mut files, "lesson.description.json"),
        metadata: take(r, 0.9, &mut files, "lesson.metadata.json"),
        has_instructions: files.contains_key("lesson.instructions.md"),
        has_material: files.contains_key("lesson.material.md"),
        default_exercise_type: take(r, 0.9, &mut files, "lesson.default_exercise_type.json"),
    };
    kb::LessonBuilder { lesson, exercises, asset_builders: assets(files) }
}

fn simple_lesson(r: &mut Rng, l: LessonFiles) -> kb::SimpleKnowledgeBaseLesson {
    let shorts = exercises_of(&l);
    let LessonFiles { short, mut files } = l;
    let lines = |c: String| c.split('\n').map(str::to_string).collect::<Vec<_>>();
    let mut exercises: Vec<_> = shorts
        .into_iter()
        .map(|e| kb::SimpleKnowledgeBaseExercise {
            front: lines(files.remove(&format!("{e}.front.md")).unwrap()),
            back: files.remove(&format!("{e}.back.md")).map(lines).unwrap_or_default(),
            short_id: e,
        })
        .collect();
    r.shuffle(&mut exercises);
    kb::SimpleKnowledgeBaseLesson {
        short_id: u(&short),
        dependencies: take(r, 0.9, &mut files, "lesson.dependencies.json").unwrap_or_default(),
        superseded: take(r, 0.9, &mut files, "lesson.superseded.json").unwrap_or_default(),
        encompassed: take(r, 0.9, &mut files, "lesson.encompassed.json").unwrap_or_default(),
        metadata: take(r, 0.9, &mut files, "lesson.metadata.json"),
        exercises,
        additional_files: assets(files),
    }
}

fn open_and_judge(ctx: &mut Ctx, r: &mut Rng, root: &Path, want: &Expect, desc: &Value, sig: &str) {
    step("opening a built library");
    match Trane::new_local(root, root) {
        Err(e) => ctx.violate(format!("{sig}-library-refused"), json!({"error": format!("{e:#}"), "description": desc})),
        Ok(t) => {
            judge_library(ctx, &t, want, r, desc);
        }
    }
}

fn knowledge_case(ctx: &mut Ctx, r: &mut Rng) {
    let d = scratch();
    let root = std::fs::canonicalize(d.path()).expect("harness: canonicalize");
    write_prefs(&root, json!({}));
    let mut ids = Ids::new(r.chance(0.6));
    let mut earlier = vec!["other".to_string()];
    let dir = PathBuf::from(*r.pick(&["course", "group/course", "é"]));
    let m = knowledge(r, &root, &dir, &mut ids, &mut earlier, 0);
    if m.expect.lessons.keys().any(|k| m.expect.exercises.contains_key(k) || m.expect.courses.contains_key(k)) {
        return;
    }
    let desc = json!({"files": m.files.iter().map(|f| json!([f.path.display().to_string(), String::from_utf8_lossy(&f.content)])).collect::<Vec<_>>()});
    let (mut lessons, rest, manifest) = split(&m, &dir);
    let cid = manifest.id;
    r.shuffle(&mut lessons);
    let mut want = m.expect.clone();
    ctx.seen(&desc.to_string());
    if r.chance(0.5) {
        let b = kb::CourseBuilder {
            directory_name: dir.display().to_string(),
            lessons: lessons.into_iter().map(|l| full_builder(r, l, cid)).collect(),
            assets: rest.into_iter().map(|(p, contents)| AssetBuilder { file_name: p.display().to_string(), contents }).collect(),
            manifest,
        };
        step("building a knowledge-base course");
        if r.chance(0.25) && !m.files.is_empty() {
            // A file of the user's is already where the course would write one.
            let f = &m.files[r.below(m.files.len())];
            let p = if r.chance(0.8) { f.path.clone() } else { dir.join("course_manifest.json") };
            let at = root.join(&p);
            std::fs::create_dir_all(at.parent().unwrap()).expect("harness: mkdir");
            std::fs::write(&at, "of the user").expect("harness: write");
            ctx.count("evaluations");
            ctx.count("directories_in_use");
            let res = b.build(&root);
            let now = std::fs::read(&at).unwrap_or_default();
            if now != b"of the user" {
                ctx.violate("knowledge-file-overwritten", json!({"file": p.display().to_string(), "description": desc}));
            } else if res.is_ok() {
                ctx.violate("knowledge-built-over-a-file", json!({"file": p.display().to_string(), "description": desc}));
            } else {
                ctx.count("refused");
            }
            return;
        }
        ctx.count("knowledge_courses_built");
        if let Err(e) = b.build(&root) {
            return ctx.violate("valid-knowledge-course-refused", json!({"error": format!("{e:#}"), "description": desc}));
        }
        open_and_judge(ctx, r, &root, &want, &desc, "knowledge");
        if r.chance(0.3) && !ctx.stop() {
            // A second course in the same directory.
            ctx.count("evaluations");
            let mut b2 = b;
            b2.manifest.name = "another course".into();
            b2.lessons.truncate(r.below(2));
            match b2.build(&root) {
                Ok(()) => ctx.violate("knowledge-course-overwritten", desc),
                Err(_) => {
                    ctx.count("refused");
                    open_and_judge(ctx, r, &root, &want, &desc, "knowledge-kept");
                }
            }
        }
        return;
    }
    // The simple form, written as JSON and read back at times.
    let at = root.join(&dir);
    std::fs::create_dir_all(&at).expect("harness: mkdir");
    for (p, c) in &rest {
        let p = at.join(p);
        std::fs::create_dir_all(p.parent().unwrap()).expect("harness: mkdir");
        std::fs::write(p, c).expect("harness: write");
    }
    let mut simple = kb::SimpleKnowledgeBaseCourse {
        manifest,
        encompassed: vec![],
        lessons: lessons.into_iter().map(|l| simple_lesson(r, l)).collect(),
    };
    if r.chance(0.4) {
        simple.encompassed = vec![(u("other"), 0.5), (u("more"), 1.0)];
        want.courses.get_mut(cid.as_str()).unwrap()["encompassed"] = json!([["other", 0.5], ["more", 1.0]]);
    }
    if r.chance(0.5) {
        let t = serde_json::to_string(&simple).expect("harness: json");
        let back: kb::SimpleKnowledgeBaseCourse = match serde_json::from_str(&t) {
            Ok(b) => b,
            Err(e) => return ctx.violate("description-not-read-back", json!({"error": e.to_string(), "text": t})),
        };
        if back != simple {
            return ctx.violate("description-changed", json!({"text": t}));
        }
        simple = back;
    }
    // The same course with fewer exercises.
    let mut fewer = simple.clone();
    let mut want_fewer = want.clone();
    for l in &mut fewer.lessons {
        let lid = format!("{cid}::{}", l.short_id);
        l.exercises.retain(|e| {
            let keep = r.chance(0.6);
            if !keep {
                want_fewer.exercises.remove(&format!("{lid}::{}", e.short_id));
            }
            keep
        });
    }
    let mut order = vec![(&simple, &want), (&fewer, &want_fewer)];
    if r.chance(0.5) {
        order.reverse();
    }
    order.truncate(r.usize_in(1, 2));
    let mut last = &want;
    for (i, (c, w)) in order.iter().enumerate() {
        step("building a simple knowledge-base course");
        ctx.count(if i == 0 { "simple_courses_built" } else { "simple_courses_rebuilt" });
        if let Err(e) = c.build(&at) {
            return ctx.violate("valid-simple-course-refused", json!({"error": format!("{e:#}"), "description": desc, "time": i}));
        }
        open_and_judge(ctx, r, &root, w, &desc, "simple");
        if ctx.stop() {
            return;
        }
        last = w;
    }
    // An inconsistent description is refused and leaves the course as it is.
    let mut bad = simple.clone();
    bad.manifest.name = "another name".into();
    for l in &mut bad.lessons {
        l.exercises.truncate(1);
    }
    let n = bad.lessons.len();
    let with_ex: Vec<usize> = (0..n).filter(|i| !bad.lessons[*i].exercises.is_empty()).collect();
    let what = match r.below(4) {
        0 if n > 0 => {
            let l = bad.lessons[r.below(n)].clone();
            bad.lessons.push(l);
            "lesson-twice"
        }
        1 if !with_ex.is_empty() => {
            let l = &mut bad.lessons[*r.pick(&with_ex)];
            let mut e = l.exercises[0].clone();
            e.front = vec!["another front".into()];
            l.exercises.push(e);
            "exercise-twice"
        }
        2 if !with_ex.is_empty() => {
            let l = *r.pick(&with_ex);
            bad.lessons[l].exercises[0].short_id = String::new();
            "exercise-without-id"
        }
        _ => {
            let mut l: kb::SimpleKnowledgeBaseLesson = serde_json::from_value(json!({"short_id": "new"})).expect("harness: lesson");
            l.short_id = u("");
            bad.lessons.push(l);
            "lesson-without-id"
        }
    };
    step(format!("building an inconsistent course: {what}"));
    ctx.count("evaluations");
    match bad.build(&at) {
        Ok(()) => ctx.violate(format!("built-{what}"), json!({"description": desc})),
        Err(_) => {
            ctx.count("refused");
            ctx.count(&format!("refused_{what}"));
            open_and_judge(ctx, r, &root, last, &desc, "simple-kept");
        }
    }
}

pub fn course_builders(ctx: &mut Ctx) {
    ctx.rule = "one evaluation = one built library opened and compared with its description, or one inconsistent description whose refusal was checked; distinct = by content".into();
    ctx.assumptions = vec![
        "Builders write inside a scratch directory only.".into(),
        "A refused description may leave files behind, except for simple knowledge-base courses, whose descriptions are checked before anything is written.".into(),
    ];
    ctx.cases("plain", 60, 1_000_000, 0.5, plain);
    ctx.cases("knowledge", 60, 1_000_000, 1.0, knowledge_case);
    ctx.require("manifests_compared", 500);
    ctx.require("courses_built", 50);
    ctx.require("knowledge_courses_built", 10);
    ctx.require("simple_courses_rebuilt", 5);
    ctx.require("refused", 30);
    ctx.require("directories_in_use", 5);
}
