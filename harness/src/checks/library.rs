//! Monitors of loading: libraries written to disk in random layouts, opened in random ways, and
//! compared with the abstract library they were written from.

use crate::{
    checks::values::flat_lib,
    ctx::{Ctx, scratch, sorted, step},
    lib_gen::{Course, Kind, Lib, Shape},
    rng::Rng,
    world::u,
};
use serde_json::{Map, Value, json};
use std::{
    collections::{BTreeMap, BTreeSet},
    path::{Path, PathBuf},
};
use trane::{
    Trane,
    course_library::{CourseLibrary, LocalCourseLibrary},
    data::{UnitType, UserPreferences},
};

// ------------------------------------------------------------------------------------------------
// Comparison of manifests.

/// Absent, null, empty string, empty list and empty object all mean that an attribute is not set.
fn unset(v: &Value) -> bool {
    match v {
        Value::Null => true,
        Value::String(s) => s.is_empty(),
        Value::Array(a) => a.is_empty(),
        Value::Object(o) => o.is_empty(),
        _ => false,
    }
}

fn unset_want(v: &Value) -> bool {
    unset(v) || v.get("$set").is_some_and(unset)
}

/// Marks a string in an expected manifest as a path that has to name the given existing file.
pub fn full_path(p: &Path) -> Value {
    json!({"$path": p.display().to_string()})
}

/// Whether the manifest read back says what was expected, and nothing else. `at` collects where
/// they differ.
pub fn same(got: &Value, want: &Value, at: &str) -> Result<(), String> {
    if let Some(p) = want.get("$path").and_then(Value::as_str) {
        let g = got.as_str().unwrap_or("");
        let ok = Path::new(g).is_absolute()
            && std::fs::canonicalize(g).ok() == std::fs::canonicalize(p).ok()
            && Path::new(g).exists();
        return if ok { Ok(()) } else { Err(format!("{at}: got {got}, expected the full path of {p}")) };
    }
    // A list in any order.
    if let Some(w) = want.get("$set").and_then(Value::as_array) {
        let empty = vec![];
        let g = got.as_array().unwrap_or(&empty);
        let mut left: Vec<&Value> = w.iter().collect();
        let ok = g.len() == w.len()
            && g.iter().all(|x| match left.iter().position(|y| same(x, y, "").is_ok()) {
                Some(i) => {
                    left.remove(i);
                    true
                }
                None => false,
            });
        return if ok { Ok(()) } else { Err(format!("{at}: got {got}, expected in any order {}", want["$set"])) };
    }
    // A text that shows all of these, or an inlined asset whose content does.
    for (key, text) in [("$contains", got.as_str()), ("$any_asset", got.as_object().and_then(|o| o.values().next()).and_then(|a| a["content"].as_str()))] {
        if let Some(w) = want.get(key).and_then(Value::as_array) {
            let text = text.unwrap_or("");
            return match w.iter().filter_map(Value::as_str).find(|s| !text.contains(s)) {
                None => Ok(()),
                Some(s) => Err(format!("{at}: got {got}, which does not show {s:?}")),
            };
        }
    }
    match (got, want) {
        (Value::Object(g), Value::Object(w)) => {
            let keys: BTreeSet<&String> = g.keys().chain(w.keys()).collect();
            for k in keys {
                let (a, b) = (g.get(k).unwrap_or(&Value::Null), w.get(k).unwrap_or(&Value::Null));
                // The configuration of the generator is not an attribute to compare.
                if k == "generator_config" || (unset(a) && unset_want(b)) {
                    continue;
                }
                same(a, b, &format!("{at}/{k}"))?;
            }
            Ok(())
        }
        (Value::Array(g), Value::Array(w)) if g.len() == w.len() => {
            for (i, (a, b)) in g.iter().zip(w).enumerate() {
                same(a, b, &format!("{at}[{i}]"))?;
            }
            Ok(())
        }
        (Value::Number(a), Value::Number(b)) if a == b || a.as_f64() == b.as_f64() => Ok(()),
        _ if got == want => Ok(()),
        _ => Err(format!("{at}: got {got}, expected {want}")),
    }
}

/// A library as it is expected to be available: the manifests by identifier.
#[derive(Clone, Debug, Default)]
pub struct Expect {
    pub courses: BTreeMap<String, Value>,
    pub lessons: BTreeMap<String, Value>,
    pub exercises: BTreeMap<String, Value>,
}

impl Expect {
    pub fn lesson_ids(&self, course: &str) -> Vec<String> {
        sorted(self.lessons.iter().filter(|(_, l)| l["course_id"] == course).map(|(k, _)| k.clone()))
    }
    pub fn exercise_ids(&self, lesson: &str) -> Vec<String> {
        sorted(self.exercises.iter().filter(|(_, e)| e["lesson_id"] == lesson).map(|(k, _)| k.clone()))
    }
    pub fn merge(&mut self, o: &Expect) {
        self.courses.extend(o.courses.clone());
        self.lessons.extend(o.lessons.clone());
        self.exercises.extend(o.exercises.clone());
    }
}

fn strs(v: Vec<ustr::Ustr>) -> Vec<String> {
    v.into_iter().map(|x| x.to_string()).collect()
}

/// Compares everything the library makes available with what is expected.
pub fn judge_library(ctx: &mut Ctx, lib: &dyn CourseLibrary, want: &Expect, r: &mut Rng, what: &Value) -> bool {
    let before = ctx.n_violations();
    let bad = |ctx: &mut Ctx, sig: &str, d: String| {
        ctx.violate(sig.to_string(), json!({"difference": d, "library": what}));
    };
    let ids = |m: &BTreeMap<String, Value>| sorted(m.keys().cloned());
    ctx.count("evaluations");

    // Identifiers.
    let got = strs(lib.get_course_ids());
    if got != ids(&want.courses) {
        bad(ctx, "course-ids", format!("courses {got:?}, expected {:?}", ids(&want.courses)));
    }
    let got = strs(lib.get_all_exercise_ids(None));
    if got != ids(&want.exercises) {
        bad(ctx, "exercise-ids", format!("exercises {got:?}, expected {:?}", ids(&want.exercises)));
    }
    for c in want.courses.keys() {
        let w = want.lesson_ids(c);
        let g = lib.get_lesson_ids(u(c)).map(strs);
        if g.clone().unwrap_or_default() != w {
            bad(ctx, "lesson-ids", format!("lessons of {c:?}: {g:?}, expected {w:?}"));
        }
        let w: Vec<String> = sorted(w.iter().flat_map(|l| want.exercise_ids(l)));
        let g = strs(lib.get_all_exercise_ids(Some(u(c))));
        if g != w {
            bad(ctx, "course-exercises", format!("exercises of course {c:?}: {g:?}, expected {w:?}"));
        }
    }
    for l in want.lessons.keys() {
        let w = want.exercise_ids(l);
        let g = lib.get_exercise_ids(u(l)).map(strs).unwrap_or_default();
        let all = strs(lib.get_all_exercise_ids(Some(u(l))));
        if g != w || all != w {
            bad(ctx, "lesson-exercises", format!("exercises of lesson {l:?}: {g:?} and {all:?}, expected {w:?}"));
        }
    }
    for e in want.exercises.keys() {
        let g = strs(lib.get_all_exercise_ids(Some(u(e))));
        if g != [e.clone()] {
            bad(ctx, "exercise-exercises", format!("exercises of exercise {e:?}: {g:?}"));
        }
    }

    // Manifests, each kind looked up in all three ways.
    let all_ids: BTreeSet<&String> =
        want.courses.keys().chain(want.lessons.keys()).chain(want.exercises.keys()).collect();
    for id in all_ids {
        let c = lib.get_course_manifest(u(id)).map(|m| serde_json::to_value(&*m).unwrap());
        let l = lib.get_lesson_manifest(u(id)).map(|m| serde_json::to_value(&*m).unwrap());
        let e = lib.get_exercise_manifest(u(id)).map(|m| serde_json::to_value(&*m).unwrap());
        for (kind, got, w) in [
            ("course", c, want.courses.get(id)),
            ("lesson", l, want.lessons.get(id)),
            ("exercise", e, want.exercises.get(id)),
        ] {
            match (got, w) {
                (None, None) => {}
                (Some(g), Some(w)) => {
                    ctx.count("manifests_compared");
                    if let Err(d) = same(&g, w, "") {
                        let field: String = d.split([':', '[']).next().unwrap_or("").chars().take(60).collect();
                        bad(ctx, &format!("manifest-{kind}{field}"), format!("{kind} {id:?}: {d}"));
                    }
                }
                (g, w) => bad(ctx, &format!("manifest-of-{kind}"),
                    format!("{kind} {id:?}: available {}, expected {}", g.is_some(), w.is_some())),
            }
        }
    }

    // Unknown identifiers, and prefixes.
    for id in ["", "no such unit", "%", "_"] {
        if want.courses.contains_key(id) || want.lessons.contains_key(id) || want.exercises.contains_key(id) {
            continue;
        }
        let some = lib.get_course_manifest(u(id)).is_some()
            || lib.get_lesson_manifest(u(id)).is_some()
            || lib.get_exercise_manifest(u(id)).is_some()
            || lib.get_lesson_ids(u(id)).is_some_and(|v| !v.is_empty())
            || lib.get_exercise_ids(u(id)).is_some_and(|v| !v.is_empty())
            || !lib.get_all_exercise_ids(Some(u(id))).is_empty();
        if some {
            bad(ctx, "unknown-unit", format!("something is available under the unknown identifier {id:?}"));
        }
    }
    let every: Vec<String> = want.courses.keys().chain(want.lessons.keys()).chain(want.exercises.keys()).cloned().collect();
    for _ in 0..6 {
        let prefix = if every.is_empty() || r.chance(0.15) {
            (*r.pick(&["", "%", "_", "c", "MUSIC", "é"])).to_string()
        } else {
            let s = r.pick(&every).clone();
            let n = s.chars().count();
            s.chars().take(r.usize_in(0, n)).collect()
        };
        for (t, maps) in [
            (Some(UnitType::Course), vec![&want.courses]),
            (Some(UnitType::Lesson), vec![&want.lessons]),
            (Some(UnitType::Exercise), vec![&want.exercises]),
            (None, vec![&want.courses, &want.lessons, &want.exercises]),
        ] {
            let w: BTreeSet<String> = maps.iter().flat_map(|m| m.keys()).filter(|k| k.starts_with(&prefix)).cloned().collect();
            let g: BTreeSet<String> = lib.get_matching_prefix(&prefix, t.clone()).into_iter().map(|x| x.to_string()).collect();
            ctx.count("prefix_queries");
            if g != w {
                bad(ctx, "prefix", format!("units of type {t:?} starting with {prefix:?}: {g:?}, expected {w:?}"));
            }
        }
    }
    ctx.n_violations() == before
}

// ------------------------------------------------------------------------------------------------
// Libraries on disk.

/// One file to be written.
#[derive(Clone, Debug)]
pub struct File {
    pub path: PathBuf,
    pub content: Vec<u8>,
}

/// A library laid out on disk: the files, and what is expected of each course directory.
pub struct Layout {
    pub files: Vec<File>,
    pub dirs: Vec<PathBuf>,
    /// Directory (relative to the root) and what it contributes.
    pub units: Vec<(PathBuf, Expect)>,
    pub lib: Lib,
    /// (owner directory, manifest path) of every unit.
    pub manifest_at: BTreeMap<String, PathBuf>,
}

const TEXTS: [&str; 8] = ["text", "", "# Title\n\nwith *marks*", "é 日本 \u{1F3B5}", "\"quoted\" \\ back", "line\r\nline\n", " leading and trailing ", "{\"json\": true}"];

struct Assets<'a> {
    files: &'a mut Vec<File>,
    root: &'a Path,
    n: usize,
}

impl Assets<'_> {
    /// A reference to a file from the manifest in `dir`, and the expected reference.
    fn path(&mut self, r: &mut Rng, dir: &Path) -> (Value, Value) {
        self.n += 1;
        let name = format!("{}{}.md", r.pick(&["asset", "é", "a b", "x.y", "ASSET"]), self.n);
        let (rel, real) = match r.below(7) {
            0 => (format!("./{name}"), dir.join(&name)),
            1 => (format!("sub/{name}"), dir.join("sub").join(&name)),
            2 if dir.parent().is_some_and(|p| p.components().count() > 0) => (format!("../{name}"), dir.parent().unwrap().join(&name)),
            3 => {
                let abs = self.root.join("shared").join(&name);
                self.files.push(File { path: PathBuf::from("shared").join(&name), content: b"shared".to_vec() });
                return (json!(abs.display().to_string()), full_path(&abs));
            }
            4 => {
                let abs = self.root.join("shared").join(format!("absent-{name}")).display().to_string();
                return (json!(abs), json!(abs));
            }
            _ => (name.clone(), dir.join(&name)),
        };
        self.files.push(File { path: real.clone(), content: r.pick(&TEXTS).as_bytes().to_vec() });
        (json!(rel), full_path(&self.root.join(real)))
    }

    fn basic(&mut self, r: &mut Rng, dir: &Path) -> (Value, Value) {
        match r.below(4) {
            0 => {
                let v = json!({"InlinedAsset": {"content": *r.pick(&TEXTS)}});
                (v.clone(), v)
            }
            1 => {
                let v = json!({"InlinedUniqueAsset": {"content": *r.pick(&TEXTS)}});
                (v.clone(), v)
            }
            _ => {
                let (a, b) = self.path(r, dir);
                (json!({"MarkdownAsset": {"path": a}}), json!({"MarkdownAsset": {"path": b}}))
            }
        }
    }

    fn exercise(&mut self, r: &mut Rng, dir: &Path) -> (Value, Value) {
        match r.below(8) {
            0 | 1 => {
                let (a, b) = self.basic(r, dir);
                (json!({"BasicAsset": a}), json!({"BasicAsset": b}))
            }
            2 | 3 => {
                let (a, b) = self.path(r, dir);
                if r.chance(0.3) {
                    (json!({"FlashcardAsset": {"front_path": a}}), json!({"FlashcardAsset": {"front_path": b}}))
                } else {
                    let (c, d) = self.path(r, dir);
                    (json!({"FlashcardAsset": {"front_path": a, "back_path": c}}),
                     json!({"FlashcardAsset": {"front_path": b, "back_path": d}}))
                }
            }
            4 => {
                let mut v = json!({"front_content": *r.pick(&TEXTS)});
                if r.chance(0.6) {
                    v["back_content"] = json!(*r.pick(&TEXTS));
                }
                let v = json!({"InlineFlashcardAsset": v});
                (v.clone(), v)
            }
            5 => {
                let pairs = |r: &mut Rng| -> Vec<Value> {
                    (0..r.below(4)).map(|_| {
                        let a = if r.chance(0.5) { Value::Null } else { json!(*r.pick(&TEXTS)) };
                        json!([*r.pick(&TEXTS), a])
                    }).collect()
                };
                let mut v = json!({"lesson_type": *r.pick(&["Reading", "Dictation"])});
                if r.chance(0.8) {
                    v["examples"] = json!(pairs(r));
                }
                if r.chance(0.8) {
                    v["exceptions"] = json!(pairs(r));
                }
                let v = json!({"LiteracyAsset": v});
                (v.clone(), v)
            }
            6 => {
                let mut v = json!({"link": "https://www.soundslice.com/slices/QfZcc/"});
                if r.chance(0.5) {
                    v["description"] = json!(*r.pick(&TEXTS));
                }
                let mut w = v.clone();
                if r.chance(0.5) {
                    let (a, b) = self.path(r, dir);
                    v["backup"] = a;
                    w["backup"] = b;
                }
                (json!({"SoundSliceAsset": v}), json!({"SoundSliceAsset": w}))
            }
            _ => {
                let mut v = json!({"content": *r.pick(&TEXTS)});
                if r.chance(0.5) {
                    v["external_link"] = json!({"YouTube": "https://www.youtube.com/watch?v=x&y=1"});
                }
                let v = json!({"TranscriptionAsset": v});
                (v.clone(), v)
            }
        }
    }
}

/// Sets a key unless it is unset and left out.
fn put(r: &mut Rng, disk: &mut Map<String, Value>, want: &mut Map<String, Value>, k: &str, v: Value) {
    want.insert(k.into(), v.clone());
    if !unset(&v) || r.chance(0.5) {
        disk.insert(k.into(), v);
    }
}

fn manifest_text(r: &mut Rng, disk: Map<String, Value>) -> Vec<u8> {
    // Keys in random order, sometimes pretty-printed, sometimes with a foreign key.
    let mut keys: Vec<(String, Value)> = disk.into_iter().collect();
    if r.chance(0.1) {
        keys.push(("comment_of_the_author".into(), json!({"not": ["used"]})));
    }
    r.shuffle(&mut keys);
    let sep = if r.chance(0.5) { "\n  " } else { " " };
    let body: Vec<String> = keys.iter().map(|(k, v)| format!("{}:{sep}{v}", json!(k))).collect();
    format!("{{{sep}{}{sep}}}{}", body.join(&format!(",{sep}")), if r.chance(0.5) { "\n" } else { "" }).into_bytes()
}

impl Layout {
    pub fn generate(r: &mut Rng, lib: Lib, root: &Path) -> Layout {
        let mut files = vec![];
        let mut dirs = vec![];
        let mut units = vec![];
        let mut manifest_at = BTreeMap::new();
        let mut course_dirs: Vec<PathBuf> = vec![];
        let mut lesson_dirs: Vec<PathBuf> = vec![];
        for (ci, c) in lib.courses.iter().enumerate() {
            let leaf = format!("{}{ci}", r.pick(&["course_", "course_1", "Course ", "é", "c.lesson", "_", "c%"]));
            let cdir = match r.below(6) {
                0 => PathBuf::from(format!("group{}", r.below(2))).join(leaf),
                1 => PathBuf::from("a/b/c/d").join(leaf),
                2 if !course_dirs.is_empty() => r.pick(&course_dirs).join(leaf),
                3 if !lesson_dirs.is_empty() => r.pick(&lesson_dirs).join(leaf),
                _ => PathBuf::from(leaf),
            };
            let nested = course_dirs.iter().any(|d| cdir.starts_with(d));
            course_dirs.push(cdir.clone());
            let mut exp = Expect::default();
            let mut a = Assets { files: &mut files, root, n: ci * 1000 };

            let (mut d, mut w) = (Map::new(), Map::new());
            d.insert("id".into(), json!(c.id));
            w.insert("id".into(), json!(c.id));
            common(r, &mut d, &mut w, &c.name, &c.deps, &c.enc, &c.sup, json!(c.meta));
            let authors = if r.chance(0.3) { json!(["A. Author", "日本"]) } else { Value::Null };
            put(r, &mut d, &mut w, "authors", authors);
            for k in ["course_material", "course_instructions"] {
                if r.chance(0.4) {
                    let (x, y) = a.basic(r, &cdir);
                    d.insert(k.into(), x);
                    w.insert(k.into(), y);
                }
            }
            exp.courses.insert(c.id.clone(), Value::Object(w));
            let path = cdir.join("course_manifest.json");
            manifest_at.insert(c.id.clone(), path.clone());
            let content = manifest_text(r, d);
            a.files.push(File { path, content });

            for (li, l) in c.lessons.iter().enumerate() {
                let ldir = cdir.join(format!("{}{ci}_{li}", r.pick(&["lesson_", "Lesson ", "ü", "l.lesson", "%"])));
                lesson_dirs.push(ldir.clone());
                let (mut d, mut w) = (Map::new(), Map::new());
                for (k, v) in [("id", json!(l.id)), ("course_id", json!(c.id))] {
                    d.insert(k.into(), v.clone());
                    w.insert(k.into(), v);
                }
                common(r, &mut d, &mut w, &l.name, &l.deps, &l.enc, &l.sup, json!(l.meta));
                for k in ["lesson_material", "lesson_instructions"] {
                    if r.chance(0.4) {
                        let (x, y) = a.basic(r, &ldir);
                        d.insert(k.into(), x);
                        w.insert(k.into(), y);
                    }
                }
                exp.lessons.insert(l.id.clone(), Value::Object(w));
                let path = ldir.join("lesson_manifest.json");
                manifest_at.insert(l.id.clone(), path.clone());
                let content = manifest_text(r, d);
                a.files.push(File { path, content });

                for (ei, e) in l.exs.iter().enumerate() {
                    let edir = ldir.join(format!("{}{ei}", r.pick(&["exercise_", "Exercise ", "e", "ö"])));
                    let (mut d, mut w) = (Map::new(), Map::new());
                    for (k, v) in [("id", json!(e.id)), ("course_id", json!(c.id)), ("lesson_id", json!(l.id))] {
                        d.insert(k.into(), v.clone());
                        w.insert(k.into(), v);
                    }
                    let name = if r.chance(0.8) { json!(format!("{} {ei}", r.pick(&TEXTS))) } else { json!("") };
                    put(r, &mut d, &mut w, "name", name);
                    let desc = if r.chance(0.4) { json!(*r.pick(&TEXTS)) } else { Value::Null };
                    put(r, &mut d, &mut w, "description", desc);
                    let ty = if e.declarative { "Declarative" } else { "Procedural" };
                    w.insert("exercise_type".into(), json!(ty));
                    if e.declarative || r.chance(0.5) {
                        d.insert("exercise_type".into(), json!(ty));
                    }
                    let (x, y) = a.exercise(r, &edir);
                    d.insert("exercise_asset".into(), x);
                    w.insert("exercise_asset".into(), y);
                    exp.exercises.insert(e.id.clone(), Value::Object(w));
                    let path = edir.join("exercise_manifest.json");
                    manifest_at.insert(e.id.clone(), path.clone());
                    let content = manifest_text(r, d);
                    a.files.push(File { path, content });
                }
                // Files that are not manifests of anything.
                if r.chance(0.2) {
                    let bad = b"{ not json".to_vec();
                    for p in [ldir.join("exercise_manifest.json"), ldir.join("e/deep/exercise_manifest.json"),
                              ldir.join("e/Exercise_Manifest.json"), ldir.join("e/exercise_manifest.json.bak"), ldir.join("notes.txt")] {
                        if r.chance(0.5) {
                            files.push(File { path: p, content: bad.clone() });
                        }
                    }
                    if r.chance(0.3) {
                        dirs.push(ldir.join("dir/exercise_manifest.json"));
                    }
                }
                a = Assets { files: &mut files, root, n: ci * 1000 + li * 50 + 50 };
            }
            // Inside of another course, a misplaced file would be in the right place for that one.
            if !nested && r.chance(0.4) {
                let bad = b"[[[".to_vec();
                for p in [cdir.join("lesson_manifest.json"), cdir.join("junk/deep/lesson_manifest.json"), cdir.join("junk/LESSON_MANIFEST.JSON"),
                          cdir.join("junk/lesson_manifest.json~"), cdir.join("exercise_manifest.json"), cdir.join("junk/exercise_manifest.json"),
                          cdir.join("course_manifest.json.orig"), cdir.join("Course_manifest.json")] {
                    if r.chance(0.4) {
                        files.push(File { path: p, content: bad.clone() });
                    }
                }
                if r.chance(0.3) {
                    dirs.push(cdir.join("dir/lesson_manifest.json"));
                    dirs.push(PathBuf::from("dirs/course_manifest.json"));
                }
            }
            units.push((cdir, exp));
        }
        if r.chance(0.2) {
            files.push(File { path: "lesson_manifest.json".into(), content: b"}".to_vec() });
            files.push(File { path: "stray/lesson_manifest.json".into(), content: b"}".to_vec() });
            files.push(File { path: "stray/x/exercise_manifest.json".into(), content: b"}".to_vec() });
        }
        Layout { files, dirs, units, lib, manifest_at }
    }

    pub fn write(&self, r: &mut Rng, root: &Path) {
        let mut order: Vec<&File> = self.files.iter().collect();
        r.shuffle(&mut order);
        for d in &self.dirs {
            std::fs::create_dir_all(root.join(d)).expect("harness: mkdir");
        }
        for f in order {
            let p = root.join(&f.path);
            std::fs::create_dir_all(p.parent().unwrap()).expect("harness: mkdir");
            std::fs::write(&p, &f.content).expect("harness: write");
        }
    }

    pub fn expect(&self, ignored: &[PathBuf]) -> Expect {
        let mut e = Expect::default();
        for (d, x) in &self.units {
            if !ignored.iter().any(|i| d.starts_with(i)) {
                e.merge(x);
            }
        }
        e
    }
}

#[allow(clippy::too_many_arguments)]
fn common(r: &mut Rng, d: &mut Map<String, Value>, w: &mut Map<String, Value>, name: &str, deps: &[String], enc: &[(String, f32)], sup: &[String], meta: Value) {
    let name = if r.chance(0.15) { String::new() } else { format!("{name}{}", r.pick(&["", " é", " \"x\"", "\n"])) };
    put(r, d, w, "name", json!(name));
    put(r, d, w, "dependencies", json!(deps));
    put(r, d, w, "encompassed", json!(enc));
    put(r, d, w, "superseded", json!(sup));
    put(r, d, w, "metadata", meta);
    let desc = if r.chance(0.4) { json!(*r.pick(&TEXTS)) } else { Value::Null };
    put(r, d, w, "description", desc);
}

pub fn write_prefs(root: &Path, v: Value) {
    std::fs::create_dir_all(root.join(".trane")).expect("harness: mkdir");
    std::fs::write(root.join(".trane/user_preferences.json"), v.to_string()).expect("harness: prefs");
}

// ------------------------------------------------------------------------------------------------
// C17.

enum Opened {
    Trane(Box<Trane>),
    Library(Box<LocalCourseLibrary>),
}
impl Opened {
    fn lib(&self) -> &dyn CourseLibrary {
        match self {
            Opened::Trane(t) => t.as_ref(),
            Opened::Library(l) => l.as_ref(),
        }
    }
}

/// Ways of naming the root of the library.
fn open(r: &mut Rng, outer: &Path, root: &Path, prefs: &Value, mode: usize) -> Result<Opened, String> {
    let name = root.file_name().unwrap();
    let tr = |t: anyhow::Result<Trane>| t.map(|t| Opened::Trane(Box::new(t))).map_err(|e| format!("{e:#}"));
    match mode {
        0 => tr(Trane::new_local(root, root)),
        1 => tr(Trane::new_local(outer, Path::new(name))),
        2 => {
            std::env::set_current_dir(outer).expect("harness: chdir");
            let rel = if r.chance(0.5) { PathBuf::from(name) } else { Path::new(".").join(name) };
            let o = tr(Trane::new_local(Path::new("."), &rel));
            std::env::set_current_dir("/").expect("harness: chdir");
            o
        }
        3 => {
            std::env::set_current_dir(root).expect("harness: chdir");
            let o = tr(Trane::new_local(Path::new(""), Path::new(".")));
            std::env::set_current_dir("/").expect("harness: chdir");
            o
        }
        4 => tr(Trane::new_local(outer, &PathBuf::from(format!("{}/", root.display())))),
        5 => {
            let link = outer.join("link");
            let _ = std::os::unix::fs::symlink(root, &link);
            tr(Trane::new_local(outer, &link))
        }
        _ => {
            let p: UserPreferences = serde_json::from_value(prefs.clone()).expect("harness: preferences");
            LocalCourseLibrary::new(root, p).map(|l| Opened::Library(Box::new(l))).map_err(|e| format!("{e:#}"))
        }
    }
}

const MODES: [&str; 7] = ["absolute", "relative-to-working-dir", "relative", "current-dir", "trailing-slash", "symlink", "direct"];

fn gen_lib(r: &mut Rng) -> Lib {
    let s = Shape { courses: (0, 6), lessons: (0, 4), exs: (0, 4), hostile_ids: r.chance(0.7), nested_ids: r.chance(0.7), ..Default::default() };
    if r.chance(0.03) { flat_lib(r.usize_in(1, 3)) } else { Lib::generate(r, &s) }
}

pub fn loading(ctx: &mut Ctx) {
    ctx.rule = "one evaluation = one opened library compared unit by unit, attribute by attribute and query by query with what was written, or one damaged library whose refusal was checked; distinct = layouts and refusals by content".into();
    ctx.assumptions = vec![
        "Libraries are written by the harness from an abstract description; the manifests use every documented attribute and kind of asset.".into(),
        "An attribute that is absent, null or empty counts as not set.".into(),
    ];
    ctx.cases("layout", 60, 1_000_000, 0.6, |ctx, r| {
        let outer = scratch();
        let outer_path = std::fs::canonicalize(outer.path()).expect("harness: canonicalize");
        let root = outer_path.join(*r.pick(&["library", "lib rary", "é", "l%"]));
        std::fs::create_dir(&root).expect("harness: mkdir");
        let lib = gen_lib(r);
        let lay = Layout::generate(r, lib, &root);
        lay.write(r, &root);
        let mode = r.below(MODES.len());

        // Ignored paths: course directories, groups, siblings that share a prefix, and absent ones.
        let mut ignored: Vec<PathBuf> = vec![];
        let mut written: Vec<String> = vec![];
        if r.chance(0.6) {
            for (d, _) in &lay.units {
                if r.chance(0.3) {
                    let p = match r.below(5) {
                        0 => d.parent().filter(|p| p.components().count() > 0).unwrap_or(d).to_path_buf(),
                        _ => d.clone(),
                    };
                    let s = p.display().to_string();
                    written.push(match r.below(5) {
                        0 => format!("{s}/"),
                        1 => format!("./{s}"),
                        2 if mode != 5 => root.join(&p).display().to_string(),
                        _ => s,
                    });
                    ignored.push(p);
                } else if r.chance(0.3) {
                    // A prefix of the name of the directory, which is not the directory.
                    let s = d.display().to_string();
                    let n = s.chars().count();
                    let cut: String = s.chars().take(n - 1).collect();
                    let cut = if r.chance(0.3) { format!("{s}0") } else { cut };
                    if !cut.is_empty() && !cut.ends_with('/') {
                        ignored.push(PathBuf::from(&cut));
                        written.push(cut);
                    }
                }
            }
            if r.chance(0.2) {
                written.push("does/not/exist".into());
            }
        }
        let prefs = json!({"ignored_paths": written});
        write_prefs(&root, prefs.clone());
        let want = lay.expect(&ignored);
        ctx.count(&format!("opened_{}", MODES[mode]));
        if want.courses.len() < lay.units.len() {
            ctx.count("with_ignored_courses");
        }
        ctx.add("courses", want.courses.len() as u64);
        ctx.add("lessons", want.lessons.len() as u64);
        ctx.add("exercises", want.exercises.len() as u64);
        let desc = json!({"opened": MODES[mode], "ignored": written, "root": root.display().to_string(), "library": lay.lib.to_json(),
            "files": lay.files.iter().map(|f| f.path.display().to_string()).collect::<Vec<_>>()});
        step("opening a valid library");
        match open(r, &outer_path, &root, &prefs, mode) {
            Err(e) => ctx.violate("valid-library-refused", json!({"error": e, "library": desc})),
            Ok(o) => {
                judge_library(ctx, o.lib(), &want, r, &desc);
                ctx.seen(&desc.to_string());
                ctx.sample(json!({"opened": MODES[mode], "ignored": written, "courses": want.courses.len(), "exercises": want.exercises.len()}));
            }
        }
    });
    ctx.cases("refusal", 80, 1_000_000, 1.0, refusal);
    ctx.require("manifests_compared", 500);
    ctx.require("with_ignored_courses", 5);
    ctx.require("refused", 30);
    ctx.require("refused_only_when_not_ignored", 5);
    for m in MODES {
        ctx.require(&format!("opened_{m}"), 1);
    }
}

/// A library with one defect must be refused, unless the course with the defect is ignored.
fn refusal(ctx: &mut Ctx, r: &mut Rng) {
    let outer = scratch();
    let root = std::fs::canonicalize(outer.path()).expect("harness: canonicalize").join("library");
    std::fs::create_dir(&root).expect("harness: mkdir");
    let s = Shape { courses: (2, 5), lessons: (1, 3), exs: (1, 3), p_empty: 0.0, hostile_ids: r.chance(0.6), ..Default::default() };
    let mut lib = Lib::generate(r, &s);
    for (i, c) in lib.courses.iter_mut().enumerate() {
        c.dir = format!("course_{i}");
    }
    lib.write(&root).expect("harness: write");
    let ci = r.below(lib.courses.len());
    let c: &Course = &lib.courses[ci];
    let li = r.below(c.lessons.len());
    let l = &c.lessons[li];
    let ei = r.below(l.exs.len());
    let cpath = root.join(&c.dir).join("course_manifest.json");
    let lpath = root.join(&c.dir).join(format!("lesson_{li}/lesson_manifest.json"));
    let epath = root.join(&c.dir).join(format!("lesson_{li}/exercise_{ei}/exercise_manifest.json"));
    let read = |p: &Path| -> Value { serde_json::from_slice(&std::fs::read(p).expect("harness: read")).expect("harness: json") };
    let write = |p: &Path, v: &Value| std::fs::write(p, v.to_string()).expect("harness: write");
    let level = r.below(3);
    let path = [&cpath, &lpath, &epath][level].clone();
    let unit = ["course", "lesson", "exercise"][level];
    let other_course = (0..lib.courses.len()).find(|i| *i != ci).map(|i| lib.courses[i].id.clone()).unwrap();
    let (what, ok) = match r.below(16) {
        0 => {
            let mut v = read(&path);
            v["id"] = json!("");
            write(&path, &v);
            (format!("empty-id-of-{unit}"), true)
        }
        1 => {
            let mut v = read(&path);
            let key = ["id", "course_id", "lesson_id"][if level == 0 { 0 } else { r.below(level + 1) }];
            v.as_object_mut().unwrap().remove(key);
            write(&path, &v);
            (format!("no-{key}-in-{unit}"), true)
        }
        2 => {
            let mut v = read(&lpath);
            v["course_id"] = json!(if r.chance(0.5) { other_course } else { format!("{} ", c.id) });
            write(&lpath, &v);
            ("lesson-of-another-course".to_string(), true)
        }
        3 => {
            let mut v = read(&epath);
            let others: Vec<String> = lib.lessons().into_iter().filter(|o| *o != l.id).collect();
            v["lesson_id"] = json!(if others.is_empty() || r.chance(0.3) { "other".to_string() } else { r.pick(&others).clone() });
            write(&epath, &v);
            ("exercise-of-another-lesson".to_string(), true)
        }
        4 => {
            let mut v = read(&epath);
            v["course_id"] = json!(other_course);
            write(&epath, &v);
            ("exercise-of-another-course".to_string(), true)
        }
        5 | 6 => {
            // An identifier that is already taken by any other unit.
            let own = [&c.id, &l.id, &l.exs[ei].id][level].clone();
            let others: Vec<String> = lib.kind.keys().filter(|k| **k != own).cloned().collect();
            let t = r.pick(&others).clone();
            let kind = match lib.kind[&t] { Kind::Course => "course", Kind::Lesson => "lesson", Kind::Exercise => "exercise" };
            let mut v = read(&path);
            v["id"] = json!(t);
            write(&path, &v);
            // Units inside have to follow, or the parents would not match.
            if level == 0 {
                for (i, l) in c.lessons.iter().enumerate() {
                    let p = root.join(&c.dir).join(format!("lesson_{i}/lesson_manifest.json"));
                    let mut v = read(&p);
                    v["course_id"] = json!(t);
                    write(&p, &v);
                    for j in 0..l.exs.len() {
                        let p = root.join(&c.dir).join(format!("lesson_{i}/exercise_{j}/exercise_manifest.json"));
                        let mut v = read(&p);
                        v["course_id"] = json!(t);
                        write(&p, &v);
                    }
                }
            } else if level == 1 {
                for j in 0..l.exs.len() {
                    let p = root.join(&c.dir).join(format!("lesson_{li}/exercise_{j}/exercise_manifest.json"));
                    let mut v = read(&p);
                    v["lesson_id"] = json!(t);
                    write(&p, &v);
                }
            }
            (format!("{unit}-takes-the-id-of-a-{kind}"), true)
        }
        7 => {
            let b = std::fs::read(&path).expect("harness: read");
            let n = r.below(b.len());
            std::fs::write(&path, &b[..n]).expect("harness: write");
            (format!("truncated-{unit}"), true)
        }
        8 => {
            let mut b = std::fs::read(&path).expect("harness: read");
            b.extend_from_slice(r.pick(&[&b"}"[..], b"{}", b"x", b",", b"\0"]));
            std::fs::write(&path, b).expect("harness: write");
            (format!("garbage-after-{unit}"), true)
        }
        9 => {
            let mut v = read(&path);
            let (k, x) = match level {
                2 => r.pick(&[("id", json!(3)), ("exercise_asset", json!("text")), ("exercise_asset", json!({"Unknown": {}})), ("exercise_type", json!("Other")), ("name", json!([]))]).clone(),
                _ => r.pick(&[("id", json!(3)), ("dependencies", json!("x")), ("encompassed", json!(["x"])), ("superseded", json!([1])), ("metadata", json!({"k": "v"})), ("name", json!(1))]).clone(),
            };
            v[k] = x;
            write(&path, &v);
            (format!("wrong-type-of-{k}-in-{unit}"), true)
        }
        10 => {
            let p = if level == 2 { &lpath } else { &path };
            let mut v = read(p);
            let target = r.pick(&lib.units()).clone();
            v["encompassed"] = json!([[target, *r.pick(&[-0.5, 1.5, -1e-3, 1e9])]]);
            write(p, &v);
            ("weight-out-of-range".to_string(), true)
        }
        11 => {
            let mut v = read(&path);
            let a = json!({"MarkdownAsset": {"path": *r.pick(&["missing.md", "../missing.md", "sub/missing.md"])}});
            match level {
                0 => v[*r.pick(&["course_material", "course_instructions"])] = a,
                1 => v[*r.pick(&["lesson_material", "lesson_instructions"])] = a,
                _ => {
                    v["exercise_asset"] = r.pick(&[json!({"BasicAsset": a}),
                        json!({"FlashcardAsset": {"front_path": "missing.md"}}),
                        json!({"FlashcardAsset": {"front_path": "exercise_manifest.json", "back_path": "missing.md"}}),
                        json!({"SoundSliceAsset": {"link": "l", "backup": "missing.md"}})]).clone();
                }
            }
            write(&path, &v);
            (format!("missing-file-named-by-{unit}"), true)
        }
        12 => {
            let p = if level == 2 { &lpath } else { &path };
            let mut v = read(p);
            let id = v["id"].clone();
            v["dependencies"].as_array_mut().unwrap().push(id);
            write(p, &v);
            ("depends-on-itself".to_string(), true)
        }
        13 => {
            // Two units of the same level that depend on (or supersede) each other.
            let (a, b) = (lib.courses[0].id.clone(), lib.courses[1].id.clone());
            let k = *r.pick(&["dependencies", "superseded"]);
            for (dir, t) in [(&lib.courses[0].dir, &b), (&lib.courses[1].dir, &a)] {
                let p = root.join(dir).join("course_manifest.json");
                let mut v = read(&p);
                v[k].as_array_mut().unwrap().push(json!(t));
                write(&p, &v);
            }
            (format!("cycle-of-{k}"), false)
        }
        14 => {
            if level == 2 {
                let mut v = read(&epath);
                v.as_object_mut().unwrap().remove("exercise_asset");
                write(&epath, &v);
                ("no-asset".to_string(), true)
            } else {
                let mut v = read(&cpath);
                v["generator_config"] = json!({"NoSuchGenerator": {}});
                write(&cpath, &v);
                ("unknown-generator".to_string(), true)
            }
        }
        _ => {
            std::fs::write(&path, r.pick(&[&b""[..], b"null", b"[]", b"\xff\xfe{\0}", b"\"text\"", b"{}"])).expect("harness: write");
            (format!("not-a-manifest-{unit}"), true)
        }
    };
    ctx.count("evaluations");
    ctx.count("refusals_tried");
    ctx.seen(&what);
    ctx.count(&format!("defect_{}", what.split("-of-").next().unwrap_or(&what)));
    write_prefs(&root, json!({}));
    step(format!("opening a library with a defect: {what}"));
    match Trane::new_local(&root, &root) {
        Ok(t) => {
            let ids = strs(t.get_course_ids());
            ctx.violate(format!("opened-{what}"), json!({"defect": what, "in": path.display().to_string(), "courses": ids, "library": lib.to_json()}));
        }
        Err(_) => ctx.count("refused"),
    }
    if ok && !ctx.stop() {
        // Everything else opens when the course with the defect is ignored.
        write_prefs(&root, json!({"ignored_paths": [c.dir]}));
        match Trane::new_local(&root, &root) {
            Err(e) => ctx.violate("ignored-course-still-read", json!({"defect": what, "error": format!("{e:#}"), "library": lib.to_json()})),
            Ok(t) => {
                let want = sorted(lib.courses.iter().filter(|o| o.id != c.id).map(|o| o.id.clone()));
                let got = strs(t.get_course_ids());
                if got != want {
                    ctx.violate("ignored-course", json!({"got": got, "expected": want}));
                }
                ctx.count("refused_only_when_not_ignored");
            }
        }
    }
}
