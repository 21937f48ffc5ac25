//! Monitors of the course generators: directories and configurations written at random, opened,
//! and compared with the course they describe.

use crate::{
    checks::library::{Expect, File, full_path, judge_library, write_prefs},
    ctx::{Ctx, scratch, step},
    lib_gen::Ids,
    rng::Rng,
};
use serde_json::{Map, Value, json};
use std::path::{Path, PathBuf};
use trane::{
    Trane,
    data::course_generator::transcription::constants::{
        ADVANCED_SINGING_INSTRUCTIONS, ADVANCED_TRANSCRIPTION_INSTRUCTIONS, COURSE_INSTRUCTIONS, SINGING_INSTRUCTIONS,
        TRANSCRIPTION_INSTRUCTIONS,
    },
};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Gen {
    Knowledge,
    Literacy,
    Transcription,
    Music,
}

pub const GENS: [Gen; 4] = [Gen::Knowledge, Gen::Literacy, Gen::Transcription, Gen::Music];

/// A generated course on disk, and what it has to become.
#[derive(Default)]
pub struct Made {
    pub files: Vec<File>,
    pub dirs: Vec<PathBuf>,
    pub expect: Expect,
}

const TEXTS: [&str; 9] =
    ["text", "# Title\n\nwith *marks*\n", "é 日本", "\"quoted\" \\ back", "a\r\nb\n", " padded ", "{\"json\": 1}", "-", "x: y"];

fn set(v: Vec<String>) -> Value {
    json!({"$set": v})
}

fn md(path: &Path) -> Value {
    json!({"MarkdownAsset": {"path": full_path(path)}})
}

struct Base {
    id: String,
    disk: Map<String, Value>,
    want: Map<String, Value>,
    name: String,
}

/// The attributes every course has, whatever generates its lessons.
fn base(r: &mut Rng, ids: &mut Ids, earlier: &[String], n: usize) -> Base {
    let id = ids.fresh(r, None, &format!("c{n}"));
    let (mut d, mut w) = (Map::new(), Map::new());
    let name = if r.chance(0.25) { String::new() } else { format!("Course {n}{}", r.pick(&["", " é", " \"q\""])) };
    let mut deps = r.subset(earlier, 0.3);
    if r.chance(0.2) {
        deps.push("missing::course".into());
    }
    let meta = if r.chance(0.5) { json!({"genre": ["jazz"], "k": []}) } else { Value::Null };
    for (k, v) in [
        ("id", json!(id)),
        ("name", json!(name)),
        ("dependencies", json!(deps)),
        ("metadata", meta),
        ("description", if r.chance(0.3) { json!("about it") } else { Value::Null }),
        ("authors", if r.chance(0.3) { json!(["A"]) } else { Value::Null }),
        ("course_instructions", if r.chance(0.3) { json!({"InlinedAsset": {"content": "own instructions"}}) } else { Value::Null }),
        ("course_material", if r.chance(0.3) { json!({"InlinedUniqueAsset": {"content": "own material"}}) } else { Value::Null }),
    ] {
        if !v.is_null() {
            d.insert(k.into(), v.clone());
        }
        w.insert(k.into(), v);
    }
    Base { id, disk: d, want: w, name }
}

fn finish(m: &mut Made, b: Base, dir: &Path, config: &Value) {
    let mut d = b.disk;
    d.insert("generator_config".into(), config.clone());
    m.files.push(File { path: dir.join("course_manifest.json"), content: Value::Object(d).to_string().into_bytes() });
    m.expect.courses.insert(b.id.clone(), Value::Object(b.want));
}

fn short_ids(r: &mut Rng, pool: &[&str], n: usize) -> Vec<String> {
    let mut v: Vec<String> = pool.iter().map(|s| (*s).to_string()).collect();
    r.shuffle(&mut v);
    v.truncate(n);
    v
}

/// Relations to earlier lessons of the course by short or full identifier, and to units elsewhere:
/// (on disk, expanded by `full`).
fn relation(r: &mut Rng, own: &[String], course: &str, earlier: &[String], p: f64, full: &dyn Fn(&str) -> String) -> Option<(Vec<String>, Vec<String>)> {
    if !r.chance(p) {
        return None;
    }
    let mut disk = vec![];
    let mut want = vec![];
    for o in own {
        if r.chance(0.45) {
            want.push(full(o));
            disk.push(if r.chance(0.7) { o.clone() } else { full(o) });
        }
    }
    for o in earlier {
        // A unit elsewhere whose identifier is also a short identifier would be ambiguous.
        if r.chance(0.2) && !LESSONS.contains(&o.as_str()) {
            want.push(o.clone());
            disk.push(o.clone());
        }
    }
    for o in ["elsewhere::lesson".to_string(), format!("{course}::no_such_lesson"), "unknown short".to_string()] {
        if r.chance(0.15) {
            want.push(o.clone());
            disk.push(o);
        }
    }
    let mut order: Vec<usize> = (0..disk.len()).collect();
    r.shuffle(&mut order);
    Some((order.iter().map(|i| disk[*i].clone()).collect(), order.iter().map(|i| want[*i].clone()).collect()))
}

fn weights(r: &mut Rng, n: usize) -> Vec<f32> {
    (0..n).map(|_| *r.pick(&[0.0f32, 0.25, 0.5, 0.75, 1.0])).collect()
}

fn file(m: &mut Made, p: PathBuf, s: impl Into<Vec<u8>>) {
    m.files.push(File { path: p, content: s.into() });
}

const LESSONS: [&str; 16] = ["a", "b", "l1", "l10", "x.y", "é", "a b", "_", "%", "A", "dep", "x.lesson", "日本", "0", "lesson", "a-b"];
const EXS: [&str; 16] = ["1", "2", "10", "e", "E", "ex.1", "a b", "é", "_", "%", "x.front", "x.back", "x", "lesson.x", "日本", "front"];

pub fn knowledge(r: &mut Rng, root: &Path, dir: &Path, ids: &mut Ids, earlier: &mut Vec<String>, n: usize) -> Made {
    let mut m = Made::default();
    let b = base(r, ids, earlier, n);
    let inlined = r.chance(0.4);
    let shorts = { let k = r.below(6); short_ids(r, &LESSONS, k) };
    let cid = b.id.clone();
    let full = |s: &str| format!("{cid}::{s}");
    let mut made_ids = vec![];
    for (i, s) in shorts.iter().enumerate() {
        let ldir = dir.join(format!("{s}.lesson"));
        let abs = root.join(&ldir);
        let lid = full(s);
        made_ids.push(lid.clone());
        m.dirs.push(ldir.clone());
        let mut w = Map::new();
        w.insert("id".into(), json!(lid));
        w.insert("course_id".into(), json!(cid));
        w.insert("name".into(), json!(format!("Lesson {s}")));
        for (k, p) in [("dependencies", 0.6), ("superseded", 0.3)] {
            if let Some((d, e)) = relation(r, &shorts[..i], &cid, earlier, p, &full) {
                file(&mut m, ldir.join(format!("lesson.{k}.json")), json!(d).to_string());
                w.insert(k.into(), set(e));
            }
        }
        if let Some((d, e)) = relation(r, &shorts[..i], &cid, earlier, 0.3, &full) {
            let ws = weights(r, d.len());
            let z = |v: &[String]| -> Vec<Value> { v.iter().zip(&ws).map(|(a, b)| json!([a, b])).collect() };
            file(&mut m, ldir.join("lesson.encompassed.json"), json!(z(&d)).to_string());
            w.insert("encompassed".into(), json!({"$set": z(&e)}));
        }
        for (k, v) in [
            ("name", json!(*r.pick(&TEXTS))),
            ("description", json!(*r.pick(&TEXTS))),
            ("metadata", json!({"key": ["C", "é"], "empty": []})),
        ] {
            if r.chance(0.4) {
                file(&mut m, ldir.join(format!("lesson.{k}.json")), if r.chance(0.5) { v.to_string() } else { format!(" {v:#}\n") });
                w.insert(k.into(), v);
            }
        }
        for k in ["instructions", "material"] {
            if r.chance(0.35) {
                file(&mut m, ldir.join(format!("lesson.{k}.md")), *r.pick(&TEXTS));
                w.insert(format!("lesson_{k}"), md(&abs.join(format!("lesson.{k}.md"))));
            }
        }
        let default = match r.below(4) {
            0 => Some("Declarative"),
            1 => Some("Procedural"),
            _ => None,
        };
        if let Some(d) = default {
            file(&mut m, ldir.join("lesson.default_exercise_type.json"), json!(d).to_string());
        }
        m.expect.lessons.insert(lid.clone(), Value::Object(w));

        let exs = { let k = r.below(6); short_ids(r, &EXS, k) };
        for e in &exs {
            let mut w = Map::new();
            let front = format!("front of {e}: {}", r.pick(&TEXTS));
            file(&mut m, ldir.join(format!("{e}.front.md")), front.clone());
            let mut back = None;
            if r.chance(0.65) {
                let t = format!("back of {e}: {}", r.pick(&TEXTS));
                file(&mut m, ldir.join(format!("{e}.back.md")), t.clone());
                back = Some(t);
            }
            w.insert("id".into(), json!(format!("{lid}::{e}")));
            w.insert("lesson_id".into(), json!(lid));
            w.insert("course_id".into(), json!(cid));
            w.insert("name".into(), json!(format!("Exercise {e}")));
            w.insert("exercise_type".into(), json!(default.unwrap_or("Procedural")));
            for (k, f, v) in [
                ("name", "name", json!(format!("{}{e}", r.pick(&TEXTS)))),
                ("description", "description", json!(*r.pick(&TEXTS))),
                ("exercise_type", "type", json!(*r.pick(&["Declarative", "Procedural"]))),
            ] {
                if r.chance(0.35) {
                    file(&mut m, ldir.join(format!("{e}.{f}.json")), v.to_string());
                    w.insert(k.into(), v);
                }
            }
            w.insert("exercise_asset".into(), if inlined {
                json!({"InlineFlashcardAsset": {"front_content": front, "back_content": back}})
            } else {
                let bp = if back.is_some() { full_path(&abs.join(format!("{e}.back.md"))) } else { Value::Null };
                json!({"FlashcardAsset": {"front_path": full_path(&abs.join(format!("{e}.front.md"))), "back_path": bp}})
            });
            m.expect.exercises.insert(format!("{lid}::{e}"), Value::Object(w));
        }
        // Files that belong to no exercise.
        for f in ["orphan.back.md", "orphan.name.json", "orphan.type.json", "lonely.description.json", "notes.md", "q.front.txt", "q.front.md.bak",
                  "Q.FRONT.MD", "front.md", ".front.md", ".back.md", "lesson.md", "lesson.json", "lesson.unknown.json", "sub/e.front.md", "sub/sub/e.back.md"] {
            if r.chance(0.06) {
                file(&mut m, ldir.join(f), "{ not json");
            }
        }
    }
    if r.chance(0.3) {
        for f in ["e.front.md", "e.back.md", "plain/e.front.md", "x.lesson.bak/e.front.md", "lesson.name.json", "x.LESSON/e.front.md", "file.lesson"] {
            if r.chance(0.4) {
                file(&mut m, dir.join(f), "{ not json");
            }
        }
    }
    // A lesson with manifests of its own may live next to the generated ones.
    if r.chance(0.2) {
        let lid = ids.fresh(r, Some(&cid), "plain");
        if !m.expect.lessons.contains_key(&lid) {
            let l = json!({"id": lid, "course_id": cid, "name": "plain lesson"});
            let e = json!({"id": format!("{lid}::plain_exercise"), "lesson_id": lid, "course_id": cid, "exercise_type": "Declarative",
                "exercise_asset": {"BasicAsset": {"InlinedAsset": {"content": "c"}}}});
            file(&mut m, dir.join("regular/lesson_manifest.json"), l.to_string());
            file(&mut m, dir.join("regular/ex/exercise_manifest.json"), e.to_string());
            m.expect.lessons.insert(lid.clone(), l);
            m.expect.exercises.insert(format!("{lid}::plain_exercise"), e);
        }
    }
    earlier.push(cid.clone());
    earlier.extend(made_ids);
    let c = if !inlined && r.chance(0.5) { json!({}) } else { json!({"inlined": inlined}) };
    finish(&mut m, b, dir, &json!({"KnowledgeBase": c}));
    m
}

fn yaml(s: &str) -> String {
    json!(s).to_string()
}

pub fn literacy(r: &mut Rng, _root: &Path, dir: &Path, ids: &mut Ids, earlier: &mut Vec<String>, n: usize) -> Made {
    let mut m = Made::default();
    let mut b = base(r, ids, earlier, n);
    let dictation = r.chance(0.5);
    let shorts = { let k = r.below(6); short_ids(r, &LESSONS, k) };
    let cid = b.id.clone();
    let cname = if b.name.is_empty() { cid.clone() } else { b.name.clone() };
    if r.chance(0.4) {
        let t = *r.pick(&TEXTS);
        file(&mut m, dir.join("course.instructions.md"), t);
        b.want.insert("course_instructions".into(), json!({"InlinedAsset": {"content": t}}));
    }
    let mut meta = b.want["metadata"].as_object().cloned().unwrap_or_default();
    meta.insert("literacy_course".into(), json!(["true"]));
    b.want.insert("metadata".into(), Value::Object(meta));
    let mut made_ids = vec![];
    for (i, s) in shorts.iter().enumerate() {
        let ldir = dir.join(format!("{s}.lesson"));
        m.dirs.push(ldir.clone());
        let mut name = None;
        let mut desc = Value::Null;
        let mut instr = Value::Null;
        if r.chance(0.4) {
            let t = *r.pick(&TEXTS);
            file(&mut m, ldir.join("lesson.name.json"), json!(t).to_string());
            name = Some(t.to_string());
        }
        if r.chance(0.4) {
            desc = json!(*r.pick(&TEXTS));
            file(&mut m, ldir.join("lesson.description.json"), desc.to_string());
        }
        if r.chance(0.4) {
            let t = *r.pick(&TEXTS);
            file(&mut m, ldir.join("lesson.instructions.md"), t);
            instr = json!({"InlinedAsset": {"content": t}});
        }
        // Relations name lessons by short identifier, or units elsewhere as they are.
        let short = |s: &str| s.to_string();
        let deps = relation(r, &shorts[..i], &cid, earlier, 0.6, &short).map_or(vec![], |x| x.0);
        let sup = relation(r, &shorts[..i], &cid, earlier, 0.3, &short).map_or(vec![], |x| x.0);
        let enc = relation(r, &shorts[..i], &cid, earlier, 0.3, &short).map_or(vec![], |x| x.0);
        let ws = weights(r, enc.len());
        if !deps.is_empty() || r.chance(0.2) {
            file(&mut m, ldir.join("lesson.dependencies.json"), json!(deps).to_string());
        }
        if !sup.is_empty() || r.chance(0.2) {
            file(&mut m, ldir.join("lesson.superseded.json"), json!(sup).to_string());
        }
        if !enc.is_empty() || r.chance(0.2) {
            file(&mut m, ldir.join("lesson.encompassed.json"), json!(enc.iter().zip(&ws).map(|(a, b)| json!([a, b])).collect::<Vec<_>>()).to_string());
        }

        let mut lists: [Vec<(String, Option<String>)>; 2] = [vec![], vec![]];
        for (which, (one, answer, simple, with)) in [
            ("example", "answer", "simple_examples.md", "simple_examples_with_answers.yaml"),
            ("exception", "exception_answer", "simple_exceptions.md", "simple_exceptions_with_answers.yaml"),
        ]
        .into_iter()
        .enumerate()
        {
            for e in { let k = r.below(4); short_ids(r, &EXS, k) } {
                let t = format!("{}{}", r.pick(&TEXTS), r.below(3));
                file(&mut m, ldir.join(format!("{e}.{one}.md")), t.clone());
                let mut a = None;
                if r.chance(0.5) {
                    let x = format!("answer {}", r.pick(&TEXTS));
                    file(&mut m, ldir.join(format!("{e}.{answer}.md")), x.clone());
                    a = Some(x);
                }
                lists[which].push((t, a));
            }
            if r.chance(0.1) {
                file(&mut m, ldir.join(format!("orphan.{answer}.md")), "no such example");
            }
            if r.chance(0.35) {
                let mut text = String::new();
                for _ in 0..r.below(5) {
                    let w = *r.pick(&["word", "é", "two words", "a,b", "- dash", "#"]);
                    lists[which].push((w.to_string(), None));
                    text.push_str(&format!("{}{w}{}{}", r.pick(&["", " ", "\t"]), r.pick(&["", "  "]), r.pick(&["\n", "\r\n", "\n\n", "\n \n"])));
                }
                if r.chance(0.3) {
                    lists[which].push(("last".into(), None));
                    text.push_str("last");
                }
                file(&mut m, ldir.join(simple), text);
            }
            if r.chance(0.35) {
                let mut text = String::new();
                for _ in 0..r.usize_in(1, 4) {
                    let w = *r.pick(&["word", "é", "two words", "a: b", "quote ' and \""]);
                    text.push_str(&format!("- {one}: {}\n", yaml(w)));
                    let a = match r.below(3) {
                        0 => {
                            text.push_str("  answer: \"the answer\"\n");
                            Some("the answer".to_string())
                        }
                        1 => {
                            text.push_str("  answer: null\n");
                            None
                        }
                        _ => None,
                    };
                    lists[which].push((w.to_string(), a));
                }
                file(&mut m, ldir.join(with), text);
            }
            lists[which].sort();
        }
        for (kind, on) in [("reading", true), ("dictation", dictation)] {
            if !on {
                continue;
            }
            let exp = |x: &String| if shorts.contains(x) { format!("{cid}::{x}::{kind}") } else { x.clone() };
            let lid = format!("{cid}::{s}::{kind}");
            made_ids.push(lid.clone());
            let mut d: Vec<String> = deps.iter().map(exp).collect();
            if kind == "dictation" {
                d = deps.iter().filter(|x| shorts.contains(x)).map(exp).collect();
                d.push(format!("{cid}::{s}::reading"));
            }
            let label = if kind == "reading" { "Reading" } else { "Dictation" };
            let full_name = format!("{cname} - {} - {label}", name.clone().unwrap_or(s.clone()));
            m.expect.lessons.insert(lid.clone(), json!({
                "id": lid, "course_id": cid, "name": full_name, "description": desc,
                "dependencies": set(d), "superseded": set(sup.iter().map(exp).collect()),
                "encompassed": {"$set": enc.iter().zip(&ws).map(|(a, b)| json!([exp(a), b])).collect::<Vec<_>>()},
                "metadata": {"literacy_lesson": [kind]}, "lesson_instructions": instr}));
            m.expect.exercises.insert(format!("{lid}::exercise"), json!({
                "id": format!("{lid}::exercise"), "lesson_id": lid, "course_id": cid, "name": full_name, "description": desc,
                "exercise_type": "Procedural",
                "exercise_asset": {"LiteracyAsset": {"lesson_type": label, "examples": lists[0], "exceptions": lists[1]}}}));
        }
        for f in ["notes.md", "x.example.txt", "example.md", "x.EXAMPLE.MD", "sub/x.example.md", "lesson.unknown.json", "simple_examples.txt"] {
            if r.chance(0.06) {
                file(&mut m, ldir.join(f), "{ not json");
            }
        }
    }
    if r.chance(0.3) {
        for f in ["x.example.md", "plain/x.example.md", "x.lesson.bak/x.example.md", ".lesson/x.example.md", "lesson.name.json", "file.lesson"] {
            if r.chance(0.4) {
                file(&mut m, dir.join(f), "{ not json");
            }
        }
    }
    earlier.push(cid.clone());
    earlier.extend(made_ids);
    let c = if !dictation && r.chance(0.5) { json!({}) } else { json!({"generate_dictation": dictation}) };
    finish(&mut m, b, dir, &json!({"Literacy": c}));
    m
}

pub fn music(r: &mut Rng, _root: &Path, dir: &Path, ids: &mut Ids, earlier: &mut Vec<String>, n: usize) -> Made {
    let mut m = Made::default();
    let b = base(r, ids, earlier, n);
    let cid = b.id.clone();
    let url = format!("https://www.soundslice.com/slices/{n}/");
    let local = format!("piece é {n}.pdf");
    let slice = r.chance(0.5);

    fn tree(r: &mut Rng, path: &[usize], depth: usize, left: &mut usize, out: &mut Vec<(Vec<usize>, String, String, Vec<usize>)>) -> Value {
        let start = format!("start {}", path.iter().map(ToString::to_string).collect::<Vec<_>>().join("."));
        let end = format!("end é {}", r.below(1000));
        let mut subs = Map::new();
        let mut keys = vec![];
        if depth > 0 {
            for _ in 0..r.below(4) {
                if *left == 0 {
                    break;
                }
                let k = if r.chance(0.7) { r.below(6) } else { *r.pick(&[10, 100, 4_294_967_296, usize::MAX]) };
                if keys.contains(&k) {
                    continue;
                }
                *left -= 1;
                keys.push(k);
                let mut p = path.to_vec();
                p.push(k);
                let v = tree(r, &p, depth - 1, left, out);
                subs.insert(k.to_string(), v);
            }
        }
        out.push((path.to_vec(), start.clone(), end.clone(), keys));
        json!({"start": start, "end": end, "sub_passages": subs})
    }
    let mut out = vec![];
    let depth = r.below(5);
    let passages = tree(r, &[0], depth, &mut 40, &mut out);
    let id = |p: &[usize]| format!("{cid}::{}", p.iter().map(ToString::to_string).collect::<Vec<_>>().join("::"));
    let mut made_ids = vec![];
    for (p, start, end, keys) in &out {
        let lid = id(p);
        made_ids.push(lid.clone());
        let deps: Vec<String> = keys.iter().map(|k| { let mut q = p.clone(); q.push(*k); id(&q) }).collect();
        m.expect.lessons.insert(lid.clone(), json!({"id": lid, "course_id": cid, "name": b.name, "dependencies": set(deps)}));
        let s = json!({"$contains": [format!("Passage start: {start}"), format!("Passage end: {end}")]});
        let asset = if slice {
            json!({"SoundSliceAsset": {"link": url, "description": s}})
        } else {
            json!({"BasicAsset": {"$any_asset": [start, end, local]}})
        };
        m.expect.exercises.insert(format!("{lid}::exercise"), json!({"id": format!("{lid}::exercise"), "lesson_id": lid, "course_id": cid,
            "name": b.name, "exercise_type": "Procedural", "exercise_asset": asset}));
    }
    earlier.push(cid.clone());
    earlier.extend(made_ids);
    let asset = if slice { json!({"SoundSlice": url}) } else { json!({"LocalFile": local}) };
    finish(&mut m, b, dir, &json!({"MusicPiece": {"music_asset": asset, "passages": passages}}));
    m
}

/// The instruments in the preferences: (identifier, name).
pub type Instruments = Vec<(String, String)>;

pub fn instruments(r: &mut Rng) -> Instruments {
    let mut v = vec![];
    for (i, n) in [("guitar", "Guitar"), ("piano", "Piano é"), ("bass_1", "Bass \"x\""), ("é", "")] {
        if r.chance(0.45) {
            v.push((i.to_string(), n.to_string()));
        }
    }
    r.shuffle(&mut v);
    v
}

pub fn transcription(r: &mut Rng, root: &Path, dir: &Path, ids: &mut Ids, earlier: &mut Vec<String>, n: usize, inst: &Instruments) -> Made {
    let mut m = Made::default();
    let mut b = base(r, ids, earlier, n);
    let cid = b.id.clone();
    let shorts = { let k = r.below(5); short_ids(r, &["t1", "t2", "a b", "é", "x.y", "%", "A", "a"], k) };
    let (skip_s, skip_a) = (r.chance(0.3), r.chance(0.35));
    let tdeps: Vec<String> = {
        let mut v = r.subset(&earlier.iter().filter(|e| !e.contains("::")).cloned().collect::<Vec<_>>(), 0.4);
        if r.chance(0.3) {
            v.push("other::transcription".into());
        }
        v
    };
    let pdir = r.pick(&["passages", "./passages", "sub/dir", "passages/"]).to_string();
    let use_dir = r.chance(0.7);
    let mut inlined = vec![];
    let (mut artists, mut albums) = (vec![], vec![]);
    // (short id, interval id or none, strings the exercise has to show, link)
    let mut exs: Vec<(String, Option<usize>, Vec<String>, Value)> = vec![];
    for (i, s) in shorts.iter().enumerate() {
        let mut t = json!({"short_id": s, "track_name": format!("Track name {s}")});
        let mut shown = vec![format!("Track name {s}")];
        for (k, v) in [("artist_name", format!("Artist é {}", r.below(2))), ("album_name", format!("Album {}", r.below(2))), ("duration", format!("{}:0{i}", r.below(9)))] {
            if r.chance(0.6) {
                t[k] = json!(v);
                shown.push(v.clone());
                match k {
                    "artist_name" => artists.push(v),
                    "album_name" => albums.push(v),
                    _ => {}
                }
            }
        }
        let mut link = Value::Null;
        if r.chance(0.5) {
            let u = format!("https://www.youtube.com/watch?v={i}");
            link = json!({"YouTube": u});
            t["external_link"] = link.clone();
            shown.push(u);
        }
        let mut p = json!({"asset": {"Track": t}});
        let mut iv = Map::new();
        for _ in 0..r.below(4) {
            let k = if r.chance(0.8) { r.below(5) } else { *r.pick(&[10, usize::MAX]) };
            iv.insert(k.to_string(), json!([format!("{k}:00 s"), format!("{k}:30 é{}", r.below(9))]));
        }
        for (k, v) in &iv {
            let mut sh = shown.clone();
            sh.push(format!("{} - {}", v[0].as_str().unwrap(), v[1].as_str().unwrap()));
            exs.push((s.clone(), Some(k.parse().unwrap()), sh, link.clone()));
        }
        if iv.is_empty() {
            let mut sh = shown.clone();
            sh.push("Start of passage - End of passage".into());
            exs.push((s.clone(), None, sh, link.clone()));
        }
        if !iv.is_empty() || r.chance(0.5) {
            p["intervals"] = Value::Object(iv);
        }
        if use_dir && r.chance(0.6) {
            let name = format!("p{i}{}", r.pick(&[".json", ".JSON", ".x.json"]));
            file(&mut m, dir.join(&pdir).join(name), p.to_string());
        } else {
            inlined.push(p);
        }
    }
    if use_dir {
        m.dirs.push(dir.join(&pdir));
        for f in ["notes.txt", "p.json.bak", "json", "sub/p.json", "q.yaml"] {
            if r.chance(0.15) {
                file(&mut m, dir.join(&pdir).join(f), "{ not json");
            }
        }
        if r.chance(0.1) {
            m.dirs.push(dir.join(&pdir).join("dir.json"));
        }
    }
    let mut meta = b.want["metadata"].as_object().cloned().unwrap_or_default();
    meta.insert("transcription_course".into(), json!(["true"]));
    if !artists.is_empty() {
        meta.insert("transcription_artist".into(), set(artists));
    }
    if !albums.is_empty() {
        meta.insert("transcription_album".into(), set(albums));
    }
    b.want.insert("metadata".into(), Value::Object(meta));
    if b.want["course_instructions"].is_null() {
        b.want.insert("course_instructions".into(), json!({"InlinedUniqueAsset": {"content": COURSE_INSTRUCTIONS.as_str()}}));
    }

    let name = b.name.clone();
    let mut lessons: Vec<(String, String, Vec<String>, Vec<String>, &str, String, &str, Option<String>, bool)> = vec![];
    let singing = format!("{cid}::singing");
    lessons.push((singing.clone(), format!("{name} - Singing"), tdeps.iter().map(|d| format!("{d}::singing")).collect(), vec![],
        "singing", "voice".into(), SINGING_INSTRUCTIONS.as_str(), None, !skip_s));
    if !skip_a {
        lessons.push((format!("{cid}::advanced_singing"), format!("{name} - Advanced Singing"), vec![singing.clone()], vec![singing.clone()],
            "advanced_singing", "voice".into(), ADVANCED_SINGING_INSTRUCTIONS.as_str(), None, !skip_s));
    }
    for (i, iname) in inst {
        let tid = format!("{cid}::transcription::{i}");
        let mut d: Vec<String> = tdeps.iter().map(|d| format!("{d}::transcription::{i}")).collect();
        d.push(singing.clone());
        lessons.push((tid.clone(), format!("{name} - Transcription - {iname}"), d, vec![], "transcription", i.clone(),
            TRANSCRIPTION_INSTRUCTIONS.as_str(), Some(iname.clone()), true));
        if !skip_a {
            lessons.push((format!("{cid}::advanced_transcription::{i}"), format!("{name} - Advanced Transcription - {iname}"),
                vec![tid.clone(), format!("{cid}::advanced_singing")], vec![tid], "advanced_transcription", i.clone(),
                ADVANCED_TRANSCRIPTION_INSTRUCTIONS.as_str(), Some(iname.clone()), true));
        }
    }
    let mut made_ids = vec![];
    for (lid, lname, deps, sup, kind, voice, instr, instrument, with) in lessons {
        made_ids.push(lid.clone());
        m.expect.lessons.insert(lid.clone(), json!({"id": lid, "course_id": cid, "name": lname, "description": {"$contains": []},
            "dependencies": set(deps), "superseded": set(sup),
            "metadata": {"transcription_lesson": [kind], "instrument": [voice]},
            "lesson_instructions": {"InlinedUniqueAsset": {"content": instr}}}));
        if !with {
            continue;
        }
        for (s, k, shown, link) in &exs {
            let eid = match k {
                Some(k) => format!("{lid}::{s}::{k}"),
                None => format!("{lid}::{s}"),
            };
            let mut sh = shown.clone();
            if let Some(i) = &instrument {
                sh.push(format!("instrument: {i}."));
            }
            m.expect.exercises.insert(eid.clone(), json!({"id": eid, "lesson_id": lid, "course_id": cid, "name": lname, "exercise_type": "Procedural",
                "exercise_asset": {"TranscriptionAsset": {"content": {"$contains": sh}, "external_link": link}}}));
        }
    }
    earlier.push(cid.clone());
    earlier.extend(made_ids);
    let mut c = json!({});
    if !tdeps.is_empty() {
        c["transcription_dependencies"] = json!(tdeps);
    }
    if use_dir {
        c["passage_directory"] = if r.chance(0.15) { json!(root.join(dir).join(&pdir).display().to_string()) } else { json!(pdir) };
    }
    if !inlined.is_empty() {
        c["inlined_passages"] = json!(inlined);
    }
    if skip_s || r.chance(0.3) {
        c["skip_singing_lessons"] = json!(skip_s);
    }
    if skip_a || r.chance(0.3) {
        c["skip_advanced_lessons"] = json!(skip_a);
    }
    finish(&mut m, b, dir, &json!({"Transcription": c}));
    m
}

pub fn make(g: Gen, r: &mut Rng, root: &Path, dir: &Path, ids: &mut Ids, earlier: &mut Vec<String>, n: usize, inst: &Instruments) -> Made {
    match g {
        Gen::Knowledge => knowledge(r, root, dir, ids, earlier, n),
        Gen::Literacy => literacy(r, root, dir, ids, earlier, n),
        Gen::Music => music(r, root, dir, ids, earlier, n),
        Gen::Transcription => transcription(r, root, dir, ids, earlier, n, inst),
    }
}

pub fn write_made(r: &mut Rng, root: &Path, made: &[Made]) {
    let mut dirs: Vec<&PathBuf> = made.iter().flat_map(|m| &m.dirs).collect();
    r.shuffle(&mut dirs);
    for d in dirs {
        std::fs::create_dir_all(root.join(d)).expect("harness: mkdir");
    }
    let mut files: Vec<&File> = made.iter().flat_map(|m| &m.files).collect();
    r.shuffle(&mut files);
    for f in files {
        let p = root.join(&f.path);
        std::fs::create_dir_all(p.parent().unwrap()).expect("harness: mkdir");
        std::fs::write(&p, &f.content).expect("harness: write");
    }
}

pub fn prefs_json(r: &mut Rng, inst: &Instruments) -> Value {
    if inst.is_empty() && r.chance(0.5) {
        return json!({});
    }
    json!({"transcription": {"instruments": inst.iter().map(|(i, n)| json!({"id": i, "name": n})).collect::<Vec<_>>()}})
}

/// Damages of one file that must be reported when the library is opened.
fn damage(r: &mut Rng, g: Gen, made: &mut Made) -> Option<String> {
    let name = |f: &File| f.path.file_name().unwrap().to_str().unwrap().to_string();
    let candidates: Vec<usize> = (0..made.files.len())
        .filter(|i| {
            let f = &made.files[*i];
            let n = name(f);
            // Files that are read as structured data, in the place where they are read.
            let used = String::from_utf8_lossy(&f.content) != "{ not json";
            used && match g {
                Gen::Knowledge => n.ends_with(".json") && !n.ends_with("manifest.json"),
                Gen::Literacy => (n.starts_with("lesson.") && n.ends_with(".json")) || n.ends_with(".yaml"),
                Gen::Transcription => n.to_lowercase().ends_with(".json") && n.starts_with('p'),
                Gen::Music => n == "course_manifest.json",
            }
        })
        .collect();
    if candidates.is_empty() {
        return None;
    }
    let i = *r.pick(&candidates);
    let n = name(&made.files[i]);
    let f = &mut made.files[i];
    match r.below(4) {
        0 => f.content = b"{ broken".to_vec(),
        1 => f.content = b"".to_vec(),
        2 => f.content = b"3.5".to_vec(),
        _ => f.content.push(b'}'),
    }
    if n.ends_with(".yaml") {
        f.content = r.pick(&[&b"- example: [unclosed\n"[..], b"text only", b"- wrong_key: 1\n", b"{\"example\": \"x\"}\n"]).to_vec();
    }
    Some(format!("{n} := {:?}", String::from_utf8_lossy(&f.content)))
}

fn run(ctx: &mut Ctx, g: Gen) {
    ctx.rule = "one evaluation = one library of generated courses opened and compared unit by unit and attribute by attribute with what its files describe, or one damaged file whose refusal was checked; distinct = by content".into();
    ctx.assumptions = vec![
        "The expected course is computed from the documented naming scheme, independently of the generator.".into(),
        "The order of relations within a lesson is not judged; the order of examples is (sorted).".into(),
    ];
    ctx.cases("generated", 60, 10_000_000, 0.8, |ctx, r| {
        let d = scratch();
        let root = std::fs::canonicalize(d.path()).expect("harness: canonicalize");
        let inst = instruments(r);
        let mut ids = Ids::new(r.chance(0.6));
        let mut earlier = vec![];
        let mut made = vec![];
        let mut want = Expect::default();
        for i in 0..r.usize_in(1, 3) {
            let dir = PathBuf::from(format!("{}{i}", r.pick(&["course_", "group/course ", "é", "c.lesson"])));
            let m = make(g, r, &root, &dir, &mut ids, &mut earlier, i, &inst);
            // Identifiers built by the generator may clash with another unit by design.
            let dup = m.expect.lessons.keys().chain(m.expect.exercises.keys()).chain(m.expect.courses.keys())
                .any(|k| want.courses.contains_key(k) || want.lessons.contains_key(k) || want.exercises.contains_key(k));
            let own = m.expect.lessons.keys().any(|k| m.expect.exercises.contains_key(k) || m.expect.courses.contains_key(k));
            if dup || own {
                return;
            }
            want.merge(&m.expect);
            made.push(m);
        }
        write_made(r, &root, &made);
        let prefs = prefs_json(r, &inst);
        write_prefs(&root, prefs.clone());
        let desc = json!({"preferences": prefs, "files": made.iter().flat_map(|m| &m.files)
            .map(|f| json!([f.path.display().to_string(), String::from_utf8_lossy(&f.content)])).collect::<Vec<_>>()});
        step("opening generated courses");
        match Trane::new_local(&root, &root) {
            Err(e) => ctx.violate("valid-course-refused", json!({"error": format!("{e:#}"), "library": desc})),
            Ok(t) => {
                judge_library(ctx, &t, &want, r, &desc);
                ctx.add("lessons", want.lessons.len() as u64);
                ctx.add("exercises", want.exercises.len() as u64);
                ctx.seen(&desc.to_string());
                if want.exercises.len() > 3 && want.exercises.len() < 9 {
                    ctx.sample(json!({"files": made.iter().flat_map(|m| &m.files).map(|f| f.path.display().to_string()).collect::<Vec<_>>(),
                        "exercises": want.exercises.keys().collect::<Vec<_>>()}));
                }
            }
        }
    });
    ctx.cases("damaged", 40, 10_000_000, 1.0, |ctx, r| {
        let d = scratch();
        let root = std::fs::canonicalize(d.path()).expect("harness: canonicalize");
        let inst = instruments(r);
        let mut ids = Ids::new(false);
        let mut earlier = vec![];
        let mut m = make(g, r, &root, Path::new("course"), &mut ids, &mut earlier, 0, &inst);
        let what = if g == Gen::Transcription && r.chance(0.4) {
            // Two passages with the same identifier.
            let Some(f) = m.files.iter().find(|f| f.path.file_name().unwrap().to_str().unwrap().starts_with('p')
                && f.path.extension().is_some_and(|e| e.eq_ignore_ascii_case("json")) && f.content.starts_with(b"{\"")).cloned() else { return };
            m.files.push(File { path: f.path.with_file_name("pz.json"), content: f.content });
            "two passages with one identifier".to_string()
        } else {
            let Some(w) = damage(r, g, &mut m) else { return };
            w
        };
        write_made(r, &root, std::slice::from_ref(&m));
        write_prefs(&root, prefs_json(r, &inst));
        ctx.count("evaluations");
        ctx.seen(&what);
        step(format!("opening a damaged course: {what}"));
        match Trane::new_local(&root, &root) {
            Ok(_) => ctx.violate("damage-ignored", json!({"damage": what, "files": m.files.iter()
                .map(|f| json!([f.path.display().to_string(), String::from_utf8_lossy(&f.content)])).collect::<Vec<_>>()})),
            Err(_) => ctx.count("refused"),
        }
    });
    ctx.require("manifests_compared", 500);
    ctx.require("exercises", 100);
    ctx.require("refused", 20);
}

pub fn knowledge_base(ctx: &mut Ctx) {
    run(ctx, Gen::Knowledge);
}
pub fn literacy_course(ctx: &mut Ctx) {
    run(ctx, Gen::Literacy);
}
pub fn transcription_course(ctx: &mut Ctx) {
    run(ctx, Gen::Transcription);
}
pub fn music_piece(ctx: &mut Ctx) {
    run(ctx, Gen::Music);
}
