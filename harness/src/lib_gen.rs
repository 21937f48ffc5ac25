//! Abstract course libraries: generated from a seed, written to disk as hand-made JSON manifests,
//! opened by the code under test. The abstract form is the oracle's ground truth.

use crate::rng::Rng;
use serde_json::{Value, json};
use std::{
    collections::{BTreeMap, BTreeSet},
    path::{Path, PathBuf},
};

pub type Meta = BTreeMap<String, Vec<String>>;

#[derive(Clone, Debug)]
pub struct Ex {
    pub id: String,
    pub declarative: bool,
    pub asset: u8,
}

#[derive(Clone, Debug)]
pub struct Lesson {
    pub id: String,
    pub deps: Vec<String>,
    pub enc: Vec<(String, f32)>,
    pub sup: Vec<String>,
    pub meta: Option<Meta>,
    pub exs: Vec<Ex>,
    pub name: String,
}

#[derive(Clone, Debug)]
pub struct Course {
    pub id: String,
    pub deps: Vec<String>,
    pub enc: Vec<(String, f32)>,
    pub sup: Vec<String>,
    pub meta: Option<Meta>,
    pub lessons: Vec<Lesson>,
    pub dir: String,
    pub name: String,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Course,
    Lesson,
    Exercise,
}

#[derive(Clone, Debug, Default)]
pub struct Lib {
    pub courses: Vec<Course>,
    pub kind: BTreeMap<String, Kind>,
    /// lesson -> (course index, lesson index)
    pub lesson_at: BTreeMap<String, (usize, usize)>,
    pub course_at: BTreeMap<String, usize>,
    pub ex_at: BTreeMap<String, (usize, usize, usize)>,
}

#[derive(Clone, Debug)]
pub struct Shape {
    pub courses: (usize, usize),
    pub lessons: (usize, usize),
    pub exs: (usize, usize),
    pub p_course_dep: f64,
    pub p_course_on_lesson: f64,
    pub p_lesson_dep: f64,
    pub p_cross_lesson: f64,
    pub p_missing: f64,
    pub p_sup: f64,
    pub p_enc: f64,
    pub p_meta: f64,
    pub p_empty: f64,
    pub hostile_ids: bool,
    pub nested_ids: bool,
}

impl Default for Shape {
    fn default() -> Self {
        Shape {
            courses: (1, 6),
            lessons: (1, 4),
            exs: (1, 4),
            p_course_dep: 0.35,
            p_course_on_lesson: 0.1,
            p_lesson_dep: 0.5,
            p_cross_lesson: 0.12,
            p_missing: 0.08,
            p_sup: 0.12,
            p_enc: 0.2,
            p_meta: 0.6,
            p_empty: 0.08,
            hostile_ids: true,
            nested_ids: true,
        }
    }
}

pub const META_KEYS: [&str; 3] = ["genre", "key", "level"];
pub const META_VALS: [&str; 4] = ["jazz", "rock", "C", "easy"];

const NAMES: [&str; 24] = [
    "music", "Music", "music_1", "musicX1", "mu%ic", "chess", "a", "aa", "b%", "_", "%", "é", "日本",
    "O'Brien", "x y", "dot.dot", "\"q\"", "semi;colon", "--", "ẞ", "music::", "tab\tbed", "a_b", "aXb",
];

fn meta(r: &mut Rng, p: f64) -> Option<Meta> {
    if !r.chance(p) {
        return None;
    }
    let mut m = Meta::new();
    for k in META_KEYS {
        if r.chance(0.6) {
            let mut v: Vec<String> = r
                .subset(&META_VALS, 0.4)
                .into_iter()
                .map(str::to_string)
                .collect();
            if v.is_empty() && r.chance(0.5) {
                v.push((*r.pick(&META_VALS)).to_string());
            }
            m.insert(k.to_string(), v);
        }
    }
    Some(m)
}

/// Fresh ids, unique across the library, some of them prefixes or near-variants of each other.
pub struct Ids {
    used: BTreeSet<String>,
    hostile: bool,
}

impl Ids {
    pub fn new(hostile: bool) -> Self {
        Ids {
            used: BTreeSet::new(),
            hostile,
        }
    }
    pub fn fresh(&mut self, r: &mut Rng, parent: Option<&str>, plain: &str) -> String {
        for _ in 0..4 {
            let base = if self.hostile {
                let mut s = (*r.pick(&NAMES)).to_string();
                if r.chance(0.35) {
                    s.push_str(&r.below(12).to_string());
                }
                s
            } else {
                plain.to_string()
            };
            let id = match parent {
                Some(p) if !self.hostile || r.chance(0.8) => format!("{p}::{base}"),
                _ => base,
            };
            if self.used.insert(id.clone()) {
                return id;
            }
        }
        let mut n = 0;
        loop {
            let id = match parent {
                Some(p) => format!("{p}::{plain}_{n}"),
                None => format!("{plain}_{n}"),
            };
            if self.used.insert(id.clone()) {
                return id;
            }
            n += 1;
        }
    }
}

impl Lib {
    pub fn generate(r: &mut Rng, s: &Shape) -> Lib {
        let mut ids = Ids::new(s.hostile_ids);
        let nc = r.usize_in(s.courses.0, s.courses.1);
        let mut courses: Vec<Course> = vec![];
        for ci in 0..nc {
            let cid = ids.fresh(r, None, &format!("c{ci}"));
            let nl = if r.chance(s.p_empty) {
                0
            } else {
                r.usize_in(s.lessons.0, s.lessons.1)
            };
            let mut lessons = vec![];
            for li in 0..nl {
                let lid = ids.fresh(r, s.nested_ids.then_some(cid.as_str()), &format!("l{li}"));
                let ne = if r.chance(s.p_empty * 0.6) {
                    0
                } else {
                    r.usize_in(s.exs.0, s.exs.1)
                };
                let exs = (0..ne)
                    .map(|ei| Ex {
                        id: ids.fresh(r, s.nested_ids.then_some(lid.as_str()), &format!("e{ei}")),
                        declarative: r.chance(0.3),
                        asset: r.below(3) as u8,
                    })
                    .collect();
                lessons.push(Lesson {
                    id: lid,
                    deps: vec![],
                    enc: vec![],
                    sup: vec![],
                    meta: meta(r, s.p_meta),
                    exs,
                    name: format!("Lesson {li}"),
                });
            }
            let dir = if r.chance(0.3) {
                format!("group{}/course_{ci}", r.below(2))
            } else {
                format!("course_{ci}")
            };
            courses.push(Course {
                id: cid,
                deps: vec![],
                enc: vec![],
                sup: vec![],
                meta: meta(r, s.p_meta),
                lessons,
                dir,
                name: format!("Course {ci}"),
            });
        }
        // Relations only point to earlier courses (or earlier lessons of the same course), which
        // makes both the explicit and the implicit order acyclic.
        let mut missing = 0usize;
        for ci in 0..nc {
            let earlier_courses: Vec<String> = courses[..ci].iter().map(|c| c.id.clone()).collect();
            let earlier_lessons: Vec<String> = courses[..ci]
                .iter()
                .flat_map(|c| c.lessons.iter().map(|l| l.id.clone()))
                .collect();
            let mut deps = r.subset(&earlier_courses, s.p_course_dep);
            deps.truncate(3);
            if !earlier_lessons.is_empty() && r.chance(s.p_course_on_lesson) {
                deps.push(r.pick(&earlier_lessons).clone());
            }
            if r.chance(s.p_missing) {
                missing += 1;
                deps.push(format!("missing_unit_{missing}"));
            }
            let earlier_units: Vec<String> = earlier_courses
                .iter()
                .chain(earlier_lessons.iter())
                .cloned()
                .collect();
            let sup = if !earlier_units.is_empty() && r.chance(s.p_sup) {
                vec![r.pick(&earlier_units).clone()]
            } else {
                vec![]
            };
            let enc = Self::gen_enc(r, &deps, &earlier_units, s.p_enc);
            courses[ci].deps = deps;
            courses[ci].sup = sup;
            courses[ci].enc = enc;
            for li in 0..courses[ci].lessons.len() {
                let own: Vec<String> = courses[ci].lessons[..li]
                    .iter()
                    .map(|l| l.id.clone())
                    .collect();
                let mut deps = vec![];
                if !own.is_empty() && r.chance(s.p_lesson_dep) {
                    deps.push(if r.chance(0.6) {
                        own[own.len() - 1].clone()
                    } else {
                        r.pick(&own).clone()
                    });
                    if own.len() > 1 && r.chance(0.2) {
                        let o = r.pick(&own).clone();
                        if !deps.contains(&o) {
                            deps.push(o);
                        }
                    }
                }
                if !earlier_units.is_empty() && r.chance(s.p_cross_lesson) {
                    let o = r.pick(&earlier_units).clone();
                    deps.push(o);
                }
                if r.chance(s.p_missing * 0.7) {
                    missing += 1;
                    deps.push(format!("missing_unit_{missing}"));
                }
                let mut targets = earlier_units.clone();
                targets.extend(own.iter().cloned());
                let sup = if !targets.is_empty() && r.chance(s.p_sup) {
                    vec![r.pick(&targets).clone()]
                } else {
                    vec![]
                };
                let enc = Self::gen_enc(r, &deps, &targets, s.p_enc);
                let l = &mut courses[ci].lessons[li];
                l.deps = deps;
                l.sup = sup;
                l.enc = enc;
            }
        }
        Lib::from_courses(courses)
    }

    fn gen_enc(r: &mut Rng, deps: &[String], targets: &[String], p: f64) -> Vec<(String, f32)> {
        let mut out: Vec<(String, f32)> = vec![];
        let w = [0.0f32, 0.25, 0.5, 0.75, 1.0];
        for d in deps {
            if r.chance(p) {
                out.push((d.clone(), *r.pick(&w)));
            }
        }
        if !targets.is_empty() && r.chance(p) {
            let t = r.pick(targets).clone();
            if !out.iter().any(|(o, _)| *o == t) {
                out.push((t, *r.pick(&w)));
            }
        }
        out
    }

    pub fn from_courses(courses: Vec<Course>) -> Lib {
        let mut lib = Lib {
            courses,
            ..Default::default()
        };
        lib.reindex();
        lib
    }

    pub fn reindex(&mut self) {
        self.kind.clear();
        self.lesson_at.clear();
        self.course_at.clear();
        self.ex_at.clear();
        for (ci, c) in self.courses.iter().enumerate() {
            self.kind.insert(c.id.clone(), Kind::Course);
            self.course_at.insert(c.id.clone(), ci);
            for (li, l) in c.lessons.iter().enumerate() {
                self.kind.insert(l.id.clone(), Kind::Lesson);
                self.lesson_at.insert(l.id.clone(), (ci, li));
                for (ei, e) in l.exs.iter().enumerate() {
                    self.kind.insert(e.id.clone(), Kind::Exercise);
                    self.ex_at.insert(e.id.clone(), (ci, li, ei));
                }
            }
        }
    }

    pub fn lesson(&self, id: &str) -> Option<&Lesson> {
        self.lesson_at
            .get(id)
            .map(|(c, l)| &self.courses[*c].lessons[*l])
    }
    pub fn course(&self, id: &str) -> Option<&Course> {
        self.course_at.get(id).map(|c| &self.courses[*c])
    }
    pub fn course_of(&self, lesson: &str) -> Option<&Course> {
        self.lesson_at.get(lesson).map(|(c, _)| &self.courses[*c])
    }
    pub fn lesson_of(&self, ex: &str) -> Option<&Lesson> {
        self.ex_at
            .get(ex)
            .map(|(c, l, _)| &self.courses[*c].lessons[*l])
    }
    pub fn deps(&self, unit: &str) -> &[String] {
        if let Some(c) = self.course(unit) {
            &c.deps
        } else if let Some(l) = self.lesson(unit) {
            &l.deps
        } else {
            &[]
        }
    }
    pub fn units(&self) -> Vec<String> {
        self.kind.keys().cloned().collect()
    }
    pub fn exercises(&self) -> Vec<String> {
        self.ex_at.keys().cloned().collect()
    }
    pub fn lessons(&self) -> Vec<String> {
        self.lesson_at.keys().cloned().collect()
    }
    pub fn dependents(&self, unit: &str) -> Vec<String> {
        let mut out = vec![];
        for c in &self.courses {
            if c.deps.iter().any(|d| d == unit) {
                out.push(c.id.clone());
            }
            for l in &c.lessons {
                if l.deps.iter().any(|d| d == unit) {
                    out.push(l.id.clone());
                }
            }
        }
        out
    }
    pub fn superseders(&self, unit: &str) -> BTreeSet<String> {
        let mut out = BTreeSet::new();
        for c in &self.courses {
            if c.sup.iter().any(|d| d == unit) {
                out.insert(c.id.clone());
            }
            for l in &c.lessons {
                if l.sup.iter().any(|d| d == unit) {
                    out.insert(l.id.clone());
                }
            }
        }
        out
    }
    pub fn starting_lessons(&self, course: &str) -> Vec<String> {
        let Some(c) = self.course(course) else {
            return vec![];
        };
        c.lessons
            .iter()
            .filter(|l| {
                l.deps
                    .iter()
                    .all(|d| !c.lessons.iter().any(|o| o.id == *d))
            })
            .map(|l| l.id.clone())
            .collect()
    }
    pub fn has_encompassed(&self) -> bool {
        self.courses
            .iter()
            .any(|c| !c.enc.is_empty() || c.lessons.iter().any(|l| !l.enc.is_empty()))
    }
    /// Edges of the encompassing relation, with weights: declared, plus dependencies at weight 1.
    pub fn encompasses(&self, unit: &str) -> Vec<(String, f32)> {
        let (deps, enc) = if let Some(c) = self.course(unit) {
            (&c.deps, &c.enc)
        } else if let Some(l) = self.lesson(unit) {
            (&l.deps, &l.enc)
        } else {
            return vec![];
        };
        let mut out = enc.clone();
        for d in deps {
            if !enc.iter().any(|(e, _)| e == d) {
                out.push((d.clone(), 1.0));
            }
        }
        out
    }
    pub fn encompassed_by(&self, unit: &str) -> Vec<(String, f32)> {
        let mut out = vec![];
        for c in &self.courses {
            for (e, w) in self.encompasses(&c.id) {
                if e == unit {
                    out.push((c.id.clone(), w));
                }
            }
            for l in &c.lessons {
                for (e, w) in self.encompasses(&l.id) {
                    if e == unit {
                        out.push((l.id.clone(), w));
                    }
                }
            }
        }
        out
    }

    pub fn asset_json(kind: u8, id: &str) -> Value {
        match kind {
            0 => json!({"BasicAsset": {"InlinedAsset": {"content": format!("content of {id}")}}}),
            1 => json!({"InlineFlashcardAsset": {"front_content": format!("front of {id}"), "back_content": format!("back of {id}")}}),
            _ => json!({"InlineFlashcardAsset": {"front_content": format!("front of {id}")}}),
        }
    }

    /// Writes every manifest under `root`.
    pub fn write(&self, root: &Path) -> std::io::Result<()> {
        for c in &self.courses {
            let cdir: PathBuf = root.join(&c.dir);
            std::fs::create_dir_all(&cdir)?;
            let mut m = json!({"id": c.id, "name": c.name, "dependencies": c.deps,
                "encompassed": c.enc, "superseded": c.sup});
            if let Some(meta) = &c.meta {
                m["metadata"] = json!(meta);
            }
            std::fs::write(cdir.join("course_manifest.json"), m.to_string())?;
            for (li, l) in c.lessons.iter().enumerate() {
                let ldir = cdir.join(format!("lesson_{li}"));
                std::fs::create_dir_all(&ldir)?;
                let mut m = json!({"id": l.id, "course_id": c.id, "name": l.name,
                    "dependencies": l.deps, "encompassed": l.enc, "superseded": l.sup});
                if let Some(meta) = &l.meta {
                    m["metadata"] = json!(meta);
                }
                std::fs::write(ldir.join("lesson_manifest.json"), m.to_string())?;
                for (ei, e) in l.exs.iter().enumerate() {
                    let edir = ldir.join(format!("exercise_{ei}"));
                    std::fs::create_dir_all(&edir)?;
                    let m = json!({"id": e.id, "lesson_id": l.id, "course_id": c.id,
                        "name": format!("Exercise {}", e.id),
                        "exercise_type": if e.declarative {"Declarative"} else {"Procedural"},
                        "exercise_asset": Self::asset_json(e.asset, &e.id)});
                    std::fs::write(edir.join("exercise_manifest.json"), m.to_string())?;
                }
            }
        }
        Ok(())
    }

    pub fn to_json(&self) -> Value {
        json!(self.courses.iter().map(|c| json!({"id": c.id, "deps": c.deps, "enc": c.enc, "sup": c.sup,
            "meta": c.meta,
            "lessons": c.lessons.iter().map(|l| json!({"id": l.id, "deps": l.deps, "enc": l.enc,
                "sup": l.sup, "meta": l.meta,
                "exercises": l.exs.iter().map(|e| e.id.clone()).collect::<Vec<_>>()})).collect::<Vec<_>>()
            })).collect::<Vec<_>>())
    }
}
