//! A library on disk opened through the public entry point, together with the oracle's shadow of
//! everything that was done to it, and the reference model computed from that shadow.

use crate::{
    ctx::scratch,
    lib_gen::{Kind, Lib, Meta},
};
use serde_json::json;
use std::{
    collections::{BTreeMap, BTreeSet},
    path::{Path, PathBuf},
};
use trane::{
    Trane,
    data::{ExerciseDelta, ExerciseTrial, ExerciseType, MasteryScore, SchedulerOptions, UnitReward},
    exercise_scorer::{ExerciseScorer, PowerLawScorer},
    practice_deltas::PracticeDeltas,
    practice_rewards::PracticeRewards,
    practice_stats::PracticeStats,
    reward_scorer::{RewardScorer, WeightedRewardScorer},
    scheduler::ExerciseScheduler,
};
use ustr::Ustr;

pub fn u(s: &str) -> Ustr {
    Ustr::from(s)
}

pub struct World {
    pub dir: tempfile::TempDir,
    pub lib: Lib,
    pub trane: Trane,
}

pub const GRADES: [MasteryScore; 5] = [
    MasteryScore::One,
    MasteryScore::Two,
    MasteryScore::Three,
    MasteryScore::Four,
    MasteryScore::Five,
];

pub fn grade(n: usize) -> MasteryScore {
    GRADES[n.clamp(1, 5) - 1].clone()
}

pub fn prefs_with_batch(root: &Path, batch: Option<usize>) {
    let cfg = root.join(".trane");
    std::fs::create_dir_all(&cfg).expect("harness: mkdir .trane");
    let mut v = json!({});
    if let Some(b) = batch {
        v["scheduler"] = json!({"batch_size": b});
    }
    std::fs::write(cfg.join("user_preferences.json"), v.to_string()).expect("harness: write prefs");
}

thread_local! {
    /// Whether libraries are opened through their serialized form.
    pub static SERIALIZED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

fn open(root: &Path) -> Result<Trane, String> {
    if SERIALIZED.with(std::cell::Cell::get) {
        crate::checks::serialized::open_serialized(root)
    } else {
        Trane::new_local(root, root).map_err(|e| format!("{e:#}"))
    }
}

impl World {
    pub fn new(lib: Lib, batch: Option<usize>) -> Result<World, String> {
        let dir = scratch();
        lib.write(dir.path()).map_err(|e| format!("harness: {e}"))?;
        if batch.is_some() {
            prefs_with_batch(dir.path(), batch);
        }
        let trane = open(dir.path())?;
        Ok(World { dir, lib, trane })
    }

    pub fn reopen(&mut self) -> Result<(), String> {
        self.trane = open(self.dir.path())?;
        Ok(())
    }

    /// A second instance over the same files: it shares the stores but starts with no cache.
    pub fn fresh(&self) -> Result<Trane, String> {
        open(self.dir.path())
    }

    pub fn db(&self, name: &str) -> PathBuf {
        self.dir.path().join(".trane").join(name)
    }
}

// ------------------------------------------------------------------------------------------------
// Reference model.

/// Facts the model is computed from. Scores come from the public stores through the public scoring
/// formulas, never from the scheduler under test.
pub struct Facts<'a> {
    pub lib: &'a Lib,
    pub black: BTreeSet<String>,
    pub ex_score: BTreeMap<String, f32>,
    pub ex_trials: BTreeMap<String, usize>,
    pub options: SchedulerOptions,
    memo_sup: std::cell::RefCell<BTreeMap<String, bool>>,
    memo_score: std::cell::RefCell<BTreeMap<String, Option<f64>>>,
}

/// Computes the score of an exercise from the stores with the public formulas.
pub fn formula_score(
    lib: &Lib,
    stats: &dyn PracticeStats,
    deltas: &dyn PracticeDeltas,
    rewards: &dyn PracticeRewards,
    ex: &str,
    options: &SchedulerOptions,
    now: i64,
) -> (f32, usize) {
    let (ci, li, ei) = lib.ex_at[ex];
    let c = &lib.courses[ci];
    let l = &c.lessons[li];
    let ty = if l.exs[ei].declarative {
        ExerciseType::Declarative
    } else {
        ExerciseType::Procedural
    };
    let trials: Vec<ExerciseTrial> = stats.get_scores(u(ex), options.num_trials).unwrap_or_default();
    let ds: Vec<ExerciseDelta> = deltas.get_deltas(u(ex), delta_window(options)).unwrap_or_default();
    let s = PowerLawScorer {}
        .score(ty, &trials, &ds, now)
        .expect("harness: formula failed");
    let lr: Vec<UnitReward> = rewards.get_rewards(u(&l.id), options.num_rewards).unwrap_or_default();
    let cr: Vec<UnitReward> = rewards.get_rewards(u(&c.id), options.num_rewards).unwrap_or_default();
    let rs = WeightedRewardScorer {};
    let reward = rs.score_rewards(&cr, &lr).unwrap_or_default();
    let v = if rs.apply_reward(reward, &trials) {
        (s.value + reward).clamp(0.0, 5.0)
    } else {
        s.value
    };
    (v, trials.len())
}

/// How many of the latest deltas enter the formula.
pub fn delta_window(options: &SchedulerOptions) -> u32 {
    options.num_deltas
}

impl<'a> Facts<'a> {
    pub fn new(
        lib: &'a Lib,
        black: BTreeSet<String>,
        ex_score: BTreeMap<String, f32>,
        ex_trials: BTreeMap<String, usize>,
        options: SchedulerOptions,
    ) -> Self {
        Facts {
            lib,
            black,
            ex_score,
            ex_trials,
            options,
            memo_sup: Default::default(),
            memo_score: Default::default(),
        }
    }

    /// From the stores of an open instance, through the public formulas.
    pub fn from_trane(lib: &'a Lib, t: &Trane, now: i64) -> Self {
        use trane::blacklist::Blacklist;
        let options = t.get_scheduler_options();
        let black = t
            .get_blacklist_entries()
            .unwrap_or_default()
            .into_iter()
            .map(|s| s.to_string())
            .collect();
        let mut sc = BTreeMap::new();
        let mut tr = BTreeMap::new();
        for e in lib.exercises() {
            let (s, n) = formula_score(lib, t, t, t, &e, &options, now);
            sc.insert(e.clone(), s);
            tr.insert(e, n);
        }
        Facts::new(lib, black, sc, tr, options)
    }

    /// Scores as reported by the instance itself.
    pub fn from_reported(lib: &'a Lib, t: &Trane) -> Result<Self, String> {
        use trane::blacklist::Blacklist;
        let options = t.get_scheduler_options();
        let black = t
            .get_blacklist_entries()
            .map_err(|e| e.to_string())?
            .into_iter()
            .map(|s| s.to_string())
            .collect();
        let mut sc = BTreeMap::new();
        let mut tr = BTreeMap::new();
        for e in lib.exercises() {
            let s = t
                .get_unit_score(u(&e))
                .map_err(|x| format!("{x:#}"))?
                .unwrap_or_default();
            let n = t
                .get_scores(u(&e), options.num_trials)
                .map_err(|x| format!("{x:#}"))?
                .len();
            sc.insert(e.clone(), s);
            tr.insert(e, n);
        }
        Ok(Facts::new(lib, black, sc, tr, options))
    }

    pub fn is_black(&self, id: &str) -> bool {
        self.black.contains(id)
    }

    /// Whether the exercise, its lesson or its course is blacklisted.
    pub fn inside_black(&self, ex: &str) -> bool {
        let (c, l, _) = self.lib.ex_at[ex];
        let c = &self.lib.courses[c];
        self.is_black(ex) || self.is_black(&c.id) || self.is_black(&c.lessons[l].id)
    }

    /// Exercises of the lesson that can be shown.
    pub fn valid_exs(&self, lesson: &str) -> Vec<String> {
        self.lib
            .lesson(lesson)
            .map(|l| {
                l.exs
                    .iter()
                    .filter(|e| !self.inside_black(&e.id))
                    .map(|e| e.id.clone())
                    .collect()
            })
            .unwrap_or_default()
    }

    fn valid_exs_in_unit(&self, unit: &str) -> Vec<String> {
        match self.lib.kind.get(unit) {
            Some(Kind::Lesson) => self.valid_exs(unit),
            Some(Kind::Course) => self
                .lib
                .course(unit)
                .unwrap()
                .lessons
                .iter()
                .flat_map(|l| self.valid_exs(&l.id))
                .collect(),
            Some(Kind::Exercise) => {
                if self.is_black(unit) {
                    vec![]
                } else {
                    vec![unit.to_string()]
                }
            }
            None => vec![],
        }
    }

    fn is_superseded_by(&self, unit: &str, by: &BTreeSet<String>) -> bool {
        if by.is_empty() {
            return false;
        }
        if !self
            .valid_exs_in_unit(unit)
            .iter()
            .all(|e| self.ex_score[e] > 0.0)
        {
            return false;
        }
        by.iter()
            .filter_map(|s| self.unit_score(s))
            .all(|s| s >= f64::from(self.options.superseding_score))
    }

    fn replace(&self, ids: &BTreeSet<String>) -> BTreeSet<String> {
        let mut out = BTreeSet::new();
        for id in ids {
            let s = self.lib.superseders(id);
            if !s.is_empty() && self.is_superseded_by(id, &s) {
                out.extend(self.replace(&s));
            } else {
                out.insert(id.clone());
            }
        }
        out
    }

    /// Whether the unit has been superseded by mastered units.
    pub fn superseded(&self, unit: &str) -> bool {
        if let Some(v) = self.memo_sup.borrow().get(unit) {
            return *v;
        }
        let s = self.lib.superseders(unit);
        let v = !s.is_empty() && self.is_superseded_by(unit, &self.replace(&s));
        self.memo_sup.borrow_mut().insert(unit.to_string(), v);
        v
    }

    /// The score of a unit: exercise formula, lesson mean over its non-blacklisted exercises,
    /// course mean over its lessons that have a score. None when blacklisted, superseded or empty.
    pub fn unit_score(&self, unit: &str) -> Option<f64> {
        if let Some(v) = self.memo_score.borrow().get(unit) {
            return *v;
        }
        let v = match self.lib.kind.get(unit) {
            Some(Kind::Exercise) => Some(f64::from(self.ex_score[unit])),
            Some(Kind::Lesson) => {
                if self.is_black(unit) || self.superseded(unit) {
                    None
                } else {
                    let v: Vec<f64> = self
                        .lib
                        .lesson(unit)
                        .unwrap()
                        .exs
                        .iter()
                        .filter(|e| !self.is_black(&e.id))
                        .map(|e| f64::from(self.ex_score[&e.id]))
                        .collect();
                    if v.is_empty() {
                        None
                    } else {
                        Some(v.iter().sum::<f64>() / v.len() as f64)
                    }
                }
            }
            Some(Kind::Course) => {
                if self.is_black(unit) || self.superseded(unit) {
                    None
                } else {
                    let v: Vec<f64> = self
                        .lib
                        .course(unit)
                        .unwrap()
                        .lessons
                        .iter()
                        .filter_map(|l| self.unit_score(&l.id))
                        .collect();
                    if v.is_empty() {
                        None
                    } else {
                        Some(v.iter().sum::<f64>() / v.len() as f64)
                    }
                }
            }
            None => None,
        };
        self.memo_score.borrow_mut().insert(unit.to_string(), v);
        v
    }

    pub fn avg_trials(&self, unit: &str) -> Option<f64> {
        match self.lib.kind.get(unit) {
            Some(Kind::Lesson) => {
                let v: Vec<f64> = self
                    .lib
                    .lesson(unit)
                    .unwrap()
                    .exs
                    .iter()
                    .filter(|e| !self.is_black(&e.id))
                    .map(|e| self.ex_trials[&e.id] as f64)
                    .collect();
                if v.is_empty() {
                    None
                } else {
                    Some(v.iter().sum::<f64>() / v.len() as f64)
                }
            }
            Some(Kind::Course) => {
                let v: Vec<f64> = self
                    .lib
                    .course(unit)
                    .unwrap()
                    .lessons
                    .iter()
                    .filter(|l| !self.is_black(&l.id) && !self.superseded(&l.id))
                    .filter_map(|l| self.avg_trials(&l.id))
                    .collect();
                if v.is_empty() {
                    None
                } else {
                    Some(v.iter().sum::<f64>() / v.len() as f64)
                }
            }
            _ => None,
        }
    }

    fn passes(&self, score: Option<f64>, trials: Option<f64>) -> bool {
        match (score, trials) {
            (Some(s), Some(t)) => {
                s >= f64::from(self.options.passing_score.min_score)
                    && t >= f64::from(self.options.passing_score.min_avg_trials)
            }
            _ => true,
        }
    }

    /// Distance of any score that decides something from its threshold: cases with a value that
    /// close are not judged (single against double precision sums).
    pub fn near_threshold(&self) -> bool {
        let p = &self.options.passing_score;
        let near = |v: f64, t: f32| (v - f64::from(t)).abs() < 1e-4;
        self.lib.units().iter().any(|id| {
            if let Some(s) = self.unit_score(id)
                && (near(s, p.min_score) || near(s, self.options.superseding_score))
            {
                return true;
            }
            if let Some(t) = self.avg_trials(id)
                && near(t, p.min_avg_trials)
            {
                return true;
            }
            false
        })
    }

    pub fn satisfied_effective(&self, dep: &str) -> bool {
        if self.is_black(dep) {
            return true;
        }
        if let Some(c) = self.lib.course_of(dep)
            && (self.is_black(&c.id) || self.superseded(&c.id))
        {
            return true;
        }
        if self.superseded(dep) {
            return true;
        }
        self.passes(self.unit_score(dep), self.avg_trials(dep))
    }

    pub fn meta_pass(&self, unit: &str, f: Option<&MetaF>) -> bool {
        let Some(f) = f else { return true };
        match self.lib.kind.get(unit) {
            Some(Kind::Course) => f.course(self.lib.course(unit).unwrap().meta.as_ref()),
            Some(Kind::Lesson) => f.lesson(
                self.lib.course_of(unit).unwrap().meta.as_ref(),
                self.lib.lesson(unit).unwrap().meta.as_ref(),
            ),
            _ => false,
        }
    }

    fn effective(&self, dep: &str, f: Option<&MetaF>, seen: &mut BTreeSet<String>) -> BTreeSet<String> {
        if !seen.insert(dep.to_string()) {
            return BTreeSet::new();
        }
        if f.is_none() || self.meta_pass(dep, f) {
            return [dep.to_string()].into();
        }
        match self.lib.kind.get(dep) {
            Some(Kind::Lesson) => {
                let c = self.lib.course_of(dep).unwrap();
                let mut next: BTreeSet<String> =
                    self.lib.lesson(dep).unwrap().deps.iter().cloned().collect();
                if self.lib.starting_lessons(&c.id).contains(&dep.to_string()) {
                    next.extend(c.deps.iter().cloned());
                }
                next.iter().flat_map(|n| self.effective(n, f, seen)).collect()
            }
            Some(Kind::Course) => {
                let c = self.lib.course(dep).unwrap();
                let matching: BTreeSet<&String> = c
                    .lessons
                    .iter()
                    .filter(|l| self.meta_pass(&l.id, f))
                    .map(|l| &l.id)
                    .collect();
                if matching.is_empty() {
                    return c.deps.iter().flat_map(|n| self.effective(n, f, seen)).collect();
                }
                matching
                    .iter()
                    .filter(|l| !self.lib.dependents(l).iter().any(|d| matching.contains(d)))
                    .map(|l| (*l).clone())
                    .collect()
            }
            _ => BTreeSet::new(),
        }
    }

    /// The prerequisites of a unit: its own and, for the lessons a course begins with, the course's.
    pub fn prerequisites(&self, unit: &str) -> BTreeSet<String> {
        let mut out: BTreeSet<String> = self.lib.deps(unit).iter().cloned().collect();
        if let Some(c) = self.lib.course_of(unit)
            && self.lib.starting_lessons(&c.id).iter().any(|l| l == unit)
        {
            out.extend(c.deps.iter().cloned());
        }
        out
    }

    /// Whether all the direct prerequisites of the unit are met.
    pub fn deps_met(&self, unit: &str, f: Option<&MetaF>) -> bool {
        self.prerequisites(unit).iter().all(|d| {
            if f.is_none() {
                return self.satisfied_effective(d);
            }
            let mut seen = BTreeSet::new();
            self.effective(d, f, &mut seen)
                .iter()
                .all(|t| self.satisfied_effective(t))
        })
    }

    /// Courses where a search of the whole graph begins.
    pub fn starting_courses(&self) -> BTreeSet<String> {
        let exists = |d: &String| self.lib.kind.contains_key(d);
        self.lib
            .courses
            .iter()
            .filter(|c| c.deps.iter().all(|d| !exists(d)))
            .map(|c| c.id.clone())
            .collect()
    }

    /// The lessons reachable from `init` by only walking past mastered, blacklisted, superseded or
    /// filtered-out units, with those among them whose exercises may be shown.
    pub fn closure(&self, init: &[String], f: Option<&MetaF>) -> (BTreeSet<String>, BTreeSet<String>) {
        let mut lessons: BTreeSet<String> = BTreeSet::new();
        let mut courses_seen: BTreeSet<String> = BTreeSet::new();
        let mut courses_done: BTreeSet<String> = BTreeSet::new();
        let mut shown = BTreeSet::new();
        let mut stack: Vec<String> = init.to_vec();
        while let Some(id) = stack.pop() {
            match self.lib.kind.get(&id) {
                Some(Kind::Course) => {
                    if courses_done.contains(&id) {
                        continue;
                    }
                    if courses_seen.insert(id.clone()) {
                        stack.extend(
                            self.lib
                                .starting_lessons(&id)
                                .into_iter()
                                .filter(|l| self.deps_met(l, f)),
                        );
                    }
                    let c = self.lib.course(&id).unwrap();
                    let all_visited = c.lessons.iter().all(|l| lessons.contains(&l.id));
                    if self.is_black(&id) || !self.meta_pass(&id, f) || all_visited || self.superseded(&id) {
                        courses_done.insert(id.clone());
                        stack.extend(
                            self.lib.dependents(&id).into_iter().filter(|d| self.deps_met(d, f)),
                        );
                    }
                }
                Some(Kind::Lesson) => {
                    if !lessons.insert(id.clone()) {
                        continue;
                    }
                    let c = self.lib.course_of(&id).unwrap();
                    if c.lessons.iter().all(|l| lessons.contains(&l.id)) {
                        stack.push(c.id.clone());
                    }
                    let next: Vec<String> = self
                        .lib
                        .dependents(&id)
                        .into_iter()
                        .filter(|d| self.deps_met(d, f))
                        .collect();
                    if self.is_black(&id)
                        || !self.meta_pass(&id, f)
                        || self.superseded(&id)
                        || self.superseded(&c.id)
                    {
                        stack.extend(next);
                        continue;
                    }
                    let exs = self.valid_exs(&id);
                    let score = if exs.is_empty() {
                        None
                    } else {
                        shown.insert(id.clone());
                        Some(
                            exs.iter().map(|e| f64::from(self.ex_score[e])).sum::<f64>()
                                / exs.len() as f64,
                        )
                    };
                    if self.passes(score, self.avg_trials(&id)) {
                        stack.extend(next);
                    }
                }
                _ => {}
            }
        }
        (lessons, shown)
    }

    /// The lessons shown by a search limited to the given courses.
    pub fn course_closure(&self, courses: &[String]) -> BTreeSet<String> {
        let mut visited: BTreeSet<String> = BTreeSet::new();
        let mut shown = BTreeSet::new();
        let mut stack: Vec<String> = courses
            .iter()
            .flat_map(|c| self.lib.starting_lessons(c))
            .collect();
        while let Some(id) = stack.pop() {
            let Some(c) = self.lib.course_of(&id) else {
                continue;
            };
            if !visited.insert(id.clone()) || !courses.contains(&c.id) {
                continue;
            }
            let next: Vec<String> = self
                .lib
                .dependents(&id)
                .into_iter()
                .filter(|d| self.deps_met(d, None))
                .collect();
            if self.is_black(&id) || self.superseded(&id) || self.superseded(&c.id) {
                stack.extend(next);
                continue;
            }
            let exs = self.valid_exs(&id);
            let score = if exs.is_empty() {
                None
            } else {
                shown.insert(id.clone());
                Some(
                    exs.iter().map(|e| f64::from(self.ex_score[e])).sum::<f64>() / exs.len() as f64,
                )
            };
            if self.passes(score, self.avg_trials(&id)) {
                stack.extend(next);
            }
        }
        shown
    }

    /// The units at the given distance below the unit in the dependency relation, or at the end of
    /// a shorter chain.
    pub fn deps_at_depth(&self, unit: &str, depth: usize) -> BTreeSet<String> {
        let mut out = BTreeSet::new();
        let mut level: BTreeSet<String> = [unit.to_string()].into();
        for d in 0..=depth {
            let mut next = BTreeSet::new();
            for id in level {
                let deps = self.lib.deps(&id);
                if d == depth || deps.is_empty() {
                    out.insert(id);
                } else {
                    next.extend(deps.iter().cloned());
                }
            }
            level = next;
        }
        out.retain(|id| self.lib.kind.contains_key(id));
        out
    }

    /// The model's view of every course and lesson, for reports.
    pub fn explain(&self) -> serde_json::Value {
        let mut out = serde_json::Map::new();
        for id in self.lib.units() {
            if self.lib.kind[&id] == Kind::Exercise {
                continue;
            }
            out.insert(
                id.clone(),
                json!({"score": self.unit_score(&id), "trials": self.avg_trials(&id),
                    "superseded": self.superseded(&id), "satisfied": self.satisfied_effective(&id),
                    "open": self.deps_met(&id, None)}),
            );
        }
        out.into()
    }

    /// Start of a search of the entire library that can be relied on: a course all of whose first
    /// lessons depend on other units is entered through those units.
    pub fn initial_certain(&self, f: Option<&MetaF>) -> Vec<String> {
        let exists = |d: &String| self.lib.kind.contains_key(d);
        self.initial_from(
            f,
            self.starting_courses().into_iter().filter(|c| {
                let first = self.lib.starting_lessons(c);
                first.is_empty()
                    || first.iter().any(|l| {
                        let d = self.lib.deps(l);
                        d.is_empty() || d.iter().any(|d| !exists(d))
                    })
            }),
        )
    }

    /// Start of a search of the entire library.
    pub fn initial(&self, f: Option<&MetaF>) -> Vec<String> {
        self.initial_from(f, self.starting_courses().into_iter())
    }

    fn initial_from(&self, f: Option<&MetaF>, courses: impl Iterator<Item = String>) -> Vec<String> {
        let mut out = vec![];
        for c in courses {
            out.extend(
                self.lib
                    .starting_lessons(&c)
                    .into_iter()
                    .filter(|l| self.deps_met(l, f)),
            );
            out.push(c);
        }
        out
    }
}

/// The oracle's own metadata filter.
#[derive(Clone, Debug)]
pub enum MetaF {
    Course(String, String, bool),
    Lesson(String, String, bool),
    Combined(bool, Vec<MetaF>),
}

impl MetaF {
    fn has(m: Option<&Meta>, k: &str, v: &str, include: bool) -> bool {
        let contains = m
            .and_then(|m| m.get(k))
            .is_some_and(|vs| vs.iter().any(|x| x == v));
        contains == include
    }
    /// A course matches on its own metadata; anything that needs a lesson's metadata to decide is
    /// left to the lessons.
    pub fn course(&self, m: Option<&Meta>) -> bool {
        match self {
            MetaF::Course(k, v, i) => Self::has(m, k, v, *i),
            MetaF::Lesson(..) => false,
            MetaF::Combined(all, fs) => {
                let only_course = fs.iter().all(|f| matches!(f, MetaF::Course(..)));
                if *all {
                    fs.iter().all(|f| f.course(m))
                } else {
                    only_course && fs.iter().any(|f| f.course(m))
                }
            }
        }
    }
    pub fn lesson(&self, c: Option<&Meta>, l: Option<&Meta>) -> bool {
        match self {
            MetaF::Course(k, v, i) => Self::has(c, k, v, *i),
            MetaF::Lesson(k, v, i) => Self::has(l, k, v, *i),
            MetaF::Combined(all, fs) => {
                if *all {
                    fs.iter().all(|f| f.lesson(c, l))
                } else {
                    fs.iter().any(|f| f.lesson(c, l))
                }
            }
        }
    }
    pub fn random(r: &mut crate::rng::Rng, depth: usize) -> MetaF {
        use crate::lib_gen::{META_KEYS, META_VALS};
        let k = (*r.pick(&META_KEYS)).to_string();
        let v = (*r.pick(&META_VALS)).to_string();
        let inc = r.chance(0.65);
        match r.below(if depth == 0 { 2 } else { 4 }) {
            0 => MetaF::Course(k, v, inc),
            1 => MetaF::Lesson(k, v, inc),
            _ => {
                let n = r.below(4);
                MetaF::Combined(
                    r.chance(0.5),
                    (0..n).map(|_| MetaF::random(r, depth - 1)).collect(),
                )
            }
        }
    }
    pub fn to_trane(&self) -> trane::data::filter::KeyValueFilter {
        use trane::data::filter::{FilterOp, FilterType, KeyValueFilter};
        let ft = |i: bool| if i { FilterType::Include } else { FilterType::Exclude };
        match self {
            MetaF::Course(k, v, i) => KeyValueFilter::CourseFilter {
                key: k.clone(),
                value: v.clone(),
                filter_type: ft(*i),
            },
            MetaF::Lesson(k, v, i) => KeyValueFilter::LessonFilter {
                key: k.clone(),
                value: v.clone(),
                filter_type: ft(*i),
            },
            MetaF::Combined(all, fs) => KeyValueFilter::CombinedFilter {
                op: if *all { FilterOp::All } else { FilterOp::Any },
                filters: fs.iter().map(MetaF::to_trane).collect(),
            },
        }
    }
}
