//! Monitors over the scheduler: every batch and every reported score of a generated session is
//! judged against a reference model computed from the library as written, the stores and the public
//! formulas.

use crate::{
    ctx::{Ctx, step},
    lib_gen::{Kind, Lib, Shape},
    rng::Rng,
    world::{Facts, GRADES, MetaF, World, formula_score, grade, u},
};
use chrono::{Duration, Utc};
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};
use trane::{
    Trane,
    blacklist::Blacklist,
    course_library::CourseLibrary,
    data::{
        ExerciseManifest, ExerciseTrial, ExerciseType, MasteryScore, SchedulerOptions,
        filter::{ExerciseFilter, SessionPart, StudySession, StudySessionData, UnitFilter},
    },
    practice_deltas::PracticeDeltas,
    practice_rewards::PracticeRewards,
    practice_stats::PracticeStats,
    review_list::ReviewList,
    scheduler::ExerciseScheduler,
};

pub fn now() -> i64 {
    Utc::now().timestamp()
}

// ------------------------------------------------------------------------------------------------
// Filters with their meaning.

#[derive(Clone, Debug)]
pub enum Filt {
    All,
    Courses(Vec<String>),
    Lessons(Vec<String>),
    Meta(MetaF),
    Review,
    Dependents(Vec<String>),
    Dependencies(Vec<String>, usize),
}

impl Filt {
    pub fn kind(&self) -> &'static str {
        match self {
            Filt::All => "all",
            Filt::Courses(_) => "courses",
            Filt::Lessons(_) => "lessons",
            Filt::Meta(_) => "metadata",
            Filt::Review => "review",
            Filt::Dependents(_) => "dependents",
            Filt::Dependencies(..) => "dependencies",
        }
    }

    pub fn random(r: &mut Rng, lib: &Lib) -> Filt {
        let courses: Vec<String> = lib.courses.iter().map(|c| c.id.clone()).collect();
        let lessons = lib.lessons();
        let pick = |r: &mut Rng, v: &[String], max: usize| -> Vec<String> {
            let mut out = vec![];
            for _ in 0..r.usize_in(1, max) {
                if v.is_empty() || r.chance(0.04) {
                    out.push("no::such::unit".to_string());
                } else {
                    out.push(r.pick(v).clone());
                }
            }
            // The same unit may be listed twice.
            if r.chance(0.15) {
                out.push(out[0].clone());
            }
            out
        };
        let mut both = courses.clone();
        both.extend(lessons.iter().cloned());
        match r.below(12) {
            0..=2 => Filt::All,
            3 | 4 => Filt::Courses(pick(r, &courses, 3)),
            5 | 6 => Filt::Lessons(pick(r, &lessons, 3)),
            7 | 8 => Filt::Meta(MetaF::random(r, 2)),
            9 => Filt::Review,
            10 => Filt::Dependents(pick(r, &both, 2)),
            _ => Filt::Dependencies(pick(r, &both, 2), r.below(4)),
        }
    }

    pub fn unit_filter(&self) -> Option<UnitFilter> {
        let ids = |v: &[String]| v.iter().map(|s| u(s)).collect::<Vec<_>>();
        Some(match self {
            Filt::All => return None,
            Filt::Courses(v) => UnitFilter::CourseFilter { course_ids: ids(v) },
            Filt::Lessons(v) => UnitFilter::LessonFilter { lesson_ids: ids(v) },
            Filt::Meta(m) => UnitFilter::MetadataFilter { filter: m.to_trane() },
            Filt::Review => UnitFilter::ReviewListFilter,
            Filt::Dependents(v) => UnitFilter::Dependents { unit_ids: ids(v) },
            Filt::Dependencies(v, d) => UnitFilter::Dependencies { unit_ids: ids(v), depth: *d },
        })
    }

    /// The request, sometimes wrapped in a study session whose current part carries the filter.
    pub fn request(&self, r: &mut Rng) -> Option<ExerciseFilter> {
        let uf = self.unit_filter();
        if r.chance(0.15) {
            let part = |d: u32| match uf.clone() {
                None => SessionPart::NoFilter { duration: d },
                Some(filter) => SessionPart::UnitFilter { filter, duration: d },
            };
            let other = || SessionPart::UnitFilter {
                filter: UnitFilter::LessonFilter { lesson_ids: vec![] },
                duration: 20,
            };
            let (parts, start) = match r.below(3) {
                0 => (vec![part(30), other()], -10),
                1 => (vec![other(), part(30), other()], -35),
                _ => (vec![other(), part(5)], -500),
            };
            return Some(ExerciseFilter::StudySession(StudySessionData {
                start_time: Utc::now() + Duration::minutes(start) + Duration::seconds(-20),
                definition: StudySession {
                    id: "s".into(),
                    description: String::new(),
                    parts,
                },
            }));
        }
        uf.map(ExerciseFilter::UnitFilter)
    }

    /// Lessons whose exercises may be in the batch and exercises allowed on their own.
    pub fn allowed(&self, f: &Facts, review: &BTreeSet<String>) -> (BTreeSet<String>, BTreeSet<String>) {
        self.selected(f, review, false)
    }

    /// The same, limited to what repeated requests must present.
    pub fn expected(&self, f: &Facts, review: &BTreeSet<String>) -> (BTreeSet<String>, BTreeSet<String>) {
        self.selected(f, review, true)
    }

    fn selected(&self, f: &Facts, review: &BTreeSet<String>, certain: bool) -> (BTreeSet<String>, BTreeSet<String>) {
        let only_lessons = |v: BTreeSet<String>| (v, BTreeSet::new());
        let start = |m: Option<&MetaF>| if certain { f.initial_certain(m) } else { f.initial(m) };
        match self {
            Filt::All => only_lessons(f.closure(&start(None), None).1),
            Filt::Courses(v) => only_lessons(f.course_closure(v)),
            Filt::Lessons(v) => only_lessons(v.iter().cloned().collect()),
            Filt::Meta(m) => only_lessons(f.closure(&start(Some(m)), Some(m)).1),
            Filt::Review => {
                let mut lessons = BTreeSet::new();
                let mut exs = BTreeSet::new();
                for id in review {
                    match f.lib.kind.get(id) {
                        Some(Kind::Course) => lessons.extend(f.course_closure(&[id.clone()])),
                        Some(Kind::Lesson) => {
                            lessons.insert(id.clone());
                        }
                        Some(Kind::Exercise) => {
                            exs.insert(id.clone());
                        }
                        None => {}
                    }
                }
                (lessons, exs)
            }
            Filt::Dependents(v) => only_lessons(f.closure(v, None).1),
            Filt::Dependencies(v, d) => {
                let init: Vec<String> = v.iter().flat_map(|id| f.deps_at_depth(id, *d)).collect();
                only_lessons(f.closure(&init, None).1)
            }
        }
    }

    /// Whether an exercise of the lesson is inside what the filter names, whatever was mastered.
    pub fn confines(&self, f: &Facts, review: &BTreeSet<String>, ex: &str) -> bool {
        let (ci, li, _) = f.lib.ex_at[ex];
        let c = &f.lib.courses[ci];
        let l = &c.lessons[li];
        match self {
            Filt::Courses(v) => v.contains(&c.id),
            Filt::Lessons(v) => v.contains(&l.id),
            Filt::Meta(m) => m.lesson(c.meta.as_ref(), l.meta.as_ref()),
            Filt::Review => review.contains(&c.id) || review.contains(&l.id) || review.contains(ex),
            _ => true,
        }
    }
}

// ------------------------------------------------------------------------------------------------
// Generated sessions.

pub struct Sim {
    pub w: World,
    /// The time the instance was told to take for the present one.
    pub clock: Option<i64>,
    /// Exercises whose last grade was a failure, as the student sees them.
    pub pile: BTreeSet<String>,
    /// Those among them that were never inside the blacklist since.
    pub sure: BTreeSet<String>,
    pub ts: i64,
    pub log: Vec<String>,
}

pub fn random_options(r: &mut Rng) -> SchedulerOptions {
    let mut o = SchedulerOptions::default();
    o.batch_size = *r.pick(&[1usize, 2, 3, 5, 7, 10, 12, 20, 50, 50, 100]);
    o.relearn_fraction = *r.pick(&[0.0f32, 0.1, 0.3, 0.5, 1.0]);
    o.passing_score.min_score = *r.pick(&[1.0f32, 2.2, 3.0, 3.0, 3.6, 3.9]);
    o.passing_score.min_fraction = *r.pick(&[0.3f32, 0.5, 1.0]);
    o.passing_score.min_avg_trials = *r.pick(&[1.0f32, 1.4, 1.8, 1.8]);
    o.superseding_score = *r.pick(&[2.0f32, 3.3, 4.0, 4.0, 4.6]);
    o.num_trials = *r.pick(&[1u32, 3, 20, 20]);
    o.num_deltas = *r.pick(&[1u32, 4, 10]);
    o.num_rewards = *r.pick(&[1u32, 4, 10]);
    o.max_lessons_in_progress = *r.pick(&[1usize, 2, 10, 1000]);
    o
}

impl Sim {
    pub fn new(lib: Lib) -> Result<Sim, String> {
        let w = World::new(lib, None)?;
        Ok(Sim {
            w,
            pile: BTreeSet::new(),
            sure: BTreeSet::new(),
            ts: now() - 40 * 86_400,
            clock: None,
            log: vec![],
        })
    }

    pub fn t(&self) -> &Trane {
        &self.w.trane
    }

    pub fn facts(&self) -> Facts<'_> {
        Facts::from_trane(&self.w.lib, &self.w.trane, self.clock.unwrap_or_else(now))
    }

    pub fn review(&self) -> BTreeSet<String> {
        self.w
            .trane
            .get_review_list_entries()
            .unwrap_or_default()
            .iter()
            .map(ToString::to_string)
            .collect()
    }

    /// When the student began to practise: scores are high when that was lately.
    pub fn began(&mut self, r: &mut Rng) {
        self.ts = now() - *r.pick(&[40i64, 40, 12, 3, 1]) * 86_400;
    }

    pub fn score(&mut self, ex: &str, n: usize) -> Result<(), String> {
        self.ts += 61;
        let ts = self.ts;
        self.score_at(ex, n, ts)
    }

    pub fn score_at(&mut self, ex: &str, n: usize, ts: i64) -> Result<(), String> {
        self.log.push(format!("score {ex} {n}"));
        step(format!("score_exercise {ex} {n}"));
        self.w
            .trane
            .score_exercise(u(ex), grade(n), ts)
            .map_err(|e| format!("{e:#}"))?;
        if n <= 2 {
            self.pile.insert(ex.to_string());
            self.sure.insert(ex.to_string());
            self.forget_blacklisted();
        } else {
            self.pile.remove(ex);
            self.sure.remove(ex);
        }
        Ok(())
    }

    /// Practice the library in a way that leaves lessons in different states.
    pub fn warm(&mut self, r: &mut Rng, failures: bool) -> Result<(), String> {
        let lessons = self.w.lib.lessons();
        let style = r.below(4);
        for l in lessons {
            let exs: Vec<String> = self
                .w
                .lib
                .lesson(&l)
                .unwrap()
                .exs
                .iter()
                .map(|e| e.id.clone())
                .collect();
            let state = match style {
                0 => 2,
                1 => r.below(4),
                2 => r.below(3),
                _ => {
                    if r.chance(0.6) {
                        2
                    } else {
                        1
                    }
                }
            };
            for e in exs {
                match state {
                    0 => {}
                    1 => {
                        for _ in 0..r.below(3) {
                            let lo = if failures { 1 } else { 3 };
                            let g = r.usize_in(lo, 5);
                            self.score(&e, g)?;
                        }
                    }
                    2 => {
                        for _ in 0..r.usize_in(2, 3) {
                            let g = r.usize_in(4, 5);
                            self.score(&e, g)?;
                        }
                    }
                    _ => {
                        let g = if failures { r.usize_in(1, 3) } else { 3 };
                        self.score(&e, g)?;
                    }
                }
            }
        }
        Ok(())
    }

    fn forget_blacklisted(&mut self) {
        let black: BTreeSet<String> = self
            .w
            .trane
            .get_blacklist_entries()
            .unwrap_or_default()
            .iter()
            .map(ToString::to_string)
            .collect();
        let lib = &self.w.lib;
        self.sure.retain(|e| {
            let (c, l, _) = lib.ex_at[e];
            let c = &lib.courses[c];
            !black.contains(e) && !black.contains(&c.id) && !black.contains(&c.lessons[l].id)
        });
    }

    pub fn set_black(&mut self, r: &mut Rng) -> Result<(), String> {
        let res = self.set_black_one(r);
        self.forget_blacklisted();
        res
    }

    fn set_black_one(&mut self, r: &mut Rng) -> Result<(), String> {
        let units = self.w.lib.units();
        if units.is_empty() {
            return Ok(());
        }
        let e = |x: trane::error::BlacklistError| format!("{x:#}");
        match r.below(10) {
            0..=5 => {
                // Lessons and exercises more often than entire courses.
                let id = loop {
                    let id = r.pick(&units).clone();
                    if self.w.lib.kind[&id] != Kind::Course || r.chance(0.35) {
                        break id;
                    }
                };
                self.log.push(format!("blacklist {id}"));
                self.w.trane.add_to_blacklist(u(&id)).map_err(e)
            }
            6..=8 => {
                let cur = self.w.trane.get_blacklist_entries().map_err(e)?;
                if cur.is_empty() {
                    return Ok(());
                }
                let id = *r.pick(&cur);
                self.log.push(format!("unblacklist {id}"));
                self.w.trane.remove_from_blacklist(id).map_err(e)
            }
            _ => {
                let p = crate::checks::stores::random_prefix(r, &units);
                self.log.push(format!("unblacklist prefix {p}"));
                self.w.trane.remove_prefix_from_blacklist(&p).map_err(e)
            }
        }
    }

    pub fn set_review(&mut self, r: &mut Rng) -> Result<(), String> {
        let units = self.w.lib.units();
        if units.is_empty() {
            return Ok(());
        }
        let e = |x: trane::error::ReviewListError| format!("{x:#}");
        let id = if r.chance(0.05) {
            "no::such::unit".to_string()
        } else {
            r.pick(&units).clone()
        };
        if r.chance(0.75) {
            self.log.push(format!("review {id}"));
            self.w.trane.add_to_review_list(u(&id)).map_err(e)
        } else {
            self.log.push(format!("unreview {id}"));
            self.w.trane.remove_from_review_list(u(&id)).map_err(e)
        }
    }

    pub fn repro(&self, extra: Value) -> Value {
        let tail = self.log.len().saturating_sub(60);
        json!({"library": self.w.lib.to_json(), "history_tail": self.log[tail..],
               "options": format!("{:?}", self.w.trane.get_scheduler_options()),
               "what": extra})
    }
}

/// The manifest the library on disk describes for an exercise.
pub fn manifest_ok(lib: &Lib, m: &ExerciseManifest) -> Result<(), String> {
    let Some((ci, li, ei)) = lib.ex_at.get(m.id.as_str()) else {
        return Err("not an exercise of the library".into());
    };
    let c = &lib.courses[*ci];
    let l = &c.lessons[*li];
    let e = &l.exs[*ei];
    if m.lesson_id.as_str() != l.id || m.course_id.as_str() != c.id {
        return Err("wrong lesson or course".into());
    }
    let ty = if e.declarative { ExerciseType::Declarative } else { ExerciseType::Procedural };
    if m.exercise_type != ty || m.name != format!("Exercise {}", e.id) {
        return Err("wrong name or type".into());
    }
    let mut want = Lib::asset_json(e.asset, &e.id);
    if e.asset == 2 {
        want["InlineFlashcardAsset"]["back_content"] = Value::Null;
    }
    let mut got = serde_json::to_value(&m.exercise_asset).map_err(|e| e.to_string())?;
    if e.asset == 2
        && let Some(o) = got["InlineFlashcardAsset"].as_object_mut()
        && !o.contains_key("back_content")
    {
        o.insert("back_content".into(), Value::Null);
    }
    if got != want {
        return Err(format!("wrong asset {got}, the library says {want}"));
    }
    Ok(())
}

fn mine(ctx: &Ctx, p: &[&str]) -> bool {
    // From a serialized library everything has to be as from disk.
    ctx.pid == "C18" || p.contains(&ctx.pid.as_str())
}

/// Requests one batch and judges it with every oracle of the property under check.
pub fn judge_batch(ctx: &mut Ctx, s: &Sim, r: &mut Rng, filt: &Filt, facts: &Facts) -> Vec<String> {
    step(format!("get_exercise_batch {filt:?}"));
    let req = filt.request(r);
    let batch = match s.t().get_exercise_batch(req) {
        Ok(b) => b,
        Err(e) => {
            ctx.violate(
                format!("batch-error:{}", filt.kind()),
                s.repro(json!({"filter": format!("{filt:?}"), "error": format!("{e:#}")})),
            );
            return vec![];
        }
    };
    judge_given(ctx, s, filt, facts, &batch)
}

pub fn judge_given(ctx: &mut Ctx, s: &Sim, filt: &Filt, facts: &Facts, batch: &[ExerciseManifest]) -> Vec<String> {
    let lib = &s.w.lib;
    let o = &facts.options;
    let ids: Vec<String> = batch.iter().map(|m| m.id.to_string()).collect();
    let set: BTreeSet<&String> = ids.iter().collect();
    ctx.count("batches");
    ctx.count(&format!("batches_{}", filt.kind()));
    ctx.add("exercises_scheduled", ids.len() as u64);
    let what = |why: &str, ex: &str| {
        s.repro(json!({"filter": format!("{filt:?}"), "why": why, "exercise": ex, "batch": ids,
            "scores": facts.ex_score, "blacklist": facts.black, "failed": s.pile}))
    };

    // Integrity.
    if mine(ctx, &["C01"]) {
        ctx.count("evaluations");
        if set.len() != ids.len() {
            let dup = ids.iter().find(|i| ids.iter().filter(|j| j == i).count() > 1);
            ctx.violate(
                format!("duplicate:{}", filt.kind()),
                what("the batch contains an exercise twice", dup.map_or("", |d| d)),
            );
        }
        for m in batch {
            if let Err(e) = manifest_ok(lib, m) {
                ctx.violate("manifest", what(&e, m.id.as_str()));
            }
        }
        let extra = (o.batch_size as f32 * o.relearn_fraction) as usize;
        if ids.len() > o.batch_size.max(5) + extra {
            ctx.violate(
                "size",
                what(&format!("{} exercises for a batch size of {}", ids.len(), o.batch_size), ""),
            );
        }
        if o.batch_size > 10 && ids.len() > o.batch_size.min(10) {
            ctx.count("batches_over_ten");
        }
    }
    let known: Vec<&String> = ids.iter().filter(|i| lib.ex_at.contains_key(*i)).collect();

    // Blacklist.
    if mine(ctx, &["C05"]) {
        ctx.count("evaluations");
        for e in &known {
            if facts.inside_black(e) {
                ctx.violate(format!("blacklisted:{}", filt.kind()), what("a blacklisted exercise is scheduled", e));
            }
        }
    }

    let review = s.review();
    let extra_cap = (o.batch_size as f32 * o.relearn_fraction) as usize;

    // Confinement.
    if mine(ctx, &["C04"]) {
        ctx.count("evaluations");
        let out: Vec<&&String> = known
            .iter()
            .filter(|e| !filt.confines(facts, &review, e))
            .collect();
        for e in &out {
            if !s.pile.contains(**e) {
                ctx.violate(
                    format!("outside-filter:{}", filt.kind()),
                    what("an exercise outside the filter that the student did not fail", e),
                );
            }
        }
        if out.len() > extra_cap {
            ctx.violate(
                format!("outside-filter-count:{}", filt.kind()),
                what(&format!("{} exercises outside the filter", out.len()), ""),
            );
        }
        if !matches!(filt, Filt::All) && !known.is_empty() {
            ctx.count("confined_batches");
        }
    }

    let near = facts.near_threshold();
    if near {
        ctx.count("skipped_near_threshold");
    }
    if mine(ctx, &["C02", "C04", "C06", "C03", "C25"]) && !near {
        let (lessons, exs) = filt.allowed(facts, &review);
        let in_allowed = |e: &str| {
            let (c, l, _) = lib.ex_at[e];
            lessons.contains(&lib.courses[c].lessons[l].id) || exs.contains(e)
        };
        if mine(ctx, &["C02", "C25"]) && matches!(filt, Filt::All | Filt::Courses(_) | Filt::Meta(_) | Filt::Dependents(_) | Filt::Dependencies(..)) {
            ctx.count("evaluations");
            let mut gated = 0;
            for e in &known {
                if !in_allowed(e) && !s.pile.contains(*e) {
                    ctx.violate(
                        format!("gate:{}", filt.kind()),
                        what("the prerequisites of the exercise's lesson are not met", e),
                    );
                }
            }
            for l in lib.lessons() {
                if !lessons.contains(&l) {
                    gated += 1;
                }
            }
            ctx.add("lessons_gated", gated);
            ctx.add("lessons_open", lessons.len() as u64);
        }
        if mine(ctx, &["C04"]) {
            for e in &known {
                if !in_allowed(e) && !s.pile.contains(*e) {
                    ctx.violate(
                        format!("not-selected:{}", filt.kind()),
                        what("the exercise is not among those the filter selects", e),
                    );
                }
            }
        }
        if mine(ctx, &["C06"]) && !matches!(filt, Filt::Lessons(_) | Filt::Review) {
            ctx.count("evaluations");
            for e in &known {
                let (c, l, _) = lib.ex_at[*e];
                let c = &lib.courses[c];
                let l = &c.lessons[l];
                if (facts.superseded(&l.id) || facts.superseded(&c.id)) && !s.pile.contains(*e) {
                    ctx.violate(
                        format!("superseded:{}", filt.kind()),
                        what("the exercise belongs to a unit superseded by mastered units", e),
                    );
                }
            }
            for id in lib.lessons().into_iter().chain(lib.courses.iter().map(|c| c.id.clone())) {
                if !lib.superseders(&id).is_empty() {
                    ctx.count(if facts.superseded(&id) { "superseded_units" } else { "not_yet_superseded_units" });
                }
            }
        }
        // Something is offered whenever something may be.
        if mine(ctx, &["C03", "C25"]) {
            ctx.count("evaluations");
            let (lessons, exs) = filt.expected(facts, &review);
            let open: Vec<String> = lessons
                .iter()
                .flat_map(|l| facts.valid_exs(l))
                .chain(exs.iter().filter(|e| !facts.inside_black(e)).cloned())
                .filter(|e| facts.ex_score[e] < 4.4)
                .collect();
            if !open.is_empty() && ids.is_empty() {
                ctx.violate(
                    format!("empty:{}", filt.kind()),
                    what(&format!("{} exercises may be scheduled and none was", open.len()), &open[0]),
                );
            }
            if !open.is_empty() {
                ctx.count("batches_with_open_material");
            }
        }
    }

    // Failed exercises come back.
    if mine(ctx, &["C31", "C25"]) {
        ctx.count("evaluations");
        let valid: BTreeSet<&String> = s.pile.iter().filter(|e| !facts.inside_black(e)).collect();
        let n = extra_cap.min(s.sure.len());
        let back = known.iter().filter(|e| valid.contains(**e)).count();
        if back < n {
            ctx.violate(
                "relearn-missing",
                what(&format!("{back} of the failed exercises are in the batch, {n} are promised"), ""),
            );
        }
        if n > 0 {
            ctx.count("batches_with_relearn");
        }
        let foreign = known.iter().filter(|e| !filt.confines(facts, &review, e)).count();
        if foreign > extra_cap.min(valid.len()) {
            ctx.violate("relearn-too-many", what(&format!("{foreign} exercises from outside the filter"), ""));
        }
        for e in &known {
            if !filt.confines(facts, &review, e) && !valid.contains(*e) {
                ctx.violate("relearn-not-failed", what("not failed and outside of the filter", e));
            }
        }
    }
    ctx.seen(&(filt.kind(), ids.len(), known.iter().map(|e| (*e).clone()).collect::<BTreeSet<_>>()));
    ids
}

fn shape(r: &mut Rng, pid: &str) -> Shape {
    let mut s = Shape::default();
    if r.chance(0.3) {
        s.hostile_ids = false;
    }
    if r.chance(0.25) {
        s.nested_ids = false;
    }
    match r.below(5) {
        0 => {
            s.courses = (4, 9);
            s.lessons = (1, 3);
            s.exs = (1, 2);
        }
        1 => {
            s.courses = (2, 4);
            s.lessons = (3, 6);
        }
        2 => {
            s.exs = (4, 12);
        }
        _ => {}
    }
    if pid == "C06" || r.chance(0.2) {
        s.p_sup = 0.4;
    }
    s
}

/// Random sessions: practice, edits of the blacklist and review list, option changes, reopenings,
/// batches with random filters.
pub fn sessions(ctx: &mut Ctx, frac: f64) {
    let pid = ctx.pid.clone();
    ctx.cases("session", 12, 1_000_000, frac, |ctx, r| {
        let sh = shape(r, &pid);
        let lib = Lib::generate(r, &sh);
        let mut s = match Sim::new(lib) {
            Ok(s) => s,
            Err(e) => panic!("harness: cannot open a valid library: {e}"),
        };
        ctx.count("libraries");
        s.began(r);
        if crate::world::SERIALIZED.with(std::cell::Cell::get) {
            ctx.count("opened_serialized");
        }
        if pid == "C25" || r.chance(0.75) {
            let o = random_options(r);
            if o.verify().is_err() {
                // Judged by C39; they can be set all the same.
                ctx.count("sensible_options_refused");
            }
            s.w.trane.set_scheduler_options(o);
        }
        let failures = pid == "C31" || r.chance(0.5);
        let fail = |e: String| panic!("harness: setup operation failed: {e}");
        if r.chance(0.85) {
            s.warm(r, failures).unwrap_or_else(fail);
        }
        let exs = s.w.lib.exercises();
        if exs.is_empty() {
            return;
        }
        for _ in 0..r.usize_in(6, 16) {
            match r.below(10) {
                0 | 1 => s.set_black(r).unwrap_or_else(fail),
                2 => s.set_review(r).unwrap_or_else(fail),
                3 | 4 => {
                    for _ in 0..r.usize_in(1, 6) {
                        let e = r.pick(&exs).clone();
                        let g = if failures { r.usize_in(1, 5) } else { r.usize_in(3, 5) };
                        s.score(&e, g).unwrap_or_else(fail);
                    }
                }
                5 if pid == "C25" || r.chance(0.3) => {
                    if r.chance(0.25) {
                        s.w.trane.reset_scheduler_options();
                        if s.w.trane.get_scheduler_options() != SchedulerOptions::default() && mine(ctx, &["C25"]) {
                            ctx.violate("reset", s.repro(json!("options differ from the default after a reset")));
                        }
                        s.log.push("reset options".into());
                    } else {
                        let o = random_options(r);
                        s.log.push(format!("options {o:?}"));
                        s.w.trane.set_scheduler_options(o.clone());
                        if s.w.trane.get_scheduler_options() != o && mine(ctx, &["C25"]) {
                            ctx.violate("set", s.repro(json!("options read back differ from those set")));
                        }
                        ctx.count("option_changes");
                    }
                }
                6 if r.chance(0.2) => {
                    let o = s.w.trane.get_scheduler_options();
                    s.w.reopen().unwrap_or_else(fail);
                    s.w.trane.set_scheduler_options(o);
                    // The list of recent failures lives as long as the instance.
                    s.pile.clear();
                    s.sure.clear();
                    s.log.push("reopen".into());
                    ctx.count("reopenings");
                }
                _ => {
                    if r.chance(0.3) {
                        let _ = s.set_review(r);
                    }
                    let filt = Filt::random(r, &s.w.lib);
                    let facts = s.facts();
                    let ids = judge_batch(ctx, &s, r, &filt, &facts);
                    if mine(ctx, &["C25"]) {
                        judge_scores(ctx, &s, &facts);
                    }
                    drop(facts);
                    // Answer part of the batch.
                    for e in ids.iter().take(r.below(6)) {
                        if s.w.lib.ex_at.contains_key(e) {
                            let g = if failures { r.usize_in(1, 5) } else { r.usize_in(3, 5) };
                            s.score(e, g).unwrap_or_else(fail);
                        }
                    }
                }
            }
        }
    });
}

/// Compares every score the instance reports with the reference model.
pub fn judge_scores(ctx: &mut Ctx, s: &Sim, facts: &Facts) {
    let near = facts.near_threshold();
    for id in s.w.lib.units() {
        let ex = s.w.lib.kind[&id] == Kind::Exercise;
        if near && !ex {
            continue;
        }
        step(format!("get_unit_score {id}"));
        let got = match s.t().get_unit_score(u(&id)) {
            Ok(g) => g,
            Err(e) => {
                ctx.violate("score-error", s.repro(json!({"unit": id, "error": format!("{e:#}")})));
                continue;
            }
        };
        let want = facts.unit_score(&id);
        ctx.count("evaluations");
        let same = match (got, want) {
            (Some(g), Some(w)) => (f64::from(g) - w).abs() < 2e-3,
            (None, None) => true,
            // A blacklisted or unknown exercise has no use: either answer is fine.
            _ => false,
        };
        if !same {
            ctx.violate(
                format!("score:{:?}", s.w.lib.kind[&id]),
                s.repro(json!({"unit": id, "reported": got, "from the stores": want,
                    "blacklist": facts.black, "scores": facts.ex_score})),
            );
        }
        if want.is_some_and(|w| w > 0.0) {
            ctx.count("scores_above_zero");
        }
        if want.is_none() {
            ctx.count("units_without_score");
        }
    }
}

// ------------------------------------------------------------------------------------------------
// The properties.

pub fn batch_integrity(ctx: &mut Ctx) {
    ctx.rule = "distinct (filter kind, batch contents)".into();
    ctx.assumptions.push("libraries of up to about 50 lessons; default mastery windows".into());
    sessions(ctx, 0.9);
    big_library(ctx, 1.0);
    ctx.require("batches", 100);
    ctx.require("batches_over_ten", 3);
}

pub fn gating(ctx: &mut Ctx) {
    ctx.rule = "distinct (filter kind, batch contents)".into();
    ctx.assumptions.push("scores come from the stores through the public formulas; states with a score within 1e-4 of a threshold are not judged".into());
    sessions(ctx, 0.4);
    bridging(ctx, 0.75);
    coverage(ctx, 1.0);
    ctx.require("batches", 100);
    ctx.require("bridged_batches", 50);
    ctx.require("lessons_gated", 50);
    ctx.require("lessons_open", 50);
}

/// Densely connected libraries, about half of whose units a metadata filter takes out, in random
/// states of mastery: what lies behind the filtered-out units decides what is offered.
fn bridging(ctx: &mut Ctx, frac: f64) {
    ctx.cases("bridging", 10, 1_000_000, frac, |ctx, r| {
        let sh = Shape {
            courses: (3, 6),
            lessons: (1, 3),
            exs: (1, 2),
            p_course_dep: 0.6,
            p_course_on_lesson: 0.25,
            p_lesson_dep: 0.6,
            p_cross_lesson: *r.pick(&[0.2, 0.6]),
            p_missing: 0.05,
            p_sup: *r.pick(&[0.0, 0.15]),
            p_meta: 0.0,
            p_empty: 0.05,
            hostile_ids: false,
            ..Shape::default()
        };
        let mut lib = Lib::generate(r, &sh);
        let p = *r.pick(&[0.35, 0.5, 0.65]);
        let tag = |r: &mut Rng| {
            r.chance(p)
                .then(|| [("level".to_string(), vec!["easy".to_string()])].into_iter().collect())
        };
        for c in &mut lib.courses {
            c.meta = tag(r);
            for l in &mut c.lessons {
                l.meta = tag(r);
            }
        }
        let mut s = Sim::new(lib).unwrap_or_else(|e| panic!("harness: cannot open a valid library: {e}"));
        ctx.count("libraries");
        let fail = |e: String| panic!("harness: setup operation failed: {e}");
        // Nothing is known at first; lessons are then mastered one after the other.
        let mut todo = s.w.lib.lessons();
        r.shuffle(&mut todo);
        let basic = |key: &str, value: &str, f: fn(String, String, bool) -> MetaF, inc: bool| f(key.into(), value.into(), inc);
        let lesson = |inc| basic("level", "easy", MetaF::Lesson, inc);
        let course = |inc| basic("level", "easy", MetaF::Course, inc);
        loop {
            for _ in 0..r.usize_in(2, 4) {
                let f = match r.below(6) {
                    0 | 1 => MetaF::Combined(false, vec![lesson(true), course(true)]),
                    2 => lesson(true),
                    3 => course(true),
                    4 => MetaF::Combined(true, vec![lesson(true), course(r.chance(0.7))]),
                    _ => MetaF::Combined(false, vec![lesson(r.chance(0.5)), course(r.chance(0.5))]),
                };
                let filt = Filt::Meta(f);
                let facts = s.facts();
                if !judge_batch(ctx, &s, r, &filt, &facts).is_empty() {
                    ctx.count("bridged_batches");
                }
            }
            if todo.is_empty() {
                break;
            }
            for _ in 0..r.usize_in(1, 3) {
                let Some(l) = todo.pop() else { break };
                let exs: Vec<String> = s.w.lib.lesson(&l).unwrap().exs.iter().map(|e| e.id.clone()).collect();
                for e in exs {
                    for _ in 0..3 {
                        s.score(&e, 5).unwrap_or_else(fail);
                    }
                }
            }
            if r.chance(0.15) {
                s.set_black(r).unwrap_or_else(fail);
            }
        }
    });
}

pub fn confinement(ctx: &mut Ctx) {
    ctx.rule = "distinct (filter kind, batch contents)".into();
    sessions(ctx, 0.45);
    coverage(ctx, 0.7);
    dense_coverage(ctx, 1.0);
    ctx.require("confined_batches", 100);
    ctx.require("cases_dense", 6);
}

pub fn blacklist(ctx: &mut Ctx) {
    ctx.rule = "distinct (filter kind, batch contents)".into();
    combinations(ctx, 0.35);
    sessions(ctx, 0.8);
    unblacklist(ctx, 1.0);
    ctx.require("batches", 100);
    ctx.require("combinations_on_review_list", 300);
}

/// Small libraries with any combination of blacklisted, listed for review, failed and practised units,
/// and a request of every kind for each.
fn combinations(ctx: &mut Ctx, frac: f64) {
    ctx.cases("combinations", 60, 1_000_000, frac, |ctx, r| {
        let sh = Shape {
            courses: (1, 3),
            lessons: (1, 2),
            exs: (1, 2),
            p_missing: 0.0,
            p_empty: 0.0,
            p_sup: if r.chance(0.2) { 0.3 } else { 0.0 },
            hostile_ids: false,
            nested_ids: r.chance(0.3),
            ..Default::default()
        };
        let lib = Lib::generate(r, &sh);
        let mut s = Sim::new(lib).unwrap_or_else(|e| panic!("harness: {e}"));
        let courses: Vec<String> = s.w.lib.courses.iter().map(|c| c.id.clone()).collect();
        let (lessons, exs) = (s.w.lib.lessons(), s.w.lib.exercises());
        let all: Vec<String> = [&courses[..], &lessons[..], &exs[..]].concat();
        for _ in 0..6 {
            step("change the lists");
            // Grades, before or after the units are blacklisted.
            let mut practise = |s: &mut Sim, r: &mut Rng| {
                for e in r.subset(&exs, 0.4) {
                    let grade = match r.below(3) {
                        0 => MasteryScore::One,
                        1 => MasteryScore::Three,
                        _ => MasteryScore::Five,
                    };
                    s.ts += 1;
                    s.w.trane.score_exercise(u(&e), grade.clone(), s.ts).unwrap_or_else(|x| panic!("harness: {x:#}"));
                    s.log.push(format!("score {e} {grade:?}"));
                }
            };
            let before = r.chance(0.5);
            if before {
                practise(&mut s, r);
            }
            for x in &all {
                let id = u(x);
                let t = &mut s.w.trane;
                match r.below(8) {
                    0 => t.add_to_blacklist(id).unwrap_or_else(|x| panic!("harness: {x:#}")),
                    1 => t.remove_from_blacklist(id).unwrap_or_else(|x| panic!("harness: {x:#}")),
                    2..=4 => t.add_to_review_list(id).unwrap_or_else(|x| panic!("harness: {x:#}")),
                    5 => t.remove_from_review_list(id).unwrap_or_else(|x| panic!("harness: {x:#}")),
                    _ => (),
                }
            }
            if !before {
                practise(&mut s, r);
            }
            let black: BTreeSet<String> =
                s.w.trane.get_blacklist_entries().unwrap_or_default().iter().map(ToString::to_string).collect();
            let review = s.review();
            s.log.push(format!("blacklist {black:?}, review {review:?}"));
            let mut hidden: BTreeSet<String> = BTreeSet::new();
            for c in &s.w.lib.courses {
                for l in &c.lessons {
                    for e in &l.exs {
                        if black.contains(&c.id) || black.contains(&l.id) || black.contains(&e.id) {
                            hidden.insert(e.id.clone());
                            let listed = [&c.id, &l.id, &e.id].iter().any(|x| review.contains(*x) && !black.contains(*x));
                            ctx.count(if listed { "combinations_on_review_list" } else { "combinations_blacklisted" });
                        }
                    }
                }
            }
            let requests = [
                Filt::All,
                Filt::Review,
                Filt::Courses(courses.clone()),
                Filt::Lessons(lessons.clone()),
                Filt::Meta(MetaF::random(r, 1)),
                Filt::Dependents(courses.clone()),
                Filt::Dependencies(lessons.clone(), r.below(3)),
                Filt::Review,
                Filt::Lessons(r.subset(&lessons, 0.5)),
            ];
            for f in requests {
                step(format!("request {}", f.kind()));
                let req = f.request(r);
                let batch = match s.w.trane.get_exercise_batch(req) {
                    Ok(b) => b,
                    Err(e) => {
                        ctx.violate(format!("batch-error:{}", f.kind()), s.repro(json!({"error": format!("{e:#}")})));
                        continue;
                    }
                };
                ctx.count("evaluations");
                ctx.count("combination_batches");
                if let Some(m) = batch.iter().find(|m| hidden.contains(m.id.as_str())) {
                    ctx.violate(
                        format!("blacklisted:{}", f.kind()),
                        s.repro(json!({"filter": format!("{f:?}"), "exercise": m.id, "blacklist": black, "review": review})),
                    );
                }
            }
        }
    });
}

pub fn superseding(ctx: &mut Ctx) {
    ctx.rule = "distinct (filter kind, batch contents)".into();
    sessions(ctx, 0.7);
    coverage(ctx, 1.0);
    ctx.require("superseded_units", 50);
    ctx.require("not_yet_superseded_units", 50);
}

pub fn relearn(ctx: &mut Ctx) {
    ctx.rule = "distinct (filter kind, batch contents)".into();
    sessions(ctx, 0.8);
    relearn_rotation(ctx, 1.0);
    ctx.require("batches_with_relearn", 50);
}

pub fn options(ctx: &mut Ctx) {
    ctx.rule = "distinct (filter kind, batch contents)".into();
    sessions(ctx, 0.55);
    thresholds(ctx, 0.85);
    window_mix(ctx, 1.0);
    ctx.require("straddling_options", 20);
    ctx.require("option_changes", 20);
    ctx.require("batches", 100);
}

pub fn progress(ctx: &mut Ctx) {
    ctx.rule = "distinct (filter kind, batch contents)".into();
    ctx.assumptions.push("the student answers every exercise perfectly; libraries without implicit cycles".into());
    sessions(ctx, 0.25);
    coverage(ctx, 0.5);
    student(ctx, 1.0);
    ctx.require("batches", 100);
    ctx.require("students_finished", 5);
}

/// In a fixed state of practice, every lesson the filter opens is presented if batches are requested
/// again and again, and no other lesson ever is.
pub fn coverage(ctx: &mut Ctx, frac: f64) {
    cover(ctx, frac, false);
}

/// The same in densely connected libraries, where paths of different lengths lead to a unit, with
/// filters that search the graph from named units.
pub fn dense_coverage(ctx: &mut Ctx, frac: f64) {
    cover(ctx, frac, true);
}

fn cover(ctx: &mut Ctx, frac: f64, dense: bool) {
    let pid = ctx.pid.clone();
    ctx.cases(if dense { "dense" } else { "coverage" }, 6, 1_000_000, frac, |ctx, r| {
        let mut sh = shape(r, &pid);
        if dense {
            sh.courses = (1, 3);
            sh.lessons = (3, 7);
            sh.exs = (1, 2);
            sh.p_lesson_dep = 0.9;
            sh.p_cross_lesson = 0.5;
            sh.p_course_dep = 0.7;
            sh.p_sup = 0.05;
            sh.p_missing = 0.03;
        }
        let lib = Lib::generate(r, &sh);
        let mut s = Sim::new(lib).unwrap_or_else(|e| panic!("harness: {e}"));
        let fail = |e: String| panic!("harness: setup operation failed: {e}");
        let mut o = random_options(r);
        o.max_lessons_in_progress = 100_000;
        o.batch_size = *r.pick(&[20usize, 50]);
        s.w.trane.set_scheduler_options(o);
        s.began(r);
        s.warm(r, false).unwrap_or_else(fail);
        for _ in 0..r.below(4) {
            s.set_black(r).unwrap_or_else(fail);
        }
        for _ in 0..r.below(4) {
            s.set_review(r).unwrap_or_else(fail);
        }
        let facts = s.facts();
        if facts.near_threshold() {
            ctx.count("skipped_near_threshold");
            return;
        }
        let mut filt = Filt::random(r, &s.w.lib);
        if dense {
            let mut units = s.w.lib.units();
            units.retain(|u| s.w.lib.kind[u] != Kind::Exercise);
            r.shuffle(&mut units);
            units.truncate(r.usize_in(1, 2));
            filt = if r.chance(0.8) { Filt::Dependencies(units, r.usize_in(1, 4)) } else { Filt::Dependents(units) };
        }
        covered(ctx, &s, r, &filt, &facts, 1500);
    });
}

/// Requests batches until everything the filter must offer was seen.
fn covered(ctx: &mut Ctx, s: &Sim, r: &mut Rng, filt: &Filt, facts: &Facts, most: u64) {
    let (lessons, exs) = filt.expected(&facts, &s.review());
    let want: BTreeSet<String> = lessons
        .iter()
        .filter(|l| facts.valid_exs(l).iter().any(|e| facts.ex_score[e] < 4.4))
        .cloned()
        .collect();
    let want_exs: BTreeSet<String> = exs
        .iter()
        .filter(|e| !facts.inside_black(e) && facts.ex_score[*e] < 4.4)
        .cloned()
        .collect();
    let mut seen: BTreeSet<String> = BTreeSet::new();
    let mut seen_exs: BTreeSet<String> = BTreeSet::new();
    let mut rounds = 0;
    for i in 0..most {
        let ids = judge_batch(ctx, s, r, filt, facts);
        for e in ids {
            if let Some(l) = s.w.lib.lesson_of(&e) {
                seen.insert(l.id.clone());
            }
            seen_exs.insert(e);
        }
        rounds = i + 1;
        if want.is_subset(&seen) && want_exs.is_subset(&seen_exs) {
            break;
        }
    }
    ctx.max("max_rounds_to_cover", rounds);
    ctx.count("evaluations");
    ctx.add("lessons_expected", want.len() as u64);
    let missing: Vec<&String> = want
        .difference(&seen)
        .chain(want_exs.difference(&seen_exs))
        .collect();
    if !missing.is_empty() {
        ctx.violate(
            format!("never-presented:{}", filt.kind()),
            s.repro(json!({"filter": format!("{filt:?}"), "missing": missing,
                "scores": facts.ex_score, "blacklist": facts.black, "rounds": rounds,
                "presented": seen, "model": facts.explain()})),
        );
    }
}

/// Options whose thresholds lie just above or just below what units actually have, set one after
/// the other in a fixed state of practice: each change must take effect.
fn thresholds(ctx: &mut Ctx, frac: f64) {
    ctx.cases("thresholds", 6, 1_000_000, frac, |ctx, r| {
        let mut sh = shape(r, "C25");
        sh.courses = (2, 4);
        sh.lessons = (1, 4);
        sh.exs = (1, 3);
        sh.p_sup = 0.4;
        let mut s = Sim::new(Lib::generate(r, &sh)).unwrap_or_else(|e| panic!("harness: {e}"));
        let failures = r.chance(0.5);
        s.began(r);
        s.warm(r, failures).unwrap_or_else(|e| panic!("harness: {e}"));
        for _ in 0..4 {
            let mut o = SchedulerOptions::default();
            o.batch_size = *r.pick(&[20usize, 50]);
            o.max_lessons_in_progress = 100_000;
            let ids = s.w.lib.units();
            {
                let f = s.facts();
                let mut value = |lo: f64, hi: f64, r: &mut Rng, of: &dyn Fn(&String) -> Option<f64>| {
                    let v: Vec<f64> = ids.iter().filter_map(of).filter(|v| *v > lo && *v < hi).collect();
                    (!v.is_empty()).then(|| (*r.pick(&v) + if r.chance(0.5) { 0.02 } else { -0.02 }).clamp(lo, hi) as f32)
                };
                let score = |id: &String| f.unit_score(id);
                let trials = |id: &String| f.avg_trials(id);
                let which = r.below(8);
                if which != 0
                    && let Some(v) = value(0.5, 4.95, r, &score)
                {
                    o.superseding_score = v;
                }
                if which % 3 == 1
                    && let Some(v) = value(0.5, 3.9, r, &score)
                {
                    o.passing_score.min_score = v;
                }
                if which % 4 == 2
                    && let Some(v) = value(1.02, 9.0, r, &trials)
                {
                    o.passing_score.min_avg_trials = v;
                }
            }
            if o.verify().is_err() {
                ctx.count("options_not_valid");
                continue;
            }
            s.log.push(format!("options {o:?}"));
            s.w.trane.set_scheduler_options(o);
            let facts = s.facts();
            if facts.near_threshold() {
                ctx.count("skipped_near_threshold");
                continue;
            }
            ctx.count("straddling_options");
            judge_scores(ctx, &s, &facts);
            let filt = Filt::random(r, &s.w.lib);
            covered(ctx, &s, r, &filt, &facts, 600);
            if ctx.stop() {
                return;
            }
        }
    });
}

/// A perfect student eventually sees every lesson that is not blacklisted or superseded.
pub fn student(ctx: &mut Ctx, frac: f64) {
    ctx.cases("student", 6, 1_000_000, frac, |ctx, r| {
        let sh = shape(r, "C03");
        let lib = Lib::generate(r, &sh);
        let mut s = Sim::new(lib).unwrap_or_else(|e| panic!("harness: {e}"));
        let fail = |e: String| panic!("harness: setup operation failed: {e}");
        if r.chance(0.5) {
            let mut o = SchedulerOptions::default();
            o.batch_size = *r.pick(&[5usize, 10, 20, 50]);
            o.max_lessons_in_progress = *r.pick(&[1usize, 2, 10]);
            s.w.trane.set_scheduler_options(o);
        }
        for _ in 0..r.below(3) {
            s.set_black(r).unwrap_or_else(fail);
        }
        let mut seen: BTreeSet<String> = BTreeSet::new();
        let mut pending: BTreeSet<String> = {
            let f = s.facts();
            s.w.lib
                .lessons()
                .into_iter()
                .filter(|l| !f.valid_exs(l).is_empty())
                .collect()
        };
        let total = pending.len();
        let mut rounds = 0;
        let mut stalled = false;
        while !pending.is_empty() && rounds < 1500 {
            rounds += 1;
            step("student batch");
            let b = match s.t().get_exercise_batch(None) {
                Ok(b) => b,
                Err(e) => {
                    ctx.violate("batch-error:all", s.repro(json!(format!("{e:#}"))));
                    return;
                }
            };
            ctx.count("batches");
            if b.is_empty() {
                stalled = true;
            }
            let mut any_new = false;
            for m in b {
                let e = m.id.to_string();
                if let Some(l) = s.w.lib.lesson_of(&e) {
                    let id = l.id.clone();
                    any_new |= pending.remove(&id);
                    seen.insert(id);
                }
                let ts = now() - 600 + rounds;
                s.score_at(&e, 5, ts).unwrap_or_else(fail);
            }
            if !any_new {
                // Superseded units are not presented.
                let f = s.facts();
                pending.retain(|l| {
                    let c = s.w.lib.course_of(l).unwrap();
                    !f.superseded(l) && !f.superseded(&c.id)
                });
                if stalled {
                    break;
                }
            }
        }
        ctx.max("max_rounds_to_finish", rounds as u64);
        ctx.count("evaluations");
        ctx.count("students_finished");
        ctx.seen(&("student", total, rounds));
        if !pending.is_empty() {
            let f = s.facts();
            let black = f.black.clone();
            let scores = f.ex_score.clone();
            ctx.violate(
                if stalled { "student-stalled" } else { "student-starved" },
                s.repro(json!({"lessons never presented": pending, "rounds": rounds, "blacklist": black,
                    "scores": scores})),
            );
        }
    });
}

/// What is removed from the blacklist can be scheduled again.
fn unblacklist(ctx: &mut Ctx, frac: f64) {
    ctx.cases("unblacklist", 4, 1_000_000, frac, |ctx, r| {
        let mut sh = shape(r, "C05");
        sh.p_sup = 0.0;
        sh.courses = (1, 3);
        let lib = Lib::generate(r, &sh);
        let mut s = Sim::new(lib).unwrap_or_else(|e| panic!("harness: {e}"));
        let fail = |e: String| panic!("harness: setup operation failed: {e}");
        let mut o = SchedulerOptions::default();
        o.max_lessons_in_progress = 100_000;
        s.w.trane.set_scheduler_options(o);
        if r.chance(0.5) {
            s.warm(r, true).unwrap_or_else(fail);
        }
        let lessons = s.w.lib.lessons();
        if lessons.is_empty() {
            return;
        }
        let l = r.pick(&lessons).clone();
        let exs: Vec<String> = s.w.lib.lesson(&l).unwrap().exs.iter().map(|e| e.id.clone()).collect();
        if exs.is_empty() {
            return;
        }
        let target = match r.below(3) {
            0 => l.clone(),
            1 => s.w.lib.course_of(&l).unwrap().id.clone(),
            _ => r.pick(&exs).clone(),
        };
        let filt = Filt::Lessons(vec![l.clone()]);
        let e = |x: trane::error::BlacklistError| -> () { panic!("harness: {x:#}") };
        s.w.trane.add_to_blacklist(u(&target)).unwrap_or_else(e);
        s.log.push(format!("blacklist {target}"));
        {
            let f = s.facts();
            for _ in 0..5 {
                judge_batch(ctx, &s, r, &filt, &f);
                judge_batch(ctx, &s, r, &Filt::All, &f);
            }
        }
        if r.chance(0.5) {
            s.w.trane.remove_from_blacklist(u(&target)).unwrap_or_else(e);
        } else {
            s.w.trane.remove_prefix_from_blacklist(&target).unwrap_or_else(e);
        }
        s.log.push(format!("unblacklist {target}"));
        let f = s.facts();
        let avg = exs.iter().map(|e| f64::from(f.ex_score[e])).sum::<f64>() / exs.len() as f64;
        let want: BTreeSet<String> = exs.iter().filter(|e| f.ex_score[*e] < 4.4).cloned().collect();
        let mut seen = BTreeSet::new();
        let mut n = 0;
        for i in 0..1500 {
            seen.extend(judge_batch(ctx, &s, r, &filt, &f));
            n = i;
            if want.is_subset(&seen) {
                break;
            }
        }
        ctx.max("max_rounds_to_return", n);
        ctx.count("evaluations");
        let missing: Vec<&String> = want.difference(&seen).collect();
        if !missing.is_empty() {
            ctx.violate(
                "never-returns",
                s.repro(json!({"removed from the blacklist": target, "never presented": missing, "average": avg})),
            );
        }
    });
}

/// Every failed exercise is presented again sooner or later, and stops being forced once passed.
fn relearn_rotation(ctx: &mut Ctx, frac: f64) {
    ctx.cases("relearn", 4, 1_000_000, frac, |ctx, r| {
        let mut sh = shape(r, "C31");
        sh.courses = (2, 4);
        let lib = Lib::generate(r, &sh);
        let mut s = Sim::new(lib).unwrap_or_else(|e| panic!("harness: {e}"));
        let fail = |e: String| panic!("harness: setup operation failed: {e}");
        let mut o = SchedulerOptions::default();
        o.batch_size = *r.pick(&[10usize, 20, 50]);
        o.relearn_fraction = *r.pick(&[0.1f32, 0.2, 0.5]);
        s.w.trane.set_scheduler_options(o);
        let exs = s.w.lib.exercises();
        if exs.is_empty() {
            return;
        }
        let failed: BTreeSet<String> = r.subset(&exs, 0.3).into_iter().collect();
        for e in &failed {
            if r.chance(0.3) {
                s.score(e, 5).unwrap_or_else(fail);
            }
            let g = r.usize_in(1, 2);
            s.score(e, g).unwrap_or_else(fail);
        }
        // A filter that selects nothing: only the failed exercises are left.
        let filt = Filt::Lessons(vec!["no::such::unit".into()]);
        let mut seen = BTreeSet::new();
        {
            let f = s.facts();
            for _ in 0..2000 {
                seen.extend(judge_batch(ctx, &s, r, &filt, &f));
                if failed.is_subset(&seen) {
                    break;
                }
            }
        }
        ctx.count("evaluations");
        ctx.add("failed_exercises", failed.len() as u64);
        let missing: Vec<&String> = failed.difference(&seen).collect();
        if !missing.is_empty() {
            ctx.violate("relearn-never", s.repro(json!({"failed and never presented again": missing})));
        }
        // Pass some of them: they are not forced any more.
        let passed: Vec<String> = failed.iter().filter(|_| r.chance(0.5)).cloned().collect();
        for e in &passed {
            let g = r.usize_in(3, 5);
            s.score(e, g).unwrap_or_else(fail);
        }
        let f = s.facts();
        for _ in 0..20 {
            judge_batch(ctx, &s, r, &filt, &f);
        }
    });
}

/// A library large enough that full batches are drawn, with many lessons and dense relations.
fn big_library(ctx: &mut Ctx, frac: f64) {
    ctx.cases("big", 1, 1_000_000, frac, |ctx, r| {
        let sh = Shape {
            courses: (10, 25),
            lessons: (2, 8),
            exs: (1, 15),
            ..Default::default()
        };
        let lib = Lib::generate(r, &sh);
        let mut s = Sim::new(lib).unwrap_or_else(|e| panic!("harness: {e}"));
        let mut o = random_options(r);
        o.batch_size = *r.pick(&[3usize, 12, 30, 50, 50]);
        s.w.trane.set_scheduler_options(o);
        if r.chance(0.7) {
            s.warm(r, true).unwrap_or_else(|e| panic!("harness: {e}"));
        }
        let facts = s.facts();
        for _ in 0..12 {
            let filt = Filt::random(r, &s.w.lib);
            judge_batch(ctx, &s, r, &filt, &facts);
        }
        ctx.count("big_libraries");
    });
}

// ------------------------------------------------------------------------------------------------
// C07: the scores reported are those the stores justify.

pub fn cache(ctx: &mut Ctx) {
    ctx.rule = "distinct (operation, unit scores after it)".into();
    ctx.assumptions.push("scores are compared with a tolerance of 2e-3, which covers the decay during a run; lesson and course scores are not judged when a score is within 1e-4 of the superseding threshold".into());
    ctx.cases("cache", 12, 1_000_000, 1.0, |ctx, r| {
        let mut sh = shape(r, "C07");
        sh.p_sup = 0.25;
        sh.p_enc = 0.4;
        let lib = Lib::generate(r, &sh);
        let mut s = Sim::new(lib).unwrap_or_else(|e| panic!("harness: {e}"));
        let fail = |e: String| panic!("harness: setup operation failed: {e}");
        ctx.count("libraries");
        if r.chance(0.5) {
            let o = random_options(r);
            s.w.trane.set_scheduler_options(o);
        }
        s.began(r);
        if r.chance(0.7) {
            s.warm(r, true).unwrap_or_else(fail);
        }
        let exs = s.w.lib.exercises();
        let units = s.w.lib.units();
        if exs.is_empty() {
            return;
        }
        for _ in 0..r.usize_in(5, 12) {
            // Fill the caches, in part or entirely.
            for id in &units {
                if r.chance(0.8) {
                    let _ = s.t().get_unit_score(u(id));
                }
            }
            if r.chance(0.3) {
                let _ = s.t().get_exercise_batch(None);
            }
            let op = r.below(16);
            step(format!("cache op {op}"));
            match op {
                0..=4 => {
                    for _ in 0..r.usize_in(1, 3) {
                        let e = r.pick(&exs).clone();
                        let g = r.usize_in(1, 5);
                        s.score(&e, g).unwrap_or_else(fail);
                    }
                }
                5..=7 => s.set_black(r).unwrap_or_else(fail),
                8 => {
                    let e = r.pick(&exs).clone();
                    s.ts += 61;
                    let t = ExerciseTrial { exercise_id: u(&e), score: r.usize_in(1, 5) as f32, timestamp: s.ts };
                    s.log.push(format!("record trial {e}"));
                    s.w.trane.record_exercise_scores(&[t]).expect("record");
                }
                9 => {
                    let p = crate::checks::stores::random_prefix(r, &units);
                    s.log.push(format!("remove prefix {p}"));
                    match r.below(3) {
                        0 => s.w.trane.remove_scores_with_prefix(&p).expect("remove"),
                        1 => s.w.trane.remove_deltas_with_prefix(&p).expect("remove"),
                        _ => s.w.trane.remove_rewards_with_prefix(&p).expect("remove"),
                    }
                }
                10 => {
                    let n = r.below(3) as u32;
                    s.log.push(format!("trim {n}"));
                    match r.below(3) {
                        0 => s.w.trane.trim_scores(n).expect("trim"),
                        1 => s.w.trane.trim_deltas(n).expect("trim"),
                        _ => s.w.trane.trim_rewards(n).expect("trim"),
                    }
                }
                11 => {
                    let lc: Vec<&String> = units.iter().filter(|i| s.w.lib.kind[*i] != Kind::Exercise).collect();
                    let id = (*r.pick(&lc)).clone();
                    s.ts += 90_000;
                    if s.ts > now() {
                        s.ts = now();
                    }
                    let rw = trane::data::UnitReward {
                        unit_id: u(&id),
                        value: *r.pick(&[-1.0f32, -0.5, 0.4, 0.8]),
                        weight: *r.pick(&[0.3f32, 0.6, 1.0]),
                        timestamp: s.ts,
                    };
                    s.log.push(format!("record reward {id}"));
                    s.w.trane.record_unit_rewards(&[rw]).expect("record");
                }
                12 => {
                    let o = random_options(r);
                    s.log.push(format!("options {o:?}"));
                    s.w.trane.set_scheduler_options(o);
                }
                13 => {
                    s.clock = r.chance(0.8).then(|| now() + r.range(-20, 400) * 86_400);
                    s.log.push(format!("override the time: {:?}", s.clock));
                    s.w.trane.override_current_timestamp(s.clock);
                    ctx.count("overrides");
                }
                _ => {
                    let e = r.pick(&exs).clone();
                    s.ts += 61;
                    let d = trane::data::ExerciseDelta { exercise_id: u(&e), delta: *r.pick(&[-2.0f32, -0.5, 0.5, 1.5]), timestamp: s.ts };
                    s.log.push(format!("record delta {e}"));
                    s.w.trane.record_exercise_deltas(&[d]).expect("record");
                }
            }
            ctx.count("operations");
            let facts = s.facts();
            judge_scores(ctx, &s, &facts);
            let dig: Vec<(String, u64)> = facts.ex_score.iter().map(|(k, v)| (k.clone(), u64::from(v.to_bits()))).collect();
            ctx.seen(&(op, dig));
            // A second instance over the same stores, with nothing cached, agrees.
            if r.chance(0.15) && !facts.near_threshold() {
                let mut fresh = s.w.fresh().unwrap_or_else(|e| panic!("harness: {e}"));
                fresh.set_scheduler_options(s.t().get_scheduler_options());
                fresh.override_current_timestamp(s.clock);
                for id in &units {
                    let a = s.t().get_unit_score(u(id)).ok().flatten();
                    let b = fresh.get_unit_score(u(id)).ok().flatten();
                    let ok = match (a, b) {
                        (Some(a), Some(b)) => (a - b).abs() < 2e-3,
                        (None, None) => true,
                        _ => false,
                    };
                    ctx.count("evaluations");
                    ctx.count("fresh_comparisons");
                    if !ok {
                        ctx.violate("stale", s.repro(json!({"unit": id, "reported": a, "fresh instance": b})));
                    }
                }
            }
        }
    });
    ctx.require("evaluations", 1000);
    ctx.require("scores_above_zero", 200);
    ctx.require("units_without_score", 20);
    ctx.require("fresh_comparisons", 100);
    ctx.require("overrides", 20);
}

// ------------------------------------------------------------------------------------------------
// C11, second half: what scoring records.

/// Scoring an exercise records one trial with the grade given and, when it was practised before, one
/// delta: the grade minus the score the exercise had.
pub fn delta_on_score(ctx: &mut Ctx, frac: f64) {
    ctx.cases("scoring", 6, 1_000_000, frac, |ctx, r| {
        let mut sh = Shape::default();
        sh.p_enc = 0.5;
        let lib = Lib::generate(r, &sh);
        let mut s = Sim::new(lib).unwrap_or_else(|e| panic!("harness: {e}"));
        let exs = s.w.lib.exercises();
        if exs.is_empty() {
            return;
        }
        for _ in 0..25 {
            let e = r.pick(&exs).clone();
            let g = r.usize_in(1, 5);
            if r.chance(0.15) {
                // Rewards as strong as they come, which can bring a score down to nothing.
                let l = s.w.lib.lesson_of(&e).unwrap().id.clone();
                let value = *r.pick(&[-6.0f32, -3.0, -1.0, 1.0, 6.0]);
                let at = now() - r.range(0, 5 * 86_400);
                let rw = [trane::data::UnitReward { unit_id: u(&l), value, weight: 5.0, timestamp: at }];
                s.w.trane.record_unit_rewards(&rw).unwrap_or_else(|e| panic!("harness: {e}"));
                s.log.push(format!("reward {l} {value} at {at}"));
            }
            s.ts += 61;
            let ts = s.ts;
            let o = s.t().get_scheduler_options();
            let (before, trials) = formula_score(&s.w.lib, s.t(), s.t(), s.t(), &e, &o, now());
            let d0 = all_deltas(s.t(), &exs);
            let t0 = all_trials(s.t(), &exs);
            s.score_at(&e, g, ts).unwrap_or_else(|e| panic!("harness: {e}"));
            let mut t1 = t0.clone();
            t1.entry(e.clone()).or_default().insert(0, (ts, f64::from(GRADES[g - 1].float_score())));
            let mut d1 = d0.clone();
            if trials > 0 {
                d1.entry(e.clone()).or_default().insert(0, (ts, g as f64 - f64::from(before)));
                ctx.count("deltas_recorded");
                if before == 0.0 {
                    ctx.count("deltas_from_zero");
                }
            }
            ctx.count("evaluations");
            ctx.seen(&("scoring", trials, g, before.to_bits()));
            let close = |a: &Recs, b: &Recs| {
                a.len() == b.len()
                    && a.iter().all(|(k, v)| {
                        b.get(k).is_some_and(|w| {
                            v.len() == w.len()
                                && v.iter().zip(w).all(|(x, y)| x.0 == y.0 && (x.1 - y.1).abs() < 2e-3)
                        })
                    })
            };
            let t2 = all_trials(s.t(), &exs);
            let d2 = all_deltas(s.t(), &exs);
            if !close(&t1, &t2) {
                ctx.violate("trial-recorded", s.repro(json!({"exercise": e, "grade": g, "expected": format!("{:?}", t1.get(&e)), "found": format!("{:?}", t2.get(&e))})));
            }
            if !close(&d1, &d2) {
                ctx.violate("delta-recorded", s.repro(json!({"exercise": e, "grade": g, "score before": before, "expected": format!("{:?}", d1.get(&e)), "found": format!("{:?}", d2.get(&e))})));
            }
        }
    });
}

type Recs = BTreeMap<String, Vec<(i64, f64)>>;

pub fn all_trials(t: &Trane, exs: &[String]) -> Recs {
    exs.iter()
        .filter_map(|e| {
            let v = t.get_scores(u(e), 100_000).ok()?;
            (!v.is_empty()).then(|| (e.clone(), v.iter().map(|x| (x.timestamp, f64::from(x.score))).collect()))
        })
        .collect()
}

pub fn all_deltas(t: &Trane, exs: &[String]) -> Recs {
    exs.iter()
        .filter_map(|e| {
            let v = t.get_deltas(u(e), 100_000).ok()?;
            (!v.is_empty()).then(|| (e.clone(), v.iter().map(|x| (x.timestamp, f64::from(x.delta))).collect()))
        })
        .collect()
}

// ------------------------------------------------------------------------------------------------
// C30: the mix of a full batch.

pub fn mix(ctx: &mut Ctx) {
    ctx.rule = "distinct (batch size, exercises per mastery range)".into();
    window_mix(ctx, 0.6);
    super::batches::shortage(ctx, 1.0);
    ctx.require("mixed_batches", 30);
    ctx.require("batches_filled", 20);
    ctx.require("batches_of_new_material", 5);
    ctx.require("batches_of_hard_material", 5);
}

/// One lesson with plenty of exercises in every mastery range.
fn window_mix(ctx: &mut Ctx, frac: f64) {
    ctx.cases("mix", 2, 1_000_000, frac, |ctx, r| {
        let per = 45;
        let mut lib = Lib::generate(
            r,
            &Shape { courses: (1, 1), lessons: (5, 5), exs: (per, per), p_lesson_dep: 0.0, p_missing: 0.0,
                p_empty: 0.0, p_sup: 0.0, p_enc: 0.0, p_cross_lesson: 0.0, hostile_ids: false, ..Default::default() },
        );
        for c in &mut lib.courses {
            for l in &mut c.lessons {
                l.deps.clear();
            }
        }
        lib.reindex();
        let mut s = Sim::new(lib).unwrap_or_else(|e| panic!("harness: {e}"));
        let mut o = SchedulerOptions::default();
        o.batch_size = *r.pick(&[20usize, 30, 40, 50]);
        o.relearn_fraction = 0.0;
        o.passing_score.min_fraction = 1.0;
        if r.chance(0.5) {
            // Other shares, still summing to one.
            let mut p = [0.2f32, 0.2, 0.2, 0.2, 0.2];
            for _ in 0..3 {
                let (i, j) = (r.below(5), r.below(5));
                if p[i] > 0.15 && p[j] < 0.35 {
                    p[i] -= 0.05;
                    p[j] += 0.05;
                }
            }
            o.new_window_opts.percentage = p[0];
            o.target_window_opts.percentage = p[1];
            o.current_window_opts.percentage = p[2];
            o.easy_window_opts.percentage = p[3];
            o.mastered_window_opts.percentage = p[4];
        }
        s.w.trane.set_scheduler_options(o.clone());
        // One lesson per mastery range; trials written directly so that the success rate is known.
        let lessons: Vec<String> = s.w.lib.courses[0].lessons.iter().map(|l| l.id.clone()).collect();
        let mut recs = vec![];
        for (i, l) in lessons.iter().enumerate() {
            for e in &s.w.lib.lesson(l).unwrap().exs {
                let gs: &[f32] = match i {
                    0 => &[],
                    1 => &[2.0, 1.0],
                    2 => &[3.0, 3.0],
                    3 => &[4.0, 4.0],
                    _ => &[5.0, 5.0],
                };
                for (k, g) in gs.iter().enumerate() {
                    recs.push(ExerciseTrial { exercise_id: u(&e.id), score: *g, timestamp: now() - 3000 + k as i64 });
                }
            }
        }
        s.w.trane.record_exercise_scores(&recs).expect("record");
        let filt = Filt::Lessons(lessons.clone());
        let facts = s.facts();
        let windows = [&o.new_window_opts, &o.target_window_opts, &o.current_window_opts, &o.easy_window_opts, &o.mastered_window_opts];
        let avail: Vec<usize> = windows
            .iter()
            .map(|w| facts.ex_score.values().filter(|v| w.in_window(**v)).count())
            .collect();
        if avail.iter().any(|n| *n < 40) {
            ctx.count("mix_without_enough_material");
            return;
        }
        for _ in 0..6 {
            let ids = judge_batch(ctx, &s, r, &filt, &facts);
            let n = ids.len() as f64;
            ctx.count("mixed_batches");
            ctx.count("evaluations");
            let counts: Vec<usize> = windows
                .iter()
                .map(|w| ids.iter().filter(|e| w.in_window(facts.ex_score[*e])).count())
                .collect();
            ctx.seen(&("mix", o.batch_size, counts.clone()));
            if (n as usize) < o.batch_size * 3 / 4 {
                ctx.violate("mix-short", s.repro(json!({"batch": ids.len(), "batch size": o.batch_size, "counts": counts})));
            }
            for (i, w) in windows.iter().enumerate() {
                let share = counts[i] as f64;
                let want = f64::from(w.percentage) * o.batch_size as f64;
                // The share adapts to the success rate by a bounded amount; rounding costs one.
                if (share - want).abs() > 0.12 * o.batch_size as f64 + 2.0 || share < 1.0 {
                    ctx.violate(
                        format!("mix:{i}"),
                        s.repro(json!({"window": format!("{w:?}"), "in the batch": counts[i], "expected about": want,
                            "counts": counts, "batch size": o.batch_size})),
                    );
                }
            }
        }
    });
}

// ------------------------------------------------------------------------------------------------
// C24: rewards.

fn initial_reward(g: &MasteryScore) -> f32 {
    match g {
        MasteryScore::Five => 0.8,
        MasteryScore::Four => 0.4,
        MasteryScore::Three => -0.3,
        MasteryScore::Two => -0.5,
        MasteryScore::One => -1.0,
    }
}

/// All (value, weight) pairs along paths from the exercise's lesson and course.
fn reward_paths(lib: &Lib, ex: &str, g: &MasteryScore) -> BTreeMap<String, Vec<(f32, f32)>> {
    let mut out: BTreeMap<String, Vec<(f32, f32)>> = BTreeMap::new();
    let (ci, li, _) = lib.ex_at[ex];
    let init = initial_reward(g);
    let next = |id: &str| if init > 0.0 { lib.encompasses(id) } else { lib.encompassed_by(id) };
    let stop = |v: f32, w: f32| v.abs() < 0.2 || w < 0.2;
    let mut stack: Vec<(String, f32, f32)> = vec![];
    for root in [&lib.courses[ci].lessons[li].id, &lib.courses[ci].id] {
        for (id, w) in next(root) {
            let v = w * init;
            if !stop(v, w) {
                stack.push((id, v, w));
            }
        }
    }
    while let Some((id, v, w)) = stack.pop() {
        let e = out.entry(id.clone()).or_default();
        if e.contains(&(v, w)) {
            continue;
        }
        e.push((v, w));
        for (n, ew) in next(&id) {
            let nv = ew * 0.9 * v;
            let nw = ew * 0.8 * w;
            if !stop(nv, nw) {
                stack.push((n, nv, nw));
            }
        }
    }
    out
}

pub fn rewards(ctx: &mut Ctx) {
    ctx.rule = "distinct (grade, rewards propagated)".into();
    ctx.assumptions.push("where a path with a larger value has a smaller weight than another to the same unit, either may be followed".into());
    ctx.cases("propagation", 12, 1_000_000, 1.0, |ctx, r| {
        let sh = Shape {
            courses: (2, 7), p_enc: 0.5, p_course_dep: 0.6, p_cross_lesson: 0.3, p_lesson_dep: 0.7,
            exs: (1, 2), ..Default::default()
        };
        let mut lib = Lib::generate(r, &sh);
        // Some libraries declare no encompassed unit at all: the relation is then that of dependencies.
        if r.chance(0.3) {
            for c in &mut lib.courses {
                c.enc.clear();
                for l in &mut c.lessons {
                    l.enc.clear();
                }
            }
        }
        // Duplicate dependencies carry no extra meaning and are not part of this check.
        for c in &mut lib.courses {
            dedup(&mut c.deps);
            for l in &mut c.lessons {
                dedup(&mut l.deps);
            }
        }
        lib.reindex();
        let mut s = Sim::new(lib).unwrap_or_else(|e| panic!("harness: {e}"));
        let exs = s.w.lib.exercises();
        if exs.is_empty() {
            return;
        }
        let mut units: BTreeSet<String> = s.w.lib.units().into_iter().collect();
        for c in &s.w.lib.courses {
            units.extend(c.deps.iter().cloned());
            units.extend(c.lessons.iter().flat_map(|l| l.deps.iter().cloned()));
        }
        let mut ts = now() - 400 * 86_400;
        for _ in 0..12 {
            // Two days apart: no reward is similar to a recent one.
            ts += 2 * 86_400;
            let e = r.pick(&exs).clone();
            let g = r.usize_in(1, 5);
            s.score_at(&e, g, ts).unwrap_or_else(|e| panic!("harness: {e}"));
            let paths = reward_paths(&s.w.lib, &e, &grade(g));
            let mut got_all = vec![];
            // Values and weights ordered alike everywhere: the strongest path is unique.
            let simple = paths.values().all(|v| {
                v.iter().all(|a| v.iter().all(|b| !(a.0.abs() > b.0.abs() && a.1 < b.1)))
            });
            for id in &units {
                let got: Vec<(f32, f32)> = s
                    .t()
                    .get_rewards(u(id), 1000)
                    .unwrap_or_default()
                    .iter()
                    .filter(|x| x.timestamp == ts)
                    .map(|x| (x.value, x.weight))
                    .collect();
                ctx.count("evaluations");
                let want = paths.get(id);
                let d = |why: &str| {
                    s.repro(json!({"exercise": e, "grade": g, "unit": id, "why": why, "recorded": got,
                        "possible (value, weight)": want}))
                };
                if got.len() > 1 {
                    ctx.violate("several", d("more than one reward for one trial"));
                    continue;
                }
                match (got.first(), want) {
                    (None, None) => {}
                    (Some(_), None) => ctx.violate("unrelated", d("a unit the exercise has no bearing on was rewarded")),
                    (None, Some(_)) => {
                        // A stronger path with a smaller weight may cut a longer one short.
                        if simple {
                            ctx.violate("missing", d("no reward reached the unit"));
                        } else {
                            ctx.count("ambiguous_missing");
                        }
                    }
                    (Some(gv), Some(w)) => {
                        ctx.count("rewards_checked");
                        got_all.push((id.clone(), gv.0.to_bits(), gv.1.to_bits()));
                        let close = |a: f32, b: f32| (a - b).abs() < 1e-5;
                        if !w.iter().any(|x| close(x.0, gv.0) && close(x.1, gv.1)) {
                            ctx.violate("no-path", d("no path gives this value and weight"));
                        }
                        let best = w.iter().map(|x| x.0.abs()).fold(0.0f32, f32::max);
                        if simple {
                            ctx.count("exact_rewards");
                            if !close(gv.0.abs(), best) {
                                ctx.violate("not-strongest", d("a stronger path to the unit exists"));
                            }
                        }
                        if gv.0.abs() > initial_reward(&grade(g)).abs() + 1e-6 || (gv.0 > 0.0) != (g >= 4) {
                            ctx.violate("sign", d("wrong sign or larger than the initial reward"));
                        }
                    }
                }
            }
            ctx.seen(&(g, got_all));
        }
    });
    ctx.require("rewards_checked", 100);
    ctx.require("exact_rewards", 100);
}

fn dedup(v: &mut Vec<String>) {
    let mut seen = BTreeSet::new();
    v.retain(|x| seen.insert(x.clone()));
}

/// A library lookup used by several checks: what the instance says it contains.
pub fn all_ids(t: &Trane) -> BTreeSet<String> {
    let mut out = BTreeSet::new();
    for c in t.get_course_ids() {
        out.insert(c.to_string());
        for l in t.get_lesson_ids(c).unwrap_or_default() {
            out.insert(l.to_string());
            for e in t.get_exercise_ids(l).unwrap_or_default() {
                out.insert(e.to_string());
            }
        }
    }
    out
}
