//! C32-C35: what a batch looks like beyond what may be in it: its order, how it follows the success
//! of the session, what is left out as practised elsewhere, and what is preferred.

use super::sched::{Filt, Sim, judge_batch, now, random_options};
use crate::ctx::{Ctx, step};
use crate::lib_gen::{Course, Ex, Lesson, Lib, Shape};
use crate::rng::Rng;
use crate::world::{Facts, u};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use trane::data::{ExerciseTrial, SchedulerOptions};
use trane::{practice_stats::PracticeStats, review_list::ReviewList, scheduler::ExerciseScheduler};

pub fn lesson(course: &str, name: &str, exs: usize) -> Lesson {
    let id = format!("{course}::{name}");
    Lesson {
        exs: (0..exs)
            .map(|i| Ex { id: format!("{id}::e{i}"), declarative: false, asset: 0 })
            .collect(),
        name: name.to_string(),
        id,
        deps: vec![],
        enc: vec![],
        sup: vec![],
        meta: None,
    }
}

pub fn course(id: &str, lessons: Vec<Lesson>) -> Course {
    Course {
        id: id.to_string(),
        deps: vec![],
        enc: vec![],
        sup: vec![],
        meta: None,
        lessons,
        dir: id.to_string(),
        name: id.to_string(),
    }
}

fn practise(s: &mut Sim, lesson: &str, only: usize, grades: &[f32], at: i64) {
    practise_every(s, lesson, only, grades, at, 1);
}

/// Records the given grades for the first exercises of a lesson, the first one at the given time.
fn practise_every(s: &mut Sim, lesson: &str, only: usize, grades: &[f32], at: i64, gap: i64) {
    let recs: Vec<ExerciseTrial> = s
        .w
        .lib
        .lesson(lesson)
        .unwrap()
        .exs
        .iter()
        .take(only)
        .flat_map(|e| {
            grades.iter().enumerate().map(|(k, g)| ExerciseTrial {
                exercise_id: u(&e.id),
                score: *g,
                timestamp: at + k as i64 * gap,
            })
        })
        .collect();
    s.w.trane.record_exercise_scores(&recs).unwrap_or_else(|e| panic!("harness: {e:#}"));
}

// ------------------------------------------------------------------------------------------------
// C32: the order of a batch.

/// Judges the order of one batch that holds no re-learned exercise.
fn judge_order(ctx: &mut Ctx, s: &Sim, facts: &Facts, filt: &Filt, ids: &[String]) {
    let lib = &s.w.lib;
    let top = f64::from(facts.options.target_window_opts.range.1);
    if ids.iter().any(|i| !lib.ex_at.contains_key(i) || (facts.ex_score[i] as f64 - top).abs() < 2e-3) {
        ctx.count("skipped_near_threshold");
        return;
    }
    ctx.count("orders_judged");
    ctx.count("evaluations");
    // The maximal runs of hard exercises of one course, by course.
    let mut runs: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
    let mut last: Option<usize> = None;
    for i in ids {
        let cur = ((facts.ex_score[i] as f64) <= top).then(|| lib.ex_at[i].0);
        if let Some(c) = cur {
            let v = runs.entry(c).or_default();
            if last == cur {
                *v.last_mut().unwrap() += 1;
            } else {
                v.push(1);
            }
        }
        last = cur;
    }
    for (c, v) in &runs {
        let n: usize = v.iter().sum();
        ctx.add("groups_observed", v.len() as u64);
        ctx.max("most_hard_exercises_of_a_course", n as u64);
        if v.len() > 1 {
            ctx.count("courses_in_several_groups");
        }
        // Groups of three and one of what remains; groups that end up side by side look like one.
        let odd = v.iter().filter(|x| *x % 3 != 0).count();
        if odd > 1 || v.len() > n.div_ceil(3) {
            ctx.violate(
                "groups",
                s.repro(json!({"course": lib.courses[*c].id, "groups": v, "filter": format!("{filt:?}"), "batch": ids,
                    "scores": ids.iter().map(|i| facts.ex_score[i]).collect::<Vec<_>>(), "hard up to": top})),
            );
        }
    }
    ctx.seen(&("order", runs.values().cloned().collect::<Vec<_>>()));
}

pub fn order(ctx: &mut Ctx) {
    ctx.rule = "distinct shapes (sizes of the groups of each course in one batch)".into();
    ctx.cases("grouping", 6, 1_000_000, 0.45, |ctx, r| {
        let lib = Lib::generate(
            r,
            &Shape { courses: (1, 6), lessons: (1, 5), exs: (1, 7), p_missing: 0.0, p_sup: 0.0, ..Default::default() },
        );
        let mut s = Sim::new(lib).unwrap_or_else(|e| panic!("harness: {e}"));
        let mut o = random_options(r);
        o.relearn_fraction = 0.0;
        o.batch_size = *r.pick(&[5usize, 10, 20, 30, 50]);
        o.max_lessons_in_progress = *r.pick(&[10usize, 1000]);
        if r.chance(0.4) {
            // Other bounds between the ranges.
            let (a, b) = (*r.pick(&[1.5f32, 2.0, 3.1]), *r.pick(&[3.4f32, 3.9, 4.2]));
            o.target_window_opts.range.1 = a;
            o.current_window_opts.range = (a, b);
            o.easy_window_opts.range.0 = b;
        }
        s.w.trane.set_scheduler_options(o);
        s.warm(r, true).unwrap_or_else(|e| panic!("harness: {e}"));
        for _ in 0..8 {
            let filt = match r.below(3) {
                0 => Filt::All,
                1 => Filt::Courses(s.w.lib.courses.iter().map(|c| c.id.clone()).collect()),
                _ => Filt::Lessons(s.w.lib.lessons()),
            };
            let facts = s.facts();
            let ids = judge_batch(ctx, &s, r, &filt, &facts);
            judge_order(ctx, &s, &facts, &filt, &ids);
            drop(facts);
            if r.chance(0.5) && !ids.is_empty() {
                let e = r.pick(&ids).clone();
                let g = r.usize_in(1, 5);
                s.score(&e, g).unwrap_or_else(|e| panic!("harness: {e}"));
            }
        }
    });
    // The same few exercises come in different orders.
    ctx.cases("variety", 2, 1_000_000, 0.7, |ctx, r| {
        let hard = r.chance(0.5);
        let courses = (0..5).map(|c| course(&format!("c{c}"), vec![lesson(&format!("c{c}"), "l", 1)])).collect();
        let mut s = Sim::new(Lib::from_courses(courses)).unwrap_or_else(|e| panic!("harness: {e}"));
        let mut o = SchedulerOptions::default();
        o.batch_size = *r.pick(&[10usize, 20, 50]);
        o.relearn_fraction = 0.0;
        s.w.trane.set_scheduler_options(o);
        if !hard {
            for l in s.w.lib.lessons() {
                practise(&mut s, &l, 1, &[3.0, 3.0], now() - 3000);
            }
        }
        let facts = s.facts();
        let mut orders: BTreeMap<Vec<String>, usize> = BTreeMap::new();
        let mut firsts = BTreeSet::new();
        let filt = Filt::Lessons(s.w.lib.lessons());
        let mut n = 0;
        for _ in 0..40 {
            let ids = judge_batch(ctx, &s, r, &filt, &facts);
            if ids.len() == 5 {
                n += 1;
                firsts.insert(ids[0].clone());
                *orders.entry(ids).or_default() += 1;
            }
        }
        if n == 40 {
            ctx.count("varied_batches");
            ctx.count("evaluations");
            ctx.max("distinct_orders_of_five", orders.len() as u64);
            // Forty draws of 120 orders: fewer than 15 distinct ones, or one exercise never first,
            // has a chance well below one in a million... per thousand runs.
            if orders.len() < 15 || firsts.len() < 4 {
                ctx.violate(
                    "fixed-order",
                    s.repro(json!({"distinct orders": orders.len(), "distinct first exercises": firsts.len(), "of batches": n})),
                );
            }
        }
    });
    // New material leans towards the end.
    ctx.cases("new-last", 2, 1_000_000, 1.0, |ctx, r| {
        let courses = (0..60)
            .map(|c| course(&format!("c{c}"), vec![lesson(&format!("c{c}"), "l", 1)]))
            .collect();
        let mut s = Sim::new(Lib::from_courses(courses)).unwrap_or_else(|e| panic!("harness: {e}"));
        let mut o = SchedulerOptions::default();
        o.batch_size = 20;
        o.relearn_fraction = 0.0;
        o.max_lessons_in_progress = 1000;
        s.w.trane.set_scheduler_options(o);
        let lessons = s.w.lib.lessons();
        for l in lessons.iter().take(30) {
            let g = *r.pick(&[3.0f32, 4.0, 5.0]);
            practise(&mut s, l, 1, &[g, g], now() - 3000);
        }
        let facts = s.facts();
        let (mut after, mut pairs) = (0u64, 0u64);
        for _ in 0..120 {
            let ids = judge_batch(ctx, &s, r, &Filt::Lessons(lessons.clone()), &facts);
            let new: Vec<bool> = ids.iter().map(|i| facts.ex_score[i] < 0.05).collect();
            for (i, a) in new.iter().enumerate() {
                for b in &new[i + 1..] {
                    if a != b {
                        pairs += 1;
                        after += u64::from(*b);
                    }
                }
            }
        }
        if pairs < 3000 {
            ctx.count("new_last_without_enough_material");
            return;
        }
        ctx.count("new_last_judged");
        ctx.count("evaluations");
        let share = after as f64 / pairs as f64;
        ctx.max("new_after_old_permille", (share * 1000.0) as u64);
        if share < 0.6 || share > 0.9 {
            ctx.violate(
                "new-position",
                s.repro(json!({"share of pairs with the new exercise after the other": share, "pairs": pairs})),
            );
        }
    });
    ctx.require("orders_judged", 100);
    ctx.require("courses_in_several_groups", 10);
    ctx.require("varied_batches", 2);
    ctx.require("new_last_judged", 1);
}

// ------------------------------------------------------------------------------------------------
// C33: the mix follows the success of the session.

/// A library with one lesson per range of mastery and one to move the success rate with.
fn ranges(r: &mut Rng, per: usize, extra: Vec<Lesson>) -> (Sim, SchedulerOptions, Vec<String>) {
    let names = ["new", "target", "current", "easy", "mastered"];
    let main = course("main", names.iter().map(|n| lesson("main", n, per)).collect());
    let mut courses = vec![main, course("warm", vec![lesson("warm", "up", 12)])];
    if !extra.is_empty() {
        courses.push(course("extra", extra));
    }
    let mut s = Sim::new(Lib::from_courses(courses)).unwrap_or_else(|e| panic!("harness: {e}"));
    let mut o = SchedulerOptions::default();
    o.relearn_fraction = 0.0;
    o.passing_score.min_fraction = 1.0;
    if r.chance(0.6) {
        let mut p = [0.2f32, 0.2, 0.2, 0.2, 0.2];
        for _ in 0..3 {
            let (i, j) = (r.below(5), r.below(5));
            if p[i] > 0.19 && p[j] < 0.29 {
                p[i] -= 0.05;
                p[j] += 0.05;
            }
        }
        o.new_window_opts.percentage = p[0];
        o.target_window_opts.percentage = p[1];
        o.current_window_opts.percentage = p[2];
        o.easy_window_opts.percentage = p[3];
        o.mastered_window_opts.percentage = p[4];
    }
    let lessons: Vec<String> = s.w.lib.courses[0].lessons.iter().map(|l| l.id.clone()).collect();
    for (l, g) in lessons.iter().zip([&[][..], &[2.0, 1.0], &[3.0, 3.0], &[4.0, 4.0], &[5.0, 5.0]]) {
        practise(&mut s, l, usize::MAX, g, now() - 3000);
    }
    (s, o, lessons)
}

/// How many exercises of each range the batch holds.
fn by_range(o: &SchedulerOptions, facts: &Facts, ids: &[String]) -> [usize; 5] {
    [&o.new_window_opts, &o.target_window_opts, &o.current_window_opts, &o.easy_window_opts, &o.mastered_window_opts]
        .map(|w| ids.iter().filter(|e| w.in_window(facts.ex_score[*e])).count())
}

fn shares(o: &SchedulerOptions) -> [f64; 5] {
    [&o.new_window_opts, &o.target_window_opts, &o.current_window_opts, &o.easy_window_opts, &o.mastered_window_opts]
        .map(|w| f64::from(w.percentage))
}

pub fn adaptation(ctx: &mut Ctx) {
    ctx.rule = "distinct (batch size, shares, successes, trials, exercises per range)".into();
    ctx.cases("success", 2, 1_000_000, 1.0, |ctx, r| {
        let (mut s, mut o, lessons) = ranges(r, 45, vec![]);
        o.batch_size = *r.pick(&[40usize, 45, 50]);
        s.w.trane.set_scheduler_options(o.clone());
        let p = shares(&o);
        let filt = Filt::Lessons(lessons);
        let warm: Vec<String> = s.w.lib.courses[1].lessons[0].exs.iter().map(|e| e.id.clone()).collect();
        let (mut ok, mut bad) = (0usize, 0usize);
        // Where the session is heading; the rate is looked at along the way.
        let mut goal = *r.pick(&[0.2f64, 0.6, 0.82, 1.0]);
        let mut ts = now() - 2000;
        let exact = r.chance(0.5);
        let mut rounds = 0;
        while rounds < 14 {
            rounds += 1;
            if rounds > 1 {
                // Some scores, a few of them of no effect on the session.
                let n = if exact && ok + bad < 20 { 20 - ok - bad } else { r.usize_in(1, 12) };
                if exact && ok + bad == 0 {
                    goal = *r.pick(&[0.45f64, 0.5, 0.7, 0.75, 0.9, 0.95]);
                }
                for _ in 0..n {
                    let total = (ok + bad + 1) as f64;
                    let good = (ok as f64 + 0.5) / total <= goal;
                    let g = if good { r.usize_in(3, 5) } else { r.usize_in(1, 2) };
                    ts += 1;
                    s.score_at(&r.pick(&warm).clone(), g, ts).unwrap_or_else(|e| panic!("harness: {e}"));
                    if good { ok += 1 } else { bad += 1 }
                }
                if r.chance(0.3) {
                    goal = *r.pick(&[0.1f64, 0.3, 0.55, 0.65, 0.8, 0.88, 1.0]);
                }
                if r.chance(0.06) {
                    s.w.reopen().unwrap_or_else(|e| panic!("harness: {e}"));
                    s.w.trane.set_scheduler_options(o.clone());
                    (ok, bad) = (0, 0);
                    ctx.count("new_sessions");
                }
            }
            let rate = if ok + bad == 0 { 1.0 } else { ok as f64 / (ok + bad) as f64 };
            let band = match () {
                () if 2 * ok < (ok + bad) => 0,
                () if 4 * ok < 3 * (ok + bad) => 1,
                () if 10 * ok <= 9 * (ok + bad) && ok + bad > 0 => 2,
                () => 3,
            };
            let facts = s.facts();
            let ids = judge_batch(ctx, &s, r, &filt, &facts);
            let c = by_range(&o, &facts, &ids);
            ctx.count("adapted_batches");
            ctx.count(["batches_below_half", "batches_below_three_quarters", "batches_in_the_zone", "batches_above_nine_tenths"][band]);
            if 4 * ok == 3 * (ok + bad) || 10 * ok == 9 * (ok + bad) || 2 * ok == ok + bad {
                ctx.count("batches_at_a_bound");
            }
            ctx.count("evaluations");
            ctx.seen(&(o.batch_size, c, ok, bad, p.map(|x| (x * 100.0) as i64)));
            let b = o.batch_size as f64;
            let shift = [-0.10, -0.05, 0.0, 0.05][band];
            for (i, n) in c.iter().enumerate() {
                let want = match i {
                    0 | 1 => (p[i] + shift).clamp(0.05, 0.5),
                    3 | 4 => (p[i] - shift).clamp(0.05, 0.5),
                    _ => continue,
                } * b;
                // Whole exercises; the direction and the rough size of the step are what counts.
                let slack = if band == 2 { 1.01 } else { 1.6 };
                if (*n as f64 - want).abs() > slack {
                    ctx.violate(
                        format!("share:{i}:{band}"),
                        s.repro(json!({"range": i, "in the batch": n, "configured": p[i] * b, "expected about": want,
                            "successes": ok, "failures": bad, "rate": rate, "counts": c})),
                    );
                    return;
                }
            }
        }
    });
    ctx.require("adapted_batches", 30);
    for k in ["batches_below_half", "batches_below_three_quarters", "batches_in_the_zone", "batches_above_nine_tenths"] {
        ctx.require(k, 4);
    }
    ctx.require("batches_at_a_bound", 3);
}

/// C30: where some ranges hold little or nothing, the others fill the batch.
pub fn shortage(ctx: &mut Ctx, frac: f64) {
    ctx.cases("shortage", 4, 1_000_000, frac, |ctx, r| {
        let b = *r.pick(&[5usize, 8, 12, 20, 30, 50]);
        let plenty = 3 * b + 10;
        let names = ["new", "target", "current", "easy", "mastered"];
        let sizes: Vec<usize> = names.iter().map(|_| *r.pick(&[0usize, 0, 0, 2, plenty])).collect();
        let main = course("main", names.iter().zip(&sizes).map(|(n, k)| lesson("main", n, *k)).collect());
        let mut s = Sim::new(Lib::from_courses(vec![main])).unwrap_or_else(|e| panic!("harness: {e}"));
        let mut o = SchedulerOptions::default();
        o.relearn_fraction = 0.0;
        o.passing_score.min_fraction = 1.0;
        o.batch_size = b;
        s.w.trane.set_scheduler_options(o.clone());
        let lessons: Vec<String> = s.w.lib.courses[0].lessons.iter().map(|l| l.id.clone()).collect();
        for (l, g) in lessons.iter().zip([&[][..], &[2.0, 1.0], &[3.0, 3.0], &[4.0, 4.0], &[5.0, 5.0]]) {
            practise(&mut s, l, usize::MAX, g, now() - 3000);
        }
        let facts = s.facts();
        let have = by_range(&o, &facts, &s.w.lib.exercises());
        if have.as_slice() != sizes.as_slice() {
            ctx.count("mix_without_enough_material");
            return;
        }
        let filt = Filt::Lessons(lessons);
        for _ in 0..3 {
            let ids = judge_batch(ctx, &s, r, &filt, &facts);
            let c = by_range(&o, &facts, &ids);
            ctx.count("evaluations");
            ctx.count("short_batches");
            ctx.seen(&("shortage", b, sizes.clone(), c));
            let n = ids.len();
            // Ranges the student can handle fill the batch; the harder ones only up to a point.
            let least = if sizes[2..].contains(&plenty) {
                ctx.count("batches_filled");
                b * 3 / 4
            } else if sizes[0] == plenty {
                ctx.count("batches_of_new_material");
                b / 2
            } else if sizes[1] == plenty {
                ctx.count("batches_of_hard_material");
                b * 3 / 10
            } else {
                // Little material at all makes for a batch of ten at most.
                sizes.iter().sum::<usize>().min(b.min(10) * 3 / 4)
            };
            let most = b;
            if n < least || n > most.max(5) {
                ctx.violate(
                    format!("short:{}", n < least),
                    s.repro(json!({"available by range": sizes, "batch size": b, "offered by range": c, "expected at least": least})),
                );
            }
            // Every range that holds something is in the batch.
            for (i, k) in c.iter().enumerate() {
                if sizes[i] > 0 && *k == 0 {
                    ctx.violate(
                        format!("range-absent:{i}"),
                        s.repro(json!({"available by range": sizes, "batch size": b, "offered by range": c})),
                    );
                }
            }
        }
    });
}

// ------------------------------------------------------------------------------------------------
// C34: what is practised elsewhere is reviewed less.

pub fn knocked_out(ctx: &mut Ctx) {
    ctx.rule = "distinct (weight, score, filter) of the material practised elsewhere".into();
    ctx.cases("left-out", 4, 1_000_000, 0.6, |ctx, r| {
        // Lesson X is practised by other lessons, directly, through their courses, or at one remove.
        let x = lesson("base", "x", r.usize_in(2, 4));
        let xid = x.id.clone();
        let plain = lesson("base", "plain", r.usize_in(2, 4));
        let pid = plain.id.clone();
        let mut courses = vec![course("base", vec![x, plain])];
        let by_course = r.chance(0.3);
        let chain = !by_course && r.chance(0.3);
        let w = *r.pick(&[1.0f32, 1.0, 0.9, 0.8]);
        let k = r.usize_in(1, if by_course { 8 } else { 16 });
        let spread = r.chance(0.5);
        let mut weight = 0.0f64;
        let mut around = vec![];
        for i in 0..k {
            let cid = if spread || by_course { format!("c{i}") } else { "c".to_string() };
            let mut l = lesson(&cid, &format!("y{i}"), r.usize_in(1, 2));
            if !by_course || r.chance(0.5) {
                l.enc.push((xid.clone(), w));
                weight += f64::from(w);
            }
            let mut ls = vec![l.clone()];
            if chain && !l.enc.is_empty() {
                let mut z = lesson(&cid, &format!("z{i}"), 1);
                z.enc.push((l.id.clone(), 1.0));
                weight += f64::from(w);
                ls.push(z);
            }
            around.extend(ls.iter().map(|l| l.id.clone()));
            match courses.iter_mut().find(|c| c.id == cid) {
                Some(c) => c.lessons.extend(ls),
                None => courses.push(course(&cid, ls)),
            }
            if by_course {
                courses.last_mut().unwrap().enc.push((xid.clone(), w));
                weight += f64::from(w);
            }
        }
        let mut s = Sim::new(Lib::from_courses(courses)).unwrap_or_else(|e| panic!("harness: {e}"));
        let mut o = SchedulerOptions::default();
        o.batch_size = *r.pick(&[10usize, 30, 50, 200]);
        o.relearn_fraction = 0.0;
        o.passing_score.min_fraction = 1.0;
        o.max_lessons_in_progress = 1000;
        s.w.trane.set_scheduler_options(o);
        let g: &[f32] = *r.pick(&[&[5.0, 5.0, 5.0][..], &[5.0, 5.0, 5.0], &[5.0, 5.0], &[5.0, 4.0], &[4.0, 4.0], &[3.0, 3.0]]);
        let at = now() - 3000;
        practise(&mut s, &xid, 100, g, at);
        practise(&mut s, &pid, 100, g, at);
        // The others at various stages.
        for l in &around {
            match r.below(3) {
                0 => {}
                1 => practise(&mut s, l, 100, &[3.0, 3.0], at),
                _ => practise(&mut s, l, 100, &[4.0, 4.0], at),
            }
        }
        // Lessons left outside of the filter do not count.
        let all: Vec<String> = s.w.lib.lessons();
        let facts = s.facts();
        let score = s.w.lib.lesson(&xid).unwrap().exs.iter().map(|e| facts.ex_score[&e.id]).fold(f32::MAX, f32::min);
        let (filt, counted) = match r.below(4) {
            0 => (Filt::All, weight),
            1 => (Filt::Lessons(all), weight),
            2 => (Filt::Courses(s.w.lib.courses.iter().map(|c| c.id.clone()).collect()), weight),
            _ => (Filt::Lessons(vec![xid.clone(), pid.clone()]), 0.0),
        };
        let mut offered = BTreeSet::new();
        let seen = |o: &BTreeSet<String>, l: &str| s.w.lib.lesson(l).unwrap().exs.iter().any(|e| o.contains(&e.id));
        for i in 0..90 {
            offered.extend(judge_batch(ctx, &s, r, &filt, &facts));
            if i >= 12 && seen(&offered, &pid) && (seen(&offered, &xid) || counted >= 10.02) {
                break;
            }
        }
        let of = |l: &str| s.w.lib.lesson(l).unwrap().exs.iter().filter(|e| offered.contains(&e.id)).count();
        ctx.count("evaluations");
        ctx.seen(&((counted * 10.0) as i64, (score * 10.0) as i64, filt.kind()));
        let out = counted >= 10.02 && score >= 4.51;
        let kept = counted <= 9.98 || score <= 4.49;
        let what = |why: &str| s.repro(json!({"why": why, "weight of the lessons that practise it": counted, "score": score,
            "filter": format!("{filt:?}"), "offered": offered}));
        if out {
            ctx.count("left_out");
            if of(&xid) > 0 {
                ctx.violate("not-left-out", what("mastered and practised by many others, yet reviewed"));
            }
        } else if kept {
            ctx.count(if counted > 5.0 && score > 4.0 { "kept_close" } else { "kept" });
            if of(&xid) == 0 {
                ctx.violate("left-out", what("never offered though not practised enough elsewhere"));
            }
        }
        if of(&pid) == 0 {
            ctx.violate("plain-left-out", what("a lesson no other practises is never offered"));
        }
    });
    ctx.cases("easier-share", 2, 1_000_000, 1.0, |ctx, r| {
        // X would be easy material; practised by others it counts as mastered material.
        let mut extra = vec![lesson("extra", "x", 80)];
        let xid = extra[0].id.clone();
        let k = *r.pick(&[3usize, 4, 6, 7, 8, 9]);
        for i in 0..k {
            let mut l = lesson("extra", &format!("y{i}"), 1);
            l.enc.push((xid.clone(), 1.0));
            extra.push(l);
        }
        let (mut s, mut o, mut lessons) = ranges(r, 45, extra);
        o.batch_size = *r.pick(&[40usize, 50]);
        s.w.trane.set_scheduler_options(o.clone());
        practise(&mut s, &xid, 100, &[4.0, 4.0], now() - 3000);
        for i in 0..k {
            practise(&mut s, &format!("extra::y{i}"), 100, &[3.0, 3.0], now() - 3000);
        }
        // A success rate at which the shares are those configured.
        for i in 0..10 {
            s.score_at(&format!("warm::up::e{i}"), if i < 8 { 4 } else { 2 }, now() - 1000 + i).unwrap_or_else(|e| panic!("harness: {e}"));
        }
        lessons.extend(s.w.lib.courses[2].lessons.iter().map(|l| l.id.clone()));
        let facts = s.facts();
        let xs: BTreeSet<String> = s.w.lib.lesson(&xid).unwrap().exs.iter().map(|e| e.id.clone()).collect();
        if xs.iter().any(|e| facts.ex_score[e] < 3.76 || facts.ex_score[e] > 4.49) {
            ctx.count("share_without_the_score");
            return;
        }
        let b = o.batch_size as f64;
        let p = shares(&o);
        for _ in 0..6 {
            let ids = judge_batch(ctx, &s, r, &Filt::Lessons(lessons.clone()), &facts);
            let nx = ids.iter().filter(|e| xs.contains(*e)).count();
            let c = by_range(&o, &facts, &ids.iter().filter(|e| !xs.contains(*e)).cloned().collect::<Vec<_>>());
            ctx.count("shares_judged");
            ctx.count("evaluations");
            ctx.seen(&("share", k, nx, c));
            let (easy, mastered) = if k >= 5 {
                ctx.count("shares_as_mastered");
                (c[3], c[4] + nx)
            } else {
                ctx.count("shares_as_easy");
                (c[3] + nx, c[4])
            };
            for (i, n) in [(3, easy), (4, mastered)] {
                if (n as f64 - p[i] * b).abs() > 1.01 {
                    ctx.violate(
                        format!("share:{}:{i}", k >= 5),
                        s.repro(json!({"lessons that practise it": k, "of it in the batch": nx, "others by range": c,
                            "expected in the range": p[i] * b, "found": n})),
                    );
                }
            }
        }
    });
    ctx.require("left_out", 10);
    ctx.require("kept", 10);
    ctx.require("kept_close", 5);
    ctx.require("shares_as_mastered", 6);
    ctx.require("shares_as_easy", 6);
}

// ------------------------------------------------------------------------------------------------
// C35: what is preferred.

const FACTORS: [&str; 8] = ["stale", "deep", "unfinished", "covering", "uncovered", "improving", "stuck", "moving"];

pub fn preference(ctx: &mut Ctx) {
    ctx.rule = "distinct selections (factor, exercises of the favoured group in one batch)".into();
    // Rotation: repeated batches spread over the material.
    ctx.cases("rotation", 8, 1_000_000, 0.25, |ctx, r| {
        let n = 240usize;
        let mut s = Sim::new(Lib::from_courses(vec![course("c", vec![lesson("c", "l", n)])])).unwrap_or_else(|e| panic!("harness: {e}"));
        let mut o = SchedulerOptions::default();
        o.batch_size = *r.pick(&[40usize, 60, 80]);
        o.relearn_fraction = 0.0;
        o.passing_score.min_fraction = 1.0;
        s.w.trane.set_scheduler_options(o);
        let filt = match r.below(4) {
            0 => Filt::All,
            1 => Filt::Lessons(vec!["c::l".into()]),
            2 => Filt::Courses(vec!["c".into()]),
            _ => {
                let ids: Vec<String> = s.w.lib.exercises();
                for e in ids {
                    s.w.trane.add_to_review_list(u(&e)).unwrap_or_else(|e| panic!("harness: {e:#}"));
                }
                Filt::Review
            }
        };
        let course_of_grades = *r.pick(&["none", "flat", "falling", "rising"]);
        // Falls and rises within a day move the preference to its limits after a batch or two.
        let gap = if course_of_grades == "rising" { 86_400 } else { *r.pick(&[86_400, 120_000, 172_800, 300_000]) };
        let at = now() - r.range(15, 60) * 86_400 - if course_of_grades == "rising" { 100 * 86_400 } else { 0 };
        let grades = match course_of_grades {
            "none" => vec![],
            "flat" => vec![3.0, 3.0],
            "falling" => vec![5.0, 3.0],
            _ => vec![3.0, 5.0],
        };
        practise_every(&mut s, "c::l", n, &grades, at, gap);
        ctx.count(&format!("rotations_grades_{course_of_grades}"));
        let facts = s.facts();
        let m = 40;
        let mut times: BTreeMap<String, f64> = BTreeMap::new();
        for _ in 0..m {
            for e in judge_batch(ctx, &s, r, &filt, &facts) {
                *times.entry(e).or_default() += 1.0;
            }
        }
        let total: f64 = times.values().sum();
        let mean = total / n as f64;
        let var = s.w.lib.exercises().iter().map(|e| (times.get(e).copied().unwrap_or(0.0) - mean).powi(2)).sum::<f64>() / (n - 1) as f64;
        let even = mean * (1.0 - mean / m as f64);
        ctx.count("rotations");
        ctx.count(&format!("rotations_{}", filt.kind()));
        ctx.count("evaluations");
        ctx.max(&format!("highest_spread_permille_{course_of_grades}"), (var / even * 1000.0) as u64);
        ctx.seen(&("rotation", times.values().map(|x| *x as i64).collect::<Vec<_>>()));
        if total < 100.0 || var / even > ROTATION_LIMIT {
            ctx.violate(
                format!("rotation:{}", filt.kind()),
                s.repro(json!({"times offered": times, "variance": var, "variance of blind draws": even, "batches": m})),
            );
        }
    });
    // One group of exercises against another that differs in one respect.
    ctx.cases("factor", FACTORS.len(), 1_000_000, 1.0, |ctx, r| {
        let f = (ctx.get("cases_factor") as usize - 1) % FACTORS.len();
        let (per, sel) = (120, 40);
        let at = now() - r.range(20, 60) * 86_400;
        let mut a = lesson("a", "l", per);
        let mut b = lesson("b", "l", per);
        let mut more = vec![];
        match FACTORS[f] {
            "deep" => {
                // b <- m0 <- m1 ... <- a, of one exercise each; nothing practises anything else.
                let mut prev = b.id.clone();
                for i in 0..9 {
                    let mut l = lesson("m", &format!("{i}"), 1);
                    l.deps.push(prev.clone());
                    l.enc.push((prev.clone(), 0.0));
                    prev = l.id.clone();
                    more.push(l);
                }
                a.deps.push(prev.clone());
                a.enc.push((prev, 0.0));
            }
            "unfinished" => {
                a = lesson("a", "l", 2 * per);
            }
            "covering" => {
                for i in 0..9 {
                    let l = lesson("m", &format!("{i}"), 1);
                    a.enc.push((l.id.clone(), 1.0));
                    more.push(l);
                }
            }
            "uncovered" => {
                for i in 0..4 {
                    let mut l = lesson("m", &format!("{i}"), 1);
                    l.enc.push((b.id.clone(), 1.0));
                    more.push(l);
                }
            }
            _ => {}
        }
        let (aid, bid) = (a.id.clone(), b.id.clone());
        let mut courses = vec![course("b", vec![b]), course("a", vec![a])];
        if !more.is_empty() {
            courses.push(course("m", more));
        }
        let mut s = Sim::new(Lib::from_courses(courses)).unwrap_or_else(|e| panic!("harness: {e}"));
        let mut o = SchedulerOptions::default();
        o.batch_size = sel;
        o.relearn_fraction = 0.0;
        o.passing_score.min_fraction = 1.0;
        o.max_lessons_in_progress = 1000;
        o.passing_score.min_score = 0.5;
        o.passing_score.min_avg_trials = 1.0;
        // One range for all that was practised.
        o.target_window_opts.range = (0.1, 0.2);
        o.current_window_opts.range = (0.2, 4.99);
        o.easy_window_opts.range = (4.99, 4.995);
        o.mastered_window_opts.range = (4.995, 5.0);
        let (old, recent) = if FACTORS[f] == "stale" {
            (now() - r.range(20, 200) * 86_400, now() - r.range(60, 40_000))
        } else {
            (at, at)
        };
        let g = *r.pick(&[4.0f32, 5.0]);
        let gap = if FACTORS[f] == "improving" { *r.pick(&[900, 3600, 20_000]) } else { 86_400 };
        let (ga, gb) = match FACTORS[f] {
            "improving" => (vec![3.0, g], vec![g, 3.0]),
            "stuck" => (vec![3.0, 3.0], vec![3.4, 3.0]),
            "moving" => (vec![4.5, 5.0], vec![5.0, 5.0]),
            _ => {
                let x = match r.below(3) {
                    0 => vec![g],
                    1 => vec![3.0, g],
                    _ => vec![g, 3.0],
                };
                (x.clone(), x)
            }
        };
        let trend = if ga.len() < 2 { "once" } else if ga[0] < ga[1] { "rising" } else { "falling" };
        let (old, recent) = if FACTORS[f] == "moving" {
            let x = now() - r.range(2 * 86_400, 5 * 86_400);
            (x, x)
        } else {
            (old, recent)
        };
        practise_every(&mut s, &aid, per, &ga, old - gap, gap);
        practise_every(&mut s, &bid, per, &gb, recent - gap, gap);
        for l in s.w.lib.lessons() {
            if l.starts_with("m::") {
                practise(&mut s, &l, 1, &[4.0, 4.0], at);
            }
        }
        let ours: BTreeSet<String> = s.w.lib.lesson(&aid).unwrap().exs.iter().take(per).map(|e| e.id.clone()).collect();
        let theirs: BTreeSet<String> = s.w.lib.lesson(&bid).unwrap().exs.iter().map(|e| e.id.clone()).collect();
        {
            let facts = s.facts();
            if ours.iter().chain(&theirs).any(|e| !(0.21..4.98).contains(&facts.ex_score[e])) {
                panic!("harness: a score outside the range: {:?}", facts.ex_score.iter().next());
            }
            if FACTORS[f] == "unfinished" {
                o.passing_score.min_score = 0.75 * facts.ex_score[theirs.iter().next().unwrap()];
            }
        }
        let (mut na, mut nb) = (0u64, 0u64);
        let mut opens = 0;
        while na + nb < 3000 && opens < 200 {
            opens += 1;
            s.w.reopen().unwrap_or_else(|e| panic!("harness: {e}"));
            s.w.trane.set_scheduler_options(o.clone());
            step(format!("batch for {}", FACTORS[f]));
            let batch = s.w.trane.get_exercise_batch(None).unwrap_or_default();
            let x = batch.iter().filter(|m| ours.contains(m.id.as_str())).count() as u64;
            let y = batch.iter().filter(|m| theirs.contains(m.id.as_str())).count() as u64;
            na += x;
            nb += y;
            ctx.count("sessions_opened");
            ctx.add("selections", x + y);
            ctx.seen(&(f, x, y));
        }
        if na + nb < 2900 {
            ctx.violate(format!("too-few:{}", FACTORS[f]), s.repro(json!({"selected": na + nb, "sessions": opens})));
            return;
        }
        ctx.count("evaluations");
        ctx.count(&format!("factor_{}", FACTORS[f]));
        ctx.count(&format!("factors_practised_{trend}"));
        let share = na as f64 / (na + nb) as f64;
        ctx.max(&format!("favoured_permille_{}", FACTORS[f]), (share * 1000.0) as u64);
        if share < FAVOUR[f] {
            ctx.violate(
                format!("preference:{}", FACTORS[f]),
                s.repro(json!({"factor": FACTORS[f], "of the favoured group": na, "of the other": nb, "share": share, "grades": ga, "grades of the other": gb, "expected at least": FAVOUR[f]})),
            );
        }
    });
    ctx.require("rotations", 4);
    for f in FACTORS {
        ctx.require(&format!("factor_{f}"), 1);
    }
}

const ROTATION_LIMIT: f64 = 0.7;
const FAVOUR: [f64; 8] = [0.6, 0.54, 0.54, 0.6, 0.54, 0.6, 0.54, 0.54];
