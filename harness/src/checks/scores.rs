//! Monitors of the scoring formulas (C08): ranges, determinism, dependence on the stated inputs
//! only, and metamorphic relations over hostile histories.

use crate::{
    checks::values::flat_lib,
    ctx::{Ctx, step},
    rng::Rng,
    world::{World, grade, u},
};
use chrono::Utc;
use serde_json::{Value, json};
use trane::{
    data::{ExerciseDelta, ExerciseScore, ExerciseTrial, ExerciseType, UnitReward},
    exercise_scorer::{ExerciseScorer, PowerLawScorer},
    reward_scorer::{RewardScorer, WeightedRewardScorer},
    scheduler::ExerciseScheduler,
};

const DAY: i64 = 86_400;
const EPS: f32 = 1e-4;

fn gap(r: &mut Rng, style: usize) -> i64 {
    match style {
        0 => r.range(0, 3),
        1 => r.range(0, 2 * DAY),
        2 => r.range(DAY, 30 * DAY),
        3 => r.range(0, 900 * DAY),
        4 => *r.pick(&[0, 1, 59, 3600, DAY - 1, DAY, DAY + 1, 7 * DAY, 49 * DAY, 50 * DAY, 730 * DAY, 40_000 * DAY]),
        5 => *r.pick(&[0, 0, 0, 10]),
        _ => *r.pick(&[0, i64::from(u32::MAX), 1 << 40, i64::MAX / 4, i64::MAX]),
    }
}

/// Times in the order the records return them, newest first.
fn times(r: &mut Rng, n: usize) -> Vec<i64> {
    let mut style = r.below(7);
    let mut t = match r.below(6) {
        0 => 0,
        1 => i64::MIN,
        2 => i64::MAX,
        3 => -r.range(0, 1 << 35),
        _ => r.range(1_000_000_000, 2_000_000_000),
    };
    let mut v = vec![t];
    for _ in 1..n {
        if r.chance(0.2) {
            style = r.below(6);
        }
        t = t.saturating_sub(gap(r, style));
        v.push(t);
    }
    v
}

fn trials(times: &[i64], grades: &[usize]) -> Vec<ExerciseTrial> {
    times
        .iter()
        .zip(grades)
        .map(|(t, g)| ExerciseTrial { exercise_id: u("e"), score: *g as f32, timestamp: *t })
        .collect()
}

fn describe(ty: &ExerciseType, t: &[ExerciseTrial], d: &[ExerciseDelta], now: i64) -> Value {
    json!({
        "type": format!("{ty:?}"), "now": now,
        "trials (grade, time), newest first": t.iter().map(|t| json!([t.score, t.timestamp])).collect::<Vec<_>>(),
        "differences": d.iter().map(|d| json!([d.delta, d.timestamp])).collect::<Vec<_>>(),
    })
}

fn score(ctx: &mut Ctx, ty: &ExerciseType, t: &[ExerciseTrial], d: &[ExerciseDelta], now: i64) -> Option<ExerciseScore> {
    let s = match (PowerLawScorer {}).score(ty.clone(), t, d, now) {
        Ok(s) => s,
        Err(e) => {
            ctx.violate("valid-history-refused", json!({"error": e.to_string(), "history": describe(ty, t, d, now)}));
            return None;
        }
    };
    ctx.count("evaluations");
    let bad = if !(0.0..=5.0).contains(&s.value) {
        "score-out-of-range"
    } else if !(0.0..=1.0).contains(&s.urgency) {
        "urgency-out-of-range"
    } else if s.velocity.is_some() != (t.len() >= 2) || s.velocity.is_some_and(|v| !v.is_finite()) {
        "velocity-not-finite"
    } else if t.is_empty() && s.value != 0.0 {
        "score-without-trials"
    } else {
        ""
    };
    if !bad.is_empty() {
        ctx.violate(bad, json!({"score": format!("{s:?}"), "history": describe(ty, t, d, now)}));
    }
    Some(s)
}

fn same(a: &ExerciseScore, b: &ExerciseScore) -> bool {
    a.value == b.value && a.urgency == b.urgency && a.velocity == b.velocity
}

fn slope(t: &[ExerciseTrial]) -> f64 {
    let o = t.last().unwrap().timestamp;
    let xs: Vec<f64> = t.iter().map(|x| (i128::from(x.timestamp) - i128::from(o)) as f64 / DAY as f64).collect();
    let ys: Vec<f64> = t.iter().map(|x| f64::from(x.score)).collect();
    let n = t.len() as f64;
    let (mx, my) = (xs.iter().sum::<f64>() / n, ys.iter().sum::<f64>() / n);
    let num: f64 = xs.iter().zip(&ys).map(|(x, y)| (x - mx) * (y - my)).sum();
    let den: f64 = xs.iter().map(|x| (x - mx) * (x - mx)).sum();
    num / den
}

fn history(ctx: &mut Ctx, r: &mut Rng) {
    let ty = if r.chance(0.5) { ExerciseType::Declarative } else { ExerciseType::Procedural };
    let n = *r.pick(&[0, 1, 1, 2, 2, 3, 4, 5, 8, 20, 20, 60]);
    let ts = times(r, n.max(1))[..n].to_vec();
    let gs: Vec<usize> = match r.below(5) {
        0 => vec![r.usize_in(1, 5); n],
        1 => (0..n).map(|_| r.usize_in(4, 5)).collect(),
        2 => (0..n).map(|_| r.usize_in(1, 2)).collect(),
        _ => (0..n).map(|_| r.usize_in(1, 5)).collect(),
    };
    let t = trials(&ts, &gs);
    let nd = *r.pick(&[0, 0, 1, 2, 3, 10]);
    let sign = *r.pick(&[-1.0f32, 1.0, 0.0]);
    let d: Vec<ExerciseDelta> = times(r, nd.max(1))[..nd]
        .iter()
        .map(|x| {
            let v = *r.pick(&[0.0f32, 0.1, 1.0, 2.5, 5.0]);
            let v = if sign == 0.0 && r.chance(0.5) { -v } else if sign < 0.0 { -v } else { v };
            ExerciseDelta { exercise_id: u("e"), delta: v, timestamp: *x }
        })
        .collect();
    let last = ts.first().copied().unwrap_or(0);
    let now = match r.below(6) {
        0 => last,
        1 => last.saturating_sub(gap(r, 4)),
        2 => last.saturating_add(gap(r, 6)),
        3 => last.saturating_add(gap(r, 4)),
        _ => last.saturating_add(gap(r, 3)),
    };
    ctx.seen(&(format!("{ty:?}"), &ts, &gs, now, nd));
    let Some(s) = score(ctx, &ty, &t, &d, now) else { return };
    let d0 = describe(&ty, &t, &d, now);

    // Determinism, and dependence on the stated inputs only.
    let again = score(ctx, &ty, &t, &d, now);
    if again.is_some_and(|a| !same(&a, &s)) {
        ctx.violate("not-deterministic", d0.clone());
    }
    let renamed: Vec<ExerciseTrial> = t.iter().map(|x| ExerciseTrial { exercise_id: u("other"), ..x.clone() }).collect();
    if score(ctx, &ty, &renamed, &d, now).is_some_and(|a| !same(&a, &s)) {
        ctx.violate("depends-on-identifier", d0.clone());
    }
    let span = |a: i64, b: i64| i128::from(a) - i128::from(b);
    let shift = r.range(-(1 << 34), 1 << 34);
    let fits = ts.iter().chain(d.iter().map(|x| &x.timestamp)).chain([&now]).all(|x| x.checked_add(shift).is_some())
        && [(now, last), (last, ts.last().copied().unwrap_or(last))].iter().all(|(a, b)| i64::try_from(span(*a, *b)).is_ok())
        && d.windows(2).all(|w| i64::try_from(span(w[0].timestamp, w[1].timestamp)).is_ok())
        && (d.is_empty() || i64::try_from(span(d[0].timestamp, d[d.len() - 1].timestamp)).is_ok());
    if fits {
        let t2: Vec<ExerciseTrial> = t.iter().map(|x| ExerciseTrial { timestamp: x.timestamp + shift, ..x.clone() }).collect();
        let d2: Vec<ExerciseDelta> = d.iter().map(|x| ExerciseDelta { timestamp: x.timestamp + shift, ..x.clone() }).collect();
        ctx.count("shifted");
        if score(ctx, &ty, &t2, &d2, now + shift).is_some_and(|a| !same(&a, &s)) {
            ctx.violate("depends-on-absolute-time", json!({"shift": shift, "history": d0}));
        }
    }
    if n == 0 {
        return;
    }
    let plain = if nd == 0 { s.clone() } else { match score(ctx, &ty, &t, &[], now) { Some(x) => x, None => return } };
    let (lo, hi) = (*gs.iter().min().unwrap() as f32, *gs.iter().max().unwrap() as f32);
    if plain.value > hi + EPS {
        ctx.violate("better-than-every-grade", json!({"score": plain.value, "history": d0}));
    }
    // Right after practice nothing has faded: the score is the average of the record.
    let Some(fresh) = score(ctx, &ty, &t, &[], last) else { return };
    if !(lo - EPS..=hi + EPS).contains(&fresh.value) {
        let x = &fresh;
        ctx.violate("right-after-practice", json!({"score": x.value, "history": d0}));
    }
    if nd > 0 {
        let worst = d.iter().map(|x| x.delta.abs()).fold(0.0, f32::max);
        let change = s.value - plain.value;
        ctx.count("with_differences");
        if change.abs() > worst / 4.0 + EPS {
            ctx.violate("difference-too-strong", json!({"change": change, "history": d0}));
        }
        if d.iter().all(|x| x.delta >= 0.0) && change < -EPS || d.iter().all(|x| x.delta <= 0.0) && change > EPS {
            ctx.violate("difference-of-wrong-sign", json!({"change": change, "history": d0}));
        }
    }

    // Time passes.
    let mut nows = vec![last, now.max(last)];
    for _ in 0..3 {
        let style = r.below(7);
        nows.push(last.saturating_add(gap(r, style)));
    }
    if r.chance(0.4) {
        nows.push(last.saturating_add(50 * DAY - 1));
        nows.push(last.saturating_add(50 * DAY));
    }
    nows.sort_unstable();
    let mut prev: Option<(i64, ExerciseScore)> = None;
    for w in nows {
        let Some(x) = score(ctx, &ty, &t, &d, w) else { return };
        if let Some((pw, p)) = prev {
            let age = |w: i64| span(w, last);
            let floor = n >= 2 && fresh.value >= 4.0 - EPS && age(pw) < i128::from(50 * DAY) && age(w) >= i128::from(50 * DAY);
            let limit = if floor { p.value.max(0.75 * (hi + d.iter().map(|x| x.delta).fold(0.0, f32::max) / 4.0)) } else { p.value };
            ctx.count(if floor { "time_steps_over_the_floor" } else { "time_steps" });
            if !floor && fresh.value >= 3.5 && age(pw) < i128::from(50 * DAY) && age(w) >= i128::from(50 * DAY) {
                ctx.count("time_steps_of_a_record_just_below_good");
            }
            if x.value > limit + EPS {
                ctx.violate("score-rises-with-time", json!({"from": [pw, p.value], "to": [w, x.value], "history": d0}));
            }
            if x.urgency < p.urgency - EPS {
                ctx.violate("urgency-falls-with-time", json!({"from": [pw, p.urgency], "to": [w, x.urgency], "history": d0}));
            }
        }
        prev = Some((w, x));
    }

    // Better grades.
    let better = |ctx: &mut Ctx, sig: &str, gs2: &[usize]| {
        let t2 = trials(&ts, gs2);
        if let Some(x) = score(ctx, &ty, &t2, &d, now) {
            ctx.count("better_grades");
            if x.value < s.value - EPS {
                ctx.violate(sig, json!({"score": s.value, "with better grades": x.value, "grades": gs2, "history": d0}));
            }
        }
    };
    if gs[0] != 2 && gs[0] != 5 {
        let mut g2 = gs.clone();
        g2[0] += 1;
        better(ctx, "better-latest-grade-lowers-score", &g2);
    }
    if lo == hi && hi < 5.0 {
        better(ctx, "better-uniform-grade-lowers-score", &vec![gs[0] + 1; n]);
    }

    // Trend.
    if n >= 2 {
        let v = s.velocity.unwrap_or(f32::NAN);
        let days = span(ts[0], ts[n - 1]) as f64 / DAY as f64;
        if days == 0.0 {
            if v != 0.0 {
                ctx.violate("trend-without-time", json!({"velocity": v, "history": d0}));
            }
        } else if (1.0..1e6).contains(&days) {
            let want = slope(&t);
            ctx.count("trends");
            if (f64::from(v) - want).abs() > 1e-3 * want.abs() + 1e-2 / days {
                ctx.violate("wrong-trend", json!({"velocity": v, "slope": want, "history": d0}));
            }
        }
    }

    // Records out of order are refused.
    let mut wrong = t.clone();
    r.shuffle(&mut wrong);
    let sorted = wrong.windows(2).all(|w| w[0].timestamp >= w[1].timestamp);
    if !sorted {
        ctx.count("unsorted");
        if (PowerLawScorer {}).score(ty.clone(), &wrong, &d, now).is_ok() {
            ctx.violate("unsorted-accepted", describe(&ty, &wrong, &d, now));
        }
    }
}

fn reward_list(r: &mut Rng, now: i64) -> Vec<UnitReward> {
    let n = r.below(5);
    let style = r.below(4);
    (0..n)
        .map(|_| {
            let age = match style {
                0 => r.range(0, 3),
                1 => r.range(0, 40) * DAY + DAY / 2,
                2 => *r.pick(&[-1000 * DAY, -DAY, 0, 14 * DAY, 1000 * DAY, 100_000 * DAY]),
                _ => *r.pick(&[i64::MAX, i64::MIN + 1, 1 << 45, -(1 << 45), 0]),
            };
            UnitReward {
                unit_id: u("x"),
                value: *r.pick(&[-1.0f32, -0.5, -0.2, 0.2, 0.4, 0.8, 0.0]),
                weight: *r.pick(&[1.0f32, 0.8, 0.64, 0.2, 0.05, 0.04, 0.0]),
                timestamp: now.saturating_sub(age),
            }
        })
        .collect()
}

fn rewards(ctx: &mut Ctx, r: &mut Rng) {
    let rs = WeightedRewardScorer {};
    let now = Utc::now().timestamp();
    let (c, l) = (reward_list(r, now), reward_list(r, now));
    let list = |v: &[UnitReward]| -> Value { v.iter().map(|x| json!({"value": x.value, "weight": x.weight, "age": i128::from(now) - i128::from(x.timestamp)})).collect() };
    let d0 = json!({"course": list(&c), "lesson": list(&l)});
    let Ok(x) = rs.score_rewards(&c, &l) else {
        ctx.violate("rewards-refused", d0);
        return;
    };
    ctx.count("evaluations");
    ctx.seen(&d0.to_string());
    let all: Vec<f32> = c.iter().chain(&l).map(|x| x.value).collect();
    let (lo, hi) = (all.iter().copied().fold(0.0, f32::min), all.iter().copied().fold(0.0, f32::max));
    if !x.is_finite() || x < lo - EPS || x > hi + EPS {
        ctx.violate("combined-reward-out-of-range", json!({"combined": x, "rewards": d0}));
    }
    // A single reward counts in full at first and halves every fourteen days.
    let days = r.range(0, 50);
    let one = UnitReward { unit_id: u("x"), value: *r.pick(&[-1.0f32, -0.4, 0.4, 0.8]), weight: 1.0, timestamp: now - days * DAY - DAY / 2 };
    let want = one.value * 0.5f32.powf(days as f32 / 14.0);
    let (a, b) = if r.chance(0.5) { (vec![one.clone()], vec![]) } else { (vec![], vec![one.clone()]) };
    if let Ok(x) = rs.score_rewards(&a, &b) {
        ctx.count("single_rewards");
        if (x - want).abs() > 0.01 {
            ctx.violate("single-reward", json!({"combined": x, "expected": want, "days": days, "value": one.value}));
        }
    }
    // The lesson counts for more than the course.
    let at = |v: f32| vec![UnitReward { unit_id: u("x"), value: v, weight: 1.0, timestamp: now }];
    let (v, w) = (*r.pick(&[-1.0f32, 0.4, 0.8]), *r.pick(&[-0.6f32, 0.2, 1.0]));
    if let Ok(x) = rs.score_rewards(&at(v), &at(w)) {
        ctx.count("two_rewards");
        if (x - (0.3 * v + 0.7 * w)).abs() > 0.01 {
            ctx.violate("lesson-and-course", json!({"course": v, "lesson": w, "combined": x}));
        }
    }
    // Which exercises a combined reward applies to.
    let n = r.below(7);
    let first = match r.below(4) {
        0 => now - r.range(0, 6) * DAY,
        1 => now - r.range(8, 400) * DAY,
        2 => *r.pick(&[i64::MIN, i64::MIN + 5, 0, i64::MAX, now + 400 * DAY]),
        _ => now - r.range(0, 14) * DAY - DAY / 2,
    };
    let gs: Vec<usize> = (0..n).map(|_| r.usize_in(1, 5)).collect();
    let ts: Vec<i64> = (0..n as i64).map(|i| first.saturating_sub(i * r.range(0, DAY))).collect();
    let t = trials(&ts, &gs);
    let reward = *r.pick(&[-1.0f32, -0.1, 0.1, 0.8]);
    let got = rs.apply_reward(reward, &t);
    let recent = i128::from(now) - i128::from(first) < i128::from(7 * DAY);
    let sum: usize = gs.iter().take(3).sum();
    let want = n > 2 && !(recent && (reward > 0.0 && sum < 9 || reward < 0.0 && 2 * sum > 21));
    ctx.count("applications");
    if got != want {
        ctx.violate(
            if want { "reward-withheld" } else { "reward-misapplied" },
            json!({"reward": reward, "trials": t.iter().map(|x| json!([x.score, i128::from(now) - i128::from(x.timestamp)])).collect::<Vec<_>>()}),
        );
    }
}

/// Hostile histories recorded through the library.
fn library(ctx: &mut Ctx, r: &mut Rng) {
    let lib = flat_lib(2);
    let w = World::new(lib, None).unwrap_or_else(|e| panic!("harness: {e}"));
    let exs: Vec<String> = w.lib.ex_at.keys().cloned().collect();
    let mut log = vec![];
    for _ in 0..r.usize_in(1, 12) {
        let e = r.pick(&exs).clone();
        let t = match r.below(4) {
            0 => i64::MIN + r.range(0, 2),
            1 => i64::MAX - r.range(0, 2),
            2 => r.range(-(1 << 40), 1 << 40),
            _ => Utc::now().timestamp() - r.range(-10, 100) * DAY,
        };
        let g = r.usize_in(1, 5);
        step(format!("score {e} {g} at {t}"));
        log.push(json!([e, g, t]));
        if let Err(x) = w.trane.score_exercise(u(&e), grade(g), t) {
            ctx.violate("scoring-refused", json!({"error": x.to_string(), "log": log}));
            return;
        }
        let units = [e.clone(), w.lib.courses[0].id.clone(), w.lib.courses[1].id.clone(), w.lib.courses[0].lessons[0].id.clone()];
        for unit in units {
            ctx.count("evaluations");
            ctx.count("library_scores");
            match w.trane.get_unit_score(u(&unit)) {
                Ok(None) if unit != e => {}
                Ok(Some(s)) if (0.0..=5.0).contains(&s) => {}
                got => {
                    ctx.violate("library-score", json!({"unit": unit, "got": format!("{got:?}"), "log": log}));
                    return;
                }
            }
        }
        if r.chance(0.3)
            && let Err(x) = w.trane.get_exercise_batch(None)
        {
            ctx.violate("batch-after-hostile-times", json!({"error": x.to_string(), "log": log}));
            return;
        }
    }
}

pub fn formulas(ctx: &mut Ctx) {
    ctx.rule = "one evaluation = one call of the real scorer (trials, differences and the present at hostile times, gaps and bursts) whose result was judged alone and against related calls; distinct = distinct histories".into();
    ctx.assumptions = vec![
        "Grades are one to five, as the library records them; differences lie within -5 and 5.".into(),
        "Scores are compared with a tolerance of 1e-4.".into(),
        "The floor for old exercises with a good record applies from 50 days after the last trial and is 75% of the recency-weighted grade.".into(),
    ];
    ctx.cases("library", 20, 100_000, 0.2, library);
    ctx.cases("rewards", 2000, 2_000_000, 0.4, rewards);
    ctx.cases("history", 5000, 10_000_000, 1.0, history);
    for (k, n) in [("library_scores", 100), ("applications", 1000), ("single_rewards", 1000), ("time_steps", 5000), ("time_steps_over_the_floor", 100),
        ("better_grades", 1000), ("trends", 300), ("unsorted", 500), ("shifted", 1000), ("with_differences", 1000)] {
        ctx.require(k, n);
    }
}
