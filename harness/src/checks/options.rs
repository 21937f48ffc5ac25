//! C39: options are refused exactly when they make no sense.

use super::batches::{course, lesson};
use crate::ctx::{Ctx, scratch};
use crate::lib_gen::Lib;
use crate::rng::Rng;
use serde_json::{Value, json};
use trane::Trane;
use trane::data::{SchedulerOptions, SchedulerPreferences, UserPreferences};
use trane::preferences_manager::PreferencesManager;
use trane::scheduler::ExerciseScheduler;

/// Whole numbers, each at least `least`, that add up to `total`.
fn parts(r: &mut Rng, n: usize, least: u32, total: u32) -> Vec<u32> {
    let mut v = vec![least; n];
    let mut left = total - least * n as u32;
    // Round shares are as likely as odd ones.
    let unit = *r.pick(&[1u32, 5, 10, 50]);
    while left > 0 {
        let k = unit.min(left);
        let several = r.usize_in(1, (left / k) as usize) as u32;
        v[r.below(n)] += k * several;
        left -= k * several;
    }
    r.shuffle(&mut v);
    v
}

/// Options that make sense, in whole thousandths.
fn sensible(r: &mut Rng) -> SchedulerOptions {
    let mut o = SchedulerOptions::default();
    let shares = parts(r, 5, 0, 1000);
    let widths = parts(r, 5, 10, 5000);
    let mut from = 0;
    for (i, w) in [
        &mut o.new_window_opts,
        &mut o.target_window_opts,
        &mut o.current_window_opts,
        &mut o.easy_window_opts,
        &mut o.mastered_window_opts,
    ]
    .into_iter()
    .enumerate()
    {
        w.percentage = shares[i] as f32 / 1000.0;
        w.range = (from as f32 / 1000.0, (from + widths[i]) as f32 / 1000.0);
        from += widths[i];
    }
    o.batch_size = *r.pick(&[1, 2, 50, 1000, usize::MAX]);
    o.relearn_fraction = *r.pick(&[0.0, 0.001, 0.1, 0.5, 0.8, 0.999, 1.0]);
    o.passing_score.min_score = *r.pick(&[0.0, 0.001, 2.5, 3.0, 3.9, 3.999]);
    o.passing_score.min_fraction = *r.pick(&[0.0, 0.001, 0.5, 0.7, 1.0]);
    o.passing_score.min_avg_trials = *r.pick(&[1.0, 1.001, 1.8, 20.0]);
    o.superseding_score = *r.pick(&[0.0, 2.0, 4.0, 5.0]);
    o.num_trials = *r.pick(&[1, 20, 1000]);
    o.max_lessons_in_progress = *r.pick(&[1, 2, 10, usize::MAX]);
    o
}

const MISTAKES: [&str; 9] =
    ["batch size", "relearn fraction", "passing score", "passing fraction", "passing trials", "shares", "start", "end", "gap"];

fn spoil(r: &mut Rng, o: &mut SchedulerOptions, mistake: &str) {
    let slight = r.chance(0.5);
    let outside = |slight: bool, up: bool| match (up, slight) {
        (true, true) => 1.001f32,
        (true, false) => 7.0,
        (false, true) => -0.001,
        (false, false) => -3.0,
    };
    let up = r.chance(0.5);
    let off = if slight { 0.002f32 } else { 0.2 } * if up { 1.0 } else { -1.0 };
    let any = r.below(5);
    let mut w = [
        &mut o.new_window_opts,
        &mut o.target_window_opts,
        &mut o.current_window_opts,
        &mut o.easy_window_opts,
        &mut o.mastered_window_opts,
    ];
    match mistake {
        "batch size" => o.batch_size = 0,
        "relearn fraction" => o.relearn_fraction = outside(slight, up),
        "passing score" => {
            o.passing_score.min_score = match (up, slight) {
                (true, true) => 4.0,
                (true, false) => 4.7,
                (false, true) => -0.001,
                (false, false) => -2.0,
            }
        }
        "passing fraction" => o.passing_score.min_fraction = outside(slight, up),
        "passing trials" => o.passing_score.min_avg_trials = if slight { 0.999 } else { -1.0 },
        "shares" => w[any].percentage += off,
        "start" => w[0].range.0 += off,
        "end" => w[4].range.1 += off,
        _ => {
            let i = any.min(3);
            if up {
                w[i].range.1 += off;
            } else {
                w[i + 1].range.0 += off;
            }
        }
    }
}

fn facts(o: &SchedulerOptions, got: Value) -> Value {
    json!({"options": format!("{o:?}"), "verdict": got})
}

pub fn validity(ctx: &mut Ctx) {
    ctx.rule = "distinct options".into();
    ctx.assumptions = vec!["Options with values that are not numbers are not judged.".into()];
    ctx.cases("options", 2000, 2_000_000, 0.8, |ctx, r| {
        let mut o = sensible(r);
        ctx.count("evaluations");
        if ctx.seen(&format!("{o:?}")) && ctx.get("sensible") == 1 {
            ctx.sample(json!(format!("{o:?}")));
        }
        ctx.count("sensible");
        if let Err(e) = o.verify() {
            ctx.violate("sensible-refused", facts(&o, json!(format!("{e:#}"))));
        }
        for mistake in MISTAKES {
            let mut bad = o.clone();
            spoil(r, &mut bad, mistake);
            if bad == o {
                continue;
            }
            ctx.count(&format!("mistakes_{}", mistake.replace(' ', "_")));
            ctx.count("evaluations");
            if bad.verify().is_ok() {
                ctx.violate(format!("accepted: {mistake}"), facts(&bad, json!("accepted")));
            }
            if mistake.starts_with("passing") && bad.passing_score.verify().is_ok() {
                ctx.violate(format!("accepted: {mistake}"), facts(&bad, json!("accepted by the options for passing")));
            }
        }
        // The lessons in progress.
        o.max_lessons_in_progress = 0;
        if o.verify().is_ok() {
            ctx.violate("accepted: lessons in progress", facts(&o, json!("accepted")));
        }
    });
    // The preferences give the size of a batch.
    ctx.cases("preferences", 20, 2000, 1.0, |ctx, r| {
        let lib = Lib::from_courses(vec![course("a", vec![lesson("a", "first", 60)])]);
        let dir = scratch();
        lib.write(dir.path()).unwrap_or_else(|e| panic!("harness: {e}"));
        let size = *r.pick(&[None, Some(None), Some(Some(0usize)), Some(Some(1)), Some(Some(7)), Some(Some(50)), Some(Some(5000))]);
        let mut t = Trane::new_local(dir.path(), dir.path()).unwrap_or_else(|e| panic!("harness: {e:#}"));
        let p = UserPreferences {
            scheduler: size.map(|batch_size| SchedulerPreferences { batch_size }),
            ..UserPreferences::default()
        };
        t.set_user_preferences(p).unwrap_or_else(|e| panic!("harness: {e:#}"));
        drop(t);
        ctx.count("evaluations");
        ctx.count("preferences");
        let opened = Trane::new_local(dir.path(), dir.path());
        let given = size.flatten();
        if given == Some(0) {
            ctx.count("preferences_refused");
            if opened.is_ok() {
                ctx.violate("preferences: accepted", json!({"batch size": 0}));
            }
            return;
        }
        let mut want = SchedulerOptions::default();
        if let Some(n) = given {
            want.batch_size = n;
        }
        match opened {
            Err(e) => ctx.violate("preferences: refused", json!({"batch size": given, "error": format!("{e:#}")})),
            Ok(t) => {
                let got = t.get_scheduler_options();
                let n = t.get_exercise_batch(None).map_or(0, |b| b.len());
                if got != want || n == 0 || n > want.batch_size.max(5) {
                    ctx.violate("preferences: not followed", json!({"batch size": given, "options": format!("{got:?}"), "size of a batch": n}));
                }
            }
        }
    });
    for m in MISTAKES {
        ctx.require(&format!("mistakes_{}", m.replace(' ', "_")), 1500);
    }
    ctx.require("preferences", 20);
    ctx.require("preferences_refused", 1);
}
