//! Model monitors over the persistent stores: every answer is compared with a reference history.

use crate::{
    ctx::{Ctx, scratch, sorted, step},
    lib_gen::Ids,
    rng::Rng,
    world::u,
};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use trane::{
    blacklist::{Blacklist, LocalBlacklist},
    data::{ExerciseDelta, ExerciseTrial, UnitReward},
    practice_deltas::{LocalPracticeDeltas, PracticeDeltas},
    practice_rewards::{LocalPracticeRewards, PracticeRewards},
    practice_stats::{LocalPracticeStats, PracticeStats},
    review_list::{LocalReviewList, ReviewList},
};

pub fn hostile_ids(r: &mut Rng, n: usize) -> Vec<String> {
    let mut ids = Ids::new(true);
    let mut out: Vec<String> = vec![];
    for i in 0..n {
        let parent = if !out.is_empty() && r.chance(0.5) {
            Some(r.pick(&out).clone())
        } else {
            None
        };
        out.push(ids.fresh(r, parent.as_deref(), &format!("u{i}")));
    }
    // Near variants: other case, wildcard characters in place of a literal one.
    for i in 0..n / 3 {
        let b = out[i].clone();
        let v = match r.below(4) {
            0 => b.to_uppercase(),
            1 => b.to_lowercase(),
            2 => b.replacen('_', "Z", 1),
            _ => format!("{b}x"),
        };
        if !out.contains(&v) && !v.is_empty() {
            out.push(v);
        }
    }
    out
}

pub fn random_prefix(r: &mut Rng, ids: &[String]) -> String {
    match r.below(10) {
        0 => (*r.pick(&["%", "_", "a%", "music_", "%%", "__"])).to_string(),
        1 => r.pick(ids).to_uppercase(),
        2 => "no such prefix".to_string(),
        3 => r.pick(ids).clone(),
        _ => {
            let id = r.pick(ids);
            let chars: Vec<char> = id.chars().collect();
            let n = r.usize_in(1, chars.len());
            chars[..n].iter().collect()
        }
    }
}

/// Whether `got` is a legal "latest n" view of `all`: right size, newest first, nothing older than
/// an omitted record; ties in time are interchangeable.
pub fn latest_ok<V: Clone + PartialEq + Ord>(all: &[(i64, V)], got: &[(i64, V)], n: usize) -> Result<(), String> {
    let want = n.min(all.len());
    if got.len() != want {
        return Err(format!("returned {} records, expected {want}", got.len()));
    }
    if got.windows(2).any(|w| w[0].0 < w[1].0) {
        return Err("not in descending order of time".into());
    }
    let mut ts: Vec<i64> = all.iter().map(|x| x.0).collect();
    ts.sort_unstable_by(|a, b| b.cmp(a));
    let got_ts: Vec<i64> = got.iter().map(|x| x.0).collect();
    if got_ts != ts[..want] {
        return Err("not the most recent records".into());
    }
    // Multiset inclusion.
    let mut pool: Vec<(i64, V)> = all.to_vec();
    for g in got {
        match pool.iter().position(|p| p == g) {
            Some(i) => {
                pool.swap_remove(i);
            }
            None => return Err("a returned record was never stored (or is returned twice)".into()),
        }
    }
    Ok(())
}

type Hist = BTreeMap<String, Vec<(i64, u64)>>;

fn bits(f: f32) -> u64 {
    u64::from(f.to_bits())
}

fn rand_ts(r: &mut Rng) -> i64 {
    match r.below(12) {
        0 => 0,
        1 => -r.range(1, 1 << 40),
        2 => r.range(1, 1 << 50),
        3 => i64::MAX - r.range(0, 3),
        4 => i64::MIN + r.range(0, 3),
        5..=7 => r.range(0, 5),
        _ => 1_700_000_000 + r.range(-5_000_000, 5_000_000),
    }
}

fn count_param(r: &mut Rng) -> u32 {
    match r.below(8) {
        0 => 0,
        1 => 1,
        2 => 1_000_000,
        3 => u32::MAX,
        _ => r.below(12) as u32,
    }
}

/// After a trim to n: every unit keeps exactly its n most recent records.
fn trim_model(h: &mut Hist, n: usize, read: impl Fn(&str) -> Vec<(i64, u64)>) -> Result<(), String> {
    for (id, v) in h.iter_mut() {
        let got = read(id);
        latest_ok(v, &got, n).map_err(|e| format!("after trimming to {n}, unit {id:?}: {e}"))?;
        *v = got;
    }
    Ok(())
}

/// One generic driver for the trial store and the delta store, which promise the same things.
trait Series {
    fn open(path: &str) -> Self;
    fn get(&self, id: &str, n: u32) -> Result<Vec<(i64, u64)>, String>;
    fn put(&mut self, v: &[(String, i64, f32)]) -> Result<(), String>;
    fn trim(&mut self, n: u32) -> Result<(), String>;
    fn remove(&mut self, prefix: &str) -> Result<(), String>;
    fn value(r: &mut Rng) -> f32;
}

impl Series for LocalPracticeStats {
    fn open(p: &str) -> Self {
        LocalPracticeStats::new_from_disk(p).expect("open store")
    }
    fn get(&self, id: &str, n: u32) -> Result<Vec<(i64, u64)>, String> {
        let v = self.get_scores(u(id), n).map_err(|e| format!("{e:#}"))?;
        if v.iter().any(|t| t.exercise_id != u(id)) {
            return Err("a record of another exercise was returned".into());
        }
        Ok(v.iter().map(|t| (t.timestamp, bits(t.score))).collect())
    }
    fn put(&mut self, v: &[(String, i64, f32)]) -> Result<(), String> {
        let t: Vec<ExerciseTrial> = v
            .iter()
            .map(|(id, ts, s)| ExerciseTrial {
                exercise_id: u(id),
                score: *s,
                timestamp: *ts,
            })
            .collect();
        self.record_exercise_scores(&t).map_err(|e| format!("{e:#}"))
    }
    fn trim(&mut self, n: u32) -> Result<(), String> {
        self.trim_scores(n).map_err(|e| format!("{e:#}"))
    }
    fn remove(&mut self, p: &str) -> Result<(), String> {
        self.remove_scores_with_prefix(p).map_err(|e| format!("{e:#}"))
    }
    fn value(r: &mut Rng) -> f32 {
        r.usize_in(1, 5) as f32
    }
}

impl Series for LocalPracticeDeltas {
    fn open(p: &str) -> Self {
        LocalPracticeDeltas::new_from_disk(p).expect("open store")
    }
    fn get(&self, id: &str, n: u32) -> Result<Vec<(i64, u64)>, String> {
        let v = self.get_deltas(u(id), n).map_err(|e| format!("{e:#}"))?;
        if v.iter().any(|t| t.exercise_id != u(id)) {
            return Err("a record of another exercise was returned".into());
        }
        Ok(v.iter().map(|t| (t.timestamp, bits(t.delta))).collect())
    }
    fn put(&mut self, v: &[(String, i64, f32)]) -> Result<(), String> {
        let t: Vec<ExerciseDelta> = v
            .iter()
            .map(|(id, ts, s)| ExerciseDelta {
                exercise_id: u(id),
                delta: *s,
                timestamp: *ts,
            })
            .collect();
        self.record_exercise_deltas(&t).map_err(|e| format!("{e:#}"))
    }
    fn trim(&mut self, n: u32) -> Result<(), String> {
        self.trim_deltas(n).map_err(|e| format!("{e:#}"))
    }
    fn remove(&mut self, p: &str) -> Result<(), String> {
        self.remove_deltas_with_prefix(p).map_err(|e| format!("{e:#}"))
    }
    fn value(r: &mut Rng) -> f32 {
        (r.unit() * 10.0 - 5.0) as f32
    }
}

fn series<S: Series>(ctx: &mut Ctx, name: &str, frac: f64) {
    let min = ctx.scale(60, 6);
    ctx.cases(name, min, 100_000, frac, |ctx, r| {
        let dir = scratch();
        let path = dir.path().join("store.db");
        let path = path.to_str().unwrap();
        let mut s = S::open(path);
        let n_ids = r.usize_in(3, 14);
        let ids = hostile_ids(r, n_ids);
        let mut h: Hist = BTreeMap::new();
        let mut log: Vec<String> = vec![];
        let nops = r.usize_in(6, 40);
        for _ in 0..nops {
            let op = r.below(20);
            ctx.count("evaluations");
            match op {
                0..=8 => {
                    let k = if r.chance(0.5) { 1 } else { r.below(25) };
                    let one = r.pick(&ids).clone();
                    let same = r.chance(0.4);
                    let batch: Vec<(String, i64, f32)> = (0..k)
                        .map(|_| {
                            let id = if same { one.clone() } else { r.pick(&ids).clone() };
                            (id, rand_ts(r), S::value(r))
                        })
                        .collect();
                    log.push(format!("record {}", batch.len()));
                    if let Err(e) = s.put(&batch) {
                        ctx.violate(format!("{name}:record-fails"), json!({"error": e, "log": log}));
                        return;
                    }
                    for (id, ts, v) in batch {
                        h.entry(id).or_default().push((ts, bits(v)));
                    }
                    ctx.count("records_batches");
                }
                9..=11 => {
                    let n = count_param(r);
                    log.push(format!("trim {n}"));
                    if let Err(e) = s.trim(n) {
                        ctx.violate(format!("{name}:trim-fails"), json!({"error": e, "log": log}));
                        return;
                    }
                    ctx.count("trims");
                    let res = trim_model(&mut h, n as usize, |id| s.get(id, u32::MAX).unwrap_or_default());
                    if let Err(e) = res {
                        ctx.violate(format!("{name}:trim"), json!({"what": e, "log": log, "ids": ids}));
                        return;
                    }
                }
                12..=13 => {
                    let p = random_prefix(r, &ids);
                    log.push(format!("remove prefix {p:?}"));
                    if let Err(e) = s.remove(&p) {
                        ctx.violate(format!("{name}:remove-fails"), json!({"error": e, "log": log}));
                        return;
                    }
                    let before = h.len();
                    h.retain(|id, _| !id.starts_with(&p));
                    if h.len() != before {
                        ctx.count("prefix_removals_with_effect");
                    }
                }
                14 => {
                    drop(s);
                    s = S::open(path);
                    log.push("reopen".into());
                    ctx.count("reopens");
                }
                _ => {
                    let id = r.pick(&ids).clone();
                    let n = count_param(r);
                    log.push(format!("get {id:?} {n}"));
                    ctx.count("reads");
                    let all = h.get(&id).cloned().unwrap_or_default();
                    let res = s.get(&id, n).and_then(|g| latest_ok(&all, &g, n as usize));
                    if let Err(e) = res {
                        ctx.violate(format!("{name}:read"), json!({"what": e, "id": id, "n": n, "log": log}));
                        return;
                    }
                }
            }
            // Full sweep: no operation may disturb any other unit.
            if r.chance(0.3) {
                for id in &ids {
                    let all = h.get(id).cloned().unwrap_or_default();
                    let res = s.get(id, u32::MAX).and_then(|g| latest_ok(&all, &g, usize::MAX));
                    ctx.count("sweep_reads");
                    if let Err(e) = res {
                        ctx.violate(
                            format!("{name}:sweep:{}", log.last().map_or("", |l| l.split(' ').next().unwrap_or(""))),
                            json!({"what": e, "id": id, "log": log, "ids": ids}),
                        );
                        return;
                    }
                }
            }
            ctx.seen(&(sorted(h.iter().map(|(k, v)| (k.clone(), v.len()))), op));
        }
        ctx.sample(json!({"ids": ids, "ops": log}));
    });
}

pub fn trials(ctx: &mut Ctx) {
    ctx.rule = "random histories of record/trim/remove-by-prefix/read/reopen over hostile ids and duplicate and extreme timestamps; distinct = distinct store shapes (records per unit) reached with the operation applied".into();
    ctx.assumptions.push("scores are finite numbers; single client per store file".into());
    series::<LocalPracticeStats>(ctx, "trials", 0.95);
    floors(ctx);
}

pub fn deltas(ctx: &mut Ctx) {
    ctx.rule = "random histories of record/trim/remove-by-prefix/read/reopen over hostile ids and duplicate and extreme timestamps; plus scoring sequences whose recorded prediction errors are recomputed; distinct = distinct store shapes reached with the operation applied".into();
    ctx.assumptions.push("deltas are finite numbers; single client per store file".into());
    series::<LocalPracticeDeltas>(ctx, "deltas", 0.6);
    crate::checks::sched::delta_on_score(ctx, 0.95);
    floors(ctx);
}

fn floors(ctx: &mut Ctx) {
    ctx.require("trims", 20);
    ctx.require("prefix_removals_with_effect", 20);
    ctx.require("reopens", 20);
    ctx.require("sweep_reads", 200);
}

// ------------------------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
struct Rw {
    ts: i64,
    v: f32,
    w: f32,
}

fn similar(a: &Rw, b: &Rw) -> bool {
    a.v == b.v
        && (i128::from(a.ts) - i128::from(b.ts)).abs() < 86_400
        && (f64::from(a.w) - f64::from(b.w)).abs() < 0.1 - 1e-6
}
fn maybe_similar(a: &Rw, b: &Rw) -> bool {
    a.v == b.v
        && (i128::from(a.ts) - i128::from(b.ts)).abs() < 86_400
        && (f64::from(a.w) - f64::from(b.w)).abs() < 0.1 + 1e-6
}

#[derive(Default)]
struct RwUnit {
    /// What the store holds.
    stored: Vec<Rw>,
    /// Accepted since the store was opened and not deleted on request, oldest first.
    recent: Vec<Rw>,
}

fn rw_key(x: &Rw) -> (i64, (u32, u32)) {
    (x.ts, (x.v.to_bits(), x.w.to_bits()))
}

pub fn rewards(ctx: &mut Ctx) {
    ctx.rule = "random histories of record/trim/remove-by-prefix/read/reopen of unit rewards with near-duplicates; distinct = distinct store shapes reached with the operation applied".into();
    ctx.assumptions.push("values and weights are finite numbers; single client per store file".into());
    let min = ctx.scale(60, 6);
    ctx.cases("rewards", min, 100_000, 0.95, |ctx, r| {
        let dir = scratch();
        let path = dir.path().join("store.db");
        let path = path.to_str().unwrap();
        let mut s = LocalPracticeRewards::new_from_disk(path).expect("open store");
        let n_ids = r.usize_in(2, 9);
        let ids = hostile_ids(r, n_ids);
        let mut h: HashMap<String, RwUnit> = HashMap::new();
        let mut log: Vec<String> = vec![];
        let vals = [0.8f32, 0.4, -0.3, -0.5, -1.0, 0.72];
        let extreme = r.chance(0.15);
        let base = 1_700_000_000i64;
        let nops = r.usize_in(6, 45);
        for _ in 0..nops {
            let op = r.below(20);
            ctx.count("evaluations");
            match op {
                0..=11 => {
                    let k = if r.chance(0.4) { 1 } else { r.below(14) };
                    let one = r.pick(&ids).clone();
                    let same = r.chance(0.6);
                    let batch: Vec<(String, Rw)> = (0..k)
                        .map(|_| {
                            let id = if same { one.clone() } else { r.pick(&ids).clone() };
                            let ts = if extreme {
                                rand_ts(r)
                            } else if r.chance(0.3) {
                                base + r.range(0, 3) * 86_400
                            } else {
                                base + r.range(-20, 20) * 43_200 + r.range(-2, 2)
                            };
                            (
                                id,
                                Rw {
                                    ts,
                                    v: *r.pick(&vals),
                                    w: (r.below(21) as f32) * 0.05,
                                },
                            )
                        })
                        .collect();
                    let req: Vec<UnitReward> = batch
                        .iter()
                        .map(|(id, x)| UnitReward {
                            unit_id: u(id),
                            value: x.v,
                            weight: x.w,
                            timestamp: x.ts,
                        })
                        .collect();
                    log.push(format!("record {batch:?}"));
                    let updated = match s.record_unit_rewards(&req) {
                        Ok(v) => v,
                        Err(e) => {
                            ctx.violate("rewards:record-fails", json!({"error": format!("{e:#}"), "log": log}));
                            return;
                        }
                    };
                    ctx.count("record_batches");
                    // The answer lists one entry per accepted reward, in order; decide which were
                    // accepted, and judge each decision.
                    let mut left = updated.clone();
                    let mut per: BTreeMap<String, usize> = BTreeMap::new();
                    for x in left.drain(..) {
                        *per.entry(x.to_string()).or_default() += 1;
                    }
                    let mut before: BTreeMap<String, Vec<Rw>> = BTreeMap::new();
                    for (id, _) in &batch {
                        before.entry(id.clone()).or_insert_with(|| {
                            h.get(id).map(|x| x.stored.clone()).unwrap_or_default()
                        });
                    }
                    for (id, prior) in before {
                        let mine: Vec<Rw> = batch.iter().filter(|(i, _)| *i == id).map(|(_, x)| x.clone()).collect();
                        let got: Vec<Rw> = s
                            .get_rewards(u(&id), u32::MAX)
                            .expect("read")
                            .iter()
                            .map(|x| Rw { ts: x.timestamp, v: x.value, w: x.weight })
                            .collect();
                        let e = h.entry(id.clone()).or_default();
                        // Simulate acceptance: forced skip, forced accept, or free.
                        let mut forced_accept = 0usize;
                        let mut forced_skip = 0usize;
                        let mut accepted: Vec<Rw> = vec![];
                        let mut free = false;
                        for x in &mine {
                            let n = e.recent.len();
                            let win = &e.recent[n.saturating_sub(10)..];
                            if win.iter().any(|y| similar(x, y)) {
                                forced_skip += 1;
                            } else if !e.recent.iter().any(|y| maybe_similar(x, y)) {
                                forced_accept += 1;
                                accepted.push(x.clone());
                                e.recent.push(x.clone());
                            } else {
                                free = true;
                                break;
                            }
                        }
                        let n_upd = per.get(&id).copied().unwrap_or(0);
                        if free {
                            // An undetermined decision: adopt what the store did from here on.
                            ctx.count("undetermined");
                            for (other, _) in &batch {
                                h.entry(other.clone()).or_default().stored = s
                                    .get_rewards(u(other), u32::MAX)
                                    .expect("read")
                                    .iter()
                                    .map(|x| Rw { ts: x.timestamp, v: x.value, w: x.weight })
                                    .collect();
                            }
                            // Forget recency: a reopened store does as well.
                            drop(s);
                            s = LocalPracticeRewards::new_from_disk(path).expect("reopen");
                            for v in h.values_mut() {
                                v.recent.clear();
                            }
                            break;
                        }
                        ctx.add("forced_skips", forced_skip as u64);
                        ctx.add("forced_accepts", forced_accept as u64);
                        if n_upd != forced_accept {
                            ctx.violate(
                                "rewards:updated-list",
                                json!({"what": format!("reported {n_upd} stored rewards for {id:?}, expected {forced_accept}"), "log": log}),
                            );
                            return;
                        }
                        let mut all: Vec<(i64, (u32, u32))> = prior.iter().map(rw_key).collect();
                        all.extend(accepted.iter().map(rw_key));
                        let view: Vec<(i64, (u32, u32))> = got.iter().map(rw_key).collect();
                        if let Err(err) = latest_ok(&all, &view, 20) {
                            // Eviction happens per insertion: with ties either may go, which the
                            // comparison above already allows.
                            ctx.violate(
                                "rewards:stored",
                                json!({"what": err, "id": id, "log": log, "stored": format!("{got:?}")}),
                            );
                            return;
                        }
                        if all.len() > 20 {
                            ctx.count("evictions");
                        }
                        e.stored = got;
                    }
                }
                12..=13 => {
                    let n = count_param(r);
                    log.push(format!("trim {n}"));
                    if let Err(e) = s.trim_rewards(n) {
                        ctx.violate("rewards:trim-fails", json!({"error": format!("{e:#}"), "log": log}));
                        return;
                    }
                    ctx.count("trims");
                    for (id, e) in &mut h {
                        let got: Vec<Rw> = s
                            .get_rewards(u(id), u32::MAX)
                            .expect("read")
                            .iter()
                            .map(|x| Rw { ts: x.timestamp, v: x.value, w: x.weight })
                            .collect();
                        let all: Vec<_> = e.stored.iter().map(rw_key).collect();
                        let view: Vec<_> = got.iter().map(rw_key).collect();
                        if let Err(err) = latest_ok(&all, &view, n as usize) {
                            ctx.violate("rewards:trim", json!({"what": err, "id": id, "n": n, "log": log}));
                            return;
                        }
                        // Rewards deleted on request cannot make later ones redundant; whether the
                        // kept ones still do is left open, so recency restarts.
                        let deleted = got.len() != e.stored.len();
                        e.stored = got;
                        if deleted {
                            let kept = e.stored.clone();
                            e.recent.retain(|x| kept.contains(x));
                            if !e.recent.is_empty() {
                                // Undetermined: probe nothing, just reopen below.
                                e.recent.clear();
                            }
                        }
                    }
                    let probe = r.chance(0.7);
                    if probe {
                        // A reward whose like was deleted on request must be stored again.
                        let id = r.pick(&ids).clone();
                        let e = h.entry(id.clone()).or_default();
                        if n == 0 {
                            let x = Rw { ts: base, v: 0.8, w: 0.5 };
                            let up = s
                                .record_unit_rewards(&[UnitReward { unit_id: u(&id), value: x.v, weight: x.w, timestamp: x.ts }])
                                .expect("record");
                            ctx.count("probes_after_delete");
                            if up.len() != 1 || s.get_rewards(u(&id), 5).expect("read").len() != 1 {
                                ctx.violate(
                                    "rewards:lost-after-trim",
                                    json!({"what": "a reward recorded after trimming to zero was dropped", "id": id, "log": log}),
                                );
                                return;
                            }
                            e.stored = vec![x];
                        }
                    }
                    drop(s);
                    s = LocalPracticeRewards::new_from_disk(path).expect("reopen");
                    for v in h.values_mut() {
                        v.recent.clear();
                    }
                }
                14..=15 => {
                    let p = random_prefix(r, &ids);
                    log.push(format!("remove prefix {p:?}"));
                    if let Err(e) = s.remove_rewards_with_prefix(&p) {
                        ctx.violate("rewards:remove-fails", json!({"error": format!("{e:#}"), "log": log}));
                        return;
                    }
                    let mut hit: Vec<(String, Rw)> = vec![];
                    for (id, e) in &mut h {
                        if id.starts_with(&p) {
                            if let Some(x) = e.recent.last() {
                                hit.push((id.clone(), x.clone()));
                            }
                            if !e.stored.is_empty() {
                                ctx.count("prefix_removals_with_effect");
                            }
                            e.stored.clear();
                            e.recent.clear();
                        }
                    }
                    for (id, x) in hit {
                        let up = s
                            .record_unit_rewards(&[UnitReward { unit_id: u(&id), value: x.v, weight: x.w, timestamp: x.ts }])
                            .expect("record");
                        ctx.count("probes_after_delete");
                        if up.len() != 1 || s.get_rewards(u(&id), 5).expect("read").len() != 1 {
                            ctx.violate(
                                "rewards:lost-after-remove",
                                json!({"what": "a reward recorded after removing the unit's rewards was dropped as a duplicate of a removed one", "id": id, "log": log}),
                            );
                            return;
                        }
                        let e = h.entry(id).or_default();
                        e.stored = vec![x.clone()];
                        e.recent = vec![x];
                    }
                    // Whether removal of some units resets the redundancy memory of the others is
                    // left open: restart it.
                    drop(s);
                    s = LocalPracticeRewards::new_from_disk(path).expect("reopen");
                    for v in h.values_mut() {
                        v.recent.clear();
                    }
                }
                16 => {
                    drop(s);
                    s = LocalPracticeRewards::new_from_disk(path).expect("reopen");
                    for v in h.values_mut() {
                        v.recent.clear();
                    }
                    log.push("reopen".into());
                    ctx.count("reopens");
                }
                _ => {
                    let id = r.pick(&ids).clone();
                    let n = count_param(r);
                    let got = match s.get_rewards(u(&id), n) {
                        Ok(g) => g,
                        Err(e) => {
                            ctx.violate("rewards:read-fails", json!({"error": format!("{e:#}"), "log": log}));
                            return;
                        }
                    };
                    ctx.count("reads");
                    let view: Vec<_> = got
                        .iter()
                        .map(|x| (x.timestamp, (x.value.to_bits(), x.weight.to_bits())))
                        .collect();
                    let all: Vec<_> = h
                        .get(&id)
                        .map(|e| e.stored.iter().map(rw_key).collect())
                        .unwrap_or_default();
                    if let Err(err) = latest_ok(&all, &view, n as usize) {
                        ctx.violate("rewards:read", json!({"what": err, "id": id, "n": n, "log": log}));
                        return;
                    }
                }
            }
            let shape: Vec<_> = sorted(h.iter().map(|(k, v)| (k.clone(), v.stored.len())));
            ctx.seen(&(shape, op));
        }
        ctx.sample(json!({"ids": ids, "ops": log.len(), "last": log.last()}));
        step("rewards case end");
    });
    ctx.require("forced_skips", 50);
    ctx.require("forced_accepts", 200);
    ctx.require("evictions", 5);
    ctx.require("probes_after_delete", 5);
    ctx.require("reads", 100);
}

// ------------------------------------------------------------------------------------------------

pub fn sets(ctx: &mut Ctx) {
    ctx.rule = "random histories of add/remove/remove-by-prefix/query/reopen on the blacklist and the review list, over hostile ids; distinct = distinct (contents, operation) reached".into();
    ctx.assumptions.push("single client per store file".into());
    let min = ctx.scale(80, 6);
    ctx.cases("blacklist", min, 100_000, 0.6, |ctx, r| {
        let dir = scratch();
        let path = dir.path().join("store.db");
        let path = path.to_str().unwrap();
        let mut s = LocalBlacklist::new_from_disk(path).expect("open");
        let n_ids = r.usize_in(3, 16);
        let ids = hostile_ids(r, n_ids);
        let mut m: BTreeSet<String> = BTreeSet::new();
        let mut log: Vec<String> = vec![];
        let nops = r.usize_in(8, 40);
        for _ in 0..nops {
            ctx.count("evaluations");
            let op = r.below(12);
            let id = r.pick(&ids).clone();
            let res: Result<(), String> = match op {
                0..=4 => {
                    log.push(format!("add {id:?}"));
                    m.insert(id.clone());
                    s.add_to_blacklist(u(&id)).map_err(|e| format!("{e:#}"))
                }
                5..=6 => {
                    log.push(format!("remove {id:?}"));
                    m.remove(&id);
                    s.remove_from_blacklist(u(&id)).map_err(|e| format!("{e:#}"))
                }
                7..=8 => {
                    let p = random_prefix(r, &ids);
                    log.push(format!("remove prefix {p:?}"));
                    let n = m.len();
                    m.retain(|x| !x.starts_with(&p));
                    if m.len() != n {
                        ctx.count("prefix_removals_with_effect");
                    }
                    s.remove_prefix_from_blacklist(&p).map_err(|e| format!("{e:#}"))
                }
                9 => {
                    log.push("reopen".into());
                    drop(s);
                    s = LocalBlacklist::new_from_disk(path).expect("reopen");
                    ctx.count("reopens");
                    Ok(())
                }
                _ => Ok(()),
            };
            if let Err(e) = res {
                ctx.violate("blacklist:op-fails", json!({"error": e, "log": log}));
                return;
            }
            let last = log.last().and_then(|l| l.split(' ').next()).unwrap_or("").to_string();
            let entries: Vec<String> = match s.get_blacklist_entries() {
                Ok(v) => sorted(v.iter().map(|x| x.to_string())),
                Err(e) => {
                    ctx.violate("blacklist:entries-fail", json!({"error": format!("{e:#}"), "log": log}));
                    return;
                }
            };
            if entries != m.iter().cloned().collect::<Vec<_>>() {
                ctx.violate(
                    format!("blacklist:entries:{last}"),
                    json!({"entries": entries, "expected": m, "log": log}),
                );
                return;
            }
            for x in &ids {
                ctx.count("membership_queries");
                let b = s.blacklisted(u(x)).unwrap_or(false);
                if b != m.contains(x) {
                    ctx.violate(
                        format!("blacklist:membership:{last}"),
                        json!({"id": x, "got": b, "expected": m, "log": log}),
                    );
                    return;
                }
            }
            ctx.seen(&(m.clone(), op));
        }
        ctx.sample(json!({"ops": log}));
    });
    ctx.cases("review", min, 100_000, 0.95, |ctx, r| {
        let dir = scratch();
        let path = dir.path().join("store.db");
        let path = path.to_str().unwrap();
        let mut s = LocalReviewList::new_from_disk(path).expect("open");
        let n_ids = r.usize_in(3, 16);
        let ids = hostile_ids(r, n_ids);
        let mut m: BTreeSet<String> = BTreeSet::new();
        let mut log: Vec<String> = vec![];
        let nops = r.usize_in(8, 40);
        for _ in 0..nops {
            ctx.count("evaluations");
            let op = r.below(10);
            let id = r.pick(&ids).clone();
            let res: Result<(), String> = match op {
                0..=4 => {
                    log.push(format!("add {id:?}"));
                    m.insert(id.clone());
                    s.add_to_review_list(u(&id)).map_err(|e| format!("{e:#}"))
                }
                5..=7 => {
                    log.push(format!("remove {id:?}"));
                    m.remove(&id);
                    s.remove_from_review_list(u(&id)).map_err(|e| format!("{e:#}"))
                }
                8 => {
                    log.push("reopen".into());
                    drop(s);
                    s = LocalReviewList::new_from_disk(path).expect("reopen");
                    ctx.count("reopens");
                    Ok(())
                }
                _ => Ok(()),
            };
            if let Err(e) = res {
                ctx.violate("review:op-fails", json!({"error": e, "log": log}));
                return;
            }
            let got = s.get_review_list_entries().map(|v| sorted(v.iter().map(|x| x.to_string())));
            let want: Vec<String> = m.iter().cloned().collect();
            if got.as_ref().ok() != Some(&want) {
                ctx.violate(
                    "review:entries",
                    json!({"got": format!("{got:?}"), "expected": want, "log": log}),
                );
                return;
            }
            ctx.seen(&(m.clone(), op, 1));
        }
        ctx.sample(json!({"review_ops": log}));
    });
    ctx.require("membership_queries", 1000);
    ctx.require("prefix_removals_with_effect", 20);
    ctx.require("reopens", 20);
}
