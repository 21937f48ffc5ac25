//! Model monitor over the unit graph: declarations in any order against a reference graph.

use crate::{
    ctx::{Ctx, sorted, scratch, step},
    lib_gen::{Lib, Shape},
    rng::Rng,
    world::u,
};
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};
use trane::{
    Trane,
    course_library::LocalCourseLibrary,
    data::{UnitType, UserPreferences},
    graph::{InMemoryUnitGraph, UnitGraph},
};

type Rel = BTreeMap<String, BTreeSet<String>>;

#[derive(Clone, Debug, Default)]
struct Ref {
    kind: BTreeMap<String, u8>,
    course_of: BTreeMap<String, String>,
    lesson_of: BTreeMap<String, String>,
    deps: Rel,
    enc: BTreeMap<String, Vec<(String, f32)>>,
    sup: Rel,
    declared_enc: bool,
}

fn invert(r: &Rel) -> Rel {
    let mut out = Rel::new();
    for (a, bs) in r {
        for b in bs {
            out.entry(b.clone()).or_default().insert(a.clone());
        }
    }
    out
}

/// Kahn's algorithm: whether the relation is free of cycles.
pub fn acyclic(r: &Rel) -> bool {
    let mut indeg: BTreeMap<&str, usize> = BTreeMap::new();
    for (a, bs) in r {
        indeg.entry(a).or_insert(0);
        for b in bs {
            *indeg.entry(b).or_insert(0) += 1;
        }
    }
    let mut ready: Vec<&str> = indeg.iter().filter(|(_, n)| **n == 0).map(|(k, _)| *k).collect();
    let mut done = 0;
    while let Some(n) = ready.pop() {
        done += 1;
        for b in r.get(n).into_iter().flatten() {
            let d = indeg.get_mut(b.as_str()).expect("harness: node");
            *d -= 1;
            if *d == 0 {
                ready.push(b);
            }
        }
    }
    done == indeg.len()
}

impl Ref {
    fn ids(&self) -> BTreeSet<String> {
        let mut s: BTreeSet<String> = self.kind.keys().cloned().collect();
        for r in [&self.deps, &self.sup] {
            for (a, bs) in r {
                s.insert(a.clone());
                s.extend(bs.iter().cloned());
            }
        }
        for (a, bs) in &self.enc {
            s.insert(a.clone());
            s.extend(bs.iter().map(|b| b.0.clone()));
        }
        s
    }
    fn lessons(&self, c: &str) -> BTreeSet<String> {
        self.course_of.iter().filter(|(_, x)| *x == c).map(|(l, _)| l.clone()).collect()
    }
    fn exercises(&self, l: &str) -> BTreeSet<String> {
        self.lesson_of.iter().filter(|(_, x)| *x == l).map(|(e, _)| e.clone()).collect()
    }
    fn dep(&self, x: &str) -> BTreeSet<String> {
        self.deps.get(x).cloned().unwrap_or_default()
    }
    fn starting(&self, c: &str) -> BTreeSet<String> {
        let ls = self.lessons(c);
        ls.iter().filter(|l| self.dep(l).is_disjoint(&ls)).cloned().collect()
    }
    fn enc_rel(&self) -> Rel {
        self.enc
            .iter()
            .map(|(a, v)| (a.clone(), v.iter().map(|x| x.0.clone()).collect()))
            .collect()
    }
    /// The order in which lessons can be learned at all, including what courses imply.
    fn implied(&self) -> Rel {
        let mut r = self.deps.clone();
        for (l, c) in &self.course_of {
            let e = r.entry(l.clone()).or_default();
            e.extend(self.dep(l));
            e.extend(self.dep(c));
            r.entry(c.clone()).or_default().insert(l.clone());
        }
        r
    }
    fn to_json(&self) -> Value {
        json!({"kind": self.kind, "course_of": self.course_of, "deps": self.deps, "sup": self.sup, "enc": self.enc})
    }
}

#[derive(Clone, Debug)]
enum Op {
    Course(String),
    Lesson(String, String),
    Exercise(String, String),
    Deps(String, Vec<String>),
    Enc(String, Vec<String>, Vec<(String, f32)>),
    Sup(String, Vec<String>),
}

fn ty(k: u8) -> UnitType {
    match k {
        0 => UnitType::Course,
        1 => UnitType::Lesson,
        _ => UnitType::Exercise,
    }
}

fn us(v: &[String]) -> Vec<ustr::Ustr> {
    v.iter().map(|s| u(s)).collect()
}

fn apply(g: &mut InMemoryUnitGraph, r: &Ref, op: &Op) -> Result<(), String> {
    match op {
        Op::Course(c) => g.add_course(u(c)).map_err(|e| e.to_string()),
        Op::Lesson(l, c) => g.add_lesson(u(l), u(c)).map_err(|e| e.to_string()),
        Op::Exercise(e, l) => g.add_exercise(u(e), u(l)).map_err(|e| e.to_string()),
        Op::Deps(x, d) => g
            .add_dependencies(u(x), ty(r.kind.get(x).copied().unwrap_or(1)), &us(d))
            .map_err(|e| e.to_string()),
        Op::Enc(x, d, e) => {
            let e: Vec<_> = e.iter().map(|(a, w)| (u(a), *w)).collect();
            g.add_encompassed(u(x), &us(d), &e).map_err(|e| e.to_string())
        }
        Op::Sup(x, s) => {
            g.add_superseded(u(x), &us(s));
            Ok(())
        }
    }
}

fn record(r: &mut Ref, op: &Op) {
    match op {
        Op::Course(c) => {
            r.kind.insert(c.clone(), 0);
        }
        Op::Lesson(l, c) => {
            r.kind.insert(l.clone(), 1);
            r.kind.insert(c.clone(), 0);
            r.course_of.insert(l.clone(), c.clone());
        }
        Op::Exercise(e, l) => {
            r.kind.insert(e.clone(), 2);
            r.kind.insert(l.clone(), 1);
            r.lesson_of.insert(e.clone(), l.clone());
        }
        Op::Deps(x, d) => r.deps.entry(x.clone()).or_default().extend(d.iter().cloned()),
        Op::Enc(x, d, e) => {
            if !e.is_empty() {
                r.declared_enc = true;
            }
            let mut full = e.clone();
            for d in d {
                if !e.iter().any(|(y, _)| y == d) {
                    full.push((d.clone(), 1.0));
                }
            }
            r.enc.entry(x.clone()).or_default().extend(full);
        }
        Op::Sup(x, s) => {
            if !s.is_empty() {
                r.sup.entry(x.clone()).or_default().extend(s.iter().cloned());
            }
        }
    }
}

fn set(v: Option<std::sync::Arc<ustr::UstrSet>>) -> BTreeSet<String> {
    v.map(|s| s.iter().map(|x| x.to_string()).collect()).unwrap_or_default()
}

fn pairs(v: Option<Vec<(ustr::Ustr, f32)>>) -> Vec<(String, u32)> {
    sorted(v.unwrap_or_default().into_iter().map(|(a, w)| (a.to_string(), w.to_bits())))
}

/// Every query of the graph against the reference.
fn sweep(g: &dyn UnitGraph, r: &Ref, finished: bool) -> Vec<(String, Value)> {
    let mut bad = vec![];
    let dependents = invert(&r.deps);
    let sup_by = invert(&r.sup);
    let mut enc_by: BTreeMap<String, Vec<(String, u32)>> = BTreeMap::new();
    for (a, v) in &r.enc {
        for (b, w) in v {
            enc_by.entry(b.clone()).or_default().push((a.clone(), w.to_bits()));
        }
    }
    let none = BTreeSet::new();
    let mut fail = |what: &str, id: &str, got: Value, want: Value| {
        bad.push((what.to_string(), json!({"query": what, "unit": id, "got": got, "expected": want})));
    };
    for id in r.ids() {
        let x = u(&id);
        let k = g.get_unit_type(x);
        if k != r.kind.get(&id).map(|k| ty(*k)) {
            fail("type", &id, json!(format!("{k:?}")), json!(r.kind.get(&id)));
        }
        for (name, got, want) in [
            ("lessons of a course", set(g.get_course_lessons(x)), r.lessons(&id)),
            ("exercises of a lesson", set(g.get_lesson_exercises(x)), r.exercises(&id)),
            ("dependencies", set(g.get_dependencies(x)), r.dep(&id)),
            ("dependents", set(g.get_dependents(x)), dependents.get(&id).unwrap_or(&none).clone()),
            ("superseded units", set(g.get_supersedes(x)), r.sup.get(&id).unwrap_or(&none).clone()),
            ("superseding units", set(g.get_superseded_by(x)), sup_by.get(&id).unwrap_or(&none).clone()),
        ] {
            if got != want {
                fail(name, &id, json!(got), json!(want));
            }
        }
        let got = g.get_lesson_course(x).map(|s| s.to_string());
        if got.as_ref() != r.course_of.get(&id) {
            fail("course of a lesson", &id, json!(got), json!(r.course_of.get(&id)));
        }
        let got = g.get_exercise_lesson(x).map(|s| s.to_string());
        if got.as_ref() != r.lesson_of.get(&id) {
            fail("lesson of an exercise", &id, json!(got), json!(r.lesson_of.get(&id)));
        }
        if finished {
            let want: Vec<_> = sorted(
                r.enc.get(&id).into_iter().flatten().map(|(a, w)| (a.clone(), w.to_bits())),
            );
            let got = pairs(g.get_encompasses(x));
            if got != want {
                fail("encompassed units", &id, json!(got), json!(want));
            }
            let want = sorted(enc_by.get(&id).cloned().unwrap_or_default());
            let got = pairs(g.get_encompassed_by(x));
            if got != want {
                fail("encompassing units", &id, json!(got), json!(want));
            }
            let got = set(g.get_starting_lessons(x));
            let want = if r.kind.get(&id) == Some(&0) { r.starting(&id) } else { none.clone() };
            if got != want {
                fail("starting lessons", &id, json!(got), json!(want));
            }
        }
    }
    if finished {
        let sinks: BTreeSet<String> = g.get_dependency_sinks().iter().map(|s| s.to_string()).collect();
        let all = r.ids();
        for s in &sinks {
            if !all.contains(s) || !r.dep(s).is_empty() || r.course_of.contains_key(s) || r.kind.get(s) == Some(&2) {
                fail("starting point with prerequisites", s, json!(sinks), json!(r.dep(s)));
            }
        }
        for id in &all {
            let missing = !r.kind.contains_key(id) && dependents.contains_key(id);
            let open_course = r.kind.get(id) == Some(&0)
                && r.dep(id).is_empty()
                && (r.lessons(id).is_empty() || r.starting(id).iter().any(|l| r.dep(l).is_empty()));
            if (missing || open_course) && !sinks.contains(id) {
                fail("not a starting point", id, json!(sinks), json!(missing));
            }
        }
        if acyclic(&r.implied()) && acyclic(&r.deps) {
            let mut seen = BTreeSet::new();
            let mut todo: Vec<String> = sinks.into_iter().collect();
            while let Some(x) = todo.pop() {
                if !seen.insert(x.clone()) {
                    continue;
                }
                todo.extend(set(g.get_dependents(u(&x))));
                todo.extend(set(g.get_starting_lessons(u(&x))));
                if let Some(c) = g.get_lesson_course(u(&x)) {
                    todo.push(c.to_string());
                }
            }
            for (id, k) in &r.kind {
                if *k < 2 && !seen.contains(id) {
                    fail("unreachable from the starting points", id, json!(seen), json!(null));
                }
            }
        }
    }
    bad
}

/// Splits a graph in the DOT format into quoted names, arrows and other words.
fn dot_tokens(text: &str) -> Vec<(bool, String)> {
    let (mut tokens, mut chars) = (vec![], text.chars().peekable());
    while let Some(c) = chars.next() {
        if c == '"' {
            let mut name = String::new();
            while let Some(c) = chars.next() {
                match c {
                    '"' => break,
                    '\\' if matches!(chars.peek(), Some('"' | '\\')) => name.extend(chars.next()),
                    _ => name.push(c),
                }
            }
            tokens.push((true, name));
        } else if !c.is_whitespace() {
            let mut word = c.to_string();
            while let Some(c) = chars.next_if(|c| !c.is_whitespace() && *c != '"') {
                word.push(c);
            }
            tokens.push((false, word));
        }
    }
    tokens
}

fn dot_check(g: &dyn UnitGraph, r: &Ref) -> Vec<(String, Value)> {
    let mut bad = vec![];
    let dependents = invert(&r.deps);
    for courses_only in [false, true] {
        let text = g.generate_dot_graph(courses_only);
        let mut edges = BTreeSet::new();
        let mut nodes = BTreeSet::new();
        let mut tokens = dot_tokens(&text).into_iter().peekable();
        let mut from: Option<String> = None;
        while let Some((quoted, t)) = tokens.next() {
            if !quoted {
                continue;
            }
            let arrow = tokens.peek().is_some_and(|(q, t)| !q && t == "->");
            match from.take() {
                Some(a) => drop(edges.insert((a, t.clone()))),
                None if !arrow => drop(nodes.insert(t.clone())),
                None => (),
            }
            from = arrow.then_some(t);
        }
        let mut want = BTreeSet::new();
        let mut want_nodes = BTreeSet::new();
        for (id, k) in &r.kind {
            if *k == 2 || (courses_only && *k == 1) {
                continue;
            }
            want_nodes.insert(id.clone());
            for d in dependents.get(id).into_iter().flatten() {
                if !courses_only || r.kind.get(d) == Some(&0) {
                    want.insert((id.clone(), d.clone()));
                }
            }
            if *k == 0 && !courses_only {
                for l in r.starting(id) {
                    want.insert((id.clone(), l));
                }
            }
        }
        let missing: Vec<_> = want.difference(&edges).collect();
        let wrong: Vec<_> = edges
            .difference(&want)
            .filter(|(a, b)| {
                !(dependents.get(a).is_some_and(|s| s.contains(b)) && (!courses_only || r.kind.get(b) == Some(&0)))
            })
            .collect();
        let misplaced = nodes.iter().any(|n| match r.kind.get(n) {
            Some(1) => courses_only,
            k => k == Some(&2),
        });
        if !missing.is_empty() || !wrong.is_empty() || misplaced || want_nodes.difference(&nodes).next().is_some() {
            bad.push((
                "exported graph".to_string(),
                json!({"courses_only": courses_only, "missing": missing, "wrong": wrong}),
            ));
        }
    }
    bad
}

/// Random declarations; relations may be cyclic.
fn random_ops(r: &mut Rng) -> Vec<Op> {
    let nc = r.usize_in(1, 5);
    let mut parents: Vec<Op> = vec![];
    let mut units: Vec<String> = vec![];
    let mut later: Vec<(usize, Op)> = vec![];
    for c in 0..nc {
        let cid = format!("c{c}");
        parents.push(Op::Course(cid.clone()));
        units.push(cid.clone());
        for l in 0..r.below(4) {
            let lid = format!("c{c}l{l}");
            parents.push(Op::Lesson(lid.clone(), cid.clone()));
            units.push(lid.clone());
            for e in 0..r.below(3) {
                parents.push(Op::Exercise(format!("{lid}e{e}"), lid.clone()));
            }
        }
    }
    // Keep a parent before its children, otherwise interleave courses freely.
    let mut groups: Vec<Vec<Op>> = vec![];
    for op in parents {
        if matches!(op, Op::Course(_)) {
            groups.push(vec![]);
        }
        groups.last_mut().expect("harness: group").push(op);
    }
    r.shuffle(&mut groups);
    let mut order: Vec<Op> = vec![];
    if r.chance(0.5) {
        while !groups.is_empty() {
            let i = r.below(groups.len());
            order.push(groups[i].remove(0));
            if groups[i].is_empty() {
                groups.remove(i);
            }
        }
    } else {
        order = groups.into_iter().flatten().collect();
    }
    let cyclic = r.chance(0.5);
    let dens = *r.pick(&[0.05, 0.12, 0.25]);
    let rank: BTreeMap<String, usize> = {
        let mut v = units.clone();
        if r.chance(0.5) {
            r.shuffle(&mut v);
        }
        v.into_iter().enumerate().map(|(i, x)| (x, i)).collect()
    };
    let mut mentioned: Vec<String> = units.clone();
    for m in 0..r.below(3) {
        mentioned.push(format!("missing{m}"));
    }
    let enc_declared = r.chance(0.6);
    for x in &units {
        let pick = |r: &mut Rng, p: f64| -> Vec<String> {
            let mut v: Vec<String> = mentioned
                .iter()
                .filter(|y| {
                    let ok = match rank.get(*y) {
                        Some(k) => *k < rank[x] || (cyclic && *y != x && r.chance(0.08)),
                        None => true,
                    };
                    ok && r.chance(p)
                })
                .cloned()
                .collect();
            r.shuffle(&mut v);
            v
        };
        let deps = pick(r, dens);
        let pos = order
            .iter()
            .position(|o| matches!(o, Op::Course(y) | Op::Lesson(y, _) if y == x))
            .expect("harness: position");
        if deps.len() > 1 && r.chance(0.4) {
            later.push((pos, Op::Deps(x.clone(), deps[..1].to_vec())));
            later.push((pos, Op::Deps(x.clone(), deps[1..].to_vec())));
        } else {
            later.push((pos, Op::Deps(x.clone(), deps.clone())));
        }
        if r.chance(0.15) {
            later.push((pos, Op::Deps(x.clone(), vec![])));
        }
        let mut enc: Vec<(String, f32)> = vec![];
        if enc_declared {
            for d in pick(r, dens) {
                enc.push((d, *r.pick(&[0.0f32, 0.1, 0.5, 1.0])));
            }
            for d in &deps {
                if r.chance(0.3) && !enc.iter().any(|e| e.0 == *d) {
                    enc.push((d.clone(), *r.pick(&[0.0f32, 0.3, 1.0])));
                }
            }
            if cyclic && r.chance(0.02) && !enc.iter().any(|e| e.0 == *x) {
                enc.push((x.clone(), 0.5));
            }
        }
        later.push((pos, Op::Enc(x.clone(), deps.clone(), enc)));
        let mut sup = pick(r, dens * 0.7);
        if cyclic && r.chance(0.03) {
            sup.push(x.clone());
        }
        if sup.len() > 1 && r.chance(0.3) {
            later.push((pos, Op::Sup(x.clone(), sup[1..].to_vec())));
            sup.truncate(1);
        }
        later.push((pos, Op::Sup(x.clone(), sup)));
    }
    // Insert every relation somewhere after its unit.
    let mut keyed: Vec<(f64, Op)> = order.iter().enumerate().map(|(i, o)| (i as f64, o.clone())).collect();
    let tight = r.chance(0.3);
    for (pos, op) in later {
        let span = (order.len() - pos) as f64;
        let at = if tight { 0.1 } else { r.unit() * span };
        keyed.push((pos as f64 + 0.0001 + at, op));
    }
    keyed.sort_by(|a, b| a.0.total_cmp(&b.0));
    keyed.into_iter().map(|x| x.1).collect()
}

/// Declarations that contradict what was declared before.
fn contradictions(r: &mut Rng, m: &Ref) -> Vec<(&'static str, Op)> {
    let by = |k: u8| -> Vec<String> { m.kind.iter().filter(|x| *x.1 == k).map(|x| x.0.clone()).collect() };
    let (cs, ls, es) = (by(0), by(1), by(2));
    let mut out = vec![];
    let any: Vec<String> = m.kind.keys().cloned().collect();
    if any.is_empty() {
        return out;
    }
    out.push(("a course with an existing identifier", Op::Course(r.pick(&any).clone())));
    if !cs.is_empty() {
        out.push(("a lesson with an existing identifier", Op::Lesson(r.pick(&any).clone(), r.pick(&cs).clone())));
    }
    if !ls.is_empty() {
        out.push(("an exercise with an existing identifier", Op::Exercise(r.pick(&any).clone(), r.pick(&ls).clone())));
        out.push(("a lesson inside a lesson", Op::Lesson("new".into(), r.pick(&ls).clone())));
    }
    if !es.is_empty() {
        out.push(("a lesson inside an exercise", Op::Lesson("new".into(), r.pick(&es).clone())));
        out.push(("an exercise inside an exercise", Op::Exercise("new".into(), r.pick(&es).clone())));
        out.push(("an exercise with dependencies", Op::Deps(r.pick(&es).clone(), vec![r.pick(&any).clone()])));
    }
    if !cs.is_empty() {
        out.push(("an exercise inside a course", Op::Exercise("new".into(), r.pick(&cs).clone())));
    }
    out.push(("a lesson inside itself", Op::Lesson("new".into(), "new".into())));
    let units: Vec<String> = cs.iter().chain(ls.iter()).cloned().collect();
    if !units.is_empty() {
        let x = r.pick(&units).clone();
        let mut d = r.subset(&units, 0.3);
        d.push(x.clone());
        out.push(("a unit depending on itself", Op::Deps(x, d)));
        for w in [-0.01f32, 1.01, f32::NAN, f32::INFINITY, f32::NEG_INFINITY] {
            out.push((
                "an encompassed unit with an invalid weight",
                Op::Enc(r.pick(&units).clone(), vec![], vec![("z".into(), 0.5), (r.pick(&units).clone(), w)]),
            ));
        }
    }
    out.push(("dependencies of an unknown unit", Op::Deps("never added".into(), vec![])));
    out
}

pub fn unit_graph(ctx: &mut Ctx) {
    ctx.rule = "one evaluation is one complete comparison of every query of a graph with the reference, one refused or accepted contradictory declaration, or one cycle verdict; distinct by graph".into();
    ctx.assumptions = vec![
        "declarations follow the loader's protocol: a parent before its children, relations after their unit, one encompassing declaration per unit".into(),
    ];
    ctx.cases("declarations", 200, 2_000_000, 0.6, |ctx, r| {
        let ops = random_ops(r);
        let mut g = InMemoryUnitGraph::default();
        let mut m = Ref::default();
        let probe_at = r.below(ops.len());
        for (i, op) in ops.iter().enumerate() {
            step("declare");
            let before = m.clone();
            record(&mut m, op);
            if let Err(e) = apply(&mut g, &before, op) {
                ctx.violate("valid declaration refused", json!({"op": format!("{op:?}"), "error": e, "ops": format!("{ops:?}")}));
                return;
            }
            ctx.count("declarations");
            if i == probe_at {
                ctx.count("evaluations");
                for (q, d) in sweep(&g, &m, false) {
                    ctx.violate(format!("graph query: {q}"), json!({"after": i, "d": d, "ops": format!("{ops:?}")}));
                }
                for (what, op) in contradictions(r, &m) {
                    let mut h = g.clone();
                    ctx.count("evaluations");
                    ctx.count("contradictions");
                    if apply(&mut h, &m, &op).is_ok() {
                        ctx.violate(format!("accepted: {what}"), json!({"op": format!("{op:?}"), "graph": m.to_json()}));
                    }
                }
            }
        }
        g.update_starting_lessons();
        if !m.declared_enc {
            g.set_encompasing_equals_dependency();
            ctx.count("encompassing_equals_dependency");
        }
        ctx.count("evaluations");
        ctx.seen(&format!("{:?}", m));
        for (q, d) in sweep(&g, &m, true) {
            ctx.violate(format!("graph query: {q}"), json!({"d": d, "ops": format!("{ops:?}")}));
        }
        for (q, d) in dot_check(&g, &m) {
            ctx.violate(format!("graph query: {q}"), json!({"d": d, "ops": format!("{ops:?}")}));
        }
        let want = acyclic(&m.deps) && acyclic(&m.sup) && acyclic(&m.enc_rel());
        let got = g.check_cycles();
        ctx.count("evaluations");
        ctx.count(if want { "acyclic" } else { "cyclic" });
        if !acyclic(&m.sup) && acyclic(&m.deps) && acyclic(&m.enc_rel()) {
            ctx.count("cyclic_only_superseding");
        }
        if !acyclic(&m.enc_rel()) && acyclic(&m.deps) {
            ctx.count("cyclic_only_encompassing");
        }
        if got.is_ok() != want {
            ctx.violate(
                if want { "cycle reported without one" } else { "cycle not reported" },
                json!({"graph": m.to_json(), "verdict": format!("{got:?}")}),
            );
        }
        if ctx.get("acyclic") == 3 {
            ctx.sample(m.to_json());
        }
    });

    ctx.cases("libraries", 40, 200_000, 1.0, |ctx, r| {
        let shape = Shape { courses: (1, 5), lessons: (0, 4), exs: (0, 2), p_missing: 0.15, ..Default::default() };
        let mut lib = Lib::generate(r, &shape);
        let units: Vec<String> = lib.courses.iter().map(|c| c.id.clone()).chain(lib.lessons()).collect();
        let extra = if r.chance(0.6) { r.usize_in(1, 3) } else { 0 };
        for _ in 0..extra {
            let target = r.pick(&units).clone();
            let ci = r.below(lib.courses.len());
            let c = &mut lib.courses[ci];
            let li = r.below(c.lessons.len() + 1);
            let which = r.below(3);
            let (deps, enc, sup) = if li == c.lessons.len() {
                (&mut c.deps, &mut c.enc, &mut c.sup)
            } else {
                let l = &mut c.lessons[li];
                (&mut l.deps, &mut l.enc, &mut l.sup)
            };
            match which {
                0 if !deps.contains(&target) => deps.push(target),
                1 if !enc.iter().any(|e| e.0 == target) => enc.push((target, 0.5)),
                2 if !sup.contains(&target) => sup.push(target),
                _ => {}
            }
        }
        r.shuffle(&mut lib.courses);
        lib.reindex();
        let mut m = Ref::default();
        for c in &lib.courses {
            record(&mut m, &Op::Course(c.id.clone()));
            record(&mut m, &Op::Deps(c.id.clone(), c.deps.clone()));
            record(&mut m, &Op::Enc(c.id.clone(), c.deps.clone(), c.enc.clone()));
            record(&mut m, &Op::Sup(c.id.clone(), c.sup.clone()));
            for l in &c.lessons {
                record(&mut m, &Op::Lesson(l.id.clone(), c.id.clone()));
                record(&mut m, &Op::Deps(l.id.clone(), l.deps.clone()));
                record(&mut m, &Op::Enc(l.id.clone(), l.deps.clone(), l.enc.clone()));
                record(&mut m, &Op::Sup(l.id.clone(), l.sup.clone()));
                for e in &l.exs {
                    record(&mut m, &Op::Exercise(e.id.clone(), l.id.clone()));
                }
            }
        }
        let dir = scratch();
        lib.write(dir.path()).expect("harness: write library");
        step("open library");
        let want = acyclic(&m.deps) && acyclic(&m.sup) && acyclic(&m.enc_rel());
        ctx.count("evaluations");
        ctx.count(if want { "libraries_acyclic" } else { "libraries_cyclic" });
        ctx.seen(&lib.to_json().to_string());
        if r.chance(0.5) {
            match LocalCourseLibrary::new(dir.path(), UserPreferences::default()) {
                Ok(l) => {
                    if !want {
                        ctx.violate("library with a cycle opens", json!({"library": lib.to_json()}));
                        return;
                    }
                    for (q, d) in sweep(&*l.unit_graph.read(), &m, true) {
                        ctx.violate(format!("graph query: {q}"), json!({"d": d, "library": lib.to_json()}));
                    }
                }
                Err(e) => {
                    if want {
                        ctx.violate("library without a cycle is refused", json!({"library": lib.to_json(), "error": format!("{e:#}")}));
                    }
                }
            }
        } else {
            match Trane::new_local(dir.path(), dir.path()) {
                Ok(t) => {
                    if !want {
                        ctx.violate("library with a cycle opens", json!({"library": lib.to_json()}));
                        return;
                    }
                    for (q, d) in sweep(&t, &m, true) {
                        ctx.violate(format!("graph query: {q}"), json!({"d": d, "library": lib.to_json()}));
                    }
                    if t.encompasing_equals_dependency() == m.declared_enc && !m.enc.values().all(|v| v.is_empty()) {
                        ctx.violate("graph query: encompassing equals dependency", json!({"library": lib.to_json()}));
                    }
                    for (q, d) in dot_check(&t, &m) {
                        ctx.violate(format!("graph query: {q}"), json!({"d": d, "library": lib.to_json()}));
                    }
                }
                Err(e) => {
                    if want {
                        ctx.violate("library without a cycle is refused", json!({"library": lib.to_json(), "error": format!("{e:#}")}));
                    }
                }
            }
        }
    });
    ctx.require("cyclic", 20);
    ctx.require("acyclic", 20);
    ctx.require("libraries_cyclic", 5);
    ctx.require("libraries_acyclic", 5);
    ctx.require("contradictions", 100);
}
