//! C15: the model version store, over all operation histories, against a reference model.
use crate::report::*;
use decy_ownership::model_versioning::{ModelEntry, ModelQualityMetrics, ModelVersion, ModelVersionManager, QualityThresholds};
use serde_json::json;
use std::collections::BTreeMap;

/// Quality classes, away from the comparison margins: (accuracy, precision, recall, f1).
const Q: [(f64, f64, f64, f64); 8] = [
    (0.88, 0.85, 0.85, 0.85), // plain
    (0.95, 0.85, 0.85, 0.84), // better accuracy, lower F1
    (0.885, 0.90, 0.90, 0.93), // same accuracy, better F1
    (0.80, 0.99, 0.99, 0.99), // accuracy too low
    (0.99, 0.70, 0.99, 0.99), // precision too low
    (0.99, 0.99, 0.70, 0.99), // recall too low
    (0.99, 0.99, 0.99, 0.70), // F1 too low
    (0.85, 0.80, 0.80, 0.80), // exactly at the thresholds
];
fn metrics(q: usize) -> ModelQualityMetrics { let (a, p, r, f) = Q[q]; ModelQualityMetrics::new(a, p, r, f, 0.9, 0.1, 100) }
fn meets(q: usize) -> bool { let (a, p, r, f) = Q[q]; a >= 0.85 && p >= 0.80 && r >= 0.80 && f >= 0.80 }
/// `a` better than `b`: clearly better accuracy, or about the same accuracy and better F1.
fn better(a: usize, b: usize) -> bool {
    if (Q[a].0 - Q[b].0).abs() > 0.01 { Q[a].0 > Q[b].0 } else { Q[a].3 > Q[b].3 }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Op { Register(u8, usize), Rollback, RollbackTo(u8), RollbackMissing, Auto(usize), Serde }

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Ent { v: (u32, u32, u32), q: usize, rolled: bool, why: Option<String> }
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Default)]
struct M { list: Vec<Ent>, active: Option<usize>, hist: Vec<((u32, u32, u32), (u32, u32, u32))>, last: (u32, u32, u32) }

#[derive(Debug, PartialEq)]
enum Ans { Reg(Result<bool, ()>), Roll(Option<((u32, u32, u32), (u32, u32, u32))>), None }

/// Version kinds: 0 patch bump, 1 minor bump, 2 major bump, 3 the newest again, 4 older than the newest.
fn next(last: (u32, u32, u32), kind: u8) -> (u32, u32, u32) {
    let (a, b, c) = last;
    match kind { 0 => (a, b, c + 1), 1 => (a, b + 1, 0), 2 => (a + 1, 0, 0), 3 => last, _ => (a.saturating_sub(1), b + 7, c + 7) }
}

impl M {
    fn step(&mut self, op: Op, max: usize) -> Ans {
        match op {
            Op::Register(k, q) => {
                let v = next(self.last, k);
                if let Some(l) = self.list.last() { if v <= l.v { return Ans::Reg(Err(())); } }
                let act = meets(q) && self.active.map(|i| better(q, self.list[i].q)).unwrap_or(true);
                self.list.push(Ent { v, q, rolled: false, why: None });
                self.last = v;
                if act { self.active = Some(self.list.len() - 1); }
                while self.list.len() > max && self.active != Some(0) {
                    self.list.remove(0);
                    self.active = self.active.map(|i| i - 1);
                }
                Ans::Reg(Ok(act))
            }
            Op::Rollback => Ans::Roll(self.rollback("why")),
            Op::RollbackTo(i) => {
                let i = i as usize;
                if i >= self.list.len() { return Ans::None; }
                let Some(c) = self.active else { return Ans::Roll(None) };
                if c == i { return Ans::Roll(None); }
                Ans::Roll(Some(self.go(c, i, "to")))
            }
            Op::RollbackMissing => Ans::Roll(None),
            Op::Auto(q) => {
                let drop = self.active.map(|i| Q[q].0 < Q[self.list[i].q].0 - 0.05).unwrap_or(false);
                if !meets(q) || drop { Ans::Roll(self.rollback("auto")) } else { Ans::Roll(None) }
            }
            Op::Serde => Ans::None,
        }
    }
    fn rollback(&mut self, why: &str) -> Option<((u32, u32, u32), (u32, u32, u32))> {
        let c = self.active?;
        let t = (0..c).rev().find(|i| !self.list[*i].rolled)?;
        Some(self.go(c, t, why))
    }
    fn go(&mut self, c: usize, t: usize, why: &str) -> ((u32, u32, u32), (u32, u32, u32)) {
        self.list[c].rolled = true;
        self.list[c].why = Some(why.into());
        self.list[t].rolled = false;
        self.list[t].why = None;
        self.active = Some(t);
        let r = (self.list[c].v, self.list[t].v);
        self.hist.push(r);
        r
    }
}

fn tup(v: &ModelVersion) -> (u32, u32, u32) { (v.major, v.minor, v.patch) }

fn replay(h: &[Op], max: usize) -> Result<M, (usize, String)> {
    let mut m = M { last: (1, 0, 0), ..M::default() };
    let mut r = ModelVersionManager::with_thresholds(QualityThresholds { min_accuracy: 0.85, min_precision: 0.80, min_recall: 0.80, min_f1: 0.80 }).with_max_history(max);
    for (i, op) in h.iter().enumerate() {
        let bad = |s: String| Err((i, s));
        let last = m.last;
        let ver = |v: (u32, u32, u32)| ModelVersion::new(v.0, v.1, v.2);
        let before = serde_json::to_string(&r).unwrap();
        let got = match *op {
            Op::Register(k, q) => {
                let v = next(last, k);
                let base = ver(last);
                let mv = match k { 0 => base.bump_patch(), 1 => base.bump_minor(), 2 => base.bump_major(), _ => ver(v) };
                if tup(&mv) != v { return bad(format!("bumping {last:?} gives {mv} instead of {v:?}")); }
                Ans::Reg(r.register_version(ModelEntry::new(mv, metrics(q), format!("d{i}"), format!("p{v:?}"))).map_err(|_| ()))
            }
            Op::Rollback => Ans::Roll(r.rollback("why").ok().filter(|x| x.success).map(|x| (tup(&x.from_version), tup(&x.to_version)))),
            Op::RollbackTo(k) => match m.list.get(k as usize) {
                None => Ans::None,
                Some(e) => Ans::Roll(r.rollback_to(&ver(e.v), "to").ok().filter(|x| x.success).map(|x| (tup(&x.from_version), tup(&x.to_version)))),
            },
            Op::RollbackMissing => Ans::Roll(r.rollback_to(&ModelVersion::new(77, 7, 7), "x").ok().filter(|x| x.success).map(|x| (tup(&x.from_version), tup(&x.to_version)))),
            Op::Auto(q) => {
                let asked = r.check_quality(&metrics(q)).is_some();
                let a = r.auto_rollback_if_needed(&metrics(q)).filter(|x| x.success).map(|x| (tup(&x.from_version), tup(&x.to_version)));
                if a.is_some() && !asked { return bad("an automatic rollback although check_quality finds nothing".into()); }
                Ans::Roll(a)
            }
            Op::Serde => {
                let s = serde_json::to_string(&r).unwrap();
                r = match serde_json::from_str(&s) { Ok(x) => x, Err(e) => return bad(format!("a stored manager cannot be read back: {e}")) };
                if serde_json::to_string(&r).unwrap() != s { return bad("a stored manager changes when read back".into()); }
                Ans::None
            }
        };
        let want = m.step(*op, max.max(2));
        if got != want { return bad(format!("{op:?} answers {got:?} instead of {want:?}")); }
        let failed = matches!(got, Ans::Reg(Err(())) | Ans::Roll(None));
        if failed && serde_json::to_string(&r).unwrap() != before { return bad(format!("{op:?} fails but changes the store")); }
        let list: Vec<Ent> = r.versions().map(|e| {
            let q = Q.iter().position(|q| (q.0, q.1, q.2, q.3) == (e.metrics.accuracy, e.metrics.precision, e.metrics.recall, e.metrics.f1_score)).unwrap_or(99);
            Ent { v: tup(&e.version), q, rolled: e.rolled_back, why: if e.rolled_back { e.rollback_reason.as_ref().map(|w| if w.starts_with("Auto") { "auto".into() } else { w.clone() }) } else { None } }
        }).collect();
        if list != m.list { return bad(format!("the versions are {list:?} instead of {:?}", m.list)); }
        if r.version_count() != list.len() { return bad(format!("version_count is {} with {} versions", r.version_count(), list.len())); }
        let act = r.active_version().map(|e| tup(&e.version));
        if act != m.active.map(|i| m.list[i].v) { return bad(format!("the active version is {act:?} instead of {:?}", m.active.map(|i| m.list[i].v))); }
        let flags: Vec<(u32, u32, u32)> = r.versions().filter(|e| e.is_active).map(|e| tup(&e.version)).collect();
        if flags != act.into_iter().collect::<Vec<_>>() { return bad(format!("the versions flagged active are {flags:?}, the active version is {act:?}")); }
        for e in r.versions() { if e.artifact_path != format!("p{:?}", tup(&e.version)) { return bad(format!("version {} has the artifact {}", e.version, e.artifact_path)); } }
        let hist: Vec<_> = r.rollback_history().iter().filter(|x| x.success).map(|x| (tup(&x.from_version), tup(&x.to_version))).collect();
        if hist != m.hist { return bad(format!("the rollback history is {hist:?} instead of {:?}", m.hist)); }
    }
    Ok(m)
}

pub fn run(rep: &mut Report) {
    let mut ops = vec![];
    for k in 0..5 { for q in 0..Q.len() { if k == 0 || q < 2 { ops.push(Op::Register(k, q)); } } }
    ops.extend([Op::Rollback, Op::RollbackMissing, Op::Serde]);
    for i in 0..4 { ops.push(Op::RollbackTo(i)); }
    for q in 0..Q.len() { ops.push(Op::Auto(q)); }
    let (depth, cap) = if rep.thorough { (5, 400_000) } else { (4, 60_000) };
    for max in [0usize, 2, 3, 4] {
        // 1. every history up to the depth
        let mut pre: Vec<Vec<Op>> = vec![];
        for a in &ops { for b in &ops { pre.push(vec![*a, *b]); } }
        let res = par_map(&pre, |_, p| {
            let mut out = vec![];
            let mut n = 0u64;
            fn go(h: &mut Vec<Op>, ops: &[Op], depth: usize, max: usize, n: &mut u64, out: &mut Vec<(Vec<Op>, String)>) {
                if h.len() == depth {
                    *n += 1;
                    match guard(|| replay(h, max)) {
                        Ok(Ok(_)) => {}
                        Ok(Err((i, e))) => if out.len() < 3 { out.push((h[..=i].to_vec(), e)) },
                        Err(e) => if out.len() < 3 { out.push((h.clone(), format!("panic: {e}"))) },
                    }
                    return;
                }
                for o in ops { h.push(*o); go(h, ops, depth, max, n, out); h.pop(); }
            }
            go(&mut p.clone(), &ops, depth, max, &mut n, &mut out);
            (n, out)
        });
        for (n, out) in res {
            rep.traces += n;
            rep.evaluations += n * depth as u64;
            for (h, e) in out { rep.violation(&format!("max {max}: {h:?}"), &e, json!({"max_history": max, "operations": format!("{h:?}")})); }
        }
        if rep.violation_count() > 0 { continue; }
        // 2. breadth-first over model states, up to renaming of versions and forgetting the history
        let canon = |m: &M| -> String {
            let e: Vec<String> = m.list.iter().map(|e| format!("{}{}", e.q, if e.rolled { "r" } else { "" })).collect();
            format!("{e:?} {:?}", m.active)
        };
        let mut seen: BTreeMap<String, Vec<Op>> = BTreeMap::new();
        seen.insert(canon(&M::default()), vec![]);
        let mut level: Vec<Vec<Op>> = vec![vec![]];
        let mut d = 0;
        while !level.is_empty() && seen.len() < cap {
            d += 1;
            let res = par_map(&level, |_, h| {
                ops.iter().map(|o| { let mut g = h.clone(); g.push(*o); let r = guard(|| replay(&g, max)).unwrap_or_else(|e| Err((g.len() - 1, format!("panic: {e}")))); (g, r) }).collect::<Vec<_>>()
            });
            let mut nl = vec![];
            for (g, r) in res.into_iter().flatten() {
                rep.transitions += 1;
                rep.traces += 1;
                match r {
                    Err((i, e)) => rep.violation(&format!("max {max}: {:?}", &g[..=i]), &e, json!({"max_history": max, "operations": format!("{:?}", &g[..=i])})),
                    Ok(m) => {
                        if m.list.len() > 5 { continue; }
                        let c = canon(&m);
                        rep.outcome(&c);
                        if !seen.contains_key(&c) { seen.insert(c, g.clone()); nl.push(g); }
                    }
                }
            }
            level = nl;
        }
        rep.states += seen.len() as u64;
        if let Some(h) = seen.values().last() { rep.sample(format!("max {max}: {h:?}")); }
        rep.extra(&format!("max_history_{max}"), json!({"states": seen.len(), "depth": d, "fixpoint": level.is_empty()}));
    }
    // version numbers: text form and order
    let ns = [0u32, 1, 2, 9, 10, 99, 4294967295];
    let mut vs = vec![];
    for a in ns { for b in ns { for c in ns { vs.push((a, b, c)); } } }
    for v in &vs {
        let m = ModelVersion::new(v.0, v.1, v.2);
        rep.evaluations += 1;
        let s = m.to_string();
        if ModelVersion::parse(&s).as_ref() != Some(&m) || ModelVersion::parse(s.trim_start_matches('v')).as_ref() != Some(&m) { rep.violation(&format!("parse {s}"), "a printed version does not parse back", json!({"version": s})); }
        for w in &vs {
            let n = ModelVersion::new(w.0, w.1, w.2);
            if m.cmp(&n) != v.cmp(w) || (m == n) != (v == w) { rep.violation(&format!("{m} {n}"), "wrong version order", json!({})); }
        }
    }
    for s in ["", "1", "1.2", "1.2.3.4", "1.2.x", "1..3", "-1.2.3", "1.2.4294967296", "1.2.3 ", "a1.2.3", "1,2,3"] {
        if let Some(v) = ModelVersion::parse(s) { rep.violation(&format!("parse {s:?}"), &format!("parses as {v}"), json!({"text": s})); }
    }
    rep.rule("every history of register (5 version kinds x 8 quality classes), rollback, rollback_to (each index, missing), automatic rollback (8 classes) and store/read back up to the depth, for 4 history limits, plus breadth-first search over the states (qualities, flags, active) with at most 5 versions; after every step answers, versions, flags, active version and rollback history equal the reference model and failed operations change nothing; version texts and order over 343 versions");
}
