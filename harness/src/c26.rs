//! C26: counters, rates, histograms and retirement decisions, over all histories of recorded events.
use crate::c25::{close, explore};
use crate::report::*;
use decy_core::metrics::{CompileMetrics, ConvergenceReport, TierMetrics};
use decy_oracle::metrics::{CIReport, CIThresholds, OracleMetrics};
use decy_oracle::retirement::*;
use decy_ownership::error_tracking::{ErrorTracker, InferenceError, SuggestionPriority};
use decy_ownership::ml_features::{InferredOwnership, OwnershipDefect};
use serde_json::json;
use std::collections::BTreeMap;

/// the row `| label | value |` of a markdown table
fn row(md: &str, label: &str) -> Option<String> {
    md.lines().find_map(|l| { let c: Vec<&str> = l.trim().trim_matches('|').split('|').map(|x| x.trim()).collect(); (c.len() == 2 && c[0] == label).then(|| c[1].to_string()) })
}
fn num(s: Option<String>) -> Option<f64> { s.and_then(|s| s.trim_end_matches('%').parse().ok()) }

// ---- compile metrics ----
#[derive(Clone, Copy, Debug)]
enum C { Ok, Fail(&'static str), Reset, Store }
#[derive(Clone)]
struct CS { m: CompileMetrics, ok: u64, errs: BTreeMap<String, u64> }
/// the first error code (E and four digits) in the message
fn code(s: &str) -> String {
    let b = s.as_bytes();
    for i in 0..b.len() { if b[i] == b'E' && b.len() >= i + 5 && b[i + 1..i + 5].iter().all(|c| c.is_ascii_digit()) { return s[i..i + 5].to_string(); } }
    "UNKNOWN".into()
}
fn cstep(s: &mut CS, o: C) -> Result<(), String> {
    match o {
        C::Ok => { s.m.record_success(); s.ok += 1; }
        C::Fail(t) => { s.m.record_failure(t); *s.errs.entry(code(t)).or_default() += 1; }
        C::Reset => { s.m.reset(); s.ok = 0; s.errs.clear(); }
        C::Store => { s.m = serde_json::from_str(&s.m.to_json()).map_err(|e| e.to_string())?; }
    }
    let bad: u64 = s.errs.values().sum();
    let n = s.ok + bad;
    let rate = if n == 0 { 0.0 } else { s.ok as f64 / n as f64 };
    if (s.m.total_attempts(), s.m.successes(), s.m.failures()) != (n, s.ok, bad) { return Err(format!("{} attempts, {} successes, {} failures instead of {n}, {}, {bad}", s.m.total_attempts(), s.m.successes(), s.m.failures(), s.ok)); }
    if !close(s.m.success_rate(), rate) { return Err(format!("success rate {} instead of {rate}", s.m.success_rate())); }
    for t in [0.0, 0.25, 0.5, 0.8, 1.0] { if s.m.meets_target(t) != (rate >= t) { return Err(format!("meets_target({t}) is wrong for {rate}")); } }
    let h: BTreeMap<String, u64> = s.m.error_histogram().iter().map(|(k, v)| (k.clone(), *v)).collect();
    if h != s.errs { return Err(format!("the errors are {h:?} instead of {:?}", s.errs)); }
    let md = s.m.to_markdown();
    for (l, v) in [("Total Attempts", n as f64), ("Successes", s.ok as f64), ("Failures", bad as f64)] { if num(row(&md, l)) != Some(v) { return Err(format!("the report says {l} {:?} instead of {v}", row(&md, l))); } }
    if num(row(&md, "Success Rate")).map(|x| (x - rate * 100.0).abs() <= 0.051) != Some(true) || md.contains("PASS") != (rate >= 0.8) { return Err(format!("the report gives the rate {:?} for {rate}", row(&md, "Success Rate"))); }
    for (k, v) in &s.errs { if num(row(&md, k)) != Some(*v as f64) { return Err(format!("the report says {k} {:?} instead of {v}", row(&md, k))); } }
    Ok(())
}

// ---- oracle metrics ----
#[derive(Clone, Copy, Debug)]
enum O { Hit(usize), Miss(usize), Applied(usize), Verified(usize), Captured, Store }
const CODE: [&str; 2] = ["E0382", "E0499"];
#[derive(Clone, Default)]
struct OS { m: OracleMetrics, c: [[u64; 4]; 2], cap: u64 }
fn ostep(s: &mut OS, o: O) -> Result<(), String> {
    match o {
        O::Hit(i) => { s.m.record_hit(CODE[i]); s.c[i][0] += 1; }
        O::Miss(i) => { s.m.record_miss(CODE[i]); s.c[i][1] += 1; }
        O::Applied(i) => { s.m.record_fix_applied(CODE[i]); s.c[i][2] += 1; }
        O::Verified(i) => { s.m.record_fix_verified(CODE[i]); s.c[i][3] += 1; }
        O::Captured => { s.m.record_pattern_captured(); s.cap += 1; }
        O::Store => { s.m = serde_json::from_str(&s.m.to_json()).map_err(|e| e.to_string())?; }
    }
    let t = |k: usize| s.c[0][k] + s.c[1][k];
    let (h, mi, a, v) = (t(0), t(1), t(2), t(3));
    let m = &s.m;
    if (m.queries, m.hits, m.misses, m.fixes_applied, m.fixes_verified, m.patterns_captured) != (h + mi, h, mi, a, v, s.cap) { return Err(format!("{m:?} instead of {:?} captured {}", s.c, s.cap)); }
    for i in 0..2 {
        let e = m.by_error_code.get(CODE[i]).cloned().unwrap_or_default();
        let c = s.c[i];
        if (e.queries, e.hits, e.fixes_applied, e.fixes_verified) != (c[0] + c[1], c[0], c[2], c[3]) { return Err(format!("{}: {e:?} instead of {c:?}", CODE[i])); }
    }
    let hr = if h + mi == 0 { 0.0 } else { h as f64 / (h + mi) as f64 };
    let fr = if a == 0 { 0.0 } else { v as f64 / a as f64 };
    if !close(m.hit_rate(), hr) || !close(m.fix_success_rate(), fr) { return Err(format!("rates {} {} instead of {hr} {fr}", m.hit_rate(), m.fix_success_rate())); }
    for (x, y) in [(0.5, 0.8), (0.0, 0.0), (1.0, 1.0), (0.25, 0.5)] {
        let want = h + mi == 0 || (hr >= x && (a == 0 || fr >= y));
        let r = CIReport::from_metrics(m.clone(), CIThresholds { min_hit_rate: x, min_fix_rate: y });
        if m.meets_ci_thresholds(x, y) != want || r.passed != want || r.to_markdown().contains("PASSED") != want { return Err(format!("thresholds {x} {y}: {} {} instead of {want}", m.meets_ci_thresholds(x, y), r.passed)); }
        if !close(r.hit_rate_pct, hr * 100.0) || !close(r.fix_success_rate_pct, fr * 100.0) { return Err("the report's percentages are wrong".into()); }
        let md = r.to_markdown();
        for (l, w) in [("Queries", h + mi), ("Hits", h), ("Misses", mi), ("Fixes Applied", a), ("Fixes Verified", v), ("Patterns Captured", s.cap)] { if num(row(&md, l)) != Some(w as f64) { return Err(format!("the report says {l} {:?} instead of {w}", row(&md, l))); } }
    }
    let pr = m.to_prometheus();
    for (l, w) in [("decy_oracle_queries_total", (h + mi) as f64), ("decy_oracle_hits_total", h as f64), ("decy_oracle_hit_rate", hr), ("decy_oracle_fixes_applied_total", a as f64), ("decy_oracle_fixes_verified_total", v as f64), ("decy_oracle_fix_success_rate", fr)] {
        let g = pr.lines().find_map(|x| x.strip_prefix(l).and_then(|x| x.strip_prefix(' ')).and_then(|x| x.trim().parse::<f64>().ok()));
        if g.map(|g| close(g, w)) != Some(true) { return Err(format!("prometheus {l} is {g:?} instead of {w}")); }
    }
    Ok(())
}

// ---- error tracker ----
#[derive(Clone, Copy, Debug)]
enum T { Err(u8, usize), Ok(u8) }
const FEAT: [&str; 2] = ["malloc", "loop"];
const DEF: [OwnershipDefect; 3] = [OwnershipDefect::PointerMisclassification, OwnershipDefect::AliasViolation, OwnershipDefect::ResourceLeakPattern];
#[derive(Clone)]
struct TS { t: ErrorTracker, errs: Vec<(u8, usize)>, oks: Vec<u8> }
fn feats(m: u8) -> Vec<String> { (0..2).filter(|i| m >> i & 1 == 1).map(|i| FEAT[i].to_string()).collect() }
fn tstep(s: &mut TS, o: T) -> Result<(), String> {
    match o {
        T::Err(m, d) => {
            s.errs.push((m, d));
            let n = s.errs.len();
            s.t.record_error(InferenceError::new(format!("v{n}"), "a.c", n as u32, InferredOwnership::Owned, InferredOwnership::Slice, 0.5, DEF[d]).with_features(feats(m)));
        }
        T::Ok(m) => { s.oks.push(m); s.t.record_success(&feats(m)); }
    }
    tcheck(s)
}
fn tcheck(s: &mut TS) -> Result<(), String> {
    let (ne, ns) = (s.errs.len(), s.oks.len());
    if s.t.error_count() != ne || s.t.success_count() != ns as u64 { return Err(format!("{} errors and {} successes instead of {ne} and {ns}", s.t.error_count(), s.t.success_count())); }
    for (i, e) in s.t.errors().iter().enumerate() { if e.id != i as u64 + 1 || e.variable != format!("v{}", i + 1) || e.c_features != feats(s.errs[i].0) || e.defect != DEF[s.errs[i].1] { return Err(format!("error {} is recorded as {e:?}", i + 1)); } }
    for (d, def) in DEF.iter().enumerate() {
        let g: Vec<u64> = s.t.errors_by_defect(def).iter().map(|e| e.id).collect();
        let w: Vec<u64> = (0..ne).filter(|i| s.errs[*i].1 == d).map(|i| i as u64 + 1).collect();
        if g != w { return Err(format!("errors with {def:?}: {g:?} instead of {w:?}")); }
        if s.t.defect_distribution().get(&format!("{def:?}")).copied().unwrap_or(0) != w.len() as u64 { return Err(format!("the distribution of {def:?} is wrong")); }
    }
    let mut corr: Vec<(String, String, u64)> = s.t.feature_defect_correlation();
    corr.sort();
    let mut wc = vec![];
    let sus = s.t.calculate_suspiciousness();
    if sus.windows(2).any(|w| w[0].score < w[1].score) { return Err("the suspicious features are not sorted".into()); }
    let mut known = 0;
    let mut high = vec![];
    for f in 0..2 {
        let has = |m: &u8| m >> f & 1 == 1;
        let g: Vec<u64> = s.t.errors_by_feature(FEAT[f]).iter().map(|e| e.id).collect();
        let w: Vec<u64> = (0..ne).filter(|i| has(&s.errs[*i].0)).map(|i| i as u64 + 1).collect();
        if g != w { return Err(format!("errors with {}: {g:?} instead of {w:?}", FEAT[f])); }
        if s.t.feature_distribution().get(FEAT[f]).copied().unwrap_or(0) != w.len() as u64 { return Err(format!("the distribution of {} is wrong", FEAT[f])); }
        let ok = s.oks.iter().filter(|m| has(m)).count() as u64;
        let bad = w.len() as u64;
        for (d, def) in DEF.iter().enumerate() { let n = s.errs.iter().filter(|(m, e)| has(m) && *e == d).count() as u64; if n > 0 { wc.push((FEAT[f].to_string(), format!("{def:?}"), n)); } }
        let fs = sus.iter().find(|x| x.feature == FEAT[f]);
        if bad + ok == 0 { if fs.is_some() { return Err(format!("{} was never seen", FEAT[f])); } continue; }
        known += 1;
        let (a, b) = (bad as f64 / ne.max(1) as f64, ok as f64 / ns.max(1) as f64);
        let score = a / (a + b);
        match fs {
            Some(x) if close(x.score, score) && (x.total_count, x.failure_count, x.success_count) == (bad + ok, bad, ok) => {
                if !close(score, 0.5) && x.is_suspicious() != (score > 0.5) || !close(score, 0.7) && x.is_highly_suspicious() != (score > 0.7) { return Err("is_suspicious disagrees with the score".into()); }
                if !close(score, 0.7) && score > 0.7 { high.push(FEAT[f].to_string()); }
            }
            x => return Err(format!("{}: {x:?} instead of score {score}, {bad} failures, {ok} successes", FEAT[f])),
        }
    }
    wc.sort();
    if corr != wc { return Err(format!("the correlation is {corr:?} instead of {wc:?}")); }
    if sus.len() != known { return Err(format!("{} suspicious features instead of {known}", sus.len())); }
    for n in 0..3 { if s.t.top_suspicious(n).len() != n.min(known) { return Err(format!("top_suspicious({n}) gives {}", s.t.top_suspicious(n).len())); } }
    let sug = s.t.generate_suggestions();
    let mut g: Vec<String> = sug.iter().filter_map(|x| x.affected_feature.clone()).collect();
    g.sort();
    high.sort();
    if g != high { return Err(format!("suggestions for {g:?} instead of {high:?}")); }
    let mut gd: Vec<(String, bool)> = sug.iter().filter_map(|x| x.affected_defect.clone().map(|d| (d, x.priority == SuggestionPriority::High))).collect();
    gd.sort();
    let mut wd: Vec<(String, bool)> = DEF.iter().enumerate().map(|(i, d)| (format!("{d:?}"), s.errs.iter().filter(|e| e.1 == i).count())).filter(|x| x.1 > 5).map(|x| (x.0, x.1 > 20)).collect();
    wd.sort();
    if gd != wd { return Err(format!("suggestions for the defects {gd:?} instead of {wd:?}")); }
    let md = s.t.generate_markdown_report();
    let er = if ne + ns == 0 { 0.0 } else { ne as f64 / (ne + ns) as f64 * 100.0 };
    if num(row(&md, "Total Errors")) != Some(ne as f64) || num(row(&md, "Total Successes")) != Some(ns as f64) || num(row(&md, "Error Rate")).map(|x| (x - er).abs() <= 0.051) != Some(true) { return Err(format!("the report's summary is wrong for {ne} errors, {ns} successes")); }
    Ok(())
}

// ---- retirement ----
#[derive(Clone, Copy, Debug)]
enum R { Good, Bad, Window, Better }
#[derive(Clone)]
struct RS { p: PatternStats, good: usize, bad: usize, win: usize, sup: bool }
fn configs() -> Vec<RetirementConfig> {
    let mut v = vec![];
    for u in [0usize, 1, 3, 5] { for r in [0.0f32, 0.3, 0.5, 1.0] { for a in [true, false] { v.push(RetirementConfig { min_usage_threshold: u, min_success_rate: r, evaluation_window_days: 30, supersede_improvement_threshold: 0.1, archive_instead_of_delete: a }); } } }
    v
}
/// 0 keep; 1 low usage, 2 failing, 3 superseded; negative: retired, not archived
fn decide(s: &RS, c: &RetirementConfig) -> i32 {
    let n = s.good + s.bad;
    let rate = if n == 0 { 0.0 } else { s.good as f32 / n as f32 };
    let sign = if c.archive_instead_of_delete { 1 } else { -1 };
    if s.win < c.min_usage_threshold { sign } else if rate < c.min_success_rate && n >= 5 { 2 * sign } else if s.sup { 3 } else { 0 }
}
fn kind(d: &RetirementDecision) -> i32 {
    let k = |r: &RetirementReason| match r { RetirementReason::LowUsage { .. } => 1, RetirementReason::HighFailureRate { .. } => 2, RetirementReason::Superseded { .. } => 3, RetirementReason::ManualDeprecation { .. } => 4 };
    match d { RetirementDecision::Keep => 0, RetirementDecision::Archive(r) => k(r), RetirementDecision::Retire(r) => -k(r) }
}
fn rstep(s: &mut RS, o: R) -> Result<(), String> {
    match o {
        R::Good => { s.p.record_use(true); s.good += 1; s.win += 1; }
        R::Bad => { s.p.record_use(false); s.bad += 1; s.win += 1; }
        R::Window => { s.p.reset_window(); s.win = 0; }
        R::Better => { s.p.mark_superseded("q"); s.sup = true; }
    }
    let n = s.good + s.bad;
    if (s.p.total_uses, s.p.uses_in_window, s.p.successes, s.p.failures, s.p.last_used.is_some(), s.p.superseded_by.is_some()) != (n, s.win, s.good, s.bad, n > 0, s.sup) { return Err(format!("{:?} instead of {} good, {} bad, {} in the window", s.p, s.good, s.bad, s.win)); }
    let rate = if n == 0 { 0.0 } else { s.good as f64 / n as f64 };
    if (s.p.success_rate() as f64 - rate).abs() > 1e-6 { return Err(format!("success rate {} instead of {rate}", s.p.success_rate())); }
    for c in configs() {
        let d = PatternRetirementPolicy::with_config(c.clone()).evaluate(&s.p);
        let w = decide(s, &c);
        if kind(&d) != w || d.should_remove() != (w != 0) || d.reason().is_some() != (w != 0) { return Err(format!("{d:?} with {c:?} for {} good, {} bad, {} in the window, superseded {}", s.good, s.bad, s.win, s.sup)); }
        match d.reason() {
            Some(RetirementReason::LowUsage { uses, threshold, window_days }) if (*uses, *threshold, *window_days) != (s.win, c.min_usage_threshold, 30) => return Err(format!("the reason is {:?}", d.reason())),
            Some(RetirementReason::HighFailureRate { success_rate, threshold }) if (*success_rate as f64 - rate).abs() > 1e-6 || *threshold != c.min_success_rate => return Err(format!("the reason is {:?}", d.reason())),
            Some(RetirementReason::Superseded { better_pattern_id, .. }) if better_pattern_id != "q" => return Err(format!("the reason is {:?}", d.reason())),
            _ => {}
        }
    }
    Ok(())
}
/// sweeps over all lists of up to three patterns
fn sweeps(rep: &mut Report) {
    let mk = |i: usize, good: usize, bad: usize, win: usize, sup: bool| {
        let mut p = PatternStats::new(format!("p{i}"), "E0382");
        for _ in 0..good { p.record_use(true); }
        for _ in 0..bad { p.record_use(false); }
        if win == 0 { p.reset_window(); }
        if sup { p.mark_superseded("q"); }
        RS { p, good, bad, win: if win == 0 { 0 } else { good + bad }, sup }
    };
    let kinds = [(6, 0, 1, false), (0, 6, 1, false), (6, 0, 0, false), (5, 1, 1, true), (0, 0, 1, false), (2, 4, 1, true)];
    let mut lists: Vec<Vec<usize>> = vec![vec![]];
    let mut level = lists.clone();
    for _ in 0..3 { level = level.iter().flat_map(|l| (0..kinds.len()).map(move |k| { let mut m = l.clone(); m.push(k); m })).collect(); lists.extend(level.iter().cloned()); }
    for l in &lists { for c in configs() {
        rep.evaluations += 1;
        let rs: Vec<RS> = l.iter().enumerate().map(|(i, k)| { let (a, b, w, s) = kinds[*k]; mk(i, a, b, w, s) }).collect();
        let ps: Vec<PatternStats> = rs.iter().map(|r| r.p.clone()).collect();
        let pol = PatternRetirementPolicy::with_config(c.clone());
        let want: Vec<i32> = rs.iter().map(|r| decide(r, &c)).collect();
        let key = format!("sweep {l:?} {c:?}");
        let x = run_retirement_sweep(&ps, &pol);
        let cnt = |k: i32| want.iter().filter(|w| w.abs() == k).count();
        let gone: Vec<String> = want.iter().enumerate().filter(|(_, w)| **w != 0).map(|(i, _)| format!("p{i}")).collect();
        if (x.total_evaluated, x.kept, x.retired_low_usage, x.retired_high_failure, x.retired_superseded, x.archived) != (l.len(), cnt(0), cnt(1), cnt(2), cnt(3), want.iter().filter(|w| **w > 0).count()) || x.retired_ids != gone || x.total_retired() != gone.len() {
            rep.violation(&key, &format!("{x:?} instead of {want:?}"), json!({}));
        }
        let rate = if l.is_empty() { 0.0 } else { gone.len() as f64 / l.len() as f64 };
        if (x.retirement_rate() as f64 - rate).abs() > 1e-6 { rep.violation(&key, &format!("rate {} instead of {rate}", x.retirement_rate()), json!({})); }
        let b: Vec<(String, i32)> = pol.evaluate_batch(&ps).iter().map(|(i, d)| (i.clone(), kind(d))).collect();
        if b != want.iter().enumerate().map(|(i, w)| (format!("p{i}"), *w)).collect::<Vec<_>>() { rep.violation(&key, &format!("the batch gives {b:?} instead of {want:?}"), json!({})); }
        let f: Vec<String> = pol.find_retireable(&ps).iter().map(|p| p.pattern_id.clone()).collect();
        if f != gone { rep.violation(&key, &format!("retireable {f:?} instead of {gone:?}"), json!({})); }
    }}
}
fn tiers(rep: &mut Report) {
    let kinds = [(0u64, 0u64, 0u64), (1, 1, 0), (2, 1, 1), (4, 4, 3), (5, 3, 0), (10, 10, 10)];
    let mut lists: Vec<Vec<usize>> = vec![vec![]];
    let mut level = lists.clone();
    for _ in 0..4 { level = level.iter().flat_map(|l| (0..kinds.len()).map(move |k| { let mut m = l.clone(); m.push(k); m })).collect(); lists.extend(level.iter().cloned()); }
    for l in &lists {
        rep.evaluations += 1;
        let mut r = ConvergenceReport::new();
        for (i, k) in l.iter().enumerate() {
            let (n, t, c) = kinds[*k];
            let m = TierMetrics { tier_name: format!("T{i}"), total_files: n, transpile_success: t, compile_success: c, transpile_failures: n - t, compile_failures: t - c };
            let q = |x: u64| if n == 0 { 0.0 } else { x as f64 / n as f64 };
            if !close(m.transpile_rate(), q(t)) || !close(m.compile_rate(), q(c)) { rep.violation(&format!("tier {m:?}"), "wrong rate", json!({})); }
            r.add_tier(m);
        }
        let s = l.iter().fold((0, 0, 0), |a, k| (a.0 + kinds[*k].0, a.1 + kinds[*k].1, a.2 + kinds[*k].2));
        let q = |x: u64| if s.0 == 0 { 0.0 } else { x as f64 / s.0 as f64 };
        if !close(r.overall_transpile_rate(), q(s.1)) || !close(r.overall_compile_rate(), q(s.2)) { rep.violation(&format!("tiers {l:?}"), &format!("overall rates {} {} instead of {} {}", r.overall_transpile_rate(), r.overall_compile_rate(), q(s.1), q(s.2)), json!({})); }
        let md = r.to_markdown();
        let cells = |name: &str| md.lines().find_map(|x| { let c: Vec<f64> = x.trim().trim_matches('|').split('|').skip(1).filter_map(|y| y.trim().trim_matches('*').trim_end_matches('%').parse().ok()).collect(); x.contains(name).then_some(c) }).unwrap_or_default();
        let same = |g: Vec<f64>, n: u64, t: u64, c: u64| { let q = |x: u64| if n == 0 { 0.0 } else { x as f64 / n as f64 * 100.0 }; let w = [n as f64, t as f64, c as f64, q(t), q(c)]; g.len() == 5 && g.iter().zip(w).all(|(a, b)| (a - b).abs() <= 0.051) };
        if !same(cells("**Total**"), s.0, s.1, s.2) { rep.violation(&format!("tiers {l:?} total row"), &format!("{:?}", cells("**Total**")), json!({})); }
        for (i, k) in l.iter().enumerate() { let (n, t, c) = kinds[*k]; if !same(cells(&format!("T{i} ")), n, t, c) { rep.violation(&format!("tiers {l:?} row {i}"), &format!("{:?}", cells(&format!("T{i} "))), json!({})); } }
    }
}

pub fn run(rep: &mut Report) {
    let d = if rep.thorough { 1 } else { 0 };
    explore(rep, "compile metrics", &[C::Ok, C::Fail("E0308: mismatched types"), C::Fail("error[E0382]: use of moved value"), C::Fail("linker failed"), C::Reset, C::Store], 7 + d, &CS { m: CompileMetrics::new(), ok: 0, errs: BTreeMap::new() }, cstep);
    // messages: every prefix, code and suffix
    let mut texts = vec![];
    for p in ["", "error[", "error: ", "Error: ", "ERROR[", "LINE 5: E", "in Expr: ", "é", "Eabc€ ", "E€ ", "E030€", "E12 "] { for c in ["E0308", "E0499", "E9999", "E030", "e0308", "F0308", "E", ""] { for s in ["", "]", "]: mismatched types", ": x", "€", " E0001", " and more E"] {
        // a bracketed word that is no code means whatever it means
        if c.starts_with('E') && c.len() != 5 && p.ends_with('[') { continue; }
        texts.push(format!("{p}{c}{s}"));
    }}}
    for t in &texts {
        rep.evaluations += 1;
        let key = format!("message {t:?}");
        match guard(|| { let mut m = CompileMetrics::new(); m.record_failure(t); m }) {
            Err(e) => rep.violation(&key, &format!("panic: {e}"), json!({"message": t})),
            Ok(m) => { let g: Vec<_> = m.error_histogram().iter().collect(); if g.len() != 1 || g[0].0 != &code(t) || *g[0].1 != 1 { rep.violation(&key, &format!("counted as {g:?} instead of {}", code(t)), json!({"message": t})); } }
        }
    }
    let mut ops = vec![O::Captured, O::Store];
    for i in 0..2 { ops.extend([O::Hit(i), O::Miss(i), O::Applied(i), O::Verified(i)]); }
    explore(rep, "oracle metrics", &ops, 6 + d, &OS::default(), ostep);
    let mut ops = vec![];
    for m in 0..4 { ops.push(T::Ok(m)); for e in 0..2 { ops.push(T::Err(m, e)); } }
    explore(rep, "error tracker", &ops, 5 + d, &TS { t: ErrorTracker::new(), errs: vec![], oks: vec![] }, tstep);
    // numbers of defects around the limits of the suggestions
    let ns = [0usize, 1, 5, 6, 20, 21];
    for a in ns { for b in ns { for c in ns { for ok in [0usize, 1, 10] {
        rep.evaluations += 1;
        let r = guard(|| {
            let mut s = TS { t: ErrorTracker::new(), errs: vec![], oks: vec![] };
            for (d, n) in [a, b, c].into_iter().enumerate() { for k in 0..n { s.errs.push(((k % 3) as u8, d)); let i = s.errs.len(); s.t.record_error(InferenceError::new(format!("v{i}"), "a.c", i as u32, InferredOwnership::Owned, InferredOwnership::Slice, 0.5, DEF[d]).with_features(feats((k % 3) as u8))); } }
            for k in 0..ok { s.oks.push((k % 2 + 1) as u8); s.t.record_success(&feats((k % 2 + 1) as u8)); }
            tcheck(&mut s)
        }).unwrap_or_else(|e| Err(format!("panic: {e}")));
        if let Err(e) = r { rep.violation(&format!("error tracker {a} {b} {c} ok {ok}"), &e, json!({})); }
    }}}}
    explore(rep, "retirement", &[R::Good, R::Bad, R::Window, R::Better], 8 + d, &RS { p: PatternStats::new("p", "E0382"), good: 0, bad: 0, win: 0, sup: false }, rstep);
    for t in &texts { let c = code(t); rep.outcome(&c); }
    sweeps(rep);
    tiers(rep);
    rep.sample("oracle metrics [Hit(0), Miss(1), Applied(0), Verified(0), Store]");
    rep.rule("all histories of recorded events to the depth: compile metrics (7), oracle metrics (6), error tracker (5), pattern use (8), one deeper in the thorough tier, x 32 retirement policies; 650 error messages; 648 larger error counts; all lists of up to 3 patterns x 32 policies; all lists of up to 4 tiers; after every step all counts, rates, lists, decisions and reports equal the reference");
}
