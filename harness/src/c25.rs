//! C25: the learning loop (sample queue, retraining pipeline, threshold tuner), over all operation histories and
//! sample sets, against reference models.
use crate::report::*;
use decy_ownership::active_learning::*;
use decy_ownership::ml_features::{InferredOwnership, OwnershipFeaturesBuilder, OwnershipPrediction};
use decy_ownership::model_versioning::{ModelVersion, ModelVersionManager};
use decy_ownership::retraining_pipeline::*;
use decy_ownership::threshold_tuning::*;
use serde_json::json;
use std::cell::RefCell;
use std::rc::Rc;

pub fn close(a: f64, b: f64) -> bool { (a - b).abs() < 1e-9 }

/// depth-first over all histories up to `depth`; `step` applies one operation to a copy of the state
pub fn explore<S: Clone + Sync + Send, O: Copy + std::fmt::Debug + Sync + Send>(rep: &mut Report, name: &str, ops: &[O], depth: usize, start: &S, step: impl Fn(&mut S, O) -> Result<(), String> + Sync) {
    let first: Vec<(O, O)> = ops.iter().flat_map(|a| ops.iter().map(move |b| (*a, *b))).collect();
    let res = par_map(&first, |_, (a, b)| {
        fn go<S: Clone, O: Copy + std::fmt::Debug>(s: &S, h: &mut Vec<O>, rest: &[O], ops: &[O], depth: usize, step: &impl Fn(&mut S, O) -> Result<(), String>, n: &mut u64, bad: &mut Vec<(Vec<O>, String)>) {
            let next: Vec<O> = if let Some(o) = rest.first() { vec![*o] } else if h.len() < depth { ops.to_vec() } else { return };
            for o in next {
                h.push(o);
                let mut t = s.clone();
                *n += 1;
                match guard(|| step(&mut t, o)).unwrap_or_else(|e| Err(format!("panic: {e}"))) {
                    Ok(()) => go(&t, h, rest.get(1..).unwrap_or(&[]), ops, depth, step, n, bad),
                    Err(e) => if bad.len() < 3 { bad.push((h.clone(), e)) },
                }
                h.pop();
            }
        }
        let (mut n, mut bad) = (0, vec![]);
        go(start, &mut vec![], &[*a, *b], ops, depth, &step, &mut n, &mut bad);
        (n, bad)
    });
    for (n, bad) in res {
        rep.states += n;
        rep.transitions += n;
        rep.traces += n;
        rep.evaluations += n;
        for (h, e) in bad { rep.violation(&format!("{name} {h:?}"), &e, json!({"operations": format!("{h:?}")})); }
    }
}

// ---- the queue of samples to label ----
#[derive(Clone, Copy, Debug)]
enum Q { Enq(usize), Next, Batch(usize), Right, Wrong, Unlabeled, Take, Clear, Store }
const U: [f64; 3] = [0.25, 0.5, 1.0];
#[derive(Clone)]
struct QS { q: SampleQueue, cap: usize, held: Vec<UncertainSample>, n: u64, pending: Vec<(u64, usize)>, labeled: Vec<(u64, bool)> }

fn pred(c: f32) -> OwnershipPrediction { OwnershipPrediction { kind: InferredOwnership::Owned, confidence: c, fallback: None } }

impl QS {
    fn new(cap: usize) -> QS { QS { q: SampleQueue::new(SelectionStrategy::UncertaintySampling).with_max_pending(cap), cap, held: vec![], n: 0, pending: vec![], labeled: vec![] } }
    fn taken(&mut self, got: Vec<UncertainSample>, n: usize) -> Result<(), String> {
        let k = n.min(self.pending.len());
        let want: Vec<(u64, usize)> = self.pending.drain(..k).collect();
        let ids: Vec<u64> = got.iter().map(|s| s.id).collect();
        if ids != want.iter().map(|w| w.0).collect::<Vec<_>>() { return Err(format!("handed out {ids:?} instead of {want:?}")); }
        for (s, w) in got.iter().zip(&want) {
            if s.variable != format!("v{}", w.0) || s.uncertainty_score != U[w.1] || s.is_labeled() || s.source_line != Some(w.0 as u32) { return Err(format!("sample {} came out changed", s.id)); }
        }
        self.held.extend(got);
        Ok(())
    }
    fn step(&mut self, o: Q) -> Result<(), String> {
        match o {
            Q::Enq(u) => {
                self.n += 1;
                let f = OwnershipFeaturesBuilder::default().build();
                let s = UncertainSample::new(77, format!("v{}", self.n), f, pred(1.0 - U[u] as f32), U[u], SelectionStrategy::UncertaintySampling).with_source("a.c", self.n as u32);
                let id = self.q.enqueue(s);
                if id != self.n { return Err(format!("sample number {} got the id {id}", self.n)); }
                let at = self.pending.iter().position(|(_, v)| U[*v] < U[u]).unwrap_or(self.pending.len());
                self.pending.insert(at, (self.n, u));
                self.pending.truncate(self.cap);
            }
            Q::Next => { let g: Vec<_> = self.q.next_for_labeling().into_iter().collect(); self.taken(g, 1)?; }
            Q::Batch(n) => { let g = self.q.batch_for_labeling(n); self.taken(g, n)?; }
            Q::Right | Q::Wrong | Q::Unlabeled => {
                if self.held.is_empty() { return Ok(()); }
                let mut s = self.held.remove(0);
                let id = s.id;
                match o { Q::Right => s.apply_label(InferredOwnership::Owned), Q::Wrong => s.apply_label(InferredOwnership::Slice), _ => {} }
                let want = match o { Q::Right => Some(true), Q::Wrong => Some(false), _ => None };
                if s.prediction_correct() != want { return Err(format!("prediction_correct is {:?} instead of {want:?}", s.prediction_correct())); }
                self.q.submit_labeled(s);
                if let Some(w) = want { self.labeled.push((id, w)); }
            }
            Q::Take => {
                let g: Vec<_> = self.q.take_labeled_samples().iter().map(|s| (s.id, s.prediction_correct() == Some(true))).collect();
                if g != self.labeled { return Err(format!("took {g:?} instead of {:?}", self.labeled)); }
                self.labeled.clear();
            }
            Q::Clear => { self.q.clear_pending(); self.pending.clear(); }
            Q::Store => {
                let t = serde_json::to_string(&self.q).map_err(|e| e.to_string())?;
                self.q = serde_json::from_str(&t).map_err(|e| e.to_string())?;
            }
        }
        let st = self.q.stats();
        let avg = if self.pending.is_empty() { 0.0 } else { self.pending.iter().map(|p| U[p.1]).sum::<f64>() / self.pending.len() as f64 };
        let acc = if self.labeled.is_empty() { 0.0 } else { self.labeled.iter().filter(|l| l.1).count() as f64 / self.labeled.len() as f64 };
        if (self.q.pending_count(), self.q.labeled_count(), self.q.total_processed()) != (self.pending.len(), self.labeled.len(), self.n) || (st.pending, st.labeled, st.total_processed) != (self.pending.len(), self.labeled.len(), self.n) {
            return Err(format!("counts {} {} {} {st:?} instead of {} {} {}", self.q.pending_count(), self.q.labeled_count(), self.q.total_processed(), self.pending.len(), self.labeled.len(), self.n));
        }
        if !close(st.avg_uncertainty, avg) || !close(st.prediction_accuracy, acc) { return Err(format!("statistics {st:?} instead of uncertainty {avg}, accuracy {acc}")); }
        if self.q.peek_next().map(|s| s.id) != self.pending.first().map(|p| p.0) { return Err(format!("next is {:?} instead of {:?}", self.q.peek_next().map(|s| s.id), self.pending.first())); }
        let l: Vec<u64> = self.q.get_labeled_samples().iter().map(|s| s.id).collect();
        if l != self.labeled.iter().map(|l| l.0).collect::<Vec<_>>() { return Err(format!("labeled samples {l:?} instead of {:?}", self.labeled)); }
        Ok(())
    }
}

/// what the learner queues: exactly the predictions at least as uncertain as the limit
fn learner(rep: &mut Report) {
    use InferredOwnership::*;
    let kinds = [Owned, Borrowed, BorrowedMut, Shared, RawPointer, Vec, Slice, SliceMut];
    for strat in [SelectionStrategy::UncertaintySampling, SelectionStrategy::MarginSampling, SelectionStrategy::EntropySampling] {
        for min in [0.0, 0.1, 0.35, 0.5, 0.75, 1.0] { for thr in [0.0, 0.25, 0.65, 1.0] {
            let mut l = ActiveLearner::with_strategy(strat).with_min_uncertainty(min).with_confidence_threshold(thr);
            let mut n = 0;
            for k in kinds { for fb in [None, Some(Borrowed)] { for i in 0..=16 {
                let c = i as f32 / 16.0;
                let p = OwnershipPrediction { kind: k, confidence: c, fallback: fb };
                let c = c as f64;
                let want = match strat {
                    SelectionStrategy::EntropySampling => if i == 0 || i == 16 { 0.0 } else { -(c * c.log2() + (1.0 - c) * (1.0 - c).log2()) },
                    SelectionStrategy::MarginSampling if fb.is_some() => 1.0 - 0.2 * c,
                    _ => 1.0 - c,
                };
                rep.evaluations += 1;
                if l.is_uncertain(&p) != (c < thr) { rep.violation(&format!("learner {strat} {min} {thr} {i} uncertain"), "is_uncertain disagrees with the confidence threshold", json!({})); }
                if close(want, min) && want != min { continue; }
                let (u, queued) = l.process_prediction("x", OwnershipFeaturesBuilder::default().build(), p);
                n += queued as usize;
                let key = format!("learner {strat} min {min} kind {k:?} confidence {c} fallback {fb:?}");
                if !close(u, want) { rep.violation(&key, &format!("uncertainty {u} instead of {want}"), json!({})); }
                if !close(u, min) && queued != (want >= min) { rep.violation(&key, &format!("queued: {queued}"), json!({})); }
                if l.stats().pending != n || l.stats().total_processed != n as u64 { rep.violation(&key, &format!("{:?} after {n} queued samples", l.stats()), json!({})); }
            }}}
            let mut last = 2.0;
            while let Some(s) = l.next_for_labeling() {
                if s.uncertainty_score > last { rep.violation(&format!("learner {strat} {min} order"), "a less uncertain sample is handed out first", json!({})); break; }
                last = s.uncertainty_score;
            }
        }}
    }
}

// ---- the retraining pipeline ----
#[derive(Clone, Copy, Debug)]
enum P { Run(usize), Few, Unsplit, Fail, Back(usize), BackMissing, Strict, Loose }
/// (precision, recall); thresholds of the pipeline 0.85/0.80 (strict: 0.9/0.9), of the store 0.85 accuracy (= F1), 0.80 the rest
const M: [(f64, f64); 7] = [(0.92, 0.90), (0.91, 0.89), (0.99, 0.97), (0.87, 0.84), (0.84, 0.99), (0.99, 0.79), (0.85, 0.80)];
fn f1(i: usize) -> f64 { 2.0 * M[i].0 * M[i].1 / (M[i].0 + M[i].1) }

type Seen = Rc<RefCell<(Result<usize, ()>, Option<(usize, usize, usize, bool)>)>>;
struct Tr(Seen);
impl ModelTrainer for Tr {
    fn train(&self, d: &DataSplit) -> Result<TrainingMetrics, String> {
        let all: Vec<u32> = d.train.iter().chain(&d.validation).chain(&d.test).map(|s| s.line_number).collect();
        let whole = all == (0..all.len() as u32).collect::<Vec<_>>();
        let mut s = self.0.borrow_mut();
        s.1 = Some((d.train.len(), d.validation.len(), d.test.len(), whole));
        match s.0 { Ok(i) => Ok(TrainingMetrics::new(M[i].0, M[i].1)), Err(()) => Err("no luck".into()) }
    }
}
fn samples(n: usize) -> Vec<TrainingSample> { (0..n).map(|i| TrainingSample::new(OwnershipFeaturesBuilder::default().build(), InferredOwnership::Owned, "t.c", i as u32)).collect() }

fn pipeline(h: &[P]) -> Result<String, (usize, String)> {
    let seen: Seen = Rc::new(RefCell::new((Ok(0), None)));
    let config = |strict: bool| RetrainingConfig { min_precision: if strict { 0.9 } else { 0.85 }, min_recall: if strict { 0.9 } else { 0.80 }, max_degradation: if strict { 0.0 } else { 0.02 }, min_train_samples: 10, min_validation_samples: 3, min_test_samples: 2, train_ratio: 0.70, validation_ratio: 0.15, ..RetrainingConfig::default() };
    let mut p = RetrainingPipeline::new(Tr(seen.clone()), ModelVersionManager::new(), config(false));
    let mut strict = false;
    // (version minor, quality), active index
    let mut list: Vec<usize> = vec![];
    let mut active: Option<usize> = None;
    let mut hist: Vec<(String, usize)> = vec![];
    let ver = |i: usize| ModelVersion::new(1, i as u32, 0);
    for (i, o) in h.iter().enumerate() {
        let bad = |s: String| Err((i, s));
        let (n, train) = match o {
            P::Run(q) => (20, Some(Ok(*q))),
            P::Fail => (20, Some(Err(()))),
            P::Few => (14, None),
            // 15 samples are enough together, but 15% of them is not
            P::Unsplit => (15, None),
            P::Back(k) => {
                let want = active.is_some() && *k < list.len() && active != Some(*k);
                let got = p.rollback(&ver(*k));
                match &got {
                    Ok(r) if want && r.success && r.to_version == ver(*k) && Some(&r.from_version) == active.map(ver).as_ref() => active = Some(*k),
                    Err(_) if !want => {}
                    _ => return bad(format!("rollback to 1.{k}.0 answers {got:?} with {} versions, active {active:?}", list.len())),
                }
                if p.current_version().map(|e| e.version.clone()) != active.map(ver) { return bad(format!("the current version is {:?} instead of {:?}", p.current_version().map(|e| e.version.to_string()), active.map(ver))); }
                continue;
            }
            P::BackMissing => { if p.rollback(&ModelVersion::new(9, 0, 0)).is_ok() { return bad("a rollback to an unknown version succeeds".into()); } continue; }
            P::Strict | P::Loose => { strict = matches!(o, P::Strict); p.set_config(config(strict)); continue; }
        };
        *seen.borrow_mut() = (train.unwrap_or(Ok(0)), None);
        let got = p.execute(samples(n));
        let trained = seen.borrow().1;
        let want_split = if train.is_some() { Some((14, 3, 3, true)) } else { None };
        if trained != want_split { return bad(format!("the trainer was given {trained:?} instead of {want_split:?} (training, validation, test samples; in order)")); }
        let (mp, mr, md) = if strict { (0.9, 0.9, 0.0) } else { (0.85, 0.80, 0.02) };
        let want = match train {
            None => "insufficient".to_string(),
            Some(Err(())) => "error no luck".to_string(),
            Some(Ok(q)) => {
                if M[q].0 < mp || M[q].1 < mr { "gate".into() }
                else if let Some(d) = active.map(|a| f1(list[a]) - f1(q)).filter(|d| *d > md) { format!("degraded {d:.6}") }
                else {
                    let meets = f1(q) >= 0.85 && M[q].0 >= 0.80 && M[q].1 >= 0.80;
                    let better = active.map(|a| f1(q) > f1(list[a])).unwrap_or(true);
                    list.push(q);
                    if meets && better { active = Some(list.len() - 1); }
                    format!("promoted {}", ver(list.len() - 1))
                }
            }
        };
        let q = train.and_then(|t| t.ok()).unwrap_or(0);
        let same = |m: &TrainingMetrics| close(m.precision, M[q].0) && close(m.recall, M[q].1) && close(m.f1_score, f1(q));
        let shown = match &got {
            RetrainingResult::Promoted { version, metrics } if same(metrics) => format!("promoted {version}"),
            RetrainingResult::QualityGateFailed { metrics, .. } if same(metrics) => "gate".into(),
            RetrainingResult::Degraded { degradation, new_metrics, current_metrics } if same(new_metrics) && active.is_some_and(|a| close(current_metrics.f1_score, f1(list[a]))) => format!("degraded {degradation:.6}"),
            RetrainingResult::InsufficientData { actual, required: 15 } if *actual == n => "insufficient".into(),
            RetrainingResult::TrainingError { error } => format!("error {error}"),
            x => format!("{x:?}"),
        };
        if shown != want { return bad(format!("the run answers {shown} instead of {want}")); }
        if got.is_success() != want.starts_with("promoted") || got.metrics().is_some() != (want.starts_with("promoted") || want == "gate" || want.starts_with("degraded")) { return bad("is_success or metrics disagree with the result".into()); }
        hist.push((want, n));
        let gh: Vec<(String, usize)> = p.history().iter().map(|e| (match &e.result {
            ExecutionSummary::Promoted { version } => format!("promoted {version}"),
            ExecutionSummary::QualityGateFailed { .. } => "gate".into(),
            ExecutionSummary::Degraded { amount } => format!("degraded {amount:.6}"),
            ExecutionSummary::InsufficientData => "insufficient".into(),
            ExecutionSummary::Error { message } => format!("error {message}"),
        }, e.sample_count)).collect();
        if gh != hist { return bad(format!("the history is {gh:?} instead of {hist:?}")); }
        let rate = hist.iter().filter(|x| x.0.starts_with("promoted")).count() as f64 / hist.len() as f64;
        if !close(p.success_rate(), rate) { return bad(format!("the success rate is {} instead of {rate}", p.success_rate())); }
        let cur = p.current_version().map(|e| (e.version.clone(), e.metrics.f1_score));
        if cur.as_ref().map(|c| &c.0) != active.map(ver).as_ref() || cur.is_some_and(|c| !close(c.1, f1(list[active.unwrap()]))) {
            return bad(format!("the current version is {:?} instead of {:?}", p.current_version().map(|e| e.version.to_string()), active.map(ver)));
        }
    }
    Ok(format!("{list:?} {active:?}"))
}

fn splits(rep: &mut Report) {
    for n in 0..=60usize { for (t, v) in [(0.7, 0.15), (0.5, 0.25), (1.0, 0.0), (0.0, 1.0), (0.0, 0.0), (0.75, 0.25), (0.5, 0.5)] {
        rep.evaluations += 1;
        let key = format!("split {n} {t} {v}");
        match guard(|| DataSplit::new(samples(n), t, v)) {
            Err(e) => rep.violation(&key, &format!("panic: {e}"), json!({})),
            Ok(d) => {
                let all: Vec<u32> = d.train.iter().chain(&d.validation).chain(&d.test).map(|s| s.line_number).collect();
                if all != (0..n as u32).collect::<Vec<_>>() || d.total_count() != n { rep.violation(&key, "the parts are not the samples", json!({})); }
                let (a, b) = ((n as f64 * t) as usize, (n as f64 * v) as usize);
                if (d.train.len(), d.validation.len()) != (a, b) { rep.violation(&key, &format!("{} training and {} validation samples instead of {a} and {b}", d.train.len(), d.validation.len()), json!({})); }
                let (x, y, z) = (d.train.len(), d.validation.len(), d.test.len());
                for k in 0..27usize {
                    let m = |s: usize, k: usize| (s + k % 3).saturating_sub(1);
                    let (i, j, l) = (m(x, k), m(y, k / 3), m(z, k / 9));
                    if d.meets_minimum_sizes(i, j, l) != (x >= i && y >= j && z >= l) { rep.violation(&key, "meets_minimum_sizes is wrong", json!({})); }
                }
            }
        }
    }}
}

// ---- the threshold tuner ----
fn tuner(rep: &mut Report, thorough: bool) {
    let conf = [0.0, 0.3, 0.5, 0.65, 1.0];
    let mut kinds = vec![];
    for r in [false, true] { for m in [false, true] { for c in conf { kinds.push((r, m, c)); } } }
    let cands: Vec<Vec<f64>> = vec![vec![], vec![0.5], vec![0.0, 0.3, 0.5, 0.65, 1.0], vec![1.0, 0.4, 0.0], vec![0.6, 0.6, 0.1], vec![-1.0, 2.0]];
    let mut sets: Vec<Vec<usize>> = vec![vec![]];
    let n = if thorough { 4 } else { 3 };
    let mut level = sets.clone();
    for _ in 0..n {
        level = level.iter().flat_map(|s| (s.last().copied().unwrap_or(0)..kinds.len()).map(move |k| { let mut t = s.clone(); t.push(k); t })).collect();
        sets.extend(level.iter().cloned());
    }
    let bad = par_map(&sets, |_, s| {
        use InferredOwnership::{Borrowed, Owned, RawPointer, Shared, Slice};
        let v: Vec<ValidationSample> = s.iter().enumerate().map(|(i, k)| {
            let (r, m, c) = kinds[*k];
            let truth = [Owned, Slice, InferredOwnership::Vec, Borrowed][i % 4];
            ValidationSample::new(truth, if r { truth } else { RawPointer }, if m { truth } else { Shared }, c)
        }).collect();
        let at = |t: f64| {
            let ml: Vec<bool> = s.iter().map(|k| kinds[*k].2 >= t).collect();
            let ok = s.iter().zip(&ml).filter(|(k, m)| if **m { kinds[**k].1 } else { kinds[**k].0 }).count();
            let n = s.len() as f64;
            (ok as f64 / n, ml.iter().filter(|m| **m).count() as f64 / n)
        };
        let mut out: Vec<(String, String)> = vec![];
        let mut evals = 0u64;
        for c in &cands { for crit in [SelectionCriteria::MaxAccuracy, SelectionCriteria::MaxF1, SelectionCriteria::BalancedAccuracyFallback, SelectionCriteria::MinFallbackAboveBaseline] {
            for add in [None, Some(0.2), Some(0.5)] {
                evals += 1;
                let key = format!("tuner {:?} candidates {c:?} + {add:?} {crit}", s.iter().map(|k| kinds[*k]).collect::<Vec<_>>());
                let r = guard(|| { let mut t = ThresholdTuner::with_candidates(c.clone()).with_criteria(crit); if let Some(a) = add { t.add_candidate(a); } t.tune(&v) });
                let r = match r { Ok(r) => r, Err(e) => { out.push((key, format!("panic: {e}"))); continue } };
                let mut ts: Vec<f64> = c.iter().map(|t| t.clamp(0.0, 1.0)).collect();
                if let Some(a) = add { if !ts.contains(&a) { ts.push(a); ts.sort_by(|a, b| a.total_cmp(b)); } }
                if s.is_empty() || ts.is_empty() {
                    if r.optimal_threshold != 0.65 { out.push((key, format!("threshold {} with nothing to go by", r.optimal_threshold))); }
                    continue;
                }
                let got: Vec<f64> = r.all_thresholds.iter().map(|m| m.threshold).collect();
                let mut gs = got.clone(); gs.sort_by(|a, b| a.total_cmp(b));
                let mut wt = ts.clone(); wt.sort_by(|a, b| a.total_cmp(b));
                if gs != wt { out.push((key, format!("thresholds {got:?} instead of {ts:?}"))); continue; }
                let mut wrong = None;
                for m in r.all_thresholds.iter().chain([&r.optimal_metrics]) {
                    let (a, u) = at(m.threshold);
                    if m.sample_count != s.len() || !close(m.accuracy, a) || !close(m.precision, a) || !close(m.recall, a) || !close(m.f1_score, a) || !close(m.ml_usage_rate, u) || !close(m.fallback_rate, 1.0 - u) { wrong = Some(format!("{m:?} instead of accuracy {a}, use of the model {u}")); }
                }
                let base = s.iter().filter(|k| kinds[**k].0).count() as f64 / s.len() as f64;
                let ml = s.iter().filter(|k| kinds[**k].1).count() as f64 / s.len() as f64;
                let score = |t: f64| { let (a, u) = at(t); match crit {
                    SelectionCriteria::MaxAccuracy | SelectionCriteria::MaxF1 => a,
                    SelectionCriteria::BalancedAccuracyFallback => 0.7 * a + 0.3 * u,
                    SelectionCriteria::MinFallbackAboveBaseline => if wt.iter().any(|t| at(*t).0 >= base) { if a >= base { u + 1.0 } else { 0.0 } } else { a },
                }};
                let best = wt.iter().map(|t| score(*t)).fold(f64::MIN, f64::max);
                let (a, _) = at(r.optimal_threshold);
                if !wt.contains(&r.optimal_threshold) || score(r.optimal_threshold) < best - 1e-9 { wrong = Some(format!("chose {} (score {}, best {best})", r.optimal_threshold, score(r.optimal_threshold))); }
                if r.optimal_metrics.threshold != r.optimal_threshold || !close(r.baseline_accuracy, base) || !close(r.ml_only_accuracy, ml) || !close(r.improvement_over_baseline, a - base) || r.criteria != crit.to_string() { wrong = Some(format!("baseline {}, model only {}, improvement {} instead of {base}, {ml}, {}", r.baseline_accuracy, r.ml_only_accuracy, r.improvement_over_baseline, a - base)); }
                if r.to_markdown().contains("ADOPT HYBRID") != (r.improvement_over_baseline > 0.0) { wrong = Some("the report's recommendation disagrees with the improvement".into()); }
                if let Some(w) = wrong { out.push((key, w)); }
            }
        }}
        (evals, out)
    });
    for (n, out) in bad {
        rep.evaluations += n;
        rep.states += 1;
        for (k, e) in out { rep.violation(&k, &e, json!({})); }
    }
}

pub fn run(rep: &mut Report) {
    let d = if rep.thorough { 7 } else { 6 };
    let ops = [Q::Enq(0), Q::Enq(1), Q::Enq(2), Q::Next, Q::Batch(2), Q::Right, Q::Wrong, Q::Unlabeled, Q::Take, Q::Clear, Q::Store];
    for cap in [0usize, 1, 2, 3] { explore(rep, &format!("queue of {cap}"), &ops, if cap == 2 { d } else { 5 }, &QS::new(cap), |s, o| s.step(o)); }
    // filling and emptying longer queues
    explore(rep, "long queue of 4", &[Q::Enq(0), Q::Enq(1), Q::Enq(2), Q::Batch(3)], d + 3, &QS::new(4), |s, o| s.step(o));
    learner(rep);
    let ops = [P::Run(0), P::Run(1), P::Run(2), P::Run(3), P::Run(4), P::Run(5), P::Run(6), P::Few, P::Unsplit, P::Fail, P::Back(0), P::Back(1), P::Back(2), P::BackMissing, P::Strict, P::Loose];
    let depth = if rep.thorough { 6 } else { 5 };
    let first: Vec<(P, P)> = ops.iter().flat_map(|a| ops.iter().map(move |b| (*a, *b))).collect();
    let res = par_map(&first, |_, (a, b)| {
        let (mut n, mut bad, mut outs) = (0u64, vec![], std::collections::BTreeSet::new());
        fn go(h: &mut Vec<P>, ops: &[P], depth: usize, n: &mut u64, bad: &mut Vec<(Vec<P>, String)>, outs: &mut std::collections::BTreeSet<String>) {
            if h.len() == depth {
                *n += 1;
                match guard(|| pipeline(h)).unwrap_or_else(|e| Err((h.len() - 1, format!("panic: {e}")))) {
                    Ok(s) => { outs.insert(s); }
                    Err((i, e)) => if bad.len() < 3 { bad.push((h[..=i].to_vec(), e)) },
                }
                return;
            }
            for o in ops { h.push(*o); go(h, ops, depth, n, bad, outs); h.pop(); }
        }
        go(&mut vec![*a, *b], &ops, depth, &mut n, &mut bad, &mut outs);
        (n, bad, outs)
    });
    for (n, bad, outs) in res {
        rep.states += n;
        rep.transitions += n * depth as u64;
        rep.traces += n;
        rep.evaluations += n;
        for o in outs { rep.outcome(&o); }
        for (h, e) in bad { rep.violation(&format!("pipeline {h:?}"), &e, json!({"operations": format!("{h:?}")})); }
    }
    splits(rep);
    let th = rep.thorough;
    tuner(rep, th);
    rep.sample("pipeline [Run(0), Run(1), Run(1), Back(0), Run(2)]");
    rep.rule(format!("all histories of 11 queue operations (3 uncertainties, hand out one or two, submit right, wrong and unlabeled, take, clear, store) to depth {d} for 4 capacities; 3 strategies x 6 limits x 4 thresholds x 272 predictions; all histories of 16 pipeline operations (7 qualities, too few samples, failing trainer, rollback, changed configuration) of length {depth}; 427 splits; all sets of up to {} validation samples of 20 kinds x 18 candidate lists x 4 criteria", if th { 4 } else { 3 }));
}
