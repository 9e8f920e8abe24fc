//! C17: lock analysis. Bodies of lock operations and accesses against an exact reference; pairs of functions
//! against the exploration of all their interleavings.
use crate::report::*;
use decy_analyzer::lock_analysis::LockAnalyzer;
use decy_hir::{BinaryOperator, HirExpression as E, HirFunction, HirStatement as S, HirType as T, SwitchCase, UnaryOperator};
use decy_verify::lock_verify::LockDisciplineChecker;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};

fn var(n: &str) -> E { E::Variable(n.into()) }
fn call(f: &str, a: Vec<E>) -> E { E::FunctionCall { function: f.into(), arguments: a } }
fn lock(m: &str) -> S { S::Expression(call("pthread_mutex_lock", vec![E::AddressOf(Box::new(var(m)))])) }
fn unlock(m: &str) -> S { S::Expression(call("pthread_mutex_unlock", vec![E::AddressOf(Box::new(var(m)))])) }
fn b(e: E) -> Box<E> { Box::new(e) }
fn int(i: i32) -> E { E::IntLiteral(i) }
fn func(name: &str, body: Vec<S>) -> HirFunction { HirFunction::new_with_body(name.into(), T::Void, vec![], body) }

/// Every expression form that mentions `x` once.
pub fn exprs(x: &str) -> Vec<(&'static str, E)> {
    let v = || var(x);
    vec![
        ("variable", v()),
        ("left operand", E::BinaryOp { op: BinaryOperator::Add, left: b(v()), right: b(int(1)) }),
        ("right operand", E::BinaryOp { op: BinaryOperator::Subtract, left: b(int(1)), right: b(v()) }),
        ("unary", E::UnaryOp { op: UnaryOperator::Minus, operand: b(v()) }),
        ("dereference", E::Dereference(b(v()))),
        ("address", E::AddressOf(b(v()))),
        ("argument", call("g", vec![int(1), v()])),
        ("array", E::ArrayIndex { array: b(v()), index: b(int(0)) }),
        ("index", E::ArrayIndex { array: b(var("other")), index: b(v()) }),
        ("field", E::FieldAccess { object: b(v()), field: "k".into() }),
        ("pointer field", E::PointerFieldAccess { pointer: b(v()), field: "k".into() }),
        ("cast", E::Cast { target_type: T::Int, expr: b(v()) }),
        ("postincrement", E::PostIncrement { operand: b(v()) }),
        ("preincrement", E::PreIncrement { operand: b(v()) }),
        ("postdecrement", E::PostDecrement { operand: b(v()) }),
        ("predecrement", E::PreDecrement { operand: b(v()) }),
        ("conditional test", E::Ternary { condition: b(v()), then_expr: b(int(1)), else_expr: b(int(2)) }),
        ("conditional then", E::Ternary { condition: b(int(1)), then_expr: b(v()), else_expr: b(int(2)) }),
        ("conditional else", E::Ternary { condition: b(int(1)), then_expr: b(int(2)), else_expr: b(v()) }),
        ("slice", E::SliceIndex { slice: b(v()), index: b(int(0)), element_type: T::Int }),
        ("slice index", E::SliceIndex { slice: b(var("other")), index: b(v()), element_type: T::Int }),
        ("null test", E::IsNotNull(b(v()))),
        ("nested", E::BinaryOp { op: BinaryOperator::Multiply, left: b(E::UnaryOp { op: UnaryOperator::Minus, operand: b(E::ArrayIndex { array: b(v()), index: b(int(2)) }) }), right: b(call("g", vec![])) }),
    ]
}
/// Every statement form around an expression.
pub fn stmts(e: &E) -> Vec<(&'static str, S)> {
    let leaf = || S::Assignment { target: "t".into(), value: e.clone() };
    vec![
        ("assigned value", leaf()),
        ("initializer", S::VariableDeclaration { name: "t".into(), var_type: T::Int, initializer: Some(e.clone()) }),
        ("expression", S::Expression(e.clone())),
        ("return", S::Return(Some(e.clone()))),
        ("if test", S::If { condition: e.clone(), then_block: vec![], else_block: None }),
        ("then", S::If { condition: int(1), then_block: vec![leaf()], else_block: None }),
        ("else", S::If { condition: int(1), then_block: vec![], else_block: Some(vec![S::Break, leaf()]) }),
        ("while test", S::While { condition: e.clone(), body: vec![] }),
        ("while body", S::While { condition: int(1), body: vec![leaf()] }),
        ("for init", S::For { init: vec![leaf()], condition: None, increment: vec![], body: vec![] }),
        ("for test", S::For { init: vec![], condition: Some(e.clone()), increment: vec![], body: vec![] }),
        ("for step", S::For { init: vec![], condition: None, increment: vec![leaf()], body: vec![] }),
        ("for body", S::For { init: vec![], condition: None, increment: vec![], body: vec![leaf()] }),
        ("switch value", S::Switch { condition: e.clone(), cases: vec![], default_case: None }),
        ("case body", S::Switch { condition: int(1), cases: vec![SwitchCase { value: Some(int(1)), body: vec![leaf()] }], default_case: None }),
        ("default body", S::Switch { condition: int(1), cases: vec![], default_case: Some(vec![leaf()]) }),
        ("deref target", S::DerefAssignment { target: e.clone(), value: int(1) }),
        ("deref value", S::DerefAssignment { target: var("t"), value: e.clone() }),
        ("element array", S::ArrayIndexAssignment { array: b(e.clone()), index: b(int(0)), value: int(1) }),
        ("element index", S::ArrayIndexAssignment { array: b(var("t")), index: b(e.clone()), value: int(1) }),
        ("element value", S::ArrayIndexAssignment { array: b(var("t")), index: b(int(0)), value: e.clone() }),
        ("field object", S::FieldAssignment { object: e.clone(), field: "k".into(), value: int(1) }),
        ("field value", S::FieldAssignment { object: var("t"), field: "k".into(), value: e.clone() }),
        ("free", S::Free { pointer: e.clone() }),
        ("nested body", S::While { condition: int(1), body: vec![S::If { condition: int(1), then_block: vec![], else_block: Some(vec![leaf()]) }] }),
    ]
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Op { Lock(u8), Unlock(u8), Access(u8), Idle }
const LOCKS: [&str; 3] = ["ma", "mb", "mc"];
const DATA: [&str; 2] = ["x", "y"];
fn stmt(o: Op) -> S {
    match o {
        Op::Lock(l) => lock(LOCKS[l as usize]),
        Op::Unlock(l) => unlock(LOCKS[l as usize]),
        Op::Access(0) => S::Assignment { target: "x".into(), value: int(1) },
        Op::Access(_) => S::Expression(call("g", vec![var("y")])),
        Op::Idle => S::Expression(call("idle", vec![])),
    }
}

/// Unmatched operations of a body (a lock taken while held leaves the earlier one unmatched).
fn faults(h: &[Op]) -> usize {
    let mut held = [false; 3];
    let mut n = 0;
    for o in h {
        match o {
            Op::Lock(l) => { if held[*l as usize] { n += 1; } held[*l as usize] = true; }
            Op::Unlock(l) => { if !held[*l as usize] { n += 1; } held[*l as usize] = false; }
            _ => {}
        }
    }
    n + held.iter().filter(|x| **x).count()
}

fn check_body(h: &[Op]) -> Result<(), String> {
    let f = func("f", h.iter().map(|o| stmt(*o)).collect());
    let an = LockAnalyzer::new();
    let ck = LockDisciplineChecker::new(&an);
    let v = an.check_lock_discipline(&f);
    let want = faults(h);
    if v.len() != want { return Err(format!("check_lock_discipline reports {v:?}; {want} operations are unmatched")); }
    let all = ck.check_all(&f);
    if all.lock_violations != want { return Err(format!("check_all reports {} lock violations, {want} operations are unmatched", all.lock_violations)); }
    if want > 0 {
        if all.is_clean() { return Err("the report is clean".into()); }
        return Ok(());
    }
    // regions
    let mut start: BTreeMap<u8, usize> = BTreeMap::new();
    let mut regions: BTreeSet<(String, usize, usize)> = BTreeSet::new();
    for (i, o) in h.iter().enumerate() {
        match o {
            Op::Lock(l) => { start.insert(*l, i); }
            Op::Unlock(l) => { regions.insert((LOCKS[*l as usize].into(), start.remove(l).unwrap(), i)); }
            _ => {}
        }
    }
    let got: Vec<(String, usize, usize)> = an.find_lock_regions(&f).into_iter().map(|r| (r.lock_name, r.start_index, r.end_index)).collect();
    if got.len() != regions.len() || got.iter().cloned().collect::<BTreeSet<_>>() != regions { return Err(format!("the locked regions are {got:?} instead of {regions:?}")); }
    // protected data
    let map = an.analyze_lock_data_mapping(&f);
    let mut protected = BTreeSet::new();
    for l in LOCKS {
        let mut data = BTreeSet::new();
        for (i, o) in h.iter().enumerate() {
            if let Op::Access(d) = o { if regions.iter().any(|r| r.0 == l && r.1 < i && i < r.2) { data.insert(DATA[*d as usize].to_string()); } }
        }
        for d in DATA { if map.is_protected_by(d, l) != data.contains(d) { return Err(format!("is_protected_by({d}, {l}) is {}", !data.contains(d))); } }
        let g: Vec<String> = map.get_protected_data(l);
        if g.len() != data.len() || g.iter().cloned().collect::<BTreeSet<_>>() != data { return Err(format!("the data protected by {l} is {g:?} instead of {data:?}")); }
        protected.extend(data);
    }
    // unprotected accesses
    let mut want = BTreeSet::new();
    for (i, o) in h.iter().enumerate() {
        if let Op::Access(d) = o { if protected.contains(DATA[*d as usize]) && !regions.iter().any(|r| r.1 < i && i < r.2) { want.insert((DATA[*d as usize].to_string(), i)); } }
    }
    let got = ck.check_unprotected_access(&f);
    let m: Vec<bool> = want.iter().map(|(d, i)| got.iter().any(|g| g.contains(&format!("'{d}'")) && g.contains(&format!("statement {i} ")))).collect();
    if got.len() != want.len() || m.contains(&false) { return Err(format!("the unprotected accesses reported are {got:?} instead of {want:?}")); }
    if all.unprotected_accesses != want.len() || all.is_clean() != want.is_empty() { return Err(format!("check_all reports {all:?}, unprotected are {want:?}")); }
    Ok(())
}

/// All balanced lock sequences with exactly n operations over k locks.
fn balanced(n: usize, k: u8) -> Vec<Vec<Op>> {
    fn go(n: usize, k: u8, held: u32, cur: &mut Vec<Op>, out: &mut Vec<Vec<Op>>) {
        if cur.len() == n { if held == 0 { out.push(cur.clone()); } return; }
        if held.count_ones() as usize > n - cur.len() { return; }
        for l in 0..k {
            let bit = 1 << l;
            cur.push(if held & bit == 0 { Op::Lock(l) } else { Op::Unlock(l) });
            go(n, k, held ^ bit, cur, out);
            cur.pop();
        }
    }
    let mut out = vec![];
    go(n, k, 0, &mut vec![], &mut out);
    out
}
/// Explore every interleaving of two threads; is a state reachable where both wait for each other?
fn deadlocks(f: &[Op], g: &[Op], states: &mut u64) -> bool {
    let held = |h: &[Op], i: usize| h[..i].iter().fold(0u32, |m, o| match o { Op::Lock(l) => m | 1 << l, Op::Unlock(l) => m & !(1 << l), _ => m });
    let mut seen = vec![vec![false; g.len() + 1]; f.len() + 1];
    let mut stack = vec![(0, 0)];
    seen[0][0] = true;
    while let Some((i, j)) = stack.pop() {
        *states += 1;
        let (hf, hg) = (held(f, i), held(g, j));
        let can = |h: &[Op], k: usize, other: u32| k < h.len() && match h[k] { Op::Lock(l) => other & 1 << l == 0, _ => true };
        let (a, c) = (can(f, i, hg), can(g, j, hf));
        if !a && !c && i < f.len() && j < g.len() { return true; }
        if a && !seen[i + 1][j] { seen[i + 1][j] = true; stack.push((i + 1, j)); }
        if c && !seen[i][j + 1] { seen[i][j + 1] = true; stack.push((i, j + 1)); }
    }
    false
}
/// Pairs of distinct locks (a, b) with a taken at some point before b.
fn order(h: &[Op]) -> BTreeSet<(u8, u8)> {
    let l: Vec<u8> = h.iter().filter_map(|o| if let Op::Lock(l) = o { Some(*l) } else { None }).collect();
    let mut s = BTreeSet::new();
    for i in 0..l.len() { for j in i + 1..l.len() { if l[i] != l[j] { s.insert((l[i], l[j])); } } }
    s
}

pub fn run(rep: &mut Report) {
    // 1. bodies
    let ops = [Op::Lock(0), Op::Unlock(0), Op::Lock(1), Op::Unlock(1), Op::Access(0), Op::Access(1), Op::Idle];
    let depth = if rep.thorough { 9 } else { 7 };
    let mut pre = vec![];
    for a in ops { for c in ops { for d in ops { pre.push(vec![a, c, d]); } } }
    let res = par_map(&pre, |_, p| {
        fn go(h: &mut Vec<Op>, ops: &[Op], depth: usize, n: &mut u64, out: &mut Vec<(Vec<Op>, String)>) {
            *n += 1;
            if out.len() < 3 {
                if let Err(e) = guard(|| check_body(h)).unwrap_or_else(|e| Err(format!("panic: {e}"))) { out.push((h.clone(), e)); }
            }
            if h.len() == depth { return; }
            for o in ops { h.push(*o); go(h, ops, depth, n, out); h.pop(); }
        }
        let (mut n, mut out) = (0, vec![]);
        go(&mut p.clone(), &ops, depth, &mut n, &mut out);
        (n, out)
    });
    for (n, out) in res {
        rep.states += n;
        rep.evaluations += n;
        rep.traces += n;
        for (h, e) in out { rep.violation(&format!("body {h:?}"), &e, json!({"body": format!("{h:?}")})); }
    }
    // 2. every form of access, inside and outside the locked region
    let an = LockAnalyzer::new();
    let ck = LockDisciplineChecker::new(&an);
    for (en, e) in exprs("x") {
        for (sn, s) in stmts(&e) {
            rep.evaluations += 3;
            rep.states += 1;
            let key = format!("access: {en} in {sn}");
            rep.outcome(&key);
            let inside = func("f", vec![lock("ma"), s.clone(), unlock("ma")]);
            if !an.analyze_lock_data_mapping(&inside).is_protected_by("x", "ma") { rep.violation(&key, "an access to x in the locked region does not make x protected", json!({"statement": format!("{s:?}")})); continue; }
            let outside = func("f", vec![lock("ma"), S::Assignment { target: "x".into(), value: int(1) }, unlock("ma"), s.clone()]);
            let v = ck.check_unprotected_access(&outside);
            if !v.iter().any(|m| m.contains("'x'") && m.contains("statement 3 ")) { rep.violation(&key, &format!("an access to x outside the locked region is not reported: {v:?}"), json!({"statement": format!("{s:?}")})); }
            let other = func("f", vec![lock("ma"), S::Assignment { target: "z".into(), value: int(1) }, unlock("ma"), s.clone()]);
            let v = ck.check_unprotected_access(&other);
            if !v.is_empty() { rep.violation(&key, &format!("unprotected accesses are reported although none exists: {v:?}"), json!({"statement": format!("{s:?}")})); }
        }
    }
    // 3. deadlocks: all interleavings of all pairs
    let n = if rep.thorough { 10 } else { 8 };
    let seqs: Vec<Vec<Op>> = (0..=n).step_by(2).flat_map(|k| balanced(k, 3)).collect();
    let ords: Vec<_> = seqs.iter().map(|s| order(s)).collect();
    let res = par_map(&seqs, |i, f| {
        let ff = func("f", f.iter().map(|o| stmt(*o)).collect());
        let (mut states, mut dead, mut out) = (0u64, 0u64, vec![]);
        let an = LockAnalyzer::new();
        let ck = LockDisciplineChecker::new(&an);
        for (j, g) in seqs.iter().enumerate() {
            let gg = func("g", g.iter().map(|o| stmt(*o)).collect());
            let w = ck.check_deadlock_risk(&[ff.clone(), gg]);
            let d = deadlocks(f, g, &mut states);
            if d { dead += 1; }
            if d && w.is_empty() { out.push((j, "the two functions can deadlock, no warning".to_string())); }
            let conflict = ords[i].iter().any(|(a, c)| ords[j].contains(&(*c, *a)));
            if !conflict && !w.is_empty() { out.push((j, format!("the two functions take their locks in the same order, but: {w:?}"))); }
        }
        (states, dead, out)
    });
    let mut deadpairs = 0;
    for (i, (s, d, out)) in res.into_iter().enumerate() {
        rep.transitions += s;
        rep.traces += seqs.len() as u64;
        rep.evaluations += seqs.len() as u64;
        deadpairs += d;
        for (j, e) in out { rep.violation(&format!("pair {:?} | {:?}", seqs[i], seqs[j]), &e, json!({"f": format!("{:?}", seqs[i]), "g": format!("{:?}", seqs[j])})); }
    }
    // in a longer list every conflicting pair counts, wherever it stands
    let small: Vec<usize> = (0..seqs.len()).filter(|i| seqs[*i].len() <= 4).collect();
    for &i in &small { for &j in &small { for &k in &small {
        let fs: Vec<HirFunction> = [i, j, k].iter().map(|q| func("f", seqs[*q].iter().map(|o| stmt(*o)).collect())).collect();
        rep.evaluations += 1;
        let mut s = 0;
        let w = ck.check_deadlock_risk(&fs);
        let d = deadlocks(&seqs[i], &seqs[j], &mut s) || deadlocks(&seqs[i], &seqs[k], &mut s) || deadlocks(&seqs[j], &seqs[k], &mut s);
        rep.transitions += s;
        if d && w.is_empty() { rep.violation(&format!("triple {:?} | {:?} | {:?}", seqs[i], seqs[j], seqs[k]), "two of the functions can deadlock, no warning", json!({})); }
    }}}
    rep.extra("pairs_that_deadlock", json!(deadpairs));
    rep.sample(format!("{:?}", seqs.last().unwrap()));
    rep.rule("1. every body up to the depth over lock/unlock of two mutexes, accesses to two variables and an unrelated call: number of unmatched operations, locked regions, protected data and unprotected accesses equal the reference; 2. every expression form x statement form as an access inside and outside a region; 3. all interleavings of every pair of balanced lock sequences over three mutexes: a pair that can reach a deadlock must be warned of, a pair that takes all locks in a consistent order must not; all triples of short sequences");
}
