//! C10: the transpilation cache answers exactly when nothing it depends on changed, and with the fresh result.
//! Explicit-state exploration of operation histories on the real cache and real files, against a small model.
use crate::report::*;
use decy_core::{transpile_file, ProjectContext, TranspilationCache, TranspiledFile};
use serde_json::json;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::path::PathBuf;

/// One file: path and its versions (text, files it includes).
pub struct F {
    pub path: &'static str,
    pub vers: Vec<(&'static str, Vec<usize>)>,
    pub can_vanish: bool,
}
pub struct Topo {
    pub name: &'static str,
    pub files: Vec<F>,
    pub roots: Vec<usize>,
}

pub fn topologies() -> Vec<Topo> {
    let f = |path, vers: Vec<(&'static str, Vec<usize>)>, can_vanish| F { path, vers, can_vanish };
    vec![
        Topo {
            name: "chain",
            // versions 0 and 1 have the same length, so that only the content tells them apart
            files: vec![
                f("a.c", vec![("#include \"inc/h1.h\"\nint fa(int x) { return x + H1; }\n", vec![1]), ("#include \"inc/h1.h\"\nint fa(int x) { return x - H1; }\n", vec![1])], false),
                f("inc/h1.h", vec![("# include \"h2.h\" // as in \"a.c\"\n#define H1 (1 + H2)\n", vec![2]), ("#include \"h2.h\"\n#define H1 (2 + H2)\n", vec![2])], true),
                f("inc/h2.h", vec![("#define H2 3\nint g2(int);\n", vec![]), ("#define H2 4\nint g2(int);\n", vec![])], true),
            ],
            roots: vec![0],
        },
        Topo {
            name: "shared",
            files: vec![
                f("a.c", vec![("#include \"h.h\"\nint fa(int x) { return x + K; }\n", vec![2]), ("int fa(int x) { return x + 1; }\n", vec![])], true),
                f("b.c", vec![("#include \"h.h\"\nint fb(int x) { return x * K; }\n", vec![2])], false),
                f("h.h", vec![("#define K 3\n", vec![]), ("#define K 5\n", vec![])], false),
            ],
            roots: vec![0, 1],
        },
        Topo {
            name: "diamond",
            files: vec![
                f("a.c", vec![("#include \"l.h\"\n#include \"r.h\"\nint fa(int x) { return x + L - R; }\n", vec![1, 2])], false),
                f("l.h", vec![("#include \"d.h\"\n#define L (D + 1)\n", vec![3])], false),
                f("r.h", vec![("#include \"d.h\"\n#define R (D + 2)\n", vec![3]), ("#define R (5 + 2)\n\n\n\n\n", vec![])], true),
                f("d.h", vec![("#ifndef D\n#define D 7\n#endif\n", vec![]), ("#ifndef D\n#define D 8\n#endif\n", vec![])], false),
            ],
            roots: vec![0],
        },
    ]
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op { Edit(usize, u8), Build(usize), Get(usize), Save, Reload, Clear }
const ABSENT: u8 = 9;

pub fn ops(t: &Topo) -> Vec<Op> {
    let mut v = vec![];
    for (i, f) in t.files.iter().enumerate() {
        if f.vers.len() > 1 || f.can_vanish { for k in 0..f.vers.len() { v.push(Op::Edit(i, k as u8)); } }
        if f.can_vanish { v.push(Op::Edit(i, ABSENT)); }
    }
    for i in 0..t.roots.len() { v.push(Op::Build(i)); v.push(Op::Get(i)); }
    v.extend([Op::Save, Op::Reload, Op::Clear]);
    v
}

type Snap = BTreeMap<usize, u8>;
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Default)]
struct M { files: Vec<u8>, mem: BTreeMap<usize, Snap>, disk: Option<BTreeMap<usize, Snap>> }
impl M {
    fn start(t: &Topo) -> M { M { files: vec![0; t.files.len()], ..Default::default() } }
    fn closure(&self, t: &Topo, f: usize, s: &mut Snap) {
        let v = self.files[f];
        if s.insert(f, v).is_some() || v == ABSENT { return; }
        for d in &t.files[f].vers[v as usize].1 { self.closure(t, *d, s); }
    }
    fn hit(&self, root: usize) -> bool {
        self.mem.get(&root).is_some_and(|s| s.iter().all(|(f, v)| self.files[*f] == *v))
    }
    /// Does the operation change nothing in the model (and is not an observation)?
    fn idle(&self, op: Op) -> bool { matches!(op, Op::Edit(f, v) if self.files[f] == v) }
    fn apply(&mut self, t: &Topo, op: Op) {
        match op {
            Op::Edit(f, v) => self.files[f] = v,
            Op::Build(r) => {
                if !self.hit(r) {
                    let mut s = Snap::new();
                    self.closure(t, t.roots[r], &mut s);
                    if s.values().all(|v| *v != ABSENT) { self.mem.insert(r, s); }
                }
            }
            Op::Get(_) => {}
            Op::Save => self.disk = Some(self.mem.clone()),
            Op::Reload => self.mem = self.disk.clone().unwrap_or_default(),
            Op::Clear => self.mem.clear(),
        }
    }
}

struct Real { dir: Scratch, memo: HashMap<(usize, Vec<u8>, usize), Result<TranspiledFile, String>> }
thread_local! { static REAL: RefCell<Option<Real>> = const { RefCell::new(None) }; }

fn show(t: &TranspiledFile) -> String { format!("{} | {:?} | {:?} | {:?} | {}", t.rust_code, t.dependencies, t.functions_exported, t.source_path, t.ffi_declarations) }

/// Execute a history from the start on the real cache; Err = violation (index of the operation, text).
fn replay(ti: usize, t: &Topo, h: &[Op], out: &mut BTreeSet<u64>) -> Result<(), (usize, String)> {
    REAL.with(|r| {
        let mut r = r.borrow_mut();
        let real = r.get_or_insert_with(|| Real { dir: Scratch::new("c10"), memo: HashMap::new() });
        let base = real.dir.path().join(format!("p{ti}"));
        let cdir = base.join(".decy/cache");
        let put = |f: usize, v: u8| {
            let p = base.join(t.files[f].path);
            if v == ABSENT { let _ = std::fs::remove_file(p); return; }
            let text = t.files[f].vers[v as usize].0;
            if std::fs::write(&p, text).is_err() { std::fs::create_dir_all(p.parent().unwrap()).unwrap(); std::fs::write(&p, text).unwrap(); }
        };
        let path = |r: usize| -> PathBuf { base.join(t.files[t.roots[r]].path) };
        for f in 0..t.files.len() { put(f, 0); }
        let _ = std::fs::remove_dir_all(base.join(".decy"));
        let mut m = M::start(t);
        let mut cache = TranspilationCache::with_directory(&cdir);
        let (mut hits, mut misses) = (0usize, 0usize);
        for (i, op) in h.iter().enumerate() {
            let bad = |s: String| (i, s);
            match *op {
                Op::Edit(f, v) => put(f, v),
                Op::Build(r) | Op::Get(r) => {
                    let p = path(r);
                    let fresh = real.memo.entry((ti, m.files.clone(), r)).or_insert_with(|| transpile_file(&p, &ProjectContext::new()).map_err(|e| format!("{e:#}"))).clone();
                    let want = m.hit(r);
                    if want { hits += 1 } else { misses += 1 }
                    let got = cache.get(&p).cloned();
                    out.insert(fnv(format!("{ti} {r} {want} {:?}", m.files).as_bytes()));
                    match (&got, &fresh) {
                        (Some(g), Ok(f)) if show(g) != show(f) => return Err(bad(format!("get returns a stale result: {:?} instead of {:?}", g.rust_code, f.rust_code))),
                        (Some(_), Err(e)) => return Err(bad(format!("get returns a result although transpiling fails now: {e}"))),
                        _ => {}
                    }
                    if got.is_some() != want { return Err(bad(format!("get {} although {}", if want { "misses" } else { "hits" }, if want { "nothing changed since the insertion" } else { "the entry is not current" }))); }
                    if matches!(op, Op::Build(_)) && got.is_none() {
                        if let Ok(f) = &fresh { cache.insert(&p, f); }
                        let mut s = Snap::new();
                        m.closure(t, t.roots[r], &mut s);
                        let complete = s.values().all(|v| *v != ABSENT);
                        if fresh.is_ok() != complete { return Err(bad(format!("transpile_file {} with {} files", if fresh.is_ok() { "succeeds" } else { "fails" }, if complete { "all" } else { "missing" }))); }
                    }
                }
                Op::Save => cache.save().map_err(|e| bad(format!("save fails: {e:#}")))?,
                Op::Reload => {
                    cache = TranspilationCache::load(&cdir).map_err(|e| bad(format!("load fails: {e:#}")))?;
                    hits = 0;
                    misses = 0;
                }
                Op::Clear => { cache.clear(); hits = 0; misses = 0; }
            }
            m.apply(t, *op);
            let st = cache.statistics();
            if (st.hits, st.misses, st.total_files) != (hits, misses, m.mem.len()) {
                return Err(bad(format!("statistics report {} hits, {} misses, {} files; {hits}, {misses}, {} happened", st.hits, st.misses, st.total_files, m.mem.len())));
            }
        }
        Ok(())
    })
}

fn text(t: &Topo, h: &[Op]) -> String {
    let v: Vec<String> = h.iter().map(|o| match *o {
        Op::Edit(f, ABSENT) => format!("delete {}", t.files[f].path),
        Op::Edit(f, v) => format!("write {} v{v}", t.files[f].path),
        Op::Build(r) => format!("build {}", t.files[t.roots[r]].path),
        Op::Get(r) => format!("get {}", t.files[t.roots[r]].path),
        o => format!("{o:?}").to_lowercase(),
    }).collect();
    format!("{}: {}", t.name, v.join(", "))
}

/// All histories of exactly `depth` operations without idle edits, extending `pre`.
fn extend(t: &Topo, ops: &[Op], pre: &mut Vec<Op>, m: &M, depth: usize, f: &mut dyn FnMut(&[Op])) {
    if pre.len() == depth { return f(pre); }
    for o in ops {
        if m.idle(*o) { continue; }
        let mut n = m.clone();
        n.apply(t, *o);
        pre.push(*o);
        extend(t, ops, pre, &n, depth, f);
        pre.pop();
    }
}

pub fn run(rep: &mut Report) {
    let topos = topologies();
    for (ti, t) in topos.iter().enumerate() {
        let ops = ops(t);
        // 1. every history up to the depth (a history of full length checks all its prefixes)
        let depth = if rep.thorough { 6 } else { 5 };
        let mut pre = vec![];
        extend(t, &ops, &mut vec![], &M::start(t), 2, &mut |h| pre.push(h.to_vec()));
        let res = par_map(&pre, |_, p| {
            let mut m = M::start(t);
            for o in p { m.apply(t, *o); }
            let (mut n, mut bad, mut out) = (0u64, None, BTreeSet::new());
            extend(t, &ops, &mut p.clone(), &m, depth, &mut |h| {
                if bad.is_none() {
                    n += 1;
                    if let Err((i, e)) = replay(ti, t, h, &mut out) { bad = Some((h[..=i].to_vec(), e)); }
                }
            });
            (n, bad, out)
        });
        for (n, bad, out) in res {
            rep.states += n;
            rep.evaluations += n * depth as u64;
            rep.traces += n;
            for o in out { rep.outcome_hash(o); }
            if let Some((h, e)) = bad { rep.violation(&text(t, &h), &e, json!({"topology": t.name, "history": text(t, &h), "files": t.files.iter().map(|f| (f.path, f.vers.iter().map(|v| v.0).collect::<Vec<_>>())).collect::<Vec<_>>()})); }
        }
        rep.sample(text(t, &pre[pre.len() / 2]));
        if rep.violation_count() > 0 { continue; }
        // 2. breadth-first search over the model's states to the fixpoint, every transition replayed
        let mut seen: BTreeMap<M, Vec<Op>> = BTreeMap::new();
        let mut level = vec![(M::start(t), vec![])];
        seen.insert(M::start(t), vec![]);
        let cap = if rep.thorough { 200 } else { 7 };
        let mut depth2 = 0;
        while !level.is_empty() && depth2 < cap {
            depth2 += 1;
            let res = par_map(&level, |_, (m, h)| {
                let mut next = vec![];
                for o in &ops {
                    if m.idle(*o) { continue; }
                    let mut h2: Vec<Op> = h.clone();
                    h2.push(*o);
                    let r = replay(ti, t, &h2, &mut BTreeSet::new());
                    let mut n = m.clone();
                    n.apply(t, *o);
                    next.push((n, h2, r));
                }
                next
            });
            let mut nl = VecDeque::new();
            for (n, h2, r) in res.into_iter().flatten() {
                rep.transitions += 1;
                rep.traces += 1;
                if let Err((i, e)) = r { rep.violation(&text(t, &h2[..=i]), &e, json!({"history": text(t, &h2[..=i])})); }
                if !seen.contains_key(&n) { seen.insert(n.clone(), h2.clone()); nl.push_back((n, h2)); }
            }
            level = nl.into();
        }
        rep.states += seen.len() as u64;
        rep.extra(&format!("model_states_{}", t.name), json!({"states": seen.len(), "depth": depth2, "fixpoint": level.is_empty()}));
    }
    truncated(&topos, rep);
    rep.rule("3 include topologies (chain, shared header, diamond; same-length edits, deletions, changed include lists) x every history of write/delete/build/get/save/load/clear up to the depth, plus breadth-first search over the model states (contents x memory entries x disk entries), every transition executed on the real TranspilationCache and real files: get hits exactly when the entry exists and the file and all transitive includes have the content of the insertion, its value equals a fresh transpile_file, statistics equal the counted hits, misses and entries; every prefix of the saved cache file of every topology is loaded and either rejected or answers rightly");
}

/// Every prefix of a saved cache file is rejected, or loaded into a cache that answers rightly.
fn truncated(topos: &[Topo], rep: &mut Report) {
    for t in topos {
        let s = Scratch::new("c10t");
        for f in &t.files {
            let p = s.path().join(f.path);
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
            std::fs::write(p, f.vers[0].0).unwrap();
        }
        let cdir = s.path().join(".decy/cache");
        let mut cache = TranspilationCache::with_directory(&cdir);
        let mut want = vec![];
        for r in &t.roots {
            let p = s.path().join(t.files[*r].path);
            let Ok(f) = transpile_file(&p, &ProjectContext::new()) else { continue };
            cache.insert(&p, &f);
            want.push((p, show(&f)));
        }
        if cache.save().is_err() { rep.violation(&format!("{}: save", t.name), "save fails", json!({})); continue; }
        let all: Vec<PathBuf> = take_files(&cdir);
        for file in all {
            let full = std::fs::read(&file).unwrap();
            for n in 0..full.len() {
                std::fs::write(&file, &full[..n]).unwrap();
                rep.evaluations += 1;
                let r = guard(|| match TranspilationCache::load(&cdir) {
                    Err(_) => None,
                    Ok(mut c) => want.iter().find_map(|(p, w)| c.get(p).map(show).filter(|g| g != w)),
                });
                match r {
                    Err(e) => rep.violation(&format!("{}: cache cut to {n} bytes", t.name), &format!("load panics: {e}"), json!({"bytes": n})),
                    Ok(Some(g)) => rep.violation(&format!("{}: cache cut to {n} bytes", t.name), &format!("wrong answer {g}"), json!({"bytes": n})),
                    Ok(None) => {}
                }
            }
            std::fs::write(&file, &full).unwrap();
        }
    }
}
fn take_files(d: &std::path::Path) -> Vec<PathBuf> {
    std::fs::read_dir(d).map(|r| r.flatten().map(|e| e.path()).filter(|p| p.is_file()).collect()).unwrap_or_default()
}
