//! C13: the project dependency graph and its build order, for every small include relation.
use crate::mainx::{decy_bin, run_limited};
use crate::report::*;
use decy_core::DependencyGraph;
use serde_json::json;
use std::path::{Path, PathBuf};
use std::process::Command;

fn edges(n: usize, bits: u32) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for i in 0..n { for j in 0..n { if bits >> (i * n + j) & 1 == 1 { v.push((i, j)); } } }
    v
}
/// Reference: is the relation cyclic (self edges included)?
fn cyclic(n: usize, e: &[(usize, usize)]) -> bool {
    let mut r = vec![vec![false; n]; n];
    for (a, b) in e { r[*a][*b] = true; }
    for k in 0..n { for i in 0..n { for j in 0..n { if r[i][k] && r[k][j] { r[i][j] = true; } } } }
    (0..n).any(|i| r[i][i])
}
fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 { return vec![vec![]]; }
    let mut v = vec![];
    for p in perms(n - 1) { for i in 0..n { let mut q = p.clone(); q.insert(i, n - 1); v.push(q); } }
    v
}
fn order_ok(n: usize, e: &[(usize, usize)], order: &[usize]) -> Result<(), String> {
    let mut s = order.to_vec();
    s.sort();
    if s != (0..n).collect::<Vec<_>>() { return Err(format!("the build order {order:?} is not a permutation of the {n} files")); }
    let pos = |x: usize| order.iter().position(|y| *y == x).unwrap();
    for (a, b) in e { if pos(*a) < pos(*b) { return Err(format!("the build order {order:?} puts {a} before its dependency {b}")); } }
    Ok(())
}

fn api(n: usize, e: &[(usize, usize)], perm: &[usize], rev: bool, dup: bool) -> Result<(), String> {
    let names: Vec<PathBuf> = (0..n).map(|i| PathBuf::from(format!("p/f{i}.c"))).collect();
    let mut g = DependencyGraph::new();
    if !g.is_empty() { return Err("a new graph is not empty".into()); }
    for i in perm { g.add_file(&names[*i]); if dup { g.add_file(&names[*i]); g.add_file(&names[perm[0]]); } }
    let mut es = e.to_vec();
    if rev { es.reverse(); }
    for (a, b) in &es { g.add_dependency(&names[*a], &names[*b]); if dup { g.add_dependency(&names[*a], &names[*b]); g.add_file(&names[*b]); } }
    check(&g, n, e, &names)
}
fn check(g: &DependencyGraph, n: usize, e: &[(usize, usize)], names: &[PathBuf]) -> Result<(), String> {
    if g.file_count() != n || g.is_empty() != (n == 0) { return Err(format!("file_count is {}", g.file_count())); }
    for i in 0..n {
        if !g.contains_file(&names[i]) { return Err(format!("file {i} is not contained")); }
        for j in 0..n {
            if g.has_dependency(&names[i], &names[j]) != e.contains(&(i, j)) { return Err(format!("has_dependency({i}, {j}) is {}", !e.contains(&(i, j)))); }
        }
    }
    if g.contains_file(Path::new("p/other.c")) || g.has_dependency(Path::new("p/other.c"), Path::new("p/other.c")) { return Err("a file never added is contained".into()); }
    match (g.topological_sort(), cyclic(n, e)) {
        (Err(_), true) => Ok(()),
        (Err(x), false) => Err(format!("topological_sort fails on an acyclic relation: {x}")),
        (Ok(_), true) => Err("topological_sort accepts a cyclic relation".into()),
        (Ok(o), false) => {
            let o: Option<Vec<usize>> = o.iter().map(|p| names.iter().position(|n| n == p)).collect();
            order_ok(n, e, &o.ok_or("the build order contains an unknown file")?)
        }
    }
}

/// File layouts: paths of the three files and how file i writes the include of file j.
struct Layout { name: &'static str, files: [&'static str; 3], inc: [[&'static str; 3]; 3] }
const LAYOUTS: [Layout; 4] = [
    Layout { name: "flat", files: ["a.c", "b.c", "c.c"], inc: [["a.c", "b.c", "c.c"], ["a.c", "b.c", "c.c"], ["a.c", "b.c", "c.c"]] },
    Layout { name: "down", files: ["a.c", "s/b.c", "s/t/c.c"], inc: [["a.c", "s/b.c", "s/t/c.c"], ["../a.c", "b.c", "t/c.c"], ["../../a.c", "../b.c", "c.c"]] },
    Layout { name: "same-name", files: ["x/a.c", "y/a.c", "a.c"], inc: [["a.c", "../y/a.c", "../a.c"], ["../x/a.c", "a.c", "../a.c"], ["x/a.c", "y/a.c", "a.c"]] },
    Layout { name: "dots", files: ["a.c", "b.c", "s/c.c"], inc: [["./a.c", "./b.c", "./s/c.c"], ["./a.c", "s/../b.c", "s/./c.c"], [".././a.c", "./../b.c", "../s/c.c"]] },
];
const FORMS: [(&str, &str); 10] = [
    ("#include \"", "\""), ("  #include \"", "\" // needed"), ("#include\"", "\""), ("\t#include   \"", "\"   "), ("#include \"", "\" /* \"other.c\" */"),
    ("# include \"", "\" // it's \"a.c\""), ("/* x */ #\tinclude /* \"b.c\" */ \"", "\""), ("/* two\nlines */ #include \"", "\""), ("#include \"", "\" /* two\n#include \"c.c\"\nlines */"), ("char *s = \"/*\"; char t = '\"'; // /*\n#include \"", "\"\r"),
];

fn text(l: &Layout, form: usize, i: usize, e: &[(usize, usize)]) -> String {
    let mut s = String::from("#include <stdio.h> // as in \"c.c\"\n// text \"b.c\"\n/* not this\n#include \"a.c\"\n#include \"b.c\" */\n// #include \"c.c\"\n");
    for (_, j) in e.iter().filter(|x| x.0 == i) { s += &format!("{}{}{}\n", FORMS[form].0, l.inc[i][*j], FORMS[form].1); }
    s + "#include \"elsewhere.h\"\nint v;\n"
}

pub fn run(rep: &mut Report) {
    // 1. API: all digraphs
    let mut jobs: Vec<(usize, u32, Vec<usize>, bool, bool)> = vec![];
    for n in 0..=4usize {
        for bits in 0..1u32 << (n * n) {
            let full = n <= 3 || rep.thorough;
            for (k, p) in perms(n).into_iter().enumerate() {
                if !full && k > 0 && (bits & 0x8421) != 0 { continue; }
                if !full && k % 6 != 0 { continue; }
                jobs.push((n, bits, p.clone(), k % 2 == 1, false));
                if n <= 3 { jobs.push((n, bits, p.clone(), k % 2 == 0, false)); jobs.push((n, bits, p, false, true)); }
            }
        }
    }
    if rep.thorough {
        for b in 0..1u32 << 20 {
            // 5 files, no self edges
            let mut bits = 0u32;
            let mut k = 0;
            for i in 0..5 { for j in 0..5 { if i != j { if b >> k & 1 == 1 { bits |= 1 << (i * 5 + j); } k += 1; } } }
            jobs.push((5, bits, vec![3, 1, 4, 0, 2], false, false));
        }
    }
    let chunks: Vec<_> = jobs.chunks(4096).collect();
    let res = par_map(&chunks, |_, c| c.iter().map(|(n, b, p, r, d)| guard(|| api(*n, &edges(*n, *b), p, *r, *d)).unwrap_or_else(|e| Err(format!("panic: {e}")))).collect::<Vec<_>>());
    for ((n, b, p, r, d), x) in jobs.iter().zip(res.into_iter().flatten()) {
        rep.states += 1; rep.transitions += 1; rep.evaluations += 1; rep.traces += 1;
        rep.outcome_hash(fnv(format!("{n} {b}").as_bytes()));
        if let Err(e) = x { rep.violation(&format!("graph n={n} edges={:?} added {p:?}", edges(*n, *b)), &e, json!({"edges": edges(*n, *b), "order": p, "reversed": r, "duplicates": d})); }
    }
    // 2. from_files and check-project on real files
    let mut fj: Vec<(usize, usize, u32)> = vec![];
    for l in 0..LAYOUTS.len() { for f in 0..FORMS.len() { if f > 0 && l > 0 && !rep.thorough && f % 4 != l { continue; } for b in 0..512 { fj.push((l, f, b)); } } }
    let res = par_map(&fj, |_, (l, f, b)| -> Result<bool, String> {
        let lay = &LAYOUTS[*l];
        let e = edges(3, *b);
        let sc = Scratch::new("c13");
        for i in 0..3 {
            let p = sc.path().join(lay.files[i]);
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
            std::fs::write(&p, text(lay, *f, i, &e)).unwrap();
        }
        for p in perms(3) {
            let names: Vec<PathBuf> = lay.files.iter().map(|x| sc.path().join(x)).collect();
            let files: Vec<PathBuf> = p.iter().map(|i| names[*i].clone()).collect();
            let g = guard(|| DependencyGraph::from_files(&files)).map_err(|e| format!("panic: {e}"))?.map_err(|e| format!("from_files fails: {e:#}"))?;
            check(&g, 3, &e, &names).map_err(|x| format!("from_files: {x}"))?;
        }
        // the command line
        if *f == 0 {
            let o = run_limited(Command::new(decy_bin()).current_dir(sc.path()).args(["check-project", "."]), 60).ok_or("check-project does not end")?;
            let so = String::from_utf8_lossy(&o.stdout).to_string();
            if o.status.success() == cyclic(3, &e) { return Err(format!("check-project {} a project with{} circular includes:\n{so}", if o.status.success() { "accepts" } else { "rejects" }, if cyclic(3, &e) { "" } else { "out" })); }
            if o.status.success() {
                let order: Vec<usize> = so.lines().skip_while(|l| !l.contains("Build order")).filter_map(|l| lay.files.iter().position(|f| l.trim().split_once(". ").is_some_and(|x| x.1.trim_start_matches("./") == *f))).collect();
                order_ok(3, &e, &order).map_err(|x| format!("check-project: {x}\n{so}"))?;
            }
            return Ok(true);
        }
        Ok(false)
    });
    for ((l, f, b), x) in fj.iter().zip(res) {
        rep.states += 1; rep.evaluations += 1; rep.traces += 1;
        rep.outcome_hash(fnv(format!("f {l} {f} {b}").as_bytes()));
        match x {
            Ok(cli) => rep.transitions += 6 + cli as u64,
            Err(e) => rep.violation(&format!("files {} form {f} edges={:?}", LAYOUTS[*l].name, edges(3, *b)), &e, json!({"files": (0..3).map(|i| (LAYOUTS[*l].files[i], text(&LAYOUTS[*l], *f, i, &edges(3, *b)))).collect::<Vec<_>>()})),
        }
    }
    rep.sample("n=3 edges [(0,1),(1,2)] added [2,0,1] -> order 2,1,0");
    rep.rule("all include relations on up to 4 files (thorough: also 5 files without self edges) x insertion orders x edge orders x repeated insertions through the API; all 512 relations on 3 real files x 4 directory layouts (nested, same names, dot segments) x 10 spellings (spaced #, comments before, inside and after the directive, quotes in comments) x all 6 list orders through from_files, and through `decy check-project`; reference: transitive closure");
}
