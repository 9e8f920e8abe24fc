//! C07: the same input gives the same Rust: repetitions, hash seeds, threads, processes, entry points.
use crate::mainx::{decy_bin, run_limited};
use crate::report::*;
use serde_json::json;
use std::process::Command;

/// Units with many items of each kind, so that any dependence on hash order shows.
fn big_units(n: usize) -> Vec<(String, String)> {
    let mut v = vec![];
    for (k, name) in ["functions", "structs", "enums", "typedefs", "globals", "macros", "mixed", "pointers", "locals", "overload"].iter().enumerate() {
        let mut c = String::new();
        for i in 0..n {
            match k {
                0 => c += &format!("int fn{i}(int a, int b) {{ return a * {i} + b; }}\n"),
                1 => c += &format!("struct S{i} {{ int x{i}; int y{i}; }};\nint g{i}(struct S{i} *p) {{ return p->x{i} - p->y{i}; }}\n"),
                2 => c += &format!("enum E{i} {{ A{i} = {i}, B{i}, C{i} }};\nint u{i}(enum E{i} e) {{ return e == B{i}; }}\n"),
                3 => c += &format!("typedef int T{i};\nT{i} t{i}(T{i} a) {{ return a + {i}; }}\n"),
                4 => c += &format!("int v{i} = {i};\nint w{i};\nint r{i}(void) {{ w{i} += v{i}; return w{i}; }}\n"),
                5 => c += &format!("#define M{i} {i}\nint m{i}(void) {{ return M{i}; }}\n"),
                6 => c += &format!("#define K{i} ({i} + 1)\nstruct P{i} {{ int a; }};\nenum F{i} {{ X{i} }};\ntypedef struct P{i} Q{i};\nint z{i} = {i};\nint h{i}(struct P{i} p, enum F{i} e) {{ z{i} = p.a + e + K{i}; return z{i}; }}\n"),
                7 => c += &format!("void sw{i}(int *a, int *b, int c) {{ int t = *a; *a = *b + c; *b = t; }}\nint us{i}(int x, int y) {{ sw{i}(&x, &y, {i}); return x - y; }}\n"),
                8 => {
                    c += &format!("int lo{i}(int a, int b) {{ ");
                    for j in 0..n { c += &format!("int q{j} = a + {j}; "); }
                    for j in 0..n { c += &format!("q{j} = q{j} * q{}; ", (j * 5 + 1) % n); }
                    c += "return q0; }\n";
                }
                _ => c += &format!("int pr{i}(int);\nint pr{i}(int a);\nint pr{i}(int a) {{ return a ? pr{}(a - 1) : {i}; }}\n", if i == 0 { 0 } else { i - 1 }),
            }
        }
        v.push((name.to_string(), c));
    }
    v.push(("heap".into(), "#include <stdlib.h>\n#include <stdio.h>\n#include <string.h>\nint *mk(int n) { int *p = malloc(sizeof(int) * n); for (int i = 0; i < n; i++) { p[i] = i; } return p; }\nvoid rel(int *p) { free(p); }\nint total(int *a, int n) { int s = 0; for (int i = 0; i < n; i++) { s += a[i]; } return s; }\nint main(void) { int *q = mk(4); printf(\"%d\\n\", total(q, 4)); rel(q); return 0; }\n".into()));
    v.push(("headers".into(), "#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <math.h>\n#include <ctype.h>\n#include <errno.h>\nint main(void) { printf(\"%d\\n\", abs(-3)); return 0; }\n".into()));
    v.push(("threads".into(), "#include <pthread.h>\npthread_mutex_t m1;\npthread_mutex_t m2;\nint a1; int a2; int a3; int a4;\nvoid inc(void) { pthread_mutex_lock(&m1); a1 += 1; a2 += 1; a3 += 1; a4 += 1; pthread_mutex_unlock(&m1); }\nvoid dec(void) { pthread_mutex_lock(&m2); a1 -= 1; pthread_mutex_unlock(&m2); }\n".into()));
    v
}

pub fn run(rep: &mut Report) {
    let reps = if rep.thorough { 64 } else { 16 };
    let mut units = big_units(6);
    if rep.thorough { units.extend(big_units(9).into_iter().map(|(k, c)| (format!("{k}9"), c))); }
    let mut small: Vec<(String, String)> = vec![];
    for p in crate::c04::programs(rep.thorough).into_iter().step_by(if rep.thorough { 1 } else { 2 }) { small.push((p.key, p.c)); }
    for p in crate::c03::programs(rep.thorough).into_iter().step_by(if rep.thorough { 2 } else { 19 }) { small.push((p.key, p.c)); }
    for p in crate::c05::programs(false).into_iter() { small.push((p.key, p.c)); }
    let tr = |c: &str| guard(|| decy_core::transpile(c).map_err(|e| format!("{e:#}"))).unwrap_or_else(|e| Err(format!("panic: {e}")));
    // (1) repetitions in one process: every HashMap of every run gets a fresh seed
    let all: Vec<(&(String, String), usize)> = units.iter().map(|u| (u, reps)).chain(small.iter().map(|u| (u, 3))).collect();
    let res = par_map(&all, |_, (u, n)| {
        let first = tr(&u.1);
        for k in 1..*n {
            let r = tr(&u.1);
            if r != first { return (first, Some((k, r))); }
        }
        (first, None)
    });
    let mut firsts = vec![];
    for ((u, n), (first, diff)) in all.iter().zip(res) {
        rep.states += 1;
        rep.transitions += *n as u64;
        rep.evaluations += *n as u64;
        rep.outcome(&format!("{first:?}"));
        if let Some((k, r)) = diff {
            rep.violation(&format!("repeat {}", u.0), &format!("run {} differs from the first run in the same process", k + 1), json!({"c": u.1, "first": format!("{first:?}"), "other": format!("{r:?}")}));
        }
        firsts.push(first);
    }
    // (2) threads running the same unit at once
    for (i, u) in units.iter().enumerate() {
        let outs: Vec<_> = std::thread::scope(|s| { let hs: Vec<_> = (0..8).map(|_| s.spawn(|| tr(&u.1))).collect(); hs.into_iter().map(|h| h.join().unwrap()).collect() });
        rep.transitions += 8;
        if outs.iter().any(|o| *o != firsts[i]) {
            rep.violation(&format!("threads {}", u.0), "transpiling on several threads at once gives a different result", json!({"c": u.1}));
        }
    }
    // (3) other processes and (4) other entry points
    let sel: Vec<(usize, &(String, String))> = units.iter().chain(small.iter().step_by(if rep.thorough { 1 } else { 7 })).enumerate().collect();
    let index = |u: &(String, String)| all.iter().position(|(x, _)| std::ptr::eq(*x, u)).unwrap();
    let idx: Vec<usize> = sel.iter().map(|(_, u)| index(u)).collect();
    let problems = par_map(&sel, |k, (_, u)| {
        let sc = Scratch::new("det");
        let f = sc.path().join("in.c");
        std::fs::write(&f, &u.1).unwrap();
        let want = &firsts[idx[k]];
        let mut bad = vec![];
        let mut n = 0u64;
        let mut cmp = |what: &str, got: Result<String, String>| {
            n += 1;
            let same = match (want, &got) { (Ok(a), Ok(b)) => a == b, (Err(_), Err(_)) => true, _ => false };
            if !same { bad.push((what.to_string(), format!("{got:?}"))); }
        };
        let cli = |args: &[&str]| -> Result<String, String> {
            let o = run_limited(Command::new(decy_bin()).args(args), 60).ok_or("timeout")?;
            if o.status.success() { Ok(String::from_utf8_lossy(&o.stdout).to_string()) } else { Err(format!("{:?}", o.status)) }
        };
        let fs = f.to_str().unwrap();
        let procs = if k < units.len() { 4 } else { 1 };
        for _ in 0..procs { cmp("decy transpile (stdout)", cli(&["transpile", fs])); }
        let of = sc.path().join("out.rs");
        cmp("decy transpile -o", cli(&["transpile", fs, "-o", of.to_str().unwrap()]).and_then(|_| std::fs::read_to_string(&of).map_err(|e| e.to_string())));
        cmp("decy transpile --trace", cli(&["transpile", fs, "--trace"]));
        let e = |r: Result<Result<String, String>, String>| r.unwrap_or_else(Err);
        cmp("transpile_with_trace", e(guard(|| decy_core::transpile_with_trace(&u.1).map(|x| x.0).map_err(|e| e.to_string()))));
        cmp("transpile_with_includes", e(guard(|| decy_core::transpile_with_includes(&u.1, Some(sc.path())).map_err(|e| e.to_string()))));
        cmp("transpile_with_verification", e(guard(|| decy_core::transpile_with_verification(&u.1).map_err(|e| e.to_string()).and_then(|r| if r.errors.is_empty() { Ok(r.rust_code) } else { Err("errors".into()) }))));
        cmp("transpile_file", e(guard(|| decy_core::transpile_file(&f, &decy_core::ProjectContext::new()).map(|r| r.rust_code).map_err(|e| e.to_string()))));
        let od = sc.path().join("od");
        cmp("decy transpile-project", cli(&["transpile-project", sc.path().to_str().unwrap(), "-o", od.to_str().unwrap(), "--quiet"]).and_then(|_| std::fs::read_to_string(od.join("in.rs")).map_err(|e| e.to_string())));
        // the two alternative generators must at least agree with themselves
        for (what, g) in [("transpile_from_file_path", &(|| decy_core::transpile_from_file_path(&f).map_err(|e| e.to_string())) as &dyn Fn() -> Result<String, String>), ("transpile_with_box_transform", &|| decy_core::transpile_with_box_transform(&u.1).map_err(|e| e.to_string()))] {
            let a = e(guard(g));
            for _ in 0..if k < units.len() { 8 } else { 2 } {
                n += 1;
                if e(guard(g)).ok() != a.clone().ok() { bad.push((format!("{what} is not repeatable"), String::new())); break; }
            }
        }
        (n, bad)
    });
    for (((_, u), (n, bad)), k) in sel.iter().zip(problems).zip(&idx) {
        rep.evaluations += n;
        rep.transitions += n;
        rep.traces += n;
        for (what, got) in bad {
            rep.violation(&format!("{what}: {}", u.0), &format!("{what} gives a different result than transpile"), json!({"c": u.1, "transpile": format!("{:?}", firsts[*k]), "got": got}));
        }
    }
    rep.rule("units with 6 (thorough also 9) items of every kind, the C04 enumeration, samples of C03 and C05: repeated in-process (fresh hash seeds), on 8 threads at once, in fresh processes, and through every entry point (CLI stdout, -o, --trace, transpile-project, library variants); all outputs byte-identical");
    rep.assume("hash iteration orders are explored through fresh random seeds per map, not enumerated");
}
