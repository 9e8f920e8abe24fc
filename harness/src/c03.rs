//! C03: objects and assignment forms.
use crate::c01::{args, prog};
use crate::diffx::*;
use crate::report::*;

/// A fixture: text around the operations.  `@` is replaced by the operations.
pub struct Fx {
    pub name: &'static str,
    pub names: &'static [&'static str],
    pub pre: &'static str,
    /// function body before the operations
    pub setup: &'static str,
    pub post: &'static str,
    /// lvalues usable in the operations
    pub lv: &'static [&'static str],
}

pub const FX: &[Fx] = &[
    Fx { name: "local", names: &[], pre: "", setup: "int f(int a, int b) { int x = 3; int y = 5; ", post: " return (x & 1023) * 31 + (y & 1023); }", lv: &["x", "y", "a"] },
    Fx { name: "array", names: &[], pre: "", setup: "int f(int a, int b) { int v[4] = {3, 1, 4, 1}; int i = b & 3; ", post: " return (v[0] & 63) + (v[1] & 63) * 64 + (v[2] & 63) * 4096 + (v[3] & 63) * 262144; }", lv: &["v[0]", "v[i]", "v[3 - i]", "v[i & 1]"] },
    Fx { name: "struct", names: &["P"], pre: "struct P { int x; int y; };\n", setup: "int f(int a, int b) { struct P p; struct P q; p.x = 3; p.y = 5; q.x = 7; q.y = 2; ", post: " return (p.x & 63) + (p.y & 63) * 64 + (q.x & 63) * 4096 + (q.y & 63) * 262144; }", lv: &["p.x", "p.y", "q.x"] },
    Fx { name: "nested", names: &["I", "O"], pre: "struct I { int k; int m; };\nstruct O { int c; struct I in; };\n", setup: "int f(int a, int b) { struct O o; o.c = 3; o.in.k = 5; o.in.m = 9; ", post: " return (o.c & 63) + (o.in.k & 63) * 64 + (o.in.m & 63) * 4096; }", lv: &["o.c", "o.in.k", "o.in.m"] },
    Fx { name: "arrfield", names: &["A"], pre: "struct A { int n; int v[3]; };\n", setup: "int f(int a, int b) { struct A s; int i = b & 1; s.n = 2; s.v[0] = 3; s.v[1] = 5; s.v[2] = 7; ", post: " return (s.n & 63) + (s.v[0] & 63) * 64 + (s.v[1] & 63) * 4096 + (s.v[2] & 63) * 262144; }", lv: &["s.n", "s.v[0]", "s.v[i]", "s.v[i + 1]"] },
    Fx { name: "arrofstruct", names: &["Q"], pre: "struct Q { int x; int y; };\n", setup: "int f(int a, int b) { struct Q v[2]; int i = b & 1; v[0].x = 3; v[0].y = 5; v[1].x = 7; v[1].y = 9; ", post: " return (v[0].x & 63) + (v[0].y & 63) * 64 + (v[1].x & 63) * 4096 + (v[1].y & 63) * 262144; }", lv: &["v[0].x", "v[1].y", "v[i].x"] },
    Fx { name: "outparam", names: &["h"], pre: "", setup: "void h(int *p, int *q, int a, int b) { ", post: " }\nint f(int a, int b) { int x = 3; int y = 5; h(&x, &y, a, b); return (x & 1023) * 31 + (y & 1023); }", lv: &["*p", "*q", "a"] },
    Fx { name: "ptrstruct", names: &["W", "h"], pre: "struct W { int x; int y; };\n", setup: "void h(struct W *p, int a, int b) { ", post: " }\nint f(int a, int b) { struct W w; w.x = 3; w.y = 5; h(&w, a, b); return (w.x & 1023) * 31 + (w.y & 1023); }", lv: &["p->x", "p->y"] },
    Fx { name: "global", names: &["g", "k"], pre: "int g = 3;\nstatic int k = 5;\n", setup: "int f(int a, int b) { g = 3; k = 5; ", post: " return (g & 1023) * 31 + (k & 1023); }", lv: &["g", "k"] },
    Fx { name: "globalarr", names: &["v"], pre: "int v[4] = {3, 1, 4, 1};\n", setup: "int f(int a, int b) { int i = b & 3; v[0] = 3; v[1] = 1; v[2] = 4; v[3] = 1; ", post: " return (v[0] & 63) + (v[1] & 63) * 64 + (v[2] & 63) * 4096 + (v[3] & 63) * 262144; }", lv: &["v[0]", "v[i]", "v[3 - i]"] },
    Fx { name: "globalstruct", names: &["G", "s"], pre: "struct G { int x; int y; };\nstruct G s;\n", setup: "int f(int a, int b) { s.x = 3; s.y = 5; ", post: " return (s.x & 1023) * 31 + (s.y & 1023); }", lv: &["s.x", "s.y"] },
    Fx { name: "globalptr", names: &["g", "k", "h"], pre: "int g = 3;\nint k = 5;\n", setup: "void h(int *p, int *q, int a, int b) { ", post: " }\nint f(int a, int b) { g = 3; k = 5; h(&g, &k, a, b); return (g & 1023) * 31 + (k & 1023); }", lv: &["*p", "*q"] },
    Fx { name: "elemptr", names: &["h"], pre: "", setup: "void h(int *p, int a, int b) { ", post: " }\nint f(int a, int b) { int v[3] = {3, 5, 7}; int i = b & 1; h(&v[i + 1], a, b); h(&v[0], b, a); return (v[0] & 63) + (v[1] & 63) * 64 + (v[2] & 63) * 4096; }", lv: &["*p", "a"] },
    Fx { name: "fieldptr", names: &["R", "h"], pre: "struct R { int x; int y; };\n", setup: "void h(int *p, int a, int b) { ", post: " }\nint f(int a, int b) { struct R r; r.x = 3; r.y = 5; h(&r.y, a, b); h(&r.x, b, a); return (r.x & 1023) * 31 + (r.y & 1023); }", lv: &["*p", "b"] },
    Fx { name: "globalinit", names: &["g", "k", "h"], pre: "int g = 3;\nint k;\n", setup: "void h(int a, int b) { ", post: " }\nint f(int a, int b) { int r; h(a, b); r = (g & 1023) * 31 + (k & 1023); g = 3; k = 0; return r; }", lv: &["g", "k"] },
];

pub const ASG: &[&str] = &["=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>="];

pub fn ops_for(l: &str, lvs: &[&str]) -> Vec<String> {
    let mut r = vec![];
    for o in ASG {
        let rh: Vec<String> = match *o {
            "<<=" | ">>=" => vec!["2".into(), "(b & 3)".into()],
            "/=" | "%=" => vec!["3".into(), "(a | 1)".into(), "b".into()],
            _ => {
                let mut v = vec!["7".to_string(), "b".into(), "a - 1".into(), "a > b".into()];
                for x in lvs {
                    v.push(x.to_string());
                    v.push(format!("{x} - 1"));
                }
                v
            }
        };
        for x in rh {
            r.push(format!("{l} {o} {x};"));
        }
    }
    for o in ["++", "--"] {
        if l.starts_with('*') {
            r.push(format!("({l}){o};"));
            r.push(format!("{o}({l});"));
        } else {
            r.push(format!("{l}{o};"));
            r.push(format!("{o}{l};"));
        }
    }
    r
}

pub fn programs(thorough: bool) -> Vec<Prog> {
    let ar = args(&[0, 1, -1, 2, 3, 9, 1000]);
    let mut progs = vec![];
    for fx in FX {
        let mut add = |ops: String| {
            let c = format!("{}{}{}{}", fx.pre, fx.setup, ops, fx.post);
            progs.push(prog(format!("{}:{}", fx.name, ops), c, fx.names, &ar));
        };
        let all: Vec<String> = fx.lv.iter().flat_map(|l| ops_for(l, fx.lv)).collect();
        for o in &all {
            add(o.clone());
        }
        // positions: every operator form inside a branch, loop, switch, after another op
        let short: Vec<String> = fx.lv.iter().take(2).flat_map(|l| {
            let mut v: Vec<String> = ASG.iter().map(|o| format!("{l} {o} 3;")).collect();
            let w = if l.starts_with('*') { format!("({l})") } else { l.to_string() };
            v.push(format!("{w}++;"));
            v.push(format!("--{w};"));
            v
        }).collect();
        for o in &short {
            add(format!("if (a > b) {{ {o} }}"));
            add(format!("if (a > b) {o} else {{ {o} {o} }}"));
            add(format!("for (int j = 0; j < 2; j++) {{ {o} }}"));
            add(format!("int j = 0; while (j < 2) {{ {o} j++; }}"));
            add(format!("switch (a) {{ case 0: {o} break; case 1: {o} {o} break; default: {o} }}"));
        }
        // pairs of operations
        let pick: Vec<&String> = if thorough { all.iter().collect() } else { short.iter().collect() };
        let first: Vec<&String> = short.iter().filter(|s| thorough || s.contains(" = ") || s.contains(" -= ") || s.contains(" ^= ") || s.contains("++")).collect();
        for x in &first {
            for y in &pick {
                add(format!("{x} {y}"));
            }
        }
        // value uses of each lvalue
        for l in fx.lv {
            for m in fx.lv {
                add(format!("int z = {l}; {m} = z + 1; {l} = {l} + z;"));
                add(format!("if ({l} > {m}) {{ {l} = 1; }} else {{ {m} = 2; }}"));
                add(format!("int z = -{l} + {m} * 2 - (a & 7); {m} = z;"));
                add(format!("while ({l} < 9 && {m} != 40) {{ {l} += 3; }}"));
                add(format!("{m} = {l} ? {l} : 4;"));
                add(format!("{m} = !{l};"));
                add(format!("{m} = ~{l} & 15;"));
                // the assignment as a value (two elements could be the same object: unsequenced)
                let w = if l.starts_with('*') { format!("({l})") } else { l.to_string() };
                for v in [format!("{w}++"), format!("++{w}"), format!("{w}--"), format!("--{w}"), format!("({l} = a & 7)"), format!("({l} += 3)"), format!("({l} ^= b)")] {
                    if l != m && !(l.contains('[') && m.contains('[')) { add(format!("{m} = {v};")); add(format!("{m} += {v} * 2;")); }
                    if l == m {
                        add(format!("int z = {v}; {l} = {l} * 2 + z;"));
                        add(format!("if ({v} > 2) {{ {l} -= 1; }} else {{ {l} += 4; }}"));
                        add(format!("int j = 0; while ({v} < 60 && j < 2) {{ j++; }} {l} += j;"));
                        add(format!("int z = a > b && {v} > 1; {l} += z;"));
                        add(format!("int z = a > b ? {v} : 5; {l} += z;"));
                    }
                }
            }
        }
    }
    // targets whose index has a side effect: evaluated exactly once
    for (fx, tail, targets) in STEP {
        let fx = FX.iter().find(|f| f.name == *fx).unwrap();
        for t in *targets {
            let mut add = |ops: String| {
                let c = format!("{}{}{}{}", fx.pre, fx.setup, ops, fx.post.replacen("return ", tail, 1));
                progs.push(prog(format!("{}:{}", fx.name, ops), c, fx.names, &ar));
            };
            for step in ["i++", "i--", "++i", "--i", "(i += 1)", "(i ^= 1)", "i++ + 0", "(i > 1 ? i-- : i++)"] {
                // stay inside the array
                let start = match step { "i++" | "(i ^= 1)" | "i++ + 0" | "(i > 1 ? i-- : i++)" => "i = b & 1;", "i--" => "i = (b & 1);", "--i" => "i = (b & 1) + 1;", _ => "i = (b & 1) - (b & 1);" };
                let l = t.replace('@', step);
                for o in ASG {
                    for r in ["3", "(a | 1)"] {
                        if (o.contains("<<") || o.contains(">>")) && r != "3" { continue; }
                        add(format!("{start} {l} {o} {r};"));
                        add(format!("{start} int z = ({l} {o} {r}); {} = z - 1;", t.replace('@', "0")));
                        add(format!("{start} if (a > b) {{ {l} {o} {r}; }}"));
                    }
                }
                for v in [format!("{l}++"), format!("++{l}"), format!("{l}--"), format!("--{l}")] {
                    add(format!("{start} {v};"));
                    add(format!("{start} int z = {v}; {} = z * 2;", t.replace('@', "0")));
                    add(format!("{start} if ({v} > 3) {{ {} += 5; }}", t.replace('@', "1")));
                    add(format!("{start} for (int j = 0; j < 1; {v}) {{ j++; }}"));
                }
            }
        }
    }
    // an index that calls a function is evaluated once, too
    let pre = "int n = 0;\nint v[4];\nint nx(int x) { n = n + 1; return x & 3; }\nint f(int a, int b) { n = 0; v[0] = 3; v[1] = 1; v[2] = 4; v[3] = 1; int w[4] = {2, 7, 1, 8}; ";
    let post = " return n + (v[0] & 63) * 4 + (v[1] & 63) * 256 + (v[2] & 63) * 16384 + w[0] + w[1] * 3 + w[2] * 7 + w[3] * 11; }";
    for t in ["v", "w"] {
        for i in ["nx(a)", "nx(a) ^ 1", "nx(nx(b))", "nx(a + b)"] {
            let mut add = |ops: String| progs.push(prog(format!("globalcalls:{ops}"), format!("{pre}{ops}{post}"), &["n", "v", "nx"], &ar));
            for o in ASG {
                add(format!("{t}[{i}] {o} 3;"));
                add(format!("if (a > b) {t}[{i}] {o} 2; else {t}[nx(b)] {o} 5;"));
            }
            for v in [format!("{t}[{i}]++"), format!("++{t}[{i}]"), format!("{t}[{i}]--"), format!("--{t}[{i}]")] {
                add(format!("{v};"));
                add(format!("int z = {v}; {t}[0] += z * 2;"));
            }
            // the same call written twice happens twice
            add(format!("{t}[{i}] = {t}[{i}] + 1;"));
            add(format!("{t}[{i}] = {t}[{i}] - {t}[nx(b)];"));
        }
    }
    progs
}

/// Fixtures whose lvalues take an index with a side effect (`@`), and what the result starts with.
const STEP: &[(&str, &str, &[&str])] = &[
    ("array", "return i * 65536 + ", &["v[@]"]),
    ("globalarr", "return i * 65536 + ", &["v[@]"]),
    ("arrfield", "return i * 65536 + ", &["s.v[@]"]),
    ("arrofstruct", "return i * 65536 + ", &["v[@].x"]),
];

pub fn run(rep: &mut Report) {
    let mut progs = programs(rep.thorough);
    if let Ok(f) = std::env::var("MC_FILTER") {
        progs.retain(|p: &Prog| p.key.starts_with(&f));
    }
    eprintln!("programs {}", progs.len());
    let outs = run_batch(&progs, &default_transpile);
    let (ok, vac, _) = judge(rep, &progs, &outs);
    rep.extra("programs_ok", ok.into());
    rep.extra("programs_without_defined_input", vac.into());
    rep.rule(format!("{} object fixtures (locals, arrays, structs, nested structs, arrays in structs, arrays of structs, int out-parameters, struct pointer parameters, globals) x every lvalue x every assignment operator and increment form x right-hand sides incl. aliasing the target, in 6 positions, and all ordered pairs of operations (quick: pairs starting with =, -=, ^= or ++); the whole final object state is the observation; 49 inputs each", FX.len()));
}
