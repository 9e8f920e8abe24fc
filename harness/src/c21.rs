//! C21: arrays and heap objects: storage kinds x ways to reach the elements x algorithms, and operation sequences.
use crate::c01::{args, prog};
use crate::c03::ASG;
use crate::diffx::*;
use crate::report::*;

/// An int array of 4 elements: (name, top-level names, text before f, declaration and filling, expression, freeing)
struct Kind {
    name: &'static str,
    names: &'static [&'static str],
    pre: &'static str,
    setup: &'static str,
    e: &'static str,
    done: &'static str,
    /// may be passed as an array argument
    pass: bool,
}
const FILL: &str = "E[0] = a & 15; E[1] = b & 15; E[2] = 7; E[3] = 2; ";
const KINDS: &[Kind] = &[
    Kind { name: "local", names: &[], pre: "", setup: "int v[4]; @", e: "v", done: "", pass: true },
    Kind { name: "list", names: &[], pre: "", setup: "int v[4] = {a & 15, b & 15, 7, 2}; ", e: "v", done: "", pass: true },
    Kind { name: "open", names: &[], pre: "", setup: "int v[] = {a & 15, b & 15, 7, 2}; ", e: "v", done: "", pass: true },
    Kind { name: "part", names: &[], pre: "", setup: "int v[4] = {a & 15, b & 15}; ", e: "v", done: "", pass: true },
    Kind { name: "zero", names: &[], pre: "", setup: "int v[4] = {0}; v[1] = b & 15; ", e: "v", done: "", pass: true },
    Kind { name: "macro", names: &[], pre: "#define N 4\n", setup: "int v[N]; @", e: "v", done: "", pass: true },
    Kind { name: "macroexpr", names: &[], pre: "#define N 3\n", setup: "int v[N + 1]; @", e: "v", done: "", pass: true },
    Kind { name: "enumdim", names: &["N"], pre: "enum { N = 4 };\n", setup: "int v[N]; @", e: "v", done: "", pass: true },
    Kind { name: "exprdim", names: &[], pre: "", setup: "int v[2 * 2]; @", e: "v", done: "", pass: true },
    Kind { name: "global", names: &["v"], pre: "int v[4];\n", setup: "@", e: "v", done: "", pass: true },
    Kind { name: "globallist", names: &["v"], pre: "int v[4] = {5, 6, 7, 8};\n", setup: "v[0] = 5; v[1] = b & 15; v[2] = 7; v[3] = 8; ", e: "v", done: "", pass: true },
    Kind { name: "staticglobal", names: &["v"], pre: "static int v[4];\n", setup: "@", e: "v", done: "", pass: true },
    Kind { name: "globalenum", names: &["v", "N"], pre: "enum { N = 4 };\nint v[N];\n", setup: "@", e: "v", done: "", pass: true },
    Kind { name: "globalmacro", names: &["v"], pre: "#define N 2\nint v[N * 2];\n", setup: "@", e: "v", done: "", pass: true },
    Kind { name: "member", names: &["A"], pre: "struct A { int k; int v[4]; };\n", setup: "struct A s; s.k = 1; @", e: "s.v", done: "", pass: true },
    Kind { name: "globalmember", names: &["A", "s"], pre: "struct A { int k; int v[4]; };\nstruct A s;\n", setup: "@", e: "s.v", done: "", pass: true },
    Kind { name: "row", names: &[], pre: "", setup: "int m[2][4] = {{9, 9, 9, 9}, {1, 1, 1, 1}}; @", e: "m[1]", done: "", pass: true },
    Kind { name: "globalrow", names: &["m"], pre: "int m[3][4];\n", setup: "@", e: "m[2]", done: "", pass: true },
    Kind { name: "alias", names: &[], pre: "", setup: "int w[4]; int *v = w; @", e: "v", done: "", pass: false },
    Kind { name: "malloc", names: &[], pre: "#include <stdlib.h>\n", setup: "int *v = malloc(4 * sizeof(int)); @", e: "v", done: "free(v); ", pass: true },
    Kind { name: "malloc2", names: &[], pre: "#include <stdlib.h>\n", setup: "int *v = (int *)malloc(sizeof(int) * 4); @", e: "v", done: "free(v); ", pass: true },
    Kind { name: "malloc3", names: &[], pre: "#include <stdlib.h>\n", setup: "int *v = malloc(4 * sizeof(*v)); @", e: "v", done: "free(v); ", pass: true },
    Kind { name: "mallocn", names: &[], pre: "#include <stdlib.h>\n", setup: "int n = (a & 3) + 4; int *v = malloc(n * sizeof(int)); @", e: "v", done: "free(v); ", pass: true },
    Kind { name: "malloccheck", names: &[], pre: "#include <stdlib.h>\n", setup: "int *v = malloc(4 * sizeof(int)); if (v == NULL) { return -1; } @", e: "v", done: "free(v); ", pass: true },
    Kind { name: "calloc", names: &[], pre: "#include <stdlib.h>\n", setup: "int *v = calloc(4, sizeof(int)); v[1] = a & 15; ", e: "v", done: "free(v); ", pass: true },
];
/// (name, statements over V (the array) with int r, reads only)
const ALG: &[(&str, &str)] = &[
    ("sum", "for (int i = 0; i < 4; i++) { r += V[i]; }"),
    ("sumw", "int i = 0; while (i < 4) { r = r * 3 + V[i]; i++; }"),
    ("max", "r = V[0]; for (int i = 1; i < 4; i++) { if (V[i] > r) { r = V[i]; } }"),
    ("find", "for (int i = 0; i < 4; i++) { if (V[i] == 7) { r = i + 1; break; } }"),
    ("count", "for (int i = 3; i >= 0; i--) { if (V[i] % 2 == 0) { r++; } }"),
    ("cmp", "r = V[0] > V[1] && V[2] != V[3]; r = r * 2 + (V[0] == V[1] || V[3]);"),
    ("indirect", "r = V[V[0] & 3] * 10 + V[(V[1] + 1) & 3];"),
    ("local", "int x = V[0]; int y = V[1] - V[2]; r = x * 16 + y;"),
];
const MUT: &[(&str, &str)] = &[
    ("fill", "for (int i = 0; i < 4; i++) { V[i] = i * 5; }"),
    ("scale", "for (int i = 0; i < 4; i++) { V[i] *= 2; V[i]++; }"),
    ("swap", "int t = V[0]; V[0] = V[3]; V[3] = t;"),
    ("reverse", "int i = 0; int j = 3; while (i < j) { int t = V[i]; V[i] = V[j]; V[j] = t; i++; j--; }"),
    ("sort", "for (int i = 0; i < 4; i++) { for (int j = 0; j < 3 - i; j++) { if (V[j] > V[j + 1]) { int t = V[j]; V[j] = V[j + 1]; V[j + 1] = t; } } }"),
    ("prefix", "for (int i = 1; i < 4; i++) { V[i] += V[i - 1]; }"),
    ("shift", "int t = V[0]; for (int i = 0; i < 3; i++) { V[i] = V[i + 1]; } V[3] = t;"),
    ("insert", "for (int i = 1; i < 4; i++) { int k = V[i]; int j = i - 1; while (j >= 0 && V[j] > k) { V[j + 1] = V[j]; j--; } V[j + 1] = k; }"),
    ("hist", "int k = V[0] & 3; V[k] = V[k] + 10; V[(k + 1) & 3]--;"),
    ("own", "V[V[1] & 1] = V[2] + V[3];"),
    ("post", "r = V[0]++; r = r * 16 + --V[1];"),
    ("chain", "V[0] = V[1] = 6;"),
    ("cond", "V[2] = V[0] > V[1] ? V[0] : V[1]; if (V[3]) { V[3] = 0; } else { V[3] = 9; }"),
];
const DIGEST: &str = "(V[0] & 63) + (V[1] & 63) * 64 + (V[2] & 63) * 4096 + (V[3] & 63) * 262144";

pub fn programs(thorough: bool) -> Vec<Prog> {
    let ar = args(&[0, 1, -1, 2, 3, 7, 9]);
    let mut ps = vec![];
    for k in KINDS {
        let set = k.setup.replace('@', &FILL.replace('E', k.e));
        let dig = DIGEST.replace('V', k.e);
        let mut add = |key: String, pre: String, body: String, more: &[&str]| {
            let mut names: Vec<&str> = k.names.to_vec();
            names.extend_from_slice(more);
            let c = format!("{}{pre}int f(int a, int b) {{ int r = 0; int d = 0; {set}{body} d = {dig}; {}return d ^ r; }}\n", k.pre, k.done);
            ps.push(prog(format!("{}:{key}", k.name), c, &names, &ar));
        };
        for (n, s) in ALG.iter().chain(MUT) {
            add(format!("direct {n}"), String::new(), s.replace('V', k.e), &[]);
        }
        // sequences of two algorithms on the same array
        for (n, s) in MUT { for (m, t) in ALG.iter().chain(MUT) {
            if !thorough && (n.len() * 3 + m.len() + k.name.len()) % 4 != 0 { continue; }
            add(format!("direct {n}; {m}"), String::new(), format!("{{ {} }} {{ {} }}", s.replace('V', k.e), t.replace('V', k.e)), &[]);
        }}
        if !k.pass { continue; }
        for (form, decl) in [("open", "int p[]"), ("sized", "int p[4]"), ("const", "const int p[]"), ("counted", "int p[], int n"), ("second", "int n, int p[4]")] {
            let (call, n4) = match form { "counted" => (format!("{}, 4", k.e), "n"), "second" => (format!("4, {}", k.e), "n"), _ => (k.e.to_string(), "4") };
            for (i, (n, s)) in ALG.iter().chain(MUT).enumerate() {
                if form == "const" && i >= ALG.len() { continue; }
                let s = s.replace('V', "p").replace("< 4", &format!("< {n4}"));
                add(format!("{form} {n}"), format!("int g({decl}) {{ int r = 0; {s} return r; }}\n"), format!("r = g({call});"), &["g"]);
                if i >= ALG.len() {
                    add(format!("{form} void {n}"), format!("void g({decl}) {{ int r = 0; {s} }}\n"), format!("g({call}); g({call});"), &["g"]);
                }
            }
        }
        // passed on, recursively, and two arrays at once
        add("through".into(), "void h(int p[], int i) { p[i] = p[i] + i + 1; }\nvoid g(int p[], int n) { for (int i = 0; i < n; i++) { h(p, i); } h(p, 0); }\n".into(), format!("g({}, 3);", k.e), &["g", "h"]);
        add("recursive".into(), "int g(int p[], int n) { if (n == 0) { return 0; } p[n - 1] += n; return p[n - 1] + g(p, n - 1); }\n".into(), format!("r = g({}, 4);", k.e), &["g"]);
        add("two".into(), "int g(int p[], int q[], int n) { int s = 0; for (int i = 0; i < n; i++) { s += p[i] * q[i]; p[i] = q[n - 1 - i]; } return s; }\n".into(), format!("int u[4] = {{3, 5, 1, 2}}; r = g({}, u, 4) + u[0];", k.e), &["g"]);
        add("two back".into(), "void g(int p[], int q[], int n) { for (int i = 0; i < n; i++) { p[i] = q[i] + 1; } }\n".into(), format!("int u[4] = {{3, 5, 1, 2}}; g(u, {}, 4); r = u[0] + u[3] * 7;", k.e), &["g"]);
        add("value of".into(), "int g(int x) { return x * 2 + 1; }\n".into(), format!("r = g({0}[1]) + g({0}[b & 3]);", k.e), &["g"]);
        add("cond call".into(), "int g(int p[], int n) { return p[n] > 3; }\n".into(), format!("if (g({0}, 0)) {{ r = 1; }} while (r < 5 && g({0}, 2)) {{ r += 2; }}", k.e), &["g"]);
    }
    // one object of several ints: every assignment form to every part, and pairs of them
    struct Obj { name: &'static str, names: &'static [&'static str], pre: &'static str, setup: &'static str, lv: &'static [&'static str], done: &'static str }
    let objs = [
        Obj { name: "heap", names: &[], pre: "#include <stdlib.h>\n", setup: "int i = b & 1; int *p = malloc(3 * sizeof(int)); p[0] = 3; p[1] = 5; p[2] = 7; ", lv: &["p[0]", "p[i]", "p[i + 1]"], done: "free(p); " },
        Obj { name: "heapstruct", names: &["S"], pre: "#include <stdlib.h>\nstruct S { int x; int y; };\n", setup: "struct S *p = malloc(sizeof(struct S)); p->x = 3; p->y = 5; ", lv: &["p->x", "p->y"], done: "free(p); " },
        Obj { name: "heaptypedef", names: &["S"], pre: "#include <stdlib.h>\ntypedef struct { int x; int y; } S;\n", setup: "S *p = (S *)malloc(sizeof(S)); p->x = 3; p->y = 5; ", lv: &["p->x", "p->y"], done: "free(p); " },
        Obj { name: "heapstructs", names: &["S"], pre: "#include <stdlib.h>\nstruct S { int x; int y; };\n", setup: "int i = b & 1; struct S *p = malloc(2 * sizeof(struct S)); p[0].x = 3; p[0].y = 5; p[1].x = 4; p[1].y = 6; ", lv: &["p[0].x", "p[i].y", "p[1].x", "p[1 - i].y"], done: "free(p); " },
        Obj { name: "grid", names: &[], pre: "", setup: "int i = b & 1; int j = a & 1; int m[2][2] = {{3, 5}, {7, 9}}; ", lv: &["m[0][0]", "m[i][j]", "m[1][i]", "m[1 - j][1]"], done: "" },
        Obj { name: "globalgrid", names: &["m"], pre: "int m[2][2];\n", setup: "int i = b & 1; int j = a & 1; m[0][0] = 3; m[0][1] = 5; m[1][0] = 7; m[1][1] = 9; ", lv: &["m[0][0]", "m[i][j]", "m[1][i]"], done: "" },
        Obj { name: "cube", names: &[], pre: "", setup: "int i = b & 1; int c[2][2][2] = {{{1, 2}, {3, 4}}, {{5, 6}, {7, 8}}}; ", lv: &["c[0][0][0]", "c[1][i][1]", "c[i][1][0]"], done: "" },
        Obj { name: "ptr", names: &[], pre: "", setup: "int x = 3; int y = 5; int *p = &x; ", lv: &["*p", "y"], done: "" },
        Obj { name: "ptrswitch", names: &[], pre: "", setup: "int x = 3; int y = 5; int *p; if (a > b) { p = &x; } else { p = &y; } ", lv: &["*p"], done: "" },
        Obj { name: "elemptr", names: &[], pre: "", setup: "int v[3] = {3, 5, 7}; int *p = &v[1]; ", lv: &["*p"], done: "" },
        Obj { name: "structptr", names: &["S"], pre: "struct S { int x; int y; };\n", setup: "struct S s; s.x = 3; s.y = 5; struct S *p = &s; ", lv: &["p->x", "p->y"], done: "" },
    ];
    for o in &objs {
        let read: Vec<String> = match o.name {
            "ptr" | "ptrswitch" => vec!["x".into(), "y".into()],
            "elemptr" => vec!["v[0]".into(), "v[1]".into(), "v[2]".into()],
            "structptr" => vec!["s.x".into(), "s.y".into()],
            "cube" => vec!["c[0][0][0]".into(), "c[0][1][0]".into(), "c[1][0][1]".into(), "c[1][1][1]".into(), "c[1][1][0]".into()],
            "heap" => vec!["p[0]".into(), "p[1]".into(), "p[2]".into()],
            "heapstructs" => vec!["p[0].x".into(), "p[0].y".into(), "p[1].x".into(), "p[1].y".into()],
            "grid" | "globalgrid" => vec!["m[0][0]".into(), "m[0][1]".into(), "m[1][0]".into(), "m[1][1]".into()],
            _ => vec!["p->x".into(), "p->y".into()],
        };
        let dig: String = read.iter().enumerate().map(|(i, r)| format!("({r} & 63) * {}", 1 << (6 * i))).collect::<Vec<_>>().join(" + ");
        let mut add = |ops: String| {
            let c = format!("{}int f(int a, int b) {{ int r = 0; {}{ops} r = r ^ ({dig}); {}return r; }}\n", o.pre, o.setup, o.done);
            ps.push(prog(format!("{}:{ops}", o.name), c, o.names, &ar));
        };
        let mut all = vec![];
        for l in o.lv {
            for op in ASG { for r in match *op { "<<=" | ">>=" => vec!["(b & 3)".to_string()], "/=" | "%=" => vec!["3".into(), "(a | 1)".into()], _ => { let mut v: Vec<String> = vec!["7".into(), "a > b".into()]; v.extend(o.lv.iter().map(|x| format!("{x} - 1"))); v } } {
                all.push(format!("{l} {op} {r};"));
            }}
            let w = if l.starts_with('*') { format!("({l})") } else { l.to_string() };
            for x in [format!("{w}++;"), format!("--{w};"), format!("r = {l};"), format!("if ({l} > 4) {{ {l} = 1; }}"), format!("while ({l} < 9) {{ {l} += 2; }}"), format!("for (int k = 0; k < 3; k++) {{ {l} = {l} + k; }}"), format!("r = {l} > 3 && {l} != 5;"), format!("int z = {l} * 2; {l} = z - 1;")] { all.push(x); }
        }
        for x in &all { add(x.clone()); }
        let pick: Vec<&String> = all.iter().enumerate().filter(|(i, _)| thorough || i % 7 == 2).map(|(_, s)| s).filter(|s| !s.starts_with("int z")).collect();
        for (i, x) in pick.iter().enumerate() { for (j, y) in pick.iter().enumerate() { if thorough && (i * 7 + j) % 3 != 0 { continue; } add(format!("{x} {y}")); } }
    }
    let mut free = |key: &str, c: &str, names: &[&str]| ps.push(prog(key.to_string(), c.to_string(), names, &ar));
    // grids through functions
    for (n, decl, call) in [("sized", "int m[2][3]", "m"), ("open", "int m[][3]", "m"), ("counted", "int m[][3], int n", "m, 2")] {
        for (k, pre, set, names) in [("local", "", "int m[2][3] = {{1, 2, 3}, {4, 5, 6}}; ", vec!["g"]), ("global", "int m[2][3];\n", "for (int i = 0; i < 2; i++) { for (int j = 0; j < 3; j++) { m[i][j] = i * 3 + j; } } ", vec!["g", "m"]), ("globallist", "int m[2][3] = {{1, 2, 3}, {4, 5, 6}};\n", "m[0][0] = 1; m[1][2] = 6; m[1][0] = 4; m[0][1] = 2; ", vec!["g", "m"])] {
            for (an, body) in [("sum", "int s = 0; for (int i = 0; i < 2; i++) { for (int j = 0; j < 3; j++) { s = s * 2 + m[i][j]; } } return s;"), ("set", "m[1][2] = 40; m[0][1] += 2; m[1][0]++; return m[0][0];"), ("transpose", "int t = m[0][1]; m[0][1] = m[1][0]; m[1][0] = t; return t;")] {
                free(&format!("grid {n} {k} {an}"), &format!("{pre}int g({decl}) {{ {body} }}\nint f(int a, int b) {{ {set}m[a & 1][b & 1] = 9; int r = g({call}); return r * 64 + m[0][1] + m[1][0] * 3 + m[1][2] * 5 + m[0][0]; }}\n"), &names);
            }
        }
    }
    // sizes
    for (k, pre, decl, e, names) in [
        ("local", "", "int v[5]; ", "sizeof(v) / sizeof(v[0])", vec![]), ("bytes", "", "int v[5]; ", "sizeof(v)", vec![]), ("star", "", "int v[5]; ", "sizeof(v) / sizeof(*v)", vec![]), ("type", "", "int v[5]; ", "sizeof(v) / sizeof(int)", vec![]),
        ("global", "int v[6];\n", "", "sizeof(v) / sizeof(v[0])", vec!["v"]), ("struct", "struct S { int x; int y; char c; };\n", "", "sizeof(struct S)", vec!["S"]), ("structs", "struct S { int x; int y; };\n", "struct S v[3]; ", "sizeof(v) / sizeof(v[0])", vec!["S"]),
        ("typedef", "typedef struct { int x; double y; } S;\n", "S v[3]; ", "sizeof(v) / sizeof(S) + sizeof(S)", vec!["S"]), ("scalars", "", "", "sizeof(int) * 1000 + sizeof(char) * 100 + sizeof(double) * 10 + sizeof(short)", vec![]), ("var", "", "double d = 1.0; char c = 'x'; ", "sizeof(d) + sizeof(c) * 10 + sizeof(a) * 100", vec![]), ("member", "struct S { int x; double y; };\n", "struct S s; s.x = 1; ", "sizeof(s.x) + sizeof(s) * 10 + sizeof(s.y) * 100", vec!["S"]),
        ("listsize", "", "int v[] = {1, 2, 3}; ", "sizeof(v) / sizeof(v[0])", vec![]),
    ] {
        for (p, body) in [("return", format!("return {e};")), ("init", format!("int n = {e}; return n * 2 + a % 3;")), ("loop", format!("int n = 0; for (int i = 0; i < (int)({e}); i++) {{ n += 2; }} return n;")), ("arg", format!("return g({e}, b & 3);")), ("arith", format!("return (int)({e}) - 10 * (a & 3);"))] {
            let mut n = names.clone();
            n.push("g");
            free(&format!("sizeof {k} {p}"), &format!("{pre}int g(int x, int y) {{ return x * 4 + y; }}\nint f(int a, int b) {{ {decl}{body} }}\n"), &n);
        }
    }
    // linked lists inside one function
    let build = [("front", "for (int i = 0; i < N; i++) { struct L *n = malloc(sizeof(struct L)); n->v = i * 3 + (a & 3); n->next = h; h = n; }"), ("frontwhile", "int i = 0; while (i < N) { struct L *n = (struct L *)malloc(sizeof(struct L)); n->next = h; n->v = i + (b & 1); h = n; i++; }")];
    let uses = [("digits", "struct L *p = h; while (p != NULL) { r = r * 10 + p->v; p = p->next; }"), ("count", "struct L *p = h; while (p) { r++; p = p->next; }"), ("for", "for (struct L *p = h; p != NULL; p = p->next) { r += p->v; }"), ("max", "struct L *p = h; while (p != NULL) { if (p->v > r) { r = p->v; } p = p->next; }"), ("change", "struct L *p = h; while (p != NULL) { p->v = p->v * 2; p = p->next; } p = h; while (p != NULL) { r = r * 10 + p->v; p = p->next; }"), ("reverse", "struct L *q = NULL; while (h != NULL) { struct L *t = h->next; h->next = q; q = h; h = t; } h = q; struct L *p = h; while (p != NULL) { r = r * 10 + p->v; p = p->next; }"), ("find", "struct L *p = h; while (p != NULL && p->v != 3) { p = p->next; } if (p != NULL) { r = p->v + 1; }"), ("second", "if (h != NULL && h->next != NULL) { r = h->next->v; }")];
    for (bn, bu) in build { for (un, us) in uses { for n in [0, 1, 2, 4] { for (fn_, fr) in [("freed", "while (h != NULL) { struct L *t = h->next; free(h); h = t; }"), ("leaked", "")] {
        free(&format!("list {bn} {un} {n} {fn_}"), &format!("#include <stdlib.h>\nstruct L {{ int v; struct L *next; }};\nint f(int a, int b) {{ int r = 0; struct L *h = NULL; {} {us} {fr} return r; }}\n", bu.replace('N', &n.to_string())), &["L"]);
    }}}}
    ps
}

pub fn run(rep: &mut Report) {
    let mut progs = programs(rep.thorough);
    if let Ok(f) = std::env::var("MC_FILTER") { progs.retain(|p: &Prog| p.key.starts_with(&f)); }
    eprintln!("programs {}", progs.len());
    let outs = run_batch(&progs, &default_transpile);
    let (ok, vac, _) = judge(rep, &progs, &outs);
    rep.extra("programs_ok", ok.into());
    rep.extra("programs_without_defined_input", vac.into());
    rep.rule(format!("{} kinds of int array (local, global, static, sized by literal, macro, enum or expression, initialized fully, partly or not, struct member, row of a grid, pointer alias, 6 heap forms) x {} algorithms directly, in sequence and through 5 parameter forms, passed on, recursively and two at once; 11 objects (heap arrays and structs, grids, cubes, pointers) x every assignment form and pairs; grids through functions; sizeof in 5 positions; linked lists; the whole final content is the observation; 49 inputs each", KINDS.len(), ALG.len() + MUT.len()));
}
