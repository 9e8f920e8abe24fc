//! C04: whole translation units: calls, signatures, enums, typedefs, macros, names, item order.
use crate::c01::{args, prog};
use crate::diffx::*;
use crate::report::*;
use std::sync::Arc;

pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut r = vec![];
    for p in permutations(n - 1) {
        for i in 0..=p.len() {
            let mut q = p.clone();
            q.insert(i, n - 1);
            r.push(q);
        }
    }
    r
}

/// all products of choice indices
pub fn product(dims: &[usize]) -> Vec<Vec<usize>> {
    let mut r = vec![vec![]];
    for d in dims {
        let mut n = vec![];
        for p in &r {
            for k in 0..*d {
                let mut q: Vec<usize> = p.clone();
                q.push(k);
                n.push(q);
            }
        }
        r = n;
    }
    r
}

type Args = Arc<Vec<(i32, i32)>>;

/// call graphs over `n` functions (self loops included): all digraphs x definition orders x prototype use
fn call_graphs(n: usize, orders: &[Vec<usize>], ar: &Args, out: &mut Vec<Prog>) {
    for g in 0..1u32 << (n * n) {
        for (oi, o) in orders.iter().enumerate() {
            let mut c = String::new();
            let mut defined = vec![false; n];
            let def = |k: usize, late: bool| {
                let mut s = String::new();
                for j in 0..n {
                    if g >> (k * n + j) & 1 == 1 {
                        s += &format!(" r = r * 3 + g{j}(n - {});", if j == k { 2 } else { 1 });
                    }
                }
                let _ = late;
                format!("int g{k}(int n) {{ int r = {}; if (n <= 0) {{ return r + n; }}{s} return r & 65535; }}\n", k + 5)
            };
            // a prototype is given exactly where C needs one
            let mut protos = vec![false; n];
            for k in o {
                for j in 0..n {
                    if g >> (k * n + j) & 1 == 1 && !defined[j] && j != *k {
                        protos[j] = true;
                    }
                }
                defined[*k] = true;
            }
            for j in 0..n {
                if protos[j] {
                    c += &format!("int g{j}(int n);\n");
                }
            }
            for k in o {
                c += &def(*k, false);
            }
            c += "int f(int a, int b) { return g0(a & 3) + 7 * g1(b & 3); }\n";
            let names: Vec<String> = (0..n).map(|k| format!("g{k}")).collect();
            let nn: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
            out.push(prog(format!("calls:{n}:{g}:{oi}"), c, &nn, ar));
        }
    }
}

struct Ty {
    t: &'static str,
    /// argument expressions in the caller
    arg: &'static [&'static str],
    /// expression reading the parameter @
    read: &'static str,
    /// statement writing the parameter @ ("" = none)
    write: &'static str,
}
const TYS: &[Ty] = &[
    Ty { t: "int", arg: &["a & 255", "b & 7", "x", "3"], read: "@", write: "@ = @ + 2;" },
    Ty { t: "int *", arg: &["&x", "&y", "&z"], read: "*@", write: "*@ = *@ * 2 + 1;" },
    Ty { t: "struct P", arg: &["l", "m", "l"], read: "(@.u - @.w)", write: "@.u = 9;" },
    Ty { t: "struct P *", arg: &["&p", "&q", "&s"], read: "(@->u * 3 - @->w)", write: "@->w = @->w + 5;" },
    Ty { t: "enum E", arg: &["E1", "E0", "E2"], read: "@", write: "" },
];

fn signatures(maxp: usize, ar: &Args, out: &mut Vec<Prog>) {
    for np in 0..=maxp {
        for pick in product(&vec![TYS.len(); np]) {
            for w in 0..1u32 << np {
                if (0..np).any(|i| w >> i & 1 == 1 && TYS[pick[i]].write.is_empty()) {
                    continue;
                }
                for ret in 0..4 {
                    let mut pars = vec![];
                    let mut argv = vec![];
                    let mut rd = vec!["1".to_string()];
                    let mut wr = String::new();
                    let mut used = vec![0; TYS.len()];
                    for (i, t) in pick.iter().enumerate() {
                        let ty = &TYS[*t];
                        let nm = ["k0", "k1", "k2"][i];
                        pars.push(if ty.t.ends_with('*') { format!("{}{nm}", ty.t) } else { format!("{} {nm}", ty.t) });
                        argv.push(ty.arg[used[*t]].to_string());
                        used[*t] += 1;
                        rd.push(format!("{} * {}", ty.read.replace('@', nm), [3, 11, 17][i]));
                        if w >> i & 1 == 1 {
                            wr += &ty.write.replace('@', nm);
                            wr.push(' ');
                        }
                    }
                    let rd = rd.join(" + ");
                    let call = format!("h({})", argv.join(", "));
                    let plist = if pars.is_empty() { "void".to_string() } else { pars.join(", ") };
                    let (rt, body, use_) = match ret {
                        0 => ("int", format!("int r = {rd}; {wr}return r & 4095;"), format!("int r = {call};")),
                        1 => ("void", format!("{wr}"), format!("int r = 0; {call};")),
                        2 => ("struct P", format!("struct P o; o.u = {rd}; {wr}o.w = 6; return o;"), format!("struct P t = {call}; int r = t.u - t.w;")),
                        _ => ("enum E", format!("int r = {rd}; {wr}if (r > 40) {{ return E2; }} return E1;"), format!("enum E e = {call}; int r = e == E2 ? 8 : 2;")),
                    };
                    let c = format!(
                        "struct P {{ int u; int w; }};\nenum E {{ E0, E1 = 4, E2 }};\n{rt} h({plist}) {{ {body} }}\nint f(int a, int b) {{ int x = 3; int y = a & 63; int z = b & 63; struct P p; struct P q; struct P s; struct P l; struct P m; l.u = b & 7; l.w = 2; m.u = 8; m.w = a & 7; p.u = a & 31; p.w = 1; q.u = 2; q.w = b & 31; s.u = 5; s.w = 7; {use_} return (r & 4095) + 13 * x + 101 * y + 3 * z + 7 * p.u + 503 * p.w + 11 * q.u + 59 * q.w + 31 * s.u + 37 * s.w + l.u * 5 + l.w + m.u * 9 + m.w; }}\n"
                    );
                    out.push(prog(format!("sig:{rt} h({plist}) w{w}"), c, &["P", "E", "E0", "E1", "E2", "h"], ar));
                }
            }
        }
    }
}

fn enums(n: usize, ar: &Args, out: &mut Vec<Prog>) {
    let vals = ["", " = 0", " = -1", " = 5", " = 1 << 3"];
    let forms: &[(&str, &str, &str)] = &[("enum", "enum E {@};\n", "enum E"), ("typedef", "typedef enum {@} E;\n", "E"), ("both", "typedef enum T {@} E;\n", "E"), ("anon", "enum {@};\n", "int")];
    for pick in product(&vec![vals.len(); n]) {
        for (fname, form, ty) in forms {
            let list: Vec<String> = pick.iter().enumerate().map(|(i, v)| format!(" K{i}{}", vals[*v])).collect();
            let decl = form.replace('@', &list.join(","));
            let nm = ["E", "T", "K0", "K1", "K2", "g", "S"];
            let sum: Vec<String> = (0..n).map(|i| format!("K{i} * {}", [1, 17, 301][i])).collect();
            let uses = [
                format!("int f(int a, int b) {{ return {}; }}\n", sum.join(" + ")),
                format!("int g({ty} e) {{ if (e == K0) {{ return 1; }} return e + 2; }}\nint f(int a, int b) {{ {ty} e = K{}; if (a > b) {{ e = K0; }} return g(e); }}\n", n - 1),
                format!("struct S {{ {ty} e; int n; }};\nint f(int a, int b) {{ struct S s; s.e = K{}; s.n = K0; return s.e * 3 + s.n; }}\n", n - 1),
                format!("{ty} g(int a) {{ if (a > 0) {{ return K0; }} return K{}; }}\nint f(int a, int b) {{ int x = g(a); if (g(b) == K0) {{ x = x + 100; }} return x; }}\n", n - 1),
            ];
            for (ui, u) in uses.iter().enumerate() {
                out.push(prog(format!("enum:{fname}:{pick:?}:{ui}"), format!("{decl}{u}"), &nm, ar));
            }
            // a switch needs distinct values
            let mut v = vec![];
            let mut next = 0;
            for p in &pick {
                let x = match p { 0 => next, 1 => 0, 2 => -1, 3 => 5, _ => 8 };
                v.push(x);
                next = x + 1;
            }
            let mut d = v.clone();
            d.sort();
            d.dedup();
            if d.len() == v.len() {
                let cases: Vec<String> = (0..n).map(|i| format!("case K{i}: r = {}; break; ", i + 3)).collect();
                let loops = "for (int i = -1; i < 10; i++) {";
                out.push(prog(format!("enum:{fname}:{pick:?}:sw"), format!("{decl}int g({ty} e) {{ int r = 0; switch (e) {{ {}default: r = 9; }} return r; }}\nint f(int a, int b) {{ return g(K0) * 10 + g(K{}); }}\n", cases.concat(), n - 1), &nm, ar));
                out.push(prog(format!("enum:{fname}:{pick:?}:swi"), format!("{decl}int f(int a, int b) {{ int t = 0; {loops} int r = 0; switch (i) {{ {}default: r = 9; }} t = t * 3 + r; }} return t; }}\n", cases.concat()), &nm, ar));
            }
        }
    }
}

fn typedefs(ar: &Args, out: &mut Vec<Prog>) {
    let nm = ["T", "U", "V", "g", "S"];
    let decls: &[(&str, &str)] = &[
        ("int", "typedef int T;\n"),
        ("chain", "typedef int U;\ntypedef U T;\n"),
        ("chain3", "typedef int V;\ntypedef V U;\ntypedef U T;\n"),
    ];
    let uses: &[&str] = &[
        "T g(T x) { return x / 2; }\nint f(int a, int b) { T t = g(a); return t; }\n",
        "int f(int a, int b) { T x = a & 15; T y = b & 15; T v[2] = {1, 2}; v[1] = x * y; return v[0] + v[1]; }\n",
        "struct S { T x; T y; };\nT f(T a, T b) { struct S s; s.x = a & 15; s.y = b & 15; return s.x - s.y; }\n",
        "void g(T *p) { *p = *p + 1; }\nint f(int a, int b) { T x = a & 15; g(&x); return x; }\n",
        "T k = 5;\nint f(int a, int b) { return k + (a & 7); }\n",
        "int f(int a, int b) { T s = 0; for (T i = 0; i < 5; i++) { s += i; } return s + (T)(a > b); }\n",
    ];
    for (d, dt) in decls {
        for (i, u) in uses.iter().enumerate() {
            out.push(prog(format!("typedef:{d}:{i}"), format!("{dt}{u}"), &["T", "U", "V", "g", "S", "k"], ar));
        }
    }
    let sd: &[(&str, &str, &str)] = &[
        ("tag", "struct S { int x; int y; };\n", "struct S"),
        ("anon", "typedef struct { int x; int y; } S;\n", "S"),
        ("same", "typedef struct S { int x; int y; } S;\n", "S"),
        ("other", "typedef struct S { int x; int y; } T;\n", "T"),
        ("othertag", "typedef struct S { int x; int y; } T;\n", "struct S"),
        ("later", "struct S { int x; int y; };\ntypedef struct S T;\n", "T"),
        ("fwd", "typedef struct S T;\nstruct S { int x; int y; };\n", "T"),
    ];
    let su: &[&str] = &[
        "@ g(int a) { @ p; p.x = a; p.y = 1; return p; }\nint f(int a, int b) { @ p = g(a & 63); @ q = g(b & 63); return p.x * 2 + q.x + q.y; }\n",
        "int g(@ p) { p.x = 3; return p.x + p.y; }\nint f(int a, int b) { @ p; p.x = a & 63; p.y = 2; int r = g(p); return r * 100 + p.x; }\n",
        "void g(@ *p) { p->x = p->y; p->y = 4; }\nint f(int a, int b) { @ p; p.x = 1; p.y = a & 63; g(&p); return p.x * 10 + p.y; }\n",
        "int f(int a, int b) { @ v[3]; v[0].x = 1; v[1].x = a & 63; v[2].x = 5; v[b & 1].y = 7; return v[0].x + v[1].x * 3 + v[2].x + v[b & 1].y; }\n",
        "int f(int a, int b) { @ p = {3, 4}; @ q = p; q.x = a & 63; return p.x * 100 + q.x + q.y; }\n",
        "@ k;\nint f(int a, int b) { k.x = a & 63; k.y = b & 63; return k.x * 64 + k.y; }\n",
        "struct V { @ in; int n; };\nint f(int a, int b) { struct V v; v.in.x = a & 63; v.in.y = 2; v.n = 3; return v.in.x * v.in.y + v.n; }\n",
    ];
    for (d, dt, ty) in sd {
        for (i, u) in su.iter().enumerate() {
            out.push(prog(format!("structdef:{d}:{i}"), format!("{dt}{}", u.replace('@', ty)), &["S", "T", "V", "g", "k"], ar));
        }
    }
    let _ = nm;
}

fn macros(ar: &Args, out: &mut Vec<Prog>) {
    let bodies = ["5", "-3", "(-3)", "(2 + 3)", "0x1F", "'A'", "M", "(M + 1)", "(1 << 4)", "010", "M * 2", "(M > 2)"];
    let uses = [
        "return N;", "int x = N; return x;", "return a / (b | 1) + (N);", "return (N) * (b & 7);", "if ((a & 31) > N) { return 1; } return 0;",
        "int s = 0; for (int i = 0; i < N; i++) { s += i; } return s;", "int v[8]; v[N & 7] = 4; return v[N & 7];", "switch (a & 31) { case 1: return N; default: return N + N; }",
        "return -(N);", "return !N;", "int x = a & 15; x += N; return x;",
    ];
    for (bi, b) in bodies.iter().enumerate() {
        for (ui, u) in uses.iter().enumerate() {
            // an unparenthesised body that regroups with its surroundings is outside the fragment
            if *b == "M * 2" && u.contains("!N") {
                continue;
            }
            for order in 0..2 {
                let (d1, d2) = ("#define M 7\n".to_string(), format!("#define N {b}\n"));
                let d = if order == 0 { d1 + &d2 } else { d2 + &d1 };
                // the batch compiles all programs in one file: undo the definitions
                let c = format!("{d}int f(int a, int b) {{ {u} }}\n");
                let mut p = prog(format!("macro:{bi}:{ui}:{order}"), c.clone(), &[], ar);
                p.oracle = Some(format!("{c}#undef M\n#undef N\n"));
                out.push(p);
            }
        }
    }
}

/// names from here on are no Rust keywords
const PLAIN: usize = 30;
pub const KEYWORDS: &[&str] = &["type", "match", "fn", "loop", "ref", "in", "move", "let", "mod", "pub", "impl", "where", "use", "mut", "trait", "dyn", "async", "await", "yield", "box", "as", "unsafe", "abstract", "final", "override", "priv", "macro", "try", "become", "virtual", "i32", "str", "len", "main2", "vec", "String", "Some", "None", "u8", "String_", "self_", "x_1", "X"];

fn names(ar: &Args, out: &mut Vec<Prog>) {
    let pos: &[(&str, &str)] = &[
        ("local", "int f(int a, int b) { int @ = a & 63; @ = @ * 2; @ += b & 7; if (@ > 9) { @--; } for (int i = 0; i < 2; i++) { @++; } return @; }\n"),
        ("param", "int g(int @, int k) { @ = @ + k; return @ * 2; }\nint f(int a, int b) { return g(a & 63, b & 63); }\n"),
        ("outp", "void g(int *@, int k) { *@ = *@ + k; }\nint f(int a, int b) { int x = 3; g(&x, a & 63); return x; }\n"),
        ("field", "struct S { int @; int k; };\nint f(int a, int b) { struct S s; s.@ = a & 63; s.k = s.@ + 1; s.@ += s.k; return s.@; }\n"),
        ("pfield", "struct S { int @; int k; };\nvoid g(struct S *p) { p->@ = p->@ + p->k; }\nint f(int a, int b) { struct S s; s.@ = a & 63; s.k = 4; g(&s); return s.@; }\n"),
        ("func", "int @(int k) { return k * 2 + 1; }\nint f(int a, int b) { int r = @(a & 63); return r + @(b & 63); }\n"),
        ("loop", "int f(int a, int b) { int s = 0; for (int @ = 0; @ < 4; @++) { s = s * 2 + @; } return s; }\n"),
        ("array", "int f(int a, int b) { int @[3] = {1, 2, 3}; @[1] = a & 63; @[b & 1] += 5; return @[0] + @[1] * 3; }\n"),
        ("global", "int @ = 4;\nint f(int a, int b) { @ = (a & 63) + 1; return @ * 2; }\n"),
    ];
    for (i, k) in KEYWORDS.iter().enumerate() {
        for (pn, t) in pos {
            if i < PLAIN && !["field", "pfield", "array"].contains(pn) || ["Some", "None"].contains(k) && !pn.ends_with("field") {
                continue;
            }
            let c = t.replace('@', k);
            let mut nm = vec!["g", "S"];
            if *pn == "func" || *pn == "global" {
                nm.push(k);
            }
            out.push(prog(format!("name:{pn}:{k}"), c, &nm, ar));
        }
    }
}

/// independent items in every order
fn item_orders(ar: &Args, out: &mut Vec<Prog>) {
    // (text, prerequisites)
    let items: &[(&str, &[usize])] = &[
        ("struct S { int x; int y; };\n", &[]),
        ("enum E { E0 = 3, E1 };\n", &[]),
        ("typedef int T;\n", &[]),
        ("int k = 6;\n", &[]),
        ("int g(struct S s) { return s.x * 2 + s.y; }\n", &[0]),
        ("T h(T t) { k = k + t; return k; }\n", &[2, 3]),
        ("int f(int a, int b) { struct S s; s.x = a & 63; s.y = E1; k = 6; return g(s) * 100 + h(b & 63) + E0; }\n", &[0, 1, 2, 3, 4, 5]),
    ];
    for p in permutations(items.len()) {
        let mut seen = vec![false; items.len()];
        let mut ok = true;
        for i in &p {
            ok &= items[*i].1.iter().all(|d| seen[*d]);
            seen[*i] = true;
        }
        if ok {
            let c: String = p.iter().map(|i| items[*i].0).collect();
            out.push(prog(format!("order:{p:?}"), c, &["S", "E", "E0", "E1", "T", "k", "g", "h"], ar));
        }
    }
}

/// one global or function declared again and again: all sequences of declarations, at most one of them initialised
/// (for a function: exactly one with a body), and the function that uses it after each
fn redeclared(len: usize, ar: &Args, out: &mut Vec<Prog>) {
    // (name, type prefix, declarator, initialiser, uses)
    let kinds: &[(&str, &str, &str, &str, &str)] = &[
        ("int", "int", "g", "5", "int r = g * 3 + (a & 63); g = b & 63; r = r * 2 + g; g = 5; return r;"),
        ("array", "int", "g[2]", "{3, 4}", "int r = g[0] * 3 + g[1] * (a & 63); g[0] = b & 63; r = r * 2 + g[0]; g[0] = 3; return r;"),
        ("rows", "int", "g[2][2]", "{{1, 2}, {3, 4}}", "int r = g[0][1] * 3 + g[1][0] * (a & 63); g[1][0] = b & 63; r = r * 2 + g[1][0]; g[1][0] = 3; return r;"),
        ("struct", "struct P", "g", "", "int r = g.x * 3 + g.y + (a & 63); g.x = b & 63; r = r * 2 + g.x; g.x = 0; return r;"),
    ];
    for (kn, ty, d, init, body) in kinds {
        for n in 1..=len {
            for pick in product(&vec![3; n]) {
                // 0: extern, 1: tentative, 2: initialised
                if pick.iter().filter(|k| **k == 2).count() > 1 || pick.iter().all(|k| *k == 0) { continue; }
                if init.is_empty() && pick.contains(&2) { continue; }
                for storage in ["", "static "] {
                    if !storage.is_empty() && (pick.contains(&0)) { continue; }
                    for at in 1..=n {
                        let mut c = "struct P { int x; int y; };\n".to_string();
                        for (i, k) in pick.iter().enumerate() {
                            c += &match k { 0 => format!("extern {ty} {d};\n"), 1 => format!("{storage}{ty} {d};\n"), _ => format!("{storage}{ty} {d} = {init};\n") };
                            if i + 1 == at {
                                // the first run sees the initial value, as every run restores it
                                let body = if pick.contains(&2) { body.to_string() } else { body.replace("g = 5;", "g = 0;").replace("g[0] = 3;", "g[0] = 0;").replace("g[1][0] = 3;", "g[1][0] = 0;") };
                                c += &format!("int f(int a, int b) {{ {body} }}\n");
                            }
                        }
                        out.push(prog(format!("again:{storage}{kn}:{pick:?}:{at}"), c, &["P", "g"], ar));
                    }
                }
            }
        }
    }
    // functions: 0: prototype, 1: prototype without parameter names, 2: extern prototype, 3: definition
    for n in 1..=len {
        for pick in product(&vec![4; n]) {
            if pick.iter().filter(|k| **k == 3).count() != 1 { continue; }
            for at in 1..=n {
                let mut c = String::new();
                for (i, k) in pick.iter().enumerate() {
                    c += ["int g(int x, int *p);\n", "int g(int, int *);\n", "extern int g(int y, int *q);\n", "int g(int x, int *p) { *p += x; return *p * 2; }\n"][*k];
                    if i + 1 == at { c += "int f(int a, int b) { int v = b & 63; int r = g(a & 63, &v); return r * 100 + v; }\n"; }
                }
                out.push(prog(format!("again:fn:{pick:?}:{at}"), c, &["g"], ar));
            }
        }
    }
}

pub fn programs(thorough: bool) -> Vec<Prog> {
    let ar = args(&[0, 1, -1, 2, 3, 9, 1000]);
    let mut progs = vec![];
    let all3 = permutations(3);
    call_graphs(2, &permutations(2), &ar, &mut progs);
    if thorough {
        call_graphs(3, &all3, &ar, &mut progs);
    } else {
        call_graphs(3, &all3[..2], &ar, &mut progs);
    }
    signatures(if thorough { 3 } else { 2 }, &ar, &mut progs);
    for n in 1..=if thorough { 3 } else { 2 } {
        enums(n, &ar, &mut progs);
    }
    typedefs(&ar, &mut progs);
    macros(&ar, &mut progs);
    names(&ar, &mut progs);
    item_orders(&ar, &mut progs);
    redeclared(3, &ar, &mut progs);
    progs
}

pub fn run(rep: &mut Report) {
    let mut progs = programs(rep.thorough);
    if let Ok(f) = std::env::var("MC_FILTER") {
        progs.retain(|p| p.key.starts_with(&f));
    }
    eprintln!("programs {}", progs.len());
    let outs = run_batch(&progs, &default_transpile);
    let (ok, vac, _) = judge(rep, &progs, &outs);
    rep.extra("programs_ok", ok.into());
    rep.extra("programs_without_defined_input", vac.into());
    rep.rule("all call digraphs over 2 and 3 functions x definition orders with prototypes where C needs them; all signatures of up to 2 (thorough 3) parameters over int, int*, struct, struct*, enum x parameters written or not x 4 return kinds; all enums of up to 2 (3) constants over 5 initializer forms x 4 declaration forms x uses; typedef chains and struct typedef forms x uses; object-like macros x uses x order; every Rust keyword or prelude name as variable, parameter, field, function, array and global name; all valid orders of a 7-item translation unit; all sequences of up to 3 declarations of one global (extern, tentative, initialised, static; int, array, rows, struct) or function, used after each; 49 inputs each");
}
