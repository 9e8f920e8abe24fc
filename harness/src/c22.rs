//! C22: every use of a name refers to the declaration C's scope rules choose.
use crate::c01::{args, prog};
use crate::diffx::*;
use crate::report::*;

/// how a declaration of the name n looks: (name, declaration, value read, write of the value W)
struct Form {
    name: &'static str,
    decl: &'static str,
    read: &'static str,
    write: &'static str,
}
const GLOBAL: &[Form] = &[
    Form { name: "none", decl: "", read: "", write: "" },
    Form { name: "int", decl: "int n;\n", read: "n", write: "n = W;" },
    Form { name: "init", decl: "int n = 5;\n", read: "n", write: "n = W;" },
    Form { name: "static", decl: "static int n = 3;\n", read: "n", write: "n = W;" },
    Form { name: "array", decl: "int n[2];\n", read: "(n[0] * 3 + n[1])", write: "n[1] = W;" },
    Form { name: "struct", decl: "struct S n;\n", read: "(n.x * 3 + n.y)", write: "n.x = W;" },
];
const LOCAL: &[Form] = &[
    Form { name: "none", decl: "", read: "", write: "" },
    Form { name: "int", decl: "int n = 11;", read: "n", write: "n = W;" },
    Form { name: "incr", decl: "int n; n = a;", read: "n", write: "n += W; n++;" },
    Form { name: "array", decl: "int n[2] = {1, 2};", read: "(n[0] * 3 + n[1])", write: "n[0] = W; n[1]++;" },
    Form { name: "struct", decl: "struct S n; n.x = 4; n.y = 6;", read: "(n.x * 3 + n.y)", write: "n.y += W;" },
];
/// blocks: (name, text with @ for the content, whether the content runs at least once)
const BLOCK: &[(&str, &str)] = &[
    ("plain", "{ @ }"),
    ("if", "if (a > 1) { @ }"),
    ("else", "if (a > 1) { r += 1; } else { @ }"),
    ("elseif", "if (a > 1) { r += 1; } else if (b > 0) { @ } else { r += 2; }"),
    ("for", "for (int i = 0; i < 2; i++) { @ }"),
    ("while", "int w = 0; while (w < 2) { w++; @ }"),
    ("do", "int w = 0; do { w++; @ } while (w < 2);"),
    ("case", "switch (a) { case 0: { @ break; } case 1: r += 5; break; default: { @ } }"),
];
pub const SPELL: &[&str] = &[
    "type", "match", "fn", "let", "mut", "ref", "self", "Self", "super", "crate", "mod", "use", "pub", "impl", "trait", "where", "loop", "move", "in", "as", "dyn", "async", "await", "box", "yield", "try", "abstract", "become", "final", "macro", "override", "priv", "unsized", "virtual", "gen", "raw",
    "i32", "u8", "usize", "str", "String", "Vec", "Box", "Option", "Some", "None", "Ok", "Err", "std", "core", "drop", "print", "println", "vec", "format", "Default", "Copy", "Clone", "index", "__index", "__v", "len", "T", "ptr", "Result", "Iterator", "f", "_x", "x_", "X",
];

pub fn programs(thorough: bool) -> Vec<Prog> {
    let ar = args(&[0, 1, -1, 2, 7]);
    let mut ps: Vec<Prog> = vec![];
    let step = |read: &str| format!("r = r * 7 + {read}; r &= 0xffff; ");
    let uses = |f: &Form, w: &str| format!("{} {}{} {}", f.decl, step(f.read), f.write.replace('W', w), step(f.read));
    let outer = |f: &Form, w: &str| if f.name == "none" { String::new() } else { format!("{}{} {}", step(f.read), f.write.replace('W', w), step(f.read)) };
    const S: &str = "struct S { int x; int y; };\n";
    let param = Form { name: "param", decl: "", read: "n", write: "n = W;" };
    // one function: global x (parameter or local) x block, and other functions that use the global
    for g in GLOBAL {
        let pre = format!("{S}{}", g.decl);
        let (gf, names): (String, Vec<&str>) = if g.name == "none" { (String::new(), vec!["S"]) } else { (format!("int get(void) {{ return {}; }}\nvoid put(int v) {{ {} }}\n", g.read, g.write.replace('W', "v")), vec!["S", "n", "get", "put"]) };
        let see = if g.name == "none" { "" } else { "r = r * 5 + get(); put(r & 15); r &= 0xffff; " };
        let setg = match g.name { "none" => "", "array" => "n[0] = 2; n[1] = 3; ", "struct" => "n.x = 2; n.y = 3; ", _ => "n = 9; " };
        for (li, l) in LOCAL.iter().chain([&param]).enumerate() {
            let is_param = li == LOCAL.len();
            let cur = if l.name == "none" { g } else { l };
            let top = if l.name == "none" { outer(g, "r + 1") } else { uses(l, "r + 1") };
            let mut blocks: Vec<(String, String)> = vec![("noblock".into(), String::new())];
            for (bn, bt) in BLOCK {
                for b in LOCAL {
                    let inner = if b.name == "none" { outer(cur, "r ^ 3") } else { uses(b, "r ^ 3") };
                    let inner = format!("{inner}{see}");
                    blocks.push((format!("{bn} {}", b.name), bt.replace('@', &inner)));
                }
            }
            blocks.push(("forinit".into(), format!("for (int n = 0; n < 3; n++) {{ {}{see} }}", step("n"))));
            blocks.push(("forinit body".into(), format!("for (int n = 0; n < 3; n++) {{ r += n; int m = n * 2; {}{see} }}", step("m"))));
            if !is_param && l.name == "none" && g.name == "none" {
                blocks.retain(|b| b.0.ends_with("int") || b.0.starts_with("forinit"));
            }
            for (bn, bt) in blocks {
                let fun = if is_param { format!("int h(int n) {{ int r = 1; int a = n & 3; int b = n; {top}{bt} {}{see}return r; }}\nint f(int a, int b) {{ {setg}int r = h(a) * 3 + h(b); {see}return r; }}\n", step("n")) } else { format!("int f(int a, int b) {{ int r = 1; {setg}{top}{bt} {}{see}return r; }}\n", if cur.name == "none" { String::new() } else { step(cur.read) }) };
                let mut nm = names.clone();
                if is_param { nm.push("h"); }
                ps.push(prog(format!("{} {} {bn}", g.name, l.name), format!("{pre}{gf}{fun}"), &nm, &ar));
            }
        }
    }
    // two blocks, nested or in a row, each declaring the name or not
    for g in [&GLOBAL[0], &GLOBAL[2]] {
        for l in [&LOCAL[1], &param] {
            for (xn, x) in BLOCK { for (yn, y) in BLOCK {
                for mask in 0..4 {
                    for nested in [true, false] {
                        if !thorough && g.name == "none" && l.name == "param" { continue; }
                        let y = y.replace("int w", "int u").replace("w <", "u <").replace("w++", "u++").replace("int i", "int k").replace("i <", "k <").replace("i++", "k++");
                        let body = |d: bool, k: &str| if d { format!("int n = r & {k}; {}n += 2; {}", step("n"), step("n")) } else { format!("{}n += {k}; {}", step("n"), step("n")) };
                        let (b1, b2) = (body(mask & 1 > 0, "7"), body(mask & 2 > 0, "15"));
                        if !nested && x.contains("int w") && y.contains("int w") { continue; }
                        let text = if nested { x.replace('@', &format!("{b1}{} {}", y.replace('@', &b2), step("n"))) } else { format!("{} {}{}", x.replace('@', &b1), step("n"), y.replace('@', &b2)) };
                        let (head, call) = if l.name == "param" { ("int h(int n, int a, int b) {".to_string(), "int f(int a, int b) { return h(a, b, a); }\n") } else { ("int f(int a, int b) { int n = 11;".to_string(), "") };
                        let gl = if g.name == "none" { String::new() } else { "int n = 5;\nint get(void) { n++; return n; }\n".to_string() };
                        let tail = if g.name == "none" { "" } else { "r = r * 5 + get(); " };
                        let mut nm = vec![];
                        if g.name != "none" { nm.extend(["n", "get"]); }
                        if l.name == "param" { nm.push("h"); }
                        ps.push(prog(format!("{} {} {xn} {yn} {mask} {}", g.name, l.name, if nested { "nested" } else { "row" }), format!("{gl}{head} int r = 1; {text} {}{tail}return r; }}\n{call}", step("n")), &nm, &ar));
                    }
                }
            }}
        }
    }
    // a local of a loop body with the name of a variable that the loop's header uses
    for (ln, head, tail) in [
        ("for", "for (n = 0; n < 3; n++) {", "}"),
        ("forinit", "for (int n = 0; n < 3; n++) {", "}"),
        ("forinit2", "for (int n = 0, m = 5; n < m; n++, m--) {", "}"),
        ("comma", "for (n = 0; n < 3; r += n, n++) {", "}"),
        ("compound", "for (n = 1; n < 9; n += n) {", "}"),
        ("down", "for (n = 3; n > 0; --n) {", "}"),
        ("index", "k[0] = 0; for (n = 0; k[0] < 3; k[n] = k[n] + 1) {", "}"),
        ("endless", "n = 0; for (;; n++) { if (n > 2) { break; }", "}"),
        ("while", "n = 0; while (n++ < 3) {", "}"),
        ("do", "n = 0; do { n++;", "} while (n < 3);"),
        ("do step", "n = 0; do {", "} while (++n < 3);"),
        ("do not", "n = 3; do { n--;", "} while (!(n < 1) && n != 7);"),
    ] {
        for (bn, b) in [
            ("int", "int n = r & 7; @"),
            ("array", "int n[2] = {1, 2}; r += n[1]; @"),
            ("late", "r = r * 3 + 1; int n = 6; n++; r += n; @"),
            ("last block", "r++; { int n = 4; r += n; n++; @ }"),
            ("block", "{ int n = 4; r += n; n++; @ } r++;"),
            ("blocks", "{ int n = 4; r += n; @ } { int n = 5; r += n; n--; }"),
            ("if", "if (a > 1) { int n = 4; r += n; @ }"),
            ("else", "if (a > 1) { r++; } else { int n = 4; n *= 2; r += n; @ }"),
            ("case", "switch (a) { case 1: { int n = 4; r += n; @ break; } default: { int n = 7; r += n; } }"),
            ("inner for", "for (int n = 0; n < 2; n++) { r += n; @ }"),
            ("inner for body", "for (int i = 0; i < 2; i++) { int n = 8; r += n + i; @ }"),
            ("inner both", "int n = 1; for (; n < 4; n++) { int n = 9; r += n; @ } r += n;"),
            ("inner while", "int w = 0; while (w < 2) { int n = 3; w++; r += n + w; @ }"),
            ("inner do", "int n = 0; do { int n = 3; r += n; @ } while (++n < 2);"),
            ("twice", "int n = 2; { int n = 3; r += n; @ } n++; r += n;"),
        ] {
            for (cn, cont) in [("", ""), ("continue", "if (r & 1) { continue; } r++; "), ("break", "if (r > 60) { break; } r++; ")] {
                if bn == "case" && cn == "break" { continue; }
                for (dn, decl, see) in [("local", "int n = 0; ", "r = r * 3 + n; "), ("param", "", ""), ("global", "n = 0; ", "r = r * 3 + n; ")] {
                    let text = format!("{head} {} r &= 1023; {tail}", b.replace('@', cont));
                    let body = format!("int r = 1; int k[3] = {{0, 0, 0}}; {decl}{text} {see}");
                    let (c, names): (String, Vec<&str>) = match dn {
                        "param" => (format!("int h(int n, int a, int b) {{ {body} return r * 16 + n; }}\nint f(int a, int b) {{ return h(b & 7, a, b); }}\n"), vec!["h"]),
                        "global" => (format!("int n = 5;\nint f(int a, int b) {{ {body} return r; }}\n"), vec!["n"]),
                        _ => (format!("int f(int a, int b) {{ {body} return r; }}\n"), vec![]),
                    };
                    ps.push(prog(format!("header {ln} {bn} {cn} {dn}"), c, &names, &ar));
                }
            }
        }
    }
    // names that a translation of the hidden name could pick, declared anywhere in the function
    for m in ["n_local", "n_local_", "n_1", "_n", "n_", "local_n", "n_param", "n2"] {
        for (xn, x) in BLOCK {
            for (on, head) in [("before", "int n = a & 7;"), ("param", "")] {
                let inner = format!("int {m} = 3; n += {m}; {m}++; r = r * 7 + {m} + n; r &= 0xfff; ");
                let (sig, call) = if on == "param" { ("int h(int n, int a, int b) {", "int f(int a, int b) { n = 2; return h(a & 7, a, b) * 8 + n; }\n") } else { ("int h(int a, int b) {", "int f(int a, int b) { n = 2; return h(a, b) * 8 + n; }\n") };
                ps.push(prog(format!("picked {m} {xn} {on}"), format!("int n = 5;\n{sig} int r = 1; {head} {} return r * 8 + n; }}\n{call}", x.replace('@', &inner)), &["n", "h"], &ar));
            }
        }
        for (k, c) in [
            ("param", format!("int n = 5;\nint h(int {m}) {{ int n = {m} + 1; {m} += n; return {m} * 8 + n; }}\nint f(int a, int b) {{ n = 2; return h(a & 7) * 8 + n; }}\n")),
            ("params", format!("int n = 5;\nint h(int n, int {m}) {{ n += {m}; {m} *= 2; return {m} * 16 + n; }}\nint f(int a, int b) {{ n = 2; return h(a & 7, b & 7) * 8 + n; }}\n")),
            ("for", format!("int n = 5;\nint h(int a) {{ int n = a; int r = 0; for (int {m} = 0; {m} < 3; {m}++) {{ r = r * 4 + {m} + n; n++; }} return r * 16 + n; }}\nint f(int a, int b) {{ n = 2; return h(a & 7) * 8 + n; }}\n")),
            ("late", format!("int n = 5;\nint h(int a) {{ int n = a; n++; int {m} = n * 2; n += {m}; return n * 16 + {m}; }}\nint f(int a, int b) {{ n = 2; return h(a & 7) * 8 + n; }}\n")),
            ("early", format!("int n = 5;\nint h(int a) {{ int {m} = a * 2; int n = a; n += {m}; return n * 16 + {m}; }}\nint f(int a, int b) {{ n = 2; return h(a & 7) * 8 + n; }}\n")),
            ("reserved", format!("int h(int a) {{ int type = a; int {t} = a * 2; type += {t}; {t}++; return type * 16 + {t}; }}\nint f(int a, int b) {{ return h(a & 7); }}\n", t = m.replace('n', "type"))),
        ] {
            let names: Vec<&str> = if k == "reserved" { vec!["h"] } else { vec!["n", "h"] };
            ps.push(prog(format!("picked {m} {k}"), c, &names, &ar));
        }
    }
    // what a local may be called
    for n in SPELL {
        for (role, pre, body, names) in [
            ("local", "", "int @ = a; @ = @ + (b & 3); @++; return @ * 2;", vec![]),
            ("uninit", "", "int @; if (a > 1) { @ = 1; } else { @ = b & 7; } return @;", vec![]),
            ("param", "int g(int @) { @ += 1; return @ * 2; }\n", "return g(a) + g(b & 3);", vec!["g"]),
            ("second", "int g(int x, int @) { return x * 4 - @; }\n", "return g(a, b & 3);", vec!["g"]),
            ("out", "void g(int *@) { *@ = *@ * 2; }\n", "int x = a & 7; g(&x); g(&x); return x;", vec!["g"]),
            ("structp", "struct S { int x; int y; };\nvoid g(struct S *@) { @->x += @->y; }\n", "struct S s; s.x = a & 7; s.y = b & 7; g(&s); return s.x;", vec!["g", "S"]),
            ("arrayp", "int g(int @[], int n) { int r = 0; for (int i = 0; i < n; i++) { r += @[i]; } return r; }\n", "int v[2]; v[0] = a & 7; v[1] = 3; return g(v, 2);", vec!["g"]),
            ("array", "", "int @[2]; @[0] = a & 3; @[1] = b & 3; @[0] += 2; return @[0] > @[1];", vec![]),
            ("struct", "struct S { int x; int y; };\n", "struct S @; @.x = a & 3; @.y = 1; @.x++; return @.x * 2 + @.y;", vec!["S"]),
            ("pointer", "", "int x = a & 7; int *@ = &x; *@ = *@ + 1; return x;", vec![]),
            ("loop", "", "int r = 0; for (int @ = 0; @ < 3; @++) { r += @ * 2; } return r;", vec![]),
            ("block", "", "int @ = a & 7; if (b > 1) { int @ = 3; @++; a = @; } return @ * 16 + (a & 7);", vec![]),
            ("cond", "", "int @ = a & 7; while (@ > 2 && @ != 9) { @ -= 2; } return @ ? @ : 5;", vec![]),
            ("switch", "", "int @ = a & 3; switch (@) { case 0: @ = 5; break; case 1: @ += 2; break; default: @ = -@; } return @;", vec![]),
            ("field", "struct S { int @; int k; };\n", "struct S s; s.@ = a & 7; s.k = 1; s.@ += 2; return s.@ * 2 + s.k;", vec!["S"]),
        ] {
            if role == "field" && ["self", "Self", "super", "crate"].contains(n) { continue; }
            if *n == "f" && role == "field" { continue; }
            ps.push(prog(format!("spell {n} {role}"), format!("{}int f(int a, int b) {{ {} }}\n", pre, body).replace('@', n), &names, &ar));
        }
    }
    // a local with the name of a function, a struct tag, a field or an enumeration constant used elsewhere
    for (k, c, names) in [
        ("function", "int n(void) { return 4; }\nint g(void) { return n() + 1; }\nint f(int a, int b) { int n = a & 7; n += 2; return n * 8 + g(); }\n", vec!["n", "g"]),
        ("function param", "int n(int x) { return x + 4; }\nint g(int n) { return n * 2; }\nint f(int a, int b) { return g(a & 7) + n(b & 3); }\n", vec!["n", "g"]),
        ("tag", "struct n { int x; };\nint f(int a, int b) { struct n s; int n = a & 7; s.x = n + 1; return s.x * 8 + n; }\n", vec!["n"]),
        ("tag same", "struct n { int x; };\nint f(int a, int b) { struct n n; n.x = a & 7; return n.x + 1; }\n", vec!["n"]),
        ("field", "struct S { int n; int m; };\nint f(int a, int b) { struct S s; int n = a & 7; s.n = n + 1; s.m = b & 3; n = s.n * 2; return s.n * 16 + s.m + n; }\n", vec!["S"]),
        ("field param", "struct S { int n; int m; };\nint g(struct S *n) { n->n += n->m; return n->n; }\nint f(int a, int b) { struct S m; m.n = a & 7; m.m = 2; return g(&m) + m.m; }\n", vec!["S", "g"]),
        ("field global", "int n = 6;\nstruct S { int n; int m; };\nint f(int a, int b) { struct S s; s.n = n; s.m = a & 7; n = s.m; s.n += n; n++; return s.n * 16 + n; }\n", vec!["S", "n"]),
        ("fields of two", "struct S { int n; };\nstruct T { int n; };\nint f(int a, int b) { struct S s; struct T t; s.n = a & 7; t.n = s.n + 1; s.n = t.n * 2; return s.n * 16 + t.n; }\n", vec!["S", "T"]),
        ("two functions", "int g(int n) { int m = n + 1; return m; }\nint h(int m) { int n = m * 2; return n; }\nint f(int a, int b) { int n = g(a & 7); int m = h(n); return n * 32 + m; }\n", vec!["g", "h"]),
        ("static pair", "static int n = 1;\nstatic int next(void) { n = n + 2; return n; }\nint g(int n) { return n + next(); }\nint f(int a, int b) { n = a & 7; int r = g(b & 7); return r * 32 + n; }\n", vec!["n", "next", "g"]),
        ("loop twice", "int n = 3;\nint f(int a, int b) { n = 3; int r = 0; for (int n = 0; n < 3; n++) { r += n; } for (int n = 5; n > 3; n--) { r = r * 2 + n; } return r * 8 + n; }\n", vec!["n"]),
        ("like renamed", "int n = 3;\nint f(int a, int b) { n = 4; int n_local = 1; int n = a & 7; n_local += n; return n_local * 16 + n; }\n", vec!["n"]),
        ("like renamed 2", "int n = 3;\nint n_local = 2;\nint f(int a, int b) { n_local = b & 3; int n = a & 7; n_local += n; return n_local * 16 + n; }\n", vec!["n", "n_local"]),
        ("param after", "int g(int n) { return n + 1; }\nint n = 5;\nint f(int a, int b) { n = 5; int r = g(a & 7); return r * 8 + n; }\n", vec!["n", "g"]),
    ] {
        ps.push(prog(format!("other {k}"), c.to_string(), &names, &ar));
    }
    ps
}

pub fn run(rep: &mut Report) {
    let mut progs = programs(rep.thorough);
    if let Ok(f) = std::env::var("MC_FILTER") { progs.retain(|p: &Prog| p.key.starts_with(&f)); }
    eprintln!("programs {}", progs.len());
    let outs = run_batch(&progs, &default_transpile);
    let (ok, vac, _) = judge(rep, &progs, &outs);
    rep.extra("programs_ok", ok.into());
    rep.extra("programs_without_defined_input", vac.into());
    rep.rule(format!("one name declared at any subset of: global ({} forms), parameter or local ({} forms), block ({} kinds of block x {} forms, for-init), read and written at every level while other functions read and write the global; all pairs of blocks nested and in a row; 12 loop headers over a name that the body declares again in 15 places x continue, break x local, parameter, global; {} spellings x 15 roles; 8 names like the ones a translation could pick for a hidden variable, in every block and position; names shared with functions, tags and fields; 25 inputs each", GLOBAL.len(), LOCAL.len() + 1, BLOCK.len(), LOCAL.len(), SPELL.len()));
}
