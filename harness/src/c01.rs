//! C01: int expressions keep their value.
use crate::cgen::*;
use crate::diffx::*;
use crate::report::*;
use std::collections::BTreeSet;
use std::sync::Arc;

pub const VALS: [i32; 12] = [0, 1, -1, 2, 3, 5, 31, -8, 255, 1 << 20, i32::MAX, i32::MIN];

pub fn args(v: &[i32]) -> Arc<Vec<(i32, i32)>> {
    let mut r = vec![];
    for a in v {
        for b in v {
            r.push((*a, *b));
        }
    }
    Arc::new(r)
}

pub fn prog(key: String, c: String, names: &[&str], args: &Arc<Vec<(i32, i32)>>) -> Prog {
    let mut n = vec!["f".to_string()];
    n.extend(names.iter().map(|s| s.to_string()));
    Prog { key, c, oracle: None, names: n, args: args.clone(), prints: false }
}

/// contexts an expression can occur in (name, template with @)
pub const CTX: &[(&str, &str, &[&str])] = &[
    ("ret", "int f(int a, int b) { return @; }", &[]),
    ("init", "int f(int a, int b) { int x = @; return x; }", &[]),
    ("asg", "int f(int a, int b) { int x; x = @; return x; }", &[]),
    ("if", "int f(int a, int b) { if (@) { return 1; } return 0; }", &[]),
    ("ifelse", "int f(int a, int b) { int x = 0; if (@) { x = 1; } else { x = 2; } return x; }", &[]),
    ("while", "int f(int a, int b) { int x = 0; while (@) { x = x + 1; if (x > 2) { break; } } return x; }", &[]),
    ("for", "int f(int a, int b) { int x = 0; for (int i = 0; @; i++) { x = x + 1; if (i > 1) { break; } } return x; }", &[]),
    ("dowhile", "int f(int a, int b) { int x = 0; do { x = x + 1; if (x > 2) { break; } } while (@); return x; }", &[]),
    ("arg", "int g(int x, int y) { return x ^ (y & 255); }\nint f(int a, int b) { return g(@, b); }", &["g"]),
    ("addasg", "int f(int a, int b) { int x = 3; x ^= @; return x; }", &[]),
    ("elem", "int f(int a, int b) { int v[2]; v[0] = 1; v[1] = @; return v[1]; }", &[]),
    ("field", "struct S { int m; int k; };\nint f(int a, int b) { struct S s; s.m = 0; s.k = @; return s.k; }", &["S"]),
    ("deref", "void set(int *p, int a, int b) { *p = *p + 1; *p = @; }\nint f(int a, int b) { int x = 0; set(&x, a, b); return x; }", &["set"]),
    ("paren", "int f(int a, int b) { return ((@)); }", &[]),
];
// the switch context is separate: boolean controlling expressions are outside the fragment

pub fn programs(thorough: bool) -> Vec<Prog> {
    let ar = args(&VALS);
    let mut progs: Vec<Prog> = vec![];
    let mut seen = BTreeSet::new();
    let mut push = |progs: &mut Vec<Prog>, ctx: &(&str, &str, &[&str]), s: String| {
        let c = ctx.1.replace('@', &s);
        if seen.insert(c.clone()) {
            progs.push(prog(format!("{}:{}", ctx.0, s), c, ctx.2, &ar));
        }
    };
    let both = |t: &E, names: &[&'static str]| -> Vec<String> {
        let e = fill(t, names, &mut 0);
        let a = render(&e, false);
        let b = render(&e, true);
        if a == b {
            vec![a]
        } else {
            vec![a, b]
        }
    };
    let fills: &[&[&'static str]] = &[&["a", "b", "3"], &["b", "2", "a"], &["5", "a", "b"]];
    // every literal form in every position of a one-operator expression
    let lits = ["0", "1", "7", "31", "0x1F", "0Xff", "010", "0b101", "'A'", "'\\n'", "'\\''", "'\\\\'", "'0'", "2147483647", "1000000"];
    for l in lits {
        push(&mut progs, &CTX[0], l.to_string());
        for o in BINOPS {
            push(&mut progs, &CTX[0], format!("a {o} {l}"));
            push(&mut progs, &CTX[0], format!("{l} {o} b"));
        }
        for o in UNOPS {
            push(&mut progs, &CTX[0], format!("{o}{l}"));
        }
    }
    // every character constant: each value in each spelling
    for v in 0..256 {
        push(&mut progs, &CTX[0], format!("a + '\\x{v:x}'"));
        push(&mut progs, &CTX[0], format!("'\\{v:03o}' - b"));
        if v < 64 {
            push(&mut progs, &CTX[0], format!("'\\{v:o}' ^ a"));
        }
        if (32..127).contains(&v) && v != 39 && v != 92 {
            push(&mut progs, &CTX[0], format!("'{}'", v as u8 as char));
        }
    }
    for e in ["a", "b", "f", "n", "r", "t", "v", "\"", "?", "'", "\\", "0"] {
        push(&mut progs, &CTX[0], format!("a ^ '\\{e}'"));
    }
    // character constants as operands of every operator, in every position
    for o in BINOPS {
        let r = if o.contains("<<") || o.contains(">>") { "'\\3'" } else { "'b'" };
        for s in [
            format!("'x' {o} {r}"),
            format!("a ^ ('x' {o} {r})"),
            format!("'x' {o} (a > b)"),
            format!("(a > b) {o} {r}"),
            format!("(a ? b : 3) {o} {r}"),
            format!("'\\7' {o} (a ? 2 : 3)"),
            format!("'\\7' {o} (a ? '\\2' : '\\3')"),
            format!("-a {o} {r}"),
            format!("'\\7' {o} !a"),
        ] {
            for (ci, c) in CTX.iter().enumerate() {
                if thorough || [0, 1, 3, 8].contains(&ci) {
                    push(&mut progs, c, s.clone());
                }
            }
        }
    }
    for x in ["-'a'", "~'a'", "!'a'", "(int)'a'", "('a')", "a ? 'x' : 'y'", "a ? 'x' : b", "(a > 'b') ? 1 : 'c'", "'a' ? a : b", "-('a' - 'c')", "('z' - 'a' + 1) * (a & 255) % 26", "(a & 255) - 'a' + 'A'", "'a' + 'b' + (a & 7)", "!('a' - 'a')", "-'\\0'", "a && 'x'", "'\\0' || a", "~'\\x80'", "-'\\xff'", "a ? '\\xff' : b", "a ? '\\x80' : '\\1'"] {
        for c in CTX {
            push(&mut progs, c, x.to_string());
        }
    }
    // unary plus
    for t in trees(1, UNOPS, BINOPS, true, &["int"]) {
        for s in both(&t, fills[0]) {
            push(&mut progs, &CTX[0], format!("+({s})"));
            push(&mut progs, &CTX[0], format!("-+({s})"));
            push(&mut progs, &CTX[3], format!("+({s})"));
        }
    }
    for x in ["+a", "+5", "+-b", "-+a", "- +5", "!+a", "+!a", "~+b", "+~b", "+ +a", "+(+a)", "+'A'"] {
        for c in CTX {
            push(&mut progs, c, x.to_string());
        }
        for o in BINOPS {
            push(&mut progs, &CTX[0], format!("b {o} {x}"));
            push(&mut progs, &CTX[0], format!("{x} {o} b"));
        }
    }
    let nctx2 = if thorough { CTX.len() } else { 4 };
    for n in 0..=2 {
        for t in trees(n, UNOPS, BINOPS, true, &["int"]) {
            let h = holes(&t);
            for (k, f) in fills.iter().enumerate() {
                if h == 1 && k > 0 || n == 2 && k > 0 && !thorough {
                    continue;
                }
                for s in both(&t, f) {
                    for (ci, c) in CTX.iter().enumerate() {
                        if n == 2 && (ci >= nctx2 || ci == 1 || ci == 2 && !thorough) {
                            continue;
                        }
                        push(&mut progs, c, s.clone());
                    }
                }
            }
        }
    }
    // constant expressions: every tree over literals only
    let consts: &[&[&'static str]] = &[&["7", "3", "2"], &["-7", "3", "5"], &["7", "-3", "0"], &["0", "1", "-1"], &["2147483647", "1", "31"], &["-2147483647", "2", "1"], &["1", "31", "3"]];
    for n in 1..=2 {
        for t in trees(n, UNOPS, BINOPS, true, &["int"]) {
            for (k, f) in consts.iter().enumerate() {
                if n == 2 && k != 1 && k != 3 && !thorough {
                    continue;
                }
                for s in both(&t, f) {
                    // clang folds an undefined constant shift before UBSan can see it
                    if s.contains("<< -") || s.contains(">> -") || s.contains("<< (-") || s.contains(">> (-") {
                        continue;
                    }
                    push(&mut progs, &CTX[0], s.clone());
                    if n == 1 {
                        push(&mut progs, &CTX[3], s.clone());
                        push(&mut progs, &CTX[5], s.clone());
                        push(&mut progs, &CTX[8], s.clone());
                    }
                }
            }
        }
    }
    // partly constant
    for t in trees(2, UNOPS, BINOPS, false, &[]) {
        for f in [["6", "3", "a"], ["a", "6", "3"], ["2", "a", "3"]] {
            for s in both(&t, &f) {
                push(&mut progs, &CTX[0], s.clone());
            }
        }
    }
    eprintln!("programs: {}", progs.len());
    if thorough {
        // three operators, one representative per precedence level
        let bin: &[&str] = &["+", "-", "*", "/", "&", "^", "<<", "==", "<", "&&", "||"];
        for t in trees(3, UNOPS, bin, true, &[]) {
            for s in both(&t, fills[0]) {
                push(&mut progs, &CTX[0], s.clone());
            }
        }
    }
    drop(push);
    progs
}

/// operands that live in globals, arrays, structs and behind pointers, wherever an operand can stand
fn placed() -> Vec<Prog> {
    let ar = args(&[-5, -1, 0, 2, 7]);
    let mut ps = vec![];
    let leaf: [(&str, &str, &[&str], &str); 8] = [
        ("g", "int g = 5;\n", &["g"], "g = 5;"), ("v[1]", "int v[3];\n", &["v"], "v[1] = 6;"), ("s.x", "struct S { int x; };\nstruct S s;\n", &["S", "s"], "s.x = 7;"), ("m[1][b & 1]", "int m[2][2];\n", &["m"], "m[1][0] = 3; m[1][1] = 4;"),
        ("w[1]", "", &[], "int w[2] = {1, 3};"), ("t.x", "struct S { int x; };\n", &["S"], "struct S t; t.x = 9;"), ("*p", "", &[], ""), ("q->x", "", &[], ""),
    ];
    let shape = ["a ? L O 2 : b", "a ? b : L O b", "(b = 3, L O a)", "(L O a) ? L : b", "a && (L O b)", "h(L O a)", "-L O 3", "!(L O b)", "a ? (b ? L O 1 : L) : L O 4", "(a ? L : b) O (b ? 2 : L)", "L O (a ? L : 3)", "(L = 2) O b", "~L O (L & 3)", "a ? (L O 2, L) : 3", "(a ? L : 4) + (L O 2)"];
    for (l, decl, names, init) in leaf { for o in ["+", "-", "*", "/", "%", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "&", "|", "^", "&&", "||"] { for s in shape {
        let e = s.replace('L', l).replace('O', o);
        let h = "int h(int x) { return x * 2; }\n";
        let (c, n) = if decl.is_empty() && init.is_empty() {
            (format!("struct S {{ int x; }};\n{h}int z(int *p, struct S *q, int a, int b) {{ return {e}; }}\nint f(int a, int b) {{ int x = 5; struct S y; y.x = 6; return z(&x, &y, a, b) + x + y.x; }}\n"), vec!["h", "S", "z"])
        } else {
            (format!("{decl}{h}int f(int a, int b) {{ {init} int r = {e}; return r; }}\n"), std::iter::once("h").chain(names.iter().copied()).collect())
        };
        ps.push(prog(format!("placed {e}"), c, &n, &ar));
    }}}
    ps
}

pub fn run(rep: &mut Report) {
    let mut progs = programs(rep.thorough);
    progs.extend(placed());
    let outs = run_batch(&progs, &default_transpile);
    let (ok, vac, bad) = judge(rep, &progs, &outs);
    rep.rule(format!("every int expression tree with at most 2 operators (thorough: 3 over one representative per precedence level) over 18 binary operators, 3 unary operators, ?: and (int) casts, minimal and full parentheses, placed in {} syntactic contexts, each executed on the {}x{} boundary-value grid; non-trivial = at least one defined input; outcome = vector of observed results; globals, elements, fields and pointees as operands of every operator in 15 shapes", CTX.len(), VALS.len(), VALS.len()));
    rep.extra("programs_ok", ok.into());
    rep.extra("programs_without_defined_input", vac.into());
    let _ = bad;
}
