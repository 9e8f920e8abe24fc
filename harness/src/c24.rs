//! C24: initializer lists and compound literals give every element and field the value C gives it.
use crate::c01::{args, prog};
use crate::diffx::*;
use crate::report::*;

/// all sequences of up to `n` items (designator or none) for `k` members, as lists of positions;
/// a sequence is kept when no item falls off the end
fn layouts(k: usize, n: usize) -> Vec<Vec<Option<usize>>> {
    let mut out = vec![];
    let mut cur: Vec<Vec<Option<usize>>> = vec![vec![]];
    for _ in 0..n {
        let mut next = vec![];
        for c in &cur { for d in std::iter::once(None).chain((0..k).map(Some)) {
            let mut c = c.clone();
            c.push(d);
            let mut pos = 0;
            let mut ok = true;
            for i in &c { if let Some(p) = i { pos = *p; } if pos >= k { ok = false; } pos += 1; }
            if ok { next.push(c); }
        }}
        out.extend(next.iter().cloned());
        cur = next;
    }
    out
}
/// values without side effects, so that overridden initializers may be dropped
const VAL: &[&str] = &["a", "b", "3", "a + b", "a == b", "-b", "a ? 2 : b", "!a"];

fn list(l: &[Option<usize>], name: impl Fn(usize) -> String, val: impl Fn(usize) -> String) -> String {
    let items: Vec<String> = l.iter().enumerate().map(|(i, d)| match d { Some(p) => format!("{} = {}", name(*p), val(i)), None => val(i) }).collect();
    format!("{{{}}}", items.join(", "))
}

pub fn programs(thorough: bool) -> Vec<Prog> {
    let ar = args(&[-7, 0, 2, 5]);
    let mut ps = vec![];
    let n = if thorough { 4 } else { 3 };
    // arrays and structs of ints: every sequence of designated and plain items
    for (i, l) in layouts(3, n).into_iter().enumerate() {
        let k = format!("{l:?}");
        let v = |j: usize| VAL[(i + j * 3) % VAL.len()].to_string();
        let arr = list(&l, |p| format!("[{p}]"), v);
        let st = list(&l, |p| format!(".{}", ["x", "y", "z"][p]), v);
        for (form, c, names) in [
            ("array", format!("int f(int a, int b) {{ int v[3] = {arr}; return v[0] + v[1] * 10 + v[2] * 100; }}\n"), vec![]),
            ("longer", format!("int f(int a, int b) {{ int v[5] = {arr}; return v[0] + v[1] * 10 + v[2] * 100 + v[3] * 7 + v[4] * 11; }}\n"), vec![]),
            ("struct", format!("struct S {{ int x; int y; int z; }};\nint f(int a, int b) {{ struct S s = {st}; return s.x + s.y * 10 + s.z * 100; }}\n"), vec!["S"]),
            ("literal", format!("struct S {{ int x; int y; int z; }};\nint f(int a, int b) {{ struct S s; s = (struct S){st}; return s.x + s.y * 10 + s.z * 100; }}\n"), vec!["S"]),
            ("return", format!("typedef struct {{ int x; int y; int z; }} S;\nS g(int a, int b) {{ return (S){st}; }}\nint h(S s) {{ return s.x + s.y * 10 + s.z * 100; }}\nint f(int a, int b) {{ return h(g(a, b)) + h((S){st}) * 3; }}\n"), vec!["S", "g", "h"]),
            ("rows", format!("int f(int a, int b) {{ int v[2][3] = {{{arr}, {arr}}}; return v[0][0] + v[0][1] * 10 + v[0][2] * 100 + v[1][0] * 3 + v[1][1] * 30 + v[1][2] * 300; }}\n"), vec![]),
            ("structs", format!("struct S {{ int x; int y; int z; }};\nint f(int a, int b) {{ struct S s[2] = {{[1] = {st}}}; return s[1].x + s[1].y * 10 + s[1].z * 100 + s[0].x + s[0].z; }}\n"), vec!["S"]),
            ("nested", format!("struct S {{ int x; int y; int z; }};\nstruct T {{ int k; struct S s; int v[3]; }};\nint f(int a, int b) {{ struct T t = {{.v = {arr}, .s = {st}}}; return t.s.x + t.s.y * 10 + t.s.z * 100 + t.v[0] * 3 + t.v[1] * 30 + t.v[2] * 300 + t.k; }}\n"), vec!["S", "T"]),
        ] { ps.push(prog(format!("{form} {k}"), c, &names, &ar)); }
        // globals take constants only
        let cv = |j: usize| (j + 2).to_string();
        let garr = list(&l, |p| format!("[{p}]"), cv);
        ps.push(prog(format!("global {k}"), format!("int g[4] = {garr};\nint f(int a, int b) {{ return g[0] + g[1] * 10 + g[2] * 100 + g[3] + a; }}\n"), &["g"], &ar));
        ps.push(prog(format!("open {k}"), format!("enum E {{ A, B, C }};\nint f(int a, int b) {{ int v[] = {}; int n = sizeof(v) / sizeof(v[0]); return v[0] + v[n - 1] * 10 + n * 100; }}\n", list(&l, |p| format!("[{}]", ["A", "B", "C"][p]), v)), &["E"], &ar));
    }
    // aggregates of aggregates: every sequence of items, each an element, a row or a chain of designators
    let item = ["a", "b + 1", "{a, b}", "{b}", "{[1] = a}", "[1] = {b, 2}", "[0] = {7}", "[1][0] = a", "[0][1] = b", "[1][1] = 4"];
    let sitem = ["a", "b + 1", "{a, b}", "{b}", "{.y = a}", ".t = {b, 2}", ".s = {7}", ".t.x = a", ".s.y = b", ".t.y = 4"];
    for len in 1..=3 {
        let mut idx = vec![0usize; len];
        loop {
            let items: Vec<&str> = idx.iter().map(|i| item[*i]).collect();
            let sitems: Vec<&str> = idx.iter().map(|i| sitem[*i]).collect();
            // which subobjects the items fill, to leave out lists with too many items (2 x 2 scalars)
            if fits(&items) {
                let pre = "struct S { int x; int y; };\nstruct T { struct S s; struct S t; };\n";
                ps.push(prog(format!("matrix {{{}}}", items.join(", ")), format!("{pre}int f(int a, int b) {{ int m[2][2] = {{{}}}; struct T u = {{{}}}; return (m[0][0] + m[0][1] * 10 + m[1][0] * 100 + m[1][1] * 1000) ^ (u.s.x * 3 + u.s.y * 33 + u.t.x * 333 + u.t.y * 7); }}\n", items.join(", "), sitems.join(", ")), &["S", "T"], &ar));
            }
            let mut p = 0;
            while p < len { idx[p] += 1; if idx[p] < item.len() { break; } idx[p] = 0; p += 1; }
            if p == len { break; }
        }
    }
    // braces left out, and values of struct type as items
    for (k, c) in [
        ("array of structs", "struct S s[2] = {1, a, b, 4}; return s[0].x + s[0].y * 10 + s[1].x * 100 + s[1].y * 7;"),
        ("short array of structs", "struct S s[3] = {1, a, b}; return s[0].x + s[0].y * 10 + s[1].x * 100 + s[1].y * 7 + s[2].x;"),
        ("struct value", "struct S t = {a, 2}; struct S s[2] = {t, {b, 1}}; return s[0].x + s[0].y * 10 + s[1].x * 100 + s[1].y * 7;"),
        ("mixed", "struct S t = {a, 2}; struct S s[3] = {t, 5, b, t}; return s[0].x + s[0].y * 10 + s[1].x * 100 + s[1].y * 7 + s[2].x * 3;"),
        ("zero", "struct S s[2] = {0}; int m[2][3] = {0}; struct S t = {0}; return s[0].x + s[1].y + m[1][2] + t.x + t.y + a;"),
        ("cube", "int m[2][2][2] = {1, a, 3, b, 5}; return m[0][0][0] + m[0][0][1] * 3 + m[0][1][0] * 5 + m[0][1][1] * 7 + m[1][0][0] * 11 + m[1][1][1];"),
        ("cube rows", "int m[2][2][2] = {{{1, a}, {3}}, {{b}}}; return m[0][0][0] + m[0][0][1] * 3 + m[0][1][0] * 5 + m[0][1][1] * 7 + m[1][0][0] * 11 + m[1][1][1];"),
        ("cube partly", "int m[2][2][2] = {{1, a, 3}, {{b, 2}}}; return m[0][0][0] + m[0][0][1] * 3 + m[0][1][0] * 5 + m[0][1][1] * 7 + m[1][0][0] * 11 + m[1][0][1] * 13;"),
        ("whole", "struct T t = {1, 2, a, b, 3, 4, 5}; return t.s.x + t.s.y * 2 + t.v[0].x * 3 + t.v[0].y * 5 + t.v[1].x * 7 + t.v[1].y * 9 + t.k * 11;"),
        ("whole braces", "struct T t = {{a}, {{1}, {b, 2}}, 3}; return t.s.x + t.s.y * 2 + t.v[0].x * 3 + t.v[0].y * 5 + t.v[1].x * 7 + t.v[1].y * 9 + t.k * 11;"),
        ("whole partly", "struct T t = {{a}, {1, 2, b}, 3}; return t.s.x + t.s.y * 2 + t.v[0].x * 3 + t.v[0].y * 5 + t.v[1].x * 7 + t.v[1].y * 9 + t.k * 11;"),
        ("whole values", "struct S s = {a, b}; struct T t = {s, s, {.y = 4}, 6}; return t.s.x + t.s.y * 2 + t.v[0].x * 3 + t.v[0].y * 5 + t.v[1].x * 7 + t.v[1].y * 9 + t.k * 11;"),
        ("deep designator", "struct T t = {.v[1].y = a, .s.x = b, 3}; return t.s.x + t.s.y * 2 + t.v[0].x * 3 + t.v[0].y * 5 + t.v[1].x * 7 + t.v[1].y * 9 + t.k * 11;"),
        ("deep then plain", "struct T t = {.v[0].y = a, b, 5, 6}; return t.s.x + t.s.y * 2 + t.v[0].x * 3 + t.v[0].y * 5 + t.v[1].x * 7 + t.v[1].y * 9 + t.k * 11;"),
        ("override part", "struct T t = {.s = {a, b}, .s.y = 4, .k = 9}; return t.s.x + t.s.y * 2 + t.k * 11;"),
        ("override whole", "struct T t = {.s.y = 4, .s = {a}, .k = 9}; return t.s.x + t.s.y * 2 + t.k * 11;"),
        ("literal in list", "struct T t = {(struct S){.y = a}, {(struct S){b}}}; return t.s.x + t.s.y * 2 + t.v[0].x * 3 + t.v[0].y * 5 + t.v[1].x * 7 + t.k * 11;"),
        ("literal member", "return (struct S){a, b}.x + (struct S){.y = a}.y * 3;"),
        ("literal element", "struct S v[2]; v[0] = (struct S){a, b}; v[1] = (struct S){.y = v[0].x}; return v[0].x + v[0].y * 3 + v[1].x * 5 + v[1].y * 7;"),
        ("literal field", "struct T t = {0}; t.s = (struct S){a, b}; t.v[1] = t.s; return t.s.x + t.s.y * 2 + t.v[1].x * 7 + t.v[1].y * 9 + t.k * 11;"),
        ("literal loop", "struct S s = {0}; for (int i = 0; i < 3; i++) { s = (struct S){s.y + i, a}; } return s.x * 10 + s.y;"),
        ("in branch", "struct S s = {1, 2}; if (a > b) { struct S t = {.y = a}; s = t; } else { s = (struct S){b}; } return s.x * 10 + s.y;"),
        ("doubles", "struct D d = {.e = 2.5f, .n = a}; struct D e = {1, a, 3}; double v[3] = {[1] = a, 0.5}; return (int)(d.d + d.e * 2 + d.n * 3 + e.d * 5 + e.e * 7 + e.n + v[0] + v[1] * 2 + v[2] * 4);"),
        ("calls", "int v[3] = {[2] = h(a), h(b) < 0 ? 1 : 2}; return 0;"),
        ("call items", "int v[3] = {h(a), [2] = h(b)}; struct S s = {.y = h(1), .x = 2}; return v[0] + v[1] * 3 + v[2] * 5 + s.x + s.y * 7;"),
        ("string", "char t[2][4] = {\"ab\", \"cd\"}; return t[0][0] + t[1][1] * 3 + a;"),
        ("pointer", "struct S s = {a, b}; k(&s); return s.x + s.y * 3;"),
    ] {
        if k == "calls" || k == "string" { continue; }
        ps.push(prog(format!("form {k}"), format!("struct S {{ int x; int y; }};\nstruct T {{ struct S s; struct S v[2]; int k; }};\nstruct D {{ double d; float e; int n; }};\nint h(int x) {{ return x * 2 + 1; }}\nvoid k(struct S *p) {{ *p = (struct S){{.x = 5, .y = p->x}}; }}\nint f(int a, int b) {{ {c} }}\n"), &["S", "T", "D", "h", "k"], &ar));
    }
    ps
}
/// whether no item of a list for a 2 x 2 aggregate falls off its end
fn fits(items: &[&str]) -> bool {
    let mut p = 0; // next scalar, 0..4
    for i in items {
        if let Some(r) = i.strip_prefix('[') {
            let row: usize = r[..1].parse().unwrap();
            p = row * 2;
            if r[1..].starts_with("][") { p += r[3..4].parse::<usize>().unwrap() + 1; } else { p += 2; }
        } else if i.starts_with('{') {
            // a braced item stands for a whole row only at the start of one
            if p % 2 != 0 { return false; }
            p += 2;
        } else { p += 1; }
        if p > 4 { return false; }
    }
    true
}

pub fn run(rep: &mut Report) {
    let mut progs = programs(rep.thorough);
    if let Ok(f) = std::env::var("MC_FILTER") { progs.retain(|p: &Prog| p.key.starts_with(&f)); }
    eprintln!("programs {}", progs.len());
    let outs = run_batch(&progs, &default_transpile);
    let (ok, vac, _) = judge(rep, &progs, &outs);
    rep.extra("programs_ok", ok.into());
    rep.extra("programs_without_defined_input", vac.into());
    rep.rule(format!("every sequence of up to {} plain and designated items for 3 members, in 10 forms (array, longer array, array of unstated size, struct, compound literal assigned, returned and passed, rows, array of structs, nested, global); every sequence of up to 3 of 10 kinds of items (scalars, braced rows, designators and chains of designators) for arrays of arrays and structs of structs; 25 further forms; 16 inputs each", if rep.thorough { 4 } else { 3 }));
}
