//! C05: standard output and exit status of whole programs.
use crate::mainx::*;
use crate::report::*;

const IVALS: [&str; 6] = ["0", "7", "-1", "255", "x", "x*y-3"];
const PRE: &str = "    int x = 12;\n    int y = -5;\n    double d = 2.5;\n    char c = 'q';\n    char s[6] = \"hey\";\n    const char *t = \"lit\";\n";

fn prog(key: &str, pre: &str, body: &str, ret: &str) -> MProg {
    MProg {
        key: key.into(),
        c: format!("#include <stdio.h>\n#include <stdlib.h>\n\n{pre}int main(void) {{\n{PRE}{body}    return {ret};\n}}\n"),
        args: vec![],
    }
}

/// (conversion, argument class)
fn specs() -> Vec<(&'static str, char)> {
    let mut v = vec![];
    for s in ["%d", "%i", "%5d", "%05d", "%2d", "%-5d", "%+d", "%-3d", "%x", "%X", "%o", "%04x", "%6X", "%02X", "%4o"] { v.push((s, 'i')); }
    for s in ["%u"] { v.push((s, 'n')); }
    for s in ["%f", "%.2f", "%8.2f", "%.0f", "%10f", "%08.3f", "%-8.1f|", "%+.1f"] { v.push((s, 'd')); }
    for s in ["%s", "%5s", "%-5s", "%10s", "%.2s"] { v.push((s, 's')); }
    for s in ["%c", "%3c", "%-3c"] { v.push((s, 'c')); }
    v
}
fn args(cl: char) -> Vec<&'static str> {
    match cl {
        'i' => IVALS.to_vec(),
        'n' => vec!["0", "7", "x", "x*3"],
        'd' => vec!["d", "0.0", "-3.75", "1234567.875", "d*2.0"],
        's' => vec!["s", "t", "\"w\"", "(x > 3 ? \"yes\" : \"no\")"],
        _ => vec!["c", "'Z'", "65", "'a' + 2"],
    }
}

pub fn programs(thorough: bool) -> Vec<MProg> {
    let mut v = vec![];
    // A: one conversion, every argument
    for (s, cl) in specs() {
        for a in args(cl) {
            v.push(prog(&format!("A {s} {a}"), "", &format!("    printf(\"[{s}]\\n\", {a});\n"), "0"));
        }
    }
    // B: ordered pairs of conversions in one format string
    let sp = specs();
    for (i, (s, cl)) in sp.iter().enumerate() {
        for (j, (s2, cl2)) in sp.iter().enumerate() {
            if !thorough && (i * 7 + j * 3) % 4 != 0 && i != j { continue; }
            v.push(prog(&format!("B {s} {s2}"), "", &format!("    printf(\"{s}-{s2}\\n\", {}, {});\n", args(*cl)[i % args(*cl).len()], args(*cl2)[j % args(*cl2).len()]), "0"));
        }
    }
    // C: every literal text of <= n pieces
    let pieces = ["a", "{", "}", "%%", "\\n", "\\t", "\\\\", "\\\"", "'", " ", "{}", "#", "$x"];
    let mut texts: Vec<String> = vec!["".into()];
    let mut last = texts.clone();
    for _ in 0..if thorough { 3 } else { 2 } {
        let mut nx = vec![];
        for l in &last { for p in pieces { nx.push(format!("{l}{p}")); } }
        texts.extend(nx.iter().cloned());
        last = nx;
    }
    for t in &texts {
        v.push(prog(&format!("C {t}"), "", &format!("    printf(\"{t}%d{t}\\n\", x);\n    puts(\"{t}\");\n"), "0"));
    }
    // D: exit status
    for e in ["0", "1", "2", "127", "128", "255", "256", "257", "-1", "-2", "1000", "x", "y", "x*y", "x > y", "x - 12", "g(3)", "g(-3)", "!x", "x && y", "x ? 4 : 5", "'A'"] {
        v.push(prog(&format!("D ret {e}"), "int g(int a) {\n    return a * 2;\n}\n", "    printf(\"go\\n\");\n", e));
        v.push(prog(&format!("D exit {e}"), "int g(int a) {\n    return a * 2;\n}\n", &format!("    printf(\"go\\n\");\n    exit({e});\n"), "3"));
        v.push(prog(&format!("D if {e}"), "int g(int a) {\n    return a * 2;\n}\n", &format!("    if (x > y) {{\n        return {e};\n    }}\n    printf(\"end\\n\");\n"), "3"));
        v.push(prog(&format!("D else {e}"), "int g(int a) {\n    return a * 2;\n}\n", &format!("    if (x < y) {{\n        printf(\"then\\n\");\n        return 9;\n    }} else {{\n        printf(\"else\\n\");\n        return {e};\n    }}\n"), "3"));
        v.push(prog(&format!("D loop {e}"), "int g(int a) {\n    return a * 2;\n}\n", &format!("    for (int i = 0; i < 4; i++) {{\n        printf(\"%d\\n\", i);\n        if (i == 2) {{\n            return {e};\n        }}\n    }}\n"), "3"));
        v.push(prog(&format!("D helper-exit {e}"), &format!("int g(int a) {{\n    return a * 2;\n}}\nvoid die(int x, int y) {{\n    printf(\"die\\n\");\n    exit({e});\n}}\n"), "    printf(\"go\\n\");\n    die(x, y);\n    printf(\"unreachable\\n\");\n", "3"));
    }
    for (k, c) in [
        ("fall", "#include <stdio.h>\nint main(void) {\n    printf(\"x\\n\");\n}\n"),
        ("empty", "int main(void) {\n}\n"),
        ("ret0", "int main(void) {\n    return 0;\n}\n"),
        ("noproto", "#include <stdio.h>\nint main() {\n    printf(\"x\\n\");\n    return 5;\n}\n"),
        ("argc", "#include <stdio.h>\nint main(int argc, char **argv) {\n    printf(\"%d\\n\", argc);\n    return argc;\n}\n"),
        ("argcgt", "#include <stdio.h>\nint main(int argc, char *argv[]) {\n    if (argc > 2) {\n        return 4;\n    }\n    printf(\"few\\n\");\n    return 0;\n}\n"),
    ] {
        for a in [vec![], vec!["one"], vec!["one", "two"]] {
            v.push(MProg { key: format!("E {k} {}", a.len()), c: c.into(), args: a.iter().map(|s| s.to_string()).collect() });
        }
    }
    // F: order of effects: every sequence of statements from the menu
    let menu = [
        "    printf(\"A\");\n",
        "    puts(\"B\");\n",
        "    say(x);\n",
        "    x = tick(x);\n",
        "    printf(\"%d,%d;\", x, tick(y));\n",
        "    for (int i = 0; i < 2; i++) {\n        printf(\"i%d\", i);\n    }\n",
        "    if (tick(x) > 3) {\n        printf(\"T\");\n    } else {\n        printf(\"F\");\n    }\n",
        "    y = tick(x) + tick(y);\n",
        "    if (x > 0 && tick(y) > 0) {\n        printf(\"&\");\n    }\n",
        "    if (x > 0 || tick(y) > 0) {\n        printf(\"|\");\n    }\n",
        "    x--;\n    if (x < 11) {\n        return 7;\n    }\n",
        "    switch (x % 3) {\n        case 0:\n            printf(\"s0\");\n            break;\n        case 1:\n            say(y);\n            break;\n        default:\n            puts(\"sd\");\n            break;\n    }\n",
        "    while (y < 0) {\n        y = y + 2;\n        say(y);\n    }\n",
    ];
    let helpers = "void say(int v) {\n    printf(\"<%d>\", v);\n}\nint tick(int v) {\n    printf(\".%d\", v);\n    return v + 1;\n}\n";
    let n = menu.len();
    for a in 0..n {
        for b in 0..n {
            if thorough {
                for c in 0..n {
                    v.push(prog(&format!("F {a} {b} {c}"), helpers, &format!("{}{}{}", menu[a], menu[b], menu[c]), "x"));
                }
            } else {
                v.push(prog(&format!("F {a} {b}"), helpers, &format!("{}{}", menu[a], menu[b]), "x"));
            }
        }
    }
    if let Ok(f) = std::env::var("MC_FILTER") { v.retain(|p| p.key.starts_with(&f)); }
    v
}

pub fn run(rep: &mut Report) {
    let v = programs(rep.thorough);
    let o = run_mains(&v);
    judge(rep, &v, &o);
    rep.rule("every program of the enumerated families (one/two printf conversions, literal texts, exit paths, statement sequences with effects) through the real `decy transpile` command; stdout bytes and exit status equal clang's");
    rep.assume("oracle: clang -O0 with UBSan traps; rustc with overflow checks; programs that trap under UBSan carry no obligation");
}
