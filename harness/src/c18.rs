//! C18: the differential test gives the right verdict for every pair of behaviours.
//! Stand-in compilers turn a script into the "binary", so every behaviour can be enumerated; a smaller set
//! goes through the real gcc and rustc.
use crate::mainx::{decy_bin, run_limited};
use crate::report::*;
use decy_verify::diff_test::{diff_test, DiffTestConfig};
use serde_json::json;
use std::process::Command;
use std::time::Instant;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum End { Exit(i32), Signal(i32), Hang }
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Beh { out: usize, err: usize, end: End }

/// Output texts as printf(1) formats and the bytes they give.
fn outs() -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<(String, Vec<u8>)> = vec![
        ("".into(), vec![]),
        ("a".into(), b"a".to_vec()),
        ("a\\n".into(), b"a\n".to_vec()),
        ("a\\n\\n".into(), b"a\n\n".to_vec()),
        ("b\\n".into(), b"b\n".to_vec()),
        (" a\\n".into(), b" a\n".to_vec()),
        ("A\\n".into(), b"A\n".to_vec()),
        ("a\\r\\n".into(), b"a\r\n".to_vec()),
        ("\\377".into(), vec![255]),
        ("\\376".into(), vec![254]),
        ("\\303\\251\\n".into(), "é\n".as_bytes().to_vec()),
        ("\\357\\277\\275".into(), "\u{fffd}".as_bytes().to_vec()),
        ("a\\000b".into(), b"a\0b".to_vec()),
    ];
    let big = "x".repeat(70_000);
    v.push((big.clone(), big.clone().into_bytes()));
    let big2 = format!("{}y", "x".repeat(69_999));
    v.push((big2.clone(), big2.into_bytes()));
    v
}
const ERRS: [&str; 3] = ["", "e\\n", "f\\n"];

fn script(b: &Beh) -> String {
    let o = outs();
    let text = &o[b.out].0;
    let mut s = String::from("#!/bin/sh\n");
    if !text.is_empty() { s += &format!("printf '{text}'\n"); }
    if b.err > 0 { s += &format!("printf '{}' >&2\n", ERRS[b.err]); }
    s += &match b.end { End::Exit(n) => format!("exit {n}\n"), End::Signal(n) => format!("kill -{n} $$\nsleep 5\n"), End::Hang => "exec sleep 12\n".to_string() };
    s
}
const CC: &str = r#"#!/bin/sh
o=; l=; while [ $# -gt 0 ]; do if [ "$1" = -o ]; then o=$2; shift; else case "$1" in -l*) ;; *) l=$1 ;; esac; fi; shift; done
case "$(head -c 4 "$l")" in FAIL) echo "no" >&2; exit 1 ;; esac
cp "$l" "$o" && chmod +x "$o"
"#;

struct Stubs { dir: Scratch }
impl Stubs {
    fn new() -> Stubs {
        let dir = Scratch::new("c18");
        for n in ["cc", "rc"] {
            use std::os::unix::fs::PermissionsExt;
            let p = dir.path().join(n);
            std::fs::write(&p, CC).unwrap();
            std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o755)).unwrap();
        }
        Stubs { dir }
    }
    fn config(&self, err: bool, timeout: u64) -> DiffTestConfig {
        DiffTestConfig { timeout_secs: timeout, gcc_path: self.dir.path().join("cc").display().to_string(), rustc_path: self.dir.path().join("rc").display().to_string(), compare_stderr: err }
    }
}

/// What went wrong in one pair; `slips` are wrong parts of the verdict, each named by the two outputs or endings
/// it confuses, so that every pair showing the same confusion gives the same key.
struct Bad { slips: Vec<(String, String)>, what: Option<String> }

fn check(st: &Stubs, c: &Beh, r: &Beh, cmp_err: bool) -> Result<(String, Bad), String> {
    let hang = c.end == End::Hang || r.end == End::Hang;
    let t0 = Instant::now();
    let res = diff_test(&script(c), &script(r), &st.config(cmp_err, if hang { 1 } else { 30 }));
    let mut bad = Bad { slips: vec![], what: None };
    if hang {
        let who = format!("endless{}{}", if c.end == End::Hang { " C" } else { "" }, if r.end == End::Hang { " Rust" } else { "" });
        if t0.elapsed().as_secs() >= 9 { bad.slips.push((who, format!("a program that does not end is waited for {} s and more with a timeout of 1 s", 9))); }
        else if matches!(&res, Ok(x) if x.passed()) { bad.what = Some("a program that does not end passes".into()); }
        return Ok(("timeout".into(), bad));
    }
    let x = res.map_err(|e| format!("fails: {e:#}"))?;
    let o = outs();
    let (mut so, mut se) = (o[c.out].1 == o[r.out].1, c.end == r.end);
    if x.stdout_matches != so {
        bad.slips.push((format!("outputs {} vs {}", o[c.out].0.chars().take(20).collect::<String>(), o[r.out].0.chars().take(20).collect::<String>()), format!("stdout_matches is {}", x.stdout_matches)));
        so = x.stdout_matches;
    }
    if x.exit_code_matches != se {
        bad.slips.push((format!("endings {:?} vs {:?}", c.end, r.end), format!("exit_code_matches is {}", x.exit_code_matches)));
        se = x.exit_code_matches;
    }
    bad.what = (|| -> Result<(), String> {
        if x.passed() != (so && se) { return Err(format!("passed is {}", x.passed())); }
        let want = !so as usize + !se as usize + (cmp_err && c.err != r.err) as usize;
        if x.divergences.len() != want { return Err(format!("{} divergences instead of {want}: {:?}", x.divergences.len(), x.divergences.iter().map(|d| d.chars().take(80).collect::<String>()).collect::<Vec<_>>())); }
        for (b, g, who) in [(c, &x.c_output, "C"), (r, &x.rust_output, "Rust")] {
            if g.stdout != String::from_utf8_lossy(&o[b.out].1) { return Err(format!("the {who} output recorded is {:?}", g.stdout.chars().take(40).collect::<String>())); }
            if g.stderr != ERRS[b.err].replace("\\n", "\n") { return Err(format!("the {who} error output recorded is {:?}", g.stderr)); }
            if let End::Exit(n) = b.end { if g.exit_code != n { return Err(format!("the {who} exit code recorded is {}", g.exit_code)); } }
        }
        Ok(())
    })().err();
    Ok((format!("{so} {se}"), bad))
}

pub fn run(rep: &mut Report) {
    let tmp = Scratch::new("c18tmp");
    std::env::set_var("TMPDIR", tmp.path());
    let st = Stubs::new();
    let ends = [End::Exit(0), End::Exit(1), End::Exit(2), End::Exit(101), End::Exit(127), End::Exit(134), End::Exit(137), End::Exit(139), End::Exit(255), End::Signal(6), End::Signal(9), End::Signal(11), End::Signal(15), End::Signal(1)];
    let n = outs().len();
    let mut all: Vec<Beh> = vec![];
    for out in 0..n { for err in 0..ERRS.len() { for end in ends { all.push(Beh { out, err, end }); } } }
    let mut jobs: Vec<(Beh, Beh, bool)> = vec![];
    for a in &all { for b in &all {
        let d = (a.out != b.out) as u8 + (a.err != b.err) as u8 + (a.end != b.end) as u8;
        let plain = |x: &Beh| x.err == 0 && [0, 2, 4, 8].contains(&x.out) && [End::Exit(0), End::Exit(1), End::Signal(11), End::Signal(6)].contains(&x.end);
        let keep = if rep.thorough { d <= 1 || a.err == 0 && b.err == 0 && a.out % 3 == 2 || plain(a) }
            // pairs of outputs with a plain ending, pairs of endings with a plain output, pairs of error outputs, and the plain product
            else { a.err == b.err && a.err == 0 && a.end == b.end && a.end == End::Exit(0) || a.err == 0 && b.err == 0 && a.out == b.out && a.out == 2 || a.out == b.out && a.out == 2 && [End::Exit(0), End::Exit(1)].contains(&a.end) && [End::Exit(0), End::Exit(1)].contains(&b.end) || plain(a) && plain(b) };
        if keep { jobs.push((*a, *b, false)); if a.err != b.err || a.err > 0 || a.out == 2 { jobs.push((*a, *b, true)); } }
    }}
    for e in [End::Exit(0), End::Hang] { for out in [0, 2] {
        let (h, o) = (Beh { out, err: 0, end: End::Hang }, Beh { out, err: 0, end: e });
        jobs.push((h, o, false));
        jobs.push((o, h, false));
    }}
    jobs.sort();
    jobs.dedup();
    eprintln!("pairs {}", jobs.len());
    let res = par_map(&jobs, |_, (a, b, e)| guard(|| check(&st, a, b, *e)).unwrap_or_else(|e| Err(format!("panic: {e}"))));
    let mut slips = std::collections::BTreeSet::new();
    for ((a, b, e), r) in jobs.iter().zip(res) {
        rep.states += 1;
        rep.evaluations += 1;
        rep.traces += 1;
        let details = json!({"c": script(a).chars().take(300).collect::<String>(), "rust": script(b).chars().take(300).collect::<String>()});
        let key = format!("C {a:?} | Rust {b:?} | stderr compared {e}");
        match r {
            Ok((o, bad)) => {
                rep.outcome(&o);
                for (k, w) in bad.slips { if slips.insert(k.clone()) { rep.violation(&k, &w, details.clone()); } }
                if let Some(w) = bad.what { rep.violation(&key, &w, details.clone()); }
            }
            Err(w) => rep.violation(&key, &w, details),
        }
    }
    rep.sample(format!("{:?}", jobs[jobs.len() / 3]));
    // compilation failures and missing compilers
    let ok = Beh { out: 2, err: 0, end: End::Exit(0) };
    for (c, r) in [(true, false), (false, true), (true, true)] {
        let f = |bad: bool| if bad { "FAIL".to_string() } else { script(&ok) };
        rep.evaluations += 1;
        if diff_test(&f(c), &f(r), &st.config(false, 5)).is_ok() { rep.violation(&format!("compile failure {c} {r}"), "the test gives a verdict although a program does not compile", json!({})); }
    }
    for (c, r) in [(true, false), (false, true)] {
        let mut k = st.config(false, 5);
        if c { k.gcc_path = "/nonexistent/cc".into(); }
        if r { k.rustc_path = "/nonexistent/rc".into(); }
        rep.evaluations += 1;
        if diff_test(&script(&ok), &script(&ok), &k).is_ok() { rep.violation(&format!("missing compiler {c} {r}"), "the test gives a verdict although a compiler is missing", json!({})); }
    }
    let left: Vec<String> = std::fs::read_dir(tmp.path()).map(|d| d.flatten().map(|e| e.file_name().to_string_lossy().to_string()).collect()).unwrap_or_default();
    if !left.is_empty() { rep.violation("leftovers", &format!("{} files are left in the temporary directory", left.len()), json!({"files": left.iter().take(10).collect::<Vec<_>>()})); }
    // the real compilers
    let ends: Vec<(&str, &str, i64)> = vec![("return 0;", "", 0), ("return 3;", "std::process::exit(3);", 3), ("return 256;", "std::process::exit(0);", 0), ("abort();", "std::process::abort();", -1), ("return 101;", "panic!(\"x\");", 101)];
    let texts = [("", ""), ("puts(\"hi\");", "println!(\"hi\");"), ("printf(\"hi\");", "print!(\"hi\");")];
    let mut real = vec![];
    for (i, e) in ends.iter().enumerate() { for (j, f) in ends.iter().enumerate() { for (p, t) in texts.iter().enumerate() { for (q, u) in texts.iter().enumerate() {
        if !rep.thorough && !(i == j || p == q && p == 1) { continue; }
        let c = format!("#include <stdio.h>\n#include <stdlib.h>\nint main(void) {{ {} fflush(stdout); {} }}\n", t.0, e.0);
        let r = format!("fn main() {{ {} use std::io::Write; std::io::stdout().flush().unwrap(); {} }}\n", u.1, f.1);
        let same = e.2 == f.2;
        real.push((c, r, p == q, same));
    }}}}
    let res = par_map(&real, |_, (c, r, so, se)| -> Result<(), String> {
        let x = diff_test(c, r, &DiffTestConfig { timeout_secs: 60, ..Default::default() }).map_err(|e| format!("fails: {e:#}"))?;
        if (x.stdout_matches, x.exit_code_matches, x.passed()) != (*so, *se, *so && *se) { return Err(format!("verdict {} {} {}, expected {so} {se}; codes {} {}", x.stdout_matches, x.exit_code_matches, x.passed(), x.c_output.exit_code, x.rust_output.exit_code)); }
        Ok(())
    });
    for ((c, r, ..), x) in real.iter().zip(res) {
        rep.evaluations += 1;
        rep.traces += 1;
        if let Err(e) = x { rep.violation(&format!("real {c} {r}"), &e, json!({"c": c, "rust": r})); }
    }
    // the command line: exit status 0 and PASS exactly when the programs behave alike
    let progs = ["int main(void) { return 0; }", "int main(void) { return 7; }", "#include <stdio.h>\nint main(void) { printf(\"%d\\n\", 3); return 1; }", "#include <stdio.h>\nint main(void) { puts(\"x\"); return 0; }", "int main(void) { return x; }"];
    let idx: Vec<usize> = (0..progs.len()).collect();
    let res = par_map(&idx, |_, i| -> Result<(), String> {
        let s = Scratch::new("c18cli");
        let f = s.path().join("p.c");
        std::fs::write(&f, progs[*i]).unwrap();
        let o = run_limited(Command::new(decy_bin()).arg("diff-test").arg(&f).args(["--timeout", "2"]), 90).ok_or("decy diff-test does not end")?;
        let want = *i < 4;
        let out = String::from_utf8_lossy(&o.stdout).to_string();
        if o.status.success() != want || out.contains("PASS") != want { return Err(format!("exit status {:?}, {out}{}", o.status.code(), String::from_utf8_lossy(&o.stderr))); }
        Ok(())
    });
    for (i, x) in idx.iter().zip(res) {
        rep.evaluations += 1;
        if let Err(e) = x { rep.violation(&format!("cli {}", progs[*i]), &e, json!({"c": progs[*i]})); }
    }
    rep.transitions = rep.evaluations;
    rep.rule("pairs of behaviours (15 outputs: case, blanks, final newlines, invalid UTF-8, NUL, 70 kB; 3 error outputs; 14 endings: exit codes and signals; programs that do not end) through stand-in compilers, with and without comparing stderr; compilation failures, missing compilers; 5 endings x 3 outputs through the real gcc and rustc; the CLI; nothing is left in the temporary directory");
}
