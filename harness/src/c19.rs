//! C19: the compilation check says what rustc says, for every program and for every interleaving of concurrent checks.
use crate::mainx::{decy_bin, run_limited};
use crate::report::*;
use decy_verify::verify_compilation;
use serde_json::json;
use std::io::{BufRead, BufReader, Write};
use std::os::unix::fs::PermissionsExt;
use std::path::Path;
use std::process::{Command, Stdio};

/// What rustc itself says: success, codes of its errors in order, number of errors and warnings.
struct Truth { ok: bool, codes: Vec<Option<String>>, warnings: usize }
fn truth(dir: &Path, code: &str, lib: bool) -> Truth {
    let f = dir.join("decy_verify.rs");
    std::fs::write(&f, code).unwrap();
    let o = Command::new("rustc").args(["--emit=metadata", "--edition=2021", "--error-format=json", if lib { "--crate-type=lib" } else { "--crate-type=bin" }, "-o"]).arg(dir.join("o.rmeta")).arg(&f).output().expect("rustc");
    let (mut codes, mut warnings) = (vec![], 0);
    for l in String::from_utf8_lossy(&o.stderr).lines() {
        let Ok(v) = serde_json::from_str::<serde_json::Value>(l) else { continue };
        let m = v["message"].as_str().unwrap_or("");
        if v["level"] == "error" && !m.starts_with("aborting due to") && !m.starts_with("could not compile") { codes.push(v["code"]["code"].as_str().map(|s| s.to_string())); }
        if v["level"] == "warning" { warnings += 1; }
    }
    Truth { ok: o.status.success(), codes, warnings }
}

/// Items, and whether the item is a main function at the top level.
const ITEMS: [(&str, bool); 36] = [
    ("fn main() {}", true),
    ("fn main() { println!(\"{}\", 1); }", true),
    ("pub fn  main ( ) { }", true),
    ("fn\nmain() {}", true),
    ("fn main() -> i32 { 0 }", true),
    ("fn main() { let x: i32 = \"s\"; let _ = x; }", true),
    ("fn main() { f(); }", true),
    ("pub fn f() {}", false),
    ("fn g() {}", false),
    ("pub fn h(a: i32) -> i32 { let mut b = a; b }", false),
    ("pub fn f2() -> i32 { \"x\" }", false),
    ("pub fn f3() { undefined(); }", false),
    ("pub fn f4() { let s = String::new(); drop(s); drop(s); }", false),
    ("pub fn f5() { let x = ; }", false),
    ("pub fn f6( {", false),
    ("// fn main() {}", false),
    ("mod m { pub fn main() {} pub const error: i32 = 0; }", false),
    ("pub const S: &str = \"fn main() {} error[E0308]: no\";", false),
    ("compile_error!(\"error[E9999]: fake\");", false),
    ("compile_error!(\"two\\nerror[E9998]: lines\");", false),
    ("pub const E: i32 = \"error[E0001]: x\";", false),
    ("pub struct S1 { pub a: i32 }\npub fn mk() -> S1 { S1 { b: 1 } }", false),
    ("pub union U { a: i32, b: f32 }\npub unsafe fn u(x: U) -> i32 { x.a }", false),
    ("pub fn wr() -> u8 { 300 }", false),
    ("pub static é: i32 = 1;", false),
    ("fn main(x: i32) {}", true),
    ("async fn main() {}", true),
    ("fn main<T>() {}", true),
    ("unsafe fn main() {}", true),
    ("pub(crate) const fn main() {}", true),
    ("#[no_mangle]\npub extern \"C\" fn main() -> i32 { 0 }", true),
    ("pub struct main;", false),
    ("pub mod n { pub mod main { pub fn main() -> i32 { 1 } } }", false),
    ("pub trait M { fn main(); }\npub struct Q;\nimpl Q { pub fn main() {} }", false),
    ("macro_rules! mm { () => { fn main() {} } }", false),
    ("pub fn ill() -> bool { matches!(error, _) }", false),
];

fn judge(dir: &Path, code: &str, has_main: bool) -> Result<String, String> {
    let t = truth(dir, code, !has_main);
    let r = verify_compilation(code).map_err(|e| format!("fails: {e:#}"))?;
    if r.success != t.ok { return Err(format!("reports success = {}, rustc says {} ({:?})", r.success, t.ok, t.codes)); }
    if t.ok {
        if !r.errors.is_empty() { return Err("success with errors".into()); }
        if (t.warnings > 0) != !r.warnings.is_empty() { return Err(format!("{} warnings, rustc has {}", r.warnings.len(), t.warnings)); }
    } else {
        // whether a text that does not parse has a main function is not settled
        let skip = |c: &String| t.codes.contains(&None) && ["E0601", "E0131", "E0752"].contains(&c.as_str());
        let coded: Vec<String> = r.errors.iter().filter_map(|e| e.code.clone()).filter(|c| !skip(c)).collect();
        let want: Vec<String> = t.codes.iter().flatten().filter(|c| c.starts_with('E') && !skip(c)).cloned().collect();
        if coded != want { return Err(format!("error codes {coded:?}, rustc has {want:?}")); }
        if r.errors.len() < t.codes.len().max(1) { return Err(format!("{} errors, rustc has {}", r.errors.len(), t.codes.len())); }
    }
    Ok(format!("{} {:?} {}", t.ok, t.codes, t.warnings))
}

const STUB: &str = r#"#!/bin/sh
for a in "$@"; do case "$a" in *.rs) s=$a ;; esac; done
: > "$MC_CTL/st.$$"
n=0; while [ ! -e "$MC_CTL/go.$$" ]; do sleep 0.01; n=$((n+1)); [ $n -gt 6000 ] && exit 9; done
t=$(cat "$s" 2>/dev/null) || t=GONE
case "$t" in
  OK*) exit 0 ;;
  *) echo "error[E0$t]: text" >&2; exit 1 ;;
esac
"#;
const CLOCK: &str = r#"#define _GNU_SOURCE
#include <time.h>
#include <sys/time.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <stdlib.h>
int clock_gettime(clockid_t id, struct timespec *t) {
  int r = syscall(SYS_clock_gettime, id, t);
  const char *m = getenv("MC_CLOCK");
  if (id == CLOCK_REALTIME && r == 0 && m) { t->tv_sec = 1700000000; t->tv_nsec = 5; }
  return r;
}
int gettimeofday(struct timeval *t, void *z) { struct timespec x; clock_gettime(CLOCK_REALTIME, &x); t->tv_sec = x.tv_sec; t->tv_usec = x.tv_nsec / 1000; return 0; }
"#;

/// Worker process: "start i code" starts a check in a thread; prints "done i ok codes".
pub fn worker() {
    let out = std::sync::Arc::new(std::sync::Mutex::new(std::io::stdout()));
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        let w: Vec<String> = l.split(' ').map(|s| s.to_string()).collect();
        let out = out.clone();
        std::thread::spawn(move || {
            let s = match guard(|| verify_compilation(&w[2])) {
                Ok(Ok(r)) => format!("{} {}", r.success, r.errors.iter().filter_map(|e| e.code.clone()).collect::<Vec<_>>().join(",")),
                Ok(Err(e)) => format!("fails: {e:#}"),
                Err(e) => format!("panic: {e}"),
            };
            let mut o = out.lock().unwrap();
            let _ = writeln!(o, "done {} {}", w[1], s.replace('\n', " "));
            let _ = o.flush();
        });
    }
}

/// All sequences with start i before finish i; calls are interchangeable, so starts are in order.
fn schedules(n: usize) -> Vec<Vec<(bool, usize)>> {
    fn rec(n: usize, started: usize, live: Vec<usize>, cur: &mut Vec<(bool, usize)>, out: &mut Vec<Vec<(bool, usize)>>) {
        if started == n && live.is_empty() { out.push(cur.clone()); return; }
        if started < n {
            cur.push((true, started));
            let mut l = live.clone();
            l.push(started);
            rec(n, started + 1, l, cur, out);
            cur.pop();
        }
        for i in &live {
            cur.push((false, *i));
            rec(n, started, live.iter().cloned().filter(|j| j != i).collect(), cur, out);
            cur.pop();
        }
    }
    let mut out = vec![];
    rec(n, 0, vec![], &mut vec![], &mut out);
    out
}

/// Run one schedule; `procs` = every call in a process of its own.
fn run_schedule(tools: &Path, sched: &[(bool, usize)], n: usize, codes: &[&str], frozen: bool, procs: bool) -> Result<(), String> {
    let dir = Scratch::new("c19s");
    let tmp = dir.path().join("tmp");
    std::fs::create_dir(&tmp).unwrap();
    let ctl = dir.path().join("ctl");
    std::fs::create_dir(&ctl).unwrap();
    let spawn = || {
        let mut c = Command::new(std::env::current_exe().unwrap());
        c.arg("worker-verify").env("PATH", format!("{}:/usr/bin:/bin", tools.display())).env("TMPDIR", &tmp).env("MC_CTL", &ctl)
            .stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
        if frozen { c.env("LD_PRELOAD", tools.join("clock.so")).env("MC_CLOCK", "1"); }
        c.spawn().unwrap()
    };
    let mut kids: Vec<std::process::Child> = (0..if procs { n } else { 1 }).map(|_| spawn()).collect();
    let (tx, rx) = std::sync::mpsc::channel::<String>();
    for k in kids.iter_mut() {
        let o = k.stdout.take().unwrap();
        let tx = tx.clone();
        std::thread::spawn(move || for l in BufReader::new(o).lines() { let Ok(l) = l else { break }; if tx.send(l).is_err() { break; } });
    }
    let mut seen: std::collections::BTreeSet<String> = Default::default();
    let limit = std::time::Duration::from_secs(40);
    let mut pids: Vec<String> = vec![String::new(); n];
    let mut results: Vec<Option<String>> = vec![None; n];
    let mut out = Ok(());
    'run: for (start, i) in sched {
        if *start {
            let k = if procs { *i } else { 0 };
            writeln!(kids[k].stdin.as_mut().unwrap(), "start {i} {}", codes[*i]).unwrap();
            // wait until its compiler runs, or the check ends without one
            let t0 = std::time::Instant::now();
            loop {
                std::thread::sleep(std::time::Duration::from_millis(2));
                let new = std::fs::read_dir(&ctl).unwrap().flatten().map(|e| e.file_name().to_string_lossy().to_string()).find(|n| n.starts_with("st.") && !seen.contains(n));
                if let Some(l) = new {
                    pids[*i] = l[3..].to_string();
                    seen.insert(l);
                    break;
                }
                if let Ok(l) = rx.try_recv() { out = Err(format!("a check ends before its compiler does: {l}")); break 'run; }
                if t0.elapsed() > limit { out = Err(format!("check {i} does not start its compiler")); break 'run; }
            }
        } else {
            std::fs::write(ctl.join(format!("go.{}", pids[*i])), "").unwrap();
            match rx.recv_timeout(limit) {
                Ok(l) => {
                    let w: Vec<&str> = l.splitn(3, ' ').collect();
                    let who: usize = w[1].parse().unwrap();
                    results[who] = Some(w[2].to_string());
                    if who != *i { out = Err(format!("check {who} ends when the compiler of check {i} does")); break 'run; }
                }
                Err(_) => { out = Err(format!("check {i} does not end")); break 'run; }
            }
        }
    }
    for k in kids.iter_mut() { drop(k.stdin.take()); let _ = k.kill(); let _ = k.wait(); }
    // release stubs that still wait
    for p in pids.iter().filter(|p| !p.is_empty()) { let _ = Command::new("kill").arg("-9").arg(p).stderr(Stdio::null()).status(); }
    out?;
    for i in 0..n {
        let want = if codes[i].starts_with("OK") { "true ".to_string() } else { format!("false E0{}", codes[i]) };
        let got = results[i].clone().unwrap_or_default();
        if got != want { return Err(format!("check {i} of {:?} gives {got:?} instead of {want:?}", codes[i])); }
    }
    let left: Vec<String> = std::fs::read_dir(&tmp).map(|d| d.flatten().map(|e| e.file_name().to_string_lossy().to_string()).collect()).unwrap_or_default();
    if !left.is_empty() { return Err(format!("files are left behind: {left:?}")); }
    Ok(())
}

pub fn run(rep: &mut Report) {
    // real rustc: all sequences of items
    let tmp = Scratch::new("c19tmp");
    std::env::set_var("TMPDIR", tmp.path());
    let mut progs: Vec<(String, bool)> = vec![("".into(), false)];
    let n = ITEMS.len();
    for i in 0..n {
        progs.push((ITEMS[i].0.to_string(), ITEMS[i].1));
        for j in 0..n { if i != j {
            if !rep.thorough && (i + j) % 2 == 1 && !(ITEMS[i].1 ^ ITEMS[j].1) { continue; }
            progs.push((format!("{}\n{}\n", ITEMS[i].0, ITEMS[j].0), ITEMS[i].1 || ITEMS[j].1));
            if rep.thorough { for k in (0..n).filter(|k| *k != i && *k != j && (i + j + k) % 3 == 0) { progs.push((format!("{}\n{}\n{}\n", ITEMS[i].0, ITEMS[j].0, ITEMS[k].0), ITEMS[i].1 || ITEMS[j].1 || ITEMS[k].1)); } }
        }}
    }
    let res = par_map(&progs, |_, (c, m)| { let s = Scratch::new("c19p"); guard(|| judge(s.path(), c, *m)).unwrap_or_else(|e| Err(format!("panic: {e}"))) });
    for ((c, _), r) in progs.iter().zip(res) {
        rep.states += 1;
        rep.evaluations += 1;
        rep.traces += 1;
        match r { Ok(o) => rep.outcome(&o), Err(w) => rep.violation(&format!("program {c:?}"), &w, json!({"rust": c})) }
    }
    rep.sample(format!("{:?}", progs[progs.len() / 2].0));
    let left = std::fs::read_dir(tmp.path()).map(|d| d.flatten().map(|e| e.file_name().to_string_lossy().to_string()).collect::<Vec<_>>()).unwrap_or_default();
    if !left.is_empty() { rep.violation("leftovers", &format!("{} files are left in the temporary directory", left.len()), json!({"files": left.iter().take(8).collect::<Vec<_>>()})); }

    // interleavings of concurrent checks under a controlled compiler and clock
    let tools = Scratch::new("c19t");
    std::fs::write(tools.path().join("rustc"), STUB).unwrap();
    std::fs::set_permissions(tools.path().join("rustc"), std::fs::Permissions::from_mode(0o755)).unwrap();
    std::fs::write(tools.path().join("clock.c"), CLOCK).unwrap();
    let o = Command::new("gcc").args(["-shared", "-fPIC", "-w", "-o"]).arg(tools.path().join("clock.so")).arg(tools.path().join("clock.c")).output().unwrap();
    if !o.status.success() { eprintln!("clock shim: {}", String::from_utf8_lossy(&o.stderr)); std::process::exit(2); }
    let codes = ["OK", "101", "102", "OKb"];
    let mut jobs = vec![];
    for k in 1..=if rep.thorough { 4 } else { 3 } { for s in schedules(k) { for frozen in [false, true] { for procs in [false, true] {
        if k == 4 && frozen != procs { continue; }
        for rot in 0..if k == 4 { 1 } else { k } { jobs.push((s.clone(), k, frozen, procs, rot)); }
    }}}}
    let res = par_map(&jobs, |_, (s, k, frozen, procs, rot)| {
        let c: Vec<&str> = (0..*k).map(|i| codes[(i + rot) % codes.len()]).collect();
        run_schedule(tools.path(), s, *k, &c, *frozen, *procs)
    });
    for ((s, k, frozen, procs, rot), r) in jobs.iter().zip(res) {
        rep.states += 1;
        rep.evaluations += 1;
        rep.traces += 1;
        rep.transitions += s.len() as u64;
        if let Err(w) = r {
            let d: Vec<String> = s.iter().map(|(a, i)| format!("{}{i}", if *a { "start" } else { "end" })).collect();
            rep.violation(&format!("schedule {} clock {} {} rot {rot}", d.join(" "), if *frozen { "stopped" } else { "running" }, if *procs { "processes" } else { "threads" }), &w, json!({"checks": k}));
        }
    }
    rep.extra("schedules", json!(jobs.len()));

    // faults: no rustc, a rustc that dies, an unusable temporary directory; nothing stays behind
    let f = Scratch::new("c19f");
    let t2 = f.path().join("tmp");
    std::fs::create_dir(&t2).unwrap();
    let bin = f.path().join("bin");
    std::fs::create_dir(&bin).unwrap();
    for (name, stub, tmpdir, want) in [
        ("no rustc", None, t2.display().to_string(), "fails"),
        ("rustc dies by a signal", Some("#!/bin/sh\nkill -9 $$\n"), t2.display().to_string(), "false"),
        ("rustc exits 101 silently", Some("#!/bin/sh\nexit 101\n"), t2.display().to_string(), "false"),
        ("no temporary directory", Some("#!/bin/sh\nexit 0\n"), f.path().join("nope").display().to_string(), "fails"),
    ] {
        let rc = bin.join("rustc");
        let _ = std::fs::remove_file(&rc);
        if let Some(s) = stub { std::fs::write(&rc, s).unwrap(); std::fs::set_permissions(&rc, std::fs::Permissions::from_mode(0o755)).unwrap(); }
        let mut c = Command::new(std::env::current_exe().unwrap()).arg("worker-verify").env("PATH", format!("{}:/nonexistent", bin.display())).env("TMPDIR", &tmpdir).stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().unwrap();
        writeln!(c.stdin.as_mut().unwrap(), "start 0 OK").unwrap();
        let mut l = String::new();
        let _ = BufReader::new(c.stdout.take().unwrap()).read_line(&mut l);
        let _ = c.kill();
        let _ = c.wait();
        rep.evaluations += 1;
        if !l.starts_with(&format!("done 0 {want}")) { rep.violation(&format!("fault {name}"), &format!("the check gives {l:?}"), json!({})); }
        let n = std::fs::read_dir(&t2).unwrap().count();
        if n > 0 { rep.violation(&format!("fault {name}: leftovers"), &format!("{n} files are left in the temporary directory"), json!({})); for e in std::fs::read_dir(&t2).unwrap().flatten() { let _ = std::fs::remove_file(e.path()); } }
    }

    // the command line: --verify accepts exactly what rustc accepts and writes nothing otherwise
    let cs = [
        "int f(int a) { return a + 1; }", "int main(void) { return 0; }", "static int g(int a) { return a; }\nint main(void) { return g(2); }",
        "int f(int a) { return undeclared; }", "int f(void) { return g(); }", "int main(void) { return nope(3); }", "struct s { int a; };\nint f(struct s *p) { return p->a; }",
        "int f(int a) { return a", "#include <stdio.h>\nint main(void) { puts(\"fn main() error[E0308]\"); return 0; }", "#include <stdio.h>\nint f(void) { puts(\"fn main(\"); return 0; }",
        "union u { int a; float b; };\nfloat f(union u x) { return x.b; }", "typedef int (*fn)(int);\nint ap(fn f, int x) { return f(x); }", "int a[2][2];\nint f(void) { return a[1][0]; }", "",
    ];
    let idx: Vec<usize> = (0..cs.len()).collect();
    let res = par_map(&idx, |_, i| -> Result<String, String> {
        let s = Scratch::new("c19c");
        let c = s.path().join("p.c");
        std::fs::write(&c, cs[*i]).unwrap();
        let plain = run_limited(Command::new(decy_bin()).arg("transpile").arg(&c).arg("-o").arg(s.path().join("plain.rs")), 60).ok_or("decy transpile does not end")?;
        let text = std::fs::read_to_string(s.path().join("plain.rs")).ok();
        let main = text.as_deref().map_or(false, |t| syn_main(t));
        let want = plain.status.success() && truth(s.path(), text.as_deref().unwrap_or(""), !main).ok;
        for old in [None, Some("old text")] {
            let out = s.path().join("out.rs");
            let _ = std::fs::remove_file(&out);
            if let Some(t) = old { std::fs::write(&out, t).unwrap(); }
            let o = run_limited(Command::new(decy_bin()).arg("transpile").arg("--verify").arg(&c).arg("-o").arg(&out), 90).ok_or("decy transpile --verify does not end")?;
            let now = std::fs::read_to_string(&out).ok();
            if o.status.success() != want { return Err(format!("exit status {:?}, rustc accepts: {want}; {}", o.status.code(), String::from_utf8_lossy(&o.stderr).chars().take(400).collect::<String>())); }
            let expect = if want { text.clone() } else { old.map(|s| s.to_string()) };
            if now != expect { return Err(format!("the output file holds {now:?}")); }
            let o = run_limited(Command::new(decy_bin()).arg("transpile").arg("--verify").arg(&c), 90).ok_or("decy transpile --verify does not end")?;
            let so = String::from_utf8_lossy(&o.stdout).to_string();
            if o.status.success() != want || so != if want { text.clone().unwrap() } else { String::new() } { return Err(format!("to the terminal: exit status {:?}, output {so:?}", o.status.code())); }
        }
        Ok(format!("{want}"))
    });
    for (i, r) in idx.iter().zip(res) {
        rep.evaluations += 1;
        rep.traces += 1;
        match r { Ok(o) => rep.outcome(&format!("cli {o}")), Err(w) => rep.violation(&format!("cli {:?}", cs[*i]), &w, json!({"c": cs[*i]})) }
    }
    // the command line with compilers that accept or reject in unusual ways
    let b2 = f.path().join("bin2");
    std::fs::create_dir(&b2).unwrap();
    for (name, stub, accept) in [
        ("dies by a signal", "kill -9 $$", false),
        ("exits 101 silently", "exit 101", false),
        ("exits 1 with a warning", "echo 'warning: unused' >&2; exit 1", false),
        ("exits 1 with an error without code", "echo 'error: linker not found' >&2; exit 1", false),
        ("exits 1 with text", "echo 'no such thing' >&2; exit 1", false),
        ("exits 1 with an error on the standard output", "echo 'error[E0308]: mismatched'; exit 1", false),
        ("accepts silently", "exit 0", true),
        ("accepts with a warning", "echo 'warning: unused' >&2; exit 0", true),
    ] {
        let rc = b2.join("rustc");
        std::fs::write(&rc, format!("#!/bin/sh\n{stub}\n")).unwrap();
        std::fs::set_permissions(&rc, std::fs::Permissions::from_mode(0o755)).unwrap();
        for c in ["int f(int a) { return a + 1; }", "int main(void) { return 0; }"] {
            let s = Scratch::new("c19d");
            let (src, out) = (s.path().join("p.c"), s.path().join("out.rs"));
            std::fs::write(&src, c).unwrap();
            for old in [None, Some("old text")] {
                let _ = std::fs::remove_file(&out);
                if let Some(t) = old { std::fs::write(&out, t).unwrap(); }
                rep.evaluations += 1;
                let o = run_limited(Command::new(decy_bin()).arg("transpile").arg("--verify").arg(&src).arg("-o").arg(&out).env("PATH", format!("{}:/usr/bin:/bin", b2.display())), 60);
                let ok = o.map(|o| o.status.success());
                let now = std::fs::read_to_string(&out).ok();
                let changed = now.as_deref() != old;
                if ok != Some(accept) || changed != accept { rep.violation(&format!("cli rustc {name} {c:?} {old:?}"), &format!("success {ok:?}, output file changed: {changed}"), json!({"c": c, "rustc": stub})); }
            }
        }
    }
    rep.transitions += rep.evaluations;
    rep.rule(format!("{} Rust programs: sequences of {} items (valid, 10 kinds of error, look-alikes of error lines and of main) against rustc's JSON diagnostics; all {} schedules of up to {} concurrent checks (threads and processes, running and stopped clock) under a stand-in compiler; 4 faults; transpile --verify with 8 kinds of compiler verdict; 14 C programs through transpile --verify", progs.len(), n, jobs.len(), if rep.thorough { 4 } else { 3 }));
    rep.assume("schedules: the order of the compilers' starts and ends; a check's own code before its compiler starts and after it ends is one step");
}

/// Is there a main function at the top level of generated Rust (one item per line start)?
fn syn_main(t: &str) -> bool { t.lines().any(|l| l.starts_with("fn main(") || l.starts_with("pub fn main(")) }
