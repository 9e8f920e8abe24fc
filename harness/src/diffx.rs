//! Differential execution engine: a batch of small C programs, each with an entry
//! `int f(int a, int b)` (or a stdout-observed one), is run (a) through gcc with UBSan
//! traps, loop fuel and an explicit "undefined" verdict, and (b) through decy's real
//! pipeline and rustc with overflow checks.  Every defined (program, input) pair must agree.
use crate::report::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::path::Path;
use std::process::{Command, Stdio};

#[derive(Clone, Debug)]
pub struct Prog {
    pub key: String,
    /// what decy sees
    pub c: String,
    /// what gcc sees (`FUEL;` may appear in loop bodies); None = same as `c`
    pub oracle: Option<String>,
    /// top-level names to rename per program in the gcc batch
    pub names: Vec<String>,
    pub args: std::sync::Arc<Vec<(i32, i32)>>,
    /// compare stdout too
    pub prints: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Obs {
    Val(i32, String),
    Undef,
}

#[derive(Debug, Clone)]
pub enum Verdict {
    Ok,
    /// decy returned Err
    Rejected(String),
    /// decy panicked
    Panicked(String),
    NoCompile(String, String),
    /// arg index, expected, got
    Differs { a: i32, b: i32, want: String, got: String, rust: String },
    /// no defined inputs
    Vacuous,
    OracleError(String),
}

pub struct Outcome {
    pub verdict: Verdict,
    pub defined: usize,
    pub hash: u64,
    pub rust: Option<String>,
}

pub type Transpile<'a> = &'a (dyn Fn(&Prog) -> Result<String, String> + Sync);

pub fn default_transpile(p: &Prog) -> Result<String, String> {
    decy_core::transpile(&p.c).map_err(|e| format!("{e:#}"))
}

fn rustc() -> String {
    std::env::var("MC_RUSTC").unwrap_or_else(|_| "rustc".into())
}

pub fn run_batch(progs: &[Prog], transpile: Transpile) -> Vec<Outcome> {
    let chunk = std::env::var("MC_CHUNK").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        (progs.len() / 16 + 1).clamp(20, 250)
    });
    let chunks: Vec<&[Prog]> = progs.chunks(chunk).collect();
    let res = par_map(&chunks, |_, ch| run_chunk(ch, transpile));
    res.into_iter().flatten().collect()
}

fn gcc_oracle(dir: &Path, progs: &[Prog]) -> Result<Vec<Vec<Obs>>, String> {
    let mut src = String::new();
    src.push_str(
        "#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <setjmp.h>\n#include <signal.h>\n#include <ctype.h>\n#include <stdint.h>\n#include <limits.h>\n#include <stdbool.h>\n#include <stddef.h>\n\
         static sigjmp_buf __jb; static long __fuel;\n#define FUEL if(--__fuel<0) siglongjmp(__jb,2)\n\
         static void __h(int s){ siglongjmp(__jb,1); }\n",
    );
    for (i, p) in progs.iter().enumerate() {
        for n in &p.names {
            let _ = writeln!(src, "#define {n} {n}__{i}");
        }
        src.push_str(p.oracle.as_deref().unwrap_or(&p.c));
        src.push('\n');
        for n in &p.names {
            let _ = writeln!(src, "#undef {n}");
        }
        let _ = writeln!(src, "#undef f");
        let _ = writeln!(src, "static const int __a{i}[][2]={{");
        for (a, b) in p.args.iter() {
            let _ = write!(src, "{{{a},{b}}},");
        }
        let _ = writeln!(src, "}};");
    }
    src.push_str("int main(void){ static char altstack[65536]; stack_t ss={0}; ss.ss_sp=altstack; ss.ss_size=sizeof altstack; sigaltstack(&ss,0); struct sigaction sa={0}; sa.sa_handler=__h; sa.sa_flags=SA_NODEFER|SA_ONSTACK; sigaction(SIGILL,&sa,0); sigaction(SIGFPE,&sa,0); sigaction(SIGSEGV,&sa,0); sigaction(SIGBUS,&sa,0); sigaction(SIGABRT,&sa,0);sigaction(SIGTRAP,&sa,0);\n");
    for (i, p) in progs.iter().enumerate() {
        let n = p.args.len();
        let _ = writeln!(src, "for(volatile int k=0;k<{n};k++){{ printf(\"\\001%d %d\\002\",{i},k); __fuel=20000; int j=sigsetjmp(__jb,1); if(!j){{ int r=f__{i}(__a{i}[k][0],__a{i}[k][1]); printf(\"\\003V%d\\n\",r);}} else printf(\"\\003U%d\\n\",j); }}");
    }
    src.push_str("return 0;}\n");
    let cf = dir.join("oracle.c");
    std::fs::write(&cf, &src).map_err(|e| e.to_string())?;
    let exe = dir.join("oracle");
    let o = Command::new("clang")
        .args(["-std=gnu11", "-O0", "-w", "-fsanitize=undefined,float-cast-overflow", "-fsanitize-trap=all", "-fno-sanitize=alignment,function"])
        .arg(&cf)
        .arg("-lm")
        .arg("-o")
        .arg(&exe)
        .output()
        .map_err(|e| e.to_string())?;
    if !o.status.success() {
        return Err(format!("gcc: {}", String::from_utf8_lossy(&o.stderr).chars().take(3000).collect::<String>()));
    }
    let o = Command::new(&exe).stdin(Stdio::null()).output().map_err(|e| e.to_string())?;
    if !o.status.success() {
        return Err(format!("oracle run: {:?}", o.status));
    }
    Ok(parse_obs(&o.stdout, progs).0)
}

fn parse_obs(out: &[u8], progs: &[Prog]) -> (Vec<Vec<Obs>>, Vec<(usize, usize, String)>) {
    let mut res: Vec<Vec<Obs>> = progs.iter().map(|p| vec![Obs::Undef; p.args.len()]).collect();
    let mut bad = vec![];
    let mut pos = 0;
    while pos < out.len() {
        if out[pos] != 1 {
            pos += 1;
            continue;
        }
        let e = match out[pos..].iter().position(|c| *c == 2) {
            Some(e) => pos + e,
            None => break,
        };
        let hdr = String::from_utf8_lossy(&out[pos + 1..e]).to_string();
        let mut it = hdr.split(' ').map(|x| x.parse::<usize>().unwrap_or(usize::MAX));
        let (i, k) = (it.next().unwrap_or(usize::MAX), it.next().unwrap_or(usize::MAX));
        let m = match out[e..].iter().position(|c| *c == 3) {
            Some(m) => e + m,
            None => break,
        };
        let text = String::from_utf8_lossy(&out[e + 1..m]).to_string();
        let nl = out[m..].iter().position(|c| *c == b'\n').map(|x| m + x).unwrap_or(out.len());
        let tail = String::from_utf8_lossy(&out[m + 1..nl]).to_string();
        pos = nl;
        if i < progs.len() && k < progs[i].args.len() {
            if let Some(v) = tail.strip_prefix('V') {
                res[i][k] = Obs::Val(v.parse().unwrap_or(i32::MIN), if progs[i].prints { text } else { String::new() });
            } else if !tail.starts_with('U') {
                bad.push((i, k, tail));
            }
        }
    }
    (res, bad)
}

pub fn run_chunk(progs: &[Prog], transpile: Transpile) -> Vec<Outcome> {
    let sc = Scratch::new("dx");
    let dir = sc.path();
    let mut verd: Vec<Option<Verdict>> = vec![None; progs.len()];
    let oracle = match gcc_oracle(dir, progs) {
        Ok(o) => o,
        Err(e) => {
            if progs.len() > 1 {
                // isolate the offender(s)
                let mid = progs.len() / 2;
                let mut a = run_chunk(&progs[..mid], transpile);
                a.extend(run_chunk(&progs[mid..], transpile));
                return a;
            }
            return vec![Outcome { verdict: Verdict::OracleError(e), defined: 0, hash: 0, rust: None }];
        }
    };
    // decy
    let mut rust: Vec<Option<String>> = vec![None; progs.len()];
    for (i, p) in progs.iter().enumerate() {
        match guard(|| transpile(p)) {
            Ok(Ok(r)) => rust[i] = Some(r),
            Ok(Err(e)) => verd[i] = Some(Verdict::Rejected(e)),
            Err(e) => verd[i] = Some(Verdict::Panicked(e)),
        }
    }
    // rustc
    let mut live: BTreeSet<usize> = (0..progs.len())
        .filter(|i| rust[*i].is_some() && oracle[*i].iter().any(|o| *o != Obs::Undef))
        .collect();
    let exe = dir.join("rexe");
    loop {
        if live.is_empty() {
            break;
        }
        let (src, lines) = rust_batch(progs, &rust, &live);
        let rf = dir.join("batch.rs");
        std::fs::write(&rf, &src).unwrap();
        let o = Command::new(rustc())
            .args(["--edition", "2021", "--crate-type", "bin", "-C", "opt-level=0", "-C", "debuginfo=0", "-C", "overflow-checks=on", "-C", "debug-assertions=off", "-C", "codegen-units=1", "--error-format=json", "-A", "warnings", "--cap-lints", "allow"])
            .arg(&rf)
            .arg("-o")
            .arg(&exe)
            .current_dir(dir)
            .output()
            .expect("rustc");
        if o.status.success() {
            break;
        }
        let err = String::from_utf8_lossy(&o.stderr).to_string();
        let mut bad: BTreeMap<usize, String> = BTreeMap::new();
        for l in err.lines() {
            let Ok(v) = serde_json::from_str::<serde_json::Value>(l) else { continue };
            if v["level"] != "error" {
                continue;
            }
            let msg = v["message"].as_str().unwrap_or("").to_string();
            let mut ls = vec![];
            fn collect(v: &serde_json::Value, ls: &mut Vec<u64>) {
                if let Some(sp) = v["spans"].as_array() {
                    for s in sp {
                        if let Some(n) = s["line_start"].as_u64() {
                            ls.push(n);
                        }
                    }
                }
            }
            collect(&v, &mut ls);
            for n in ls {
                // last start line <= n
                if let Some((_, i)) = lines.range(..=(n as usize)).next_back() {
                    if *i != usize::MAX {
                        bad.entry(*i).or_insert_with(|| msg.clone());
                    }
                }
            }
        }
        if bad.is_empty() {
            // cannot attribute: bisect
            if live.len() == 1 {
                let i = *live.iter().next().unwrap();
                verd[i] = Some(Verdict::NoCompile(
                    err.chars().take(1500).collect(),
                    rust[i].clone().unwrap(),
                ));
                live.clear();
                break;
            }
            let mid = progs.len() / 2;
            let mut a = run_chunk(&progs[..mid], transpile);
            a.extend(run_chunk(&progs[mid..], transpile));
            return a;
        }
        for (i, m) in bad {
            live.remove(&i);
            verd[i] = Some(Verdict::NoCompile(m, rust[i].clone().unwrap()));
        }
    }
    // run
    let mut got: Vec<Vec<Option<Obs>>> = progs.iter().map(|p| vec![None; p.args.len()]).collect();
    let mut todo: BTreeSet<(usize, usize)> = BTreeSet::new();
    for i in &live {
        for (k, o) in oracle[*i].iter().enumerate() {
            if *o != Obs::Undef {
                todo.insert((*i, k));
            }
        }
    }
    let mut failmsg: BTreeMap<(usize, usize), String> = BTreeMap::new();
    let mut rounds = 0;
    while !todo.is_empty() {
        rounds += 1;
        let lf = dir.join("todo");
        let mut t = String::new();
        for (i, k) in &todo {
            let _ = writeln!(t, "{i} {k} {} {}", progs[*i].args[*k].0, progs[*i].args[*k].1);
        }
        std::fs::write(&lf, t).unwrap();
        let of = dir.join("rout");
        let outf = std::fs::File::create(&of).unwrap();
        let mut ch = Command::new(&exe)
            .arg(&lf)
            .stdin(Stdio::null())
            .stdout(outf)
            .stderr(Stdio::null())
            .spawn()
            .expect("spawn rust exe");
        let st = ch.wait().unwrap();
        let out = std::fs::read(&of).unwrap();
        let (vals, bad) = parse_obs(&out, progs);
        let mut done = 0;
        for (i, k) in todo.clone() {
            if vals[i][k] != Obs::Undef {
                got[i][k] = Some(vals[i][k].clone());
                todo.remove(&(i, k));
                done += 1;
            }
        }
        for (i, k, m) in bad {
            if todo.remove(&(i, k)) {
                failmsg.insert((i, k), m);
                done += 1;
            }
        }
        if todo.is_empty() {
            break;
        }
        // the process died or hung inside the first remaining started case
        let last = last_started(&out);
        if let Some((i, k)) = last {
            // drop the whole program: everything else of it is moot
            failmsg.insert((i, k), format!("process ended abnormally ({st:?}) or hung in this case"));
            let rest: Vec<_> = todo.iter().filter(|x| x.0 == i).cloned().collect();
            for r in rest {
                todo.remove(&r);
            }
            done += 1;
        }
        if done == 0 || rounds > 40 {
            for (i, k) in &todo {
                failmsg.insert((*i, *k), format!("no result ({st:?})"));
            }
            break;
        }
    }
    let mut res = vec![];
    for (i, p) in progs.iter().enumerate() {
        let defined = oracle[i].iter().filter(|o| **o != Obs::Undef).count();
        let hash = fnv(format!("{:?}", oracle[i]).as_bytes());
        let v = if let Some(v) = verd[i].take() {
            v
        } else if defined == 0 {
            Verdict::Vacuous
        } else {
            let mut v = Verdict::Ok;
            for (k, o) in oracle[i].iter().enumerate() {
                if *o == Obs::Undef {
                    continue;
                }
                if let Some(m) = failmsg.get(&(i, k)) {
                    v = Verdict::Differs {
                        a: p.args[k].0,
                        b: p.args[k].1,
                        want: format!("{o:?}"),
                        got: m.clone(),
                        rust: rust[i].clone().unwrap_or_default(),
                    };
                    break;
                }
                if let Some(g) = &got[i][k] {
                    if g != o {
                        v = Verdict::Differs {
                            a: p.args[k].0,
                            b: p.args[k].1,
                            want: format!("{o:?}"),
                            got: format!("{g:?}"),
                            rust: rust[i].clone().unwrap_or_default(),
                        };
                        break;
                    }
                }
            }
            v
        };
        res.push(Outcome { verdict: v, defined, hash, rust: rust[i].take() });
    }
    res
}

fn last_started(out: &[u8]) -> Option<(usize, usize)> {
    let p = out.iter().rposition(|c| *c == 1)?;
    let e = out[p..].iter().position(|c| *c == 2)? + p;
    let s = String::from_utf8_lossy(&out[p + 1..e]).to_string();
    let mut it = s.split(' ');
    Some((it.next()?.parse().ok()?, it.next()?.parse().ok()?))
}

fn rust_batch(
    progs: &[Prog],
    rust: &[Option<String>],
    live: &BTreeSet<usize>,
) -> (String, BTreeMap<usize, usize>) {
    let mut s = String::new();
    let mut lines = BTreeMap::new();
    s.push_str("#![allow(warnings)]\n#![recursion_limit=\"512\"]\n");
    for i in live {
        let ln = s.matches('\n').count() + 1;
        lines.insert(ln, *i);
        let _ = writeln!(s, "mod p{i} {{");
        s.push_str(rust[*i].as_ref().unwrap());
        let _ = writeln!(s, "\npub fn __run(__a: i32, __b: i32) -> i32 {{ f(__a, __b) }}\n}}");
        let _ = progs;
    }
    let ln = s.matches('\n').count() + 1;
    lines.insert(ln, usize::MAX);
    s.push_str(
        r#"
static CUR: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
fn main() {
    use std::io::Write;
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::spawn(|| { let mut last = 0; let mut n = 0; loop { std::thread::sleep(std::time::Duration::from_millis(250));
        let c = CUR.load(std::sync::atomic::Ordering::Relaxed); if c == last { n += 1; } else { n = 0; last = c; } if n > 32 { std::process::exit(97); } } });
    let t = std::fs::read_to_string(std::env::args().nth(1).unwrap()).unwrap();
    let h = std::thread::Builder::new().stack_size(256<<20).spawn(move || {
    for l in t.lines() {
        let v: Vec<i64> = l.split(' ').map(|x| x.parse().unwrap()).collect();
        CUR.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        print!("\x01{} {}\x02", v[0], v[1]);
        std::io::stdout().flush().unwrap();
        let r = std::panic::catch_unwind(|| run(v[0], v[2] as i32, v[3] as i32));
        match r {
            Ok(x) => print!("\x03V{}\n", x),
            Err(e) => print!("\x03P panicked: {}\n", e.downcast_ref::<String>().map(|s| s.replace('\n', " ")).or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()),
        }
    }
    std::io::stdout().flush().unwrap();
    }).unwrap(); h.join().unwrap();
}
fn run(i: i64, a: i32, b: i32) -> i32 { match i {
"#,
    );
    for i in live {
        let _ = writeln!(s, "{i} => p{i}::__run(a, b),");
    }
    s.push_str("_ => panic!(\"no such program\") } }\n");
    (s, lines)
}

/// Fold batch outcomes into the report.  Returns (ok, rejected, violations).
pub fn judge(rep: &mut Report, progs: &[Prog], outs: &[Outcome]) -> (usize, usize, usize) {
    use serde_json::json;
    let (mut ok, mut rej, mut bad) = (0, 0, 0);
    for (p, o) in progs.iter().zip(outs) {
        rep.states += 1;
        rep.evaluations += o.defined as u64;
        rep.transitions += o.defined as u64;
        match &o.verdict {
            Verdict::Ok => {
                ok += 1;
                rep.traces += o.defined as u64;
                rep.outcome_hash(o.hash);
                if ok % 997 == 1 {
                    rep.sample(format!("{} => agrees on {} inputs", p.c.replace('\n', " "), o.defined));
                }
            }
            Verdict::Vacuous => {
                rej += 1;
            }
            Verdict::OracleError(e) => {
                eprintln!("oracle could not judge {}: {}", p.key, e);
                rej += 1;
            }
            Verdict::Rejected(e) => {
                bad += 1;
                rep.violation(&p.key, &format!("decy rejects a program of the fragment: {e}"), json!({"c": p.c}));
            }
            Verdict::Panicked(e) => {
                bad += 1;
                rep.violation(&p.key, &format!("decy panics: {e}"), json!({"c": p.c}));
            }
            Verdict::NoCompile(e, r) => {
                bad += 1;
                rep.violation(&p.key, &format!("generated Rust does not compile: {e}"), json!({"c": p.c, "rust": r}));
            }
            Verdict::Differs { a, b, want, got, rust } => {
                bad += 1;
                rep.violation(
                    &p.key,
                    &format!("f({a}, {b}): C gives {want}, generated Rust gives {got}"),
                    json!({"c": p.c, "rust": rust, "a": a, "b": b, "want": want, "got": got}),
                );
            }
        }
    }
    let _ = std::io::stdout().flush();
    (ok, rej, bad)
}
