//! Whole-program differential engine: C programs with `main`, compiled by clang (UBSan traps)
//! and, after the real `decy transpile` command, by rustc; stdout bytes and exit status compared.
use crate::report::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub struct MProg {
    pub key: String,
    pub c: String,
    pub args: Vec<String>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct MObs {
    pub out: Vec<u8>,
    pub code: i32,
}
#[derive(Clone, Debug)]
pub enum MVerdict {
    Ok(MObs),
    Undefined,
    OracleError(String),
    Rejected(String),
    NoCompile(String, String),
    Differs { want: MObs, got: String, rust: String },
}

pub fn decy_bin() -> PathBuf {
    std::env::current_exe().unwrap().with_file_name("decy")
}

/// Run a command with a wall-clock limit; None = killed by the limit.
pub fn run_limited(cmd: &mut Command, secs: u64) -> Option<std::process::Output> {
    let mut ch = cmd.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().expect("spawn");
    let mut so = ch.stdout.take().unwrap();
    let mut se = ch.stderr.take().unwrap();
    use std::io::Read;
    let t1 = std::thread::spawn(move || { let mut v = vec![]; let _ = so.read_to_end(&mut v); v });
    let t2 = std::thread::spawn(move || { let mut v = vec![]; let _ = se.read_to_end(&mut v); v });
    let t0 = std::time::Instant::now();
    let mut wait = 200u64;
    loop {
        if let Some(st) = ch.try_wait().expect("wait") {
            return Some(std::process::Output { status: st, stdout: t1.join().unwrap(), stderr: t2.join().unwrap() });
        }
        if t0.elapsed().as_secs() >= secs {
            let _ = ch.kill();
            let _ = ch.wait();
            return None;
        }
        std::thread::sleep(std::time::Duration::from_micros(wait));
        wait = (wait * 3 / 2).min(20000);
    }
}

/// Compile `mods` (index, source) as modules of one binary; returns indices that do not
/// compile with a message.  The binary runs module k's `main` for argv[1] = k.
pub fn compile_mods(dir: &Path, exe: &Path, mods: &BTreeMap<usize, String>) -> BTreeMap<usize, String> {
    let mut live: BTreeSet<usize> = mods.keys().cloned().collect();
    let mut bad_all = BTreeMap::new();
    loop {
        if live.is_empty() {
            return bad_all;
        }
        let mut s = String::from("#![allow(warnings)]\n");
        let mut lines = BTreeMap::new();
        for i in &live {
            lines.insert(s.matches('\n').count() + 1, *i);
            let _ = writeln!(s, "mod p{i} {{\n{}\npub fn __run() {{ main(); }}\n}}", mods[i]);
        }
        lines.insert(s.matches('\n').count() + 1, usize::MAX);
        s.push_str("fn main() { let k: usize = std::env::var(\"MC_K\").unwrap().parse().unwrap(); match k {\n");
        for i in &live {
            let _ = writeln!(s, "{i} => p{i}::__run(),");
        }
        s.push_str("_ => std::process::abort() } }\n");
        let rf = dir.join("m.rs");
        std::fs::write(&rf, &s).unwrap();
        let o = Command::new("rustc")
            .args(["--edition", "2021", "--crate-type", "bin", "-C", "opt-level=0", "-C", "debuginfo=0", "-C", "overflow-checks=on", "-C", "codegen-units=1", "--error-format=json", "-A", "warnings", "--cap-lints", "allow"])
            .arg(&rf).arg("-o").arg(exe).current_dir(dir).output().expect("rustc");
        if o.status.success() {
            return bad_all;
        }
        let err = String::from_utf8_lossy(&o.stderr).to_string();
        let mut bad: BTreeMap<usize, String> = BTreeMap::new();
        for l in err.lines() {
            let Ok(v) = serde_json::from_str::<serde_json::Value>(l) else { continue };
            if v["level"] != "error" { continue; }
            let msg = v["message"].as_str().unwrap_or("").to_string();
            for sp in v["spans"].as_array().cloned().unwrap_or_default() {
                if let Some(n) = sp["line_start"].as_u64() {
                    if let Some((_, i)) = lines.range(..=(n as usize)).next_back() {
                        if *i != usize::MAX { bad.entry(*i).or_insert_with(|| msg.clone()); }
                    }
                }
            }
        }
        if bad.is_empty() {
            // not attributable by line (e.g. an unbalanced brace): judge one by one
            if live.len() == 1 {
                bad.insert(*live.iter().next().unwrap(), err.chars().take(600).collect());
            } else {
                for i in live.clone() {
                    let one: BTreeMap<usize, String> = [(i, mods[&i].clone())].into();
                    if let Some((_, m)) = compile_mods(dir, &dir.join("one"), &one).into_iter().next() {
                        bad.insert(i, m);
                    }
                }
                if bad.is_empty() { bad.insert(*live.iter().next().unwrap(), err.chars().take(600).collect()); }
            }
        }
        for (i, m) in bad {
            live.remove(&i);
            bad_all.insert(i, m);
        }
    }
}

pub fn run_mains(progs: &[MProg]) -> Vec<MVerdict> {
    let chunk = (progs.len() / 16 + 1).clamp(10, 150);
    let chunks: Vec<&[MProg]> = progs.chunks(chunk).collect();
    par_map(&chunks, |_, ch| run_mchunk(ch)).into_iter().flatten().collect()
}

fn run_mchunk(progs: &[MProg]) -> Vec<MVerdict> {
    let sc = Scratch::new("mx");
    let dir = sc.path();
    let mut v: Vec<Option<MVerdict>> = progs.iter().map(|_| None).collect();
    let mut want: Vec<Option<MObs>> = progs.iter().map(|_| None).collect();
    let mut mods = BTreeMap::new();
    for (i, p) in progs.iter().enumerate() {
        let cf = dir.join(format!("p{i}.c"));
        std::fs::write(&cf, &p.c).unwrap();
        let ce = dir.join(format!("p{i}.exe"));
        let o = Command::new("clang")
            .args(["-std=gnu11", "-O0", "-w", "-fsanitize=undefined", "-fsanitize-trap=all", "-fno-sanitize=alignment,function"])
            .arg(&cf).arg("-lm").arg("-o").arg(&ce).output().expect("clang");
        if !o.status.success() {
            v[i] = Some(MVerdict::OracleError(String::from_utf8_lossy(&o.stderr).chars().take(500).collect()));
            continue;
        }
        match run_limited(Command::new(&ce).args(&p.args), 5) {
            Some(o) if o.status.code().is_some() => want[i] = Some(MObs { out: o.stdout, code: o.status.code().unwrap() }),
            _ => {
                v[i] = Some(MVerdict::Undefined);
                continue;
            }
        }
        let _ = std::fs::remove_file(&ce);
        let ro = dir.join(format!("p{i}.rs"));
        let o = run_limited(Command::new(decy_bin()).arg("transpile").arg(&cf).arg("-o").arg(&ro), 60);
        match o {
            Some(o) if o.status.success() => match std::fs::read_to_string(&ro) {
                Ok(r) => { mods.insert(i, r); }
                Err(e) => v[i] = Some(MVerdict::Rejected(format!("exit 0 but no readable output: {e}"))),
            },
            Some(o) => v[i] = Some(MVerdict::Rejected(format!("{:?}: {}", o.status, String::from_utf8_lossy(&o.stderr).chars().take(400).collect::<String>()))),
            None => v[i] = Some(MVerdict::Rejected("decy did not finish in 60 s".into())),
        }
    }
    let exe = dir.join("rexe");
    let bad = compile_mods(dir, &exe, &mods);
    for (i, m) in &bad {
        v[*i] = Some(MVerdict::NoCompile(m.clone(), mods[i].clone()));
    }
    for (i, p) in progs.iter().enumerate() {
        if v[i].is_some() { continue; }
        let w = want[i].clone().unwrap();
        let got = run_limited(Command::new(&exe).env("MC_K", i.to_string()).args(&p.args), 10);
        v[i] = Some(match got {
            Some(o) if o.status.code() == Some(w.code) && o.stdout == w.out => MVerdict::Ok(w),
            Some(o) => MVerdict::Differs { want: w, got: format!("stdout={:?} status={:?} stderr={:?}", String::from_utf8_lossy(&o.stdout), o.status, String::from_utf8_lossy(&o.stderr).chars().take(200).collect::<String>()), rust: mods[&i].clone() },
            None => MVerdict::Differs { want: w, got: "did not finish in 10 s".into(), rust: mods[&i].clone() },
        });
    }
    v.into_iter().map(|x| x.unwrap()).collect()
}

pub fn judge(rep: &mut Report, progs: &[MProg], vs: &[MVerdict]) {
    use serde_json::json;
    let mut ok = 0u64;
    for (p, v) in progs.iter().zip(vs) {
        rep.states += 1;
        rep.transitions += 1;
        rep.evaluations += 1;
        match v {
            MVerdict::Ok(o) => {
                ok += 1;
                rep.traces += 1;
                rep.outcome(&format!("{o:?}"));
                if ok % 401 == 1 { rep.sample(format!("{} => exit {} stdout {:?}", p.c.replace('\n', " "), o.code, String::from_utf8_lossy(&o.out))); }
            }
            MVerdict::Undefined => {}
            MVerdict::OracleError(e) => eprintln!("oracle could not judge {}: {e}", p.key),
            MVerdict::Rejected(e) => rep.violation(&p.key, &format!("decy rejects a program of the fragment: {e}"), json!({"c": p.c})),
            MVerdict::NoCompile(e, r) => rep.violation(&p.key, &format!("generated Rust does not compile: {e}"), json!({"c": p.c, "rust": r})),
            MVerdict::Differs { want, got, rust } => rep.violation(
                &p.key,
                &format!("C: stdout={:?} exit={} ; generated Rust: {got}", String::from_utf8_lossy(&want.out), want.code),
                json!({"c": p.c, "rust": rust, "want_code": want.code, "want_stdout": String::from_utf8_lossy(&want.out), "got": got}),
            ),
        }
    }
    if ok == 0 {
        rep.violation("nothing-judged", "no program of the fragment was judged", json!({}));
    }
}
