//! C11 and C12: `decy transpile-project` as a state machine over the real file tree.
//! A state is the whole tree (sources, outputs, cache); transitions are edits and runs of the real tool.
use crate::mainx::{decy_bin, run_limited};
use crate::report::*;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use std::process::Command;

pub type Tree = BTreeMap<String, Vec<u8>>;

pub fn put(dir: &Path, t: &Tree) {
    let _ = std::fs::remove_dir_all(dir);
    std::fs::create_dir_all(dir).unwrap();
    for (p, b) in t {
        let f = dir.join(p);
        std::fs::create_dir_all(f.parent().unwrap()).unwrap();
        std::fs::write(f, b).unwrap();
    }
}
pub fn take(dir: &Path) -> Tree {
    fn walk(d: &Path, rel: &str, t: &mut Tree) {
        let Ok(rd) = std::fs::read_dir(d) else { return };
        for e in rd.flatten() {
            let n = format!("{rel}{}", e.file_name().to_string_lossy());
            if e.path().is_dir() { walk(&e.path(), &format!("{n}/"), t); } else { t.insert(n, std::fs::read(e.path()).unwrap_or_default()); }
        }
    }
    let mut t = Tree::new();
    walk(dir, "", &mut t);
    t
}
/// Same tree up to the order of the keys of a JSON cache file.
fn canon(t: &Tree) -> Tree {
    t.iter().map(|(k, v)| {
        let v = if k.ends_with(".json") { serde_json::from_slice::<serde_json::Value>(v).map(|j| j.to_string().into_bytes()).unwrap_or(v.clone()) } else { v.clone() };
        (k.clone(), v)
    }).collect()
}
const CACHE: &str = "src/.decy/cache/cache.json";

const A0: &str = "#include \"h.h\"\nint fa(int x) { return x + K; }\n";
const A1: &str = "#include \"h.h\"\nint fa(int x) { return x - K; }\n";
const ABAD: &str = "int fa(int x) { return x +; }}\n";
const B0: &str = "#include \"../h.h\"\nint fb(int x) { return x * K; }\n";
const H0: &str = "#include \"inc/k.h\"\n#define K (1 + KK)\n";
const H1: &str = "#include \"inc/k.h\"\n#define K (2 + KK)\n";
const K0: &str = "#define KK 3\n";
const K1: &str = "#define KK 4\n";

fn start() -> Tree {
    [("src/a.c", A0), ("src/sub/b.c", B0), ("src/h.h", H0), ("src/inc/k.h", K0)].iter().map(|(p, s)| (p.to_string(), s.as_bytes().to_vec())).collect()
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Act {
    Write(&'static str, &'static str),
    Delete(&'static str),
    TruncateCache,
    Run(&'static str, &'static [&'static str]),
}
fn text(a: &Act) -> String {
    match a {
        Act::Write(p, s) => format!("write {p} <- {:?}", s.lines().last().unwrap_or("")),
        Act::Delete(p) => format!("delete {p}"),
        Act::TruncateCache => "truncate the cache file".into(),
        Act::Run(o, f) => format!("run -o {o} {}", f.join(" ")).trim().to_string(),
    }
}
fn acts(thorough: bool) -> Vec<Act> {
    let mut v = vec![
        Act::Run("out", &[]), Act::Run("out", &["--no-cache"]), Act::Run("out", &["--dry-run"]), Act::Run("out2", &[]),
        Act::Write("src/a.c", A0), Act::Write("src/a.c", A1), Act::Write("src/a.c", ABAD),
        Act::Write("src/h.h", H0), Act::Write("src/h.h", H1), Act::Delete("src/h.h"),
        Act::Write("src/inc/k.h", K0), Act::Write("src/inc/k.h", K1),
        Act::Delete("src/sub/b.c"), Act::Write("src/sub/b.c", B0),
        Act::Delete("out/a.rs"), Act::Write("out/a.rs", "garbage\n"),
        Act::TruncateCache, Act::Delete(CACHE),
    ];
    if thorough {
        v.extend([Act::Write(CACHE, "{}"), Act::Write(CACHE, "[1]"), Act::Delete("out/sub/b.rs"), Act::Delete("src/inc/k.h"), Act::Write("src/.decy/cache/cache.json.tmp", "{"), Act::Write("src/c.c", A0)]);
    }
    v
}

fn mutate(t: &Tree, a: &Act) -> Option<Tree> {
    let mut n = t.clone();
    match a {
        Act::Write(p, s) => {
            // overwriting needs an existing output or cache: those are made by runs only
            if (p.starts_with("out/") || *p == CACHE) && !t.contains_key(*p) { return None; }
            n.insert(p.to_string(), s.as_bytes().to_vec());
        }
        Act::Delete(p) => { n.remove(*p)?; }
        Act::TruncateCache => {
            let c = n.get_mut(CACHE)?;
            let half = c.len() / 2;
            c.truncate(half);
        }
        Act::Run(..) => return None,
    }
    if &n == t { None } else { Some(n) }
}

fn decy(dir: &Path, out: &str, flags: &[&str], env: &[(String, String)]) -> Result<std::process::Output, String> {
    let mut c = Command::new(decy_bin());
    c.current_dir(dir).args(["transpile-project", "src", "-o", out, "-q"]).args(flags);
    for (k, v) in env { c.env(k, v); }
    run_limited(&mut c, 60).ok_or_else(|| "does not end within 60 s".to_string())
}

/// What a clean run on these sources gives: Ok(outputs relative to the output directory) or Err.
type Clean = Result<Tree, ()>;
fn sources(t: &Tree) -> Tree {
    t.iter().filter(|(k, _)| k.starts_with("src/") && !k.contains(".decy/")).map(|(k, v)| (k.clone(), v.clone())).collect()
}
fn outputs(t: &Tree, out: &str) -> Tree {
    t.iter().filter_map(|(k, v)| k.strip_prefix(&format!("{out}/")).map(|k| (k.to_string(), v.clone()))).collect()
}
/// What a source file's name ends with.
const EXT: [&str; 5] = [".c", ".cpp", ".cc", ".cxx", ".cu"];
/// Where sources can lie; the last three are no sources.
const PLACES: [&str; 13] = ["a.c", "d/a.c", "d/e/f/g/h/i/a.c", "d/b.c", "x y/z.c", "v1.2.c", "m.cpp", "n.cc", "o.cxx", "p.cu", "a.c.bak", "d/readme.txt", "q.h"];

/// All small sets of source places, each run cold, again, after an edit, after an output is lost.
fn layouts(rep: &mut Report) {
    let all: Vec<usize> = (1usize..1 << 10).filter(|m| rep.thorough || m.count_ones() <= 2 || m.count_ones() >= 9).collect();
    let res = par_map(&all, |_, m| -> Vec<(String, String)> {
        let mut bad = vec![];
        let mut src = Tree::new();
        for (i, p) in PLACES.iter().enumerate() {
            if i >= 10 || m >> i & 1 == 1 { src.insert(format!("src/{p}"), format!("int f{i}(int x) {{ return x + {i}; }}\n").into_bytes()); }
        }
        let places: Vec<String> = src.keys().filter(|k| EXT.iter().any(|e| k.ends_with(e))).cloned().collect();
        let s = Scratch::new("lay");
        put(s.path(), &src);
        let mut step = |what: &str, edit: Option<(&str, Option<&str>)>| {
            if let Some((p, text)) = edit {
                let p = s.path().join(p);
                match text { Some(t) => std::fs::write(&p, t).unwrap(), None => { let _ = std::fs::remove_file(&p); } }
            }
            let before = take(s.path());
            let r = clean(&sources(&before)).and_then(|c| {
                let r = decy(s.path(), "out", &[], &[])?;
                judge(&before, &take(s.path()), r.status.success(), "out", &[], &c)
            });
            if let Err(e) = r { bad.push((format!("{} {what}", places.join(" ")), e)); }
        };
        step("first run", None);
        step("second run", None);
        let last = places.last().unwrap();
        step("after an edit", Some((last.as_str(), Some("int g(int x) { return x - 9; }\n"))));
        let out = format!("out/{}.rs", places[0].strip_prefix("src/").unwrap().rsplit_once('.').unwrap().0);
        step("after losing an output", Some((&out, None)));
        bad
    });
    for (m, bad) in all.iter().zip(res) {
        rep.states += 4;
        rep.evaluations += 4;
        rep.transitions += 4;
        rep.traces += 4;
        rep.outcome(&format!("layout {m}"));
        for (k, e) in bad { rep.violation(&format!("layout {k}"), &e, json!({})); }
    }
    rep.extra("layouts", json!(all.len()));
}

/// The clean result, file by file: what `decy transpile FILE` prints for each source.
fn clean(src: &Tree) -> Result<Clean, String> {
    let s = Scratch::new("clean");
    put(s.path(), src);
    let r = decy(s.path(), "out", &["--no-cache"], &[])?;
    let got = take(s.path());
    if sources(&got) != *src { return Err("a clean run changes the sources".into()); }
    if !r.status.success() { return Ok(Err(())); }
    let o = outputs(&got, "out");
    let mut want = Tree::new();
    for k in src.keys().filter(|k| EXT.iter().any(|e| k.ends_with(e))) {
        let x = run_limited(Command::new(decy_bin()).current_dir(s.path()).args(["transpile", k]), 60).ok_or("transpile does not end")?;
        if !x.status.success() { return Err(format!("a clean project run succeeds although `decy transpile {k}` fails")); }
        let rs = k.strip_prefix("src/").unwrap().rsplit_once('.').unwrap().0.to_string() + ".rs";
        want.insert(rs, x.stdout);
    }
    let strip = |t: &Tree| t.iter().map(|(k, v)| (k.clone(), String::from_utf8_lossy(v).trim_end().to_string())).collect::<BTreeMap<_, _>>();
    if strip(&want) != strip(&o) { return Err(format!("a clean project run does not give what `decy transpile` gives: {:?} / {:?}", strip(&o), strip(&want))); }
    Ok(Ok(o))
}

/// The judgement after a run on tree `before` leading to `after`.
fn judge(before: &Tree, after: &Tree, ok: bool, out: &str, flags: &[&str], clean: &Clean) -> Result<(), String> {
    if sources(before) != sources(after) { return Err("the run changes the sources".into()); }
    if flags.contains(&"--dry-run") {
        if before != after { return Err("a dry run changes files".into()); }
        return Ok(());
    }
    match clean {
        Err(()) => {
            if ok { return Err("the run succeeds although a clean run fails".into()); }
        }
        Ok(want) => {
            if !ok { return Err("the run fails although a clean run succeeds".into()); }
            let got = outputs(after, out);
            for (k, v) in want {
                match got.get(k) {
                    None => return Err(format!("{out}/{k} is missing after a successful run")),
                    Some(g) if g != v => return Err(format!("{out}/{k} is not what a clean run gives: {:?} instead of {:?}", String::from_utf8_lossy(g), String::from_utf8_lossy(v))),
                    _ => {}
                }
            }
            for (k, v) in &got {
                if !want.contains_key(k) && outputs(before, out).get(k) != Some(v) { return Err(format!("the run creates or changes {out}/{k}, which belongs to no source")); }
            }
        }
    }
    for (k, v) in before {
        if !k.starts_with(&format!("{out}/")) && !k.contains(".decy/") && after.get(k) != Some(v) { return Err(format!("the run changes {k}")); }
    }
    for k in after.keys() {
        if !before.contains_key(k) && !k.starts_with(&format!("{out}/")) && !k.contains(".decy/") { return Err(format!("the run creates {k}")); }
    }
    Ok(())
}

fn clean_memo(memo: &mut BTreeMap<Tree, Clean>, trees: &[Tree], rep: &mut Report) {
    let need: BTreeSet<Tree> = trees.iter().map(sources).filter(|s| !memo.contains_key(s)).collect();
    let need: Vec<Tree> = need.into_iter().collect();
    let r = par_map(&need, |_, s| clean(s));
    for (s, c) in need.into_iter().zip(r) {
        match c {
            Ok(c) => { memo.insert(s, c); }
            Err(e) => {
                rep.violation("clean run", &e, json!({"sources": show(&s)}));
                memo.insert(s, Err(()));
            }
        }
    }
}
fn show(t: &Tree) -> BTreeMap<String, String> { t.iter().map(|(k, v)| (k.clone(), String::from_utf8_lossy(v).to_string())).collect() }

pub fn run12(rep: &mut Report) {
    let acts = acts(rep.thorough);
    let cap = if rep.thorough { 5 } else { 3 };
    let mut memo: BTreeMap<Tree, Clean> = BTreeMap::new();
    let mut seen: BTreeSet<Tree> = BTreeSet::new();
    let s0 = start();
    seen.insert(s0.clone());
    let mut level: Vec<(Tree, Vec<String>)> = vec![(s0, vec![])];
    let t0 = std::time::Instant::now();
    let mut depth = 0;
    // an edit costs nothing, so a level is "any one edit or none, then a run", repeated
    while !level.is_empty() && depth < cap {
        depth += 1;
        let mut jobs: Vec<(Tree, Vec<String>, &'static str, &'static [&'static str])> = vec![];
        let mut pre: BTreeMap<Tree, Vec<String>> = BTreeMap::new();
        for (t, h) in &level {
            pre.entry(t.clone()).or_insert(h.clone());
            for a in &acts {
                if let Some(n) = mutate(t, a) {
                    rep.transitions += 1;
                    let mut h2 = h.clone();
                    h2.push(text(a));
                    pre.entry(n).or_insert(h2);
                }
            }
        }
        // two edits before the first run of the quick tier would double nothing new: edits commute with each other
        for (t, h) in pre {
            for a in &acts {
                if let Act::Run(o, f) = a {
                    let mut h2 = h.clone();
                    h2.push(text(a));
                    jobs.push((t.clone(), h2, o, f));
                }
            }
        }
        if !rep.thorough && depth == cap { jobs.retain(|j| j.3.is_empty() && j.2 == "out"); }
        let trees: Vec<Tree> = jobs.iter().map(|j| j.0.clone()).collect();
        clean_memo(&mut memo, &trees, rep);
        let res = par_map(&jobs, |_, (t, _, o, f)| -> Result<(Tree, bool, Tree), String> {
            let s = Scratch::new("proj");
            put(s.path(), t);
            let r = decy(s.path(), o, f, &[])?;
            let raw = take(s.path());
            Ok((canon(&raw), r.status.success(), raw))
        });
        let mut next = vec![];
        for ((t, h, o, f), r) in jobs.iter().zip(res) {
            rep.transitions += 1;
            rep.evaluations += 1;
            rep.traces += 1;
            match r {
                Err(e) => rep.violation(&h.join(", "), &e, json!({"before": show(t)})),
                Ok((a, ok, raw)) => {
                    // compare the raw trees, so that a dry run may not even touch the cache
                    let c = memo.get(&sources(t)).cloned().unwrap_or(Err(()));
                    if let Err(e) = judge(t, if f.contains(&"--dry-run") { &raw } else { &a }, ok, o, f, &c) {
                        rep.violation(&h.join(", "), &e, json!({"before": show(t), "after": show(&a)}));
                    }
                    rep.outcome(&format!("{:?} {ok}", show(&a)));
                    if rep.evaluations % 701 == 3 { rep.sample(h.join(", ")); }
                    if seen.insert(a.clone()) { next.push((a, h.clone())); }
                }
            }
        }
        eprintln!("depth {depth}: {} runs, {} new states, {:.0}s", jobs.len(), next.len(), t0.elapsed().as_secs_f64());
        level = next;
    }
    rep.states = seen.len() as u64;
    layouts(rep);
    rep.extra("depth", json!({"levels": depth, "fixpoint": level.is_empty()}));
    rep.rule("breadth-first search over file trees (2 sources in 2 directories, a header that includes a header, outputs, cache) from the clean project: each level is any one edit (versions of equal length, broken source, deletions, damaged/removed output or cache) or none, then one run (cached, --no-cache, --dry-run, second output directory) of the real tool; every run is judged against a clean run on the same sources, which is itself compared with `decy transpile` of every file; and sets of source places (directories up to 6 deep, 5 extensions, equal names in different directories, names with blanks and dots, files that are no sources), each run cold, again, after an edit and after losing an output");
}

const SHIM: &str = r#"
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <unistd.h>
/* Counts the calls that change files below FS_ROOT (relative paths count too); at call FS_AT it
   acts: kill (before the call), half (half of a write, then kill), after (kill after the call), fail (ENOSPC), short (half of a write, then ENOSPC). */
static long n = 0; static char mine[4096]; static int halfdone = 0;
static const char *mode(void) { return getenv("FS_MODE"); }
static long at(void) { const char *s = getenv("FS_AT"); return s ? atol(s) : -1; }
static void die(void) { kill(getpid(), SIGKILL); for (;;) pause(); }
static void note(const char *what, const char *path) {
  const char *l = getenv("FS_LOG"); if (!l) return;
  static int (*ro)(const char *, int, ...) ; if (!ro) ro = dlsym(RTLD_NEXT, "open64");
  static ssize_t (*rw)(int, const void *, size_t); if (!rw) rw = dlsym(RTLD_NEXT, "write");
  int fd = ro(l, O_WRONLY | O_CREAT | O_APPEND, 0644); if (fd < 0) return;
  char b[600]; int k = snprintf(b, sizeof b, "%ld %s %s\n", n, what, path); rw(fd, b, k); close(fd);
}
static int interesting(const char *p) {
  if (!p) return 0;
  if (p[0] != '/') return 1;
  const char *r = getenv("FS_ROOT");
  return r && strncmp(p, r, strlen(r)) == 0;
}
/* returns 1 when the call must fail, 2 when it must be done by half */
static int step(const char *what, const char *path, int is_write) {
  n++; note(what, path);
  if (n != at() || !mode()) return 0;
  const char *m = mode();
  if (!strcmp(m, "kill")) die();
  if (!strcmp(m, "fail")) return 1;
  if (is_write && (!strcmp(m, "half") || !strcmp(m, "short"))) return 2;
  if (!strcmp(m, "half")) die();
  if (!strcmp(m, "short")) return 1;
  return 0;
}
static void after(void) { if (n == at() && mode() && !strcmp(mode(), "after")) die(); }
static int openx(const char *name, const char *p, int fl, mode_t md) {
  int (*ro)(const char *, int, ...) = dlsym(RTLD_NEXT, name);
  int w = (fl & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) && interesting(p);
  if (!w) return ro(p, fl, md);
  if (step("open", p, 0) == 1) { errno = ENOSPC; return -1; }
  int fd = ro(p, fl, md);
  if (fd >= 0 && fd < 4096) mine[fd] = 1;
  after(); return fd;
}
int open(const char *p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = va_arg(a, int); va_end(a); return openx("open", p, fl, m); }
int open64(const char *p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = va_arg(a, int); va_end(a); return openx("open64", p, fl, m); }
int close(int fd) { static int (*rc)(int); if (!rc) rc = dlsym(RTLD_NEXT, "close"); if (fd >= 0 && fd < 4096) mine[fd] = 0; return rc(fd); }
ssize_t write(int fd, const void *b, size_t k) {
  static ssize_t (*rw)(int, const void *, size_t); if (!rw) rw = dlsym(RTLD_NEXT, "write");
  if (fd < 0 || fd >= 4096 || !mine[fd]) return rw(fd, b, k);
  if (halfdone) { halfdone = 0; errno = ENOSPC; return -1; }
  int s = step("write", "", 1);
  if (s == 1) { errno = ENOSPC; return -1; }
  if (s == 2) {
    if (k / 2) rw(fd, b, k / 2);
    if (!strcmp(mode(), "half")) die();
    if (!(k / 2)) { errno = ENOSPC; return -1; }
    halfdone = 1; return k / 2;
  }
  ssize_t r = rw(fd, b, k); after(); return r;
}
#define PATHCALL(ret, name, args, call, p) ret name args { static ret (*f) args; if (!f) f = dlsym(RTLD_NEXT, #name); if (!interesting(p)) return f call; if (step(#name, p, 0) == 1) { errno = ENOSPC; return -1; } ret r = f call; after(); return r; }
PATHCALL(int, rename, (const char *a, const char *b), (a, b), b)
PATHCALL(int, mkdir, (const char *a, mode_t m), (a, m), a)
PATHCALL(int, unlink, (const char *a), (a), a)
PATHCALL(int, link, (const char *a, const char *b), (a, b), b)
PATHCALL(int, symlink, (const char *a, const char *b), (a, b), b)
int fsync(int fd) { return 0; }
"#;

pub fn build_shim(dir: &Path) -> std::path::PathBuf {
    let c = dir.join("shim.c");
    let so = dir.join("shim.so");
    std::fs::write(&c, SHIM).unwrap();
    let o = Command::new("clang").args(["-shared", "-fPIC", "-O1", "-w", "-o"]).arg(&so).arg(&c).arg("-ldl").output().expect("clang");
    assert!(o.status.success(), "shim: {}", String::from_utf8_lossy(&o.stderr));
    so
}

fn faulty(dir: &Path, so: &Path, out: &str, mode: &str, at: u64, log: Option<&Path>) -> Result<std::process::Output, String> {
    let mut env = vec![
        ("LD_PRELOAD".to_string(), so.display().to_string()),
        ("FS_ROOT".to_string(), dir.display().to_string()),
        ("FS_MODE".to_string(), mode.to_string()),
        ("FS_AT".to_string(), at.to_string()),
    ];
    if let Some(l) = log { env.push(("FS_LOG".into(), l.display().to_string())); }
    decy(dir, out, &[], &env)
}

const MODES: [&str; 5] = ["kill", "half", "after", "fail", "short"];

pub fn run11(rep: &mut Report) {
    let sh = Scratch::new("shim");
    let so = build_shim(sh.path());
    // base states: every edit (or none) on the clean and on the built project, thorough: after one more run
    let mut bases: Vec<(Tree, String)> = vec![];
    let built = {
        let s = Scratch::new("proj");
        put(s.path(), &start());
        let _ = decy(s.path(), "out", &[], &[]);
        take(s.path())
    };
    bases.push((start(), "clean project".into()));
    bases.push((built.clone(), "built project".into()));
    for a in acts(rep.thorough) {
        if let Some(n) = mutate(&built, &a) { bases.push((n, format!("built, {}", text(&a)))); }
        if rep.thorough {
            if let Some(n) = mutate(&built, &a) {
                for b in acts(false) { if let Some(m) = mutate(&n, &b) { if m != built { bases.push((m, format!("built, {}, {}", text(&a), text(&b)))); } } }
            }
        }
    }
    let mut uniq = BTreeSet::new();
    bases.retain(|(t, _)| uniq.insert(canon(t)));
    let mut memo = BTreeMap::new();
    clean_memo(&mut memo, &bases.iter().map(|b| b.0.clone()).collect::<Vec<_>>(), rep);
    let mut seen: BTreeSet<Tree> = BTreeSet::new();
    let mut level: Vec<(Tree, String)> = bases;
    let rounds = if rep.thorough { 2 } else { 1 };
    for round in 0..rounds {
        // the file-changing calls of the undisturbed run
        let counts = par_map(&level, |_, (t, _)| {
            let s = Scratch::new("proj");
            let log = Scratch::new("log");
            put(s.path(), t);
            let l = log.path().join("log");
            let r = faulty(s.path(), &so, "out", "none", 0, Some(&l));
            (std::fs::read_to_string(l).unwrap_or_default().lines().map(|x| x.to_string()).collect::<Vec<_>>(), r.map(|r| r.status.success()).unwrap_or(false))
        });
        let mut jobs: Vec<(Tree, String, u64, &'static str)> = vec![];
        for ((t, h), (calls, _)) in level.iter().zip(&counts) {
            rep.outcome(&format!("{calls:?}"));
            for k in 1..=calls.len() as u64 {
                let is_write = calls[k as usize - 1].contains(" write ");
                for m in MODES {
                    if !is_write && (m == "half" || m == "short") { continue; }
                    jobs.push((t.clone(), format!("{h}; {m} at call {k} ({})", calls[k as usize - 1].split_once(' ').map(|x| x.1).unwrap_or("").trim()), k, m));
                }
            }
        }
        eprintln!("round {round}: {} base states, {} interrupted runs", level.len(), jobs.len());
        if let Some((t, h, ..)) = jobs.first() { rep.sample(format!("{h} {:?}", t.keys().collect::<Vec<_>>())); }
        // interrupted run, then a normal run
        let memo_ref = &memo;
        let res = par_map(&jobs, |_, (t, _, k, m)| -> Result<(Tree, Tree), String> {
            let s = Scratch::new("proj");
            put(s.path(), t);
            let r = faulty(s.path(), &so, "out", m, *k, None)?;
            let mid = take(s.path());
            if sources(&mid) != sources(t) { return Err("the interrupted run changes the sources".into()); }
            let killed = matches!(*m, "kill" | "half" | "after");
            let c = memo_ref.get(&sources(t)).cloned().unwrap_or(Err(()));
            if !killed && r.status.success() {
                // a failed call may be tolerated, but then the result has to be complete
                judge(t, &mid, true, "out", &[], &c).map_err(|e| format!("a run with a failing call reports success, but {e}"))?;
            }
            if !killed && r.status.code().is_none() { return Err("a run with a failing call dies by a signal".into()); }
            if !killed && r.status.code() == Some(101) { return Err("a run with a failing call panics".into()); }
            let r2 = decy(s.path(), "out", &[], &[])?;
            let end = take(s.path());
            judge(&mid, &end, r2.status.success(), "out", &[], &c).map_err(|e| format!("after the interruption the next run does not recover: {e}"))?;
            Ok((mid, end))
        });
        let mut next = vec![];
        for ((t, h, ..), r) in jobs.iter().zip(res) {
            rep.transitions += 2;
            rep.evaluations += 1;
            rep.traces += 1;
            match r {
                Err(e) => rep.violation(h, &e, json!({"before": show(t)})),
                Ok((mid, end)) => {
                    rep.outcome(&format!("{:?}", show(&canon(&mid))));
                    seen.insert(canon(&end));
                    if seen.insert(canon(&mid)) { next.push((mid, h.clone())); }
                }
            }
        }
        level = next;
    }
    rep.states = seen.len() as u64;
    rep.rule("from the clean project and the built project after every edit: every file-changing call (open for writing, write, mkdir, rename, unlink) of a run is enumerated and the run is killed before it, after it or half way through a write, or the call fails with ENOSPC, or a write is cut short and then fails; thorough: a second interruption of the next run at every call. An undisturbed run follows: it must succeed exactly when a clean run does and leave exactly the clean outputs; a run that reports success under a failing call must have complete outputs");
}
