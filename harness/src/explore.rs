//! Development aid: run ad-hoc programs from a file (separated by lines of `---`).
use crate::diffx::*;
use std::sync::Arc;
pub fn std_args() -> Arc<Vec<(i32, i32)>> {
    let v = [0, 1, -1, 2, 3, 7, 100, -8, 255, i32::MAX, i32::MIN];
    let mut r = vec![];
    for a in v { for b in v { r.push((a, b)); } }
    Arc::new(r)
}
pub fn run(a: &[String]) {
    let t = std::fs::read_to_string(&a[0]).unwrap();
    let mut progs = vec![];
    for (i, c) in t.split("\n---\n").enumerate() {
        let mut names: Vec<String> = vec!["f".into()];
        for l in c.lines() { if let Some(n) = l.strip_prefix("//names:") { names.extend(n.split_whitespace().map(|s| s.to_string())); } }
        let c: String = c.lines().filter(|l| !l.starts_with("//names:")).collect::<Vec<_>>().join("\n");
        progs.push(Prog { key: format!("{i}"), oracle: None, c, names, args: std_args(), prints: true });
    }
    let o = run_batch(&progs, &default_transpile);
    for (p, o) in progs.iter().zip(&o) {
        println!("=== {} defined={}\n{}\n--> {:?}", p.key, o.defined, p.c, match &o.verdict { Verdict::Differs{a,b,want,got,..} => format!("DIFF f({a},{b}) want {want} got {got}"), Verdict::NoCompile(m,_) => format!("NOCOMPILE {m}"), v => format!("{v:?}") });
        if a.len() > 1 || !matches!(o.verdict, Verdict::Ok) { println!("--- rust\n{}", o.rust.as_deref().unwrap_or("")); }
    }
}
