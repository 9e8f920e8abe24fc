//! C14: a source file and its headers mean what the C preprocessor makes of them.
use crate::diffx::*;
use crate::report::*;
use std::collections::BTreeMap;
use std::path::Path;
use std::process::Command;

const LAYOUTS: [(&str, [&str; 4]); 4] = [
    ("flat", ["a.c", "h1.h", "h2.h", "h3.h"]),
    ("dirs", ["src/a.c", "inc/h1.h", "inc/sub/h2.h", "src/h3.h"]),
    ("same", ["a.c", "h.h", "x/h.h", "x/y/h.h"]),
    ("deep", ["p/q/a.c", "h1.h", "p/h2.h", "p/q/r/h3.h"]),
];

/// Relative spelling of `to` as seen from the directory of `from`; style 1 adds `./`, style 2 a detour.
fn rel(from: &str, to: &str, style: usize) -> String {
    let f: Vec<&str> = from.split('/').collect();
    let t: Vec<&str> = to.split('/').collect();
    let fd = &f[..f.len() - 1];
    let mut c = 0;
    while c < fd.len() && c < t.len() - 1 && fd[c] == t[c] { c += 1; }
    let mut r: Vec<String> = vec!["..".to_string(); fd.len() - c];
    r.extend(t[c..].iter().map(|s| s.to_string()));
    let plain = r.join("/");
    match style {
        1 => format!("./{plain}"),
        2 => if fd.is_empty() { plain } else { format!("../{}/{plain}", fd[fd.len() - 1]) },
        _ => plain,
    }
}

/// The include directive itself, in several spellings.
fn line(path: &str, style: usize) -> String {
    match style {
        3 => format!("# include \"{path}\" // see \"x.h\"\n"),
        4 => format!("/* \"x.h\" */ #\tinclude /* it's */\t\"{path}\" /* two\n#include \"x.h\"\nlines */\n"),
        5 => format!("/* two\n#include \"x.h\"\nlines */ #include\"{path}\"\n#include <limits.h> // not \"x.h\"\n"),
        6 => format!("// /*\n   #include   \"{path}\"   \r\n// */ #include \"x.h\"\n"),
        _ => format!("#include \"{path}\"\n"),
    }
}

pub type Files = BTreeMap<String, String>;

/// inc[i] = ordered list of headers (1..3) included by file i (0 = a.c).
fn build(lay: usize, guard: usize, style: usize, at_end: bool, inc: &[Vec<usize>; 4]) -> Option<Files> {
    let names = LAYOUTS[lay].1;
    // the files reached
    let mut reach = vec![false; 4];
    reach[0] = true;
    loop {
        let mut ch = false;
        for i in 0..4 { if reach[i] { for j in &inc[i] { if !reach[*j] { reach[*j] = true; ch = true; } } } }
        if !ch { break; }
    }
    let mut m = Files::new();
    for i in 1..4 {
        if !reach[i] { continue; }
        let incs: String = inc[i].iter().map(|j| line(&rel(names[i], names[*j], style), style)).collect();
        let body = format!("struct S{i} {{ int a; int b; }};\nenum E{i} {{ P{i} = {}, Q{i} }};\n#define M{i} ({} + 1)\nint v{i}(int x) {{ struct S{i} s; s.a = x; s.b = M{i}; return s.a - s.b * Q{i}; }}\n", i * 5, i * 7);
        let inner = if at_end { format!("{body}{incs}") } else { format!("{incs}{body}") };
        let g = format!("GUARD_{i}_H");
        let t = match guard {
            0 => format!("#ifndef {g}\n#define {g}\n{inner}#endif\n"),
            1 => format!("// header {i}\n#if !defined({g})\n#define {g} 1\n{inner}#endif /* {g} */\n"),
            2 => format!("#pragma once\n{inner}"),
            _ => inner,
        };
        m.insert(names[i].into(), t);
    }
    let mut a: String = inc[0].iter().map(|j| line(&rel(names[0], names[*j], style), style)).collect();
    a += "int f(int a, int b) {\n    int r = a - b;\n";
    for i in 1..4 { if reach[i] { a += &format!("    r = r ^ v{i}(a + {i}) ^ (b & P{i});\n"); } }
    a += "    return r;\n}\n";
    m.insert(names[0].into(), a);
    Some(m)
}

fn write(dir: &Path, f: &Files) {
    for (p, t) in f {
        let p = dir.join(p);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, t).unwrap();
    }
}
fn main_of(f: &Files) -> &str { f.keys().find(|k| k.ends_with("a.c")).unwrap() }

fn flatten(f: &Files) -> Option<String> {
    let s = Scratch::new("c14");
    write(s.path(), f);
    let o = Command::new("clang").current_dir(s.path()).args(["-E", "-P", main_of(f)]).output().ok()?;
    o.status.success().then(|| String::from_utf8_lossy(&o.stdout).to_string())
}

fn file_api(p: &Prog) -> Result<String, String> {
    let f: Files = serde_json::from_str(&p.c).unwrap();
    let s = Scratch::new("c14");
    write(s.path(), &f);
    let path = s.path().join(main_of(&f));
    decy_core::transpile_file(&path, &decy_core::ProjectContext::new()).map(|t| t.rust_code).map_err(|e| format!("{e:#}"))
}

fn subsets(v: &[usize]) -> Vec<Vec<usize>> {
    (0..1 << v.len()).map(|m: usize| v.iter().enumerate().filter(|(k, _)| m >> k & 1 == 1).map(|x| *x.1).collect()).collect()
}

pub fn files(thorough: bool) -> Vec<(String, Files)> {
    let mut out = vec![];
    let tops: Vec<Vec<usize>> = vec![vec![1], vec![2], vec![3], vec![1, 2], vec![2, 1], vec![1, 3], vec![3, 1], vec![2, 3], vec![3, 2], vec![1, 2, 3], vec![3, 2, 1], vec![2, 3, 1], vec![1, 1], vec![2, 1, 2]];
    for lay in 0..4 {
        for guard in 0..4 {
            for style in 0..7 {
                for at_end in [false, true] {
                    for (ti, top) in tops.iter().enumerate() {
                        for s1 in subsets(&[1, 2, 3]) { for s2 in subsets(&[3, 1, 2]) { for s3 in subsets(&[1, 2, 3]) {
                            let inc = [top.clone(), s1.clone(), s2.clone(), s3.clone()];
                            let selfs = s1.contains(&1) || s2.contains(&2) || s3.contains(&3);
                            let edges = s1.len() + s2.len() + s3.len();
                            // unguarded headers: only where no file is reached twice
                            if guard == 3 && !tree(&inc) { continue; }
                            if !thorough {
                                let base = lay == 2 && guard == 0 && style == 0 && !at_end;
                                if selfs && !(base && edges <= 2) { continue; }
                                if edges > 3 && !base { continue; }
                                if !base && ti % 5 != 0 { continue; }
                                if style > 2 && (lay % 2 == 0 || guard > 0 || at_end || edges > 2) { continue; }
                                if style > 0 && (at_end || guard > 0 && lay != 1) { continue; }
                                if base && edges > 4 && ti % 4 != 0 { continue; }
                            } else if selfs && edges > 4 || style > 2 && edges > 4 { continue; }
                            // unreached headers make no difference
                            let key = format!("{} guard{guard} style{style}{} {:?}", LAYOUTS[lay].0, if at_end { " end" } else { "" }, inc);
                            if let Some(f) = build(lay, guard, style, at_end, &inc) { out.push((key, f)); }
                        }}}
                    }
                }
            }
        }
    }
    let mut seen = std::collections::BTreeSet::new();
    out.retain(|(_, f)| seen.insert(f.clone()));
    out
}
/// Is every file reached exactly once?
fn tree(inc: &[Vec<usize>; 4]) -> bool {
    let mut n = [0; 4];
    fn go(i: usize, inc: &[Vec<usize>; 4], n: &mut [i32; 4], d: usize) -> bool {
        if d > 4 { return false; }
        n[i] += 1;
        inc[i].iter().all(|j| go(*j, inc, n, d + 1))
    }
    go(0, inc, &mut n, 0) && n.iter().all(|k| *k <= 1)
}

pub fn run(rep: &mut Report) {
    let fs = files(rep.thorough);
    eprintln!("projects {}", fs.len());
    let flat = par_map(&fs, |_, (_, f)| flatten(f));
    let names: Vec<String> = ["f".to_string()].into_iter().chain((1..4).flat_map(|i| ["S", "E", "P", "Q", "v"].iter().map(move |n| format!("{n}{i}")))).collect();
    let args = std::sync::Arc::new(vec![(0, 0), (5, -3), (-7, 12)]);
    let progs: Vec<Prog> = fs.iter().zip(flat).filter_map(|((k, f), c)| {
        let c = c?;
        Some(Prog { key: k.clone(), c: serde_json::to_string(f).unwrap(), oracle: Some(c), names: names.clone(), args: args.clone(), prints: false })
    }).collect();
    rep.extra("rejected_by_the_reference", (fs.len() - progs.len()).into());
    // with any one reached header missing, transpiling is an error
    let gone: Vec<(String, Files)> = fs.iter().filter(|(k, _)| rep.thorough || k.contains("style0") && !k.contains(" end")).flat_map(|(k, f)| f.keys().filter(|n| n.ends_with(".h")).map(|n| { let mut g = f.clone(); g.remove(n); (format!("{k} without {n}"), g) }).collect::<Vec<_>>()).collect();
    let ok = par_map(&gone, |_, (_, f)| {
        let p = Prog { key: String::new(), c: serde_json::to_string(f).unwrap(), oracle: None, names: vec![], args: Default::default(), prints: false };
        guard(|| file_api(&p).is_err())
    });
    for ((k, f), r) in gone.iter().zip(ok) {
        rep.states += 1;
        rep.evaluations += 1;
        if r != Ok(true) { rep.violation(k, &match r { Ok(_) => "transpiling succeeds although an included header does not exist".to_string(), Err(e) => format!("panic: {e}") }, serde_json::json!({"files": f})); }
    }
    let outs = run_batch(&progs, &file_api);
    judge(rep, &progs, &outs);
    rep.rule("every include relation over a source and 3 headers (cycles, self includes, repeated includes, header includes before or after its body) x 4 directory layouts (same names in different directories, parent directories) x 4 guard styles x 3 path spellings and 4 further spellings of the directive (spaced #, comments before, inside and after it, directives inside comments), within the edge bound; and every one of these projects with any one header missing (must be an error); reference: the same files through clang's preprocessor, compiled with UBSan");
}
