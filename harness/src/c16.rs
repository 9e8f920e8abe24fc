//! C16: the unsafe audit finds every unsafe block and function, wherever it stands, and nothing else.
//! Programs are built so that the number of unsafe blocks and functions is known by construction.
use crate::mainx::{decy_bin, run_limited};
use crate::report::*;
use decy_verify::{audit_rust_code, UnsafeAuditor, UnsafePattern};
use serde_json::json;
use std::process::Command;

/// Contexts around an expression hole `@`; each adds the given number of unsafe constructs.
const EXPR: [(&str, &str, usize); 30] = [
    ("let", "{ let a = @; a }", 0),
    ("statement", "{ @; 0 }", 0),
    ("binary", "(1 + @)", 0),
    ("unary", "(-@)", 0),
    ("call", "g(@, 0)", 0),
    ("method", "v.m(@)", 0),
    ("receiver", "(@).m(1)", 0),
    ("index", "v[@]", 0),
    ("array", "[@, 1]", 0),
    ("tuple", "(1, @)", 0),
    ("struct", "P { a: @, b: 1 }", 0),
    ("reference", "&mut @", 0),
    ("cast", "(@ as i64)", 0),
    ("if test", "if (@) > 0 { 1 } else { 2 }", 0),
    ("then", "if c { @ } else { 2 }", 0),
    ("else", "if c { 1 } else if d { 2 } else { @ }", 0),
    ("match value", "match (@) { 0 => 1, _ => 2 }", 0),
    ("arm", "match c { true => @, _ => 2 }", 0),
    ("arm guard", "match c { true if (@) > 1 => 1, _ => 2 }", 0),
    ("loop", "loop { break @; }", 0),
    ("while", "{ while (@) > 0 { } 1 }", 0),
    ("for", "{ for _ in 0..@ { } 1 }", 0),
    ("closure", "(|| @)()", 0),
    ("return", "{ return @; }", 0),
    ("println", "{ println!(\"{} {}\", 1, @); 0 }", 0),
    ("format", "format!(\"{}\", @)", 0),
    ("vec", "vec![1, @]", 0),
    ("assert", "{ assert_eq!(@, 1); 0 }", 0),
    ("named argument", "format!(\"{k}\", k = @)", 0),
    ("unsafe", "unsafe { @ }", 1),
];
/// Contexts around a block hole: where the function body stands.
const ITEM: [(&str, &str, usize); 16] = [
    ("function", "fn f() -> i32 { @ }", 0),
    ("public", "pub fn f(x: i32) -> i32 { @ }", 0),
    ("unsafe function", "unsafe fn f() -> i32 { @ }", 1),
    ("unsafe extern function", "pub unsafe extern \"C\" fn f() -> i32 { @ }", 1),
    ("method", "struct Q; impl Q { fn f(&self) -> i32 { @ } }", 0),
    ("unsafe method", "struct Q; impl Q { pub unsafe fn f(&mut self) -> i32 { @ } }", 1),
    ("trait default", "trait R { fn f(&self) -> i32 { @ } }", 0),
    ("unsafe trait default", "trait R { unsafe fn f(&self) -> i32 { @ } }", 1),
    ("trait impl", "impl R for Q { fn f(&self) -> i32 { @ } }", 0),
    ("unsafe trait impl method", "impl R for Q { unsafe fn f(&self) -> i32 { @ } }", 1),
    ("module", "mod m { mod n { fn f() -> i32 { @ } } }", 0),
    ("module unsafe", "mod m { impl Q { unsafe fn f() -> i32 { @ } } }", 1),
    ("nested function", "fn f() { fn g() -> i32 { @ } g(); }", 0),
    ("nested unsafe function", "fn f() { unsafe fn g() -> i32 { @ } }", 1),
    ("constant", "const K: i32 = { @ };", 0),
    ("static", "static mut G: i32 = { @ };", 0),
];
/// Leaves: text, unsafe constructs, pattern of the block when it is one.
fn leaves() -> Vec<(&'static str, &'static str, usize, Option<UnsafePattern>)> {
    vec![
        ("safe", "7", 0, None),
        ("string", "(\"unsafe { 1 }\").len()", 0, None),
        ("raw string", "(r#\"unsafe fn g() { unsafe { } }\"#).len()", 0, None),
        ("comment", "/* unsafe { 1 } */ 7 // unsafe { 2 }\n", 0, None),
        ("identifier", "unsafe_thing(not_unsafe)", 0, None),
        ("raw identifier", "r#unsafe", 0, None),
        ("block", "unsafe { COUNT }", 1, Some(UnsafePattern::Other)),
        ("empty block", "unsafe { }", 1, Some(UnsafePattern::Other)),
        ("assignment", "unsafe { COUNT = COUNT + 1; COUNT }", 1, Some(UnsafePattern::Other)),
        ("ptr read", "unsafe { std::ptr::read(p) }", 1, Some(UnsafePattern::RawPointerDeref)),
        ("null_mut", "unsafe { let ptr = std::ptr::null_mut::<i32>(); *ptr }", 1, Some(UnsafePattern::RawPointerDeref)),
        ("deref ptr", "unsafe { *ptr }", 1, Some(UnsafePattern::RawPointerDeref)),
        ("transmute", "unsafe { std::mem::transmute::<f32, i32>(1.0) }", 1, Some(UnsafePattern::Transmute)),
        ("asm", "unsafe { std::arch::asm!(\"nop\"); 1 }", 1, Some(UnsafePattern::Assembly)),
        ("two", "(unsafe { A } + unsafe { B })", 2, None),
        ("nested", "unsafe { unsafe { B } }", 2, None),
        ("closure inside", "unsafe { (|| unsafe { A })() }", 2, None),
    ]
}
fn confidence(p: &UnsafePattern) -> u8 {
    match p { UnsafePattern::RawPointerDeref => 85, UnsafePattern::Transmute => 40, UnsafePattern::Assembly => 15, UnsafePattern::FfiCall => 30, _ => 50 }
}

fn check(code: &str, n: usize, patterns: Option<&[UnsafePattern]>, used: &mut UnsafeAuditor) -> Result<(), String> {
    let r = audit_rust_code(code).map_err(|e| format!("the audit fails: {e:#}"))?;
    if r.unsafe_blocks.len() != n { return Err(format!("{} unsafe blocks and functions reported instead of {n}", r.unsafe_blocks.len())); }
    if r.total_lines != code.lines().count() { return Err(format!("total_lines is {}", r.total_lines)); }
    if (r.unsafe_lines == 0) != (n == 0) { return Err(format!("unsafe_lines is {} with {n} unsafe blocks", r.unsafe_lines)); }
    let d = if r.total_lines > 0 { r.unsafe_lines as f64 / r.total_lines as f64 * 100.0 } else { 0.0 };
    if (d - r.unsafe_density_percent).abs() > 1e-9 || r.meets_density_target() != (d < 5.0) { return Err(format!("the density is {} for {} of {} lines, target met: {}", r.unsafe_density_percent, r.unsafe_lines, r.total_lines, r.meets_density_target())); }
    let avg = if n == 0 { 0.0 } else { r.unsafe_blocks.iter().map(|b| b.confidence as f64).sum::<f64>() / n as f64 };
    if (avg - r.average_confidence).abs() > 1e-9 { return Err(format!("the average confidence is {} instead of {avg}", r.average_confidence)); }
    let high = r.unsafe_blocks.iter().filter(|b| b.confidence >= 70).count();
    if r.high_confidence_blocks().len() != high { return Err(format!("{} high confidence blocks instead of {high}", r.high_confidence_blocks().len())); }
    if r.unsafe_blocks.iter().any(|b| b.confidence > 100 || b.suggestion.is_empty()) { return Err("a block without suggestion or with a confidence above 100".into()); }
    if let Some(p) = patterns {
        let mut got: Vec<String> = r.unsafe_blocks.iter().map(|b| format!("{:?}", b.pattern)).collect();
        let mut want: Vec<String> = p.iter().map(|b| format!("{b:?}")).collect();
        got.sort();
        want.sort();
        if got != want { return Err(format!("the blocks are classified {got:?} instead of {want:?}")); }
        for b in &r.unsafe_blocks { if b.suggestion.contains("Unsafe function") { continue; } if b.confidence != confidence(&b.pattern) { return Err(format!("confidence {} for {:?}", b.confidence, b.pattern)); } }
    }
    // the same through an auditor that has seen other files
    let u = used.audit(code).map_err(|e| format!("a used auditor fails: {e:#}"))?;
    if u.unsafe_blocks != r.unsafe_blocks || u.unsafe_lines != r.unsafe_lines || u.total_lines != r.total_lines { return Err(format!("a used auditor reports {} blocks and {} lines instead of {} and {}", u.unsafe_blocks.len(), u.unsafe_lines, r.unsafe_blocks.len(), r.unsafe_lines)); }
    Ok(())
}

fn programs(thorough: bool) -> Vec<(String, String, usize, Option<Vec<UnsafePattern>>)> {
    let mut v = vec![];
    let items: Vec<_> = ITEM.iter().collect();
    for (ln, lt, lk, lp) in leaves() {
        for (it, itext, ik) in &items {
            // depth 0, 1, 2 (3 in the thorough tier) of expression contexts
            let base = |e: &str| itext.replace('@', e);
            let pat = |k: usize| -> Option<Vec<UnsafePattern>> {
                // a pattern can be told only where no block encloses the leaf
                if k == *ik + lk && lk == 1 { lp.clone().map(|p| { let mut w = vec![p]; for _ in 0..*ik { w.push(UnsafePattern::Other); } w }) } else { None }
            };
            v.push((format!("{it}/{ln}"), base(lt), ik + lk, pat(ik + lk)));
            for (an, a, ak) in EXPR {
                v.push((format!("{it}/{an}/{ln}"), base(&a.replace('@', lt)), ik + ak + lk, pat(ik + ak + lk)));
                for (bn, b, bk) in EXPR {
                    // the inner context stands in parentheses, so that any nesting parses
                    let e2 = a.replace('@', &format!("({})", b.replace('@', lt)));
                    v.push((format!("{it}/{an}/{bn}/{ln}"), base(&e2), ik + ak + bk + lk, pat(ik + ak + bk + lk)));
                    if thorough && (*it == "function" || *it == "unsafe method") {
                        for (cn, c, ck) in EXPR {
                            let e3 = a.replace('@', &format!("({})", b.replace('@', &format!("({})", c.replace('@', lt)))));
                            v.push((format!("{it}/{an}/{bn}/{cn}/{ln}"), base(&e3), ik + ak + bk + ck + lk, None));
                        }
                    }
                }
            }
        }
    }
    // sequences of items
    for (i, a) in ITEM.iter().enumerate() { for (j, b) in ITEM.iter().enumerate() { for (ln, lt, lk, _) in leaves().iter().take(9) {
        let t = format!("// head\n\n{}\n{}\n", a.1.replace('@', lt), b.1.replace("fn f", "fn h").replace("struct Q", "struct Q2").replace("const K", "const K2").replace("static mut G", "static mut G2").replace('@', "unsafe { B }"));
        v.push((format!("items {i} {j} {ln}"), t, a.2 + b.2 + lk + 1, None));
    }}}
    // density: s safe lines, one block
    for s in 0..140 {
        let t = format!("fn f() {{ unsafe {{ A }} }}\n{}", "fn g() {}\n".repeat(s));
        v.push((format!("density {s}"), t, 1, None));
    }
    v
}

pub fn run(rep: &mut Report) {
    let ps = programs(rep.thorough);
    let chunks: Vec<&[(String, String, usize, Option<Vec<UnsafePattern>>)]> = ps.chunks(500).collect();
    let res = par_map(&chunks, |_, c| {
        let mut used = UnsafeAuditor::new();
        c.iter().map(|(_, t, n, p)| {
            // not Rust at all by construction of the contexts: skipped
            if syn::parse_file(t).is_err() { return None; }
            Some(guard(|| check(t, *n, p.as_deref(), &mut used)).unwrap_or_else(|e| Err(format!("panic: {e}"))))
        }).collect::<Vec<_>>()
    });
    let mut skipped = 0;
    for ((k, t, n, _), r) in ps.iter().zip(res.into_iter().flatten()) {
        rep.states += 1;
        match r {
            None => { skipped += 1; continue; }
            Some(Ok(())) => rep.outcome(&format!("{n} {}", k.rsplit('/').next().unwrap_or(""))),
            Some(Err(e)) => rep.violation(k, &e, json!({"code": t, "unsafe": n})),
        }
        rep.evaluations += 1;
        rep.traces += 1;
        if rep.states % 9001 == 5 { rep.sample(t.clone()); }
    }
    rep.extra("not_parsed", json!(skipped));
    // texts that are not Rust are errors, and an error leaves the auditor usable
    for t in ["fn f( {", "unsafe {", "int main() { return 0; }", "fn f() { unsafe { }", "\"", "fn f() -> { }"] {
        let mut a = UnsafeAuditor::new();
        rep.evaluations += 1;
        let bad = a.audit(t).is_ok() || audit_rust_code(t).is_ok();
        let later = a.audit("fn f() { unsafe { A } }").map(|r| r.unsafe_blocks.len()).unwrap_or(99);
        if bad || later != 1 { rep.violation(&format!("not Rust {t:?}"), &format!("accepted: {bad}; the next audit reports {later} blocks instead of 1"), json!({"code": t})); }
    }
    // the command line tool reports the same numbers
    let cli: Vec<&(String, String, usize, Option<Vec<UnsafePattern>>)> = ps.iter().filter(|p| p.0.matches('/').count() == 1 || p.0.starts_with("density 1")).collect();
    let s = Scratch::new("c16");
    let res = par_map(&cli, |i, (_, t, n, _)| -> Result<(), String> {
        if syn::parse_file(t).is_err() { return Ok(()); }
        let f = s.path().join(format!("a{i}.rs"));
        std::fs::write(&f, t).unwrap();
        let o = run_limited(Command::new(decy_bin()).arg("audit").arg(&f), 60).ok_or("decy audit does not end")?;
        let out = String::from_utf8_lossy(&o.stdout).to_string();
        if !o.status.success() { return Err("decy audit fails".into()); }
        let r = audit_rust_code(t).map_err(|e| e.to_string())?;
        let mut want = vec![format!("Total Lines: {}", r.total_lines), format!("Unsafe Lines: {}", r.unsafe_lines), format!("Unsafe Density: {:.2}% {}", r.unsafe_density_percent, if r.meets_density_target() { "✅" } else { "❌" })];
        if *n > 0 { want.push(format!("Unsafe Blocks Found: {n}")); }
        for w in &want { if !out.contains(w.as_str()) { return Err(format!("decy audit does not print {w:?}:\n{out}")); } }
        if (*n == 0) != out.contains("No unsafe blocks found") { return Err(format!("decy audit {} although there are {n} unsafe blocks", if *n == 0 { "does not say the code is safe" } else { "says the code is safe" })); }
        Ok(())
    });
    for (p, r) in cli.iter().zip(res) {
        rep.evaluations += 1;
        rep.traces += 1;
        rep.transitions += 1;
        if let Err(e) = r { rep.violation(&format!("cli {}", p.0), &e, json!({"code": p.1})); }
    }
    rep.rule("every item context (16) x every nesting of up to two (thorough: three) expression contexts (30, macro arguments and unsafe blocks included) x every leaf (17: safe look-alikes, blocks of each kind, nested and several blocks), all pairs of items, all densities around the target; the number of unsafe blocks and functions is known by construction; the audit is done fresh and with a used auditor; the CLI on all depth-0 programs");
}
