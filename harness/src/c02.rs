//! C02: control flow.  Every statement skeleton up to a bound.
use crate::c01::args;
use crate::diffx::*;
use crate::report::*;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum S {
    Tr,                      // trace statement
    Ret,
    Brk,
    Cont,
    Empty,
    If(Rc<S>),
    IfElse(Rc<S>, Rc<S>),
    While(Rc<S>),
    For(u8, Rc<S>),          // header variant
    Do(Rc<S>),
    Switch(u8, Rc<S>, Rc<S>), // layout variant, two bodies
    Seq(Rc<S>, Rc<S>),
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Cx {
    brk: bool,
    cont: bool,
}

/// all statements with exactly n nodes
pub fn stmts(n: usize, cx: Cx, depth_loops: usize, rich: bool) -> Vec<Rc<S>> {
    let mut r: Vec<Rc<S>> = vec![];
    if n == 0 {
        return r;
    }
    if n == 1 {
        r.push(Rc::new(S::Tr));
        r.push(Rc::new(S::Ret));
        if rich {
            r.push(Rc::new(S::Empty));
        }
        if cx.brk {
            r.push(Rc::new(S::Brk));
        }
        if cx.cont {
            r.push(Rc::new(S::Cont));
        }
        return r;
    }
    for x in stmts(n - 1, cx, depth_loops, rich) {
        r.push(Rc::new(S::If(x)));
    }
    if depth_loops < 2 {
        let lc = Cx { brk: true, cont: true };
        for x in stmts(n - 1, lc, depth_loops + 1, rich) {
            r.push(Rc::new(S::While(x.clone())));
            r.push(Rc::new(S::Do(x.clone())));
            for v in 0..NFOR {
                r.push(Rc::new(S::For(v, x.clone())));
            }
        }
    }
    for k in 1..n - 1 {
        for a in stmts(k, cx, depth_loops, rich) {
            for b in stmts(n - 1 - k, cx, depth_loops, rich) {
                r.push(Rc::new(S::IfElse(a.clone(), b.clone())));
                if !matches!(*a, S::Ret | S::Brk | S::Cont | S::Seq(..)) {
                    r.push(Rc::new(S::Seq(a.clone(), b.clone())));
                }
            }
        }
        let sc = Cx { brk: true, cont: cx.cont };
        for a in stmts(k, sc, depth_loops, rich) {
            for b in stmts(n - 1 - k, sc, depth_loops, rich) {
                for v in 0..NSW {
                    r.push(Rc::new(S::Switch(v, a.clone(), b.clone())));
                }
            }
        }
    }
    r
}
pub const NFOR: u8 = 4;
pub const NSW: u8 = 4;

pub struct R {
    pub k: u32,
    pub loops: u32,
    pub oracle: bool,
    pub braces: bool,
}

const CONDS: &[&str] = &["a > t", "b & 1", "a == b", "t % 3 != 1", "!(b > 2)", "a > 0 && b", "a < 1 || t % 2", "n == 2 ? a > b : a"];

impl R {
    fn cond(&mut self) -> String {
        let c = CONDS[self.k as usize % CONDS.len()];
        self.k += 1;
        c.to_string()
    }
    fn body(&mut self, s: &S, loop_: bool, ind: usize) -> String {
        let inner = self.st(s, ind + 1);
        let multi = matches!(s, S::Seq(..)) || loop_ || self.braces;
        // dangling else safety: an if without else as the unbraced then-branch is braced by the caller
        if multi {
            format!("{{ {inner} }}")
        } else {
            inner
        }
    }
    fn st(&mut self, s: &S, ind: usize) -> String {
        let fuel = if self.oracle { "FUEL; " } else { "" };
        match s {
            S::Tr => {
                self.k += 1;
                format!("t = (t * 5 + {}) % 1009;", self.k)
            }
            S::Ret => {
                self.k += 1;
                format!("return t + {};", 2000 + self.k)
            }
            S::Brk => "break;".into(),
            S::Cont => "continue;".into(),
            S::Empty => ";".into(),
            S::If(x) => {
                let c = self.cond();
                let b = self.body(x, false, ind);
                format!("if ({c}) {b}")
            }
            S::IfElse(x, y) => {
                let c = self.cond();
                let b = if ends_with_if(x) && !self.braces {
                    let i = self.st(x, ind);
                    format!("{{ {i} }}")
                } else {
                    self.body(x, false, ind)
                };
                let e = self.body(y, false, ind);
                format!("if ({c}) {b} else {e}")
            }
            S::While(x) => {
                self.loops += 1;
                let v = format!("n{}", self.loops);
                let b = self.st(x, ind + 1);
                format!("while ({v} < 3) {{ {fuel}{v} = {v} + 1; {b} }}")
            }
            S::Do(x) => {
                self.loops += 1;
                let v = format!("n{}", self.loops);
                let b = self.st(x, ind + 1);
                format!("do {{ {fuel}{v}++; {b} }} while ({v} < 2);")
            }
            S::For(v, x) => {
                self.loops += 1;
                let l = self.loops;
                let (h, pre) = match v {
                    0 => (format!("int i{l} = 0; i{l} < 3; i{l}++"), String::new()),
                    1 => (format!("n{l} = 1; n{l} < 4; n{l} += 2"), String::new()),
                    2 => (format!("; ; n{l}++"), format!("if (n{l} > 2) break; ")),
                    _ => (format!("n{l} = 0, n = 0; n{l} + n < 4; n{l}++, n++"), String::new()),
                };
                let br = self.braces;
                if *v == 2 || self.oracle {
                    let b = self.st(x, ind + 1);
                    format!("for ({h}) {{ {fuel}{pre}{b} }}")
                } else {
                    let b = self.body(x, false, ind);
                    let b = if br || b.starts_with('{') { b } else { b };
                    format!("for ({h}) {b}")
                }
            }
            S::Switch(v, x, y) => {
                let e = ["a", "t % 3", "a & 3", "b"][self.k as usize % 4];
                self.k += 1;
                let p = self.st(x, ind + 1);
                let q = self.st(y, ind + 1);
                match v {
                    // two cases with breaks, default
                    0 => format!("switch ({e}) {{ case 1: {p} break; case 2: {q} break; default: t = t + 3; break; }}"),
                    // fallthrough from the first into the second, no default
                    1 => format!("switch ({e}) {{ case 0: {p} case 1: {q} break; case 3: t = t + 4; }}"),
                    // shared labels, default in front falling through
                    2 => format!("switch ({e}) {{ default: {p} break; case -1: case 2: {q} }}"),
                    // negative, last without break, default falls into case
                    _ => format!("switch ({e}) {{ case 0: case 1: {p} break; default: {q} case 3: t = t + 5; }}"),
                }
            }
            S::Seq(x, y) => {
                let p = self.st(x, ind);
                let q = self.st(y, ind);
                format!("{p} {q}")
            }
        }
    }
}

fn ends_with_if(s: &S) -> bool {
    match s {
        S::If(_) => true,
        S::IfElse(_, y) => ends_with_if(y),
        S::For(_, x) => ends_with_if(x),
        _ => false,
    }
}

pub fn render(s: &S, braces: bool, oracle: bool, k0: u32) -> String {
    let mut r = R { k: k0, loops: 0, oracle, braces };
    let b = r.st(s, 1);
    let mut decl = String::new();
    for i in 1..=r.loops {
        decl.push_str(&format!("int n{i} = 0; "));
    }
    format!("int f(int a, int b) {{ int t = 0; int n = 0; {decl}{b} return t + 5000 * n; }}")
}

pub fn programs(thorough: bool) -> Vec<Prog> {
    let ar = args(&[0, 1, 2, 3, -1, 7]);
    let max = if thorough { 5 } else { 4 };
    let mut progs = vec![];
    let mut seen = std::collections::BTreeSet::new();
    for n in 1..=max {
        let v = stmts(n, Cx { brk: false, cont: false }, 0, n <= 3);
        eprintln!("size {n}: {} skeletons", v.len());
        for (i, s) in v.iter().enumerate() {
            for braces in [true, false] {
                if n >= 4 && braces == (i % 2 == 0) {
                    continue;
                }
                for k0 in 0..(if n <= 3 { 4 } else { 1 }) {
                    let k0 = if n <= 3 { k0 * 2 } else { (i % 8) as u32 };
                    let c = render(s, braces, false, k0);
                    if seen.insert(c.clone()) {
                        let o = render(s, braces, true, k0);
                        let mut p = crate::c01::prog(format!("n{n}:{c}"), c, &[], &ar);
                        p.oracle = Some(o);
                        progs.push(p);
                    }
                }
            }
        }
    }
    // what follows in the loop body tells whether a jump out of a nested statement went to the right place
    let lc = Cx { brk: true, cont: true };
    let jumps = |s: &S| { fn j(s: &S) -> bool { match s { S::Brk | S::Cont => true, S::If(x) | S::While(x) | S::Do(x) | S::For(_, x) => j(x), S::IfElse(x, y) | S::Switch(_, x, y) | S::Seq(x, y) => j(x) || j(y), _ => false } } j(s) };
    let mut inner: Vec<Rc<S>> = (2..=if thorough { 4 } else { 3 }).flat_map(|n| stmts(n, lc, 1, false)).collect();
    let leaves = stmts(1, lc, 1, false);
    for v in 0..NSW { for x in &leaves { for y in &leaves {
        let guarded = Rc::new(S::If(x.clone()));
        let after = Rc::new(S::Seq(guarded.clone(), Rc::new(S::Tr)));
        inner.push(Rc::new(S::Switch(v, after.clone(), y.clone())));
        inner.push(Rc::new(S::Switch(v, y.clone(), after)));
    }}}
    for v in 0..NSW { for w in 0..if thorough { NSW } else { 1 } { for x in &leaves {
        let sw = Rc::new(S::Seq(Rc::new(S::Switch(w, x.clone(), Rc::new(S::Tr))), Rc::new(S::Tr)));
        inner.push(Rc::new(S::Switch(v, sw.clone(), Rc::new(S::Tr))));
        inner.push(Rc::new(S::Switch(v, Rc::new(S::Tr), sw)));
    }}}
    for (i, x) in inner.iter().enumerate().filter(|(_, x)| jumps(x)) {
        let body = Rc::new(S::Seq(x.clone(), Rc::new(S::Tr)));
        let mut loops = vec![S::While(body.clone()), S::Do(body.clone())];
        loops.extend((0..NFOR).map(|v| S::For(v, body.clone())));
        for l in &loops {
            let c = render(l, true, false, (i % 8) as u32);
            if seen.insert(c.clone()) {
                let o = render(l, true, true, (i % 8) as u32);
                let mut p = crate::c01::prog(format!("after:{c}"), c, &[], &ar);
                p.oracle = Some(o);
                progs.push(p);
            }
        }
    }
    progs
}

/// Conditions whose value is known at compile time or that have side effects, in every controlling position.
pub fn condition_programs() -> Vec<Prog> {
    let consts = ["0", "1", "-1", "2", "-7", "2 - 3", "3 - 3", "-2 + 2", "!1", "!0", "!-3", "~0", "~-1", "1 && 0", "1 && -1", "0 || -2", "0 || 0", "5 % 5", "-5 % 3", "1 == 1", "-1 < -2", "-1 > -2", "0x10", "0x0", "'a'", "(0)", "(-1)", "-(1)", "1 ? 0 : 3", "0 ? 0 : -3", "1 << 3", "1 >> 1", "-1 >> 1", "6 & 1", "6 & -2", "2 ^ 2", "0 * 9", "-1 * 1", "2147483647", "-2147483647 - 1", "7 / -2", "1 / 2",
        "E0", "E1", "EM", "M0", "MM", "K0", "KM"];
    let dynamic = ["a", "b", "-a", "!a", "!!a", "a - b", "a == -1", "a != b", "a & b", "a | b", "~a", "a && b", "a || b", "!(a && b)", "!a || !b", "a && !b", "a > 0 == b > 0", "a < b < 2", "(a = b)", "(a = b - 1) > 0", "a++", "++a", "a--", "--a", "a++ > 0 && b++ > 0", "a-- > 1 || b-- > 1", "a ? b : 0", "a ? b : a + 1", "(a > 1 ? a : b) == 2", "a % 2", "a * b", "(a += 2) == 3", "a > 1 & b > 1", "a > 1 | b > 1", "(a ^ b) == 3"];
    let templates = [
        "if (C) { t = 1; } else { t = 2; }", "if (C) t = 1; t = t + 3;", "if (C) return 7; t = 9;", "if (C) ; else t = 4;", "if (!(C)) t = 6; else t = 7;",
        "while (C) { n++; t = t * 2 + 1; if (n > 2) break; }", "while (C) { n++; if (n > 2) return t; t = t + 1; }", "while (!(C)) { n++; t = t + 3; if (n > 2) break; }",
        "do { n++; t = t + 2; if (n > 3) break; } while (C);", "do { n++; if (n > 3) break; if (n == 2) continue; t = t + 2; } while (C);",
        "for (; C; n++) { if (n > 2) break; t = t + 5; }", "for (int i = 0; (C) && i < 3; i++) t = t + i + 1;", "for (int i = 0; i < 3; i++) { if (C) continue; t = t + i + 1; }", "for (int i = 0; i < 3; i++) { if (C) break; t = t + i + 1; }",
        "if (a > 0) { if (C) t = 1; else t = 2; } else t = 3;", "if (C) { if (b > 1) t = 5; } else if (a > 0) t = 6; else t = 7;", "if (a > 2) t = 1; else if (C) t = 2; else t = 3;",
        "t = (C) ? 3 : 4;", "t = (C) ? n++ : n--;", "if ((C) && a > 0) t = 1; else t = 2;", "if ((C) || a > 0) t = 1; else t = 2;", "if (a > 0 && (C)) t = 1; else t = 2;", "if (a > 0 || (C)) t = 1; else t = 2;",
        "while ((C) && n < 3) { n++; t = t + 7; }", "while (n < 3 && (C)) { n++; t = t + 7; }", "t = 2; if (C) { t = t + 1; return t; t = t + 50; } t = t + 4;",
        "switch (C) { case -1: t = 1; break; case 0: t = 2; break; case 1: t = 3; break; case 2: t = 4; break; default: t = 5; }", "switch (a) { case 1: if (C) break; t = 3; break; default: t = (C) ? 8 : 9; }",
        "t = !(C);", "t = (C) && b; n = (C) || b;", "if (C) { int q = a; t = q + 1; } if (C) { int q = b; t = t + q; }",
    ];
    let mut progs = vec![];
    let ar = args(&[0, 1, 2, 3, -1]);
    let bools = |c: &str| { let mut d = 0; let top: String = c.chars().filter(|x| { if *x == '(' { d += 1; } if *x == ')' { d -= 1; } d == 0 }).collect(); top.starts_with('!') || ["&&", "||", "==", "!=", " < ", " > "].iter().any(|o| top.contains(o)) };
    for set in [&consts[..], &dynamic[..]] { for c in set.iter() { for t in templates.iter() {
        
        // a switch on a truth value and integer operands that must not be repeated are outside the fragment
        if t.starts_with("switch (C)") && (bools(c) || *c == "'a'") { continue; }
        let body = t.replace('C', c);
        let src = format!("#define M0 0\n#define MM (-1)\nenum e {{ E0, E1, EM = -1 }};\nconst int K0 = 0;\nconst int KM = -1;\nint f(int a, int b) {{ int t = 0; int n = 0; {body} return t + 100 * n + 5000 * (a + 7 * b); }}");
        let oracle = src.replace("; if (n > ", "; FUEL; if (n > ");
        let mut p = crate::c01::prog(format!("cond:{c}:{t}"), src, &["E0", "E1", "EM", "K0", "KM", "e", "M0", "MM"], &ar);
        p.oracle = Some(oracle);
        progs.push(p);
    }}}
    progs
}

pub fn run(rep: &mut Report) {
    let max = if rep.thorough { 5 } else { 4 };
    let mut progs = programs(rep.thorough);
    progs.extend(condition_programs());
    if let Ok(f) = std::env::var("MC_FILTER") { progs.retain(|p| p.key.contains(&f)); }
    eprintln!("programs {}", progs.len());
    if std::env::var("MC_COUNT").is_ok() { return; }
    let outs = run_batch(&progs, &default_transpile);
    let (ok, vac, _) = judge(rep, &progs, &outs);
    rep.extra("programs_ok", ok.into());
    rep.extra("programs_without_defined_input", vac.into());
    rep.rule(format!("every statement skeleton with at most {max} nodes over if, if/else, while, do-while, 4 for-header forms, 4 switch layouts (break, fallthrough, shared labels, default first/last), break, continue, return, trace assignment, empty statement and sequencing, loops nested at most twice, bodies braced and unbraced, conditions taken from 8 forms; every break and continue in a nested statement of at most 3 nodes (and in switches in switches, guarded by if) with code after it in the loop body; each executed on 36 inputs with the path recorded in the result"));
}
