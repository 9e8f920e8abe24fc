//! C06: programs of the pure fragment become Rust without `unsafe`.
use crate::diffx::Prog;
use crate::report::*;
use serde_json::json;
use syn::visit::Visit;

#[derive(Default)]
struct Finder {
    found: Vec<String>,
}
impl<'a> Visit<'a> for Finder {
    fn visit_expr_unsafe(&mut self, e: &'a syn::ExprUnsafe) {
        self.found.push("unsafe block".into());
        syn::visit::visit_expr_unsafe(self, e);
    }
    fn visit_signature(&mut self, s: &'a syn::Signature) {
        if s.unsafety.is_some() {
            self.found.push(format!("unsafe fn {}", s.ident));
        }
        syn::visit::visit_signature(self, s);
    }
    fn visit_item_impl(&mut self, i: &'a syn::ItemImpl) {
        if i.unsafety.is_some() {
            self.found.push("unsafe impl".into());
        }
        syn::visit::visit_item_impl(self, i);
    }
    fn visit_type_ptr(&mut self, t: &'a syn::TypePtr) {
        self.found.push("raw pointer type".into());
        syn::visit::visit_type_ptr(self, t);
    }
    fn visit_item_static(&mut self, i: &'a syn::ItemStatic) {
        // the fixed prelude declares (and never touches) ERRNO
        if matches!(i.mutability, syn::StaticMutability::Mut(_)) && i.ident != "ERRNO" {
            self.found.push(format!("static mut {}", i.ident));
        }
        syn::visit::visit_item_static(self, i);
    }
    fn visit_item_foreign_mod(&mut self, _: &'a syn::ItemForeignMod) {
        self.found.push("extern block".into());
    }
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        for t in m.tokens.to_string().split(|c: char| !c.is_alphanumeric() && c != '_') {
            if t == "unsafe" {
                self.found.push("unsafe in a macro".into());
            }
        }
    }
}

pub fn unsafe_things(rust: &str) -> Result<Vec<String>, String> {
    let f = syn::parse_file(rust).map_err(|e| format!("not parseable as Rust: {e}"))?;
    let mut v = Finder::default();
    v.visit_file(&f);
    Ok(v.found)
}

/// Programs without globals: int expressions, control flow, local and pointed-to objects, call graphs.
pub fn pure_programs(thorough: bool) -> Vec<Prog> {
    let mut v: Vec<Prog> = crate::c01::programs(thorough);
    v.extend(crate::c02::programs(thorough));
    v.extend(crate::c03::programs(thorough).into_iter().filter(|p| !p.key.starts_with("global")));
    v.extend(crate::c04::programs(thorough).into_iter().filter(|p| !has_global(&p.c)));
    v
}
/// Does a generated program define a global variable (outside functions)?
fn has_global(c: &str) -> bool {
    let mut depth = 0i32;
    for l in c.lines() {
        if depth == 0 && !l.contains('(') && !l.trim_start().starts_with('#') && !l.contains("typedef") {
            let t = l.trim();
            let words = t.split_whitespace().count();
            let forward = words == 2 && (t.starts_with("struct ") || t.starts_with("enum "));
            let plain = !t.contains('{') && !t.contains('}') && words >= 2 && !forward;
            if t.ends_with(';') && (plain || t.contains("= {")) {
                return true;
            }
        }
        depth += l.matches('{').count() as i32 - l.matches('}').count() as i32;
    }
    false
}

pub fn run(rep: &mut Report) {
    let progs = pure_programs(rep.thorough);
    let res = par_map(&progs, |_, p| {
        guard(|| decy_core::transpile(&p.c).map_err(|e| format!("{e:#}")))
            .unwrap_or_else(|e| Err(format!("panic: {e}")))
            .and_then(|r| unsafe_things(&r).map(|v| (fnv(r.as_bytes()), v, r)))
    });
    for (p, r) in progs.iter().zip(res) {
        rep.states += 1;
        rep.evaluations += 1;
        rep.transitions += 1;
        match r {
            Ok((h, v, rust)) => {
                rep.traces += 1;
                rep.outcome_hash(h);
                if !v.is_empty() {
                    rep.violation(&p.key, &format!("the generated Rust uses {}", v.join(", ")), json!({"c": p.c, "rust": rust}));
                } else if rep.traces % 4001 == 1 {
                    rep.sample(format!("{} => no unsafe", p.c.replace('\n', " ")));
                }
            }
            Err(e) => rep.violation(&p.key, &e, json!({"c": p.c})),
        }
    }
    rep.rule("every program of the C01-C04 enumerations without global variables is transpiled; the syntax tree of the result contains no unsafe block, fn or impl, raw pointer type, static mut, extern block, and no `unsafe` inside a macro call");
}
