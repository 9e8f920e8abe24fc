//! C09: the HIR optimizer preserves what a function does.
//! A reference interpreter runs every enumerated function before and after `optimize_function`.
use crate::report::*;
use decy_core::optimize::optimize_function;
use decy_hir::{BinaryOperator as B, HirCudaQualifier as CudaQualifier, HirExpression as E, HirFunction, HirParameter, HirStatement as S, HirType as T, SwitchCase, UnaryOperator as U};
use serde_json::json;

#[derive(Clone, Copy, Debug, PartialEq)]
enum V { I(i64), F(f64) }
#[derive(Debug, Clone, PartialEq)]
enum Stop { Undef, Bad(String) }
enum Flow { Next, Break, Continue, Return(Option<V>) }
type R<X> = Result<X, Stop>;

struct Frame { vars: Vec<Vec<(String, T, Option<V>)>>, log: Vec<i64>, fuel: u32, ret: T }

fn conv(v: V, t: &T) -> R<V> {
    Ok(match (t, v) {
        (T::Int, V::I(i)) => V::I(i as i32 as i64),
        (T::UnsignedInt, V::I(i)) => V::I(i as u32 as i64),
        (T::Char, V::I(i)) => V::I(i as u8 as i64),
        (T::SignedChar, V::I(i)) => V::I(i as i8 as i64),
        (T::Bool, V::I(i)) => V::I((i != 0) as i64),
        (T::Double, V::I(i)) => V::F(i as f64),
        (T::Double, f) => f,
        (T::Float, V::I(i)) => V::F(i as f32 as f64),
        (T::Float, V::F(f)) => V::F(f as f32 as f64),
        (T::Int, V::F(f)) if f.abs() < 2e9 => V::I(f as i64),
        (T::Char, V::F(f)) if (0.0..255.0).contains(&f) => V::I(f as i64),
        (T::Int | T::Char | T::UnsignedInt | T::SignedChar | T::Bool, V::F(_)) => return Err(Stop::Undef),
        (_, v) => v,
    })
}
fn truth(v: V) -> bool { match v { V::I(i) => i != 0, V::F(f) => f != 0.0 } }
fn int(i: i64) -> R<V> { if i32::try_from(i).is_ok() { Ok(V::I(i)) } else { Err(Stop::Undef) } }

impl Frame {
    fn find(&mut self, n: &str) -> R<&mut (String, T, Option<V>)> {
        for f in self.vars.iter_mut().rev() {
            // the newest declaration of a block wins (a re-declaration shadows)
            if let Some(k) = f.iter().rposition(|x| x.0 == n) { return Ok(&mut f[k]); }
        }
        Err(Stop::Bad(format!("variable {n} is not declared")))
    }
    fn set(&mut self, n: &str, v: V) -> R<V> {
        let x = self.find(n)?;
        let v = conv(v, &x.1.clone())?;
        x.2 = Some(v);
        Ok(v)
    }
    fn step(&mut self, e: &E, d: i64, post: bool) -> R<V> {
        let E::Variable(n) = e else { return Err(Stop::Undef) };
        let V::I(o) = self.find(n)?.2.ok_or(Stop::Undef)? else { return Err(Stop::Undef) };
        let w = int(o + d)?;
        let w = self.set(n, w)?;
        Ok(if post { V::I(o) } else { w })
    }
    fn eval(&mut self, e: &E) -> R<V> {
        self.fuel = self.fuel.checked_sub(1).ok_or(Stop::Undef)?;
        Ok(match e {
            E::IntLiteral(i) => V::I(*i as i64),
            E::CharLiteral(c) => V::I(*c as i64),
            E::FloatLiteral(s) => V::F(s.parse().map_err(|_| Stop::Undef)?),
            E::Variable(n) => self.find(n)?.2.ok_or(Stop::Undef)?,
            E::UnaryOp { op, operand } => match op {
                U::Minus => match self.eval(operand)? { V::I(i) => int(-i)?, V::F(f) => V::F(-f) },
                U::LogicalNot => V::I(!truth(self.eval(operand)?) as i64),
                U::BitwiseNot => match self.eval(operand)? { V::I(i) => int(!i)?, _ => return Err(Stop::Undef) },
                U::PostIncrement => self.step(operand, 1, true)?,
                U::PreIncrement => self.step(operand, 1, false)?,
                U::PostDecrement => self.step(operand, -1, true)?,
                U::PreDecrement => self.step(operand, -1, false)?,
                U::AddressOf => return Err(Stop::Undef),
            },
            E::PostIncrement { operand } => self.step(operand, 1, true)?,
            E::PreIncrement { operand } => self.step(operand, 1, false)?,
            E::PostDecrement { operand } => self.step(operand, -1, true)?,
            E::PreDecrement { operand } => self.step(operand, -1, false)?,
            E::BinaryOp { op: B::LogicalAnd, left, right } => V::I((truth(self.eval(left)?) && truth(self.eval(right)?)) as i64),
            E::BinaryOp { op: B::LogicalOr, left, right } => V::I((truth(self.eval(left)?) || truth(self.eval(right)?)) as i64),
            E::BinaryOp { op: B::Comma, left, right } => { self.eval(left)?; self.eval(right)? }
            E::BinaryOp { op: B::Assign, left, right } => {
                let E::Variable(n) = &**left else { return Err(Stop::Undef) };
                let v = self.eval(right)?;
                self.set(n, v)?
            }
            E::BinaryOp { op, left, right } => {
                let (l, r) = (self.eval(left)?, self.eval(right)?);
                let f = |v: V| match v { V::I(i) => i as f64, V::F(f) => f };
                match (l, r) {
                    (V::I(a), V::I(b)) => match op {
                        B::Add => int(a + b)?, B::Subtract => int(a - b)?, B::Multiply => int(a * b)?,
                        B::Divide => if b == 0 { return Err(Stop::Undef) } else { int(a / b)? },
                        B::Modulo => if b == 0 || (a == i32::MIN as i64 && b == -1) { return Err(Stop::Undef) } else { int(a % b)? },
                        B::Equal => V::I((a == b) as i64), B::NotEqual => V::I((a != b) as i64),
                        B::LessThan => V::I((a < b) as i64), B::GreaterThan => V::I((a > b) as i64),
                        B::LessEqual => V::I((a <= b) as i64), B::GreaterEqual => V::I((a >= b) as i64),
                        B::LeftShift => if !(0..32).contains(&b) || a < 0 { return Err(Stop::Undef) } else { int(a << b)? },
                        B::RightShift => if !(0..32).contains(&b) { return Err(Stop::Undef) } else { V::I(a >> b) },
                        B::BitwiseAnd => V::I(a & b), B::BitwiseOr => V::I(a | b), B::BitwiseXor => V::I(a ^ b),
                        _ => return Err(Stop::Undef),
                    },
                    (l, r) => {
                        let (a, b) = (f(l), f(r));
                        match op {
                            B::Add => V::F(a + b), B::Subtract => V::F(a - b), B::Multiply => V::F(a * b), B::Divide => V::F(a / b),
                            B::Equal => V::I((a == b) as i64), B::NotEqual => V::I((a != b) as i64),
                            B::LessThan => V::I((a < b) as i64), B::GreaterThan => V::I((a > b) as i64),
                            B::LessEqual => V::I((a <= b) as i64), B::GreaterEqual => V::I((a >= b) as i64),
                            _ => return Err(Stop::Undef),
                        }
                    }
                }
            }
            E::FunctionCall { arguments, .. } => {
                let mut last = V::I(0);
                for a in arguments {
                    last = self.eval(a)?;
                    self.log.push(match last { V::I(i) => i, V::F(f) => (f * 64.0) as i64 });
                }
                last
            }
            E::Ternary { condition, then_expr, else_expr } => if truth(self.eval(condition)?) { self.eval(then_expr)? } else { self.eval(else_expr)? },
            E::Cast { target_type, expr } => { let v = self.eval(expr)?; conv(v, target_type)? }
            _ => return Err(Stop::Bad(format!("unexpected expression {e:?}"))),
        })
    }
    fn block(&mut self, b: &[S]) -> R<Flow> {
        self.vars.push(vec![]);
        let mut r = Ok(Flow::Next);
        for s in b {
            r = self.stmt(s);
            if !matches!(r, Ok(Flow::Next)) { break; }
        }
        self.vars.pop();
        r
    }
    fn stmt(&mut self, s: &S) -> R<Flow> {
        match s {
            S::VariableDeclaration { name, var_type, initializer } => {
                let v = match initializer { Some(e) => { let v = self.eval(e)?; Some(conv(v, var_type)?) } None => None };
                self.vars.last_mut().unwrap().push((name.clone(), var_type.clone(), v));
            }
            S::Assignment { target, value } => { let v = self.eval(value)?; self.set(target, v)?; }
            S::Return(None) => return Ok(Flow::Return(None)),
            S::Return(Some(e)) => { let v = self.eval(e)?; let t = self.ret.clone(); return Ok(Flow::Return(Some(conv(v, &t)?))); }
            S::Expression(e) => { self.eval(e)?; }
            S::If { condition, then_block, else_block } => {
                if truth(self.eval(condition)?) { return self.block(then_block); } else if let Some(b) = else_block { return self.block(b); }
            }
            S::While { condition, body } => {
                while truth(self.eval(condition)?) {
                    match self.block(body)? { Flow::Break => break, Flow::Return(v) => return Ok(Flow::Return(v)), _ => {} }
                }
            }
            S::For { init, condition, increment, body } => {
                self.vars.push(vec![]);
                let r = (|| {
                    for i in init { self.stmt(i)?; }
                    loop {
                        if let Some(c) = condition { if !truth(self.eval(c)?) { break; } }
                        match self.block(body)? { Flow::Break => break, Flow::Return(v) => return Ok(Flow::Return(v)), _ => {} }
                        for i in increment { self.stmt(i)?; }
                        self.fuel = self.fuel.checked_sub(1).ok_or(Stop::Undef)?;
                    }
                    Ok(Flow::Next)
                })();
                self.vars.pop();
                return r;
            }
            S::Switch { condition, cases, default_case } => {
                let v = self.eval(condition)?;
                let mut start = None;
                for (i, c) in cases.iter().enumerate() { if let Some(e) = &c.value { if self.eval(e)? == v { start = Some(i); break; } } }
                let mut bodies: Vec<&Vec<S>> = vec![];
                if let Some(i) = start { bodies.extend(cases[i..].iter().map(|c| &c.body)); }
                if let Some(d) = default_case { bodies.push(d); }
                for b in bodies { match self.block(b)? { Flow::Next => {} Flow::Break => break, f => return Ok(f) } }
            }
            S::Break => return Ok(Flow::Break),
            S::Continue => return Ok(Flow::Continue),
            _ => return Err(Stop::Bad(format!("unexpected statement {s:?}"))),
        }
        Ok(Flow::Next)
    }
}

fn exec(f: &HirFunction, a: i64, b: i64) -> R<(Option<V>, Vec<i64>)> {
    let mut fr = Frame { vars: vec![vec![("a".into(), T::Int, Some(V::I(a))), ("b".into(), T::Int, Some(V::I(b)))]], log: vec![], fuel: 400, ret: f.return_type().clone() };
    // falling off the end of a non-void function has no value
    match fr.block(f.body())? { Flow::Return(v) => Ok((v, fr.log)), _ => Ok((None, fr.log)) }
}

fn lit(i: i32) -> E { E::IntLiteral(i) }
fn var(n: &str) -> E { E::Variable(n.into()) }
fn bin(op: B, l: E, r: E) -> E { E::BinaryOp { op, left: Box::new(l), right: Box::new(r) } }
fn neg(e: E) -> E { E::UnaryOp { op: U::Minus, operand: Box::new(e) } }
fn obs(e: E) -> E { E::FunctionCall { function: "obs".into(), arguments: vec![e] } }
fn decl(n: &str, t: T, e: Option<E>) -> S { S::VariableDeclaration { name: n.into(), var_type: t, initializer: e } }
fn asg(n: &str, e: E) -> S { S::Assignment { target: n.into(), value: e } }
fn ret(e: E) -> S { S::Return(Some(e)) }

const OPS: [B; 18] = [B::Add, B::Subtract, B::Multiply, B::Divide, B::Modulo, B::Equal, B::NotEqual, B::LessThan, B::GreaterThan, B::LessEqual, B::GreaterEqual, B::LogicalAnd, B::LogicalOr, B::LeftShift, B::RightShift, B::BitwiseAnd, B::BitwiseOr, B::BitwiseXor];
const LITS: [i32; 14] = [0, 1, 2, 3, 7, 31, 32, 255, i32::MAX, i32::MIN, -1, -2, -7, -31];

/// Expressions: all two-literal folds, nested folds, operators around non-constants.
fn exprs(thorough: bool) -> Vec<E> {
    let mut v = vec![];
    for op in OPS { for l in LITS { for r in LITS { v.push(bin(op, lit(l), lit(r))); } } }
    let inner: Vec<E> = [lit(0), lit(1), lit(-3), bin(B::Subtract, lit(2), lit(5)), neg(lit(7)), neg(lit(i32::MIN)), var("a"), obs(lit(4)), bin(B::Modulo, neg(lit(7)), lit(2)), E::PostIncrement { operand: Box::new(var("a")) }, E::UnaryOp { op: U::LogicalNot, operand: Box::new(lit(3)) }, E::UnaryOp { op: U::BitwiseNot, operand: Box::new(lit(0)) }, E::UnaryOp { op: U::Minus, operand: Box::new(var("b")) }].to_vec();
    for op in OPS { for l in &inner { for r in &inner { v.push(bin(op, l.clone(), r.clone())); } } }
    let pool: Vec<E> = if thorough { inner.clone() } else { inner[..8].to_vec() };
    for o1 in OPS { for o2 in OPS { for x in &pool { for y in &pool[..5] { v.push(bin(o1, bin(o2, x.clone(), y.clone()), lit(3))); v.push(bin(o1, lit(-3), bin(o2, x.clone(), y.clone()))); } } } }
    for x in &inner {
        for y in &inner {
            v.push(E::Ternary { condition: Box::new(x.clone()), then_expr: Box::new(y.clone()), else_expr: Box::new(obs(bin(B::Add, lit(1), lit(1)))) });
            v.push(E::Cast { target_type: T::Char, expr: Box::new(bin(B::Multiply, x.clone(), y.clone())) });
            v.push(E::FunctionCall { function: "two".into(), arguments: vec![bin(B::Add, x.clone(), lit(1)), obs(y.clone())] });
            v.push(bin(B::Comma, obs(x.clone()), bin(B::Add, y.clone(), lit(2))));
        }
        v.push(neg(x.clone()));
        v.push(neg(neg(x.clone())));
        v.push(obs(neg(x.clone())));
    }
    v
}
/// Every position an expression can have.
fn contexts(e: &E) -> Vec<(&'static str, Vec<S>)> {
    vec![
        ("return", vec![ret(e.clone())]),
        ("init", vec![decl("x", T::Int, Some(e.clone())), S::Expression(obs(var("x"))), ret(var("x"))]),
        ("assign", vec![decl("x", T::Int, Some(lit(9))), asg("x", e.clone()), ret(bin(B::Add, var("x"), var("a")))]),
        ("if", vec![S::If { condition: e.clone(), then_block: vec![ret(lit(1))], else_block: Some(vec![ret(lit(2))]) }]),
        ("while", vec![S::While { condition: e.clone(), body: vec![S::Expression(obs(lit(5))), S::Break] }, ret(var("a"))]),
        ("for", vec![S::For { init: vec![decl("i", T::Int, Some(e.clone()))], condition: Some(bin(B::LessThan, var("i"), lit(3))), increment: vec![asg("i", bin(B::Add, var("i"), lit(1)))], body: vec![S::Expression(obs(var("i"))), S::If { condition: bin(B::GreaterThan, var("i"), lit(1)), then_block: vec![S::Break], else_block: None }, S::Break] }, ret(lit(0))]),
        ("forcond", vec![S::For { init: vec![], condition: Some(e.clone()), increment: vec![], body: vec![S::Expression(obs(lit(6))), S::Break] }, ret(lit(0))]),
        ("switch", vec![S::Switch { condition: e.clone(), cases: vec![SwitchCase { value: Some(lit(1)), body: vec![ret(lit(10))] }, SwitchCase { value: Some(neg(lit(3))), body: vec![S::Expression(obs(lit(8)))] }], default_case: Some(vec![ret(lit(20))]) }, ret(lit(30))]),
        ("expr", vec![S::Expression(e.clone()), ret(var("a"))]),
        ("char", vec![decl("x", T::Char, Some(e.clone())), ret(var("x"))]),
        ("double", vec![decl("x", T::Double, Some(e.clone())), ret(bin(B::Divide, var("x"), lit(2)))]),
    ]
}

fn simple(in_loop: bool) -> Vec<S> {
    let mut v = vec![
        decl("x", T::Int, Some(lit(5))),
        decl("x", T::Char, Some(lit(300))),
        decl("x", T::Int, Some(bin(B::Add, var("a"), lit(1)))),
        decl("x", T::Int, Some(E::FloatLiteral("2.75".into()))),
        decl("x", T::Bool, Some(lit(7))),
        decl("y", T::Int, Some(bin(B::Multiply, var("x"), lit(3)))),
        asg("x", bin(B::Add, lit(1), lit(2))),
        asg("x", bin(B::Add, var("x"), var("b"))),
        S::Expression(obs(var("x"))),
        ret(var("x")),
        ret(bin(B::Subtract, lit(2), lit(3))),
    ];
    if in_loop { v.push(S::Break); v.push(S::Continue); }
    v
}
fn conds() -> Vec<E> { vec![lit(0), lit(1), lit(-1), bin(B::Subtract, lit(2), lit(2)), bin(B::LeftShift, lit(1), lit(30)), neg(lit(0)), var("a"), var("x"), obs(lit(0)), bin(B::LogicalAnd, lit(0), obs(lit(1)))] }

fn bodies(in_loop: bool, two: bool) -> Vec<Vec<S>> {
    let s = simple(in_loop);
    let mut v: Vec<Vec<S>> = vec![vec![]];
    for x in &s { v.push(vec![x.clone()]); }
    if two { for x in &s { for y in &s { v.push(vec![x.clone(), y.clone()]); } } }
    v
}
/// Compound statements of one level.
fn compounds(thorough: bool) -> Vec<S> {
    let mut v = vec![];
    for c in conds() {
        for t in bodies(false, true) {
            v.push(S::If { condition: c.clone(), then_block: t.clone(), else_block: None });
            for e in bodies(false, thorough && t.len() < 2) { if t.len() < 2 || thorough { v.push(S::If { condition: c.clone(), then_block: t.clone(), else_block: Some(e) }); } }
        }
        for t in bodies(true, true) { v.push(S::While { condition: c.clone(), body: t }); }
    }
    v
}
/// Compounds inside compounds.
fn nested() -> Vec<S> {
    let mut v = vec![];
    let mut small = vec![];
    for c in conds() { for t in bodies(true, false) { small.push(S::If { condition: c.clone(), then_block: t.clone(), else_block: None }); small.push(S::If { condition: c.clone(), then_block: vec![ret(lit(4))], else_block: Some(t) }); } }
    for c in conds() {
        for i in &small {
            for tail in [vec![], vec![S::Expression(obs(var("x")))], vec![ret(var("x"))]] {
                let mut b = vec![i.clone()];
                b.extend(tail.clone());
                v.push(S::If { condition: c.clone(), then_block: b.clone(), else_block: None });
                v.push(S::If { condition: c.clone(), then_block: vec![], else_block: Some(b.clone()) });
                let mut w = b.clone();
                w.push(S::Break);
                v.push(S::While { condition: c.clone(), body: w });
                v.push(S::For { init: vec![decl("i", T::Int, Some(lit(0)))], condition: Some(bin(B::LessThan, var("i"), lit(2))), increment: vec![asg("i", bin(B::Add, var("i"), lit(1)))], body: b.clone() });
                v.push(S::Switch { condition: c.clone(), cases: vec![SwitchCase { value: Some(lit(1)), body: b }], default_case: Some(vec![S::Expression(obs(lit(2)))]) });
            }
        }
    }
    v
}

/// Names used where no declaration is in scope, in unreachable code too: Rust rejects those.
fn loose_expr(e: &E, sc: &[Vec<String>], out: &mut Vec<String>) {
    match e {
        E::Variable(n) => if !sc.iter().any(|f| f.contains(n)) { out.push(n.clone()); },
        E::UnaryOp { operand, .. } | E::PostIncrement { operand } | E::PreIncrement { operand } | E::PostDecrement { operand } | E::PreDecrement { operand } => loose_expr(operand, sc, out),
        E::BinaryOp { left, right, .. } => { loose_expr(left, sc, out); loose_expr(right, sc, out); }
        E::FunctionCall { arguments, .. } => for a in arguments { loose_expr(a, sc, out); },
        E::Ternary { condition, then_expr, else_expr } => for x in [condition, then_expr, else_expr] { loose_expr(x, sc, out); },
        E::Cast { expr, .. } => loose_expr(expr, sc, out),
        _ => {}
    }
}
fn loose(b: &[S], sc: &mut Vec<Vec<String>>, out: &mut Vec<String>) {
    sc.push(vec![]);
    for s in b { loose_stmt(s, sc, out); }
    sc.pop();
}
fn loose_stmt(s: &S, sc: &mut Vec<Vec<String>>, out: &mut Vec<String>) {
    match s {
        S::VariableDeclaration { name, initializer, .. } => {
            if let Some(e) = initializer { loose_expr(e, sc, out); }
            sc.last_mut().unwrap().push(name.clone());
        }
        S::Assignment { target, value } => { loose_expr(value, sc, out); loose_expr(&var(target), sc, out); }
        S::Return(Some(e)) | S::Expression(e) => loose_expr(e, sc, out),
        S::If { condition, then_block, else_block } => { loose_expr(condition, sc, out); loose(then_block, sc, out); if let Some(b) = else_block { loose(b, sc, out); } }
        S::While { condition, body } => { loose_expr(condition, sc, out); loose(body, sc, out); }
        S::For { init, condition, increment, body } => {
            sc.push(vec![]);
            for i in init { loose_stmt(i, sc, out); }
            if let Some(c) = condition { loose_expr(c, sc, out); }
            loose(body, sc, out);
            for i in increment { loose_stmt(i, sc, out); }
            sc.pop();
        }
        S::Switch { condition, cases, default_case } => {
            loose_expr(condition, sc, out);
            for c in cases { loose(&c.body, sc, out); }
            if let Some(d) = default_case { loose(d, sc, out); }
        }
        _ => {}
    }
}
fn undeclared(f: &HirFunction) -> Vec<String> {
    let mut out = vec![];
    loose(f.body(), &mut vec![f.parameters().iter().map(|p| p.name().to_string()).collect()], &mut out);
    out
}

/// One violation text, or the number of defined runs.
fn check(f: &HirFunction, twice: bool, out: &mut u64) -> Result<u64, String> {
    let g = guard(|| optimize_function(f)).map_err(|e| format!("optimize_function panics: {e}"))?;
    if g.name() != f.name() || g.return_type() != f.return_type() || g.parameters() != f.parameters() { return Err("the optimizer changes the signature".into()); }
    if g.cuda_qualifier() != f.cuda_qualifier() { return Err("the optimizer changes the CUDA qualifier".into()); }
    if undeclared(f).is_empty() {
        if let Some(n) = undeclared(&g).first() { return Err(format!("after optimization {n} is used where it is not declared")); }
    }
    let h = guard(|| optimize_function(&g)).map_err(|e| format!("optimize_function panics on its own result: {e}"))?;
    if twice && format!("{h:?}") != format!("{g:?}") { return Err(format!("optimizing twice changes more: {:?}", h.body())); }
    let mut n = 0;
    for (a, b) in [(0, 0), (1, -1), (-7, 3), (300, 2)] {
        match exec(f, a, b) {
            Err(_) => continue,
            Ok(w) => {
                n += 1;
                match exec(&g, a, b) {
                    Ok(x) if x == w => *out = fnv(format!("{out}{x:?}").as_bytes()),
                    Ok(x) => return Err(format!("a={a} b={b}: {w:?} before, {x:?} after optimization")),
                    Err(e) => return Err(format!("a={a} b={b}: {w:?} before, {e:?} after optimization")),
                }
            }
        }
    }
    Ok(n)
}

fn func(t: T, body: Vec<S>) -> HirFunction {
    let q = [None, Some(CudaQualifier::Global), Some(CudaQualifier::Device), Some(CudaQualifier::Host)][body.len() % 4];
    let mut f = HirFunction::new_with_body("f".into(), t, vec![HirParameter::new("a".into(), T::Int), HirParameter::new("b".into(), T::Int)], body);
    f.set_cuda_qualifier(q);
    f
}

pub fn run(rep: &mut Report) {
    let th = rep.thorough;
    let mut jobs: Vec<(T, Vec<S>)> = vec![];
    for (i, e) in exprs(th).iter().enumerate() {
        for (k, c) in contexts(e) {
            if !th && i > 7000 && !matches!(k, "return" | "if" | "while" | "char") { continue; }
            jobs.push((T::Int, c.clone()));
            if matches!(k, "char" | "double") { jobs.push((T::Double, c)); }
        }
    }
    let n_expr = jobs.len();
    let comp = compounds(th);
    let before = [vec![], vec![decl("x", T::Int, Some(lit(50)))], vec![decl("x", T::Char, Some(lit(60))), decl("y", T::Int, Some(lit(70)))]];
    let after: Vec<Vec<S>> = vec![vec![], vec![ret(var("x"))], vec![S::Expression(obs(var("x")))], vec![decl("y", T::Char, Some(var("x"))), ret(var("y"))], vec![decl("z", T::Int, Some(bin(B::Add, var("x"), lit(1)))), ret(var("z")), S::Expression(obs(var("z")))]];
    for b in &before { for c in comp.iter().cloned().chain(nested()) { for a in &after {
        let mut v = b.clone();
        v.push(c.clone());
        v.extend(a.clone());
        jobs.push((T::Int, v));
    } } }
    // straight-line sequences
    let s = simple(false);
    for x in &s { for y in &s { for z in &s { for t in [T::Int, T::Char, T::Double] { jobs.push((t, vec![x.clone(), y.clone(), z.clone()])); } } } }
    // names that are prefixes of one another, values passed on through a chain of declarations
    for (x, y) in [("x", "y"), ("r", "rx"), ("rx", "r"), ("tmp", "tmp_1"), ("_tmp", "_"), ("a1", "b"), ("temp", "a_")] {
        let s = [
            decl(x, T::Int, Some(bin(B::Add, var("a"), lit(1)))), decl(y, T::Int, Some(bin(B::Multiply, var("b"), lit(3)))),
            decl(x, T::Int, Some(obs(lit(6)))), decl(y, T::Int, Some(var(x))), decl(x, T::Char, Some(var(y))),
            asg(x, var(y)), asg(y, bin(B::Add, var(x), lit(2))), S::Expression(obs(var(x))), S::Expression(obs(neg(var(y)))),
            ret(var(x)), ret(var(y)), ret(bin(B::Subtract, var(x), var(y))),
        ];
        let len = s.len();
        for k in 0..len.pow(4) {
            let b: Vec<S> = (0..4).map(|i| s[k / len.pow(i) % len].clone()).collect();
            jobs.push((T::Int, vec![decl(x, T::Int, Some(lit(8))), b[0].clone(), b[1].clone(), b[2].clone(), b[3].clone()]));
            if th || k % len == 0 { jobs.push((T::Int, b)); }
        }
    }
    // (whose passes stop at a documented limit, so a second run may go on)
    let deep_from = jobs.len();
    // deep nests of what the optimizer rewrites
    for depth in 1..=if th { 40 } else { 20 } {
        for pat in 0..6 {
            let mut b = vec![S::Expression(obs(var("b"))), decl("x", T::Int, Some(bin(B::Add, lit(1), lit(2)))), ret(var("x"))];
            let mut e = lit(3);
            for k in 0..depth {
                let one = if k % 2 == 0 { lit(1) } else { bin(B::Subtract, lit(3), lit(2)) };
                b = match pat {
                    0 => vec![S::If { condition: one, then_block: b, else_block: None }],
                    1 => vec![S::If { condition: bin(B::Subtract, one.clone(), one), then_block: vec![], else_block: Some(b) }],
                    2 => vec![decl("y", T::Int, Some(one.clone())), S::If { condition: if k % 3 == 0 { var("a") } else { one }, then_block: b, else_block: Some(vec![ret(var("y"))]) }],
                    3 => vec![S::While { condition: if k % 3 == 0 { var("a") } else { one }, body: b }, ret(lit(k))],
                    _ => b,
                };
                e = match (pat, k % 3) { (4, 0) => bin(B::Add, e, lit(1)), (4, 1) => neg(e), (4, _) => bin(B::BitwiseAnd, lit(255), e), (5, 0) => bin(B::Subtract, var("a"), e), (5, 1) => bin(B::Multiply, bin(B::Add, lit(1), lit(0)), e), (_, _) => E::Ternary { condition: Box::new(bin(B::Subtract, lit(2), lit(1))), then_expr: Box::new(e), else_expr: Box::new(obs(lit(1))) } };
            }
            b.push(ret(e.clone()));
            if pat >= 4 { b = vec![decl("x", T::Int, Some(e.clone())), ret(var("x"))]; }
            jobs.push((T::Int, b));
        }
    }
    rep.extra("functions_with_expressions", n_expr.into());
    let chunks: Vec<_> = jobs.chunks(2048).collect();
    let res = par_map(&chunks, |k, c| c.iter().enumerate().map(|(i, (t, b))| { let mut h = 0; let f = func(t.clone(), b.clone()); (check(&f, k * 2048 + i < deep_from, &mut h), h) }).collect::<Vec<_>>());
    for ((t, b), (r, h)) in jobs.iter().zip(res.into_iter().flatten()) {
        rep.states += 1;
        match r {
            Ok(n) => { rep.evaluations += n; rep.transitions += n; rep.traces += n; rep.outcome_hash(h); if rep.states % 90001 == 0 { rep.sample(format!("{b:?}")); } }
            Err(e) => {
                let g = optimize_function(&func(t.clone(), b.clone()));
                rep.violation(&format!("{t:?} {b:?}"), &e, json!({"function": format!("{b:#?}"), "optimized": format!("{:#?}", g.body())}));
            }
        }
    }
    rep.rule("every HIR function of the families: all 18 operators on 14x14 literal pairs and nested folds in 11 expression positions; if/while/for/switch with constant and variable conditions around all bodies of <= 2 statements (declarations of several types that shadow outer ones, assignments, calls, returns, break/continue), nested one level, between surrounding declarations and uses; straight-line sequences of 3, and of 4 with 7 pairs of variable names (one a prefix of the other). A reference interpreter (C conversions, scopes, call log) runs the function before and after the real optimize_function on 4 inputs; runs undefined before optimization are dropped. Nests of constant branches and folds up to 20 (thorough: 40) deep. Signature and CUDA qualifier are kept, and no variable is used out of scope after optimization that was not before, in unreachable code too; but for deep nests, optimizing the result again changes nothing");
}
