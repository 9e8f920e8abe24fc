//! C23: computations with float and double keep their values, and conversions happen where C puts them.
use crate::c01::{args, prog};
use crate::diffx::*;
use crate::report::*;

/// the exact value of a number of moderate size as an int
const Q: &str = "static int q(double r) { if (r != r) { return 7; } if (r > 100000 || r < -100000) { return 8; } int w = (int)r; double t = (r - w) * 268435456.0; int z = (int)t; return z ^ (w * 7); }\n";
const PRE: &str = "enum E { E0, E1 = 5 };\n#define D 2.5\n#define N 4\n#define H (1.0 / 3)\n";
const LOC: &str = "double x = a / 4.0; float y = b * 0.5f;";
/// expressions of every kind of operand and type
pub const EXPR: &[&str] = &[
    "x", "y", "a", "7", "2.5", "-0.5", ".5", "3.", "1.5f", "0.1", "0.1f", "1e3", "x + 'a'", "x * E1", "E1 / 2.0", "+x", "-x", "(float)x", "(double)y", "(float)(double)y", "(int)(float)x", "(double)(int)x", "(float)0.1", "(double)0.1f", "(unsigned)(a & 7) * x", "(x, y)", "a ? x : y", "a ? 1 : x", "a ? x : 1", "a > b ? x : y", "x > y ? a : b",
    "(x > y) + 0.5", "(a == b) * x", "!x + y", "-y", "- -x", "-(x + y)", "x - -y", "a / 2 + x", "a % 3 * x", "(a & 3) * x", "a / 2 * 2.0", "2.0 * (a / 2)", "x / 3", "y / 3", "1 / 3.0", "1 / 3.0f", "1.0f / 3", "1 / 3", "a / (b * b + 1.0)", "(a + b) / 2.0", "(a - b) * (a + b) * 0.5", "x * x + y * y", "x * x - 2 * x * y + y * y", "0.1 + 0.2", "0.1f + 0.2f", "0.1 + 0.2f",
    "x == y", "x != x", "0.1 == 0.1f", "0.5 == 0.5f", "x < y && y < 2", "x || y", "!(x < y)", "!y", "x && !y", "(x < 1) != (y < 1)", "D * x", "x * N", "H", "H * y", "x - (int)x", "(int)x", "(int)(x * 2)", "(double)a / 2", "(float)a / 3", "(a + b) * 0.5",
];
const LIT: &[&str] = &["1e10", "1E2", "1e+2", "1.e1", "1e-5", "1.5F", "2.f", ".25f", "1e2f", "100000.0", "0.1", "0.1f", "3.0e0", "00.5", "1.7976931348623157e308", "16777217.0f", "1e-320", "0.0", "-0.0", "3.14159265358979", "2.718281828f", "1e0", "123456789.0", "123456789.0f"];
/// statements over x, y, b, v, s, t, g and functions
const STMT: &[&str] = &[
    "x++;", "++x;", "x--;", "--x;", "y = x++;", "y = ++x;", "y = x--;", "y = --x + 1;", "z++; y = z;", "y = z++;", "--z; y = --z;", "y = -x;", "y = x ? 2 : 3;", "y = x > 1 ? x : b;", "y = a ? x : 1;", "y = !x;", "y = (int)x;", "b = x;", "b = (int)x + a;", "b = x * 2;", "y = a;", "y = a / 2;", "y = a / 2.0;", "b = a * 0.5;",
    "y = h(x);", "y = h(a);", "y = h(2);", "b = h(a);", "b = k(x);", "b = k(a);", "b = k(2.5);", "y = k(x);", "y = h(h(x) + 1);", "z = l(x);", "z = l(a);", "y = l(z);", "b = l(z) * 4;", "v[0] = x;", "v[1] = a;", "v[0] += 1;", "v[a & 1] = b;", "y = v[0] + v[1];", "v[1]++;", "y = v[0]++;", "u[0] = x;", "u[1] += x;", "u[1] *= 3;", "z = u[0] / u[1];",
    "s.d = x;", "s.d = a;", "s.d += 2;", "s.n = x;", "s.n = s.d;", "s.n += x;", "s.n *= 0.5;", "s.e = x;", "s.e += x;", "s.e -= 1;", "s.e++;", "y = s.d * s.n;", "y = s.e;", "r = &s; r->d += x;", "p(&x);", "p(&s.d);", "w(&z, x);", "w(&s.e, 0.1);", "while (x > 1) { x = x / 2; y = y + 1; }", "for (x = 0; x < 2; x += 0.5) { y += x; }", "for (double c = 0; c < 1; c += 0.25) { y += c; }", "do { x -= 1.5; } while (x > 0);",
    "if (x) { y = 1; }", "if (!x) { y = 1; }", "if (x && a) { y = 9; }", "if (z) { y = 1; } else { y = 2; }", "while (z) { z = 0; y += 1; }", "g = x; y = g;", "g += 1; y = g;", "g++; y = g * 2;", "b = g;", "g = a;", "gf = x; y = gf;", "gf += 0.1; z = gf;", "y = (x, 2.0);", "y = x = a;", "y = x += 1;", "b = x = 2.5;", "y = b = x;", "z = y = x / 3;", "y = z = x / 3;", "b += x;", "b -= 0.5;", "b *= 1.5f;", "b /= 2.0;",
    "x += a;", "x -= b;", "x *= z;", "x /= 4;", "z += x;", "z -= 0.1;", "z *= 3;", "z /= 3;", "z /= x * x + 1;", "y = sum(v, 2);", "s = mk(x); y = s.d;", "s = mk(a); y = s.e;", "m[1][0] = x; m[0][1] += 1; y = m[1][0] + m[0][1];", "q2[1].d = x; q2[1].e += a; y = q2[1].d + q2[1].e;", "switch ((int)x) { case 0: y = 1; break; case 1: y = 2; break; default: y = 3; }",
];
const WORLD: &str = "double g = 1.5;\nfloat gf = 2;\nstruct S { double d; int n; float e; };\ndouble h(double q) { return q * 2 + 1; }\nint k(double q) { return q * 2; }\nfloat l(float q) { return q / 3; }\nvoid p(double *q) { *q = *q + 1.5; }\nvoid w(float *q, double c) { *q += c; *q = *q * 2; }\ndouble sum(double c[], int n) { double t = 0; for (int i = 0; i < n; i++) { t += c[i]; } return t; }\nstruct S mk(double q) { struct S t; t.d = q; t.n = 2; t.e = q / 3; return t; }\n";

fn exprs(c: &str, e: &str) -> String { c.replace('@', e) }

pub fn programs(thorough: bool) -> Vec<Prog> {
    let ar = args(&[-7, -1, 0, 2, 5]);
    let mut ps = vec![];
    // expressions in every context that may convert
    for e in EXPR {
        for (k, pre, body, names) in [
            ("double init", "", "double r = @; return q(r);", vec![]),
            ("float init", "", "float r = @; return q(r);", vec![]),
            ("int init", "", "int r = @; return r;", vec![]),
            ("argument", "", "return q(@);", vec![]),
            ("compound", "", "double r = 1; r += @; r = r * (@); return q(r);", vec![]),
            ("float compound", "", "float r = 1; r -= @; r *= @; return q(r);", vec![]),
            ("int compound", "", "int r; r = @; r += @; return r;", vec![]),
            ("condition", "", "int n = 0; if (@) { n = 1; } if (!(@)) { n += 2; } return n * 64 + (a > 1 && (@)) * 8 + 16 * ((@) || b > 1) + ((@) ? 4 : 2);", vec![]),
            ("while", "", "int n = 0; while (@) { n++; x = 0; y = 0; a = 0; if (n > 3) { break; } } do { n += 8; if (n > 28) { break; } x = 0; y = 0; a = 0; } while (@); return n;", vec![]),
            ("for", "", "int n = 0; for (int i = 0; @; i++) { n++; x = 0; y = 0; a = 0; if (n > 3) { break; } } return n;", vec![]),
            ("return double", "double k(double x, float y, int a, int b) { return @; }\n", "return q(k(x, y, a, b));", vec!["k"]),
            ("return float", "float k(double x, float y, int a, int b) { return @; }\n", "return q(k(x, y, a, b));", vec!["k"]),
            ("return int", "int k(double x, float y, int a, int b) { return @; }\n", "return k(x, y, a, b);", vec!["k"]),
            ("arguments", "int k(double c, float d, int e) { return q(c) + q(d) * 3 + e * 5; }\n", "return k(@, @, @);", vec!["k"]),
            ("array", "", "float v[3] = { @, 1, 2.5 }; double w[2][2] = { { @, 1 }, { 2, 0.5f } }; int u[2] = { @, 3 }; return q(v[0] + v[1] + v[2]) + q(w[0][0] + w[0][1] + w[1][0] + w[1][1]) + u[0];", vec![]),
            ("struct", "struct S { double d; float e; int n; };\n", "struct S s = { @, @, @ }; struct S t; t.d = @; t.e = s.d; t.e += @; t.n = @; return q(t.d) + q(s.e) + q(t.e) + t.n * 3 + s.n;", vec!["S"]),
            ("switch", "", "switch ((int)(@)) { case 0: return 1; case 1: return 2; default: return 3; }", vec![]),
            ("compare", "", "return ((@) < x) + 2 * (a <= (@)) + 4 * ((@) == y) + 8 * (1 != (@));", vec![]),
            ("arithmetic", "", "return q((@) + x) ^ q(y * (@)) ^ q(a - (@)) ^ q((@) / 3);", vec![]),
            ("pointer", "void k(double *c, float *d, int *n) { int a = *n; int b = 2; double x = *c; float y = *d; *c = @; *d = @; *n = @; }\n", "int n = a & 3; k(&x, &y, &n); return q(x) ^ q(y) * 3 ^ n;", vec!["k"]),
            ("global", "double g = 0.25;\nfloat gf = 3;\nint gi = 1;\n", "g = @; gf = @; gi = @; g += @; gf *= @; gi += @; return q(g) ^ q(gf) * 3 ^ gi;", vec!["g", "gf", "gi"]),
        ] {
            let mut names = names.clone();
            names.extend(["q", "E", "D", "N", "H"]);
            ps.push(prog(format!("{k}: {e}"), exprs(&format!("{PRE}{Q}{pre}int f(int a, int b) {{ {LOC} {body} }}\n"), e), &names, &ar));
        }
    }
    // literals in every spelling
    for l in LIT { for (k, pre, body, names) in [
        ("double", "", "double r = @; return q(r) ^ q(-r);", vec![]),
        ("float", "", "float r = @; return q(r) ^ q(-r);", vec![]),
        ("times", "", "double r; r = @ * x; return q(r) ^ q(@ + y) ^ q(@ / 3);", vec![]),
        ("compare", "", "return (x < @) + 2 * (y >= @) + 4 * (a == @);", vec![]),
        ("global", "#define M @\ndouble g = @;\nfloat h = @;\nconst double c = @;\n", "return q(g) ^ q(M) * 3 ^ q(h) * 5 ^ q(c) * 7;", vec!["M", "g", "h", "c"]),
    ] {
        if l.starts_with('-') && k == "times" { continue; }
        let mut names = names.clone();
        names.push("q");
        ps.push(prog(format!("literal {k}: {l}"), exprs(&format!("{pre}{Q}int f(int a, int b) {{ {LOC} {body} }}\n"), l), &names, &ar));
    }}
    // two operators over all kinds of operands
    let leaf = ["x", "y", "a", "3", "2.5", "1.5f"];
    let ops = ["+", "-", "*", "/"];
    for o1 in ops { for o2 in ops { for l in leaf { for m in leaf {
        {
            let mut body = String::from("int t = 0;");
            for shape in 0..2 {
            for r in leaf {
                let r = if r == "a" { "b" } else { r };
                let guard = |s: &str| if ["a", "b"].contains(&s) { format!("({s} * {s} + 1)") } else { s.to_string() };
                let (m2, r2) = (if o1 == "/" { guard(m) } else { m.into() }, if o2 == "/" { guard(r) } else { r.into() });
                // integer division by zero only where both sides are integers
                let e = if shape == 0 { format!("{l} {o1} {m2} {o2} {r2}") } else { format!("{l} {o1} ({m} {o2} {r2})") };
                body += &format!(" t = (t * 3 + q({e})) & 16777215;");
            }
            }
            ps.push(prog(format!("ops {l} {o1} {m} {o2} ."), format!("{Q}int f(int a, int b) {{ {LOC} {body} return t; }}\n"), &["q"], &ar));
        }
    }}}}
    // statements, and pairs of them
    let names = ["q", "g", "gf", "S", "h", "k", "l", "p", "w", "sum", "mk"];
    let full = |s: &str| format!("{Q}{WORLD}int f(int a, int b) {{ g = 1.5; gf = 2; double x = a / 4.0; double y = 0.25; float z = b / 3.0f; double v[2] = {{1.5, 2}}; float u[2] = {{0.1, 3}}; double m[2][2] = {{{{1, 2}}, {{3, 4.5}}}}; struct S s; s.d = 0.5; s.n = 3; s.e = 0.25f; struct S *r; r = &s; struct S q2[2]; q2[0] = s; q2[1] = s; {s} double t = x * 3 + y * 5 + b * 7 + v[0] * 11 + v[1] * 13 + s.d * 17 + s.n * 19 + z * 23 + u[0] * 29 + u[1] * 31 + s.e * 37 + m[1][0] + m[0][1] + q2[1].d + q2[1].e; return q(t); }}\n");
    for s in STMT { ps.push(prog(format!("stmt {s}"), full(s), &names, &ar)); }
    for (i, s) in STMT.iter().enumerate() { for (j, t) in STMT.iter().enumerate() {
        if thorough || (i * 7 + j) % 11 == 0 { ps.push(prog(format!("pair {s} {t}"), full(&format!("{s} {t}")), &names, &ar)); }
    }}
    // bodies of loops and branches
    for (k, c) in [("if", "if (x < y) { @ }"), ("else", "if (z > x) { y += 1; } else { @ }"), ("for", "for (int i = 0; i < 3; i++) { @ }"), ("while", "int c = 0; while (c < 2) { @ c++; }")] { for s in STMT {
        if s.starts_with("while") || s.starts_with("do") { if k != "if" { continue; } }
        ps.push(prog(format!("{k} {s}"), full(&c.replace('@', s)), &names, &ar));
    }}
    // larger functions
    for (k, c, names) in [
        ("newton", "double root(double v) { double r = v; for (int i = 0; i < 20; i++) { r = (r + v / r) / 2; } return r; }\nint f(int a, int b) { return q(root(a * a + 1)) ^ q(root(2)); }\n", vec!["root"]),
        ("mean", "double mean(int v[], int n) { int t = 0; for (int i = 0; i < n; i++) { t += v[i]; } return (double)t / n; }\nint f(int a, int b) { int v[3] = {a, b, 5}; return q(mean(v, 3)); }\n", vec!["mean"]),
        ("power", "double power(double x, int n) { double r = 1; while (n > 0) { if (n % 2) { r *= x; } x *= x; n /= 2; } return r; }\nint f(int a, int b) { return q(power(a / 8.0, b & 7)); }\n", vec!["power"]),
        ("recursive", "double fact(int n) { if (n < 2) { return 1; } return n * fact(n - 1); }\nint f(int a, int b) { return q(fact(a & 7)) ^ q(1 / fact(b & 7)); }\n", vec!["fact"]),
        ("poly", "double poly(double c[3], double x) { return (c[2] * x + c[1]) * x + c[0]; }\nint f(int a, int b) { double c[3] = {1, a / 2.0, 0.1}; return q(poly(c, b)); }\n", vec!["poly"]),
        ("vector", "struct V { double x; double y; };\nstruct V add(struct V a, struct V b) { struct V r; r.x = a.x + b.x; r.y = a.y + b.y; return r; }\ndouble dot(const struct V *a, const struct V *b) { return a->x * b->x + a->y * b->y; }\nvoid scale(struct V *v, float k) { v->x *= k; v->y *= k; }\nint f(int a, int b) { struct V u = {a, 0.5}; struct V w = {0.25, b}; struct V t = add(u, w); scale(&t, 0.1f); return q(dot(&t, &u)) ^ q(t.x) ^ q(t.y) * 3; }\n", vec!["V", "add", "dot", "scale"]),
        ("round", "int round_half(double x) { return x < 0 ? (int)(x - 0.5) : (int)(x + 0.5); }\nint f(int a, int b) { return round_half(a / 4.0) * 16 + round_half(b * 0.3f); }\n", vec!["round_half"]),
        ("clamp", "float clamp(float v, float lo, float hi) { if (v < lo) { return lo; } else if (v > hi) { return hi; } return v; }\nint f(int a, int b) { return q(clamp(a, -1, 2.5)) ^ q(clamp(b / 3.0, 0, 1)); }\n", vec!["clamp"]),
        ("swap", "void swap(double *p, double *q2) { double t = *p; *p = *q2; *q2 = t; }\nint f(int a, int b) { double x = a / 2.0; double y = b / 3.0; if (x > y) { swap(&x, &y); } return q(x) ^ q(y) * 3; }\n", vec!["swap"]),
        ("temperature", "#define FREEZE 32\nfloat celsius(float f2) { return (5.0 / 9.0) * (f2 - FREEZE); }\nint f(int a, int b) { float t = 0; for (int i = 0; i <= 3; i++) { t += celsius(a + i * 20); } return q(t); }\n", vec!["FREEZE", "celsius"]),
        ("sort", "void sort(double v[], int n) { for (int i = 0; i < n; i++) { for (int j = 0; j < n - 1 - i; j++) { if (v[j] > v[j + 1]) { double t = v[j]; v[j] = v[j + 1]; v[j + 1] = t; } } } }\nint f(int a, int b) { double v[4] = {a, 0.5, b / 2.0, -0.25}; sort(v, 4); return q(v[0] + v[1] * 2 + v[2] * 4 + v[3] * 8); }\n", vec!["sort"]),
        ("accumulate", "double total = 0;\nint count = 0;\nvoid put(double v) { total += v; count++; }\ndouble average(void) { return count ? total / count : 0; }\nint f(int a, int b) { total = 0; count = 0; double e = average(); put(a); put(b / 2.0); put(1.5f); return q(average()) ^ q(e); }\n", vec!["total", "count", "put", "average"]),
        ("matrix", "int f(int a, int b) { double m[2][2] = {{1, a}, {b, 0.5}}; double r[2][2]; for (int i = 0; i < 2; i++) { for (int j = 0; j < 2; j++) { double t = 0; for (int k = 0; k < 2; k++) { t += m[i][k] * m[k][j]; } r[i][j] = t; } } return q(r[0][0] + r[0][1] * 2 + r[1][0] * 3 + r[1][1] * 5); }\n", vec![]),
        ("zeros", "int f(int a, int b) { double z = 0; double n = -z; return (1 / z > 0) + 2 * (1 / n > 0) + 4 * (z == n) + 8 * (z / z == z / z) + 16 * (a / (b * 0.0) > 1); }\n", vec![]),
        ("integral", "double fn1(double x) { return x * x + 1; }\ndouble area(double lo, double hi, int n) { double w = (hi - lo) / n; double t = 0; for (int i = 0; i < n; i++) { t += fn1(lo + (i + 0.5) * w); } return t * w; }\nint f(int a, int b) { return q(area(a, b, 10)); }\n", vec!["fn1", "area"]),
    ] {
        let mut names = names.clone();
        names.push("q");
        ps.push(prog(format!("whole {k}"), format!("{Q}{c}"), &names, &ar));
    }
    ps
}

pub fn run(rep: &mut Report) {
    let mut progs = programs(rep.thorough);
    if let Ok(f) = std::env::var("MC_FILTER") { progs.retain(|p: &Prog| p.key.starts_with(&f)); }
    eprintln!("programs {}", progs.len());
    let outs = run_batch(&progs, &default_transpile);
    let (ok, vac, _) = judge(rep, &progs, &outs);
    rep.extra("programs_ok", ok.into());
    rep.extra("programs_without_defined_input", vac.into());
    rep.rule(format!("{} expressions of float, double and int operands x 21 contexts (initialisers, assignments, compound assignments, conditions, arguments, results, elements, fields, globals, through pointers); {} literal spellings x 5 uses; all trees of two operators over 6 kinds of operands; {} statements alone, in branches and loops, and {} pairs of them; 15 larger functions; values compared to 2^-28, 25 inputs each", EXPR.len(), LIT.len(), STMT.len(), if rep.thorough { "all" } else { "every eleventh of the" }));
}
