//! C08: decy never panics, aborts or hangs: every input gives Ok or Err.
//! Inputs are judged in worker processes, so that aborts and stack overflows are observed too.
use crate::report::*;
use serde_json::json;
use std::io::{BufRead, BufReader, Write};
use std::process::{Command, Stdio};

/// Worker: reads length-prefixed hex inputs, answers one line each.
pub fn worker() {
    let stdin = std::io::stdin();
    for l in stdin.lock().lines() {
        let Ok(l) = l else { break };
        let bytes: Vec<u8> = (0..l.len() / 2).filter_map(|i| u8::from_str_radix(&l[2 * i..2 * i + 2], 16).ok()).collect();
        let c = String::from_utf8_lossy(&bytes).to_string();
        let r = guard(|| match decy_core::transpile(&c) {
            Ok(s) => format!("ok {}", fnv(s.as_bytes())),
            Err(e) => format!("err {}", fnv(format!("{e:#}").as_bytes())),
        });
        println!("{}", match r { Ok(s) => s, Err(e) => format!("panic {}", e.replace('\n', " ")) });
        let _ = std::io::stdout().flush();
    }
}

struct Worker {
    ch: std::process::Child,
    rx: std::sync::mpsc::Receiver<String>,
}
impl Worker {
    fn new() -> Worker {
        let mut ch = Command::new(std::env::current_exe().unwrap())
            .arg("worker-total").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("worker");
        let out = ch.stdout.take().unwrap();
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::spawn(move || {
            for l in BufReader::new(out).lines() {
                let Ok(l) = l else { break };
                if tx.send(l).is_err() { break; }
            }
        });
        Worker { ch, rx }
    }
    fn ask(&mut self, c: &str) -> Result<String, String> {
        let hex: String = c.bytes().map(|b| format!("{b:02x}")).collect();
        let w = self.ch.stdin.as_mut().unwrap();
        if writeln!(w, "{hex}").and_then(|_| w.flush()).is_err() {
            return Err("worker gone".into());
        }
        match self.rx.recv_timeout(std::time::Duration::from_secs(60)) {
            Ok(s) => Ok(s),
            Err(std::sync::mpsc::RecvTimeoutError::Timeout) => Err("no answer within 60 s (hang)".into()),
            Err(_) => Err(format!("the process died: {:?}", self.ch.wait())),
        }
    }
}
impl Drop for Worker {
    fn drop(&mut self) {
        let _ = self.ch.kill();
        let _ = self.ch.wait();
    }
}

pub const FILE_TOK: &[&str] = &["int", "f", "(", ")", "{", "}", ";", "=", "1", "*", "struct", ",", "return", "\"s\"", "[", "]", "typedef", "enum"];
pub const BODY_TOK: &[&str] = &["int", "x", "p", "(", ")", "{", "}", ";", "=", "1", "*", "&", "if", "else", "while", "return", "\"s\"", "[", "]", "->", ".", "++", ",", "?", ":", "f"];

fn seqs(tok: &[&str], n: usize) -> Vec<String> {
    let mut r: Vec<String> = vec![String::new()];
    let mut last = r.clone();
    for _ in 0..n {
        let mut nx = Vec::with_capacity(last.len() * tok.len());
        for l in &last { for t in tok { nx.push(format!("{l} {t}")); } }
        r.extend(nx.iter().cloned());
        last = nx;
    }
    r
}

/// Every type x declaration position x initializer.
fn typed_programs() -> Vec<(String, String)> {
    let types = ["int", "char", "short", "long", "long long", "unsigned", "unsigned char", "signed char", "unsigned long", "float", "double", "long double", "_Bool", "void", "size_t", "struct S", "struct T", "union U", "enum E", "A", "SP", "FP", "int *", "char *", "const char *", "void *", "int **", "struct S *", "union U *", "const int", "volatile int", "FILE *"];
    let pre = "typedef unsigned long size_t;\ntypedef struct _F FILE;\nstruct S { int a; char b; };\nstruct T { struct S s; int v[3]; int *p; };\nunion U { int i; float f; };\nenum E { E0, E1 };\ntypedef int A[3];\ntypedef struct S *SP;\ntypedef int (*FP)(int);\nint callee(int a) { return a; }\n";
    let forms: Vec<(&str, String)> = vec![
        ("global", "$T v;\n".into()),
        ("global0", "$T v = 0;\n".into()),
        ("globalb", "$T v = {0};\n".into()),
        ("static", "static $T v;\n".into()),
        ("extern", "extern $T v;\n".into()),
        ("garr", "$T v[2];\n".into()),
        ("garrinit", "$T v[] = {0, 0};\n".into()),
        ("local", "void f(void) { $T v; }\n".into()),
        ("locals", "int f(void) { $T v; $T w; return 0; }\n".into()),
        ("local0", "void f(void) { $T v = 0; }\n".into()),
        ("localb", "void f(void) { $T v = {0}; }\n".into()),
        ("lstatic", "int f(void) { static $T v; return 0; }\n".into()),
        ("larr", "void f(void) { $T v[2]; }\n".into()),
        ("larr2", "void f(void) { $T v[2][3]; }\n".into()),
        ("larrinit", "void f(void) { $T v[2] = {0, 0}; }\n".into()),
        ("vla", "void f(int n) { $T v[n]; }\n".into()),
        ("lptr", "void f(void) { $T *v = 0; }\n".into()),
        ("lptrb", "void f(void) { $T *v; }\n".into()),
        ("param", "void f($T v) { }\n".into()),
        ("param2", "int f($T v, $T w) { return 0; }\n".into()),
        ("parr", "void f($T v[3]) { }\n".into()),
        ("parru", "void f($T v[], int n) { for (int i = 0; i < n; i++) { v[i]; } }\n".into()),
        ("pptr", "void f($T *v) { *v; }\n".into()),
        ("ret", "$T f(void);\n".into()),
        ("retb", "$T g; $T f(void) { return g; }\n".into()),
        ("retempty", "$T f(void) { }\n".into()),
        ("retparam", "$T f($T v) { return v; }\n".into()),
        ("field", "struct Z { $T v; };\n".into()),
        ("fields", "struct Z { $T v; $T *p; $T a[2]; };\nvoid f(struct Z *z) { z->p = 0; }\n".into()),
        ("unionf", "union Z { $T v; int k; };\nint f(union Z z) { return z.k; }\n".into()),
        ("typedef", "typedef $T V;\nV *f(V *v) { return v; }\n".into()),
        ("cast", "int f(int a) { return (int)($T)a; }\n".into()),
        ("sizeof", "int f(void) { return sizeof($T); }\n".into()),
        ("fnptr", "$T (*fp)(int);\nvoid f(void) { fp(1); }\n".into()),
        ("malloc", "void *malloc(size_t);\nvoid free(void *);\nvoid f(void) { $T *v = malloc(sizeof($T)); free(v); }\n".into()),
        ("mallocn", "void *malloc(size_t);\nvoid free(void *);\n$T *f(int n) { $T *v = ($T *)malloc(n * sizeof($T)); v[0]; return v; }\n".into()),
        ("assign", "void f($T *a, $T *b) { *a = *b; a = b; }\n".into()),
        ("cmp", "int f($T *a, $T *b) { return a == b || !a || *a; }\n".into()),
        ("arith", "int f($T *a, int n) { a += n; a++; return *(a + 1) ? a - a : a[n]; }\n".into()),
        ("variadic", "int f($T v, ...) { return 0; }\n".into()),
        ("compound", "void f(void) { $T *p = &($T){0}; }\n".into()),
        ("switch", "int f($T v) { switch (v) { case 0: return 1; default: return 2; } }\n".into()),
        ("ternary", "$T f(int c, $T a, $T b) { return c ? a : b; }\n".into()),
        ("addr", "void g($T *p) { }\nvoid f(void) { $T v; g(&v); }\n".into()),
        ("addrarr", "void g($T *p) { }\nvoid f(void) { $T v[2]; g(v); g(&v[1]); }\n".into()),
        ("callarg", "void g($T v) { }\nvoid f($T v) { g(v); }\n".into()),
        ("if", "int f($T v) { if (v) { return 1; } while (v) { break; } return !v; }\n".into()),
        ("ops", "int f($T a, $T b) { a += b; a = a * b + 1; a++; return a < b; }\n".into()),
    ];
    let mut out = vec![];
    for t in types {
        for (k, f) in &forms {
            out.push((format!("type {t} / {k}"), format!("{pre}{}", f.replace("$T", t))));
        }
    }
    out
}

/// Constructs outside the supported subset, one each (also bases for single-token edits).
pub fn exotic() -> Vec<(&'static str, &'static str)> {
    vec![
        ("goto", "int f(int a) { int i = 0; again: i++; if (i < a) goto again; return i; }"),
        ("fnptr", "int add(int a, int b) { return a + b; } int f(int a) { int (*op)(int, int) = add; return op(a, 2); }"),
        ("union", "union U { int i; char c[4]; }; int f(int a) { union U u; u.i = a; return u.c[0]; }"),
        ("bitfield", "struct B { unsigned a : 3; unsigned b : 5; }; int f(void) { struct B b; b.a = 1; return b.a; }"),
        ("designated", "struct P { int x; int y; }; int f(void) { struct P p = { .y = 2, .x = 1 }; int v[3] = { [1] = 5 }; return p.y + v[1]; }"),
        ("comma", "int f(int a) { int b; b = (a++, a + 1); for (int i = 0, j = 9; i < j; i++, j--) b += i; return b; }"),
        ("linked", "struct N { int v; struct N *next; }; int f(struct N *h) { int s = 0; while (h) { s += h->v; h = h->next; } return s; }"),
        ("heap", "void *malloc(unsigned long); void free(void *); int f(int n) { int *p = malloc(n * 4); for (int i = 0; i < n; i++) p[i] = i; int r = p[0]; free(p); return r; }"),
        ("string", "int f(const char *s) { int n = 0; while (*s) { if (*s == 'a') n++; s++; } return n; }"),
        ("matrix", "int f(int n) { int m[2][3] = {{1, 2, 3}, {4, 5, 6}}; int s = 0; for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) s += m[i][j]; return s; }"),
        ("switchnest", "int f(int a) { switch (a) { case 1: { int b = 2; return b; } case 2: switch (a + 1) { case 3: break; } default: break; } return 0; }"),
        ("macrofn", "#define SQ(x) ((x) * (x))\n#define MAX(a, b) ((a) > (b) ? (a) : (b))\nint f(int a) { return SQ(a) + MAX(a, 3); }"),
        ("cond", "#ifdef X\nint x;\n#else\nint y;\n#endif\n#if 0\n#endif\nint f(void) { return y; }"),
        ("static", "static int counter(void) { static int n = 0; n++; return n; } int f(void) { return counter() + counter(); }"),
        ("struct-ret", "struct P { int x; int y; }; struct P mk(int a) { struct P p = { a, a }; return p; } int f(int a) { return mk(a).x; }"),
        ("const", "const int K = 3; static const char *names[] = { \"a\", \"b\" }; int f(int i) { return names[i & 1][0] + K; }"),
        ("inline", "static inline int sq(int x) { return x * x; } extern int e(int); int f(int a) { return sq(a); }"),
        ("do", "int f(int a) { do { a--; if (a == 3) continue; if (a == 1) break; } while (a > 0); return a; }"),
        ("ptrptr", "void f(int **pp, int *q) { *pp = q; **pp = 3; (*pp)++; }"),
        ("pthread", "#include <pthread.h>\npthread_mutex_t m; int c; void *w(void *a) { pthread_mutex_lock(&m); c++; pthread_mutex_unlock(&m); return 0; }"),
        ("stdio", "#include <stdio.h>\nint main(int argc, char **argv) { FILE *fp = fopen(argv[1], \"r\"); char b[10]; if (!fp) { fprintf(stderr, \"no %s\\n\", argv[1]); return 1; } while (fgets(b, 10, fp)) { printf(\"%s\", b); } fclose(fp); return 0; }"),
        ("string-h", "#include <string.h>\nint f(const char *a) { char b[20]; strcpy(b, a); strcat(b, \"x\"); return strlen(b) + strcmp(a, b) + memcmp(a, b, 2); }"),
        ("float", "double f(double x, float y) { double r = x * 2.5e3 + y / .5f; if (r > 1.0) r -= 0x1p3; return (int)r % 3 + r; }"),
        ("nestfn", "int f(int n) { return n < 2 ? n : f(n - 1) + f(n - 2); } int g(void) { return f(f(f(3))); }"),
        ("attr", "__attribute__((noinline)) int f(int a) { return __builtin_expect(a, 1); } int _Static = 1; _Static_assert(1, \"ok\");"),
        ("generic", "int f(int a) { return _Generic(a, int: 1, default: 2); }"),
        ("stmtexpr", "int f(int a) { return ({ int b = a; b + 1; }); }"),
        ("typeof", "int f(int a) { __typeof__(a) b = a; return b; }"),
        ("asm", "int f(int a) { __asm__(\"nop\"); return a; }"),
        ("old", "int f(a, b) int a; int b; { return a + b; }"),
        ("wide", "int f(void) { return L'x' + sizeof(L\"abc\") + u8\"z\"[0]; }"),
        ("cuda", "__global__ void k(int *a, int n) { int i = threadIdx.x; if (i < n) a[i] = i; }"),
        ("class", "class A { public: int x; int get() { return x; } }; int f() { A a; return a.get(); }"),
    ]
}

/// Odd texts that are not C at all.
fn odd() -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = vec![];
    for (k, s) in [
        ("empty", ""), ("nl", "\n"), ("nul", "\0"), ("bom", "\u{feff}int f(void) { return 0; }"), ("crlf", "int f(int a) {\r\n return a;\r\n}\r\n"),
        ("utf8", "// h\u{e9}llo\nint f(void) { return 0; }"), ("utf8str", "#include <stdio.h>\nint main(void) { printf(\"h\u{e9}\u{4e16}%d %\", 1); return 0; }"),
        ("utf8fmt", "#include <stdio.h>\nint main(void) { printf(\"\u{e9}%q\u{e9}%\"); return 0; }"), ("utf8id", "int \u{e9}t\u{e9}(int \u{e4}) { return \u{e4}; }"),
        ("unterminated", "int f(void) { return \"abc; }"), ("comment", "/* never closed"), ("splice", "int f\\\n(void) { re\\\nturn 0; }"), ("trigraph", "??=define X 1\nint f(void) { return X; }"),
        ("incl", "#include"), ("incl2", "#include \""), ("incl3", "#include \"\""), ("incl4", "#include <"), ("incl5", "#include <>"), ("incl6", "#include \"nope.h\""), ("incl7", "#include \".\""), ("incl8", "#include \u{e9}\"x.h\""), ("incl9", "#include \u{e9}<x.h>"), ("incl10", "#include X"),
        ("def", "#define"), ("def2", "#define X"), ("def3", "#define X(\nint f(void) { return 0; }"), ("def4", "#define X X\nint f(void) { return 0; }"), ("pragma", "#pragma once\n#error bad\n"), ("hash", "#"), ("hash2", "##"),
        ("selfref", "struct A { struct A a; };"), ("dupdef", "int f(void) { return 1; } int f(void) { return 2; }"), ("duptype", "struct A { int x; }; struct A { int y; };"), ("conflict", "int f(int); char f(char a) { return a; }"),
        ("bigint", "int f(void) { return 99999999999999999999999; }"), ("bigint2", "unsigned long long f(void) { return 18446744073709551615ULL; }"), ("neg", "int f(void) { return -2147483648; }"), ("char", "int f(void) { return ''; }"), ("charm", "int f(void) { return 'ab'; }"), ("esc", "int f(void) { return '\\x'; }"), ("esc2", "char *f(void) { return \"\\xff\\777\\u1234\"; }"),
        ("arrneg", "int v[-1]; int f(void) { return v[0]; }"), ("arrzero", "int v[0]; int f(void) { return sizeof v; }"), ("arrbig", "int v[2147483647]; int f(void) { return v[1]; }"), ("div0", "int v[1 / 0];"), ("enumbig", "enum E { A = 2147483647, B }; enum F { C = -2147483648, D = 4294967296 };"),
        ("braces", "}}}}{{{{"), ("parens", "((((((((((("), ("mixed", "int int int ; ; ;"), ("kw", "int if(int while) { return while; }"), ("rustkw", "int fn(int match, int impl) { int let = match; return let + impl; } struct type { int ref; }; enum move { dyn, crate };"),
    ] {
        v.push((format!("odd {k}"), s.to_string()));
    }
    for n in [10usize, 60, 200] {
        v.push((format!("deep paren {n}"), format!("int f(int a) {{ return {}a{}; }}", "(".repeat(n), ")".repeat(n))));
        v.push((format!("deep block {n}"), format!("int f(int a) {{ {}a++;{} return a; }}", "{".repeat(n), "}".repeat(n))));
        v.push((format!("deep if {n}"), format!("int f(int a) {{ {}a++; return a; }}", "if (a) ".repeat(n))));
        v.push((format!("deep unary {n}"), format!("int f(int a) {{ return {}a; }}", "!-~".repeat(n))));
        v.push((format!("deep ptr {n}"), format!("int f(int {}p) {{ return {}p == 0; }}", "*".repeat(n), "*".repeat(n.saturating_sub(1)))));
        v.push((format!("deep call {n}"), format!("int g(int a) {{ return a; }} int f(int a) {{ return {}a{}; }}", "g(".repeat(n), ")".repeat(n))));
        v.push((format!("long chain {n}"), format!("int f(int a) {{ return {}1; }}", "a + ".repeat(n))));
        v.push((format!("deep ternary {n}"), format!("int f(int a) {{ return {}2; }}", "a ? 1 : ".repeat(n))));
    }
    v
}

fn tokens(c: &str) -> Vec<String> {
    let b: Vec<char> = c.chars().collect();
    let mut i = 0;
    let mut v = vec![];
    while i < b.len() {
        let s = i;
        if b[i].is_whitespace() { i += 1; continue; }
        if b[i] == '#' { while i < b.len() && b[i] != '\n' { i += 1; } v.push(format!("\n{}\n", b[s..i].iter().collect::<String>())); continue; }
        if b[i] == '"' || b[i] == '\'' { let q = b[i]; i += 1; while i < b.len() && b[i] != q { if b[i] == '\\' { i += 1; } i += 1; } i = (i + 1).min(b.len()); }
        else if b[i].is_alphanumeric() || b[i] == '_' { while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_' || b[i] == '.') { i += 1; } }
        else { i += 1; if i < b.len() && ["++", "--", "->", "==", "!=", "<=", ">=", "&&", "||", "+=", "-=", "*=", "<<", ">>"].contains(&format!("{}{}", b[s], b[i]).as_str()) { i += 1; } }
        v.push(b[s..i].iter().collect());
    }
    v
}

pub fn inputs(thorough: bool) -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = odd();
    for (k, c) in exotic() { v.push((format!("exotic {k}"), c.to_string())); }
    v.extend(typed_programs());
    // single-token edits of every exotic program
    let subst: &[&str] = if thorough { &["", "int", "0", "(", "}", "*", ";", "x", "\"s\"", "return"] } else { &["", "0", "*"] };
    for (k, c) in exotic() {
        let t = tokens(c);
        for i in 0..t.len() {
            for s in subst {
                let mut u = t.clone();
                u[i] = s.to_string();
                v.push((format!("edit {k} {i} {s:?}"), u.join(" ")));
            }
            if thorough {
                let mut u = t.clone();
                u.insert(i, t[i].clone());
                v.push((format!("dup {k} {i}"), u.join(" ")));
                if i + 1 < t.len() { let mut u = t.clone(); u.swap(i, i + 1); v.push((format!("swap {k} {i}"), u.join(" "))); }
                v.push((format!("cut {k} {i}"), t[..i].join(" ")));
            } else if i % 3 == 0 {
                v.push((format!("cut {k} {i}"), t[..i].join(" ")));
            }
        }
    }
    // short token sequences
    for (i, s) in seqs(FILE_TOK, if thorough { 3 } else { 2 }).into_iter().enumerate() { v.push((format!("file {i}{s}"), s)); }
    for (i, s) in seqs(BODY_TOK, if thorough { 3 } else { 2 }).into_iter().enumerate() {
        v.push((format!("body {i}{s}"), format!("int f(int x, int *p) {{ {s} ; return x; }}")));
    }
    v
}

pub fn run(rep: &mut Report) {
    let v = inputs(rep.thorough);
    eprintln!("inputs {}", v.len());
    let chunks: Vec<&[(String, String)]> = v.chunks(100).collect();
    let res = par_map(&chunks, |_, ch| {
        let mut w = Worker::new();
        ch.iter().map(|(_, c)| match w.ask(c) {
            Ok(s) => s,
            Err(e) => { w = Worker::new(); format!("dead {e}") }
        }).collect::<Vec<_>>()
    });
    let (mut ok, mut err) = (0u64, 0u64);
    for ((k, c), r) in v.iter().zip(res.into_iter().flatten()) {
        rep.states += 1;
        rep.transitions += 1;
        rep.evaluations += 1;
        if let Some(h) = r.strip_prefix("ok ") { ok += 1; rep.traces += 1; rep.outcome(h); }
        else if let Some(h) = r.strip_prefix("err ") { err += 1; rep.traces += 1; rep.outcome(h); }
        else { rep.violation(k, &format!("transpile does not return: {r}"), json!({"c": c})); }
    }
    rep.extra("transpiled", ok.into());
    rep.extra("rejected_with_an_error", err.into());
    rep.rule("every type x declaration/use form (32 x 48), every listed construct outside the subset, every single-token deletion, truncation and substitution of those, odd texts and nesting depths up to 200, all token sequences of length <= 2 (thorough 3) at file level and in a function body; each transpiled in a worker process: no panic, abort, signal or 60 s hang");
}
