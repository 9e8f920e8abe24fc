//! Exhaustive enumeration of C expressions and statements (shared by C01/C02/...).
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum E {
    Leaf(&'static str),
    Un(&'static str, Rc<E>),
    Bin(&'static str, Rc<E>, Rc<E>),
    Tern(Rc<E>, Rc<E>, Rc<E>),
    Cast(&'static str, Rc<E>),
}

pub const BINOPS: &[&str] = &[
    "+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "==", "!=", "<", "<=", ">", ">=", "&&", "||",
];
pub const UNOPS: &[&str] = &["-", "~", "!"];

pub fn prec(e: &E) -> u8 {
    match e {
        E::Leaf(s) => {
            if s.starts_with('-') {
                14
            } else {
                16
            }
        }
        E::Un(..) | E::Cast(..) => 14,
        E::Bin(o, ..) => match *o {
            "*" | "/" | "%" => 13,
            "+" | "-" => 12,
            "<<" | ">>" => 11,
            "<" | "<=" | ">" | ">=" => 10,
            "==" | "!=" => 9,
            "&" => 8,
            "^" => 7,
            "|" => 6,
            "&&" => 5,
            "||" => 4,
            _ => unreachable!(),
        },
        E::Tern(..) => 3,
    }
}

fn wrap(s: String, w: bool) -> String {
    if w {
        format!("({s})")
    } else {
        s
    }
}

/// `full`: parenthesise every non-leaf operand.  Otherwise minimal C parentheses.
pub fn render(e: &E, full: bool) -> String {
    let sub = |x: &E, min: u8| -> String {
        let s = render(x, full);
        let need = if full { !matches!(x, E::Leaf(_)) } else { prec(x) < min };
        wrap(s, need)
    };
    match e {
        E::Leaf(s) => s.to_string(),
        E::Un(o, x) => {
            let s = sub(x, 14);
            if s.starts_with('-') || s.starts_with('+') {
                format!("{o} {s}")
            } else {
                format!("{o}{s}")
            }
        }
        E::Cast(t, x) => format!("({t}){}", sub(x, 14)),
        E::Bin(o, l, r) => {
            let p = prec(e);
            format!("{} {o} {}", sub(l, p), sub(r, p + 1))
        }
        E::Tern(c, a, b) => format!("{} ? {} : {}", sub(c, 4), sub(a, 0), sub(b, 3)),
    }
}

pub fn nops(e: &E) -> usize {
    match e {
        E::Leaf(_) => 0,
        E::Un(_, x) | E::Cast(_, x) => 1 + nops(x),
        E::Bin(_, l, r) => 1 + nops(l) + nops(r),
        E::Tern(a, b, c) => 1 + nops(a) + nops(b) + nops(c),
    }
}

/// All operator trees with exactly n operators; leaves are holes filled by `fill`.
pub fn trees(n: usize, un: &[&'static str], bin: &[&'static str], tern: bool, cast: &[&'static str]) -> Vec<Rc<E>> {
    if n == 0 {
        return vec![Rc::new(E::Leaf("?"))];
    }
    let mut r = vec![];
    for x in trees(n - 1, un, bin, tern, cast) {
        for o in un {
            r.push(Rc::new(E::Un(o, x.clone())));
        }
        for t in cast {
            r.push(Rc::new(E::Cast(t, x.clone())));
        }
    }
    for k in 0..n {
        let ls = trees(k, un, bin, tern, cast);
        let rs = trees(n - 1 - k, un, bin, tern, cast);
        for l in &ls {
            for rr in &rs {
                for o in bin {
                    r.push(Rc::new(E::Bin(o, l.clone(), rr.clone())));
                }
            }
        }
    }
    if tern {
        for i in 0..n {
            for j in 0..n - i {
                let k = n - 1 - i - j;
                for a in trees(i, un, bin, tern, cast) {
                    for b in trees(j, un, bin, tern, cast) {
                        for c in trees(k, un, bin, tern, cast) {
                            r.push(Rc::new(E::Tern(a.clone(), b.clone(), c.clone())));
                        }
                    }
                }
            }
        }
    }
    r
}

pub fn holes(e: &E) -> usize {
    match e {
        E::Leaf(_) => 1,
        E::Un(_, x) | E::Cast(_, x) => holes(x),
        E::Bin(_, l, r) => holes(l) + holes(r),
        E::Tern(a, b, c) => holes(a) + holes(b) + holes(c),
    }
}

pub fn fill(e: &E, names: &[&'static str], i: &mut usize) -> Rc<E> {
    Rc::new(match e {
        E::Leaf(_) => {
            let s = names[*i % names.len()];
            *i += 1;
            E::Leaf(s)
        }
        E::Un(o, x) => E::Un(o, fill(x, names, i)),
        E::Cast(o, x) => E::Cast(o, fill(x, names, i)),
        E::Bin(o, l, r) => {
            let l = fill(l, names, i);
            E::Bin(o, l, fill(r, names, i))
        }
        E::Tern(a, b, c) => {
            let a = fill(a, names, i);
            let b = fill(b, names, i);
            E::Tern(a, b, fill(c, names, i))
        }
    })
}
