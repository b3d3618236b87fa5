//! Function signatures and the typing rules of RFC 9535 section 2.4.
use crate::ast::*;
use std::collections::BTreeMap;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Ty {
    Value,
    Logical,
    Nodes,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Sig {
    pub params: Vec<Ty>,
    pub ret: Ty,
}

pub type Funcs = BTreeMap<String, Sig>;

pub fn standard() -> Funcs {
    let mut f = Funcs::new();
    let mut add = |n: &str, p: &[Ty], r: Ty| {
        f.insert(
            n.to_string(),
            Sig {
                params: p.to_vec(),
                ret: r,
            },
        );
    };
    add("length", &[Ty::Value], Ty::Value);
    add("count", &[Ty::Nodes], Ty::Value);
    add("value", &[Ty::Nodes], Ty::Value);
    add("match", &[Ty::Value, Ty::Value], Ty::Logical);
    add("search", &[Ty::Value, Ty::Value], Ty::Logical);
    f
}

#[derive(Debug, Clone, Default)]
pub struct Typing {
    pub name: usize,
    pub typ: usize,
    pub nonsingular_cmp: usize,
    /// queries where the grammar is silent about blanks inside brackets
    pub loose: usize,
}

impl Typing {
    pub fn ok(&self) -> bool {
        self.name == 0 && self.typ == 0 && self.nonsingular_cmp == 0
    }
}

pub fn check_query(q: &Query, f: &Funcs, t: &mut Typing) {
    for s in &q.segs {
        for x in &s.sels {
            match x {
                Sel::Filter(e) => check_test(e, f, t),
                Sel::Singular(q) => check_query(q, f, t),
                _ => {}
            }
        }
    }
}

fn check_test(e: &Expr, f: &Funcs, t: &mut Typing) {
    match e {
        Expr::Or(v) | Expr::And(v) => v.iter().for_each(|x| check_test(x, f, t)),
        Expr::Not(x) | Expr::Paren(x) => check_test(x, f, t),
        Expr::Cmp(_, a, b) => {
            check_comparable(a, f, t);
            check_comparable(b, f, t);
        }
        Expr::Query { q, .. } => check_query(q, f, t),
        Expr::Call(n, args) => {
            check_call(n, args, f, t);
            if let Some(s) = f.get(n) {
                if s.ret == Ty::Value {
                    t.typ += 1;
                }
            }
        }
        Expr::Lit(_) => t.typ += 1,
    }
}

fn check_comparable(e: &Expr, f: &Funcs, t: &mut Typing) {
    match e {
        Expr::Lit(_) => {}
        Expr::Query { q, loose, .. } => {
            check_query(q, f, t);
            if !q.is_singular() {
                t.nonsingular_cmp += 1;
            } else if *loose {
                t.loose += 1;
            }
        }
        Expr::Call(n, args) => {
            check_call(n, args, f, t);
            if let Some(s) = f.get(n) {
                if s.ret != Ty::Value {
                    t.typ += 1;
                }
            }
        }
        _ => t.typ += 1,
    }
}

fn check_call(n: &str, args: &[Expr], f: &Funcs, t: &mut Typing) {
    let sig = f.get(n);
    match sig {
        None => t.name += 1,
        Some(s) if s.params.len() != args.len() => t.typ += 1,
        _ => {}
    }
    for (i, a) in args.iter().enumerate() {
        let p = sig.and_then(|s| {
            if s.params.len() == args.len() {
                Some(s.params[i])
            } else {
                None
            }
        });
        match p {
            None => check_inner(a, f, t),
            Some(Ty::Logical) => match a {
                Expr::Lit(_) => t.typ += 1,
                _ => check_test(a, f, t),
            },
            Some(Ty::Value) => match a {
                Expr::Lit(_) => {}
                Expr::Query { q, loose, .. } => {
                    check_query(q, f, t);
                    if !q.is_singular() {
                        t.typ += 1;
                    } else if *loose {
                        t.loose += 1;
                    }
                }
                Expr::Call(n, a) => {
                    check_call(n, a, f, t);
                    if let Some(s) = f.get(n) {
                        if s.ret != Ty::Value {
                            t.typ += 1;
                        }
                    }
                }
                _ => {
                    check_inner(a, f, t);
                    t.typ += 1;
                }
            },
            Some(Ty::Nodes) => match a {
                Expr::Query { q, .. } => check_query(q, f, t),
                Expr::Call(n, a) => {
                    check_call(n, a, f, t);
                    if let Some(s) = f.get(n) {
                        if s.ret != Ty::Nodes {
                            t.typ += 1;
                        }
                    }
                }
                _ => {
                    check_inner(a, f, t);
                    t.typ += 1;
                }
            },
        }
    }
}

/// Only look for errors nested deeper; the expression itself is judged by the caller.
fn check_inner(e: &Expr, f: &Funcs, t: &mut Typing) {
    match e {
        Expr::Lit(_) => {}
        Expr::Call(n, a) => check_call(n, a, f, t),
        _ => check_test(e, f, t),
    }
}
