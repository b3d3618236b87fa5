//! Text for a reference syntax tree.
use crate::ast::*;
use crate::path::escape_name;

pub fn quoted(n: &str) -> String {
    let mut o = String::from("'");
    escape_name(n, &mut o);
    o.push('\'');
    o
}

pub fn num(n: f64) -> String {
    if n.fract() == 0.0 && n.abs() < 9.1e15 {
        format!("{}", n as i64)
    } else {
        let s = format!("{:e}", n);
        // Rust prints 1.5e-7 style, which is a valid RFC 9535 number
        if n.abs() >= 1e-5 && n.abs() < 1e15 {
            format!("{}", n)
        } else {
            s
        }
    }
}

pub fn segs(q: &Query, out: &mut String) {
    for s in &q.segs {
        if s.desc {
            out.push_str("..");
        }
        out.push('[');
        for (i, x) in s.sels.iter().enumerate() {
            if i > 0 {
                out.push_str(", ");
            }
            sel(x, out);
        }
        out.push(']');
    }
}

pub fn query(q: &Query) -> String {
    let mut o = String::from("$");
    segs(q, &mut o);
    o
}

pub fn sel(x: &Sel, out: &mut String) {
    match x {
        Sel::Name(n) => out.push_str(&quoted(n)),
        Sel::Wild => out.push('*'),
        Sel::Index(i) => out.push_str(&i.to_string()),
        Sel::Slice(a, b, c) => {
            if let Some(a) = a {
                out.push_str(&a.to_string());
            }
            out.push(':');
            if let Some(b) = b {
                out.push_str(&b.to_string());
            }
            if let Some(c) = c {
                out.push(':');
                out.push_str(&c.to_string());
            }
        }
        Sel::Filter(e) => {
            out.push('?');
            expr(e, out);
        }
        Sel::Singular(q) => {
            out.push('$');
            segs(q, out);
        }
    }
}

pub fn expr_text(e: &Expr) -> String {
    let mut o = String::new();
    expr(e, &mut o);
    o
}

pub fn expr(e: &Expr, out: &mut String) {
    match e {
        Expr::Or(v) => {
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    out.push_str(" || ");
                }
                wrap(x, matches!(x, Expr::Or(_)), out);
            }
        }
        Expr::And(v) => {
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    out.push_str(" && ");
                }
                wrap(x, matches!(x, Expr::Or(_) | Expr::And(_)), out);
            }
        }
        Expr::Not(x) => {
            out.push('!');
            wrap(
                x,
                !matches!(**x, Expr::Query { .. } | Expr::Call(..) | Expr::Paren(_)),
                out,
            );
        }
        Expr::Paren(x) => wrap(x, true, out),
        Expr::Cmp(o, a, b) => {
            expr(a, out);
            out.push(' ');
            out.push_str(o.text());
            out.push(' ');
            expr(b, out);
        }
        Expr::Query { root, q, .. } => {
            out.push(if *root { '$' } else { '@' });
            segs(q, out);
        }
        Expr::Call(n, a) => {
            out.push_str(n);
            out.push('(');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    out.push_str(", ");
                }
                expr(x, out);
            }
            out.push(')');
        }
        Expr::Lit(Lit::Null) => out.push_str("null"),
        Expr::Lit(Lit::Bool(b)) => out.push_str(if *b { "true" } else { "false" }),
        Expr::Lit(Lit::Int(n)) => out.push_str(&num(*n as f64)),
        Expr::Lit(Lit::Num(n)) => out.push_str(&num(*n)),
        Expr::Lit(Lit::Str(s)) => out.push_str(&quoted(s)),
    }
}

fn wrap(x: &Expr, p: bool, out: &mut String) {
    if p {
        out.push('(');
    }
    expr(x, out);
    if p {
        out.push(')');
    }
}
