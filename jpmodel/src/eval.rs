//! Reference evaluator. Nodes are (path, value) pairs; objects are visited in the order
//! in which the JSON value iterates its members, descendants in pre-order.
use crate::ast::*;
use crate::iregexp;
use crate::path::Step;
use serde_json::Value;

thread_local! {
    static STEPS: std::cell::Cell<u64> = std::cell::Cell::new(0);
}

/// How often a selector was applied to a node on this thread: the steps of the reference.
pub fn steps() -> u64 {
    STEPS.with(|s| s.get())
}

#[derive(Debug, Clone)]
pub struct Node<'v> {
    pub path: Vec<Step>,
    pub value: &'v Value,
}

/// Result of a function expression / comparable.
#[derive(Debug, Clone)]
pub enum Res<'v> {
    Nothing,
    Value(Val<'v>),
    Logical(bool),
    Nodes(Vec<Node<'v>>),
}

#[derive(Debug, Clone)]
pub enum Val<'v> {
    Null,
    Bool(bool),
    Num(Num),
    Str(String),
    Ref(&'v Value),
}

/// A number, keeping integers exact.
#[derive(Debug, Clone, Copy)]
pub enum Num {
    I(i128),
    F(f64),
}

impl Num {
    pub fn of(v: &serde_json::Number) -> Num {
        if let Some(i) = v.as_i64() {
            Num::I(i as i128)
        } else if let Some(u) = v.as_u64() {
            Num::I(u as i128)
        } else {
            Num::F(v.as_f64().unwrap())
        }
    }
    fn cmp(self, o: Num) -> Option<std::cmp::Ordering> {
        match (self, o) {
            (Num::I(a), Num::I(b)) => Some(a.cmp(&b)),
            (a, b) => a.f().partial_cmp(&b.f()),
        }
    }
    pub fn f(self) -> f64 {
        match self {
            Num::I(a) => a as f64,
            Num::F(a) => a,
        }
    }
}

pub fn val(v: &Value) -> Val<'_> {
    match v {
        Value::Null => Val::Null,
        Value::Bool(b) => Val::Bool(*b),
        Value::Number(n) => Val::Num(Num::of(n)),
        Value::String(s) => Val::Str(s.clone()),
        v => Val::Ref(v),
    }
}

/// Extension functions for the model: name -> implementation over converted arguments.
pub type Ext<'f> = &'f dyn for<'v> Fn(&str, Vec<Res<'v>>) -> Res<'v>;

pub struct Cx<'v, 'f> {
    pub root: &'v Value,
    pub funcs: &'f crate::types::Funcs,
    pub ext: Option<Ext<'f>>,
}

pub fn find<'v>(q: &Query, doc: &'v Value, funcs: &crate::types::Funcs) -> Vec<Node<'v>> {
    let cx = Cx {
        root: doc,
        funcs,
        ext: None,
    };
    query(q, doc, &cx)
}

pub fn find_ext<'v>(
    q: &Query,
    doc: &'v Value,
    funcs: &crate::types::Funcs,
    ext: Ext,
) -> Vec<Node<'v>> {
    let cx = Cx {
        root: doc,
        funcs,
        ext: Some(ext),
    };
    query(q, doc, &cx)
}

pub fn query<'v>(q: &Query, from: &'v Value, cx: &Cx<'v, '_>) -> Vec<Node<'v>> {
    let mut cur = vec![Node {
        path: vec![],
        value: from,
    }];
    for s in &q.segs {
        let mut out = vec![];
        for n in &cur {
            if s.desc {
                let mut all = vec![];
                descend(n, &mut all);
                for d in &all {
                    for x in &s.sels {
                        select(x, d, cx, &mut out);
                    }
                }
            } else {
                for x in &s.sels {
                    select(x, n, cx, &mut out);
                }
            }
        }
        cur = out;
    }
    cur
}

fn child<'v>(n: &Node<'v>, s: Step, v: &'v Value) -> Node<'v> {
    let mut path = n.path.clone();
    path.push(s);
    Node { path, value: v }
}

fn descend<'v>(n: &Node<'v>, out: &mut Vec<Node<'v>>) {
    out.push(n.clone());
    for c in children(n) {
        descend(&c, out);
    }
}

fn children<'v>(n: &Node<'v>) -> Vec<Node<'v>> {
    match n.value {
        Value::Array(a) => a
            .iter()
            .enumerate()
            .map(|(i, v)| child(n, Step::Index(i), v))
            .collect(),
        Value::Object(o) => o
            .iter()
            .map(|(k, v)| child(n, Step::Name(k.clone()), v))
            .collect(),
        _ => vec![],
    }
}

/// Indices selected by an array slice, exactly as in RFC 9535 section 2.3.4.2.2.
pub fn slice_indices(a: Option<i64>, b: Option<i64>, c: Option<i64>, len: usize) -> Vec<usize> {
    let len = len as i128;
    let step = c.unwrap_or(1) as i128;
    if step == 0 {
        return vec![];
    }
    let start = a.map(|x| x as i128).unwrap_or(if step >= 0 { 0 } else { len - 1 });
    let end = b
        .map(|x| x as i128)
        .unwrap_or(if step >= 0 { len } else { -len - 1 });
    let norm = |i: i128| if i >= 0 { i } else { len + i };
    let (ns, ne) = (norm(start), norm(end));
    let mut out = vec![];
    if step >= 0 {
        let lower = ns.max(0).min(len);
        let upper = ne.max(0).min(len);
        let mut i = lower;
        while i < upper {
            out.push(i as usize);
            i += step;
        }
    } else {
        let upper = ns.max(-1).min(len - 1);
        let lower = ne.max(-1).min(len - 1);
        let mut i = upper;
        while lower < i {
            out.push(i as usize);
            i += step;
        }
    }
    out
}

pub fn norm_index(i: i64, len: usize) -> Option<usize> {
    let (i, len) = (i as i128, len as i128);
    let j = if i >= 0 { i } else { len + i };
    if j >= 0 && j < len {
        Some(j as usize)
    } else {
        None
    }
}

fn select<'v>(x: &Sel, n: &Node<'v>, cx: &Cx<'v, '_>, out: &mut Vec<Node<'v>>) {
    STEPS.with(|s| s.set(s.get() + 1));
    match x {
        Sel::Name(k) => {
            if let Value::Object(o) = n.value {
                if let Some(v) = o.get(k) {
                    out.push(child(n, Step::Name(k.clone()), v));
                }
            }
        }
        Sel::Wild => out.extend(children(n)),
        Sel::Index(i) => {
            if let Value::Array(a) = n.value {
                if let Some(j) = norm_index(*i, a.len()) {
                    out.push(child(n, Step::Index(j), &a[j]));
                }
            }
        }
        Sel::Slice(s, e, t) => {
            if let Value::Array(a) = n.value {
                for j in slice_indices(*s, *e, *t, a.len()) {
                    out.push(child(n, Step::Index(j), &a[j]));
                }
            }
        }
        Sel::Filter(e) => {
            for c in children(n) {
                if test(e, c.value, cx) {
                    out.push(c);
                }
            }
        }
        Sel::Singular(q) => {
            let r = query(q, cx.root, cx);
            if r.len() == 1 {
                match r[0].value {
                    Value::Number(m) => {
                        if let Some(i) = m.as_i64() {
                            select(&Sel::Index(i), n, cx, out)
                        }
                    }
                    Value::String(s) => select(&Sel::Name(s.clone()), n, cx, out),
                    _ => {}
                }
            }
        }
    }
}

pub fn test<'v>(e: &Expr, cur: &'v Value, cx: &Cx<'v, '_>) -> bool {
    match e {
        Expr::Or(v) => v.iter().any(|x| test(x, cur, cx)),
        Expr::And(v) => v.iter().all(|x| test(x, cur, cx)),
        Expr::Not(x) => !test(x, cur, cx),
        Expr::Paren(x) => test(x, cur, cx),
        Expr::Cmp(o, a, b) => {
            let (a, b) = (comparable(a, cur, cx), comparable(b, cur, cx));
            compare(*o, &a, &b)
        }
        Expr::Query { root, q, .. } => {
            !query(q, if *root { cx.root } else { cur }, cx).is_empty()
        }
        Expr::Call(n, a) => match call(n, a, cur, cx) {
            Res::Logical(b) => b,
            Res::Nodes(v) => !v.is_empty(),
            r => panic!("model: ill-typed test {n} -> {r:?}"),
        },
        Expr::Lit(_) => panic!("model: bare literal"),
    }
}

fn lit<'v>(l: &Lit) -> Val<'v> {
    match l {
        Lit::Null => Val::Null,
        Lit::Bool(b) => Val::Bool(*b),
        Lit::Int(i) => Val::Num(Num::F(*i as f64)),
        Lit::Num(n) => Val::Num(Num::F(*n)),
        Lit::Str(s) => Val::Str(s.clone()),
    }
}

fn comparable<'v>(e: &Expr, cur: &'v Value, cx: &Cx<'v, '_>) -> Option<Val<'v>> {
    match e {
        Expr::Lit(l) => Some(lit(l)),
        Expr::Query { root, q, .. } => {
            let r = query(q, if *root { cx.root } else { cur }, cx);
            assert!(r.len() <= 1, "model: non-singular comparable");
            r.first().map(|n| val(n.value))
        }
        Expr::Call(n, a) => match call(n, a, cur, cx) {
            Res::Nothing => None,
            Res::Value(v) => Some(v),
            r => panic!("model: ill-typed comparable {n} -> {r:?}"),
        },
        _ => panic!("model: not comparable"),
    }
}

pub fn compare(o: Op, a: &Option<Val>, b: &Option<Val>) -> bool {
    match o {
        Op::Eq => eq(a, b),
        Op::Ne => !eq(a, b),
        Op::Lt => lt(a, b),
        Op::Gt => lt(b, a),
        Op::Le => lt(a, b) || eq(a, b),
        Op::Ge => lt(b, a) || eq(a, b),
    }
}

fn eq(a: &Option<Val>, b: &Option<Val>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => match (a, b) {
            (Val::Null, Val::Null) => true,
            (Val::Bool(x), Val::Bool(y)) => x == y,
            (Val::Num(x), Val::Num(y)) => x.cmp(*y) == Some(std::cmp::Ordering::Equal),
            (Val::Str(x), Val::Str(y)) => x == y,
            (Val::Ref(x), Val::Ref(y)) => deep_eq(x, y),
            _ => false,
        },
        _ => false,
    }
}

pub fn deep_eq(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Null, Value::Null) => true,
        (Value::Bool(x), Value::Bool(y)) => x == y,
        (Value::String(x), Value::String(y)) => x == y,
        (Value::Number(x), Value::Number(y)) => {
            Num::of(x).cmp(Num::of(y)) == Some(std::cmp::Ordering::Equal)
        }
        (Value::Array(x), Value::Array(y)) => {
            x.len() == y.len() && x.iter().zip(y).all(|(a, b)| deep_eq(a, b))
        }
        (Value::Object(x), Value::Object(y)) => {
            x.len() == y.len()
                && x.iter()
                    .all(|(k, v)| y.get(k).map_or(false, |w| deep_eq(v, w)))
        }
        _ => false,
    }
}

fn lt(a: &Option<Val>, b: &Option<Val>) -> bool {
    match (a, b) {
        (Some(Val::Num(x)), Some(Val::Num(y))) => x.cmp(*y) == Some(std::cmp::Ordering::Less),
        (Some(Val::Str(x)), Some(Val::Str(y))) => {
            let mut p = x.chars().map(|c| c as u32);
            let mut q = y.chars().map(|c| c as u32);
            loop {
                match (p.next(), q.next()) {
                    (_, None) => return false,
                    (None, Some(_)) => return true,
                    (Some(c), Some(d)) if c != d => return c < d,
                    _ => {}
                }
            }
        }
        _ => false,
    }
}

fn call<'v>(name: &str, args: &[Expr], cur: &'v Value, cx: &Cx<'v, '_>) -> Res<'v> {
    use crate::types::Ty;
    let sig = &cx.funcs[name];
    let mut a: Vec<Res<'v>> = vec![];
    for (e, t) in args.iter().zip(&sig.params) {
        a.push(match t {
            Ty::Logical => Res::Logical(test(e, cur, cx)),
            Ty::Value => match comparable(e, cur, cx) {
                None => Res::Nothing,
                Some(v) => Res::Value(v),
            },
            Ty::Nodes => match e {
                Expr::Query { root, q, .. } => {
                    Res::Nodes(query(q, if *root { cx.root } else { cur }, cx))
                }
                Expr::Call(n, x) => call(n, x, cur, cx),
                _ => panic!("model: ill-typed nodes argument"),
            },
        });
    }
    match name {
        "length" => match &a[0] {
            Res::Value(Val::Str(s)) => Res::Value(Val::Num(Num::I(s.chars().count() as i128))),
            Res::Value(Val::Ref(Value::Array(x))) => {
                Res::Value(Val::Num(Num::I(x.len() as i128)))
            }
            Res::Value(Val::Ref(Value::Object(x))) => {
                Res::Value(Val::Num(Num::I(x.len() as i128)))
            }
            _ => Res::Nothing,
        },
        "count" => match &a[0] {
            Res::Nodes(v) => Res::Value(Val::Num(Num::I(v.len() as i128))),
            _ => unreachable!(),
        },
        "value" => match &a[0] {
            Res::Nodes(v) if v.len() == 1 => Res::Value(val(v[0].value)),
            _ => Res::Nothing,
        },
        "match" | "search" => match (&a[0], &a[1]) {
            (Res::Value(Val::Str(s)), Res::Value(Val::Str(p))) => {
                Res::Logical(iregexp::run(p, s, name == "match"))
            }
            _ => Res::Logical(false),
        },
        _ => (cx.ext.expect("model: extension"))(name, a),
    }
}
