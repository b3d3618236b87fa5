//! Queries assembled from the public syntax-tree types, without a parser, and the parts of
//! the crates that can be used on their own.
use crate::adapt::*;
use crate::docs;
use crate::evalx::*;
use crate::report::*;
use crate::syntax::*;
use jpmodel::ast::{Expr, Lit, Op, Query, Sel};
use jpmodel::eval;
use jpmodel::parse::{self, Opts};
use jpmodel::path::normalized;
use jpmodel::render;
use serde_json::{json, Value};

/// How a tree is put together where there is a choice.
#[derive(Clone, Copy, Debug)]
pub struct Way {
    /// end markers after the segments
    pub ends: u8,
    /// `a && b && c` as `a && (b && c)`
    pub right: bool,
    /// integral literals as floats
    pub floats: bool,
    /// the step of a slice is always given
    pub steps: bool,
}

pub const WAYS: [Way; 6] = [
    Way { ends: 0, right: false, floats: false, steps: false },
    Way { ends: 1, right: true, floats: false, steps: true },
    Way { ends: 0, right: true, floats: true, steps: true },
    Way { ends: 2, right: false, floats: true, steps: false },
    Way { ends: 1, right: false, floats: false, steps: false },
    Way { ends: 0, right: true, floats: false, steps: false },
];

/// `n`-ary operators as trees of binary ones.
fn nest<T>(v: &[Expr], right: bool, leaf: &dyn Fn(&Expr) -> T, join: &dyn Fn(T, T) -> T) -> T {
    if v.len() == 1 {
        leaf(&v[0])
    } else if right {
        join(leaf(&v[0]), nest(&v[1..], right, leaf, join))
    } else {
        let (l, r) = v.split_at(v.len() - 1);
        join(nest(l, right, leaf, join), leaf(&r[0]))
    }
}

macro_rules! build_expr {
    ($F:ident, $LO:ident, $CO:ident, $query:expr, [$($sp:tt)*], $True:ident, $False:ident, $Str:ident) => {
        pub fn expr(e: &Expr, w: Way) -> $F {
            let b = |e: &Expr| Box::new(expr(e, w));
            match e {
                Expr::Or(v) => nest(v, w.right, &|e| expr(e, w), &|l, r| $F::Logical { $($sp)* left: Box::new(l), operator: $LO::Or, right: Box::new(r) }),
                Expr::And(v) => nest(v, w.right, &|e| expr(e, w), &|l, r| $F::Logical { $($sp)* left: Box::new(l), operator: $LO::And, right: Box::new(r) }),
                Expr::Not(x) => $F::Not { $($sp)* expression: b(x) },
                Expr::Paren(x) => expr(x, w),
                Expr::Cmp(o, l, r) => $F::Comparison { $($sp)* left: b(l), operator: match o {
                    Op::Eq => $CO::Eq, Op::Ne => $CO::Ne, Op::Lt => $CO::Lt, Op::Le => $CO::Le, Op::Gt => $CO::Gt, Op::Ge => $CO::Ge,
                }, right: b(r) },
                Expr::Query { root: true, q, .. } => $F::RootQuery { $($sp)* query: Box::new($query(q, w)) },
                Expr::Query { q, .. } => $F::RelativeQuery { $($sp)* query: Box::new($query(q, w)) },
                Expr::Call(n, a) => $F::Function { $($sp)* name: n.clone(), args: a.iter().map(|e| expr(e, w)).collect() },
                Expr::Lit(Lit::Null) => $F::Null { $($sp)* },
                Expr::Lit(Lit::Bool(true)) => $F::$True { $($sp)* },
                Expr::Lit(Lit::Bool(false)) => $F::$False { $($sp)* },
                Expr::Lit(Lit::Int(i)) if !w.floats => $F::Int { $($sp)* value: *i },
                Expr::Lit(Lit::Int(i)) => $F::Float { $($sp)* value: *i as f64 },
                Expr::Lit(Lit::Num(x)) => $F::Float { $($sp)* value: *x },
                Expr::Lit(Lit::Str(s)) => $F::$Str { $($sp)* value: s.clone() },
            }
        }
    };
}

macro_rules! build_sel {
    ($L:ident, [$($sp:tt)*]) => {
        fn sel(s: &Sel, w: Way) -> $L {
            match s {
                Sel::Name(n) => $L::Name { $($sp)* name: n.clone() },
                Sel::Wild => $L::Wild { $($sp)* },
                Sel::Index(i) => $L::Index { $($sp)* index: *i },
                Sel::Slice(a, b, c) => $L::Slice { $($sp)* start: *a, stop: *b, step: if w.steps { Some(c.unwrap_or(1)) } else { *c } },
                Sel::Filter(e) => $L::Filter { $($sp)* expression: Box::new(expr(e, w)) },
                Sel::Singular(_) => panic!("checker: no such selector here"),
            }
        }
    };
}

macro_rules! build_flat {
    ($modname:ident, $Query:path, $Segment:path, $Selector:path, $Fe:path, $Lo:path, $Co:path, [$($sp:tt)*], [$($eoi:tt)*]) => {
        pub mod $modname {
            use super::*;
            use $Query as Q;
            use $Segment as S;
            use $Selector as L;
            use $Fe as F;
            use $Lo as LO;
            use $Co as CO;
            pub fn query(q: &Query, w: Way) -> Q {
                #[allow(unused_mut)]
                let mut v: Vec<S> = q.segs.iter().map(|s| {
                    let selectors = s.sels.iter().map(|x| sel(x, w)).collect();
                    if s.desc { S::Recursive { $($sp)* selectors } } else { S::Child { $($sp)* selectors } }
                }).collect();
                for _ in 0..w.ends { $($eoi)*(&mut v); }
                Q::new(v)
            }
            build_sel!(L, [$($sp)*]);
            build_expr!(F, LO, CO, query, [$($sp)*], True, False, String);
        }
    };
}

build_flat!(b_hand, hand::query::Query, hand::query::Segment, hand::query::Selector, hand::query::FilterExpression, hand::query::LogicalOperator, hand::query::ComparisonOperator, [span: (0, 0),], [(|_: &mut Vec<S>| ())]);
build_flat!(b_pest, pest::ast::Query, pest::ast::Segment, pest::ast::Selector, pest::ast::FilterExpression, pest::ast::LogicalOperator, pest::ast::ComparisonOperator, [], [(|v: &mut Vec<S>| v.push(S::Eoi))]);
build_flat!(b_serde, serde::ast::Query, serde::ast::Segment, serde::ast::Selector, serde::ast::FilterExpression, serde::ast::LogicalOperator, serde::ast::ComparisonOperator, [], [(|v: &mut Vec<S>| v.push(S::Eoi))]);
build_flat!(b_iter, iter::query::Query, iter::segment::Segment, iter::selector::Selector, iter::filter::FilterExpression, iter::filter::LogicalOperator, iter::filter::ComparisonOperator, [], [(|v: &mut Vec<S>| v.push(S::Eoi))]);

pub mod b_rec {
    use super::*;
    use rec::ast::{ComparisonOperator as CO, FilterExpression as F, LogicalOperator as LO, Query as Q, Segment as S, Selector as L};
    pub fn query(q: &Query, w: Way) -> Q {
        let mut ast = S::Root {};
        for s in &q.segs {
            let selectors = s.sels.iter().map(|x| sel(x, w)).collect();
            let left = Box::new(ast);
            ast = if s.desc { S::Recursive { left, selectors } } else { S::Child { left, selectors } };
        }
        Q { ast }
    }
    build_sel!(L, []);
    build_expr!(F, LO, CO, query, [], True_, False_, StringLiteral);
}

/// The crates whose selectors are private: expressions around parsed queries.
pub mod b_loc {
    use super::*;
    use loc::filter::{ComparisonOperator as CO, FilterExpression as F, LogicalOperator as LO};
    fn query(q: &Query, _: Way) -> loc::Query {
        loc::Query::standard(&render::query(q)).expect("a displayed query")
    }
    build_expr!(F, LO, CO, query, [], True, False, String);
}
pub mod b_sing {
    use super::*;
    use sing::filter::{ComparisonOperator as CO, FilterExpression as F, LogicalOperator as LO};
    fn query(q: &Query, _: Way) -> sing::Query {
        sing::Query::standard(&render::query(q)).expect("a displayed query")
    }
    build_expr!(F, LO, CO, query, [], True, False, String);
}

fn violation(ctx: &Ctx, who: &str, what: &str, input: String, msg: String) {
    ctx.fail(Violation { kind: "built", who: who.into(), what: what.into(), input, data: json!({}), msg });
}

/// Queries of a family, as trees.
fn models(texts: &[String]) -> Vec<(String, Query)> {
    let mut seen = std::collections::HashSet::new();
    texts
        .iter()
        .filter(|t| seen.insert((*t).clone()))
        .filter_map(|t| parse::parse(t, Opts::default()).query.map(|q| (t.clone(), q)))
        .collect()
}

/// Classification and display of the tree built in every way.
fn syntax_of(ctx: &Ctx, t: &str, q: &Query) {
    let want = q.lax();
    let ps = &std_set().ps;
    for (k, w) in WAYS.iter().enumerate() {
        macro_rules! one {
            ($px:expr, $b:ident, $empty:expr) => {{
                let px: Px = $px;
                let r = guarded(|| {
                    let x = $b::query(q, *w);
                    (x.to_string(), x.is_singular(), $empty(&x))
                });
                ctx.trace(1);
                let input = format!("{t} built as {w:?}");
                match r {
                    Err(m) => violation(ctx, px.name(), "panic", input, m),
                    Ok((text, s, e)) => {
                        if s != q.is_singular() || e != q.segs.is_empty() {
                            violation(ctx, px.name(), "wrong-classification", input.clone(), format!("singular {s}, empty {e}"));
                        }
                        match parse::parse(&text, Opts::default()).query {
                            Some(m) if m.lax() == want => {}
                            Some(_) => violation(ctx, px.name(), "displays-otherwise", input.clone(), text.clone()),
                            None => violation(ctx, px.name(), "display-not-well-formed", input.clone(), text.clone()),
                        }
                        match ps.parse(px, &text) {
                            Ok(o) if o.ast.as_ref().map_or(true, |a| a.lax() == want) => {
                                if o.display != text && k == 0 {
                                    violation(ctx, px.name(), "display-not-stable", input, format!("{text} and then {}", o.display));
                                }
                            }
                            Ok(o) => violation(ctx, px.name(), "reads-otherwise", input, format!("{text} is {:?}", o.ast)),
                            Err(e) => violation(ctx, px.name(), "display-rejected", input, format!("{text}: {}", e.msg)),
                        }
                    }
                }
            }};
        }
        one!(Px::Hand, b_hand, |x: &hand::Query| x.is_empty());
        one!(Px::Pest, b_pest, |x: &pest::Query| x.is_empty());
        one!(Px::Rec, b_rec, |x: &rec::Query| matches!(x.ast, rec::ast::Segment::Root {}));
        one!(Px::Serde, b_serde, |x: &serde::Query| x.is_empty());
        one!(Px::Iter, b_iter, |x: &iter::Query| x.is_empty());
    }
    ctx.state(1);
    ctx.trans(WAYS.len() as u64);
}

/// Evaluation of the tree built in every way.
fn values_of(ctx: &Ctx, t: &str, q: &Query, ds: &[Box<Doc>], ways: &[Way]) {
    let funcs = &std_set().ps.funcs;
    with_envs(|envs| {
        for w in ways {
            let (s, i) = (b_serde::query(q, *w), b_iter::query(q, *w));
            for d in ds {
                let want: Vec<(*const Value, String)> = eval::find(q, &d.v, funcs).into_iter().map(|n| (n.value as *const Value, normalized(&n.path))).collect();
                let mut check = |who: &str, r: Result<Result<Vec<(*const Value, String)>, String>, String>| {
                    let input = || format!("{t} built as {w:?} on {}", d.v);
                    ctx.trace(1);
                    match r {
                        Err(m) => violation(ctx, who, "panic", input(), m),
                        Ok(Err(m)) => violation(ctx, who, "fails", input(), m),
                        Ok(Ok(got)) if got != want => violation(ctx, who, "wrong-nodes", input(), format!("got {:?}, want {:?}", got.iter().map(|x| &x.1).collect::<Vec<_>>(), want.iter().map(|x| &x.1).collect::<Vec<_>>())),
                        _ => {}
                    }
                };
                check("serde.find", guarded(|| s.find(&d.v, envs.serde).map(|v| v.into_iter().map(|n| (n.value as *const Value, n.location.to_string())).collect()).map_err(|e| e.msg)));
                check("serde.find_loop", guarded(|| s.find_loop(&d.v, envs.serde).map(|v| v.into_iter().map(|n| (n.value as *const Value, n.location.to_string())).collect()).map_err(|e| e.msg)));
                check("iter", guarded(|| Ok(iter::iter::QueryIter::new(envs.iter, &d.v, i.clone()).map(|n| (n.value as *const Value, n.location.to_string())).collect())));
            }
        }
        ctx.state((ways.len() * ds.len()) as u64);
        ctx.trans((ways.len() * ds.len()) as u64);
    })
}

/// A filter expression on its own, with a root and a current node that need not be related.
fn expressions(ctx: &Ctx, t: &str, e: &Expr, ds: &[Box<Doc>], ways: &[Way]) {
    let funcs = &std_set().ps.funcs;
    with_envs(|envs| {
        for w in ways {
            let i = b_iter::expr(e, *w);
            let l = b_loc::expr(e, *w);
            let s = b_sing::expr(e, *w);
            for root in ds {
                let cx = eval::Cx { root: &root.v, funcs, ext: None };
                for cur in ds {
                    let want = eval::test(e, &cur.v, &cx);
                    macro_rules! one {
                        ($who:expr, $m:ident, $x:ident, $env:expr) => {{
                            ctx.trace(1);
                            let r = guarded(|| {
                                let v = $x.evaluate($env, &root.v, &cur.v);
                                let a = $m::filter::is_truthy_ref(&v);
                                (a, $m::filter::is_truthy(v))
                            });
                            if r != Ok((want, want)) {
                                violation(ctx, $who, "wrong-truth", format!("{t} built as {w:?} for {} with root {}", cur.v, root.v), format!("{r:?}, want {want}"));
                            }
                        }};
                    }
                    one!("iter", iter, i, envs.iter);
                    one!("locations", loc, l, envs.loc);
                    one!("singular", sing, s, envs.sing);
                }
            }
        }
        ctx.state((ways.len() * ds.len() * ds.len()) as u64);
        ctx.trans((ways.len() * ds.len() * ds.len()) as u64);
    })
}

fn literals(ctx: &Ctx) {
    let mut v = vec![Lit::Null, Lit::Bool(true), Lit::Bool(false), Lit::Int(0), Lit::Int(-1), Lit::Num(0.5), Lit::Num(-0.0), Lit::Str("".into()), Lit::Str("a".into())].into_iter().map(|l| (Expr::Lit(l), true)).collect::<Vec<_>>();
    for t in ["@", "$", "@.a", "!@.a", "@.a&&@.b", "@.a==1", "1==1", "count(@.*)==1", "match(@.a,'a')", "!(@.a==1)", "@[?@.a]", "true==false"] {
        if let Some(Query { segs }) = parse::parse(&format!("$[?{t}]"), Opts::default()).query {
            if let Sel::Filter(e) = &segs[0].sels[0] {
                v.push(((**e).clone(), false));
            }
        }
    }
    for (e, want) in &v {
        ctx.state(1);
        ctx.trans(7);
        for w in WAYS {
            macro_rules! one {
                ($who:expr, $b:ident) => {{
                    ctx.trace(1);
                    if $b::expr(e, w).is_literal() != *want {
                        violation(ctx, $who, "wrong-literal", format!("{e:?}"), format!("is_literal, want {want}"));
                    }
                }};
            }
            one!("hand", b_hand);
            one!("pest", b_pest);
            one!("pest_recursive", b_rec);
            one!("serde", b_serde);
            one!("iter", b_iter);
            one!("locations", b_loc);
            one!("singular", b_sing);
        }
    }
}

/// Slices and indices as functions of their own, and the walk through a document.
fn parts(ctx: &Ctx, n: i64) {
    let mut far: Vec<i64> = (-n..=n).collect();
    for c in [i64::MIN as i128, i64::MAX as i128, 1 << 53, -(1 << 53), 1 << 32, -(1 << 32)] {
        far.extend((c - 1..=c + 1).filter_map(|x| i64::try_from(x).ok()));
    }
    let bounds: Vec<Option<i64>> = far.iter().map(|x| Some(*x)).chain([None]).collect();
    let arrays: Vec<Vec<Value>> = (0..=n as usize).map(|k| (0..k).map(|i| json!(i)).collect()).collect();
    ctx.par(&bounds, |a| {
        for b in &bounds {
            for c in &bounds {
                for x in &arrays {
                    ctx.trace(1);
                    let want = eval::slice_indices(*a, *b, *c, x.len());
                    let got = guarded(|| iter::selector::slice(x, *a, *b, *c).into_iter().map(|(i, v)| (i, v as *const Value)).collect::<Vec<_>>());
                    if got != Ok(want.iter().map(|i| (*i as i64, &x[*i] as *const Value)).collect()) {
                        violation(ctx, "iter", "wrong-slice", format!("slice of {} elements, {a:?} to {b:?} by {c:?}", x.len()), format!("{got:?}"));
                    }
                }
                ctx.state(arrays.len() as u64);
                ctx.trans(arrays.len() as u64);
            }
        }
    });
    for i in &far {
        for x in &arrays {
            ctx.trace(1);
            ctx.state(1);
            ctx.trans(1);
            let want = eval::norm_index(*i, x.len());
            let got = guarded(|| Some(iter::selector::norm_index(*i, x.len())).filter(|k| *k < x.len()));
            if got != Ok(want) {
                violation(ctx, "iter", "wrong-index", format!("index {i} of {} elements", x.len()), format!("{got:?}"));
            }
        }
    }
}

fn walks(ctx: &Ctx, ds: &[Box<Doc>]) {
    ctx.par(ds, |d| {
        fn walk(v: &Value, at: String, out: &mut Vec<(*const Value, String)>) {
            out.push((v, at.clone()));
            match v {
                Value::Array(a) => a.iter().enumerate().for_each(|(i, x)| walk(x, format!("{at}[{i}]"), out)),
                Value::Object(o) => o.iter().for_each(|(k, x)| walk(x, format!("{at}[{}]", { let mut s = String::from("'"); jpmodel::path::escape_name(k, &mut s); s.push('\''); s }), out)),
                _ => {}
            }
        }
        let mut want = vec![];
        walk(&d.v, "$".into(), &mut want);
        let start = || std::rc::Rc::new(iter::node::Node { value: &d.v, location: "$".into() });
        let (a, b) = (
            guarded(|| iter::segment::visit_iter(start()).map(|n| (n.value as *const Value, n.location.clone())).collect::<Vec<_>>()),
            guarded(|| iter::segment::descendants(start()).map(|n| (n.value as *const Value, n.location.clone())).collect::<Vec<_>>()),
        );
        ctx.trace(2);
        ctx.state(1);
        ctx.trans(want.len() as u64);
        if a.as_ref() != Ok(&want) {
            violation(ctx, "iter", "wrong-walk", format!("visit_iter on {}", d.v), format!("{:?}", a.map(|v| v.into_iter().map(|x| x.1).collect::<Vec<_>>())));
        }
        if b.as_deref() != Ok(&want[1..]) {
            violation(ctx, "iter", "wrong-walk", format!("descendants on {}", d.v), format!("{:?}", b.map(|v| v.into_iter().map(|x| x.1).collect::<Vec<_>>())));
        }
    });
}

/// The functions behind comparisons, logical operators and arguments, given every kind of result.
fn results(ctx: &Ctx) {
    let vs: Vec<Value> = docs::values();
    // how a result stands for a value: itself, a list of one node, nothing, an empty list, two nodes
    let kinds: Vec<(usize, usize)> = (0..vs.len()).flat_map(|i| [(0, i), (1, i)]).chain([(2, 0), (3, 0)]).collect();
    macro_rules! of {
        ($m:ident, $k:expr) => {{
            let (kind, i) = $k;
            let node = |v| $m::node::Node { value: v, location: Default::default() };
            match kind {
                0 => $m::filter::FilterExpressionResult::from_json_value(&vs[i]),
                1 => $m::filter::FilterExpressionResult::Nodes(vec![node(&vs[i])]),
                2 => $m::filter::FilterExpressionResult::Nothing,
                3 => $m::filter::FilterExpressionResult::Nodes(vec![]),
                _ => $m::filter::FilterExpressionResult::Nodes(vec![node(&vs[i]), node(&vs[0])]),
            }
        }};
    }
    let val = |k: (usize, usize)| (k.0 < 2).then(|| eval::val(&vs[k.1]));
    let truth = |k: (usize, usize)| match k.0 {
        0 => vs[k.1] != json!(false),
        k => k == 1 || k == 4,
    };
    let name = |k: (usize, usize)| match k.0 {
        0 => vs[k.1].to_string(),
        1 => format!("a node {}", vs[k.1]),
        2 => "nothing".into(),
        3 => "no nodes".into(),
        _ => format!("nodes {} and {}", vs[k.1], vs[0]),
    };
    macro_rules! one {
        ($who:expr, $m:ident) => {{
            use $m::filter::{compare, logical, unpack_result, ComparisonOperator as CO, FilterExpressionResult as R, LogicalOperator as LO};
            use $m::function::ExpressionType as T;
            let bad = |what: &str, input: String, msg: String| violation(ctx, $who, what, input, msg);
            ctx.par(&kinds, |l| {
                for r in &kinds {
                    for (o, op) in [(Op::Eq, CO::Eq), (Op::Ne, CO::Ne), (Op::Lt, CO::Lt), (Op::Le, CO::Le), (Op::Gt, CO::Gt), (Op::Ge, CO::Ge)] {
                        let got = guarded(|| compare(of!($m, *l), &op, of!($m, *r)));
                        if got != Ok(eval::compare(o, &val(*l), &val(*r))) {
                            bad("wrong-comparison", format!("{} {op} {}", name(*l), name(*r)), format!("{got:?}"));
                        }
                    }
                    for (op, want) in [(LO::And, truth(*l) && truth(*r)), (LO::Or, truth(*l) || truth(*r))] {
                        let got = guarded(|| logical(of!($m, *l), &op, of!($m, *r)));
                        if got != Ok(want) {
                            bad("wrong-logic", format!("{} {op} {}", name(*l), name(*r)), format!("{got:?}"));
                        }
                    }
                    ctx.state(1);
                    ctx.trans(8);
                    ctx.trace(8);
                }
            });
            // the position of the parameter among others
            let all: Vec<(usize, usize)> = kinds.iter().copied().chain((0..vs.len()).map(|i| (4, i))).collect();
            let same = |a: &R, b: &R| {
                fn ids<'a>(x: &'a R) -> Vec<*const Value> {
                    match x {
                        R::Nodes(n) => n.iter().map(|n| n.value as *const Value).collect(),
                        R::Array(v) | R::Object(v) => vec![*v as *const Value],
                        _ => vec![],
                    }
                }
                ids(a) == ids(b) && format!("{a:?}") == format!("{b:?}")
            };
            ctx.par(&all, |k| {
                for len in 1..=4 {
                    for at in 0..len {
                        for other in 0..3 {
                            for own in 0..3 {
                                let ty = |x| match x { 0 => T::Value, 1 => T::Logical, _ => T::Nodes };
                                let types: Vec<T> = (0..len).map(|i| ty(if i == at { own } else { other })).collect();
                                let want = match own {
                                    1 => R::Bool(truth(*k)),
                                    0 if k.0 == 1 => of!($m, (0, k.1)),
                                    0 if k.0 == 3 => R::Nothing,
                                    _ => of!($m, *k),
                                };
                                let got = guarded(|| unpack_result(of!($m, *k), &types, at));
                                ctx.trace(1);
                                ctx.trans(1);
                                match got {
                                    Ok(g) if same(&g, &want) => {}
                                    g => bad("wrong-argument", format!("{} as parameter {at} of {len}, of type {own}", name(*k)), format!("{g:?}, want {want:?}")),
                                }
                            }
                        }
                    }
                }
                ctx.state(90);
            });
        }};
    }
    one!("locations", loc);
    one!("singular", sing);
}

/// Nodes put together by hand, and the paths they report.
fn nodes(ctx: &Ctx, n: usize) {
    use jpmodel::path::Step;
    let mut steps: Vec<Step> = [0usize, 9, 10, 4294967296].iter().map(|i| Step::Index(*i)).collect();
    steps.extend(["", "a", "'", "\\", "\"", "\u{1}", "\n", "a'b", "\u{1F600}", "0"].iter().map(|s| Step::Name(s.to_string())));
    let mut seqs: Vec<Vec<usize>> = vec![vec![]];
    let mut last = seqs.clone();
    for _ in 0..n {
        last = last.iter().flat_map(|s| (0..steps.len()).map(move |k| [&s[..], &[k]].concat())).collect();
        seqs.extend(last.iter().cloned());
    }
    let v = json!([1]);
    let bad = |who: &str, want: &str, got: String| violation(ctx, who, "wrong-path", want.into(), got);
    ctx.par(&seqs, |seq| {
        let path: Vec<Step> = seq.iter().map(|k| steps[*k].clone()).collect();
        let want = normalized(&path);
        macro_rules! lists {
            ($who:expr, $m:ident) => {{
                use $m::node::{Location, Node};
                let got = guarded(|| {
                    let mut x = Node { value: &v, location: Location::default() };
                    let mut trail = vec![];
                    for s in &path {
                        trail.push((x.path(), x.location.clone()));
                        x = match s {
                            Step::Index(i) => Node::new_array_element(&v, &x.location, *i),
                            Step::Name(n) => Node::new_object_member(&v, &x.location, n.clone()),
                        };
                    }
                    // the locations that were extended are as they were
                    let kept = trail.into_iter().all(|(p, l)| Node { value: &v, location: l }.path() == p);
                    (x.path(), kept)
                });
                if got != Ok((want.clone(), true)) {
                    bad($who, &want, format!("{got:?}"));
                }
            }};
        }
        lists!("locations", loc);
        lists!("singular", sing);
        let got = guarded(|| {
            let mut x = std::rc::Rc::new(iter::node::Node { value: &v, location: "$".into() });
            for s in &path {
                x = match s {
                    Step::Index(i) => x.new_child_element(&v, *i),
                    Step::Name(n) => x.new_child_member(&v, n),
                };
            }
            x.location.clone()
        });
        if got.as_ref() != Ok(&want) {
            bad("iter", &want, format!("{got:?}"));
        }
        ctx.trace(3);
        ctx.state(1);
        ctx.trans(seq.len() as u64);
    });
}

/// Tokens put together by hand: the parser gives a query or an error for every sequence.
fn tokens(ctx: &Ctx, n: usize) {
    use hand::token::{Token, TokenType as T};
    let b = |s: &str| -> Box<str> { s.into() };
    let kinds = vec![
        T::Eoq, T::Error { msg: b("e") }, T::Colon, T::Comma, T::DoubleDot, T::Filter, T::Index { value: b("1") }, T::Index { value: b("") }, T::LBracket, T::Name { value: b("a") }, T::RBracket, T::Root,
        T::Wild, T::And, T::Current, T::DoubleQuoteString { value: b("\\u12") }, T::Eq, T::False, T::Float { value: b("x") }, T::Function { name: b("count") }, T::Function { name: b("f") }, T::Int { value: b("1") }, T::Int { value: b("") },
        T::LParen, T::Lt, T::Not, T::Null, T::RParen, T::SingleQuoteString { value: b("\\") },
    ];
    let starts: Vec<Vec<usize>> = (0..kinds.len()).flat_map(|i| (0..kinds.len()).map(move |j| vec![i, j])).collect();
    let frames: Vec<Vec<T>> = vec![vec![], vec![T::Root], vec![T::Root, T::LBracket], vec![T::Root, T::LBracket, T::Filter], vec![T::Root, T::LBracket, T::Filter, T::Function { name: b("count") }], vec![T::Root, T::LBracket, T::Filter, T::LParen]];
    ctx.par(&starts, |start| {
        fn go(seq: &mut Vec<usize>, n: usize, k: usize, f: &mut dyn FnMut(&[usize])) {
            f(seq);
            if n > 0 {
                for i in 0..k {
                    seq.push(i);
                    go(seq, n - 1, k, f);
                    seq.pop();
                }
            }
        }
        let parser = hand::Parser::new();
        for frame in &frames {
            go(&mut start.clone(), n - 2, kinds.len(), &mut |seq| {
                let v: Vec<Token> = frame.iter().chain(seq.iter().map(|k| &kinds[*k])).enumerate().map(|(i, t)| Token::new(t.clone(), i, i + 1)).collect();
                let text = || frame.iter().chain(seq.iter().map(|k| &kinds[*k])).map(|t| t.to_string()).collect::<Vec<_>>().join(" ");
                crate::watch::begin(4, 0, "std", &text(), "");
                ctx.trace(1);
                ctx.state(1);
                ctx.trans(1);
                if let Err(m) = guarded(|| parser.parse_tokens(v).map(|s| hand::Query::new(s).to_string()).is_ok()) {
                    violation(ctx, "hand", "panic", text(), m);
                }
            });
        }
    });
}

pub fn c27(ctx: &Ctx) {
    use crate::gen::*;
    let f = &std_set().ps.funcs;
    let d = ctx.thorough as usize;
    let mut texts = vec!["$".to_string()];
    texts.extend(queries(&FULL, 3, f));
    texts.extend(queries(&FILTERS, 3 + d, f));
    texts.extend(queries(&FUNCS, 3 + d, f));
    texts.extend(queries(&SEGS, 2 + d, f));
    texts.extend(queries(&CMP, 3, f));
    texts.extend(CORPUS.iter().map(|s| s.to_string()));
    texts.extend(crate::syntax2::tree_texts(3));
    texts.extend(queries(&LOGIC, 5 + d, f));
    let ms: Vec<(String, Query)> = models(&texts).into_iter().filter(|(t, _)| !quotes(t)).collect();
    ctx.suite("built queries", "every query of up to 3 (thorough 4) elements of five vocabularies, of the corpus, and logical expressions of up to 5 (6) elements, built without a parser from the types of five crates in 6 ways: with 0 to 2 end markers, operators nested to the left and to the right, integers as floats, steps left out: classification and display", || {
        ctx.par(&ms, |(t, q)| syntax_of(ctx, t, q));
        ctx.sample(|| ms[ms.len() / 2].0.clone());
    });
    let ds = sweep_docs();
    ctx.suite("built queries evaluated", "the same trees, built in 3 ways (thorough 6), x documents of at most 3 nodes and 11 larger ones, in the eager engine (recursive and stack-based) and the lazy one", || {
        let k = if ctx.thorough { 6 } else { 3 };
        ctx.par(&ms, |(t, q)| values_of(ctx, t, q, &ds, &WAYS[..k]));
        ctx.sample(|| format!("{} on {}", ms[ms.len() / 3].0, ds[ds.len() / 2].v));
    });
    ctx.suite("expressions", "every logical expression of up to 3 elements, and of up to 5 (thorough 6) of three tests, evaluated on its own with every two of 14 documents as root and current node; its truth by both functions", || {
        let mut v = exprs(&FULL, 3, f);
        v.extend(exprs(&FUNCS, 3, f));
        v.extend(exprs(&CMP, 3, f));
        v.extend(exprs(&LOGIC, 5 + d, f));
        v.sort();
        v.dedup();
        let ds = docs(vec![json!(1), json!("a"), json!([]), json!({}), json!([1]), json!({"a": 1}), json!({"a": null, "b": 1}), json!({"a": [1, "a"]}), json!([[1], "a"]), json!({"c": 1, "b": {"a": 1}}), json!([null, {"a": "a"}]), json!({"a": {"a": true}}), json!(null), json!([2.5, 0])]);
        let es: Vec<(String, Expr)> = v
            .into_iter()
            .map(|t| {
                let q = parse::parse(&format!("$[?{t}]"), Opts::default()).query.unwrap_or_else(|| panic!("checker: not an expression: {t}"));
                let Sel::Filter(e) = &q.segs[0].sels[0] else { unreachable!() };
                (t, (**e).clone())
            })
            .collect();
        let k = if ctx.thorough { 6 } else { 2 };
        ctx.par(&es, |(t, e)| expressions(ctx, t, e, &ds, &WAYS[..k]));
        ctx.sample(|| es[es.len() / 2].0.clone());
    });
    ctx.suite("kinds of expressions", "is_literal of every kind of expression in seven crates", || literals(ctx));
    ctx.suite("slices and indices", "slice with bounds and steps in -6..6 (thorough -9..9), absent and at the limits of integers, for arrays of up to 6 (9) elements; norm_index likewise", || parts(ctx, if ctx.thorough { 9 } else { 6 }));
    ctx.suite("results", "compare and logical on every two of 66 values, each itself and as a list of one node, nothing and an empty list; unpack_result on these and on lists of two nodes, as each of up to 4 parameters of every type", || results(ctx));
    ctx.suite("nodes", "nodes at every sequence of up to 4 (thorough 5) of 14 steps, put together one by one: their paths, and those of the locations extended on the way", || nodes(ctx, 4 + d));
    ctx.suite("tokens", "every sequence of 2 to 4 (thorough 5) of 29 tokens, with values that no lexer gives among them, after 6 beginnings, given to the parser of tokens: a query or an error", || tokens(ctx, 4 + d));
    ctx.suite("walks", "visit_iter and descendants on every document of up to 5 (thorough 6) nodes and unusual ones", || {
        let mut v = docs::all(5 + d, &[json!(1)], &["a", "b"]);
        v.extend(docs::odd());
        walks(ctx, &docs(v));
    });
}

/// A literal with a quote or backslash, whose displayed form is the subject of C05.
fn quotes(t: &str) -> bool {
    t.contains("\\") || t.contains("'\"") || t.contains("\"'")
}

fn docs(v: Vec<Value>) -> Vec<Box<Doc>> {
    crate::evalx::docs(v)
}
