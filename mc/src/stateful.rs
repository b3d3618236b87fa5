//! Functions that remember: each call is numbered, and the answer of each is chosen.
use crate::adapt::*;
use crate::docs;
use crate::evalx::*;
use crate::report::*;
use crate::syntax::*;
use jpmodel::types::{Funcs, Sig, Ty};
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};

thread_local! {
    static COUNT: Cell<u32> = const { Cell::new(0) };
    static MASK: Cell<u64> = const { Cell::new(0) };
    static SEEN: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}

/// Number this call, note what it was called with, and give its answer.
fn called(what: String) -> bool {
    let k = COUNT.with(|c| {
        c.set(c.get() + 1);
        c.get() - 1
    });
    SEEN.with(|s| s.borrow_mut().push(what));
    MASK.with(|m| m.get() >> (k % 64) & 1 == 1)
}

fn funcs() -> Funcs {
    use Ty::*;
    let mut f = Funcs::new();
    for (n, params, ret) in [
        ("tick", vec![], Logical),
        ("tock", vec![], Value),
        ("some", vec![], Nodes),
        ("seen", vec![Value], Logical),
        ("said", vec![Value], Value),
        ("kept", vec![Nodes], Logical),
        ("gave", vec![Nodes], Nodes),
        ("told", vec![Logical], Logical),
        ("both", vec![Value, Nodes], Logical),
    ] {
        f.insert(n.into(), Sig { params, ret });
    }
    f
}

macro_rules! engine {
    ($m:ident, $R:path) => {
        mod $m {
            use super::*;
            use crate::adapt::$m::function::{ExpressionType as E, FunctionExtension, FunctionSignature};
            use $R as R;
            struct F(String, Sig);
            fn ty(t: Ty) -> E {
                match t {
                    Ty::Value => E::Value,
                    Ty::Logical => E::Logical,
                    Ty::Nodes => E::Nodes,
                }
            }
            fn show(x: &R) -> String {
                match x {
                    R::Nodes(v) => format!("({})", v.iter().map(|n| n.value.to_string()).collect::<Vec<_>>().join(" ")),
                    R::Bool(b) => b.to_string(),
                    R::Int(i) => i.to_string(),
                    R::Float(f) => json!(f).to_string(),
                    R::Null => "null".into(),
                    R::String(s) => json!(s).to_string(),
                    R::Array(v) | R::Object(v) => v.to_string(),
                    R::Nothing => "nothing".into(),
                }
            }
            impl FunctionExtension for F {
                fn sig(&self) -> FunctionSignature {
                    FunctionSignature { param_types: self.1.params.iter().map(|t| ty(*t)).collect(), return_type: ty(self.1.ret) }
                }
                fn call<'a>(&self, mut a: Vec<R<'a>>) -> R<'a> {
                    let b = called(format!("{}({})", self.0, a.iter().map(show).collect::<Vec<_>>().join(", ")));
                    match self.1.ret {
                        Ty::Value => R::Int(b as i64),
                        Ty::Logical => R::Bool(b),
                        Ty::Nodes => match a.pop() {
                            Some(R::Nodes(v)) if b => R::Nodes(v),
                            _ => R::Nodes(vec![]),
                        },
                    }
                }
            }
            pub fn register(r: &mut crate::adapt::$m::function::FunctionRegister) {
                for (n, s) in funcs() {
                    r.insert(n.clone(), Box::new(F(n, s)));
                }
            }
        }
    };
}
engine!(serde, crate::adapt::serde::ast::FilterExpressionResult);
engine!(iter, crate::adapt::iter::filter::FilterExpressionResult);
engine!(loc, crate::adapt::loc::filter::FilterExpressionResult);
engine!(sing, crate::adapt::sing::filter::FilterExpressionResult);

fn envs() -> Envs {
    let mut s = crate::adapt::serde::env::Environment::new();
    serde::register(&mut s.function_register);
    let mut i = crate::adapt::iter::env::Environment::new();
    iter::register(&mut i.function_register);
    let mut l = crate::adapt::loc::env::Environment::new();
    loc::register(&mut l.function_register);
    let mut g = crate::adapt::sing::env::Environment::new();
    sing::register(&mut g.function_register);
    Envs { serde: Box::leak(Box::new(s)), iter: Box::leak(Box::new(i)), loc: Box::leak(Box::new(l)), sing: Box::leak(Box::new(g)) }
}

thread_local! {
    static ENVS: Envs = envs();
}

fn set() -> &'static Set {
    static S: std::sync::OnceLock<Set> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        let mut f = jpmodel::types::standard();
        f.extend(funcs());
        Set { name: "stateful", ps: Parsers::new(&f) }
    })
}

fn kids(v: &Value) -> Vec<&Value> {
    match v {
        Value::Array(a) => a.iter().collect(),
        Value::Object(o) => o.values().collect(),
        _ => vec![],
    }
}
fn visit<'v>(v: &'v Value, out: &mut Vec<&'v Value>) {
    out.push(v);
    for k in kids(v) {
        visit(k, out);
    }
}
fn list(v: &[&Value]) -> String {
    format!("({})", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "))
}

/// A filter: its text, the calls it makes for a child (given the answers so far), and
/// whether the child passes.
type Filter = (&'static str, fn(&Value, &Value, &mut dyn FnMut(String) -> bool) -> bool);

fn member<'v>(c: &'v Value, k: &str) -> Option<&'v Value> {
    c.as_object().and_then(|o| o.get(k))
}
fn shown(x: Option<&Value>) -> String {
    x.map_or("nothing".into(), |v| v.to_string())
}

const FILTERS: &[Filter] = &[
    ("tick()", |_, _, f| f("tick()".into())),
    ("!tick()", |_, _, f| !f("tick()".into())),
    ("(tick())", |_, _, f| f("tick()".into())),
    ("tock()==1", |_, _, f| f("tock()".into())),
    ("1!=tock()", |_, _, f| !f("tock()".into())),
    ("tock()<1", |_, _, f| !f("tock()".into())),
    ("seen(@)", |c, _, f| f(format!("seen({c})"))),
    ("!seen(@)", |c, _, f| !f(format!("seen({c})"))),
    ("seen(@.a)", |c, _, f| f(format!("seen({})", shown(member(c, "a"))))),
    ("seen($)", |_, r, f| f(format!("seen({r})"))),
    ("seen('x')", |_, _, f| f("seen(\"x\")".into())),
    ("seen(null)", |_, _, f| f("seen(null)".into())),
    ("said(1)==1", |_, _, f| f("said(1)".into())),
    ("said(@)==1", |c, _, f| f(format!("said({c})"))),
    ("0==said(@.a)", |c, _, f| !f(format!("said({})", shown(member(c, "a"))))),
    ("kept(@.*)", |c, _, f| f(format!("kept({})", list(&kids(c))))),
    ("kept($.*)", |_, r, f| f(format!("kept({})", list(&kids(r))))),
    ("kept($)", |_, r, f| f(format!("kept({})", list(&[r])))),
    ("gave(@)", |c, _, f| f(format!("gave({})", list(&[c])))),
    ("!gave(@.*)", |c, _, f| {
        let b = f(format!("gave({})", list(&kids(c))));
        !(b && !kids(c).is_empty())
    }),
    ("count(gave($))==1", |_, r, f| f(format!("gave({})", list(&[r])))),
    ("told(some())", |_, _, f| {
        f("some()".into());
        f("told(false)".into())
    }),
    ("told(@.a)", |c, _, f| f(format!("told({})", member(c, "a").is_some()))),
    ("told(@.a==1)", |c, _, f| f(format!("told({})", member(c, "a") == Some(&json!(1))))),
    ("seen(said(@))", |c, _, f| {
        let b = f(format!("said({c})"));
        f(format!("seen({})", b as i32))
    }),
    ("seen(said(said(1)))", |_, _, f| {
        let b = f("said(1)".into());
        let b = f(format!("said({})", b as i32));
        f(format!("seen({})", b as i32))
    }),
    ("told(tick())", |_, _, f| {
        let b = f("tick()".into());
        f(format!("told({b})"))
    }),
    ("told(!tick())", |_, _, f| {
        let b = !f("tick()".into());
        f(format!("told({b})"))
    }),
    ("seen(tock())", |_, _, f| {
        let b = f("tock()".into());
        f(format!("seen({})", b as i32))
    }),
    ("both(@,@)", |c, _, f| f(format!("both({c}, {})", list(&[c])))),
    ("both(1,$.a)", |_, r, f| f(format!("both(1, {})", list(&member(r, "a").into_iter().collect::<Vec<_>>())))),
    ("kept(gave(@))", |c, _, f| {
        let b = f(format!("gave({})", list(&[c])));
        f(format!("kept({})", if b { list(&[c]) } else { "()".into() }))
    }),
];

/// A filter query: the containers whose children it tests, in order.
const SHAPES: &[(&str, fn(&Value) -> Vec<&Value>)] = &[
    ("$[?#]", |r| vec![r]),
    ("$..[?#]", |r| {
        let mut v = vec![];
        visit(r, &mut v);
        v
    }),
    ("$.a[?#]", |r| member(r, "a").into_iter().collect()),
    ("$[0][?#]", |r| r.as_array().and_then(|a| a.first()).into_iter().collect()),
    ("$[?#,?#]", |r| vec![r, r]),
    ("$.*[?#]", |r| kids(r)),
    ("$['a','a'][?#]", |r| member(r, "a").into_iter().chain(member(r, "a")).collect()),
];

pub fn stateful(ctx: &Ctx) {
    let t = ctx.thorough;
    ctx.suite("functions that remember", "32 filters over functions whose answer is chosen anew for each call x 7 places x all documents of at most 4 (thorough 5) nodes with arrays and objects of up to 8 members x all answers of the first 6 (9) calls: called once for each child with what is to be had there, and exactly the children of its answers selected", || {
        let mut ds = docs::all(4 + t as usize, &[json!(1), json!("a")], &["a", "b"]);
        for n in 4..=8usize {
            ds.push(json!(vec![1; n]));
            ds.push(json!((0..n).collect::<Vec<_>>()));
            ds.push(Value::Object((0..n).map(|i| (format!("k{i}"), json!({"a": i % 2}))).collect()));
            ds.push(json!({"a": vec![json!({"a": 1}); n]}));
        }
        let set = set();
        let jobs: Vec<(usize, usize)> = (0..SHAPES.len()).flat_map(|i| (0..FILTERS.len()).map(move |j| (i, j))).collect();
        ctx.par(&jobs, |(i, j)| {
            let (shape, places) = SHAPES[*i];
            let (text, filter) = FILTERS[*j];
            let text = shape.replace('#', text);
            let q = prep(&text, set);
            ENVS.with(|envs| {
                for d in &ds {
                    let (mut done, mut all) = (0, 1);
                    while done < all {
                        let mask = done;
                        done += 1;
                        // what has to happen
                        let mut calls = vec![];
                        let mut sel: Vec<*const Value> = vec![];
                        for p in places(d) {
                            for c in kids(p) {
                                let mut f = |s: String| {
                                    let k = calls.len();
                                    calls.push(s);
                                    mask >> (k % 64) & 1 == 1
                                };
                                if filter(c, d, &mut f) {
                                    sel.push(c);
                                }
                            }
                        }
                        all = 1u64 << calls.len().min(if t { 9 } else { 6 });
                        ctx.state(1);
                        for e in ENGINES {
                            COUNT.with(|c| c.set(0));
                            MASK.with(|m| m.set(mask));
                            SEEN.with(|s| s.borrow_mut().clear());
                            let r = q.c.run(e, d, envs);
                            let seen = SEEN.with(|s| std::mem::take(&mut *s.borrow_mut()));
                            ctx.trace(1);
                            ctx.trans(seen.len() as u64);
                            let got = r.as_ref().map(|v| v.iter().map(|n| n.ptr).collect::<Vec<_>>());
                            let msg = if seen != calls {
                                format!("calls {seen:?}, want {calls:?}")
                            } else if got.as_ref().ok() != Some(&sel) {
                                format!("got {:?}, want {} nodes by the answers", r.as_ref().map(|v| v.iter().map(|n| n.path.clone()).collect::<Vec<_>>()), sel.len())
                            } else {
                                continue;
                            };
                            ctx.fail(Violation {
                                kind: "other",
                                who: e.name().into(),
                                what: "wrong-calls".into(),
                                input: format!("{text} on {d}"),
                                data: json!({"text": text, "doc": d.to_string(), "answers": mask}),
                                msg,
                            });
                        }
                    }
                }
            });
        });
        ctx.sample(|| "$..[?seen(said(@))]".into());
    });
}
