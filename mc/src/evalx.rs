//! Checks of the evaluation engines against the reference evaluator and each other.
use crate::adapt::*;
use crate::report::*;
use crate::syntax::*;
use jpmodel::ast::Query;
use jpmodel::eval;
use jpmodel::parse::{self, Opts};
use jpmodel::path::{normalized, Step};
use serde_json::{json, Value};
use std::collections::HashMap;

/// the nodes an engine selects, in order, are those of the reference
pub const NODES: u32 = 1;
/// every node's path is the normalized path of where its value is
pub const PATH: u32 = 2;
/// all engines return the same nodes
pub const AGREE: u32 = 4;
/// evaluation neither fails nor panics
pub const TOTAL_EVAL: u32 = 8;
/// lazily produced prefixes are prefixes
pub const LAZY: u32 = 16;
/// a query that an engine says is singular selects at most one node
pub const SINGLE: u32 = 32;

pub struct Q {
    pub text: String,
    pub c: Compiled,
    pub model: Query,
    /// only the singular crate's extensions make this text well-formed
    pub sing_only: bool,
}

/// Parse with everything. A text the reference rejects is a mistake of this checker.
pub fn prep(text: &str, set: &Set) -> Q {
    let ints = set.ps.ints;
    let std = Expect::of(text, Opts { ints, ..Default::default() }, &set.ps.funcs);
    let sing_only = !std.valid();
    let model = if sing_only {
        let e = Expect::of(text, Opts { singular: true, ints, ..Default::default() }, &set.ps.funcs);
        assert!(e.valid(), "checker: not a query: {text}");
        e.parsed.query.unwrap()
    } else {
        std.parsed.query.unwrap()
    };
    Q { text: text.into(), c: Compiled::new(&set.ps, text), model, sing_only }
}

pub fn prep_all(texts: &[String], set: &Set) -> Vec<Q> {
    let mut seen = std::collections::HashSet::new();
    texts.iter().filter(|t| seen.insert((*t).clone())).map(|t| prep(t, set)).collect()
}

pub struct Doc {
    pub v: Value,
    pub text: String,
    pub at: HashMap<*const Value, Vec<Step>>,
}
unsafe impl Sync for Doc {}
unsafe impl Send for Doc {}

impl Doc {
    /// Boxed: nodes are identified by their address.
    pub fn new(v: Value) -> Box<Doc> {
        let mut d = Box::new(Doc { text: if nested(&v) < 120 { v.to_string() } else { String::new() }, v, at: HashMap::new() });
        fn walk(v: &Value, p: &mut Vec<Step>, m: &mut HashMap<*const Value, Vec<Step>>) {
            m.insert(v, p.clone());
            match v {
                Value::Array(a) => {
                    for (i, x) in a.iter().enumerate() {
                        p.push(Step::Index(i));
                        walk(x, p, m);
                        p.pop();
                    }
                }
                Value::Object(o) => {
                    for (k, x) in o {
                        p.push(Step::Name(k.clone()));
                        walk(x, p, m);
                        p.pop();
                    }
                }
                _ => {}
            }
        }
        let mut m = HashMap::new();
        walk(&d.v, &mut vec![], &mut m);
        d.at = m;
        d
    }
    pub fn path(&self, p: *const Value) -> String {
        match self.at.get(&p) {
            Some(s) => normalized(s),
            None => "(not in the document)".into(),
        }
    }
    pub fn paths(&self, v: &[*const Value]) -> String {
        let mut s: Vec<String> = v.iter().take(12).map(|p| self.path(*p)).collect();
        if v.len() > 12 {
            s.push(format!("… ({})", v.len()));
        }
        format!("[{}]", s.join(" "))
    }
}

/// Nesting depth.
pub fn nested(v: &Value) -> usize {
    match v {
        Value::Array(a) => 1 + a.iter().map(nested).max().unwrap_or(0),
        Value::Object(o) => 1 + o.values().map(nested).max().unwrap_or(0),
        _ => 0,
    }
}

pub fn docs(v: Vec<Value>) -> Vec<Box<Doc>> {
    v.into_iter().map(Doc::new).collect()
}

thread_local! {
    static ENVS: Envs = Envs::fresh();
}
pub fn with_envs<T>(f: impl FnOnce(&Envs) -> T) -> T {
    ENVS.with(|e| f(e))
}

pub struct Bad {
    pub who: Ex,
    pub what: &'static str,
    pub msg: String,
}

/// Evaluate one query on one document with every engine.
pub fn examine_eval(q: &Q, d: &Doc, set: &Set, asp: u32, envs: &Envs, bad: &mut Vec<Bad>) -> (u64, u64) {
    crate::watch::begin(1, asp, set.name, &q.text, &d.text);
    let want: Option<Vec<*const Value>> = if asp & NODES != 0 {
        Some(eval::find_ext(&q.model, &d.v, &set.ps.funcs, &|n, a| crate::custom::model(n, a)).iter().map(|n| n.value as *const Value).collect())
    } else {
        None
    };
    let (mut n, mut produced) = (0, 0);
    let mut first: Option<(Ex, Vec<ENode>)> = None;
    for e in ENGINES {
        if q.sing_only && e != Ex::Sing {
            continue;
        }
        n += 1;
        let got = match q.c.run(e, &d.v, envs) {
            Ok(g) => g,
            Err(m) => {
                let what = if m.starts_with("panic") {
                    "evaluation-panics"
                } else if m.starts_with("error") {
                    "evaluation-fails"
                } else {
                    "query-rejected"
                };
                bad.push(Bad { who: e, what, msg: m });
                continue;
            }
        };
        produced += got.len() as u64;
        if let Some(m) = crate::custom::take_misuse() {
            bad.push(Bad { who: e, what: "bad-call", msg: m });
        }
        if let Some(w) = &want {
            if got.len() != w.len() || got.iter().zip(w).any(|(g, w)| g.ptr != *w) {
                let g: Vec<*const Value> = got.iter().map(|x| x.ptr).collect();
                bad.push(Bad { who: e, what: "wrong-nodes", msg: format!("got {}, want {}", d.paths(&g), d.paths(w)) });
            }
        }
        if asp & SINGLE != 0 && got.len() > 1 && q.c.singular(e) {
            bad.push(Bad { who: e, what: "singular-selects-several", msg: format!("{} nodes", got.len()) });
        }
        if asp & PATH != 0 {
            for g in &got {
                let Some(steps) = d.at.get(&g.ptr) else {
                    bad.push(Bad { who: e, what: "node-not-in-document", msg: g.path.clone() });
                    break;
                };
                let w = normalized(steps);
                if g.path != w {
                    bad.push(Bad { who: e, what: "wrong-path", msg: format!("got {:?}, want {w:?}", g.path) });
                    break;
                }
                if let Some(s) = &g.steps {
                    if s != steps {
                        bad.push(Bad { who: e, what: "wrong-location", msg: format!("got {s:?}, want {steps:?}") });
                        break;
                    }
                }
            }
        }
        if asp & LAZY != 0 && e == Ex::Iter {
            if let Some(m) = lazy(q, d, envs, &got) {
                bad.push(Bad { who: e, what: "lazy-differs", msg: m });
            }
        }
        if asp & AGREE != 0 {
            match &first {
                None => first = Some((e, got)),
                Some((f, v)) => {
                    if v.len() != got.len() || v.iter().zip(&got).any(|(a, b)| a.ptr != b.ptr || a.path != b.path) {
                        let x: Vec<String> = v.iter().take(12).map(|n| n.path.clone()).collect();
                        let y: Vec<String> = got.iter().take(12).map(|n| n.path.clone()).collect();
                        bad.push(Bad { who: e, what: "engines-disagree", msg: format!("{} gives {x:?} ({}), {} gives {y:?} ({})", f.name(), v.len(), e.name(), got.len()) });
                    }
                }
            }
        }
    }
    (n, produced)
}

/// All ways to consume the iterator in part: each prefix, two iterators in turns, and
/// past the end.
fn lazy(q: &Q, d: &Doc, envs: &Envs, all: &[ENode]) -> Option<String> {
    let Ok(c) = &q.c.iter else { return None };
    let r = guarded(|| {
        let mk = || iter::iter::QueryIter::new(envs.iter, &d.v, c.clone());
        let n = all.len();
        let mut it = mk();
        for k in 0..n {
            match it.next() {
                Some(x) if std::ptr::eq(x.value, all[k].ptr) && x.location == all[k].path => {}
                _ => return Some(format!("node {k} differs when taken on its own")),
            }
            if k < 6 || k + 2 > n {
                // a second iterator, started in the middle of the first
                let mut j = mk();
                for m in 0..=k {
                    match j.next() {
                        Some(x) if std::ptr::eq(x.value, all[m].ptr) => {}
                        _ => return Some(format!("node {m} differs in a second iterator started after node {k}")),
                    }
                }
            }
        }
        for _ in 0..2 {
            if it.next().is_some() {
                return Some("a node after the end".into());
            }
        }
        if mk().count() != n {
            return Some("count differs".into());
        }
        if n > 0 {
            match mk().last() {
                Some(x) if std::ptr::eq(x.value, all[n - 1].ptr) => {}
                _ => return Some("last differs".into()),
            }
            match mk().nth(n / 2) {
                Some(x) if std::ptr::eq(x.value, all[n / 2].ptr) => {}
                _ => return Some("nth differs".into()),
            }
        }
        None
    });
    match r {
        Ok(m) => m,
        Err(p) => Some(format!("panic: {p}")),
    }
}

pub fn report_eval(ctx: &Ctx, q: &Q, d: &Doc, set: &Set, asp: u32, bad: Vec<Bad>) {
    for b in bad {
        ctx.fail(Violation {
            kind: "eval",
            who: b.who.name().into(),
            what: b.what.into(),
            input: format!("{} on {}", q.text, d.v),
            data: json!({"text": q.text, "doc": d.v.to_string(), "funcs": set.name, "aspects": asp}),
            msg: b.msg,
        });
    }
}

/// Every query on every document.
pub fn product(ctx: &Ctx, qs: &[Q], ds: &[Box<Doc>], set: &Set, asp: u32) {
    // short jobs: a run of documents each
    let chunk = (ds.len() / 64).clamp(1, 64);
    let jobs: Vec<&[Box<Doc>]> = ds.chunks(chunk).collect();
    ctx.par(&jobs, |job| {
        with_envs(|envs| {
            let s0 = eval::steps();
            let (mut n, mut produced) = (0, 0);
            for d in job.iter() {
                for q in qs {
                    let mut bad = vec![];
                    let (a, b) = examine_eval(q, d, set, asp, envs, &mut bad);
                    n += a;
                    produced += b;
                    if !bad.is_empty() {
                        report_eval(ctx, q, d, set, asp, bad);
                    }
                }
            }
            ctx.state((job.len() * qs.len()) as u64);
            ctx.trace(n);
            // what the reference evaluator did, selector by selector; where it was not
            // asked, the nodes that the engines produced
            let s = eval::steps() - s0;
            ctx.trans(if s > 0 { s } else { produced });
        })
    });
    if let (Some(q), Some(d)) = (qs.get(qs.len() / 2), ds.get(ds.len() / 2)) {
        ctx.sample(|| format!("{} on {}", q.text, d.v));
    }
}

/// Many queries on few documents: queries are prepared as they are needed.
pub fn sweep(ctx: &Ctx, texts: &[String], ds: &[Box<Doc>], set: &Set, asp: u32) {
    let jobs: Vec<&[String]> = texts.chunks(64).collect();
    ctx.par(&jobs, |j| {
        let qs = prep_all(j, set);
        with_envs(|envs| {
            let s0 = eval::steps();
            let (mut n, mut produced) = (0, 0);
            for q in &qs {
                for d in ds {
                    let mut bad = vec![];
                    let (a, b) = examine_eval(q, d, set, asp, envs, &mut bad);
                    n += a;
                    produced += b;
                    if !bad.is_empty() {
                        report_eval(ctx, q, d, set, asp, bad);
                    }
                }
            }
            ctx.state((qs.len() * ds.len()) as u64);
            ctx.trace(n);
            let s = eval::steps() - s0;
            ctx.trans(if s > 0 { s } else { produced });
        })
    });
    if let Some(t) = texts.get(texts.len() / 2) {
        ctx.sample(|| format!("{t} on {}", ds[ds.len() / 2].v));
    }
}

/// Documents in which the queries of the small vocabularies differ.
pub fn sweep_docs() -> Vec<Box<Doc>> {
    let mut v = crate::docs::all(3, &[json!(1)], &["a", "b"]);
    v.extend([
        json!("a"), json!(1), json!(null),
        json!([1, "a", null, [1], {"a": 1}]),
        json!({"a": [1, {"a": 1}], "b": {"a": [0, "a"]}}),
        json!([{"a": 1, "b": 1}, {"b": 1}, {"a": {"a": 1}}, [[1, 2], []]]),
        json!({"b": [[1], {"a": false}], "a": {"b": 1, "a": null}}),
        json!([[[1, "a"], 1], [1], "1"]),
        json!({"a": "a", "b": ["a", "ab", ""]}),
        json!([true, false, 2, 1.0, "a", {"a": [1], "b": 2}]),
        json!({"a": 0, "b": [{"a": 1, "b": {"a": 1}}, [3, 1, 2]]}),
    ]);
    docs(v)
}

pub fn is_std(text: &str) -> bool {
    parse::parse(text, Opts::default()).query.is_some()
}

pub fn replay_eval(d: &Value) -> Vec<String> {
    let set = crate::syntax2::set_named(d["funcs"].as_str().unwrap_or("std"));
    let q = prep(d["text"].as_str().unwrap(), set);
    let doc = Doc::new(serde_json::from_str(d["doc"].as_str().unwrap()).unwrap());
    let mut bad = vec![];
    let mut run = |e: &Envs| examine_eval(&q, &doc, set, d["aspects"].as_u64().unwrap() as u32, e, &mut bad);
    if set.name == "custom" {
        crate::custom::with_custom(&mut run);
    } else {
        with_envs(&mut run);
    }
    bad.into_iter().map(|b| format!("{} {}: {}", b.who.name(), b.what, b.msg)).collect()
}
