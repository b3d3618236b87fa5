//! Explores the schedules of threads that share environments, queries and parsers. The
//! crates under test are compiled against the shim, so every use of a mutex, an atomic and
//! so on is a point at which another thread may be scheduled. All schedules with at most a
//! given number of preemptions are run.
//!
//! conc list | run SCENARIO BOUND SECONDS | replay SCENARIO PLAN
use jpmodel::parse::Opts;
use mcstd::mc::{Choice, Sched};
use serde_json::{json, Value};
use std::sync::{Arc, Mutex};
use std::time::Instant;

use jsonpath_rfc9535 as hand;
use jsonpath_rfc9535_iter as iter;
use jsonpath_rfc9535_locations as loc;
use jsonpath_rfc9535_pest as pest;
use jsonpath_rfc9535_pest_recursive as rec;
use jsonpath_rfc9535_serde as serde;
use jsonpath_rfc9535_singular as sing;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ex {
    Find,
    Loop,
    Iter,
    Loc,
    Sing,
}
const ENGINES: [(Ex, &str); 5] = [(Ex::Find, "serde.find"), (Ex::Loop, "serde.find_loop"), (Ex::Iter, "iter"), (Ex::Loc, "locations"), (Ex::Sing, "singular")];

/// How an operation reaches the code under test.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Via {
    /// `find` of environment 0 or 1
    Env(usize),
    /// one query, parsed beforehand, that all threads use, in environment 0
    Shared,
    /// parsed by the shared parser and evaluated in environment 0 by the thread; the nodes of
    /// the lazy engine are taken one by one, with a switch possible between them
    Own,
    /// the crate's own `find` function, with its global environment
    Global,
    /// parse with the crates' parsers, shared by all threads
    Parse,
}

#[derive(Clone)]
struct Op {
    via: Via,
    query: &'static str,
    doc: &'static Value,
}

struct Scen {
    name: String,
    ex: Ex,
    prefill: Vec<Op>,
    threads: Vec<Vec<Op>>,
}

/// Environments and queries that live for one schedule.
struct World {
    ex: Ex,
    serde: [&'static serde::env::Environment; 2],
    iter: [&'static iter::env::Environment; 2],
    loc: [&'static loc::env::Environment; 2],
    sing: [&'static sing::env::Environment; 2],
    queries: Vec<(&'static str, Parsed)>,
    parsers: Arc<Parsers>,
}

enum Parsed {
    Serde(serde::Query),
    Iter(iter::Query),
    Loc(loc::Query),
    Sing(sing::Query),
}

struct Parsers {
    hand: hand::Parser,
    pest: pest::JSONPathParser,
    rec: rec::JSONPathParser,
    serde: serde::JSONPathParser,
    iter: iter::JSONPathParser,
    loc: loc::JSONPathParser,
    sing: sing::JSONPathParser,
}

/// A registered function at whose calls the scheduler may switch; always true.
mod pt {
    macro_rules! engine {
        ($m:ident, $R:path) => {
            pub mod $m {
                use crate::$m::function::{ExpressionType as E, FunctionExtension, FunctionSignature};
                use $R as R;
                pub struct Pt;
                impl FunctionExtension for Pt {
                    fn sig(&self) -> FunctionSignature {
                        FunctionSignature { param_types: vec![E::Value], return_type: E::Logical }
                    }
                    fn call<'a>(&self, _: Vec<R<'a>>) -> R<'a> {
                        mcstd::mc::point();
                        R::Bool(true)
                    }
                }
                pub fn env() -> crate::$m::env::Environment {
                    let mut e = crate::$m::env::Environment::new();
                    e.function_register.insert("pt".into(), Box::new(Pt));
                    e
                }
                pub fn parser() -> crate::$m::JSONPathParser {
                    let mut p = crate::$m::JSONPathParser::new();
                    p.functions.insert("pt".into(), Pt.sig());
                    p
                }
            }
        };
    }
    engine!(serde, crate::serde::ast::FilterExpressionResult);
    engine!(iter, crate::iter::filter::FilterExpressionResult);
    engine!(loc, crate::loc::filter::FilterExpressionResult);
    engine!(sing, crate::sing::filter::FilterExpressionResult);
}

fn leak<T>(t: T) -> &'static T {
    Box::leak(Box::new(t))
}

impl World {
    fn new(s: &Scen, parsers: Arc<Parsers>) -> World {
        let mut queries: Vec<(&'static str, Parsed)> = vec![];
        for o in s.threads.iter().flatten().filter(|o| o.via == Via::Shared) {
            if queries.iter().all(|q| q.0 != o.query) {
                let p = match s.ex {
                    Ex::Find | Ex::Loop => Parsed::Serde(parsers.serde.parse(o.query).unwrap()),
                    Ex::Iter => Parsed::Iter(parsers.iter.parse(o.query).unwrap()),
                    Ex::Loc => Parsed::Loc(parsers.loc.parse(o.query).unwrap()),
                    Ex::Sing => Parsed::Sing(parsers.sing.parse(o.query).unwrap()),
                };
                queries.push((o.query, p));
            }
        }
        World {
            ex: s.ex,
            serde: [leak(pt::serde::env()), leak(pt::serde::env())],
            iter: [leak(pt::iter::env()), leak(pt::iter::env())],
            loc: [leak(pt::loc::env()), leak(pt::loc::env())],
            sing: [leak(pt::sing::env()), leak(pt::sing::env())],
            queries,
            parsers,
        }
    }

    fn run(&self, o: &Op) -> Result<Vec<*const Value>, String> {
        let (q, d) = (o.query, o.doc);
        macro_rules! nodes {
            ($x:expr) => {
                $x.map(|v| v.iter().map(|n| n.value as *const Value).collect()).map_err(|e| e.msg)
            };
        }
        match o.via {
            Via::Env(k) => match self.ex {
                Ex::Find => nodes!(self.serde[k].find(q, d)),
                Ex::Loop => nodes!(self.serde[k].find_loop(q, d)),
                Ex::Iter => self.iter[k].find(q, d).map(|i| i.map(|n| n.value as *const Value).collect()).map_err(|e| e.msg),
                Ex::Loc => nodes!(self.loc[k].find(q, d)),
                Ex::Sing => nodes!(self.sing[k].find(q, d)),
            },
            Via::Global => match self.ex {
                Ex::Find => nodes!(serde::jsonpath::find(q, d)),
                Ex::Loop => nodes!(serde::jsonpath::find_loop(q, d)),
                Ex::Iter => iter::jsonpath::find(q, d).map(|i| i.map(|n| n.value as *const Value).collect()).map_err(|e| e.msg),
                Ex::Loc => nodes!(loc::jsonpath::find(q, d)),
                Ex::Sing => nodes!(sing::jsonpath::find(q, d)),
            },
            Via::Own => match self.ex {
                Ex::Find => self.parsers.serde.parse(q).map_err(|e| e.msg).and_then(|x| nodes!(x.find(d, self.serde[0]))),
                Ex::Loop => self.parsers.serde.parse(q).map_err(|e| e.msg).and_then(|x| nodes!(x.find_loop(d, self.serde[0]))),
                Ex::Iter => self.parsers.iter.parse(q).map_err(|e| e.msg).map(|x| {
                    let mut v = vec![];
                    for n in iter::iter::QueryIter::new(self.iter[0], d, x) {
                        mcstd::mc::point();
                        v.push(n.value as *const Value);
                    }
                    v
                }),
                Ex::Loc => self.parsers.loc.parse(q).map(|x| x.find(d, self.loc[0]).iter().map(|n| n.value as *const Value).collect()).map_err(|e| e.msg),
                Ex::Sing => self.parsers.sing.parse(q).map(|x| x.find(d, self.sing[0]).iter().map(|n| n.value as *const Value).collect()).map_err(|e| e.msg),
            },
            Via::Shared => {
                let p = &self.queries.iter().find(|x| x.0 == q).unwrap().1;
                match p {
                    Parsed::Serde(p) if self.ex == Ex::Find => nodes!(p.find(d, self.serde[0])),
                    Parsed::Serde(p) => nodes!(p.find_loop(d, self.serde[0])),
                    Parsed::Iter(p) => Ok(iter::iter::QueryIter::new(self.iter[0], d, p.clone()).map(|n| n.value as *const Value).collect()),
                    Parsed::Loc(p) => Ok(p.find(d, self.loc[0]).iter().map(|n| n.value as *const Value).collect()),
                    Parsed::Sing(p) => Ok(p.find(d, self.sing[0]).iter().map(|n| n.value as *const Value).collect()),
                }
            }
            Via::Parse => {
                let p = &self.parsers;
                let all = [
                    p.hand.parse(q).is_ok(),
                    p.pest.parse(q).is_ok(),
                    p.rec.parse(q).is_ok(),
                    p.serde.parse(q).is_ok(),
                    p.iter.parse(q).is_ok(),
                    p.loc.parse(q).is_ok(),
                    p.sing.parse(q).is_ok(),
                    hand::Query::standard(q).is_ok(),
                    pest::Query::standard(q).is_ok(),
                    rec::Query::standard(q).is_ok(),
                    serde::Query::standard(q).is_ok(),
                    iter::Query::standard(q).is_ok(),
                    loc::Query::standard(q).is_ok(),
                    sing::Query::standard(q).is_ok(),
                ];
                if all.iter().all(|x| *x) {
                    Ok(vec![])
                } else if all.iter().all(|x| !*x) {
                    Ok(vec![std::ptr::null()])
                } else {
                    Err(format!("accepted by some: {all:?}"))
                }
            }
        }
    }
}

/// Frees the environments; all threads have ended.
impl Drop for World {
    fn drop(&mut self) {
        unsafe fn free<T>(x: &'static T) {
            drop(Box::from_raw(x as *const T as *mut T));
        }
        unsafe {
            for k in 0..2 {
                free(self.serde[k]);
                free(self.iter[k]);
                free(self.loc[k]);
                free(self.sing[k]);
            }
        }
    }
}

/// What the operation gives on its own, by the model.
fn expected(o: &Op) -> Vec<*const Value> {
    let p = jpmodel::parse::parse(o.query, Opts::default());
    let std = jpmodel::types::standard();
    if o.via == Via::Parse {
        let ok = p.query.as_ref().is_some_and(|q| {
            let mut t = jpmodel::types::Typing::default();
            jpmodel::types::check_query(q, &std, &mut t);
            t.ok()
        });
        return if ok { vec![] } else { vec![std::ptr::null()] };
    }
    let q = p.query.expect("scenario: malformed query");
    let mut funcs = std;
    funcs.insert("pt".into(), jpmodel::types::Sig { params: vec![jpmodel::types::Ty::Value], ret: jpmodel::types::Ty::Logical });
    jpmodel::eval::find_ext(&q, o.doc, &funcs, &|_, _| jpmodel::eval::Res::Logical(true)).iter().map(|n| n.value as *const Value).collect()
}

// Addresses of documents, which are static, cross threads as numbers.
struct Want(Vec<usize>);

struct Report {
    fails: Mutex<Vec<String>>,
}

fn run_once(s: &Scen, want: &[Vec<Want>], parsers: &Arc<Parsers>, plan: Vec<u8>) -> (mcstd::mc::Outcome, Option<String>) {
    let w = World::new(s, parsers.clone());
    for o in &s.prefill {
        let _ = w.run(o);
    }
    let rep = Arc::new(Report { fails: Mutex::new(vec![]) });
    let sched = Sched::new(s.threads.len(), plan);
    // the threads end before `w` goes away, or the process does
    let wp: &'static World = unsafe { &*(&w as *const World) };
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for (t, ops) in s.threads.iter().enumerate() {
        let ops: &'static [Op] = unsafe { &*(ops.as_slice() as *const [Op]) };
        let want: &'static [Want] = unsafe { &*(want[t].as_slice() as *const [Want]) };
        let rep = rep.clone();
        bodies.push(Box::new(move || {
            for (i, o) in ops.iter().enumerate() {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| wp.run(o)));
                let m = match r {
                    Ok(Ok(v)) => {
                        let v: Vec<usize> = v.iter().map(|p| *p as usize).collect();
                        if v == want[i].0 {
                            continue;
                        }
                        format!("{} nodes, on its own {}{}", v.len(), want[i].0.len(), if v.len() == want[i].0.len() { " (others)" } else { "" })
                    }
                    Ok(Err(e)) => format!("error: {e}"),
                    Err(p) => {
                        let p = p.downcast_ref::<&str>().map(|x| x.to_string()).or_else(|| p.downcast_ref::<String>().cloned()).unwrap_or_default();
                        if p.starts_with("mc: stuck") {
                            return;
                        }
                        format!("panic: {p}")
                    }
                };
                rep.fails.lock().unwrap().push(format!("thread {t}, operation {i} ({} on {}): {m}", o.query, short(o.doc)));
            }
        }));
    }
    let out = sched.run(bodies);
    let mut msg = rep.fails.lock().unwrap().first().cloned();
    if out.deadlock {
        msg = Some("deadlock: every thread that has not ended waits for another".into());
    } else if out.livelock {
        msg = Some("no end: the threads keep waiting for each other".into());
    } else if out.stuck {
        msg = Some("a thread does not end".into());
        std::mem::forget(w);
        return (out, msg);
    }
    drop(w);
    (out, msg)
}

fn short(v: &Value) -> String {
    v.to_string().chars().take(60).collect()
}

/// The next plan in depth-first order, and whether the bound cut anything off.
fn next_plan(trace: &[Choice], bound: usize, cut: &mut bool) -> Option<Vec<u8>> {
    let mut cost = vec![0usize; trace.len() + 1];
    for (i, c) in trace.iter().enumerate() {
        cost[i + 1] = cost[i] + (!c.forced && c.chosen > 0) as usize;
    }
    for i in (0..trace.len()).rev() {
        let c = trace[i];
        if c.chosen + 1 < c.options {
            if cost[i] + (!c.forced) as usize <= bound {
                let mut p: Vec<u8> = trace[..i].iter().map(|c| c.chosen).collect();
                p.push(c.chosen + 1);
                return Some(p);
            }
            *cut = true;
        }
    }
    None
}

fn parsers() -> Arc<Parsers> {
    Arc::new(Parsers { hand: hand::Parser::new(), pest: pest::JSONPathParser::new(), rec: rec::JSONPathParser::new(), serde: pt::serde::parser(), iter: pt::iter::parser(), loc: pt::loc::parser(), sing: pt::sing::parser() })
}

fn wants(s: &Scen) -> Vec<Vec<Want>> {
    s.threads.iter().map(|t| t.iter().map(|o| Want(expected(o).iter().map(|p| *p as usize).collect())).collect()).collect()
}

/// All schedules with at most 0, 1, 2 … preemptions, until there are no others or the time
/// is used up. What counts are the schedules of the last bound that was completed.
fn explore(s: &Scen, max: usize, secs: f64) -> Value {
    let parsers = parsers();
    let want = wants(s);
    let start = Instant::now();
    let mut done = json!(null);
    for bound in 0..=max {
        let (mut schedules, mut states, mut steps, mut diverged, mut longest) = (0u64, 0u64, 0u64, 0u64, 0usize);
        let mut plan = vec![];
        let mut cut = false;
        loop {
            let from = plan.len();
            let (out, msg) = run_once(s, &want, &parsers, plan.clone());
            schedules += 1;
            states += (out.trace.len() + 1).saturating_sub(from) as u64;
            steps += out.who.len() as u64;
            diverged += out.diverged as u64;
            longest = longest.max(out.trace.len());
            if let Some(m) = msg {
                let plan: Vec<u8> = out.trace.iter().map(|c| c.chosen).collect();
                return json!({"scenario": s.name, "bound": bound, "schedules": schedules, "states": states, "steps": steps,
                    "violation": {"msg": m, "plan": plan, "order": out.who.iter().take(400).map(|x| *x as u64).collect::<Vec<_>>()}});
            }
            // few preemptions get more time
            if start.elapsed().as_secs_f64() > if bound <= 2 { 8.0 * secs } else { secs } {
                if done.is_null() {
                    done = json!({"scenario": s.name, "bound": null, "schedules": schedules, "states": states, "steps": steps});
                }
                return done;
            }
            match next_plan(&out.trace, bound, &mut cut) {
                Some(p) => plan = p,
                None => break,
            }
        }
        done = json!({"scenario": s.name, "bound": if cut { json!(bound) } else { json!("none") }, "schedules": schedules, "states": states, "steps": steps, "diverged": diverged, "longest": longest, "seconds": start.elapsed().as_secs_f64()});
        if !cut {
            break;
        }
    }
    done
}

// ---------------------------------------------------------------------------------------
// Scenarios

fn doc(v: Value) -> &'static Value {
    leak(v)
}

fn m(p: &str, s: &[&str]) -> Op {
    Op { via: Via::Env(0), query: "$.s[?match(@,$.p)]", doc: doc(json!({"p": p, "s": s})) }
}
fn s(p: &str, s: &[&str]) -> Op {
    Op { via: Via::Env(0), query: "$.s[?search(@,$.p)]", doc: doc(json!({"p": p, "s": s})) }
}
fn q(query: &'static str, v: Value) -> Op {
    Op { via: Via::Env(0), query, doc: doc(v) }
}
fn via(v: Via, mut o: Op) -> Op {
    o.via = v;
    o
}
fn all_via(v: Via, t: Vec<Vec<Op>>) -> Vec<Vec<Op>> {
    t.into_iter().map(|x| x.into_iter().map(|o| via(v, o)).collect()).collect()
}

fn scenarios() -> Vec<Scen> {
    let mut out = vec![];
    // more patterns than any cache in the crates holds
    let full = |s: bool| -> Vec<Op> {
        (0..104).map(|i| Op { via: Via::Env(0), query: if s { "$.s[?search(@,$.p)]" } else { "$.s[?match(@,$.p)]" }, doc: doc(json!({"p": format!("k{}", (i + 50) % 104), "s": [""]})) }).collect()
    };
    let abc: &[&str] = &["abc"];
    let ab: &[&str] = &["ab"];
    for (ex, en) in ENGINES {
        let mut add = |name: &str, prefill: Vec<Op>, threads: Vec<Vec<Op>>| out.push(Scen { name: format!("{en}: {name}"), ex, prefill, threads });
        add("the same new pattern", vec![], vec![vec![m("a.c", abc), m("a.c", ab)], vec![m("a.c", ab), m("a.c", abc)]]);
        add("two new patterns, crosswise", vec![], vec![vec![m("ab*", abc), m("a.c", abc)], vec![m("a.c", abc), m("ab*", abc)]]);
        add("match and search, one pattern", vec![], vec![vec![m("b", &["abc", "b"]), s("b", &["abc", "b"])], vec![s("b", &["abc", "b"]), m("b", &["abc", "b"])]]);
        add("malformed patterns", vec![], vec![vec![m("[", abc), m("a.c", abc)], vec![m("a.c", abc), m("[", &["["])]]);
        add("several subjects", vec![], vec![vec![m("a.", &["ab", "b", "ac"])], vec![m("b.*", &["ab", "b", "ba"])]]);
        add("known patterns", vec![m("a.c", abc), m("ab*", abc), s("b", abc)], vec![vec![m("a.c", abc), m("ab*", ab), s("b", abc)], vec![m("ab*", abc), m("a.c", ab), s("b", ab)]]);
        add("one pattern known", vec![m("a.c", abc)], vec![vec![m("a.c", abc), m("x", abc), m("a.c", ab)], vec![m("y", abc), m("a.c", abc), m("x", &["x"])]]);
        add("both functions in one filter", vec![], vec![
            vec![q("$[?match(@,'a.*')&&search(@,'c')]", json!(["abc", "ab"]))],
            vec![q("$[?search(@,'c')&&match(@,'a.*')]", json!(["abc", "cb"]))],
        ]);
        add("calls in the arguments of calls", vec![], vec![
            vec![q("$[?match(value(@[?match(@,'a')]),'a|b')]", json!([["a", "b"], ["c"]]))],
            vec![q("$[?search(value(@[?search(@,'b')]),'b')]", json!([["a", "b"], ["c"]]))],
        ]);
        add("calls crosswise in arguments", vec![], vec![
            vec![q("$[?match(value(@[?search(@,'a')]),'a|b')]", json!([["a", "b"]]))],
            vec![q("$[?search(value(@[?match(@,'b')]),'b')]", json!([["a", "b"]]))],
        ]);
        add("a full cache", full(false), vec![vec![m("k0", &["k0"]), m("k40", &["k40", "k2"])], vec![m("n1", &["n1", "k0"]), m("n2", &["n2"])]]);
        add("a full cache, search", full(true), vec![vec![s("k0", &["k0"]), s("k40", &["k40", "k2"])], vec![s("n1", &["n1", "k0"]), s("k0", &["k0x"])]]);
        add("three threads", vec![], vec![vec![m("a.c", abc)], vec![m("ab*", abc)], vec![m("a.c", ab)]]);
        add("three threads, full cache", full(false), vec![vec![m("k0", &["k0", "k1"])], vec![m("n1", &["n1"])], vec![m("k40", &["k1", "k40"])]]);
        add("two environments", vec![], vec![vec![m("a.c", abc), via(Via::Env(1), m("ab*", abc))], vec![via(Via::Env(1), m("a.c", ab)), m("ab*", ab)]]);
        add("one query on two documents", vec![], all_via(Via::Shared, vec![
            vec![q("$.a[?@.b==$.c&&@[?@==$.c]]", json!({"a": [{"b": 1}, {"b": 2}], "c": 1}))],
            vec![q("$.a[?@.b==$.c&&@[?@==$.c]]", json!({"a": [{"b": 1}, {"b": 2}], "c": 2}))],
        ]));
        add("one query with calls on two documents", vec![], all_via(Via::Shared, vec![
            vec![m("a.c", abc), m("ab*", abc)],
            vec![m("ab*", ab), m("a.c", ab)],
        ]));
        add("one descendant query on two documents", vec![], all_via(Via::Shared, vec![
            vec![q("$..[?length(@)>1||count(@.*)==value($.n)].*", json!({"n": 1, "a": [[1], [1, 2]]})), q("$..[?length(@)>1||count(@.*)==value($.n)].*", json!({"n": 2, "a": [[1], [1, 2]]}))],
            vec![q("$..[?length(@)>1||count(@.*)==value($.n)].*", json!({"n": 2, "b": {"x": "ab", "y": {"z": 1, "w": 2}}}))],
        ]));
        add("global environment", vec![], all_via(Via::Global, vec![vec![m("a.c", abc), s("b", abc)], vec![m("ab*", abc), m("a.c", ab)]]));
        add("global environment, full cache", full(false).into_iter().map(|o| via(Via::Global, o)).collect(), all_via(Via::Global, vec![vec![m("k0", &["k0"]), m("k45", &["k45"])], vec![m("n1", &["n1"]), m("k0", &["k1"])]]));
        add("find without regular expressions", vec![], all_via(Via::Global, vec![
            vec![q("$..a[?@>$.n]", json!({"n": 1, "a": [1, 2, {"a": [3]}]}))],
            vec![q("$[-1:0:-1]", json!([1, 2, 3]))],
        ]));
        add("switches inside filters", vec![], all_via(Via::Own, vec![
            vec![q("$.a[?pt(@)&&@.b==$.c].b", json!({"a": [{"b": 1}, {"b": 2}], "c": 1}))],
            vec![q("$.a[?pt(@)&&@.b==$.c].b", json!({"a": [{"b": 1}, {"b": 2}], "c": 2}))],
        ]));
        add("switches inside descendant filters", vec![], all_via(Via::Own, vec![
            vec![q("$..[?pt(@)&&@[?@==$.n]]", json!({"n": 1, "a": [[1]]}))],
            vec![q("$..[?pt(@)||@==$.n]['a',0:2]", json!({"n": 2, "a": [2]}))],
        ]));
        add("switches inside regular expression filters", vec![], all_via(Via::Own, vec![
            vec![q("$.s[?pt(@)&&match(@,$.p)]", json!({"p": "a.c", "s": ["abc"]}))],
            vec![q("$.s[?match(@,$.p)&&pt(@)]", json!({"p": "ab*", "s": ["abc"]}))],
        ]));
        add("switches inside arguments", vec![], all_via(Via::Own, vec![
            vec![q("$[?match(value(@[?pt(@)]),'a')]", json!([["a"], ["b"]]))],
            vec![q("$[?search(value(@[?pt(@)]),'b')]", json!([["a"], ["b"]]))],
        ]));
        add("switches in one shared query", vec![], all_via(Via::Shared, vec![
            vec![q("$[?pt(@)&&count(@.*)==$.n].*", json!({"n": 1, "a": [1], "b": [1, 2]}))],
            vec![q("$[?pt(@)&&count(@.*)==$.n].*", json!({"n": 2, "a": [1], "b": [1, 2]}))],
        ]));
        add("switches between calls and segments", vec![], all_via(Via::Own, vec![
            vec![q("$[?pt(@)][?pt(@)]", json!([[1, 2]])), q("$[?length(@)==1&&pt(@)]", json!(["a", "ab"]))],
            vec![q("$.*[?pt(@)]", json!({"a": ["x"]})), q("$[?pt(@)&&length(@)==2]", json!(["a", "ab"]))],
        ]));
        if ex == Ex::Find {
            for (i, (a, b)) in [("$.a", "$["), ("$[?match(@,'a')]", "$[?match(@)]"), ("$['\\ud83d\\ude00']", "$['\\ud83d']"), ("$[?(@.a||@.b)&&!@.c]", "$[?@.a||]")].into_iter().enumerate() {
                out.push(Scen { name: format!("parsers: shared parsers {i}"), ex, prefill: vec![], threads: all_via(Via::Parse, vec![vec![q(a, json!(null)), q(b, json!(null))], vec![q(b, json!(null)), q(a, json!(null))]]) });
            }
        }
    }
    out
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    std::panic::set_hook(Box::new(|_| {}));
    match a.first().map(|s| s.as_str()) {
        Some("list") => {
            for s in scenarios() {
                println!("{}\t{}", s.name, s.threads.len());
            }
        }
        Some("run") => {
            let sc = scenarios();
            let s = sc.iter().find(|s| s.name == a[1]).expect("scenario");
            println!("{}", explore(s, a[2].parse().unwrap(), a[3].parse().unwrap()));
            std::process::exit(0);
        }
        Some("replay") => {
            let sc = scenarios();
            let s = sc.iter().find(|s| s.name == a[1]).expect("scenario");
            let plan: Vec<u8> = serde_json::from_str(&a[2]).unwrap();
            let want = wants(s);
            let parsers = parsers();
            let (o, msg) = run_once(s, &want, &parsers, plan);
            println!("{}", json!({"order": o.who.iter().map(|x| *x as u64).collect::<Vec<_>>(), "violation": msg}));
            std::process::exit(msg_code(&msg));
        }
        _ => std::process::exit(2),
    }
}

fn msg_code(m: &Option<String>) -> i32 {
    m.is_some() as i32
}
