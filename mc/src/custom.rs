//! Registered functions: the same deterministic functions for every engine and for the
//! model. Each checks what it is called with and answers in a way that gives it away.
use crate::adapt::*;
use crate::docs;
use crate::evals2::valid_texts;
use crate::evalx::*;
use crate::report::*;
use crate::syntax::*;
use jpmodel::eval::{Num, Res, Val};
use jpmodel::types::{Funcs, Sig, Ty};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::sync::OnceLock;

thread_local! {
    static MISUSE: RefCell<Option<String>> = const { RefCell::new(None) };
    static CALLS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

fn misuse(m: String) {
    MISUSE.with(|x| {
        x.borrow_mut().get_or_insert(m);
    })
}
pub fn take_misuse() -> Option<String> {
    MISUSE.with(|x| x.borrow_mut().take())
}
pub fn calls() -> u64 {
    CALLS.with(|c| c.get())
}

/// Functions of 4 to 8 parameters: `pickN_K` gives its K-th argument, `bitsN_…` tells for
/// each argument whether it is "on".
fn long_funcs() -> Vec<(String, Sig)> {
    let mut v = vec![];
    for n in 4..=8 {
        for k in 0..n {
            v.push((format!("pick{n}_{}", ["a", "b", "c", "d", "e", "f", "g", "h"][k]), Sig { params: vec![Ty::Value; n], ret: Ty::Value }));
        }
        for (i, c) in ["vln", "nvl", "lnv", "l", "n", "v"].iter().enumerate() {
            let params = (0..n)
                .map(|j| match c.as_bytes()[j % c.len()] {
                    b'v' => Ty::Value,
                    b'l' => Ty::Logical,
                    _ => Ty::Nodes,
                })
                .collect();
            v.push((format!("bits{n}_{}", ["a", "b", "c", "d", "e", "f"][i]), Sig { params, ret: Ty::Value }));
        }
    }
    v
}

/// Which argument a function picks.
fn picks(name: &str) -> Option<usize> {
    name.strip_prefix("pick").map(|r| (r.as_bytes()[2] - b'a') as usize)
}

/// The functions: those of the syntax suites, and some that tell their arguments apart.
pub fn funcs() -> Funcs {
    let mut f = ext_funcs();
    f.insert("first".into(), Sig { params: vec![Ty::Value, Ty::Value], ret: Ty::Value });
    f.insert("second".into(), Sig { params: vec![Ty::Value, Ty::Value, Ty::Value], ret: Ty::Value });
    f.insert("both".into(), Sig { params: vec![Ty::Value, Ty::Value], ret: Ty::Logical });
    f.extend(long_funcs());
    f
}

pub fn set() -> &'static Set {
    static S: OnceLock<Set> = OnceLock::new();
    S.get_or_init(|| Set { name: "custom", ps: Parsers::new(&funcs()) })
}

// What the functions do, over arguments a1 … an and the declared type of the result:
//  value:   nothing if a logical argument is false; the first of the value arguments for
//           `first`, the second for `second`, else the last argument: a value as it is, a
//           truth value as 1 or 0, of a node list its only value, or nothing.
//           Without arguments, 7.
//  logical: whether an odd number of arguments is "on": a value other than nothing, false,
//           a list of at least two nodes. True without arguments.
//  nodes:   the last list of nodes, reversed, none if a logical argument is false.

/// The model's side.
pub fn model<'v>(name: &str, mut a: Vec<Res<'v>>) -> Res<'v> {
    let sig = funcs_ref().get(name).expect("model: unknown function").clone();
    let off = a.iter().any(|x| matches!(x, Res::Logical(false)));
    let on = |x: &Res| match x {
        Res::Nothing => false,
        Res::Value(_) => true,
        Res::Logical(b) => !b,
        Res::Nodes(v) => v.len() >= 2,
    };
    if name.starts_with("bits") {
        return Res::Value(Val::Num(Num::I(a.iter().enumerate().map(|(i, x)| (on(x) as i128) << i).sum())));
    }
    match sig.ret {
        Ty::Value => {
            if off {
                return Res::Nothing;
            }
            let k = match name {
                "first" => 0,
                "second" => 1,
                _ if picks(name).is_some() => picks(name).unwrap(),
                _ if a.is_empty() => return Res::Value(Val::Num(Num::I(7))),
                _ => a.len() - 1,
            };
            match a.swap_remove(k) {
                Res::Logical(b) => Res::Value(Val::Num(Num::I(b as i128))),
                Res::Nodes(v) if v.len() == 1 => Res::Value(jpmodel::eval::val(v[0].value)),
                Res::Nodes(_) => Res::Nothing,
                x => x,
            }
        }
        Ty::Logical => Res::Logical(
            a.is_empty()
                || a.iter().filter(|x| on(x)).count() % 2 == 1,
        ),
        Ty::Nodes => {
            if off {
                return Res::Nodes(vec![]);
            }
            let n = a.into_iter().rev().find_map(|x| if let Res::Nodes(v) = x { Some(v) } else { None });
            Res::Nodes(n.unwrap_or_default().into_iter().rev().collect())
        }
    }
}

fn funcs_ref() -> &'static Funcs {
    &set().ps.funcs
}

pub struct Fx {
    name: String,
    sig: Sig,
    /// added to numbers that are given back, to tell two registrations apart
    plus: i64,
}

macro_rules! engine {
    ($m:ident, $R:path) => {
        pub mod $m {
            use super::*;
            use crate::adapt::$m::function::{ExpressionType as E, FunctionExtension, FunctionSignature};
            use $R as R;
            pub struct F(pub Fx);
            fn ty(t: Ty) -> E {
                match t {
                    Ty::Value => E::Value,
                    Ty::Logical => E::Logical,
                    Ty::Nodes => E::Nodes,
                }
            }
            impl FunctionExtension for F {
                fn sig(&self) -> FunctionSignature {
                    FunctionSignature { param_types: self.0.sig.params.iter().map(|t| ty(*t)).collect(), return_type: ty(self.0.sig.ret) }
                }
                fn call<'a>(&self, mut a: Vec<R<'a>>) -> R<'a> {
                    let f = &self.0;
                    CALLS.with(|c| c.set(c.get() + 1));
                    if a.len() != f.sig.params.len() {
                        misuse(format!("{} is called with {} arguments", f.name, a.len()));
                    }
                    for (i, (x, t)) in a.iter().zip(&f.sig.params).enumerate() {
                        let ok = match t {
                            Ty::Value => !matches!(x, R::Nodes(_)),
                            Ty::Logical => matches!(x, R::Bool(_)),
                            Ty::Nodes => matches!(x, R::Nodes(_)),
                        };
                        if !ok {
                            let k = match x {
                                R::Nodes(v) => format!("a list of {} nodes", v.len()),
                                R::Bool(b) => format!("{b}"),
                                R::Nothing => "nothing".into(),
                                _ => "a value".into(),
                            };
                            misuse(format!("argument {i} of {}, a parameter of kind {t:?}, is {k}", f.name));
                        }
                    }
                    let off = a.iter().zip(&f.sig.params).any(|(x, t)| *t == Ty::Logical && matches!(x, R::Bool(false)));
                    let on = |(x, t): (&R, &Ty)| match (t, x) {
                        (Ty::Value, R::Nothing) => false,
                        (Ty::Value, _) => true,
                        (_, R::Bool(b)) => !*b,
                        (_, R::Nodes(v)) => v.len() >= 2,
                        _ => false,
                    };
                    if f.name.starts_with("bits") {
                        return R::Int(a.iter().zip(&f.sig.params).enumerate().map(|(i, x)| (on(x) as i64) << i).sum());
                    }
                    match f.sig.ret {
                        Ty::Value => {
                            if off {
                                return R::Nothing;
                            }
                            let k = match f.name.as_str() {
                                "first" => 0,
                                "second" => 1,
                                n if picks(n).is_some() => picks(n).unwrap(),
                                _ if a.is_empty() => return R::Int(7 + f.plus),
                                _ => a.len() - 1,
                            };
                            if k >= a.len() {
                                return R::Nothing;
                            }
                            let t = f.sig.params[k];
                            match a.swap_remove(k) {
                                R::Bool(b) if t == Ty::Logical => R::Int(b as i64),
                                R::Nodes(v) if v.len() == 1 => R::from_json_value(v[0].value),
                                R::Nodes(_) => R::Nothing,
                                R::Int(i) => R::Int(i.wrapping_add(f.plus)),
                                x => x,
                            }
                        }
                        Ty::Logical => {
                            R::Bool(a.is_empty() || a.iter().zip(&f.sig.params).filter(|x| on((x.0, x.1))).count() % 2 == 1)
                        }
                        Ty::Nodes => {
                            if off {
                                return R::Nodes(vec![]);
                            }
                            let n = a.into_iter().rev().find_map(|x| if let R::Nodes(v) = x { Some(v) } else { None });
                            R::Nodes(n.unwrap_or_default().into_iter().rev().collect())
                        }
                    }
                }
            }
            pub fn register(r: &mut crate::adapt::$m::function::FunctionRegister, plus: i64) {
                for (n, s) in funcs() {
                    if jpmodel::types::standard().contains_key(&n) {
                        continue;
                    }
                    r.insert(n.clone(), Box::new(F(Fx { name: n, sig: s, plus })));
                }
            }
        }
    };
}
engine!(serde, crate::adapt::serde::ast::FilterExpressionResult);
engine!(iter, crate::adapt::iter::filter::FilterExpressionResult);
engine!(loc, crate::adapt::loc::filter::FilterExpressionResult);
engine!(sing, crate::adapt::sing::filter::FilterExpressionResult);

/// Environments with the functions registered (kept for the life of the process).
pub fn envs(plus: i64) -> Envs {
    let mut s = crate::adapt::serde::env::Environment::new();
    serde::register(&mut s.function_register, plus);
    let mut i = crate::adapt::iter::env::Environment::new();
    iter::register(&mut i.function_register, plus);
    let mut l = crate::adapt::loc::env::Environment::new();
    loc::register(&mut l.function_register, plus);
    let mut g = crate::adapt::sing::env::Environment::new();
    sing::register(&mut g.function_register, plus);
    Envs { serde: Box::leak(Box::new(s)), iter: Box::leak(Box::new(i)), loc: Box::leak(Box::new(l)), sing: Box::leak(Box::new(g)) }
}

thread_local! {
    static ENVS: Envs = envs(0);
    static OTHER: Envs = envs(100);
}
pub fn with_custom<T>(f: impl FnOnce(&Envs) -> T) -> T {
    ENVS.with(|e| f(e))
}

pub fn c23(ctx: &Ctx) {
    let set = set();
    let t = ctx.thorough;
    let asp = NODES | TOTAL_EVAL;
    ctx.suite("every argument form", "35 argument forms in every parameter of 27 registered functions, in 6 contexts x 60 values as members, elements and nested", || {
        let vals = [
            "@", "@.a", "@['a'][0]", "@[0]", "$", "$[0]", "$.zz", "1", "-0.5", "'s'", "''", "null", "true", "false", "@.*", "@..*", "@..a", "@[0,1]", "@[?@]", "@[?@.a]", "@[?@>1]", "$.*", "$[?@.a].a", "length(@)", "value(@.*)", "count(@.*)",
            "fvv(@.a)", "fnv(@.*)", "flv(@.a)", "fnn(@.*)", "zv()", "zn()", "zl()", "first(@.a,@.b)", "@.a==1", "!@.a", "@.a&&@.b", "@.a||@.b", "(@.a)", "!(@.a)", "!fvl(@.a)", "fnl(@.*)", "fll(@.a)", "match(@,'a.*')", "@.a<@.b||@.c", "!(@.a&&@[0])", "fln(@.a)",
        ];
        let mut calls = vec![];
        for (n, s) in funcs() {
            if jpmodel::types::standard().contains_key(&n) || s.params.len() > 3 {
                continue;
            }
            let dflt = |t: Ty| match t {
                Ty::Value => "@.a",
                Ty::Logical => "@.a",
                Ty::Nodes => "@.*",
            };
            if s.params.is_empty() {
                calls.push((s.ret, format!("{n}()")));
            }
            for k in 0..s.params.len() {
                for v in vals {
                    let a: Vec<&str> = s.params.iter().enumerate().map(|(i, t)| if i == k { v } else { dflt(*t) }).collect();
                    calls.push((s.ret, format!("{n}({})", a.join(","))));
                }
            }
        }
        let mut q = vec![];
        for (r, c) in calls {
            if r == Ty::Value {
                q.push(format!("$[?{c}==@.a]"));
                q.push(format!("$[?{c}=={c}]"));
                q.push(format!("$[?{c}!=null]"));
                q.push(format!("$[?{c}<2||{c}>='a']"));
                q.push(format!("$[?@[?{c}==1]]"));
                q.push(format!("$[?zn()||{c}==$[0]]"));
            } else {
                q.push(format!("$[?{c}]"));
                q.push(format!("$[?!{c}]"));
                q.push(format!("$[?{c}&&@.a]"));
                q.push(format!("$[?@.a||!{c}]"));
                q.push(format!("$..[?{c}]"));
                q.push(format!("$[?@[?{c}]]"));
            }
        }
        q.retain(|x| Expect::of(x, Default::default(), &set.ps.funcs).valid());
        let v = docs::values();
        let ds = docs(vec![
            json!(v),
            json!(v.iter().map(|x| json!({"a": x, "b": 1})).collect::<Vec<_>>()),
            json!(v.iter().map(|x| json!([x, {"a": x}])).collect::<Vec<_>>()),
            json!({"x": {"a": {"a": 1}, "b": [1, 2]}, "y": [[1], [2, 3]], "z": "abc"}),
        ]);
        custom_product(ctx, &q, &ds, set, asp);
    });
    ctx.suite("many parameters", "60 functions of 4 to 8 parameters that tell which argument is which: every one, two and three arguments another one than the rest, arguments in turn, all choices of 5 for four parameters x 3 documents", || {
        let ds = docs(vec![
            json!([{"a": 1, "b": "s", "c": [1, 2], "d": null, "e": {"x": 1, "y": 2}}, {"b": 2, "c": [0], "d": [3, 4]}, {"a": [1], "e": 5}, [1, 2], [], 3]),
            json!({"x": {"a": false, "b": 0, "c": "", "d": {}}, "a": {"c": [1, 2, 3], "d": {"a": 1, "b": 2}}}),
            json!([[[1, 2], [3]], {"a": {"a": 1}, "b": {"a": 2}}]),
        ]);
        let mut q = vec![];
        for (n, s) in long_funcs() {
            let k = s.params.len();
            let of = |t: Ty| -> [&'static str; 5] {
                match t {
                    Ty::Value => ["@.a", "@.zz", "1", "@[0]", "$[1].c"],
                    Ty::Logical => ["@.a", "@.b==2", "!@.c", "@.d||@.e", "@[0]&&@[1]"],
                    Ty::Nodes => ["@.*", "@.zz", "@.c.*", "@[0,1]", "$..a"],
                }
            };
            let mut args: Vec<Vec<usize>> = vec![vec![0; k], vec![1; k], (0..k).map(|i| i % 5).collect(), (0..k).map(|i| (i + 3) % 5).collect(), (0..k).map(|i| (2 * i + 1) % 5).collect()];
            for base in 0..5 {
                for o in 0..5 {
                    for i in 0..k {
                        for j in i..k {
                            for l in j..k {
                                if (l == j || base + o == 1) && o != base {
                                    let mut a = vec![base; k];
                                    a[i] = o;
                                    a[j] = o;
                                    a[l] = o;
                                    args.push(a);
                                }
                            }
                        }
                    }
                }
            }
            if k == 4 {
                for x in 0..625 {
                    args.push(vec![x % 5, x / 5 % 5, x / 25 % 5, x / 125]);
                }
            }
            args.sort();
            args.dedup();
            for (m, a) in args.iter().enumerate() {
                let c = format!("{n}({})", a.iter().zip(&s.params).map(|(i, t)| of(*t)[*i]).collect::<Vec<_>>().join(", "));
                if n.starts_with("bits") {
                    // the answer, bit by bit, is found by comparing with each it could be
                    let bits: usize = 1 << k;
                    for v in [0, bits - 1, 1, bits / 2, 0b01010101 % bits, 0b10101010 % bits] {
                        q.push(format!("$[?{c}<={v}]"));
                    }
                    if k == 4 {
                        for v in 0..16 {
                            q.push(format!("$[?{c}=={v}]"));
                        }
                    }
                } else {
                    q.push(format!("$[?{c}==@.a]"));
                    q.push(if m % 2 == 0 { format!("$[?{c}!=1]") } else { format!("$[?{c}==@[0]]") });
                    q.push(format!("$[?{c}==@.zz]"));
                }
            }
        }
        custom_product(ctx, &q, &ds, set, asp);
    });
    ctx.suite("all call texts", "all well-typed texts of the call tokens to depth 5 (thorough 6) x 14 documents", || {
        let mut q = valid_texts(&p_func(5 + t as usize), &set.ps.funcs);
        q.extend(CORPUS_EXT.iter().map(|s| s.to_string()).filter(|x| Expect::of(x, Default::default(), &set.ps.funcs).valid()));
        let ds = docs(vec![
            json!([1, 2]), json!({"a": 1, "b": [1, {"a": 2}]}), json!([[1, 2], [], {"a": 1}, {"a": null}, "s", null, false, {"a": false}, {"a": []}, {"x": 1}, [{"x": 1}, {"x": 2}]]), json!([{"a": 1, "b": 2}, {"a": 1}, {"b": 1}, {}]), json!("s"), json!([]),
            json!([{"a": {"x": 1, "y": 2}}, {"a": [1, 2]}, {"a": [1]}]), json!([[[1], [2]], [[]]]), json!([0, "", null, false, [], {}]), json!({"a": {"a": {"a": 1}}}), json!([1.5, -1, true]), json!([["s"], ["s", "t"], {"a": "s", "b": "s"}]),
            json!({"a": [1, 1], "b": {"x": 1}, "c": 1}), json!([{"x": {"a": 1}}, {"x": [{"x": 1}]}]),
        ]);
        custom_product(ctx, &q, &ds, set, asp);
    });
    ctx.suite("calls within calls", "all nestings to depth 3 (4) of the one-parameter functions over 8 arguments x all documents of at most 4 (5) nodes", || {
        let d = 3 + t as usize;
        let mut level: Vec<String> = ["@", "@.a", "@.*", "@[?@.a]", "1", "@.a==1", "$.a", "zn()"].iter().map(|s| s.to_string()).collect();
        let mut q = vec![];
        for _ in 0..d {
            let mut next = vec![];
            for l in &level {
                for f in ["fvv", "fvl", "fvn", "flv", "fll", "fln", "fnv", "fnl", "fnn"] {
                    let c = format!("{f}({l})");
                    let (a, b) = (format!("$[?{c}]"), format!("$[?{c}==@.a]"));
                    let mut ok = false;
                    for x in [a, b] {
                        if Expect::of(&x, Default::default(), &set.ps.funcs).valid() {
                            q.push(x);
                            ok = true;
                        }
                    }
                    if ok {
                        next.push(c);
                    }
                }
            }
            level = next;
        }
        custom_product(ctx, &q, &docs(docs::all(4, &[json!(1), json!("a"), json!(null), json!(false)], &["a", "b"])), set, asp);
    });
    ctx.suite("sized queries", "all queries of up to 5 (thorough 6) elements over calls of four registered functions, and over logical arguments x all documents of at most 3 nodes and 11 larger ones", || {
        let ds = sweep_docs();
        for v in [&crate::gen::CALLS, &crate::gen::LOGIC_CALLS] {
            let mut q = crate::gen::queries(v, 5 + t as usize, &set.ps.funcs);
            q.retain(|t| t.contains('('));
            custom_product(ctx, &q, &ds, set, asp);
        }
    });
    ctx.suite("two environments", "the same query in turns in environments that register different functions under the same names: each answers with its own (all turns of length 6)", || {
        let qs = prep_all(&["$[?zv()==7]", "$[?zv()==107]", "$[?fvv(@)==1]", "$[?fvv(@)==101]", "$[?count(@.*)==0]", "$[?@[?fvv(@)==1]]"].map(|s| s.to_string()), set);
        let want: [[usize; 6]; 2] = [[2, 0, 1, 0, 1, 1], [0, 2, 0, 1, 1, 0]];
        let d = json!([1, [1]]);
        for e in ENGINES {
            for turns in 0..64u32 {
                for (i, q) in qs.iter().enumerate() {
                    ctx.state(1);
                    for k in 0..6 {
                        let which = (turns >> k & 1) as usize;
                        let r = if which == 0 { ENVS.with(|v| q.c.run(e, &d, v)) } else { OTHER.with(|v| q.c.run(e, &d, v)) };
                        ctx.trace(1);
                        ctx.trans(1);
                        let got = r.as_ref().map(|v| v.len());
                        if got.as_ref().ok() != Some(&want[which][i]) {
                            ctx.fail(Violation {
                                kind: "other",
                                who: e.name().into(),
                                what: "wrong-function-called".into(),
                                input: q.text.clone(),
                                data: json!({"text": q.text, "doc": d.to_string(), "environment": which, "turns": turns}),
                                msg: format!("got {got:?} nodes, want {}", want[which][i]),
                            });
                        }
                    }
                }
            }
        }
    });
    ctx.suite("replaced standard functions", "an environment in which another function is registered under the name of each standard function calls that one", || replaced(ctx));
}

/// Environments where `length`, `value`, `count`, `match` and `search` are other functions.
fn replaced(ctx: &Ctx) {
    let std = jpmodel::types::standard();
    let e = envs(0);
    // the register is public: replace in place before use
    macro_rules! put {
        ($m:ident) => {{
            let r = unsafe { &mut (*(e.$m as *const crate::adapt::$m::env::Environment as *mut crate::adapt::$m::env::Environment)).function_register };
            for (n, s) in &std {
                r.insert(n.clone(), Box::new($m::F(Fx { name: n.clone(), sig: s.clone(), plus: 0 })));
            }
        }};
    }
    put!(serde);
    put!(iter);
    put!(loc);
    put!(sing);
    let set = std_set();
    let d = json!(["abc", [1, 2], {"a": 1}, 5, null]);
    // by what the replacements do: values echo, count and value of the only node, and
    // match and search tell whether an odd number of arguments is something
    for (text, want) in [
        ("$[?length(@)=='abc']", 1),
        ("$[?length(@)==5]", 1),
        ("$[?length(@)==3]", 0),
        ("$[?count(@.*)==1]", 1),
        ("$[?count(@.*)==2]", 0),
        ("$[?count(@.a)==1]", 1),
        ("$[?value(@.*)==1]", 1),
        ("$[?match(@,'abc')]", 0),
        ("$[?match(@.zz,'abc')]", 5),
        ("$[?search(@.a,'abc')]", 4),
    ] {
        let q = prep(text, set);
        for x in ENGINES {
            ctx.state(1);
            ctx.trans(1);
            ctx.trace(1);
            let got = q.c.run(x, &d, &e).map(|v| v.len());
            let m = take_misuse();
            if got != Ok(want) || m.is_some() {
                ctx.fail(Violation { kind: "other", who: x.name().into(), what: "wrong-function-called".into(), input: text.into(), data: json!({"text": text, "doc": d.to_string()}), msg: format!("got {got:?} nodes, want {want}; {m:?}") });
            }
        }
    }
    // in every place where a call can be: what the reference finds with the names of
    // functions that do the same
    let alike = [("length(", "fvv("), ("count(", "fnv("), ("value(", "fnv("), ("match(", "both("), ("search(", "both(")];
    let calls = [
        "length(@)==$[0]", "length(@)!=1", "length(@.a)<length($[1][0])", "count(@.*)==1", "count($[1][:1])<2", "value(@.*)==1", "value($[2].*)==length(1)", "match(@.a,@.b)", "search(@,@.a)", "!match(@.zz,'b')", "search($[0],$.zz)", "match(length(@),count(@.*))",
    ];
    let places = [
        "$[?{}]", "$[?!({})]", "$..[?{}]", "$[?@[?{}]]", "$[?$[?{}]]", "$[?$[*][?{}]]", "$[?$[?@[?{}]]]", "$[?$[?$[?{}]]]", "$[?@.*[?{}]]", "$[?$.*.*[?{}]]", "$[?$[2]['a']['b'][0][?{}]]", "$[?$[2]['a']['b'][?{}][0]]", "$[?$[2].a.b[0][0][?{}]]", "$[?$..*[?{}]]",
        "$[?$[2]['a']['b'][0][?@ || {}]]", "$[?$[2].a.b[?@[?{}]]]", "$[?$[2].a.b[?$[2].a.b[?{}]]]", "$[?count($.*.*[?{}])==1]", "$[?count($[2].a.b[0][?{}])==1]", "$[?value($[2].a.b[0][?{}])==1]", "$[?@.zz||{}]", "$[?@.a&&{}]", "$[?(({}))]", "$[?{}].a[?{}]", "$[?{},?{}]", "$[:2,?{}]", "$..['a',?{}]",
        "$[?match(value(@[?{}]),1)]", "$[2].a.b[?{}]", "$[2].a.b..[?{}]", "$[2].*.*.*[?{}]", "$.*[?{}]", "$.*.*[?@[?@[?{}]]]",
    ];
    let ds = docs(vec![
        json!(["abc", [1, 2], {"a": {"b": [[1], [2, 3], "x"]}}, 5, null, {"a": 1, "b": 1}, [{"a": 1}]]),
        json!([1, [1], {"a": {"b": {"0": [1], "a": "s"}}}, {"a": {"a": {"a": 1}}}]),
        json!({"0": 1, "a": {"a": [1], "b": "b"}, "b": [[1]]}),
    ]);
    let mut n = 0;
    for c in calls {
        for p in places {
            let text = p.replace("{}", c);
            let mut other = text.clone();
            for (a, b) in alike {
                other = other.replace(a, b);
            }
            let mut q = prep(&text, set);
            q.model = prep(&other, self::set()).model;
            for d in &ds {
                let mut bad = vec![];
                let (k, _) = examine_eval(&q, d, self::set(), NODES | TOTAL_EVAL, &e, &mut bad);
                ctx.state(1);
                ctx.trans(k);
                ctx.trace(k);
                n += k;
                for Bad { who, what, msg, .. } in bad {
                    ctx.fail(Violation { kind: "other", who: who.name().into(), what: what.to_string(), input: text.clone(), data: json!({"text": text, "doc": d.v.to_string()}), msg });
                }
            }
        }
    }
    ctx.sample(|| format!("{} {n}", "$[?$[2].a.b[0][?length(@)==$[0]]]"));
}

/// Every query on every document, with the registered functions.
pub fn custom_product(ctx: &Ctx, q: &[String], ds: &[Box<Doc>], set: &Set, asp: u32) {
    let jobs: Vec<&[String]> = q.chunks(32).collect();
    ctx.par(&jobs, |j| {
        let qs = prep_all(j, set);
        with_custom(|envs| {
            for q in &qs {
                for d in ds {
                    let c0 = calls();
                    let mut bad = vec![];
                    let (n, _) = examine_eval(q, d, set, asp, envs, &mut bad);
                    ctx.state(1);
                    ctx.trace(n);
                    ctx.trans(calls() - c0);
                    report_eval(ctx, q, d, set, asp, bad);
                }
            }
        })
    });
    ctx.sample(|| q[q.len() / 2].clone());
}

pub fn doc_value(s: &str) -> Value {
    serde_json::from_str(s).unwrap()
}
