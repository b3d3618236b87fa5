//! Odd names among others, patterns by structure, values at any depth.
use crate::evals3::*;
use crate::adapt::*;
use crate::report::*;
use crate::syntax::*;
use crate::evalx::*;
use serde_json::{json, Map, Value};

pub const ODD: &[&str] = &[
    "", " ", "a b", "0", "1", "-1", "00", "a.b", "*", "$", "@", "..", ".", "'", "\"", "\\", "\\'", "\u{8}", "\t", "\n", "\r", "\u{c}", "\u{0}", "\u{1f}", "\u{7f}", "/", "']['", "[0]", "\u{e9}", "e\u{301}", "\u{1F600}", "\u{ffff}",
    "\u{d7ff}", "\u{e000}", "\u{feff}", "\u{2028}", "A", "_", "__proto__", "length", "true", "null", "?", ":", ",", "#", "-", "~", "%", "aa", "a1", "~0", "~1",
];

/// Objects of 1 to 6 members, one of them with an odd name, of members of three kinds.
fn among_docs(name: &str) -> Vec<Value> {
    let mut v = vec![];
    for n in 1..=6usize {
        for kind in 0..3 {
            let member = |i: usize| match kind {
                0 => json!({"a": [i, {"b": i}], name: i}),
                1 => json!([{name: {"a": i}}, [i], i]),
                _ => {
                    if i % 2 == 0 {
                        json!([i])
                    } else {
                        json!({})
                    }
                }
            };
            let mut o = Map::new();
            for (i, k) in ["a", "b", "k", "z", "~"].iter().take(n - 1).enumerate() {
                o.insert(k.to_string(), member(i));
            }
            o.insert(name.into(), member(7));
            let o = Value::Object(o);
            if n % 2 == 0 {
                v.push(json!([[o.clone()], o]));
            } else if kind == 1 {
                v.push(json!({name: {name: o.clone(), "a": 1}, "a": o}));
            }
            v.push(o);
        }
    }
    v
}

pub fn among(ctx: &Ctx, asp: u32, child: bool, desc: bool, filter: bool) {
    ctx.suite("odd names among others", "53 unusual names, each one of 1 to 6 members of an object with members of three kinds, at the top and within others x queries that name it, name others, or take all", || {
        let mut work = vec![];
        for name in ODD {
            let s = jpmodel::render::quoted(name);
            let mut q = vec![];
            if child {
                q.extend(["$.*", "$[#]", "$[#]['a']", "$['a'][#]", "$.*.*", "$[#,'a']", "$['a',#,#]", "$[*,#]", "$.*[#]", "$[#][#]", "$[0][#]", "$[1].*", "$[#].*", "$[#][0][#]"]);
            }
            if desc {
                q.extend(["$..*", "$..[#]", "$..a", "$..b", "$..[0]", "$..[-1]", "$..[#,'a']", "$..[#]..*", "$..['a'][#]", "$[#]..a", "$..[#].*", "$..*[#]", "$..a..[#]"]);
            }
            if filter {
                q.extend(["$[?@[#]]", "$[?!@[#]]", "$[?@.a]", "$..[?@[#]]", "$..[?@.a]", "$[?@..b]", "$[?@..[#]]", "$[?count(@.*)==2]", "$[?@[#]==7]", "$..[?@==7]", "$[?@.a==$[#].a]", "$..[?@[#]==@['a'][0]]", "$[?count(@..*)>2]", "$[?@.*]", "$[?$[#]]", "$[?length(@)==2]"]);
                q.extend(["$[?value(@..[#])==7]", "$[?length(@[#])==1]"]);
            }
            work.push((q.iter().map(|x| x.replace('#', &s)).collect::<Vec<_>>(), among_docs(name)));
        }
        jobs(ctx, &work, asp);
    });
}

/// Values that are deep below: by chains, and found by descent.
fn deep(ctx: &Ctx, asp: u32, what: &str, filters: &[&str]) {
    ctx.suite(what, "values 1 to 34 (thorough 70) and up to 120 levels below, reached by names, by indices, by both in turn, and by descent, from the child tested and from the root: compared, and given to functions", || {
        let mut work = vec![];
        let mut ns = sizes(ctx.thorough);
        ns.insert(0, 1);
        for n in ns.into_iter().filter(|n| *n <= 129).rev() {
            let a = (0..n).fold(json!([4, "xyz"]), |x, _| json!({"a": x, "n": n}));
            let b = (0..n).fold(json!({"z": "xyz", "k": 4}), |x, i| json!([x, i]));
            let c = (0..n).fold(json!("xyz"), |x, i| if i % 2 == 0 { json!([x]) } else { json!({"a": x, "z": i % 3}) });
            let d = (0..n).fold(json!(4), |x, i| if i == 0 { json!({"z": x}) } else { json!({"a": x}) });
            let alt: String = (0..n).rev().map(|i| if i % 2 == 0 { "[0]" } else { "['a']" }).collect();
            let mut q = vec![];
            for (p, e) in [(".a".repeat(n), "[0]"), (".a".repeat(n), "[1]"), (".a".repeat(n), ""), (".a".repeat(n - 1), ".z"), ("[0]".repeat(n), ".z"), ("[0]".repeat(n), ".k"), (alt.clone(), ""), ("..z".into(), ""), ("..k".into(), ""), ("..[?@==4]".into(), ""), ("..[?@=='xyz']".into(), "")] {
                for f in filters {
                    for r in ["@", "$[0]", "$[3]"] {
                        q.push(format!("$[?{}]", f.replace('#', &format!("{r}{p}{e}"))));
                    }
                }
            }
            q.retain(|x| crate::syntax::Expect::of(x, Default::default(), &crate::syntax::std_set().ps.funcs).valid());
            work.push((q, vec![json!([a, b, c, d])]));
        }
        jobs(ctx, &work, asp);
    });
}

pub fn deep_functions(ctx: &Ctx, asp: u32) {
    deep(ctx, asp, "functions of deep values", &["value(#)==4", "value(#)=='xyz'", "length(#)==3", "count(#)==1", "length(value(#))==3", "match(#,'x.z')", "search(value(#),'z')", "length(value(#))==length('abc')", "match('xyz',value(#))"]);
}

pub fn deep_compared(ctx: &Ctx, asp: u32) {
    deep(ctx, asp, "comparisons of deep values", &["#==4", "'xyz'==#", "#!=4", "#<='xyz'", "4>=#", "#==#", "#<5", "#>'xy'", "#==@.nope", "#==$[3]", "!(#==4)"]);
}

/// Evaluation ends with queries of any length.
pub fn total(ctx: &Ctx, asp: u32) {
    let t = ctx.thorough;
    ctx.suite("queries of any length", "lists and chains of 2 to 34 (thorough 70) and up to 257 selectors or segments, logic as long, descendant segments in documents as deep", || {
        let d = json!([{"t": 1}, {"f": 1}, {"t": 1, "f": 1}, {}, {"t": 2, "f": null}]);
        let mut work = vec![];
        for n in sizes(t).into_iter().filter(|n| *n <= 257).rev() {
            work.push((lists("$", n), list_docs(n)));
            if n <= 34 {
                work.push((lists("$..", n), list_docs(n)));
            }
            work.push((chains(n, &["[0]", ".a", ".*", "['a',0]"]), towers(n)));
            for c in long_logic(n).chunks(40) {
                work.push((c.to_vec(), vec![d.clone()]));
            }
            if n <= 110 {
                work.push((["$..*", "$..a", "$..[0]", "$..['a',0]", "$..[?@.a]", "$..[-1]"].iter().map(|s| s.to_string()).collect(), towers(n)));
            }
        }
        jobs(ctx, &work, asp);
    });
    ctx.suite("filters within filters", "filters nested 1 to 12 (thorough 20) deep in 7 forms, with @ and $ at the innermost x towers of 1 to 14 (22) levels, and such with more beside", || jobs(ctx, &nested_filters(if t { 20 } else { 12 }), asp));
}

// ---------------------------------------------------------------------------------------
// Patterns by structure

/// All patterns of exactly n elements, n up to the given: leaves, groups, quantifiers,
/// one after the other, alternatives, and empty alternatives.
fn patterns(n: usize, leaves: &[&str], quant: &[&str]) -> Vec<Vec<String>> {
    // alternatives, branches, atoms by size
    let (mut r, mut b, mut a): (Vec<Vec<String>>, Vec<Vec<String>>, Vec<Vec<String>>) = (vec![vec![String::new()]], vec![vec![]], vec![vec![]]);
    for k in 1..=n {
        let mut at: Vec<String> = vec![];
        if k == 1 {
            at.extend(leaves.iter().map(|s| s.to_string()));
        }
        at.extend(r[k - 1].iter().map(|x| format!("({x})")));
        let mut pieces: Vec<Vec<String>> = vec![vec![]; k + 1];
        a.push(at);
        for (j, p) in pieces.iter_mut().enumerate().skip(1) {
            p.extend(a[j].iter().cloned());
            for q in quant {
                p.extend(a[j - 1].iter().map(|x| format!("{x}{q}")));
            }
        }
        let mut br = pieces[k].clone();
        for j in 1..k {
            for x in &pieces[j] {
                br.extend(b[k - j].iter().map(|y| format!("{x}{y}")));
            }
        }
        b.push(br);
        let mut al = b[k].clone();
        for j in 1..k {
            for x in &b[j] {
                al.extend(r[k - j].iter().map(|y| format!("{x}|{y}")));
            }
        }
        if k > 1 {
            // nothing on one side
            al.extend(r[k - 1].iter().filter(|y| !y.is_empty()).map(|y| format!("|{y}")));
            al.extend(b[k - 1].iter().map(|y| format!("{y}|")));
        }
        r.push(al);
    }
    r
}

pub fn structured(ctx: &Ctx, asp: u32) {
    let t = ctx.thorough;
    ctx.suite("patterns by structure", "all patterns of up to 4 (thorough 5) elements over a, b, a dot, a class, and of up to 5 (6) over a and b: leaves, groups, quantifiers, sequences, alternatives x all strings of up to 4 of a and b, and 9 others; match and search", || {
        let mut subs: Vec<String> = vec![String::new()];
        let mut level = subs.clone();
        for _ in 0..4 {
            level = level.iter().flat_map(|s| ["a", "b"].iter().map(move |c| format!("{s}{c}"))).collect();
            subs.extend(level.iter().cloned());
        }
        subs.extend(["c", "ac", "ca", "\n", "a\n", "\na", "a\nb", "aba\u{e9}", "ababab"].map(|s| s.to_string()));
        let mut ps: Vec<String> = vec![];
        for (n, l, q) in [(4 + t as usize, &["a", "b", ".", "[^a]"][..], &["*", "+", "?", "{2}"][..]), (5 + t as usize, &["a", "b"], &["*", "?"])] {
            ps.extend(patterns(n, l, q).concat());
        }
        let mut seen = std::collections::HashSet::new();
        ps.retain(|p| seen.insert(p.clone()));
        let work: Vec<(Vec<String>, Vec<Value>)> = ps
            .iter()
            .enumerate()
            .map(|(i, p)| {
                let l = jpmodel::render::quoted(p);
                let mut q = vec![];
                for f in ["match", "search"] {
                    q.push(if i % 2 == 0 { format!("$.s[?{f}(@,{l})]") } else { format!("$.s[?{f}(@,$.p)]") });
                }
                (q, vec![json!({"p": p, "s": subs})])
            })
            .collect();
        jobs(ctx, &work, asp);
    });
}

// ---------------------------------------------------------------------------------------
// Classes

const ITEMS: &[&str] = &["a", "-", ".", "\\.", "\\]", "\\[", "\\\\", "\\-", "\\^", "&", "~", "\\n", "("];

/// Patterns of a class of up to three parts, with something after it that means something
/// else within a class.
pub fn classes(ctx: &Ctx, asp: u32) {
    let t = ctx.thorough;
    ctx.suite("classes", "all classes of up to 2 (thorough 3) of 13 parts, and of an escape with two others, with and without ^, followed by nothing, a dot, a starred dot, another class with a dot, an escaped dot, or after a dot x 40 strings; match and search", || {
        let mut inner: Vec<String> = ITEMS.iter().map(|s| s.to_string()).collect();
        for a in ITEMS {
            for b in ITEMS {
                inner.push(format!("{a}{b}"));
                for c in ITEMS {
                    if t || [*a, *b, *c].iter().filter(|x| x.len() == 2).count() >= 1 && [*a, *b, *c].iter().any(|x| *x == "a" || *x == "." || *x == "&") {
                        inner.push(format!("{a}{b}{c}"));
                    }
                }
            }
        }
        let mut subs: Vec<String> = ["", "\n", "ab", "a.", ".a", "]a", "a]", "a\\", "\\a", "\\]", ".]", "].", "a\n", "\na", "\r", "]]", "aa", "..", "x", "xx", "x.", ".x", "b", "].]", "a]x"].map(|s| s.to_string()).to_vec();
        subs.extend("a-.[]\\^&~(n)b,/".chars().map(|c| c.to_string()));
        let mut ps = vec![];
        for i in &inner {
            for neg in ["", "^"] {
                for f in ["#", "#.", "#.*", "#[.b]", "#\\.", ".#"] {
                    ps.push(f.replace('#', &format!("[{neg}{i}]")));
                }
            }
        }
        let work: Vec<(Vec<String>, Vec<Value>)> = ps
            .iter()
            .enumerate()
            .map(|(i, p)| {
                let l = jpmodel::render::quoted(p);
                let f = |f: &str, k: usize| if (i + k) % 2 == 0 { format!("$.s[?{f}(@,{l})]") } else { format!("$.s[?{f}(@,$.p)]") };
                (vec![f("match", 0), f("search", 1)], vec![json!({"p": p, "s": subs})])
            })
            .collect();
        jobs(ctx, &work, asp);
    });
}

// ---------------------------------------------------------------------------------------
// Documents that change

/// A parsed query on a document that is changed in place: everything stays at its address.
pub fn changed(ctx: &Ctx) {
    let t = ctx.thorough;
    ctx.suite("changed in place", "80 queries, most with absolute queries in every position, one after the other x 4 documents: one of their leaves has one of 9 values or is not there, then another (all ordered pairs), then the first again, in the same memory and the same environments", || {
        let set = std_set();
        let abs = ["$.k", "$['k']", "$.l[0]", "$.o.k", "$.*", "$..k", "$.l[?@==1]", "$[-1]", "$.l[?$.k]"];
        let one = ["$.k", "$.l[0]", "$.o.k"];
        let mut q: Vec<String> = vec!["$".into(), "$.*".into(), "$..*".into(), "$..k".into(), "$.l[::-1]".into(), "$.o['k','j']".into(), "$.l[?@.k]".into(), "$..[?@.k==1]".into(), "$..[?length(@)==1]".into(), "$.l[?value(@.*)==1]".into(), "$..[?@.k==@.j]".into()];
        for a in abs {
            q.extend([format!("$.l[?{a}]"), format!("$.l[?!{a}]"), format!("$.l[?{a}&&@]"), format!("$.l[?@||{a}]"), format!("$..[?@&&{a}]"), format!("$.l[?count({a})==1]"), format!("$.l[?value({a})==@]"), format!("$.l[?@[?{a}]]")]);
        }
        for a in one {
            q.extend([format!("$.l[?@=={a}]"), format!("$.l[?{a}<@]"), format!("$..[?{a}==1]"), format!("$.l[?{a}=='a'&&@]"), format!("$.l[?length({a})==1]"), format!("$.l[?match({a},'a')]"), format!("$.l[?search('ab',{a})]"), format!("$.l[?match(@,{a})]")]);
            q.extend([format!("$.l[{a}]"), format!("$.o[{a}]"), format!("$..[{a}]"), format!("$.*[{a},{a}]")]);
        }
        let leaves: Vec<Option<Value>> = [json!(1), json!(0), json!("a"), json!("k"), json!(null), json!([1]), json!({"k": 1}), json!(false), json!("[")].into_iter().map(Some).chain([None]).collect();
        // the members and elements that change are the last of their containers
        let bases: Vec<(Value, &str, &str)> = vec![
            (json!({"l": [1, "a", {"k": 1, "j": 1}, [0]], "o": {"a": 1, "k": 2}, "k": 1}), "", "k"),
            (json!({"k": 0, "o": {"a": 1, "k": "a"}, "l": [1, 2, "a"]}), "/o", "k"),
            (json!({"k": "a", "o": {"k": 1}, "l": ["b", 1, 1]}), "/l", "0"),
            (json!({"k": "k", "o": {"k": "k", "j": "k", "a": 5}, "l": ["k", {"j": "k", "k": "k"}]}), "/l/1", "k"),
        ];
        let work: Vec<(&String, usize)> = q.iter().flat_map(|q| (0..bases.len()).map(move |b| (q, b))).collect();
        ctx.par(&work, |&(text, b)| {
            let q = prep(text, set);
            let (base, at, key) = &bases[b];
            let owned = Envs::fresh_some();
            let mut slot = Box::new(base.clone());
            let put = |slot: &mut Value, leaf: &Option<Value>| {
                let c = slot.pointer_mut(at).unwrap();
                match (c, leaf) {
                    (Value::Object(o), Some(v)) => match o.get_mut(*key) {
                        Some(x) => *x = v.clone(),
                        None => {
                            o.insert(key.to_string(), v.clone());
                        }
                    },
                    (Value::Object(o), None) => {
                        o.remove(*key);
                    }
                    // the last element, or no such
                    (Value::Array(a), Some(v)) => match a.get_mut(2) {
                        Some(_) => a[0] = v.clone(),
                        None => {
                            a.push(json!(1));
                            a[0] = v.clone();
                        }
                    },
                    (Value::Array(a), None) => {
                        a.truncate(2);
                    }
                    _ => unreachable!(),
                }
            };
            for x in &leaves {
                for y in &leaves {
                    for (k, leaf) in [x, y, x].into_iter().enumerate() {
                        put(&mut slot, leaf);
                        crate::watch::begin(4, 0, "std", text, "");
                        let want: Vec<*const Value> = jpmodel::eval::find(&q.model, &slot, &set.ps.funcs).iter().map(|n| n.value as *const Value).collect();
                        for e in ENGINES {
                            if q.sing_only && e != Ex::Sing {
                                continue;
                            }
                            ctx.trace(1);
                            let got = q.c.run(e, &slot, &owned.0).map(|v| v.iter().map(|n| n.ptr).collect::<Vec<_>>());
                            if got.as_ref() != Ok(&want) {
                                ctx.fail(Violation { kind: "other", who: e.name().into(), what: "result-depends-on-history".into(), input: format!("{text} on {slot}, changed in place"), data: json!({"text": text, "doc": slot.to_string(), "leaves": [x, y], "step": k}), msg: format!("{:?} nodes instead of {}", got.map(|v| v.len()), want.len()) });
                            }
                        }
                    }
                    ctx.state(1);
                    ctx.trans(3);
                }
            }
            crate::watch::end();
        });
        ctx.sample(|| format!("{} on {}", work[work.len() / 2].0, bases[1].0));
    });
    let _ = t;
}
