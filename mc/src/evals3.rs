//! Families in which a size grows: lists, chains, arrays, strings, names, numbers.
use crate::docs;
use crate::evals::*;
use crate::evalx::*;
use crate::report::*;
use crate::syntax::*;
use serde_json::{json, Map, Value};

/// Jobs of queries, each with documents of its own.
pub fn jobs(ctx: &Ctx, work: &[(Vec<String>, Vec<Value>)], asp: u32) {
    let set = std_set();
    ctx.par(work, |(q, d)| {
        let qs = prep_all(q, set);
        let ds = docs(d.clone());
        with_envs(|envs| {
            let s0 = jpmodel::eval::steps();
            let (mut n, mut produced) = (0, 0);
            for q in &qs {
                for d in &ds {
                    let mut bad = vec![];
                    let (a, b) = examine_eval(q, d, set, asp, envs, &mut bad);
                    n += a;
                    produced += b;
                    report_eval(ctx, q, d, set, asp, bad);
                }
            }
            ctx.state((qs.len() * ds.len()) as u64);
            ctx.trace(n);
            let s = jpmodel::eval::steps() - s0;
            ctx.trans(if s > 0 { s } else { produced });
        });
    });
    if let Some((q, d)) = work.get(work.len() / 2) {
        ctx.sample(|| {
            let t: String = d[0].to_string().chars().take(200).collect();
            let q: String = q[q.len() / 2].chars().take(200).collect();
            format!("{q} on {t}")
        });
    }
}

pub fn sizes(t: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (2..=if t { 70 } else { 34 }).collect();
    v.extend([50, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257]);
    if t {
        v.extend([99, 101, 199, 200, 500, 511, 512, 513, 1000, 1023, 1024, 1025]);
    }
    v.sort();
    v.dedup();
    v
}

pub fn positions(n: usize) -> Vec<usize> {
    let mut v = vec![0, 1, n / 2, n.saturating_sub(2), n - 1];
    v.retain(|k| *k < n);
    v.sort();
    v.dedup();
    v
}

/// Nested values of the given depth, of one kind.
pub fn tower(n: usize, kind: usize) -> Value {
    (0..n).fold(json!(7), |x, i| match kind {
        0 => json!([x]),
        1 => json!({"a": x}),
        2 => {
            if i % 2 == 0 {
                json!([x, i])
            } else {
                json!({"a": x, "b": i})
            }
        }
        _ => json!({"b": [i], "a": [x, {"a": i}]}),
    })
}

/// Selector lists of length n, all the same but one, and chains of n segments.
pub fn lists(pre: &str, n: usize) -> Vec<String> {
    let mut q = vec![];
    for (s, o) in [("'a'", "'b'"), ("0", "1"), ("0", "'a'"), ("*", "0"), ("'z'", "'a'"), ("9", "0"), ("1:", "0"), ("?@.a", "'a'"), ("-1", "::-1")] {
        if s == "*" && n > 70 {
            continue;
        }
        for k in positions(n) {
            let v: Vec<&str> = (0..n).map(|i| if i == k { o } else { s }).collect();
            q.push(format!("{pre}[{}]", v.join(",")));
        }
    }
    q.push(format!("{pre}[{}]", (0..n).map(|i| format!("{i}")).collect::<Vec<_>>().join(",")));
    q.push(format!("{pre}[{}]", (0..n).map(|i| format!("-{}", i + 1)).collect::<Vec<_>>().join(",")));
    q.push(format!("{pre}[{}]", (0..n).map(|i| format!("'k{i}'")).collect::<Vec<_>>().join(",")));
    q.push(format!("{pre}[{}]", (0..n).map(|i| format!("\"k{i}\",{i}")).rev().collect::<Vec<_>>().join(",")));
    q
}

pub fn list_docs(n: usize) -> Vec<Value> {
    let mut m = Map::new();
    for i in 0..n + 1 {
        m.insert(format!("k{i}"), json!([i, {"a": 1}]));
    }
    vec![
        json!({"a": 1, "b": [2, {"a": 3}]}),
        json!([{"a": 1}, 5, [6, 7]]),
        Value::Object(m),
        Value::Array((0..n + 2).map(|i| if i % 3 == 0 { json!([i]) } else { json!(i) }).collect()),
    ]
}

pub fn sizes_child(ctx: &Ctx, asp: u32) {
    let t = ctx.thorough;
    ctx.suite("lists of any length", "lists of 2 to 34 (thorough 70) selectors and of up to 257 (1025) x 9 pairs of a selector and another in five places, and of all different ones x four documents with as many children", || {
        let work: Vec<_> = sizes(t).into_iter().rev().map(|n| (lists("$", n), list_docs(n))).collect();
        jobs(ctx, &work, asp);
    });
    ctx.suite("chains of any length", "chains of 2 to 34 (thorough 70) segments and of up to 257 (1025) in 6 forms with another at the end, at the start or in the middle x documents as deep, one less, one more", || {
        let work: Vec<_> = sizes(t).into_iter().rev().map(|n| (chains(n, &["[0]", ".a", ".*", "['a',0]", "[-1]", "[*]"]), towers(n))).collect();
        jobs(ctx, &work, asp);
    });
    names(ctx, asp);
    long_name_jobs(ctx, asp);
}

pub fn chains(n: usize, kinds: &[&str]) -> Vec<String> {
    let mut q = vec![];
    for s in kinds {
        for o in ["", "[0]", ".a", ".*", "[1]", ".b", "[?@]"] {
            for k in [0, n / 2, n - 1] {
                let mut v: Vec<&str> = vec![s; n];
                if !o.is_empty() {
                    v[k] = o;
                }
                q.push(format!("${}", v.concat()));
            }
        }
    }
    q
}

pub fn towers(n: usize) -> Vec<Value> {
    let mut d = vec![];
    for k in 0..4 {
        d.push(tower(n, k));
    }
    d.extend([tower(n - 1, 0), tower(n + 1, 0), tower(n - 1, 1), tower(n + 1, 2)]);
    d
}

/// Names of every length, with something else at one place.
fn long_names(n: usize) -> Vec<String> {
    let mut v = vec!["x".repeat(n), "\u{e9}".repeat(n), "\u{1F600}".repeat(n), "'".repeat(n), "\n".repeat(n), "\\".repeat(n), "\u{1}".repeat(n), "'\\\n\u{7}".repeat(n / 4 + 1)];
    for c in ["'", "\"", "\\", "\n", "\u{b}", "\u{e9}", "\u{1F600}", " ", "y", "X"] {
        for k in positions(n) {
            v.push(format!("{}{c}{}", "x".repeat(k), "x".repeat(n - k - 1)));
        }
    }
    v
}

fn names(ctx: &Ctx, asp: u32) {
    let t = ctx.thorough;
    ctx.suite("names of any length", "names of 2 to 34 (thorough 70) characters and of up to 257 (1025), all the same or one different in five places, quoted in segments and existence tests and as shorthand x a document with all names of that length, and of one more and one less", || {
        let work: Vec<_> = sizes(t)
            .into_iter()
            .rev()
            .map(|n| {
                let v = long_names(n);
                let mut m = Map::new();
                for (i, x) in long_names(n - 1).iter().chain(&long_names(n + 1)).chain(&v).enumerate() {
                    m.insert(x.clone(), json!({"x": i}));
                }
                let mut q = vec!["$.*".to_string(), "$..x".to_string(), "$[?@.x>=0]".to_string()];
                for x in &v {
                    let s = jpmodel::render::quoted(x);
                    q.push(format!("$[{s}]"));
                    q.push(format!("$[{s}].x"));
                    q.push(format!("$..[{s}]"));
                    q.push(format!("$[?$[{s}].x==@.x]"));
                    if x.chars().all(|c| c.is_alphabetic() || !c.is_ascii()) {
                        q.push(format!("$.{x}.x"));
                    }
                }
                // and without each of them
                let mut ds = vec![Value::Object(m.clone())];
                if n <= 34 {
                    for x in v.iter().step_by(5) {
                        let mut k = m.clone();
                        k.remove(x);
                        ds.push(Value::Object(k));
                    }
                }
                (q, ds)
            })
            .collect();
        jobs(ctx, &work, asp);
    });
}

/// Names so long that a part of them could be left out of sight.
fn long_name_jobs(ctx: &Ctx, asp: u32) {
    let t = ctx.thorough;
    ctx.suite("very long names", "names of 255 to 8193 (thorough 65537) characters, all the same or one different in five places, quoted in segments and as shorthand x a document with all names of that length, and of one more and one less", || {
        let work: Vec<_> = big(if t { 16 } else { 13 })
            .into_iter()
            .rev()
            .map(|n| {
                let mut v = vec![];
                for n in [n - 1, n, n + 1] {
                    v.extend(["x".repeat(n), "\u{1F600}".repeat(n), "\u{1}".repeat(n)]);
                    for (c, k) in ["'", "\\", "\u{b}", "\u{e9}", "y"].iter().zip(positions(n)) {
                        v.push(format!("{}{c}{}", "x".repeat(k), "x".repeat(n - k - 1)));
                        v.push(format!("{}{c}{}", "x".repeat(n - k - 1), "x".repeat(k)));
                    }
                }
                v.sort();
                v.dedup();
                let m: Map<String, Value> = v.iter().enumerate().map(|(i, x)| (x.clone(), json!({"x": i}))).collect();
                let mut q = vec!["$.*".to_string(), "$..x".to_string(), "$[?@.x>=0]".to_string()];
                for x in &v {
                    let s = jpmodel::render::quoted(x);
                    q.push(format!("$[{s}].x"));
                    q.push(format!("$[{s},'x']"));
                    q.push(format!("$[?$[{s}].x==@.x]"));
                    if x.chars().all(|c| c.is_alphabetic() || !c.is_ascii()) {
                        q.push(format!("$.{x}.x"));
                    }
                }
                (q, vec![Value::Object(m)])
            })
            .collect();
        jobs(ctx, &work, asp);
    });
}

/// Strings and arrays that differ in one place, however far in.
pub fn sizes_compared(ctx: &Ctx, asp: u32) {
    let t = ctx.thorough;
    ctx.suite("long strings and arrays", "strings of 2 to 34 and of 255 to 16385 (thorough 65537) characters and arrays and objects of 2 to 34 and of 255 to 4097 (16385) elements: all pairs of ones that are the same, differ in one of five places, or are one longer or shorter; six operators, with values and with literals", || {
        let mut work = vec![];
        for n in (2..=34).chain(big(if t { 16 } else { 14 })).rev() {
            let mut subs = vec!["m".repeat(n), "m".repeat(n - 1), "m".repeat(n + 1), "\u{1F600}".repeat(n), "\u{ffff}".repeat(n)];
            for k in positions(n) {
                for c in ["a", "z", "\u{e9}", "\u{1F600}"] {
                    subs.push(format!("{}{c}{}", "m".repeat(k), "m".repeat(n - k - 1)));
                }
            }
            let mut q = vec![];
            for o in ["==", "!=", "<", "<=", ">", ">="] {
                for k in [0, 5, 9, 13, 17, subs.len() - 2] {
                    if let Some(x) = subs.get(k) {
                        q.push(format!("$[?@{o}{}]", jpmodel::render::quoted(x)));
                        q.push(format!("$[?$[{k}]{o}@]"));
                    }
                }
            }
            work.push((q, vec![json!(subs)]));
            if n > if t { 16385 } else { 4097 } {
                continue;
            }
            let a = |k: usize, c: Value| Value::Array((0..n).map(|i| if i == k { c.clone() } else { json!(i % 3) }).collect());
            let o = |k: usize, c: Value| Value::Object((0..n).map(|i| (format!("k{i:05}"), if i == k { c.clone() } else { json!(i % 3) })).collect());
            let mut d = vec![a(n, json!(0)), o(n, json!(0))];
            for k in positions(n) {
                for c in [json!((k % 3) as f64), json!(7), json!([k % 3]), json!(null), json!((k % 3).to_string())] {
                    d.push(a(k, c.clone()));
                    d.push(o(k, c));
                }
            }
            for e in [0, 9] {
                let mut x = a(n, json!(0));
                x.as_array_mut().unwrap().push(json!(e));
                d.push(x);
                let mut x = o(n, json!(0));
                x[format!("k{e}")] = json!(e);
                d.push(x.clone());
                // another name instead of the first
                x.as_object_mut().unwrap().remove("k00000");
                d.push(x);
            }
            let mut q = vec![];
            for o in ["==", "!=", "<="] {
                for k in [0, 1, 2, 3, 14, 15, d.len() - 1] {
                    q.push(format!("$[?@{o}$[{k}]]"));
                    q.push(format!("$[?$[{k}]{o}@]"));
                }
            }
            work.push((q, vec![json!(d)]));
        }
        jobs(ctx, &work, asp);
    });
}

pub fn sizes_slices(ctx: &Ctx, asp: u32) {
    let t = ctx.thorough;
    ctx.suite("longer arrays", "arrays of 7 to 12, 16, 17, 20 and 33 (thorough: all to 34, 40, 64, 65) elements x all slices with bounds to one beyond the ends (from 16 on every third, and those at the ends) and steps to one beyond the length", || {
        let ns: Vec<i64> = if t { (7..=34).chain([40, 64, 65]).collect() } else { (7..=12).chain([16, 17, 20, 33]).collect() };
        let mut work = vec![];
        for n in ns.into_iter().rev() {
            let d = Value::Array((0..n).map(|i| json!(i)).collect());
            let keep = |x: i64| n < 16 || x % 3 == 0 || x.abs() < 3 || (x.abs() - n).abs() < 2;
            let vals: Vec<String> = (-n - 1..=n + 1).filter(|x| keep(*x)).map(|x| x.to_string()).chain(["".to_string()]).collect();
            for a in &vals {
                let mut q = vec![];
                for b in &vals {
                    for c in (-n - 1..=n + 1).filter(|x| keep(*x) || x.abs() < 8) {
                        q.push(format!("$[{a}:{b}:{c}]"));
                    }
                    q.push(format!("$[{a}:{b}]"));
                }
                work.push((q, vec![d.clone()]));
            }
        }
        jobs(ctx, &work, asp);
    });
    ctx.suite("every index", "arrays of 0 to 40, 64, 100, 127 to 129 and 255 to 257 elements x every index to two beyond the ends, also in descendant segments and existence tests", || {
        let mut work = vec![];
        for n in (0..=40i64).chain([64, 100, 127, 128, 129, 255, 256, 257]) {
            let a: Vec<Value> = (0..n).map(|i| json!(i)).collect();
            let mut q = vec![];
            for i in -n - 2..=n + 2 {
                q.push(format!("$.a[{i}]"));
                q.push(format!("$..[{i}]"));
                q.push(format!("$[?@[{i}]]"));
                q.push(format!("$.b[?@[{i}]=={i}]"));
            }
            work.push((q, vec![json!({"a": a, "b": [a, []]})]));
        }
        jobs(ctx, &work, asp);
    });
}

pub fn sizes_desc(ctx: &Ctx, asp: u32) {
    let t = ctx.thorough;
    ctx.suite("lists of any length", "descendant segments with lists of 2 to 34 (thorough 70) selectors and of up to 257 (1025) x 9 pairs of a selector and another in five places, and of all different ones x four documents", || {
        let work: Vec<_> = sizes(t).into_iter().rev().map(|n| (lists("$..", n), list_docs(n.min(70)))).collect();
        jobs(ctx, &work, asp);
    });
    ctx.suite("documents of any depth", "12 queries with descendant segments x documents of 2 to 34 (thorough 70), and up to 120, levels", || {
        let mut work = vec![];
        for n in sizes(t).into_iter().filter(|n| *n <= 110).chain([105, 110, 118]) {
            let q: Vec<String> = ["$..*", "$..a", "$..[0]", "$..b", "$..[-1]", "$..['a',0]", "$..[?@.a]", "$..a.b", "$..a..b", "$.a..*", "$..[?@[0]]", "$..[::-1]"].iter().map(|s| s.to_string()).collect();
            work.push((q, towers(n)));
        }
        work.reverse();
        jobs(ctx, &work, asp);
    });
    ctx.suite("objects and arrays of any size", "8 queries with descendant segments x arrays and objects of 2 to 257 (thorough 1025) members with members of their own", || {
        let work: Vec<_> = sizes(t)
            .into_iter()
            .rev()
            .map(|n| {
                let a: Vec<Value> = (0..n).map(|i| if i % 2 == 0 { json!([i, {"a": i}]) } else { json!({"a": [i], "b": i}) }).collect();
                let o: Map<String, Value> = (0..n).map(|i| (format!("k{i}"), if i % 2 == 0 { json!([i, {"a": i}]) } else { json!({"a": [i], "k1": i}) })).collect();
                let q = ["$..*", "$..a", "$..[0]", "$..[-1]", "$..[0,'a']", "$..['k1','k0']", "$..[?@.a]", "$..a..*"].iter().map(|s| s.to_string()).collect();
                (q, vec![json!(a), json!(o), json!({"a": o, "b": a})])
            })
            .collect();
        jobs(ctx, &work, asp);
    });
}

/// Long logical expressions in which one operand differs.
pub fn long_logic(n: usize) -> Vec<String> {
    let mut q = vec![];
    let pairs = [("@.t", "@.f"), ("@.f", "@.t"), ("@.t==1", "@.t==2"), ("!@.f", "!@.t"), ("(@.t||@.f)", "(@.t&&@.f)"), ("count(@.*)>0", "count(@.*)>3"), ("$[0].t", "$[0].f")];
    for (s, o) in pairs {
        for k in positions(n) {
            let v: Vec<&str> = (0..n).map(|i| if i == k { o } else { s }).collect();
            q.push(format!("$[?{}]", v.join("&&")));
            q.push(format!("$[?{}]", v.join("||")));
            q.push(format!("$[?!({})]", v.join(" && ")));
            // in turn
            let mut x = String::new();
            for (i, p) in v.iter().enumerate() {
                if i > 0 {
                    x.push_str(if i % 2 == 0 { "||" } else { "&&" });
                }
                x.push_str(p);
            }
            q.push(format!("$[?{x}]"));
        }
    }
    for core in ["@.t", "@.f", "@.t==1", "@.t&&@.f", "@.t||@.f"] {
        q.push(format!("$[?{}{core}{}]", "(".repeat(n), ")".repeat(n)));
        q.push(format!("$[?{}{core}{}]", "!(".repeat(n), ")".repeat(n)));
        q.push(format!("$[?{}{core}{}]", "(@.t&&".repeat(n), ")".repeat(n)));
        q.push(format!("$[?{}{core}{}]", "(@.f||".repeat(n), ")".repeat(n)));
        q.push(format!("$[?{}{core}{}]", "@.f||!(@.t&&".repeat(n), ")".repeat(n)));
        q.push(format!("$[?{}{core}{}]", "(".repeat(n), "&&@.t)".repeat(n)));
        q.push(format!("$[?{}{core}{}]", "(".repeat(n), "||@.f)".repeat(n)));
    }
    q
}

/// Filters within filters up to m deep, with documents for each.
pub fn nested_filters(m: usize) -> Vec<(Vec<String>, Vec<Value>)> {
    let mut work = vec![];
    for n in 1..=m {
        let mut q = vec![];
        for (a, b) in [("[?@", "]"), ("[?@.a&&@", "]"), ("[?!@", "]"), ("[?count(@", ")>0]"), ("[?@.*", "]"), ("[?(@", ")]"), ("[?@..a||@", "]")] {
            for core in ["", ".a", "[0]", "[?@==7]", "[?@==$]", "[?$.a]", ".*"] {
                if core.is_empty() && a.ends_with('@') && a.starts_with("[?!") && n > 1 && n % 2 == 0 {
                    continue;
                }
                // branching queries of this depth take time that grows with it
                if (a.contains("..") || a.contains('*')) && n > 8 {
                    continue;
                }
                q.push(format!("${}{core}{}", a.repeat(n), b.repeat(n)));
            }
        }
        q.retain(|x| Expect::of(x, Default::default(), &std_set().ps.funcs).valid());
        let mut d = vec![];
        for k in [n.saturating_sub(1), n, n + 1, n + 2] {
            for kind in 0..4 {
                d.push(tower(k, kind));
            }
        }
        work.push((q, d));
    }
    work
}

pub fn sizes_logic(ctx: &Ctx, asp: u32) {
    let t = ctx.thorough;
    ctx.suite("logic of any length", "conjunctions, disjunctions, and both in turn of 2 to 34 (thorough 70) operands and of up to 257, one of them different in five places, 7 kinds; and as many nested parentheses and negations of 7 forms x the four assignments of two members", || {
        let d = json!([{"t": 1}, {"f": 1}, {"t": 1, "f": 1}, {}, {"t": 2, "f": null}, {"t": [], "x": 1, "y": 2, "z": 3}]);
        let work: Vec<_> = sizes(t).into_iter().filter(|n| *n <= 257).rev().flat_map(|n| long_logic(n).chunks(40).map(|c| (c.to_vec(), vec![d.clone()])).collect::<Vec<_>>()).collect();
        jobs(ctx, &work, asp);
    });
    ctx.suite("filters within filters", "filters nested 1 to 12 (thorough 20) deep in 7 forms, with @ and $ at the innermost x towers of 1 to 14 (22) levels, and such with more beside", || {
        let work = nested_filters(if t { 20 } else { 12 });
        jobs(ctx, &work, asp);
    });
    ctx.suite("lists of any length", "filters over arrays and objects of 2 to 257 (thorough 1025) members of which one in five places, all, or none passes", || {
        let work: Vec<_> = sizes(t)
            .into_iter()
            .rev()
            .map(|n| {
                let mut d = vec![];
                for k in positions(n) {
                    for (y, z) in [(json!({"a": 1}), json!({"b": 1})), (json!([1]), json!([])), (json!(1), json!(2)), (json!({"a": null}), json!({})), (json!("a"), json!("b"))] {
                        for (y, z) in [(&y, &z), (&z, &y)] {
                            d.push(Value::Array((0..n).map(|i| if i == k { y.clone() } else { z.clone() }).collect()));
                            if k == n / 2 {
                                d.push(Value::Object((0..n).map(|i| (format!("k{i}"), if i == k { y.clone() } else { z.clone() })).collect()));
                            }
                        }
                    }
                }
                let q = ["$[?@.a]", "$[?!@.a]", "$[?@[0]]", "$[?@==1]", "$[?@!=1]", "$[?@.a==null]", "$[?@=='a']", "$[?@.*]", "$[?length(@)==1]", "$[?match(@,'a')]", "$[?@==$[0]]", "$[?count(@.*)==1]"].iter().map(|s| s.to_string()).collect();
                (q, d)
            })
            .collect();
        jobs(ctx, &work, asp);
    });
}

fn next_up(x: f64) -> f64 {
    f64::from_bits(if x >= 0.0 { x.to_bits() + 1 } else { x.to_bits() - 1 })
}
fn next_down(x: f64) -> f64 {
    f64::from_bits(if x > 0.0 { x.to_bits() - 1 } else { x.to_bits() + 1 })
}

pub fn sizes_numbers(ctx: &Ctx, asp: u32) {
    let t = ctx.thorough;
    ctx.suite("neighbouring numbers", "every power of two and of ten that a double holds (quick: every second, and all near 0), their negatives, and the doubles next to each: six operators between them, both ways, and with literals", || {
        let mut base: Vec<f64> = vec![];
        for e in -1074..=1023 {
            if t || e % 2 == 0 || (-70..=70).contains(&e) {
                base.push(2f64.powi(e.max(-1022)) * if e < -1022 { 2f64.powi(e + 1022) } else { 1.0 });
            }
        }
        for e in -307..=307 {
            if t || e % 2 == 0 || (-25..=25).contains(&e) {
                base.push(format!("1e{e}").parse().unwrap());
            }
        }
        base.extend([0.1, 0.2, 0.3, 0.7, 1.1, 1.5, 2.5, 3.3, 1e15 + 0.5, 123456789.125, 4503599627370496.5, f64::MAX]);
        let mut work = vec![];
        for b in base {
            let mut q = vec![];
            let mut d = vec![];
            for x in [b, -b] {
                let mut near = vec![x, next_down(x), next_up(x)];
                near.retain(|x| x.is_finite());
                let mut vals: Vec<Value> = near.iter().map(|x| json!(x)).collect();
                if x.fract() == 0.0 && x.abs() < 9e15 {
                    vals.extend([json!(x as i64), json!(x as i64 + 1), json!(x as i64 - 1)]);
                }
                vals.push(json!(0));
                d.push(json!({"v": vals, "k": vals[0], "l": [vals[1]]}));
                for o in ["==", "<", ">="] {
                    q.push(format!("$.v[?@{o}$.k]"));
                    q.push(format!("$.v[?$.l[0]{o}@]"));
                    q.push(format!("$.v[?@{o}{x:e}]"));
                    q.push(format!("$.v[?{:e}{o}@]", near[1]));
                }
                q.push(format!("$.v[?@!={:e}]", near[1]));
                q.push(format!("$.v[?{x:e}<=@]"));
                if x.abs() < 1e20 && x.abs() > 1e-20 {
                    let s = format!("{x:?}");
                    if !s.contains('e') {
                        q.push(format!("$.v[?@=={s}]"));
                        q.push(format!("$.v[?@>{s}]"));
                    }
                }
            }
            work.push((q, d));
        }
        jobs(ctx, &work, asp);
    });
    ctx.suite("every small number", "all integers from -130 to 130, and all multiples of 0.125 from -5 to 5, as values, as literals, in three written forms each: six operators with their neighbours", || {
        let mut work = vec![];
        for i in -130i64..=130 {
            let d = json!({"v": [i, i as f64, i - 1, i + 1, i as f64 + 0.5, -i, i.to_string(), [i], null, i * 10]});
            let mut q = vec![];
            for o in ["==", "!=", "<", "<=", ">", ">="] {
                for l in [format!("{i}"), format!("{i}.0"), format!("{i}e0"), if i == 0 { "0e-1".into() } else { format!("{i}0e-1") }] {
                    q.push(format!("$.v[?@{o}{l}]"));
                    q.push(format!("$.v[?{l}{o}@]"));
                }
                q.push(format!("$.v[?@{o}$.v[0]]"));
            }
            work.push((q, vec![d]));
        }
        for i in -40..=40 {
            let x = i as f64 * 0.125;
            let d = json!({"v": [x, x - 0.125, x + 0.125, next_up(x), i, x.trunc() as i64]});
            let mut q = vec![];
            for o in ["==", "!=", "<", "<=", ">", ">="] {
                q.push(format!("$.v[?@{o}{x:?}]"));
                q.push(format!("$.v[?{x:e}{o}@]"));
            }
            work.push((q, vec![d]));
        }
        jobs(ctx, &work, asp);
    });
}

pub fn sizes_lengths(ctx: &Ctx, asp: u32) {
    let t = ctx.thorough;
    ctx.suite("every length", "strings of three kinds of characters, arrays and objects of every length from 0 to 300 (thorough 1100), and the numbers of nodes of five queries: equal to it, to it, one less or one more, and as literals", || {
        let m: usize = if t { 1100 } else { 300 };
        let ns: Vec<usize> = (0..=m).rev().collect();
        let work: Vec<_> = ns
            .chunks(4)
            .map(|c| {
                let mut q = vec![];
                let mut d = vec![];
                for &n in c {
                    let a: Vec<Value> = (0..n).map(|i| json!(i % 7)).collect();
                    let o: Map<String, Value> = (0..n).map(|i| (format!("k{i}"), json!(i % 5))).collect();
                    let mut mixed = String::new();
                    for i in 0..n {
                        mixed.push(['a', '\u{e9}', '\u{4e00}', '\u{1F600}', '\u{301}'][i % 5]);
                    }
                    d.push(json!([{"s": "a".repeat(n), "w": "\u{1F600}".repeat(n), "m": mixed, "a": a, "o": o, "n": n}]));
                    for k in [n.wrapping_sub(1), n, n + 1, n % 256] {
                        if k > 70000 {
                            continue;
                        }
                        for f in ["length(@.s)", "length(@.w)", "length(@.m)", "length(@.a)", "length(@.o)", "count(@.a.*)", "count(@.o.*)", "count(@.a[:])", "count(@.a[0,0:])"] {
                            q.push(format!("$[?{f}=={k}]"));
                        }
                    }
                    for f in ["length(@.s)", "length(@.w)", "length(@.m)", "length(@.a)", "length(@.o)", "count(@.a[?@>=0])", "count(@..s)", "count(@.o['k0',*])"] {
                        q.push(format!("$[?{f}==@.n]"));
                        q.push(format!("$[?{f}<@.n]"));
                    }
                    q.push(format!("$[?length('{}')==@.n]", "b".repeat(n)));
                    q.push(format!("$[?length('{}')=={n}]", "\\u00e9".repeat(n)));
                    q.push("$[?value(@.a[:1])==0]".into());
                    q.push("$[?value(@.a[-1:])==value(@.o[*])]".into());
                }
                (q, d)
            })
            .collect();
        jobs(ctx, &work, asp);
    });
    ctx.suite("great lengths", "strings of three kinds of characters, arrays and objects of 255 to 65537 (thorough 131073) characters, elements or members (objects to 8193 (65537)): length and count equal to that, to one less, one more, and to it modulo powers of two", || {
        let mut work = vec![];
        for n in big(if t { 17 } else { 16 }).into_iter().rev() {
            let a: Vec<Value> = (0..n).map(|i| json!(i % 7)).collect();
            let k = if t { n.min(65537) } else { n.min(8193) };
            let o: Map<String, Value> = (0..k).map(|i| (format!("k{i}"), json!(i % 5))).collect();
            let mut mixed = String::new();
            for i in 0..n {
                mixed.push(['a', '\u{e9}', '\u{4e00}', '\u{1F600}', '\u{301}'][i % 5]);
            }
            let d = json!([{"s": "a".repeat(n), "w": "\u{1F600}".repeat(n), "m": mixed, "a": a, "o": o, "n": n, "k": k}]);
            let mut q = vec![];
            for (f, n, v) in [("length(@.s)", n, "n"), ("length(@.w)", n, "n"), ("length(@.m)", n, "n"), ("length(@.a)", n, "n"), ("length(@.o)", k, "k"), ("count(@.a.*)", n, "n"), ("count(@.o[*])", k, "k"), ("count(@.a[0,::2])", n.div_ceil(2) + 1, "")] {
                let mut ks = vec![n - 1, n, n + 1, n % 256, n % 1024, n % 4096, n % 65536, n & !1, 255, 1000, 4096, 65535];
                ks.dedup();
                for k in ks {
                    q.push(format!("$[?{f}=={k}]"));
                }
                if !v.is_empty() {
                    for o in ["==", "<", ">"] {
                        q.push(format!("$[?{f}{o}@.{v}]"));
                    }
                }
            }
            q.push(format!("$[?length('{}')==@.n]", "b".repeat(n)));
            q.push(format!("$[?length('{}')==@.n]", "\u{e9}".repeat(n)));
            work.push((q, vec![d]));
        }
        jobs(ctx, &work, asp);
    });
}

pub fn sizes_names(ctx: &Ctx) {
    let t = ctx.thorough;
    names(ctx, PATH);
    long_name_jobs(ctx, PATH);
    ctx.suite("paths of any length", "child and descendant queries x documents of 2 to 34 (thorough 70), and up to 257 levels, and arrays of every length to 130 and up to 1025", || {
        let mut work: Vec<(Vec<String>, Vec<Value>)> = sizes(t).into_iter().rev().map(|n| (vec!["$..*".to_string(), "$..a".into(), "$..[0]".into(), "$..b".into(), format!("${}", "[0]".repeat(n)), format!("${}", ".a".repeat(n))], towers(n))).collect();
        for n in (0..=130).chain([255, 256, 257, 999, 1000, 1001, 1023, 1024, 1025]) {
            let a = Value::Array((0..n).map(|i| json!([i])).collect());
            work.push((["$.*", "$..*", "$[*][0]", "$[::-1]", "$[?@[0]>=0]", "$[-1,-2]", "$[0,*].*"].iter().map(|s| s.to_string()).collect(), vec![a]));
        }
        jobs(ctx, &work, PATH);
    });
}

pub fn sizes_agree(ctx: &Ctx) {
    let t = ctx.thorough;
    let asp = AGREE | LAZY;
    ctx.suite("queries of any length", "lists and chains of 2 to 34 (thorough 70) and up to 257 selectors or segments, logic as long, descendant segments in documents as deep", || {
        let d = json!([{"t": 1}, {"f": 1}, {"t": 1, "f": 1}, {}, {"t": 2, "f": null}]);
        let mut work = vec![];
        for n in sizes(t).into_iter().filter(|n| *n <= 257).rev() {
            work.push((lists("$", n), list_docs(n)));
            if n <= 34 {
                work.push((lists("$..", n), list_docs(n)));
            }
            work.push((chains(n, &["[0]", ".a", ".*", "['a',0]"]), towers(n)));
            work.push((long_logic(n).into_iter().step_by(5).collect(), vec![d.clone()]));
            if n <= 110 {
                work.push((["$..*", "$..a", "$..[0]", "$..['a',0]", "$..[?@.a]", "$..[-1]"].iter().map(|s| s.to_string()).collect(), towers(n)));
            }
        }
        jobs(ctx, &work, asp);
    });
}

pub fn sizes_patterns(ctx: &Ctx) {
    let t = ctx.thorough;
    ctx.suite("patterns and subjects of any length", "18 forms of patterns of 1 to 34 (thorough 70) parts and of up to 65 (257) x subjects of the fitting length, of one less and one more, with one character changed in five places, and with something before or after; match and search", || {
        let mut work = vec![];
        for n in [1].into_iter().chain(sizes(t)).filter(|n| *n <= if t { 257 } else { 65 }).rev() {
            let r = |s: &str| s.repeat(n);
            let s: String = (0..n).map(|i| (b'a' + (i % 20) as u8) as char).collect();
            let mut ps = vec![
                s.clone(), r("a"), r("."), r("[ab]"), r("a?"), r("a*"), r("(a|b)"), r("\\."), r("\u{e9}"), "a*".into(), "a+".into(), ".*".into(), "[^b]*".into(), "(a|b)*".into(), "(ab?)*".into(), format!("({})", s), format!(".*{s}.*"), format!("a{{{},{}}}", n % 10, 9),
            ];
            ps.push((0..n.min(60)).map(|i| format!("x{i}")).collect::<Vec<_>>().join("|"));
            ps.push(format!("[{}]", s));
            ps.push(format!("{}a{}", "(".repeat(n.min(60)), ")".repeat(n.min(60))));
            if n > 16 {
                // the reference takes time that grows with the cube of these
                ps.retain(|p| !p.starts_with("a?a?") && !p.starts_with("a*a*"));
            }
            let mut subs = vec![s.clone(), s[1..].to_string(), format!("{s}a"), format!("z{s}"), format!("{s}\n"), format!("\n{s}"), r("a"), "a".repeat(n - 1), "a".repeat(n + 1), r("b"), r("."), r("\u{e9}"), r("\u{1F600}"), format!("{}b", "a".repeat(n)), format!("b{}", "a".repeat(n)), format!("x{}", n.min(60) - 1), format!("x{n}")];
            for k in positions(n) {
                for c in ["z", "\n", "\r", "\u{e9}", ".", "b"] {
                    subs.push(format!("{}{c}{}", "a".repeat(k), "a".repeat(n - k - 1)));
                    subs.push(format!("{}{c}{}", &s[..k], &s[k + 1..]));
                }
            }
            for p in ps {
                let l = jpmodel::render::quoted(&p);
                work.push((vec!["$.s[?match(@,$.p)]".to_string(), "$.s[?search(@,$.p)]".into(), format!("$.s[?match(@,{l})]"), format!("$.s[?search(@,{l})]")], vec![json!({"p": p, "s": subs})]));
            }
        }
        jobs(ctx, &work, NODES);
    });
}

/// Lengths around the powers of two and of ten, up to the given power of two.
pub fn big(bits: u32) -> Vec<usize> {
    let mut v: Vec<usize> = (8..=bits).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1]).collect();
    v.extend([300, 500, 1000, 5000, 10000, 20000, 50000].iter().filter(|n| **n < 1 << bits));
    v.sort();
    v
}

/// Subjects so long that a part of them could be left out of sight.
pub fn sizes_subjects(ctx: &Ctx) {
    let t = ctx.thorough;
    ctx.suite("long subjects", "12 patterns (used for the first time, and again) x 14 forms of subjects of 255 to 16385 (thorough 65537) characters, the one that matters first, in the middle and last; match and search, literal patterns and ones from the document, and patterns that are that long", || {
        let mut work = vec![];
        let mut id = 0;
        for n in big(if t { 16 } else { 14 }).into_iter().rev() {
            let a = |k: usize| "a".repeat(k);
            let subs = [
                a(n), format!("{}b", a(n)), format!("b{}", a(n)), format!("{}b", a(n - 1)), format!("{}b{}", a(n / 2), a(n - n / 2)), format!("{}\n", a(n)), format!("{}\nb", a(n)), format!("{}b\n", a(n)),
                format!("{}\u{e9}", a(n)), format!("{}b", "\u{e9}".repeat(n)), format!("{}b", "\u{1F600}".repeat(n)), format!("{}bb", a(n - 2)), format!("{}.", a(n)), format!("{}A", a(n)),
            ];
            let pats = ["b", "ab", "a*b", "b.*", ".*b", "(a|\u{e9})*b?", "[^a]", "a+", "[a-c]*", "\\p{Lu}", "(.|\n)*b.?", "aa*.b"];
            for (i, p) in pats.iter().enumerate() {
                for (j, s) in subs.iter().enumerate() {
                    for f in ["match", "search"] {
                        id += 1;
                        let p = format!("{p}|x{id}");
                        let other = &subs[(i + j) % subs.len()];
                        let l = if id % 2 == 0 { "$.p".to_string() } else { jpmodel::render::quoted(&p) };
                        work.push((vec![format!("$.s[?{f}(@,{l})]")], vec![json!({"p": p, "s": [s, s, other, "b", ""]})]));
                    }
                }
            }
            if n <= 4097 {
                for p in [a(n), format!("{}b", a(n)), format!("{}|b", a(n)), "a?b".repeat(n / 16), "[ab]".repeat(n / 4)] {
                    let l = jpmodel::render::quoted(&p);
                    work.push((["match", "search"].iter().flat_map(|f| [format!("$.s[?{f}(@,$.p)]"), format!("$.s[?{f}(@,{l})]")]).collect(), vec![json!({"p": p, "s": [a(n), a(n - 1), a(n + 1), "b", "", format!("{}b", a(n)), "b".repeat(n / 16), "ab".repeat(n / 16), a(n / 4), a(n / 4 - 1)]})]));
                }
            }
        }
        jobs(ctx, &work, NODES);
    });
}

/// What a parser calls singular selects at most one node.
pub fn singular_results(ctx: &Ctx) {
    let set = std_set();
    let t = ctx.thorough;
    ctx.suite("results of singular queries", "all queries of up to 3 (thorough 4) elements over a vocabulary of everything and of segments, and all one- and two-segment queries x all documents of at most 3 nodes, 11 larger ones and ones with equal parts: not more than one node where a parser says singular", || {
        let mut ds = sweep_docs();
        ds.extend(twins(2));
        for v in [&crate::gen::FULL, &crate::gen::SEGS] {
            let mut q = crate::gen::queries(v, 3 + t as usize, &set.ps.funcs);
            q.retain(|x| !x.contains('?'));
            sweep(ctx, &q, &ds, set, SINGLE);
        }
        product(ctx, &prep_all(&child_queries(false), set), &docs(docs::all(4, &[json!(1)], &["a", "b"])), set, SINGLE);
        product(ctx, &prep_all(&odd_names(), set), &docs(docs::odd()), set, SINGLE);
    });
}
