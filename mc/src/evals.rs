//! Families of queries and documents for the evaluation properties.
use crate::docs;
use crate::evalx::*;
use crate::report::*;
use crate::syntax::*;
use crate::syntax2::tree_texts;
use serde_json::{json, Map, Value};

fn leaves() -> Vec<Value> {
    vec![json!(1), json!("a"), json!(null)]
}

fn small(n: usize) -> Vec<Box<Doc>> {
    docs(docs::all(n, &leaves(), &["a", "b"]))
}

// ---------------------------------------------------------------------------------------
// Child segments

pub const SELS: &[&str] = &["'a'", "'b'", "0", "1", "-1", "*", "1:", "::-1"];

/// Lists of one or two selectors.
fn bracket(two: bool) -> Vec<String> {
    let mut v: Vec<String> = SELS.iter().map(|s| format!("[{s}]")).collect();
    if two {
        for a in SELS {
            for b in SELS {
                v.push(format!("[{a},{b}]"));
            }
        }
    }
    v
}

/// Lists of three selectors, and some of up to nine.
pub fn long_lists(pre: &str) -> Vec<String> {
    let mut q = vec![];
    for a in SELS {
        for b in SELS {
            for c in SELS {
                q.push(format!("{pre}[{a},{b},{c}]"));
            }
            for n in [4, 5, 7, 8, 9] {
                // all but one the same; in turn
                q.push(format!("{pre}[{}{b}]", format!("{a},").repeat(n - 1)));
                q.push(format!("{pre}[{b}{}]", format!(",{a}").repeat(n - 1)));
                q.push(format!("{pre}[{}]", (0..n).map(|i| if i % 2 == 0 { *a } else { *b }).collect::<Vec<_>>().join(",")));
            }
        }
    }
    q.push(format!("{pre}[{}]", SELS.join(",")));
    q.push(format!("{pre}[{},?@.a]", SELS.join(",")));
    q
}

pub fn child_queries(depth3: bool) -> Vec<String> {
    let one = bracket(false);
    let two = bracket(true);
    let mut q: Vec<String> = vec!["$".into(), "$.a".into(), "$.b.a".into(), "$.*".into(), "$[0].*".into(), "$['a',0,*,'a']".into(), "$[2,1,0,-1,-2]".into(), "$[*,*,*]".into()];
    q.extend(two.iter().map(|s| format!("${s}")));
    for a in &one {
        for b in &one {
            q.push(format!("${a}{b}"));
            if depth3 {
                for c in &one {
                    q.push(format!("${a}{b}{c}"));
                }
            }
        }
    }
    if depth3 {
        for a in &two {
            for b in &one {
                q.push(format!("${a}{b}"));
                q.push(format!("${b}{a}"));
            }
        }
    }
    q
}

/// Names and documents where a comparison of names that is not exact shows.
pub fn odd_names() -> Vec<String> {
    let names = [
        "", " ", "a b", "0", "-1", "a.b", "*", "$", "@", "..", "'", "\"", "\\", "\\'", "\u{8}\u{c}\n\r\t", "\u{7f}", "/", "']['", "\u{e9}", "e\u{301}", "\u{1F600}", "\u{ffff}",
        "\u{d7ff}\u{e000}", "A", "a", "k00", "k39", "length", "true", "null", "k1", "\u{0}\u{1}\u{1f}",
    ];
    let mut q = vec![];
    for n in names {
        let s = jpmodel::render::quoted(n);
        q.push(format!("$[{s}]"));
        q.push(format!("$..[{s}]"));
        q.push(format!("$[?@[{s}]]"));
        q.push(format!("$[{s},{s}][0]"));
        q.push(format!("$[?$[{s}]==@]"));
    }
    for t in ["$[299]", "$[-300]", "$[-301]", "$[300]", "$[::100]", "$[::-100]", "$[*][0]", "$..k", "$[*].k", "$..[0,1]", "$[150:10:-37]", "$.a.a.a.a", "$..a..a", "$..b[0]", "$..*"] {
        q.push(t.into());
    }
    q
}

/// Documents with equal parts in different places.
pub fn twins(n: usize) -> Vec<Box<Doc>> {
    let mut v = vec![];
    for d in docs::all(n, &leaves(), &["a", "b"]) {
        v.push(json!([d, d]));
        v.push(json!({"a": d, "b": d}));
        v.push(json!([[d], [d]]));
        v.push(json!([{"a": d}, {"a": d}]));
        v.push(json!([d, d, d]));
        v.push(json!([d, 0, d]));
        v.push(json!({"a": d, "b": {"a": d}}));
        v.push(json!({"a": {"a": d}, "b": [d, d]}));
        v.push(json!([d, [d, [d]]]));
        v.push(json!([[d, d], [d, d]]));
    }
    docs(v)
}

pub const TWIN_QUERIES: &[&str] = &[
    "$..*", "$..a", "$..[0]", "$..[-1]", "$..[0,1]", "$..['b','a']", "$..[1:]", "$..[::-1]", "$..[?@.a]", "$..[?@==$[0]]", "$..[?@==$.a]", "$..[?@[0]]", "$..*..*", "$..a..*", "$..[*,0]", "$.*", "$.*.*", "$[*][0]", "$[*].a", "$[0,0]", "$[0,1,0]",
    "$['a','b','a'].*", "$[*][*,*]", "$[1].*", "$[1]..*", "$.b.*", "$.b..*", "$[?@==$[0]]", "$[?@==$[1]].*", "$[?@==$.b]", "$[?@!=$[0]]", "$[?@[0]==@[1]]", "$[?@.a==$.b]", "$[?count(@..*)==count($[0]..*)]", "$[?count($..*)>3]", "$[?count(@[0,0])==2]", "$[?count($.*.*)==2]",
    "$[?value(@..a)==1]", "$[?length(@)==length($[0])].*", "$[::-1].*", "$[:,:].*", "$[1,0]..[0,'a']",
];

/// Names of which one could be taken for another.
pub const NAMES: &[&str] = &[
    "", " ", "a", "A", " a", "a ", "\ta", "a\n", "\u{e9}", "e\u{301}", "\u{c9}", "\u{130}", "i", "I", "\u{131}", "\u{df}", "ss", "\u{1e9e}", "~", "/", "~0", "~1", "~01", "%41", "%2F", "+", "0", "1", "01", "1.0", "-1", "-0", "1e0", "0x1", "a.b", "b", "a/b", "a~1b", "$", "@", "*", "..", "$.a", "@.a", "$['a']", "'a'", "\"a\"",
    "['a']", "[0]", "\\", "\\\\", "\\n", "\n", "n", "\\u0061", "u0061", "\\/", "'", "\"", "\\'", "\\\"", "\0", "a\0", "a\0b", "null", "true", "length", "#", "a#", "a\u{200d}", "a\u{fe0f}", "\u{feff}a", "\u{1F600}", "\u{1F601}", "\u{f600}", "\u{ff21}", "\u{212a}", "k", "K", "aa", "ab", "ba", "a1", "a_", "_a", "a-b", "a b",
    "a\u{a0}b", "&lt;", "<", "\u{17f}", "s", "\u{fb01}", "fi", "__proto__", "constructor",
];

/// Every two names: one of them in the query, the other (or both) in the document.
pub fn name_pairs(ctx: &Ctx, asp: u32) {
    let set = std_set();
    let mut q = vec![];
    for n in NAMES {
        let s = jpmodel::render::quoted(n);
        q.push(format!("$.v[*][{s}]"));
        q.push(format!("$..[{s}]"));
        q.push(format!("$.v[?@[{s}]]"));
        q.push(format!("$.o[{s}]"));
        q.push(format!("$.p[{s},{s}]"));
    }
    let v: Vec<Value> = NAMES.iter().enumerate().map(|(i, n)| json!({*n: i})).collect();
    let rev: Vec<Value> = NAMES.iter().rev().enumerate().map(|(i, n)| json!({*n: [i]})).collect();
    let all: Map<String, Value> = NAMES.iter().enumerate().map(|(i, n)| (n.to_string(), json!(i))).collect();
    let mut ds = vec![json!({"v": v, "o": all, "p": all}), json!({"v": rev})];
    // all but one
    for n in NAMES {
        let mut m = all.clone();
        m.remove(*n);
        ds.push(json!({"o": m, "p": [], "v": [m]}));
    }
    product(ctx, &prep_all(&q, set), &docs(ds), set, asp);
}

pub fn c06(ctx: &Ctx, asp: u32) {
    let set = std_set();
    let t = ctx.thorough;
    ctx.suite("child segments", "all one- and two-segment queries over 8 selectors, all selector pairs (thorough: three segments, pairs in two segments) x all documents of at most 5 nodes", || {
        let qs = prep_all(&child_queries(false), set);
        product(ctx, &qs, &small(5), set, asp);
        if t {
            product(ctx, &prep_all(&child_queries(true), set), &small(4), set, asp);
            product(ctx, &prep_all(&bracket(true).iter().map(|s| format!("${s}")).collect::<Vec<_>>(), set), &small(6), set, asp);
        }
    });
    ctx.suite("sized queries", "all queries of up to 3 of 7 selectors in child segments of one or two x all documents of at most 4 nodes and 11 larger ones; of 4 (thorough 5) x all of at most 3 nodes and 11 larger ones", || {
        let mut ds = small(4);
        ds.extend(sweep_docs());
        sweep(ctx, &crate::gen::queries(&crate::gen::CHILD, 3, &set.ps.funcs), &ds, set, asp);
        sweep(ctx, &crate::gen::queries(&crate::gen::CHILD, 4 + t as usize, &set.ps.funcs), &sweep_docs(), set, asp);
    });
    ctx.suite("longer lists", "all lists of three selectors, and 961 of four to nine x all documents of at most 4 (thorough 5) nodes", || {
        product(ctx, &prep_all(&long_lists("$"), set), &small(4 + t as usize), set, asp);
    });
    ctx.suite("pairs of names", "every one of 96 names that could be taken for another of them, in five queries x documents with every other name, with all of them, and with all but one", || name_pairs(ctx, asp));
    ctx.suite("every code point", "every code point below 0x3000 and at the ends of every run of one category (thorough: every one) as a name, as shorthand where it is one, in quotes, in a descendant segment and an existence test x an object with it, its neighbours, and their cases", || {
        let mut cps: Vec<u32> = if t { (0..0x110000).collect() } else { (0..0x3000).collect() };
        if !t {
            cps.extend(jpmodel::gc::GC.iter().flat_map(|x| [x.0.saturating_sub(1), x.0]).filter(|c| *c >= 0x3000));
            cps.dedup();
        }
        let all: Vec<char> = cps.iter().filter_map(|c| char::from_u32(*c)).collect();
        let w: Vec<&[char]> = all.chunks(64).collect();
        ctx.par(&w, |cs| {
            let mut m = Map::new();
            for &c in *cs {
                m.insert(c.to_string(), json!({"x": c as u32}));
                for n in [c as u32 + 1, (c as u32).wrapping_sub(1), c as u32 & 0xffff, c as u32 & 0xff] {
                    if let Some(n) = char::from_u32(n) {
                        m.entry(n.to_string()).or_insert(json!(n as u32));
                    }
                }
                m.entry(c.to_lowercase().to_string()).or_insert(json!(2));
                m.entry(c.to_uppercase().to_string()).or_insert(json!(3));
                m.entry(format!("{c}\u{301}")).or_insert(json!(4));
                m.entry(format!("a{c}")).or_insert(json!(5));
            }
            let d = Doc::new(json!({"": [m.clone()], "o": m}));
            with_envs(|envs| {
                let s0 = jpmodel::eval::steps();
                for &c in *cs {
                    let s = jpmodel::render::quoted(&c.to_string());
                    let mut q = vec![format!("$.o[{s}].x"), format!("$..[{s}]"), format!("$[*][?@[{s}]]")];
                    if c.is_ascii_alphabetic() || c == '_' || !c.is_ascii() {
                        q.extend([format!("$.o.{c}.x"), format!("$..{c}"), format!("$.o.a{c}")]);
                    }
                    for q in prep_all(&q, set) {
                        let mut bad = vec![];
                        let n = examine_eval(&q, &d, set, asp, envs, &mut bad).0;
                        ctx.state(1);
                        ctx.trace(n);
                        report_eval(ctx, &q, &d, set, asp, bad);
                    }
                }
                ctx.trans(jpmodel::eval::steps() - s0);
            });
        });
        ctx.sample(|| format!("$.o.{}", all[1000]));
    });
    ctx.suite("equal parts", "42 queries x every document of at most 3 (thorough 4) nodes two to four times within ten others", || {
        product(ctx, &prep_all(&TWIN_QUERIES.iter().map(|s| s.to_string()).collect::<Vec<_>>(), set), &twins(3 + t as usize), set, asp);
    });
    ctx.suite("odd names and shapes", "32 unusual member names in five positions, 15 queries of long and deep documents x 11 such documents", || {
        // the parser of one crate does not take escaped control characters; it has no engine
        product(ctx, &prep_all(&odd_names(), set), &docs(docs::odd()), set, asp);
    });
    ctx.suite("large documents", "queries of child segments with indices, names and slices around the limits x arrays and objects of 127 to 129, 255 to 257, 1023 to 1025 members, arrays of 65535 to 65537 (thorough: objects too, and to 131073), and documents nested 20 to 300 deep", || large(ctx, asp, |t| !t.contains("..") && !t.contains('?')));
}

// ---------------------------------------------------------------------------------------
// Indices and slices

pub fn c07(ctx: &Ctx, asp: u32) {
    let set = std_set();
    let n: i64 = if ctx.thorough { 10 } else { 7 };
    let m: usize = if ctx.thorough { 9 } else { 6 };
    let mut ds: Vec<Value> = (0..=m).map(|k| Value::Array((0..k).map(|i| json!([i])).collect())).collect();
    ds.push(json!({"0": 1, "1": [1, 2], "-1": 3}));
    ds.push(json!("abcdef"));
    ds.push(json!(7));
    ds.push(json!([[], [1], [1, 2], [1, 2, 3], {"a": [1, 2, 3, 4]}, "abc"]));
    let ds = docs(ds);
    let big = [9007199254740991i64, -9007199254740991, 9007199254740990, 4294967296, -4294967296, 2147483648, 300, -300];
    ctx.suite("slices", "all slices with bounds and step in -7..7 (thorough -10..10) or absent x all arrays of length 0..6 (0..9) and non-arrays", || {
        let mut vals: Vec<String> = (-n..=n).map(|x| x.to_string()).collect();
        vals.push("".into());
        let work: Vec<(String, String)> = vals.iter().flat_map(|a| vals.iter().map(move |b| (a.clone(), b.clone()))).collect();
        slices(ctx, set, &work, &vals, &ds, asp);
    });
    ctx.suite("far bounds", "slices with bounds and steps up to +-(2^53-1) x the same arrays", || {
        let mut vals: Vec<String> = big.iter().map(|x| x.to_string()).collect();
        vals.extend(["", "0", "1", "-1", "2", "-2", "5"].map(String::from));
        let work: Vec<(String, String)> = vals.iter().flat_map(|a| vals.iter().map(move |b| (a.clone(), b.clone()))).collect();
        slices(ctx, set, &work, &vals, &ds, asp);
    });
    ctx.suite("widest range", "parsers configured to take all 64-bit integers: indices in six positions, and slices with bounds and steps at the ends of that range, +-2^62, +-2^53, +-2^32 (each and its neighbours for indices) and small ones x the same arrays", || {
        let set = crate::syntax2::set_named("ints:-9223372036854775808:9223372036854775807");
        let mut far = vec![];
        for c in [i64::MIN as i128, i64::MAX as i128, 1 << 62, -(1 << 62), 1 << 53, -(1 << 53), 1 << 32, -(1 << 32), 0] {
            far.extend((c - 2..=c + 2).filter_map(|x| i64::try_from(x).ok()));
        }
        let mut q = vec![];
        for i in &far {
            for f in ["$[#]", "$..[#]", "$[*][#]", "$[?@[#]]", "$[?@[#]==2]", "$[#,#,0]"] {
                q.push(f.replace('#', &i.to_string()));
            }
        }
        product(ctx, &prep_all(&q, set), &ds, set, asp);
        let mut vals: Vec<String> = [i64::MIN, i64::MIN + 1, i64::MIN + 2, i64::MAX, i64::MAX - 1, 1 << 62, -(1 << 62), (1 << 53) + 1, -(1 << 53) - 1, 0, 1, -1, 2, -2].map(|x| x.to_string()).to_vec();
        vals.push("".into());
        let work: Vec<(String, String)> = vals.iter().flat_map(|a| vals.iter().map(move |b| (a.clone(), b.clone()))).collect();
        slices(ctx, set, &work, &vals, &ds, asp);
    });
    ctx.suite("indices", "indices -14..14 and extreme ones, in six positions x the same arrays", || {
        let mut v: Vec<i64> = (-14..=14).collect();
        v.extend(big);
        let mut q = vec![];
        for i in &v {
            for f in ["$[#]", "$..[#]", "$[*][#]", "$[?@[#]]", "$[?@[#]==2]", "$[#,#,0]"] {
                q.push(f.replace('#', &i.to_string()));
            }
        }
        product(ctx, &prep_all(&q, set), &ds, set, asp);
    });
    ctx.suite("slices elsewhere", "slices over 5 values per bound in descendant segments, filters and lists x arrays in arrays", || {
        let vals = ["", "0", "1", "-1", "-2", "3"];
        let mut q = vec![];
        for a in vals {
            for b in vals {
                for c in vals {
                    let s = format!("{a}:{b}:{c}");
                    for f in ["$..[#]", "$[*][#]", "$[?@[#]]", "$[#,#]", "$[?count(@[#])>1]"] {
                        q.push(f.replace('#', &s));
                    }
                }
            }
        }
        product(ctx, &prep_all(&q, set), &ds[ds.len() - 4..], set, asp);
    });
    ctx.suite("large documents", "indices and slices around the limits x arrays and objects of 127 to 129, 255 to 257, 1023 to 1025 members, arrays of 65535 to 65537 (thorough: objects too, and to 131073), and documents nested 20 to 300 deep", || large(ctx, asp, |t| t.contains(':') || t.contains("[-") || t.ends_with("]")));
}

fn slices(ctx: &Ctx, set: &Set, work: &[(String, String)], steps: &[String], ds: &[Box<Doc>], asp: u32) {
    ctx.par(work, |(a, b)| {
        let mut q: Vec<String> = steps.iter().map(|c| format!("$[{a}:{b}:{c}]")).collect();
        q.push(format!("$[{a}:{b}]"));
        let qs = prep_all(&q, set);
        with_envs(|envs| {
            let s0 = jpmodel::eval::steps();
            let mut n = 0;
            for q in &qs {
                for d in ds {
                    let mut bad = vec![];
                    n += examine_eval(q, d, set, asp, envs, &mut bad).0;
                    if !bad.is_empty() {
                        report_eval(ctx, q, d, set, asp, bad);
                    }
                }
            }
            ctx.state((qs.len() * ds.len()) as u64);
            ctx.trans(jpmodel::eval::steps() - s0);
            ctx.trace(n);
        })
    });
    ctx.sample(|| format!("$[{}:{}:{}] on {}", work[work.len() / 2].0, work[work.len() / 2].1, steps[0], ds[3].v));
}

// ---------------------------------------------------------------------------------------
// Descendant segments

pub fn desc_queries() -> Vec<String> {
    let mut q = vec![];
    let b = bracket(false);
    for s in bracket(true) {
        q.push(format!("$..{s}"));
    }
    for x in &b {
        for y in &b {
            q.push(format!("$..{x}{y}"));
            q.push(format!("${x}..{y}"));
            q.push(format!("$..{x}..{y}"));
        }
    }
    for t in ["$..a", "$..*", "$..a..b", "$..*..*", "$.a..*.b", "$..[?@.a]", "$..[?@]", "$..[?@..a]", "$..[?@.a==1]", "$..[?count(@..*)>1]", "$..[?@.*]..a", "$..*..*..*", "$..[*,*]", "$..['a','a']", "$..[?@.a,?@.b]", "$..[?@==$..a]"] {
        if is_std(t) && Expect::of(t, Default::default(), &std_set().ps.funcs).valid() {
            q.push(t.into());
        }
    }
    q
}

pub fn c08(ctx: &Ctx, asp: u32) {
    let set = std_set();
    let t = ctx.thorough;
    ctx.suite("descendants", "one and two descendant or mixed segments over 8 selectors, all selector pairs x all documents of at most 5 nodes", || {
        product(ctx, &prep_all(&desc_queries(), set), &small(5), set, asp);
    });
    ctx.suite("sized queries", "all queries of up to 3 (thorough 4) of 7 selectors in child and descendant segments of one or two; all of 3 (4) elements over a vocabulary of everything, with a descendant segment x all documents of at most 3 nodes and 11 larger ones", || {
        let ds = sweep_docs();
        for (v, n) in [(&crate::gen::SEGS, 3), (&crate::gen::FULL, 3)] {
            let mut q = crate::gen::queries(v, n + t as usize, &set.ps.funcs);
            q.retain(|t| t.contains(".."));
            sweep(ctx, &q, &ds, set, asp);
        }
    });
    ctx.suite("longer lists", "all lists of three selectors, and 961 of four to nine, in descendant segments x all documents of at most 4 (thorough 5) nodes", || {
        product(ctx, &prep_all(&long_lists("$.."), set), &small(4 + t as usize), set, asp);
    });
    ctx.suite("equal parts", "queries with descendant segments x every document of at most 4 (thorough 5) nodes two to four times within ten others", || {
        product(ctx, &prep_all(&TWIN_QUERIES.iter().filter(|q| q.contains("..")).map(|s| s.to_string()).collect::<Vec<_>>(), set), &twins(4 + t as usize), set, asp);
    });
    ctx.suite("deeper documents", "18 descendant queries x all documents of at most 6 (thorough 7) nodes with one kind of leaf", || {
        let q: Vec<String> = ["$..*", "$..a", "$..[0]", "$..a..b", "$..*..*", "$..[0,'a']", "$..['b','a']", "$..[-1]", "$..[::-1]", "$.*..*", "$..*.*", "$..[?@.a]", "$..[?@..b]", "$..a[*]", "$..[*].a", "$..[*,0]", "$.a..*", "$[0]..*"].iter().map(|s| s.to_string()).collect();
        product(ctx, &prep_all(&q, set), &docs(docs::all(if t { 7 } else { 6 }, &[json!(1)], &["a", "b"])), set, asp);
    });
    ctx.suite("wide and deep documents", "descendant queries x 11 unusual and 6 large documents", || {
        let q: Vec<String> = ["$..*", "$..a", "$..[0]", "$..[?@.a]", "$..b[0]", "$..[0,1]", "$..a..b", "$..k", "$..[*,0]"].iter().map(|s| s.to_string()).collect();
        let mut v = docs::odd();
        for n in [1usize, 30, 100] {
            let mut d = json!(0);
            let mut e = json!({"a": 1});
            for i in 0..n {
                d = json!([d]);
                e = if i % 3 == 0 { json!({"b": e, "a": [i]}) } else { json!([i, e]) };
            }
            v.push(d);
            v.push(e);
        }
        product(ctx, &prep_all(&q, set), &docs(v), set, asp);
    });
    ctx.suite("large documents", "queries with descendant segments x arrays and objects of 127 to 129, 255 to 257, 1023 to 1025 members, arrays of 65535 to 65537 (thorough: objects too, and to 131073), and documents nested 20 to 300 deep", || large(ctx, asp, |t| t.contains("..")));
}

// ---------------------------------------------------------------------------------------
// Filters

/// Objects with every combination of a, b, c, d absent or present with a value that could
/// be mistaken for absent.
fn assignments(falsy: &[Value]) -> Vec<Value> {
    let ks = ["a", "b", "c", "d"];
    let mut out = vec![];
    let opts: Vec<Option<Value>> = std::iter::once(None).chain(falsy.iter().cloned().map(Some)).collect();
    let n = opts.len();
    for i in 0..n.pow(4) {
        let mut m = Map::new();
        let mut x = i;
        for k in ks {
            if let Some(v) = &opts[x % n] {
                m.insert(k.into(), v.clone());
            }
            x /= n;
        }
        out.push(Value::Object(m));
    }
    out
}

pub fn filter_texts() -> Vec<String> {
    let atoms = [
        "@", "@.a", "@.b", "@[0]", "@.*", "@..a", "@[0,1]", "@[?@.a]", "@[?@]", "$", "$.a", "$[0]", "$..b", "$[?@.a]", "@.a.b", "@[?@.a].b", "@[?$.a]", "@[?@==$.a]", "@[?@.a==$.b]",
        "@[?@[?@.a]]", "$[?@[?@==1]]", "@.a==1", "@.a==@.b", "@==1", "@.a=='a'", "@.a==null", "@[0]==$[0]", "@==$", "@.a!=1", "count(@.*)>1", "value(@.*)==1", "length(@)==1", "count($.*)==2",
        "count(@[?@.a])==1", "match(@.a,'a')", "search(@,'a')", "value(@..a)==$.a",
    ];
    let mut q = vec![];
    for a in atoms {
        let simple = !a.contains("==") && !a.contains("!=") && !a.contains(">1");
        q.push(format!("$[?{a}]"));
        q.push(format!("$[?!({a})]"));
        if simple {
            q.push(format!("$[?!{a}]"));
        }
        q.push(format!("$[?{a}&&@.a]"));
        q.push(format!("$[?@.b||{a}]"));
        q.push(format!("$[*][?{a}]"));
        q.push(format!("$..[?{a}]"));
        q.push(format!("$[?@[?{a}]]"));
        q.push(format!("$[?{a},0,?{a}]"));
    }
    for t in ["$[?@.a][?@.b]", "$[?@.a].a", "$[?@.a][0]", "$[?@.a]..*", "$.a[?@==$.b]", "$[?@.a==$.a].b", "$.*[?@.*]", "$[?@.a[?@.b[?@.a]]]", "$[?@[?@[?@]]]", "$[?$[?@.a]]", "$[?$[?@[?$.a]]]"] {
        q.push(t.into());
    }
    q.retain(|t| Expect::of(t, Default::default(), &std_set().ps.funcs).valid());
    q
}

pub fn c09(ctx: &Ctx, asp: u32) {
    let set = std_set();
    let t = ctx.thorough;
    ctx.suite("truth tables", "all logical trees with up to 3 (thorough 4) operands with redundant and missing parentheses x one array of all 16 assignments of four members, and its object form", || {
        let q: Vec<String> = tree_texts(3 + t as usize).iter().map(|e| format!("$[?{e}]")).collect();
        let a = assignments(&[json!(1)]);
        let mut o = Map::new();
        for (i, v) in a.iter().enumerate() {
            o.insert(format!("m{i}"), v.clone());
        }
        let mut ob = o.clone();
        ob.insert("b".into(), json!(false));
        let ds = docs(vec![Value::Array(a.clone()), Value::Object(o), Value::Object(ob)]);
        let jobs: Vec<&[String]> = q.chunks(64).collect();
        ctx.par(&jobs, |j| {
            let qs = prep_all(j, set);
            with_envs(|envs| {
                let s0 = jpmodel::eval::steps();
                let mut n = 0;
                for q in &qs {
                    for d in &ds {
                        let mut bad = vec![];
                        n += examine_eval(q, d, set, asp, envs, &mut bad).0;
                        if !bad.is_empty() {
                            report_eval(ctx, q, d, set, asp, bad);
                        }
                    }
                }
                ctx.state((qs.len() * ds.len()) as u64);
                ctx.trans(jpmodel::eval::steps() - s0);
                ctx.trace(n);
            })
        });
    });
    ctx.suite("sized queries", "all queries with filters of up to 3 (thorough 4) elements over a vocabulary of everything, of 4 (5) over filters, of 4 (5) over function calls x all documents of at most 3 nodes and 11 larger ones", || {
        let ds = sweep_docs();
        use crate::gen::*;
        for (v, n) in [(&FULL, 3), (&FILTERS, 4), (&FUNCS, 4)] {
            let mut q = queries(v, n + t as usize, &set.ps.funcs);
            q.retain(|t| t.contains('?'));
            sweep(ctx, &q, &ds, set, asp);
        }
    });
    ctx.suite("existence", "existence tests, negated and combined x all assignments of absent, null, false, 0, '', [], {} to four members (thorough; quick: three of them)", || {
        let f = [json!(null), json!(false), json!(0), json!(""), json!([]), json!({})];
        let q: Vec<String> = ["$[?@.a]", "$[?!@.a]", "$[?@.a&&@.b]", "$[?@.a||@.b]", "$[?!@.a&&!@.b]", "$[?!(@.a||@.b)]", "$[?@.a&&@.b||@.c&&@.d]", "$[?(@.a||@.b)&&(@.c||@.d)]", "$[?@['a','b']]", "$[?@.*]", "$[?!@.*]", "$[?@..c]", "$[?@.a==@.b]", "$[?@.a!=@.b]", "$[?@.a<=@.b]", "$[?@.a<@.b]", "$[?@.a==null]", "$[?@.a==false]", "$[?@.a==0]", "$[?@.a=='']", "$[?!(@.a==null)]"].iter().map(|s| s.to_string()).collect();
        let qs = prep_all(&q, set);
        let v: Vec<Value> = if t { assignments(&f) } else { assignments(&f[..3]).into_iter().chain(assignments(&f[3..])).collect() };
        let ds: Vec<Value> = v.chunks(64).map(|c| Value::Array(c.to_vec())).collect();
        product(ctx, &qs, &docs(ds), set, asp);
    });
    ctx.suite("filters on documents", "37 basic expressions, negated, combined, nested, in three kinds of segments x all documents of at most 4 (thorough 5) nodes with leaves 1, 'a', null, false", || {
        let l = vec![json!(1), json!("a"), json!(null), json!(false)];
        product(ctx, &prep_all(&filter_texts(), set), &docs(docs::all(4 + t as usize, &l, &["a", "b"])), set, asp);
        product(ctx, &prep_all(&filter_texts(), set), &docs(docs::odd()), set, asp);
    });
    ctx.suite("equal parts", "queries with filters x every document of at most 3 (thorough 4) nodes two to four times within ten others", || {
        let mut q: Vec<String> = TWIN_QUERIES.iter().filter(|q| q.contains('?')).map(|s| s.to_string()).collect();
        q.extend(filter_texts().into_iter().step_by(3));
        product(ctx, &prep_all(&q, set), &twins(3 + t as usize), set, asp);
    });
    ctx.suite("nested queries", "12 queries with @ and $ at two and three levels x all documents of at most 6 (7) nodes with leaf 1", || {
        let q: Vec<String> = ["$[?@[?@.a]]", "$[?@[?$.a]]", "$[?$[?@.a]]", "$[?@[?@[?@.a]]]", "$[?@[?@[?$[0]]]]", "$[?@.a[?@==$.a]]", "$[?@[?@==$[0]]]", "$[?count(@[?@.a])==1]", "$[?value(@[?@.a].a)==1]", "$[?@[?count($[?@.a])==1]]", "$[?@.a[?@.b]]", "$..[?@[?@==1]]"].iter().map(|s| s.to_string()).collect();
        product(ctx, &prep_all(&q, set), &docs(docs::all(6 + t as usize, &[json!(1)], &["a", "b"])), set, asp);
    });
    ctx.suite("large documents", "queries with filters x arrays and objects of 127 to 129, 255 to 257, 1023 to 1025 members, arrays of 65535 to 65537 (thorough: objects too, and to 131073), and documents nested 20 to 300 deep", || large(ctx, asp, |t| t.contains('?')));
}

// ---------------------------------------------------------------------------------------
// Comparisons

pub fn c10(ctx: &Ctx, asp: u32) {
    let set = std_set();
    let vals = docs::values();
    let mut opt: Vec<Option<Value>> = vals.into_iter().map(Some).collect();
    opt.push(None);
    // for every left value one document: all right values
    let mut ds = vec![];
    for l in &opt {
        let mut arr = vec![];
        for r in &opt {
            let mut m = Map::new();
            if let Some(l) = l {
                m.insert("l".into(), l.clone());
            }
            if let Some(r) = r {
                m.insert("r".into(), r.clone());
            }
            arr.push(Value::Object(m));
        }
        let mut m = Map::new();
        if let Some(l) = l {
            m.insert("k".into(), l.clone());
        }
        m.insert("v".into(), Value::Array(arr));
        ds.push(Value::Object(m));
    }
    let ds = docs(ds);
    ctx.suite("values", "67 values and nothing, all pairs, six operators, as members, root members, and results of value()", || {
        let mut q = vec![];
        for op in ["==", "!=", "<", "<=", ">", ">="] {
            for (a, b) in [("@.l", "@.r"), ("@.r", "@.l"), ("$.k", "@.r"), ("@['r']", "$['k']"), ("value(@.l)", "@.r"), ("@.r", "value(@.l)"), ("value(@.r)", "value($.k)"), ("@.l", "@.l"), ("@.x", "@.r"), ("@.r", "$.x"), ("$.v[0].r", "@.r")] {
                q.push(format!("$.v[?{a}{op}{b}]"));
                q.push(format!("$.v[?!({a}{op}{b})]"));
            }
        }
        product(ctx, &prep_all(&q, set), &ds, set, asp);
    });
    ctx.suite("literals", "40 literals on either side of six operators against 67 values and nothing, and against each other", || {
        let lits = [
            "null", "true", "false", "0", "-0", "1", "1.0", "-1", "1.5", "2", "10", "1e1", "1E+1", "100e-2", "1e300", "-1e300", "1e-7", "0.1", "0.3", "9007199254740991", "-9007199254740991", "''", "'a'", "\"a\"",
            "'A'", "'b'", "'ab'", "'1'", "'true'", "'null'", "'\u{e9}'", "'e\u{301}'", "'\\u00e9'", "'\\ud83d\\ude00'", "'\u{ffff}'", "'\u{d7ff}'", "'\u{e000}'", "'z'", "'a\\u0000'", "'\\\\'",
        ];
        let mut q = vec![];
        for l in lits {
            for op in ["==", "!=", "<", "<=", ">", ">="] {
                q.push(format!("$.v[?@.r{op}{l}]"));
                q.push(format!("$.v[?{l}{op}@.r]"));
                q.push(format!("$.v[?value(@.r){op}{l}]"));
                q.push(format!("$.v[?length(@.r){op}{l}]"));
            }
        }
        let qs = prep_all(&q, set);
        product(ctx, &qs, &ds[ds.len() - 1..], set, asp);
        let mut q = vec![];
        for a in lits {
            for b in lits {
                for op in ["==", "!=", "<", "<=", ">", ">="] {
                    q.push(format!("$[?{a}{op}{b}]"));
                }
            }
        }
        let one = docs(vec![json!([1])]);
        let jobs: Vec<&[String]> = q.chunks(100).collect();
        ctx.par(&jobs, |j| {
            with_envs(|envs| {
                for q in prep_all(j, set) {
                    let mut bad = vec![];
                    let s0 = jpmodel::eval::steps();
                    let n = examine_eval(&q, &one[0], set, asp, envs, &mut bad).0;
                    ctx.state(1);
                    ctx.trans(jpmodel::eval::steps() - s0);
                    ctx.trace(n);
                    report_eval(ctx, &q, &one[0], set, asp, bad);
                }
            })
        });
    });
    ctx.suite("sized queries", "all queries of up to 4 (thorough 5) elements over six operators, five literals, names, indices and calls x all documents of at most 3 nodes and 11 larger ones", || {
        let mut q = crate::gen::queries(&crate::gen::CMP, 4, &set.ps.funcs);
        if ctx.thorough {
            q.extend(crate::gen::queries(&crate::gen::Vocab { ops: &["==", "<="], lits: &["1"], ..crate::gen::CMP }, 5, &set.ps.funcs));
        }
        q.retain(|t| t.contains(['=', '<', '>']));
        sweep(ctx, &q, &sweep_docs(), set, asp);
    });
    ctx.suite("composite values", "== and != of all pairs of documents of at most 3 (thorough 4) nodes with leaves 1, 1.0, 2, 'a'", || {
        let all = docs::all(if ctx.thorough { 4 } else { 3 }, &[json!(1), json!(1.0), json!(2), json!("a")], &["a", "b"]);
        let q: Vec<String> = ["$.v[?@==$.k]", "$.v[?@!=$.k]", "$.v[?$.k==@]", "$.v[?@<=$.k]", "$.v[?@>$.k]"].iter().map(|s| s.to_string()).collect();
        let qs = prep_all(&q, set);
        let right = if ctx.thorough { docs::all(3, &[json!(1), json!(1.0), json!(2), json!("a")], &["a", "b"]) } else { all.clone() };
        let ds: Vec<Box<Doc>> = all.iter().map(|k| Doc::new(json!({"k": k, "v": right}))).collect();
        product(ctx, &qs, &ds, set, asp);
    });
    ctx.suite("one difference", "arrays, objects and strings of 1 to 40 (thorough 130) parts, and around 64, 128, 256 and 1000, against those with one part changed (at every position), missing, added or moved: six operators, both ways, as wholes and nested", || one_difference(ctx, asp));
    ctx.suite("every code point", "every code point and its successor, alone, before and after a letter, with U+FFFF, U+10000 and a letter: three operators (thorough: six)", || {
        let ops: &[&str] = if ctx.thorough { &["==", "!=", "<", "<=", ">", ">="] } else { &["<", "==", ">="] };
        let q: Vec<String> = ops.iter().map(|o| format!("$[?@.a{o}@.b]")).chain(["$[?@.a<'\u{e000}']".into()]).collect();
        let qs = prep_all(&q, set);
        let all: Vec<char> = (0..=0x10FFFFu32).filter_map(char::from_u32).collect();
        let w: Vec<&[char]> = all.chunks(1024).collect();
        ctx.par(&w, |cs| {
            let mut v = vec![];
            for &c in *cs {
                let n = char::from_u32(c as u32 + 1).unwrap_or('\u{e000}');
                if ctx.thorough {
                    v.push(json!({"a": c.to_string(), "b": n.to_string()}));
                    v.push(json!({"a": format!("a{c}"), "b": format!("a{n}")}));
                }
                v.push(json!({"a": format!("{c}b"), "b": format!("{n}a")}));
                v.push(json!({"a": format!("{c}b"), "b": c.to_string()}));
                v.push(json!({"a": c.to_string(), "b": "\u{ffff}"}));
                v.push(json!({"a": c.to_string(), "b": "\u{10000}"}));
                if ctx.thorough {
                    v.push(json!({"a": c.to_string(), "b": "b"}));
                }
            }
            let d = Doc::new(json!(v));
            with_envs(|envs| {
                let s0 = jpmodel::eval::steps();
                for q in &qs {
                    let mut bad = vec![];
                    let n = examine_eval(q, &d, set, asp, envs, &mut bad).0;
                    ctx.state(1);
                    ctx.trace(n);
                    report_eval(ctx, q, &d, set, asp, bad);
                }
                ctx.trans(jpmodel::eval::steps() - s0);
            });
        });
        ctx.sample(|| format!("{} on {:?}", q[1], &all[5000..5002]));
    });
    ctx.suite("big integers", "integers up to 64 bits, signed and unsigned, where their order as doubles is their order: all pairs, six operators", || {
        let nums: Vec<Value> = [i64::MIN, -(1 << 62), -(1 << 53), -1, 0, 1, 1 << 53, 1 << 60, 1 << 62].iter().map(|x| json!(x)).chain([json!(u64::MAX), json!(1u64 << 63), json!((1u64 << 63) + 4096), json!(1.5), json!(1e19), json!(2e19), json!(-1e19)]).collect();
        let mut ds = vec![];
        for k in &nums {
            ds.push(json!({"k": k, "v": nums, "w": [nums, {"a": k}]}));
        }
        let mut q = vec![];
        for op in ["==", "!=", "<", "<=", ">", ">="] {
            q.push(format!("$.v[?@{op}$.k]"));
            q.push(format!("$.v[?$.k{op}@]"));
            q.push(format!("$[?@{op}$.v]"));
            for l in ["0", "1e19", "-1e19", "9223372036854775807e0", "1"] {
                q.push(format!("$.v[?@{op}{l}]"));
            }
        }
        product(ctx, &prep_all(&q, set), &docs(ds), set, asp);
    });
}

/// Values that are nearly the same.
fn one_difference(ctx: &Ctx, asp: u32) {
    let set = std_set();
    let mut ns: Vec<usize> = (1..=if ctx.thorough { 130 } else { 40 }).collect();
    ns.extend([63, 64, 65, 127, 128, 129, 255, 256, 257, 999, 1000, 1001]);
    ns.sort();
    ns.dedup();
    let mut ds = vec![];
    for n in ns {
        let at: Vec<usize> = if n <= 130 { (0..n).collect() } else { vec![0, 1, 2, 7, 8, 9, 31, 32, 63, 64, 127, 128, n / 2, n - 2, n - 1] };
        let base: Vec<Value> = (0..n).map(|i| json!(i)).collect();
        let obj = |f: &dyn Fn(usize) -> Option<(String, Value)>| Value::Object((0..n).filter_map(f).collect());
        let mut kinds: Vec<(Value, Vec<Value>)> = vec![];
        // arrays of numbers
        let mut v = vec![Value::Array(base.clone())];
        for k in &at {
            let mut x = base.clone();
            x[*k] = json!(-7);
            v.push(Value::Array(x.clone()));
            x.remove(*k);
            v.push(Value::Array(x));
        }
        let mut x = base.clone();
        x.push(json!(0));
        v.push(Value::Array(x));
        let mut x = base.clone();
        x.reverse();
        v.push(Value::Array(x));
        let mut x = base.clone();
        x.rotate_left(1);
        v.push(Value::Array(x));
        kinds.push((Value::Array(base.clone()), v));
        // objects
        let full = obj(&|i| Some((format!("k{i}"), json!(i))));
        let mut v = vec![full.clone(), json!(base)];
        for k in &at {
            v.push(obj(&|i| Some((format!("k{i}"), if i == *k { json!(null) } else { json!(i) }))));
            v.push(obj(&|i| Some((format!("{}{i}", if i == *k { "j" } else { "k" }), json!(i)))));
            v.push(obj(&|i| if i == *k { None } else { Some((format!("k{i}"), json!(i))) }));
        }
        v.push(Value::Object((0..n + 1).map(|i| (format!("k{i}"), json!(i))).collect()));
        v.push(Value::Object((0..n).rev().map(|i| (format!("k{i}"), json!(i))).collect()));
        kinds.push((full, v));
        // strings
        let s: String = (0..n).map(|i| (b'b' + (i % 20) as u8) as char).collect();
        let mut v = vec![json!(s), json!(format!("{s}a")), json!(s[1..])];
        for k in &at {
            for c in ["a", "z", "\u{e9}", ""] {
                v.push(json!(format!("{}{c}{}", &s[..*k], &s[k + 1..])));
            }
            v.push(json!(s[..*k]));
        }
        kinds.push((json!(s), v));
        // nested
        if n <= 40 {
            let nest = |last: Value, m: usize| (0..m).fold(last, |x, i| if i % 2 == 0 { json!([i, x]) } else { json!({"a": x, "b": i}) });
            kinds.push((nest(json!(1), n), vec![nest(json!(1), n), nest(json!(2), n), nest(json!(1), n - 1), nest(json!(1), n + 1), nest(json!([1]), n), nest(json!(1.0), n)]));
            // of one kind only, and with the same number of members at every level
            let bottoms = [json!(1), json!(2), json!(1.0), json!("1"), json!(null), json!([]), json!({}), json!([1]), json!({"a": 1}), json!([1, 2])];
            let shells: [fn(Value, usize) -> Value; 5] = [
                |x, _| json!([x]),
                |x, _| json!({"a": x}),
                |x, i| if i % 2 == 0 { json!([x]) } else { json!({"a": x}) },
                |x, _| json!([0, x]),
                |x, _| json!({"a": x, "b": [x]}),
            ];
            for (si, sh) in shells.iter().enumerate() {
                let n = if si == 4 { n.min(7) } else { n };
                let wrap = |b: &Value, m: usize| (0..m).fold(b.clone(), |x, i| sh(x, i));
                for k in [0, 5, 6] {
                    let mut v = vec![];
                    for b in &bottoms {
                        v.push(wrap(b, n));
                    }
                    v.push(wrap(&bottoms[k], n - 1));
                    v.push(wrap(&bottoms[k], n + 1));
                    // another kind, name or neighbour at one level
                    if si != 4 {
                        for at in (0..n).filter(|a| n <= 12 || a % 5 == n % 5) {
                            for o in 0..4 {
                                v.push((0..n).fold(bottoms[k].clone(), |x, i| {
                                    if i != at {
                                        return sh(x, i);
                                    }
                                    match o {
                                        0 => json!([x]),
                                        1 => json!({"a": x}),
                                        2 => json!({"b": x}),
                                        _ => json!([1, x]),
                                    }
                                }));
                            }
                        }
                    }
                    kinds.push((wrap(&bottoms[k], n), v));
                }
            }
        }
        for (k, mut v) in kinds {
            if n > 130 {
                v.truncate(60);
            }
            ds.push(json!({"v": v, "k": k, "w": [v.last().unwrap()]}));
        }
    }
    let mut q = vec![];
    for op in ["==", "!=", "<", "<=", ">", ">="] {
        q.push(format!("$.v[?@{op}$.k]"));
        q.push(format!("$.v[?$.k{op}@]"));
        q.push(format!("$.v[?value($.k){op}@]"));
    }
    q.push("$[?@==$.k]".into());
    q.push("$[?@!=$.v]".into());
    q.push("$[?@[0]==$.v[0]]".into());
    product(ctx, &prep_all(&q, set), &docs(ds), set, asp);
}

// ---------------------------------------------------------------------------------------
// Functions on values and nodes

pub fn c13(ctx: &Ctx, asp: u32) {
    let set = std_set();
    let t = ctx.thorough;
    ctx.suite("functions on documents", "length, count, value with 14 kinds of queries, compared with 0..3, with each other, nested x all documents of at most 4 (thorough 5) nodes", || {
        let mut q = vec![];
        for a in ["@", "@.a", "@[0]", "$", "$.b", "$[0]"] {
            for k in ["0", "1", "2", "3", "@.b", "$[1]", "'a'"] {
                q.push(format!("$[?length({a})=={k}]"));
            }
            q.push(format!("$[?length({a})>=1]"));
            q.push(format!("$[?length({a})!=1]"));
            q.push(format!("$[?length({a})==length(@)]"));
            q.push(format!("$[?length({a})==count(@.*)]"));
            q.push(format!("$[?length(value({a}))==length({a})]"));
            q.push(format!("$[?!(length({a})<2)]"));
        }
        for a in ["@", "@.a", "@.*", "@..*", "@..a", "@[0,0]", "@['a','b']", "@[1:]", "@[?@.a]", "$", "$.*", "$..b", "@.*.*", "@[?@==1]"] {
            for k in ["0", "1", "2", "3"] {
                q.push(format!("$[?count({a})=={k}]"));
            }
            q.push(format!("$[?count({a})>=2]"));
            q.push(format!("$[?value({a})==1]"));
            q.push(format!("$[?value({a})=='a']"));
            q.push(format!("$[?value({a})==$.a]"));
            q.push(format!("$[?value({a})==@.x]"));
            q.push(format!("$[?length(value({a}))==1]"));
            q.push(format!("$[?value({a})==value(@.*)]"));
            q.push(format!("$..[?count({a})==count($.*)]"));
        }
        product(ctx, &prep_all(&q, set), &small(4 + t as usize), set, asp);
        product(ctx, &prep_all(&q, set), &docs(docs::odd()), set, asp);
    });
    ctx.suite("sized queries", "all queries of up to 5 (thorough 6) elements over calls of the standard functions x all documents of at most 3 nodes and 11 larger ones", || {
        let mut q = crate::gen::queries(&crate::gen::FUNCS, 5 + t as usize, &set.ps.funcs);
        q.retain(|t| t.contains("length(") || t.contains("count(") || t.contains("value("));
        sweep(ctx, &q, &sweep_docs(), set, asp);
    });
    ctx.suite("lengths of strings", "strings of up to 3 (thorough 4) of 8 characters of 1 to 4 bytes, with and without combining ones, as values and literals", || {
        let cs = ["a", "\u{e9}", "e\u{301}", "\u{4e00}", "\u{1F600}", "\u{0}", "\u{1F468}\u{200d}\u{1F469}", "\u{ffff}"];
        let mut v = vec![String::new()];
        let mut l = v.clone();
        for _ in 0..(3 + t as usize) {
            l = l.iter().flat_map(|s| cs.iter().map(move |c| format!("{s}{c}"))).collect();
            v.extend(l.iter().cloned());
        }
        let ds: Vec<Value> = v.chunks(64).map(|c| json!(c)).collect();
        let q: Vec<String> = (0..=12).map(|k| format!("$[?length(@)=={k}]")).chain(["$[?length(@)>length($[1])]".into(), "$[?length(value(@))==length(@)]".into()]).collect();
        product(ctx, &prep_all(&q, set), &docs(ds), set, asp);
        let lits: Vec<String> = v.iter().take(600).map(|s| format!("$[?length({})==@]", jpmodel::render::quoted(s))).collect();
        product(ctx, &prep_all(&lits, set), &docs(vec![json!([0, 1, 2, 3, 4, 5, 6, 7, 8, 9])]), set, asp);
    });
    ctx.suite("every code point", "length of every code point on its own, after and before another character, and of every two neighbouring ones", || {
        let all: Vec<char> = (0..=0x10FFFFu32).filter_map(char::from_u32).collect();
        let q: Vec<String> = ["$[?length(@)!=1]", "$[?length(@)==2]"].iter().map(|s| s.to_string()).collect();
        let qs = prep_all(&q, set);
        let w: Vec<&[char]> = all.chunks(2048).collect();
        ctx.par(&w, |cs| {
            let mut v: Vec<String> = vec![];
            for (i, c) in cs.iter().enumerate() {
                v.push(c.to_string());
                v.push(format!("a{c}"));
                v.push(format!("{c}e"));
                if i > 0 {
                    v.push(format!("{}{c}", cs[i - 1]));
                }
            }
            let d = Doc::new(json!(v));
            with_envs(|envs| {
                for q in &qs {
                    let mut bad = vec![];
                    let s0 = jpmodel::eval::steps();
                    let n = examine_eval(q, &d, set, asp, envs, &mut bad).0;
                    ctx.state(1);
                    ctx.trans(jpmodel::eval::steps() - s0);
                    ctx.trace(n);
                    report_eval(ctx, q, &d, set, asp, bad);
                }
            });
        });
        ctx.sample(|| format!("{} on {:?}", q[0], &all[5000..5003]));
    });
    ctx.suite("every kind of value", "length, count and value of 67 values and nothing", || {
        let vals = docs::values();
        let d = docs(vec![json!(vals), json!({"v": vals, "a": vals[40]}), json!(vals.iter().map(|v| json!({"a": v})).collect::<Vec<_>>()), json!([[], {}, [[]], "", {"a": 1, "b": 2}])]);
        let mut q = vec![];
        for f in ["length(@)", "length(@.a)", "length(@[0])", "value(@)", "value(@.a)", "value(@.*)", "count(@.*)", "count(@..*)", "length(value(@.*))", "length(null)", "length(true)", "length(1)", "length('ab')", "length(\"\u{1F600}\")"] {
            for c in ["==0", "==1", "==2", "==3", "!=1", "<2", ">=1", "=='a'", "==null", "==true", "==@.x", "!=@.x", "<=@.x", "==1.5", "==@.a"] {
                q.push(format!("$[?{f}{c}]"));
                q.push(format!("$.v[?{f}{c}]"));
            }
        }
        product(ctx, &prep_all(&q, set), &d, set, asp);
    });
    ctx.suite("large documents", "length and count compared with numbers around the limits x arrays and objects of 127 to 129, 255 to 257, 1023 to 1025 members, arrays of 65535 to 65537 (thorough: objects too, and to 131073), and documents nested 20 to 300 deep", || large(ctx, asp, |t| t.contains('(')));
}

// ---------------------------------------------------------------------------------------
// Large documents

/// Documents that are wider than a byte, 1024, 4096 or 16 bits can count, or deep.
pub fn large_docs(thorough: bool) -> Vec<(String, Value)> {
    let mut v = vec![];
    let mut ns = vec![127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 65535, 65536, 65537];
    if thorough {
        ns.extend([31, 32, 33, 63, 64, 65, 511, 512, 513, 2047, 2048, 2049, 4095, 4096, 4097, 32767, 32768, 32769, 100000, 131073]);
    }
    for n in ns {
        v.push((format!("array {n}"), Value::Array((0..n).map(|i| json!(i)).collect())));
        if n < 2000 || thorough {
            v.push((format!("nested array {n}"), Value::Array((0..n).map(|i| if i % 2 == 0 { json!([i, [i]]) } else { json!({"a": i, "b": [i]}) }).collect())));
            v.push((format!("object {n}"), Value::Object((0..n).map(|i| (format!("k{i}"), json!([i]))).collect())));
        }
        if n < 2000 || thorough || n == 65536 {
            v.push((format!("in an object {n}"), json!({"a": Value::Array((0..n).map(|i| json!({"a": i})).collect()), "b": Value::Array(vec![json!({"b": n}); 3])})));
        }
    }
    for n in [20, 32, 63, 64, 65, 100, 110, 127, 128, 129, 200, 256, 300] {
        let (mut a, mut b, mut c) = (json!(1), json!({"a": 1}), json!([1]));
        for i in 0..n {
            a = json!([a]);
            b = json!({"a": b, "b": i});
            c = if i % 2 == 0 { json!({"a": c}) } else { json!([i, c]) };
        }
        v.push((format!("deep array {n}"), a));
        v.push((format!("deep object {n}"), b));
        v.push((format!("deep mixture {n}"), c));
    }
    v
}

fn large_texts(kind: &str, n: usize) -> Vec<String> {
    let m = n as i64;
    let mut q: Vec<String> = vec!["$.*".into(), "$..*".into(), "$..a".into(), "$[?@]".into(), "$..[0]".into(), "$..[-1]".into(), "$[::-1]".into(), "$.a.*".into(), "$.*.*".into(), "$..[?@.a]".into(), "$..b[0]".into()];
    if kind.starts_with("deep") {
        for k in [1, 2, 31, 32, 33, 63, 64, 65, 99, 100, 101, n - 1, n, n + 1] {
            q.push(format!("${}", ".*".repeat(k)));
            q.push(format!("${}", "[0]".repeat(k)));
            q.push(format!("${}", ".a".repeat(k)));
            q.push(format!("${}", "['a',1]".repeat(k)));
        }
        return q;
    }
    for i in [0, 1, m / 2, 254, 255, 256, 65534, 65535, 65536, m - 2, m - 1, m, m + 1] {
        q.push(format!("$[{i}]"));
        q.push(format!("$[{}]", -i));
        q.push(format!("$..[{i}]"));
        q.push(format!("$.a[{}].a", -i));
        q.push(format!("$['k{i}']"));
        q.push(format!("$[?@=={i}]"));
        q.push(format!("$[?@[0]>={i}]"));
        q.push(format!("$[{}:{}]", i - 2, i + 2));
        q.push(format!("$[{}:{}:-1]", i + 2, i - 2));
        q.push(format!("$[{}::7]", i - 20));
        q.push(format!("$[::{}]", i.max(9)));
        q.push(format!("$[::{}]", -i.max(11)));
    }
    // numbers of nodes, and lengths
    let w = [format!("{}", m - 1), format!("{m}"), format!("{}", m + 1), "0".into(), format!("{}", m % 256), format!("{}", m % 65536)];
    for x in w {
        q.push(format!("$[?length(@)=={x}]"));
        q.push(format!("$[?count(@.*)=={x}]"));
        if n < 2000 {
            q.push(format!("$.b[?length($.a)=={x}]"));
            q.push(format!("$.b[?count($..a)>{x}]"));
            q.push(format!("$.b[?@.b=={x}]"));
        }
    }
    q
}

/// Every engine on large documents.
pub fn large(ctx: &Ctx, asp: u32, pick: fn(&str) -> bool) {
    let set = std_set();
    let ds: Vec<(String, Box<Doc>)> = large_docs(ctx.thorough).into_iter().map(|(n, v)| (n, Doc::new(v))).collect();
    let mut jobs: Vec<(usize, String)> = vec![];
    for (i, (name, _)) in ds.iter().enumerate() {
        let n: usize = name.rsplit(' ').next().unwrap().parse().unwrap();
        let mut seen = std::collections::HashSet::new();
        for t in large_texts(name, n) {
            if pick(&t) && seen.insert(t.clone()) {
                jobs.push((i, t));
            }
        }
    }
    jobs.sort_by_key(|(i, _)| std::cmp::Reverse(ds[*i].1.at.len()));
    ctx.par(&jobs, |(i, t)| {
        let q = prep(t, set);
        with_envs(|envs| {
            let mut bad = vec![];
            let (n, p) = examine_eval(&q, &ds[*i].1, set, asp, envs, &mut bad);
            ctx.state(1);
            ctx.trace(n);
            ctx.trans(p.max(1));
            for x in bad {
                ctx.fail(Violation { kind: "large", who: x.who.name().into(), what: x.what.into(), input: format!("{t} on the document \"{}\"", ds[*i].0), data: json!({"text": t, "document": ds[*i].0, "aspects": asp}), msg: x.msg });
            }
        });
    });
    ctx.sample(|| format!("{} on the document {:?}", jobs[jobs.len() / 2].1, ds[jobs[jobs.len() / 2].0].0));
}

pub fn replay_large(d: &Value) -> Vec<String> {
    let name = d["document"].as_str().unwrap();
    let Some((_, v)) = large_docs(true).into_iter().find(|x| x.0 == name) else { return vec!["no such document".into()] };
    let q = prep(d["text"].as_str().unwrap(), std_set());
    let doc = Doc::new(v);
    let mut bad = vec![];
    with_envs(|e| examine_eval(&q, &doc, std_set(), d["aspects"].as_u64().unwrap() as u32, e, &mut bad));
    bad.into_iter().map(|b| format!("{} {}: {}", b.who.name(), b.what, b.msg)).collect()
}
