//! Paths, agreement of the engines, regular expressions, history, totality, extensions.
use crate::adapt::*;
use crate::docs;
use crate::evals::*;
use crate::evalx::*;
use crate::report::*;
use crate::syntax::*;
use jpmodel::eval;
use jpmodel::path::{normalized, Step};
use serde_json::{json, Map, Value};

fn small(n: usize) -> Vec<Box<Doc>> {
    docs(docs::all(n, &[json!(1), json!("a"), json!(null)], &["a", "b"]))
}

fn strs(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}

// ---------------------------------------------------------------------------------------
// Paths

pub fn c11(ctx: &Ctx) {
    let set = std_set();
    let t = ctx.thorough;
    let asp = PATH;
    ctx.suite("paths of child and descendant queries", "all one- and two-segment queries, child and descendant, over 8 selectors, pairs of selectors x all documents of at most 4 (thorough 5) nodes", || {
        let ds = small(4 + t as usize);
        product(ctx, &prep_all(&child_queries(false), set), &ds, set, asp);
        product(ctx, &prep_all(&desc_queries(), set), &ds, set, asp);
    });
    ctx.suite("paths of filter queries", "filters in three kinds of segments x all documents of at most 3 (thorough 4) nodes with four leaves", || {
        let l = vec![json!(1), json!("a"), json!(null), json!(false)];
        product(ctx, &prep_all(&filter_texts(), set), &docs(docs::all(3 + t as usize, &l, &["a", "b"])), set, asp);
    });
    ctx.suite("paths of sized queries", "all queries of up to 3 (thorough 4) of 7 selectors in child and descendant segments; of 3 (4) elements over a vocabulary of everything x all documents of at most 3 nodes and 11 larger ones", || {
        for v in [&crate::gen::SEGS, &crate::gen::FULL] {
            sweep(ctx, &crate::gen::queries(v, 3 + t as usize, &set.ps.funcs), &sweep_docs(), set, asp);
        }
    });
    ctx.suite("pairs of names", "every one of 96 names that could be taken for another of them, in five queries x documents with every other name, with all of them, and with all but one", || name_pairs(ctx, asp));
    ctx.suite("equal parts", "42 queries x every document of at most 3 (thorough 4) nodes two to four times within ten others", || {
        product(ctx, &prep_all(&strs(TWIN_QUERIES), set), &twins(3 + t as usize), set, asp);
    });
    ctx.suite("paths of slices", "all slices with bounds and steps over 9 values x arrays of length 0..6 and 12 in two positions", || {
        let vals = ["", "0", "1", "-1", "2", "-2", "5", "-7", "100"];
        let mut q = vec![];
        for a in vals {
            for b in vals {
                for c in vals {
                    q.push(format!("$[{a}:{b}:{c}]"));
                    q.push(format!("$..[{a}:{b}:{c}]"));
                }
            }
        }
        let ds: Vec<Value> = [0, 1, 2, 3, 4, 5, 6, 12].iter().map(|k| Value::Array((0..*k).map(|i| json!([i])).collect())).collect();
        product(ctx, &prep_all(&q, set), &docs(ds), set, asp);
    });
    ctx.suite("odd names", "unusual names and shapes, selected in every way", || {
        let mut q = odd_names();
        q.extend(strs(&["$", "$.*", "$[*]", "$..*", "$..[?@]", "$[?@]", "$[?@>=0]", "$..[?@==@]", "$[?count(@)==1]", "$[::-1]", "$..[1:]"]));
        product(ctx, &prep_all(&q, set), &docs(docs::odd()), set, asp);
    });
    ctx.suite("every code point in a name", "members named by each code point, alone, doubled and after a letter; their paths in all engines", || {
        let cps = 0..=0x10FFFFu32;
        let cs: Vec<char> = cps.filter_map(char::from_u32).collect();
        let chunks: Vec<&[char]> = cs.chunks(64).collect();
        let qs = prep_all(&strs(&["$.*", "$..*", "$[?@]", "$[?@.x].x"]), set);
        ctx.par(&chunks, |c| {
            let mut m = Map::new();
            for c in c.iter() {
                m.insert(c.to_string(), json!({"x": 1}));
                m.insert(format!("{c}{c}"), json!(2));
                m.insert(format!("a{c}"), json!([3]));
            }
            let d = Doc::new(Value::Object(m));
            with_envs(|envs| {
                for q in &qs {
                    let mut bad = vec![];
                    let (n, p) = examine_eval(q, &d, set, PATH, envs, &mut bad);
                    ctx.state(1);
                    ctx.trans(p);
                    ctx.trace(n);
                    report_eval(ctx, q, &d, set, PATH, bad);
                }
            });
        });
    });
    ctx.suite("reading paths back", "for every node of all documents of at most 5 nodes, of the odd ones, and of one member per code point below 0x300 and at the boundaries: its path is a query that selects it alone, and displays as itself", || {
        let mut ds = docs(docs::all(5, &[json!(1)], &["a", "'"]));
        ds.extend(docs(docs::odd()));
        let mut cps: Vec<u32> = (0..0x300).collect();
        cps.extend([0x2028, 0xD7FF, 0xE000, 0xFFFE, 0xFFFF, 0x1F600, 0x10FFFF]);
        let mut m = Map::new();
        for c in cps.iter().filter_map(|c| char::from_u32(*c)) {
            m.insert(format!("{c}"), json!([c.to_string()]));
            m.insert(format!("b{c}\\{c}'"), json!({c.to_string(): 1}));
        }
        ds.push(Doc::new(Value::Object(m)));
        ctx.par(&ds, |d| {
            with_envs(|envs| {
                for (ptr, steps) in &d.at {
                    read_back(ctx, d, *ptr, steps, envs);
                }
            })
        });
    });
    ctx.suite("large documents", "150 queries of every kind x arrays and objects of 127 to 129, 255 to 257, 1023 to 1025 members, arrays of 65535 to 65537 (thorough: objects too, and to 131073), and documents nested 20 to 300 deep", || large(ctx, PATH, |_| true));
}

fn read_back(ctx: &Ctx, d: &Doc, ptr: *const Value, steps: &[Step], envs: &Envs) {
    let set = std_set();
    let text = normalized(steps);
    let q = prep(&text, set);
    ctx.state(1);
    ctx.trans(steps.len() as u64);
    let mut bad = vec![];
    for e in ENGINES {
        ctx.trace(1);
        match q.c.run(e, &d.v, envs) {
            Ok(v) if v.len() == 1 && v[0].ptr == ptr && v[0].path == text => {}
            Ok(v) => bad.push(Bad { who: e, what: "path-does-not-select-the-node", msg: format!("{text} selects {:?}", v.iter().map(|n| &n.path).collect::<Vec<_>>()) }),
            Err(m) => bad.push(Bad { who: e, what: "path-is-not-a-query", msg: m }),
        }
    }
    for (e, s) in [
        (Ex::Find, q.c.serde.as_ref().map(|q| q.to_string())),
        (Ex::Iter, q.c.iter.as_ref().map(|q| q.to_string())),
        (Ex::Loc, q.c.loc.as_ref().map(|q| q.to_string())),
        (Ex::Sing, q.c.sing.as_ref().map(|q| q.to_string())),
    ] {
        if let Ok(s) = s {
            if s != text {
                bad.push(Bad { who: e, what: "path-displays-differently", msg: format!("{text} as {s}") });
            }
        }
    }
    if !bad.is_empty() {
        report_eval(ctx, &q, d, set, NODES | PATH, bad);
    }
}

// ---------------------------------------------------------------------------------------
// Agreement of the engines

pub fn c12(ctx: &Ctx) {
    let set = std_set();
    let t = ctx.thorough;
    let asp = AGREE | LAZY;
    ctx.suite("segments", "all one- and two-segment queries over 8 selectors, child, descendant and mixed x all documents of at most 4 (thorough 5) nodes", || {
        let ds = small(4 + t as usize);
        product(ctx, &prep_all(&child_queries(false), set), &ds, set, asp);
        product(ctx, &prep_all(&desc_queries(), set), &ds, set, asp);
    });
    ctx.suite("filters", "filters in three kinds of segments, nested ones, functions x all documents of at most 3 (4) nodes with four leaves, and the odd ones", || {
        let l = vec![json!(1), json!("a"), json!(null), json!(false)];
        let qs = prep_all(&filter_texts(), set);
        product(ctx, &qs, &docs(docs::all(3 + t as usize, &l, &["a", "b"])), set, asp);
        product(ctx, &qs, &docs(docs::odd()), set, asp);
    });
    ctx.suite("sized queries", "all queries of up to 3 (thorough 4) elements over a vocabulary of everything and over segments, of 4 (5) over filters and over function calls x all documents of at most 3 nodes and 11 larger ones", || {
        use crate::gen::*;
        for (v, n) in [(&FULL, 3), (&SEGS, 3), (&FILTERS, 4), (&FUNCS, 4)] {
            sweep(ctx, &queries(v, n + t as usize, &set.ps.funcs), &sweep_docs(), set, asp);
        }
    });
    ctx.suite("pairs of names", "every one of 96 names that could be taken for another of them, in five queries x documents with every other name, with all of them, and with all but one", || name_pairs(ctx, asp));
    ctx.suite("equal parts", "42 queries x every document of at most 3 (thorough 4) nodes two to four times within ten others", || {
        product(ctx, &prep_all(&strs(TWIN_QUERIES), set), &twins(3 + t as usize), set, asp);
    });
    ctx.suite("odd names and shapes", "unusual names, long and deep documents", || {
        product(ctx, &prep_all(&odd_names(), set), &docs(docs::odd()), set, asp);
        product(ctx, &prep_all(&strs(&["$..*", "$..[?@.a]", "$..a..b", "$..[0,1]"]), set), &docs(docs::odd()), set, asp);
    });
    ctx.suite("slices", "all slices over 8 values per bound x arrays of length 0..6", || {
        let vals = ["", "0", "1", "-1", "2", "-2", "7", "-9007199254740991"];
        let mut q = vec![];
        for a in vals {
            for b in vals {
                for c in vals {
                    q.push(format!("$[{a}:{b}:{c}]"));
                }
            }
        }
        let ds: Vec<Value> = (0..7).map(|k| Value::Array((0..k).map(|i| json!(i)).collect())).collect();
        product(ctx, &prep_all(&q, set), &docs(ds), set, asp);
    });
    ctx.suite("values", "six comparison operators on all pairs of 64 values, regular expressions, lengths", || {
        let v = docs::values();
        let mut q = vec![];
        for op in ["==", "!=", "<", "<=", ">", ">="] {
            for f in ["@#$.k", "$.k#@", "@#1", "'a'#@", "@.a#$.k.a", "length(@)#1", "value(@.*)#$.k", "count(@.*)#1", "@#null", "@#1.5"] {
                q.push(format!("$.v[?{}]", f.replace('#', op)));
            }
        }
        q.extend(strs(&["$.v[?match(@,'a.*')]", "$.v[?search(@,'a')]", "$.v[?match(@,$.k)]", "$.v[?search($.k,@)]", "$.v[?match(@,'[')]", "$.v[?!search(@,'\\\\d')]"]));
        let ds: Vec<Box<Doc>> = v.iter().map(|k| Doc::new(json!({"k": k, "v": v}))).collect();
        product(ctx, &prep_all(&q, set), &ds, set, asp);
    });
    ctx.suite("entry points", "the crates' own find functions and their environments' find methods agree with parsing and evaluating separately: corpus queries, valid and not x 12 documents", || {
        let mut texts: Vec<String> = CORPUS.iter().map(|s| s.to_string()).collect();
        texts.extend(filter_texts());
        texts.extend(odd_names());
        texts.extend(strs(&["", "$.", "$[", "$[?@.a==]", "$[?nope(@)]", "$[?count(1)==1]", "$[?length(@.*)==1]", "$[9007199254740992]", " $", "$ ", "a", "$[$.a]", "$['\\x']", "$[?'a']", "$[?@==1||]"]));
        let mut ds = docs(docs::odd());
        ds.push(Doc::new(json!({"a": [1, {"b": 2, "a": "x"}], "b": {"c": null, "a": 1}, "c": "a"})));
        ctx.par(&texts, |t| {
            for d in &ds {
                entry_points(ctx, t, d);
            }
        });
    });
    ctx.suite("entry points of texts with more around them", "the same with each of 24 characters and sequences before and after 40 queries", || {
        let mut texts = vec![];
        for t in CORPUS.iter().step_by(3).copied().chain(["$", "$.a", "$.*", "$..a", "$['a']", "$[0]", "$[?@.a]", "$[?@.a==1]", "$.a.a"]) {
            for x in [" ", "\n", "\r", "\t", "\r\n", "\n\n", "\u{feff}", "\u{0}", "\u{b}", "\u{c}", "\u{a0}", "\u{2028}", "\u{3000}", "\u{200b}", ";", ",", ".", "#", "//", "\"", "'", "`", "$", "\\n"] {
                texts.push(format!("{x}{t}"));
                texts.push(format!("{t}{x}"));
                texts.push(format!("{x}{t}{x}"));
            }
        }
        let ds = docs(vec![json!({"a": [1, {"b": 2, "a": "x"}], "b": {"c": null, "a": 1}, "c": "a"})]);
        ctx.par(&texts, |t| {
            for d in &ds {
                entry_points(ctx, t, d);
            }
        });
    });
    ctx.suite("large documents", "150 queries of every kind x arrays and objects of 127 to 129, 255 to 257, 1023 to 1025 members, arrays of 65535 to 65537 (thorough: objects too, and to 131073), and documents nested 20 to 300 deep", || large(ctx, AGREE | LAZY, |_| true));
}

fn entry_points(ctx: &Ctx, text: &str, d: &Doc) {
    type R = Result<Vec<(*const Value, String)>, ()>;
    crate::watch::begin(4, 0, "std", text, &d.text);
    let ps = &std_set().ps;
    let c = Compiled::new(ps, text);
    ctx.state(1);
    with_envs(|envs| {
        let want = |e: Ex| -> R {
            match c.run(e, &d.v, envs) {
                Ok(v) => Ok(v.into_iter().map(|n| (n.ptr, n.path)).collect()),
                Err(_) => Err(()),
            }
        };
        macro_rules! owned {
            ($call:expr, $n:ident, $path:expr) => {{
                let r = guarded(|| match $call {
                    Ok(v) => Ok(v.into_iter().map(|$n| ($n.value as *const Value, $path)).collect()),
                    Err(_) => Err(()),
                });
                r
            }};
        }
        let all: Vec<(&str, Ex, Result<R, String>)> = vec![
            ("serde::find", Ex::Find, owned!(serde::find(text, &d.v), n, n.location.clone())),
            ("serde::find_loop", Ex::Loop, owned!(serde::find_loop(text, &d.v), n, n.location.clone())),
            ("serde::Environment::find", Ex::Find, owned!(envs.serde.find(text, &d.v), n, n.location.clone())),
            ("serde::Environment::find_loop", Ex::Loop, owned!(envs.serde.find_loop(text, &d.v), n, n.location.clone())),
            ("iter::find", Ex::Iter, owned!(iter::find(text, &d.v), n, n.location.clone())),
            ("iter::Environment::find", Ex::Iter, owned!(envs.iter.find(text, &d.v), n, n.location.clone())),
            ("locations::find", Ex::Loc, owned!(loc::find(text, &d.v), n, n.path())),
            ("locations::Environment::find", Ex::Loc, owned!(envs.loc.find(text, &d.v), n, n.path())),
            ("singular::find", Ex::Sing, owned!(sing::find(text, &d.v), n, n.path())),
            ("singular::Environment::find", Ex::Sing, owned!(envs.sing.find(text, &d.v), n, n.path())),
        ];
        for (name, e, got) in all {
            ctx.trace(1);
            let w = want(e);
            ctx.trans(w.as_ref().map_or(1, |v| v.len() as u64 + 1));
            let msg = match got {
                Err(p) => format!("panics: {p}"),
                Ok(g) if g == w => continue,
                Ok(g) => format!("gives {:?}, parsing and evaluating gives {:?}", g.map(|v| v.into_iter().map(|x| x.1).collect::<Vec<_>>()), w.map(|v| v.into_iter().map(|x| x.1).collect::<Vec<_>>())),
            };
            ctx.fail(Violation {
                kind: "other",
                who: name.into(),
                what: "entry-point-differs".into(),
                input: format!("{text} on {}", d.text),
                data: json!({"text": text, "doc": d.text, "entry": name}),
                msg,
            });
        }
    });
}

// ---------------------------------------------------------------------------------------
// match and search

const RX: &[&str] = &["a", "b", ".", "|", "(", ")", "*", "+", "?", "[ab]", "[^a]", "{2}", "{1,}", "{0,1}", "\\.", "\u{e9}", "-", "\\p{L}", "\\n", "&"];

/// Quantified anchors and the like are not settled by the specifications.
fn settled(p: &str) -> bool {
    let c: Vec<char> = p.chars().collect();
    c.windows(2).all(|w| !(matches!(w[0], '^' | '$') && matches!(w[1], '*' | '+' | '?' | '{')))
}

const SUBJECTS: &[&str] = &[
    "", "a", "b", "ab", "ba", "aa", "aaa", "abab", "aab", "abc", ".", "a.b", "\n", "\r", "a\nb", "\na", "a\n", "\u{e9}", "a\u{e9}", "\u{1F600}", "-", "a-b", "1", "A", "&", "xay", " ", "~",
];

fn regex_case(ctx: &Ctx, qs: &[Q], p: &str, subjects: &[&str]) {
    let set = std_set();
    let d = Doc::new(json!({"p": p, "s": subjects}));
    with_envs(|envs| {
        for q in qs {
            let mut bad = vec![];
            let n = examine_eval(q, &d, set, NODES, envs, &mut bad).0;
            ctx.state(subjects.len() as u64);
            ctx.trace(n);
            report_eval(ctx, q, &d, set, NODES, bad);
        }
    });
}

/// Queries on a document of characters.
fn chars_case(ctx: &Ctx, qs: &[Q], d: &Doc, n: usize) {
    let set = std_set();
    with_envs(|envs| {
        for q in qs {
            let mut bad = vec![];
            let k = examine_eval(q, d, set, NODES, envs, &mut bad).0;
            ctx.state(n as u64);
            ctx.trace(k);
            ctx.trans(n as u64);
            report_eval(ctx, q, d, set, NODES, bad);
        }
    });
}

/// Patterns longer than what the token strings reach, each feature of I-Regexp.
const PATTERNS: &[&str] = &[
    "", "a{2,1}", "[b-a]", "a{0}", "a{0,0}b", "a{3}", "a{1,2}b", "(a|b)*c", "(ab)+", "((a))", "(a|)b", "(|a)", "|", "a||b", "()", "()*", "(a*)*", "(a*)+b", "a.c", "a\\.c", "\\\\", "\\(\\)", "\\[", "\\]", "\\{\\}", "\\|",
    "\\^", "\\$", "\\-", "\\*\\+\\?", "\\t", "\\r", "\\n", "[a-c]", "[^a-c]", "[-a]", "[a-]", "[a\\-z]", "[\\]]", "[\\[]", "[.]", "[^.]", "[*+?]", "[(|)]", "[$]", "[a^]", "[\\^a]", "[&&]", "[a&&b]", "[~~]", "[a~~b]", "[\\\\]",
    "[\\n\\r]", "[^\\n]", "[\u{e9}-\u{f0}]", "[\\p{Lu}]", "[^\\p{Lu}]", "[\\p{L}\\p{Nd}_]", "[\\P{L}]", "\\p{Lu}", "\\p{Ll}+", "\\P{Lu}", "\\p{N}", "\\p{Nd}", "\\p{P}", "\\p{Po}", "\\p{S}", "\\p{Sm}", "\\p{Z}", "\\p{Zs}",
    "\\p{C}", "\\p{Cc}", "\\p{X}", "\\p{}", "\\pL", "\\p", "\\d", "\\w", "\\s", "\\b", "\\u0061", "\\x61", "\\/", "\\a", "\\'", "\\\"", "\\", "a\\", "(?:a)", "(?i)a", "(?=a)", "(?!a)", "(?<n>a)", "(a", "a)", "[a", "a]", "[]", "[^]x", "[]a]",
    "a{", "a}", "a{}", "a{,2}", "a{a}", "a{1", "a{1,2", "a{-1}", "a**", "a+*", "a?+", "a??", "a{2}{2}", "a*?", "*", "+a", "?", "{2}", "(*)", "|*", "[a-b-c]", "[a--b]", "[--a]", "[[a]", "[[:alpha:]]", "[a[b]]", "^a", "a$", "^a$", "^", "$", "^ab|c$", "^a|b",
    "(^a)", "a|b$", "(a$)", ".*", ".+", "..", ".{2}", "a.*b", "\u{1F600}", "[\u{1F600}]", "\u{1F600}+", "a b", "#a", "a # b", "a/b", "\"", "'", "<a>", "a=b", "a!", "a%", "a,b", "a:b;", "a@", "_", "`", "-", "--", "a-b", "\n", "a\nb", "\u{0}", "\u{7f}", "\u{2028}", ".\u{2028}", "[^a]\u{85}",
    "abcdefghijklmnopqrstuvwxyz", "(a|b|c|d|e|f|g)*", "((((a))))", "a{9}", "(a{2}){2}", "(ab|a)(bc|c)", "(a|ab)(c|bcd)", "[a-zA-Z0-9_]+", "[0-9]{3}", "1974-05-..", "a.*.b",
];

const SUBJECTS2: &[&str] = &[
    "", "a", "b", "c", "ab", "ba", "abc", "aaa", "aabb", "abab", "a.c", "axc", "a\nc", "a\rc", "\\", "()", "[", "]", "{}", "|", "^", "$", "^a", "a$", "-", "*+?", "*", "\t", "\r", "\n", "\r\n", "z", "B", "A", "Ab", "9", "1a", "&", "a&&b", "~", "_", "\u{e9}", "\u{e8}",
    "\u{1F600}", "\u{1F600}\u{1F600}", "\u{2028}", "x\u{2028}", "b\u{85}", "\u{a0}", " ", "a b", "#a", "a # b", "a/b", "/", "\"", "'", "<a>", "a=b", "+", "=", "a!", "!", "\u{0}", "\u{7f}", "aaaa", "aaaaaaaaa", "abcd", "1974-05-01", "123", "abcdefghijklmnopqrstuvwxyz", ".", "..", "a-b", "d", "w", "s", "pL", "p",
    "{2}", "a{2}", "ba\n", "\nab", "ab\n", "c\n", "\na",
];

pub fn c14(ctx: &Ctx) {
    let set = std_set();
    let t = ctx.thorough;
    let qs = prep_all(&strs(&["$.s[?match(@,$.p)]", "$.s[?search(@,$.p)]"]), set);
    ctx.suite("patterns", "all patterns of up to 3 (thorough 4) of 20 tokens, well-formed and not x 28 subjects, match and search", || {
        let mut v = vec![String::new()];
        let mut level = vec![String::new()];
        for _ in 0..(3 + t as usize) {
            level = level.iter().flat_map(|l| RX.iter().map(move |p| format!("{l}{p}"))).collect();
            v.extend(level.iter().cloned());
        }
        ctx.trans(v.len() as u64);
        ctx.par(&v, |p| regex_case(ctx, &qs, p, SUBJECTS));
        ctx.sample(|| format!("pattern {:?} on 28 subjects", v[v.len() / 2]));
    });
    ctx.suite("features", "each feature of I-Regexp and near misses of other dialects x 85 subjects", || {
        ctx.trans(PATTERNS.len() as u64);
        let ps: Vec<&&str> = PATTERNS.iter().filter(|p| settled(p)).collect();
        ctx.par(&ps, |p| regex_case(ctx, &qs, p, SUBJECTS2));
    });
    ctx.suite("anchored combinations", "each feature pattern with ^ before, $ after, in a group, in an alternative, starred", || {
        let mut v = vec![];
        for p in PATTERNS.iter().filter(|p| jpmodel::iregexp::valid(p) && p.len() < 12) {
            for f in ["^#", "#$", "^#$", "(#)", "(#)*", "a|#", "#|b", "(#|a)b", "x#", "#y", "(#){2}"] {
                let s = f.replace('#', p);
                if settled(&s) && !(s.contains("^)") && f.contains(")*")) {
                    v.push(s);
                }
            }
        }
        ctx.trans(v.len() as u64);
        // an anchor under a quantifier is as unsettled as a quantified anchor
        v.retain(|p| !((p.contains('^') || p.contains('$')) && (p.contains(")*") || p.contains("){") || p.contains(")+"))));
        ctx.par(&v, |p| regex_case(ctx, &qs, p, SUBJECTS2));
    });
    ctx.suite("every code point", "every code point alone and before a letter x 6 patterns of a dot, classes and their complements (thorough: after a letter too, 12 patterns), match and search", || {
        let mut ps = vec![".", ".*a", "[^a]", "[^\\n]a?", "[\u{80}-\u{7ff}]", "[\u{10000}-\u{10ffff}]"];
        if t {
            ps.extend(["..", "[a-z]", "[\u{800}-\u{ffff}]+", "[^\u{0}-\u{7f}]", "a[^-]", "(.|a)a?"]);
        }
        let qs = prep_all(&ps.iter().flat_map(|p| ["match", "search"].map(|f| format!("$.s[?{f}(@,{})]", jpmodel::render::quoted(p)))).collect::<Vec<_>>(), set);
        let all: Vec<char> = (0..=0x10FFFFu32).filter_map(char::from_u32).collect();
        let w: Vec<&[char]> = all.chunks(2048).collect();
        ctx.par(&w, |cs| {
            let s: Vec<String> = cs.iter().flat_map(|c| [c.to_string(), format!("{c}a"), format!("a{c}")]).enumerate().filter(|x| t || x.0 % 3 != 2).map(|x| x.1).collect();
            chars_case(ctx, &qs, &Doc::new(json!({"s": s})), s.len());
        });
        ctx.sample(|| format!("{} on {:?}", qs[4].text, &all[5000..5003]));
    });
    ctx.suite("general categories", "every category and its complement, alone and in classes x the characters at the ends of every run of one category (thorough: all that Unicode 15 assigns)", || {
        let cats = ["L", "Ll", "Lm", "Lo", "Lt", "Lu", "M", "Mc", "Me", "Mn", "N", "Nd", "Nl", "No", "P", "Pc", "Pd", "Pe", "Pf", "Pi", "Po", "Ps", "Z", "Zl", "Zp", "Zs", "S", "Sc", "Sk", "Sm", "So", "C", "Cc", "Cf", "Co"];
        let mut q = vec![];
        for c in cats {
            for p in [format!("\\p{{{c}}}"), format!("\\P{{{c}}}"), format!("[a\\p{{{c}}}]"), format!("[^\\p{{{c}}}0-9]"), format!("[\\P{{{c}}}b]")] {
                q.push(format!("$.s[?match(@,{})]", jpmodel::render::quoted(&p)));
            }
            q.push(format!("$.s[?search(@,'a?\\\\p{{{c}}}$')]"));
        }
        let qs = prep_all(&q, set);
        let gc = jpmodel::gc::GC;
        let mut all: Vec<char> = vec![];
        for (i, (from, c)) in gc.iter().enumerate() {
            let to = gc.get(i + 1).map_or(0x110000, |x| x.0);
            if *c != "Cn" && *c != "Cs" {
                all.extend((*from..to).filter(|x| t || *x < from + 2 || *x + 2 >= to || (*x - from) % 1024 == 500).filter_map(char::from_u32));
            }
        }
        let w: Vec<&[char]> = all.chunks(512).collect();
        ctx.par(&w, |cs| {
            let s: Vec<String> = cs.iter().map(|c| c.to_string()).collect();
            chars_case(ctx, &qs, &Doc::new(json!({"s": s})), s.len());
        });
        ctx.sample(|| format!("{} on {:?}", qs[4].text, &all[all.len() / 2..all.len() / 2 + 3]));
    });
    ctx.suite("characters as patterns", "every character below 0x3000 and at the ends of every run of one category (thorough: every code point) as a pattern, starred, in a class, a complement and a range, escaped x itself, its neighbours, both, nothing", || {
        let qs = prep_all(&strs(&["$.s[?match(@.s,@.p)]", "$.s[?search(@.s,@.p)]"]), set);
        let mut cs: Vec<u32> = if t { (0..0x110000).collect() } else { (0..0x3000).collect() };
        if !t {
            cs.extend(jpmodel::gc::GC.iter().flat_map(|x| [x.0.saturating_sub(1), x.0]).filter(|c| *c >= 0x3000));
        }
        cs.dedup();
        let all: Vec<char> = cs.iter().filter_map(|c| char::from_u32(*c)).collect();
        let near = |c: char, d: i64| char::from_u32((c as i64 + d) as u32).unwrap_or('a');
        let w: Vec<&[char]> = all.chunks(128).collect();
        ctx.par(&w, |cs| {
            let mut v = vec![];
            for &c in *cs {
                let (l, r) = (near(c, -1), near(c, 1));
                for p in [format!("{c}"), format!("{c}*a"), format!("[{c}]"), format!("[^{c}]"), format!("[{c}-{r}]"), format!("\\{c}")] {
                    if !settled(&p) || (c.is_ascii() && "^$".contains(c)) {
                        continue;
                    }
                    for s in [c.to_string(), l.to_string(), r.to_string(), format!("{c}{c}a"), format!("{c}{r}"), String::new()] {
                        v.push(json!({"p": p, "s": s}));
                    }
                }
            }
            let n = v.len();
            chars_case(ctx, &qs, &Doc::new(json!({"s": v})), n);
        });
        ctx.sample(|| format!("{} with the pattern [{}]", qs[0].text, all[all.len() / 3]));
    });
    ctx.suite("long quantifiers", "quantifiers with numbers of more than one digit", || {
        for p in ["a{10}", "a{10,}", "a{1,10}", "[ab]{12}", "a{09}"] {
            ctx.trans(1);
            regex_case(ctx, &qs, p, &["aaaaaaaaaa", "aaaaaaaaaaaa", "a", ""]);
        }
    });
    ctx.suite("literal arguments and other kinds of arguments", "patterns and subjects as literals, as the results of calls, absent and of every kind of value", || {
        let mut q = vec![];
        let lits = ["'a.*'", "'.'", "\"[a-c]\"", "'['", "''", "'\\u0061'", "'\\\\.'", "1", "null", "true", "@.x", "$.p", "@", "value(@.*)", "value($.s[0])", "length(@)", "@[0]"];
        for a in lits {
            for b in lits {
                for f in ["match", "search"] {
                    q.push(format!("$.s[?{f}({a},{b})]"));
                    q.push(format!("$.s[?!{f}({a}, {b})]"));
                    q.push(format!("$.s[?{f}({a},{b})&&@]"));
                }
            }
        }
        let mut s = docs::values();
        s.extend([json!("a.b"), json!("["), json!("."), json!(["a"]), json!({"a": "ab"}), json!("abc")]);
        let ds = docs(vec![json!({"p": "a.?", "s": s}), json!({"p": ["a"], "s": s}), json!({"s": s}), json!({"p": "[", "s": s})]);
        product(ctx, &prep_all(&q, set), &ds, set, NODES);
    });
    ctx.suite("calls within calls", "regular expression calls in filters nested in the arguments of regular expression calls", || {
        let q = strs(&[
            "$[?match(value(@[?match(@,'a.*')]),'ab')]", "$[?search(value(@[?search(@,'b')]),'b')]", "$[?match(@[0],value($[*][?search(@,'z')]))]", "$[?count(@[?match(@,'a')])==1]", "$[?@[?match(@,'a')]&&@[?search(@,'b')]]",
            "$[?match(value(@[?match(@,value(@[?match(@,'a')]))]),'x')]", "$[?count(@[?count($[?match(value(@[?search(@,'a')]),'a.*')])==1])>0]", "$..[?match(@,value($..[?match(@,'a\\\\.')]))]",
        ]);
        let mut v = docs::all(4, &[json!("a"), json!("ab"), json!("z")], &["a"]);
        v.push(json!([["ab", "a"], ["a."], ["z"], {"q": "a"}]));
        product(ctx, &prep_all(&q, set), &docs(v), set, NODES);
    });
}

// ---------------------------------------------------------------------------------------
// Histories

#[derive(Clone, Copy, Debug, PartialEq)]
struct Call {
    full: bool,
    p: usize,
    s: usize,
}

/// Patterns that a cache could confuse: same length, same prefix, same hash-relevant parts,
/// one invalid, one that differs between match and search, one without matches.
const HP: &[&str] = &["a.c", "a.b", "a", "ab*", "[", "b"];
const HS: &[&str] = &["abc", "xab"];

fn run_call(e: Ex, f: bool, p: &str, s: &str, envs: &Envs, qs: &[Q; 2]) -> Result<bool, String> {
    let d = json!({"p": p, "s": [s]});
    qs[!f as usize].c.run(e, &d, envs).map(|v| !v.is_empty())
}

fn history_queries() -> [Q; 2] {
    let set = std_set();
    [prep("$.s[?match(@,$.p)]", set), prep("$.s[?search(@,$.p)]", set)]
}

fn describe(h: &[(bool, &str, &str)]) -> String {
    h.iter().map(|(f, p, s)| format!("{}({s:?},{p:?})", if *f { "match" } else { "search" })).collect::<Vec<_>>().join("; ")
}

/// Run a history of calls in one environment per engine; every answer has to be the one
/// the call gives on its own.
fn history(h: &[(bool, String, String)], qs: &[Q; 2]) -> Option<(Ex, String)> {
    let envs = Envs::fresh_some();
    for e in [Ex::Find, Ex::Loop, Ex::Iter, Ex::Loc, Ex::Sing] {
        for (i, (f, p, s)) in h.iter().enumerate() {
            let want = jpmodel::iregexp::run(p, s, *f);
            match run_call(e, *f, p, s, &envs.0, qs) {
                Ok(g) if g == want => {}
                r => return Some((e, format!("call {i}, {}({s:?},{p:?}), gives {r:?} after {i} calls, {want} on its own", if *f { "match" } else { "search" }))),
            }
        }
    }
    None
}

fn judge_history(ctx: &Ctx, h: &[(bool, String, String)], qs: &[Q; 2], fresh_trans: u64) {
    let short: Vec<(bool, &str, &str)> = h.iter().map(|(f, p, s)| (*f, p.as_str(), s.as_str())).collect();
    let text = if h.len() < 40 { describe(&short) } else { format!("{} … ({} calls)", describe(&short[..3]), h.len()) };
    crate::watch::begin(2, 0, "std", &text, "");
    ctx.state(1);
    ctx.trans(fresh_trans);
    ctx.trace(5);
    if let Some((e, msg)) = history(h, qs) {
        ctx.fail(Violation {
            kind: "history",
            who: e.name().into(),
            what: "answer-depends-on-history".into(),
            input: text,
            data: json!({"calls": h.iter().map(|(f, p, s)| json!([f, p, s])).collect::<Vec<_>>()}),
            msg,
        });
    }
}

pub fn replay_history(d: &Value) -> Vec<String> {
    let h: Vec<(bool, String, String)> = d["calls"].as_array().map(|a| a.iter().map(|c| (c[0].as_bool().unwrap(), c[1].as_str().unwrap().to_string(), c[2].as_str().unwrap().to_string())).collect()).unwrap_or_default();
    history(&h, &history_queries()).map(|(e, m)| format!("{}: {m}", e.name())).into_iter().collect()
}

pub fn c15(ctx: &Ctx) {
    let t = ctx.thorough;
    ctx.suite("short histories", "all sequences of up to 3 (thorough 4) of 24 calls (match or search, six patterns, two subjects), each in fresh environments of all engines", || {
        let mut ops = vec![];
        for full in [true, false] {
            for p in 0..HP.len() {
                for s in 0..HS.len() {
                    ops.push(Call { full, p, s });
                }
            }
        }
        // with four calls the first two fix the pair
        let n = 3 + t as usize;
        let mut level: Vec<Vec<Call>> = vec![vec![]];
        let mut all: Vec<Vec<Call>> = vec![];
        for _ in 0..n {
            level = level.iter().flat_map(|h| ops.iter().map(move |o| [h.clone(), vec![*o]].concat())).collect();
            all.extend(level.iter().cloned());
        }
        // a prefix is checked with every history that extends it
        let all: Vec<Vec<Call>> = all.into_iter().filter(|h| h.len() == n).collect();
        ctx.par(&all, |h| {
            thread_local!(static QS: [Q; 2] = history_queries());
            QS.with(|qs| {
                let h: Vec<(bool, String, String)> = h.iter().map(|c| (c.full, HP[c.p].to_string(), HS[c.s].to_string())).collect();
                judge_history(ctx, &h, qs, n as u64);
            })
        });
        ctx.sample(|| format!("{:?}", all[all.len() / 3]));
    });
    ctx.suite("full caches", "k distinct patterns for k = 1, 2, 97..104, 150, 199..202 (thorough: 1..220), and 12 numbers up to 1025, then all of them again in four orders, then the other function; with and without invalid patterns", || {
        let ks: Vec<usize> = if t { (1..=220).collect() } else { [1, 2, 50].into_iter().chain(97..=104).chain([150, 199, 200, 201, 202]).collect() };
        let mut work = vec![];
        let far = [255, 256, 257, 300, 399, 400, 401, 511, 512, 513, 1000, 1025];
        for k in ks.into_iter().chain(far) {
            for first in [true, false] {
                for order in 0..4 {
                    for family in 0..3 {
                        if k > 250 && (order == 1 || order == 3 || family == 1) {
                            continue;
                        }
                        work.push((k, first, order, family));
                    }
                }
            }
        }
        ctx.par(&work, |&(k, first, order, family)| {
            thread_local!(static QS: [Q; 2] = history_queries());
            let pat = |i: usize| match family {
                0 => format!("a{i:03}"),
                1 => format!("{i}a?"),
                _ => {
                    if i % 5 == 0 {
                        format!("[{i}")
                    } else {
                        format!("(a|{i})b")
                    }
                }
            };
            let sub = |i: usize| match family {
                0 => format!("a{i:03}"),
                1 => format!("x{i}a"),
                _ => format!("{i}b"),
            };
            let mut h: Vec<(bool, String, String)> = vec![];
            for i in 0..k {
                h.push((first, pat(i), sub(i)));
            }
            let again: Vec<usize> = match order {
                0 => (0..k).collect(),
                1 => (0..k).rev().collect(),
                2 => (0..k).map(|i| (i * 37) % k).collect(),
                _ => (0..k).flat_map(|i| [i, 0]).collect(),
            };
            for i in &again {
                h.push((first, pat(*i), sub(*i)));
                h.push((first, pat(*i), sub(*i + 1)));
            }
            for i in (0..k).step_by(7) {
                h.push((!first, pat(i), sub(i)));
                h.push((!first, pat(i), format!("x{}y", sub(i))));
                h.push((first, pat(i), format!("x{}y", sub(i))));
            }
            let n = h.len() as u64;
            QS.with(|qs| judge_history(ctx, &h, qs, n));
        });
    });
    ctx.suite("joined pairs", "two calls of which pattern and subject, or subject and pattern, give the same text when they are joined with nothing or with one of 22 separators, in both orders, then the first again; by one function or both", || {
        let seps = ["", " ", "/", ":", "|", ",", "-", "_", "\u{0}", "\n", "\t", "=", "#", ";", ".", "\u{1f}", "::", "=>", "\\", "'", "\"", "@", "~"];
        let xs = ["a", "b", "", "ab", "[", "a*"];
        let mut work: Vec<Vec<(bool, String, String)>> = vec![];
        for sep in seps {
            for x in xs {
                for y in xs {
                    for z in xs {
                        let (xy, yz) = (format!("{x}{sep}{y}"), format!("{y}{sep}{z}"));
                        if (&xy[..], z) == (x, &yz[..]) {
                            continue;
                        }
                        let pair = [[(xy.clone(), z.to_string()), (x.to_string(), yz.clone())], [(z.to_string(), xy), (yz, x.to_string())]];
                        for [a, b] in pair {
                            for (i, j) in [(true, true), (false, false), (true, false)] {
                                work.push(vec![(i, a.0.clone(), a.1.clone()), (j, b.0.clone(), b.1.clone()), (i, a.0.clone(), a.1.clone())]);
                                work.push(vec![(i, b.0.clone(), b.1.clone()), (j, a.0.clone(), a.1.clone()), (i, b.0.clone(), b.1.clone())]);
                            }
                        }
                    }
                }
            }
        }
        work.retain(|h| h.iter().all(|c| settled(&c.1)));
        ctx.par(&work, |h| {
            thread_local!(static QS: [Q; 2] = history_queries());
            QS.with(|qs| judge_history(ctx, h, qs, 3));
        });
        ctx.sample(|| format!("{:?}", work[work.len() / 3]));
    });
    ctx.suite("near patterns", "all ordered pairs of 73 patterns of at most two of 8 characters, and of pairs that differ only at the end, at the start or in the middle of up to 1000 characters, in case, blanks, escapes or composition: the second is decided as on its own, by both functions", || {
        let cs = ["a", "A", " ", "\n", ".", "b", "\\", "*"];
        let mut ps: Vec<String> = vec![String::new()];
        for a in cs {
            ps.push(a.into());
            for b in cs {
                ps.push(format!("{a}{b}"));
            }
        }
        let mut work: Vec<(String, String)> = ps.iter().flat_map(|a| ps.iter().filter(move |b| *b != a).map(move |b| (a.clone(), b.clone()))).collect();
        for n in [1usize, 3, 7, 8, 15, 16, 31, 32, 63, 64, 100, 127, 128, 255, 256, 1000] {
            let x = "x".repeat(n);
            for (a, b) in [(format!("{x}b"), format!("{x}c")), (format!("b{x}"), format!("c{x}")), (format!("{x}b{x}"), format!("{x}c{x}")), (x.clone(), format!("{x}x")), (format!("{x}|b"), format!("{x}|c"))] {
                work.push((a.clone(), b.clone()));
                work.push((b, a));
            }
        }
        for (a, b) in [("\u{e9}", "e\u{301}"), ("\u{e9}", "\\u00e9"), ("a\\.", "a."), ("[ab]", "[ba]"), ("[a-b]", "[ab-]"), ("(a)", "a"), ("a{1}", "a{2}"), ("a{12}", "a{1}2"), ("ab|c", "a|bc"), ("\\p{L}", "\\P{L}"), ("\\p{Lu}", "\\p{Ll}"), ("a\u{0}", "a"), ("a\u{0}b", "a\u{0}c"), ("\u{1F600}", "\u{1F601}"), ("1", "01"), ("a\t", "a\\t"), ("^a", "a"), ("a$", "a")] {
            work.push((a.into(), b.into()));
            work.push((b.into(), a.into()));
        }
        ctx.par(&work, |(a, b)| {
            thread_local!(static QS: [Q; 2] = history_queries());
            let mut subs: Vec<String> = ["a", "A", " ", "ab", "a b", "\n", "a\n", "b"].iter().map(|s| s.to_string()).collect();
            if a.len() > 2 {
                subs.extend([a.clone(), b.clone(), "e\u{301}".into(), "x|b".into(), "a2".into(), "bc".into(), "aa".into(), "1".into(), "01".into()]);
            }
            for (f, g) in [(true, true), (false, false), (true, false), (false, true)] {
                if f != g && a.len() > 2 {
                    continue;
                }
                let mut h: Vec<(bool, String, String)> = vec![];
                h.push((f, a.clone(), subs[0].clone()));
                for s in &subs {
                    h.push((g, b.clone(), s.clone()));
                }
                h.push((f, a.clone(), subs[0].clone()));
                h.push((f, a.clone(), subs[3].clone()));
                QS.with(|qs| judge_history(ctx, &h, qs, h.len() as u64));
            }
        });
        ctx.sample(|| format!("{:?}", work[work.len() / 2]));
    });
    ctx.suite("queries in one environment", "all sequences of 3 (thorough 4 over half of them) of 33 steps: one of 11 texts, valid and not, found in one of three documents, in the same environment of each engine; lazy results are left after 0, 1 or all nodes", || {
        let texts = ["$..a", "$.a", "$['a']", "$.a ", "$[?@.a]", "$[?match(@.a,'a.*')]", "$[?match(@.a,'a.*'", "$[?search(@.a,$[0].a)]", "$..[?@.a==$.b.a]", "$[?nope(@)]", "$[0,1]"];
        let ds = docs(vec![json!([{"a": "ab"}, {"a": "b"}]), json!({"a": [1, {"a": 2}], "b": {"a": 1}}), json!({"x": {"a": "a"}, "a": {"a": "ab"}})]);
        let n = texts.len() * ds.len();
        // what each step gives on its own, by the reference
        let set = std_set();
        let want: Vec<Option<Vec<String>>> = (0..n)
            .map(|i| {
                let e = Expect::of(texts[i % texts.len()], Default::default(), &set.ps.funcs);
                e.valid().then(|| {
                    let d = &ds[i / texts.len()];
                    eval::find(&e.parsed.query.unwrap(), &d.v, &set.ps.funcs).iter().map(|n| d.path(n.value)).collect()
                })
            })
            .collect();
        let len = 3 + t as usize;
        let steps: Vec<usize> = (0..n).filter(|i| !t || i % 2 == 0).collect();
        let mut level: Vec<Vec<usize>> = vec![vec![]];
        for _ in 0..len {
            level = level.iter().flat_map(|h| steps.iter().map(move |o| [&h[..], &[*o]].concat())).collect();
        }
        ctx.par(&level, |h| {
            crate::watch::begin(4, 0, "std", &format!("{h:?}"), "");
            let owned = Envs::fresh_some();
            let envs = &owned.0;
            ctx.state(1);
            ctx.trans(h.len() as u64);
            ctx.trace(5);
            for (k, &i) in h.iter().enumerate() {
                let (text, d) = (texts[i % texts.len()], &ds[i / texts.len()].v);
                let leave = (i + k) % 3;
                let r = guarded(|| {
                    let mut out: Vec<(&str, Option<Vec<String>>)> = vec![];
                    out.push(("serde find", envs.serde.find(text, d).ok().map(|v| v.into_iter().map(|n| n.location).collect())));
                    out.push(("serde find_loop", envs.serde.find_loop(text, d).ok().map(|v| v.into_iter().map(|n| n.location).collect())));
                    // a result that is left early
                    if let Ok(mut it) = envs.iter.find(text, d) {
                        for _ in 0..leave {
                            it.next();
                        }
                    }
                    out.push(("iter", envs.iter.find(text, d).ok().map(|v| v.into_iter().map(|n| n.location.clone()).collect())));
                    out.push(("locations", envs.loc.find(text, d).ok().map(|v| v.into_iter().map(|n| n.path()).collect())));
                    out.push(("singular", envs.sing.find(text, d).ok().map(|v| v.into_iter().map(|n| n.path()).collect())));
                    out
                });
                let msg = match r {
                    Err(p) => Some(("all", format!("panics: {p}"))),
                    Ok(v) => v.into_iter().find(|(_, g)| *g != want[i]).map(|(w, g)| (w, format!("gives {g:?}, on its own {:?}", want[i]))),
                };
                if let Some((w, m)) = msg {
                    ctx.fail(Violation {
                        kind: "other",
                        who: w.into(),
                        what: "result-depends-on-history".into(),
                        input: h[..=k].iter().map(|i| format!("{} on document {}", texts[i % texts.len()], i / texts.len())).collect::<Vec<_>>().join("; "),
                        data: json!({"steps": h.iter().map(|i| json!([texts[i % texts.len()], ds[i / texts.len()].v])).collect::<Vec<_>>()}),
                        msg: m,
                    });
                    break;
                }
            }
        });
        ctx.sample(|| format!("{:?}", level[level.len() / 2]));
    });
    ctx.suite("documents in one place", "all ordered pairs of documents of at most 3 nodes with two leaves and 11 larger ones, one after the other in the same memory, with the same 26 parsed queries in the same environments", || {
        let set = std_set();
        let texts = strs(&["$", "$.a", "$[0]", "$[*]", "$..*", "$..a", "$[?@.a]", "$[?@==1]", "$[?@==$[0]]", "$[?@==$.a]", "$[?$.a]", "$[?$[0]==1]", "$..[?$.a==1]", "$[?count(@.*)==1]", "$[?count($.*)==2]", "$[?length(@)==1]", "$[?value($.*)==1]", "$[?match(@,'a')]", "$[?search($.a,'a')]", "$[?match($[0],'a')]", "$[::-1]", "$[-1]", "$[?@[?$.a]]", "$[?@.a==@.b]", "$..[0]", "$.*.*"]);
        let mut vs = docs::all(3, &[json!(1), json!("a")], &["a", "b"]);
        vs.extend(sweep_docs().iter().rev().take(11).map(|d| d.v.clone()));
        let idx: Vec<usize> = (0..vs.len()).collect();
        ctx.par(&idx, |&i| {
            let qs = prep_all(&texts, set);
            let shown: Vec<String> = qs.iter().map(|q| format!("{:?} {:?}", q.c.serde.as_ref().map(|q| q.to_string()), q.c.loc.as_ref().map(|q| q.to_string()))).collect();
            let owned = Envs::fresh_some();
            let mut slot = Box::new(Value::Null);
            for v in &vs {
                for d in [&vs[i], v] {
                    *slot = d.clone();
                    for q in &qs {
                        crate::watch::begin(4, 0, "std", &q.text, "");
                        let want: Vec<*const Value> = eval::find(&q.model, &slot, &set.ps.funcs).iter().map(|n| n.value as *const Value).collect();
                        for e in ENGINES {
                            ctx.trace(1);
                            let got = q.c.run(e, &slot, &owned.0).map(|v| v.iter().map(|n| n.ptr).collect::<Vec<_>>());
                            if got.as_ref() != Ok(&want) {
                                ctx.fail(Violation { kind: "other", who: e.name().into(), what: "result-depends-on-history".into(), input: format!("{} on {} after {}", q.text, d, vs[i]), data: json!({"text": q.text, "doc": d.to_string(), "before": vs[i].to_string()}), msg: format!("{} nodes instead of {}", got.map_or(0, |v| v.len()), want.len()) });
                            }
                        }
                    }
                }
                ctx.state(1);
                ctx.trans(2 * qs.len() as u64);
            }
            for (q, s) in qs.iter().zip(shown) {
                if format!("{:?} {:?}", q.c.serde.as_ref().map(|q| q.to_string()), q.c.loc.as_ref().map(|q| q.to_string())) != s {
                    ctx.fail(Violation { kind: "other", who: "query".into(), what: "query-changed".into(), input: q.text.clone(), data: json!({"text": q.text}), msg: s });
                }
            }
        });
    });
    ctx.suite("one parser, many queries", "every ordered pair of 120 texts, valid and not, many of them nearly the same, parsed by one parser of each crate: the second result is that of a new parser; and one query object on documents in every order", || {
        let texts: Vec<&str> = CORPUS.iter().copied().step_by(2).chain(["$[?nope(@)]", "$[", "$[?@.a==", "$[?count(1)==1]", "$['\\ud800']", "$[9007199254740992]", "$.a ", "", "$[?@.a==1e]", "$[?((@.a)]",
            "$.b", "$.A", "$.aa", "$.ab", "$..a", "$..b", "$['b']", "$['a' ]", "$[ 'a']", "$[\"b\"]", "$['A']", "$['a b']", "$['ab']", "$['a\\u0062']", "$[1]", "$[10]", "$[-1]", "$[1:]", "$[:1]", "$[1::]", "$[::1]", "$[1,0]", "$[0,1]", "$[0, 1]", "$[?@.b]", "$[?@.a==2]", "$[?@.a=='1']", "$[?@.a==1.0]", "$[?@.a==-1]", "$[?@.a!=1]", "$[?@.a<1]",
            "$[?@.a<=1]", "$[?(@.a)]", "$[?!(@.a)]", "$[?@.a||@.b]", "$[?@.a&&@.b]", "$[?@.b&&@.a]", "$[?@['a']]", "$[?$['a']]", "$[?count(@.*)==1]", "$[?count(@.a)==1]", "$[?length(@.a)==2]", "$[?match(@.a,'a')]", "$[?match(@.a,'b')]", "$[?search(@.a,'a')]", "$[?match(@.a,\"a\")]", "$[?match(@.a,'a ')]", "$[?match('a',@.a)]", "$\n.a", "$\t.a", "$.\u{e9}", "$.e\u{301}", "$.\u{1F601}",
        ]).collect();
        let pairs: Vec<(usize, usize)> = (0..texts.len()).flat_map(|i| (0..texts.len()).map(move |j| (i, j))).collect();
        let show = |r: Result<POk, PErr>| match r {
            Ok(o) => format!("{} {:?} {} {}", o.display, o.ast, o.singular, o.empty),
            Err(e) => format!("{:?} {} {:?}", e.kind, e.msg, e.span),
        };
        let base: Vec<Vec<String>> = texts.iter().map(|t| PARSERS.iter().map(|p| show(Parsers::new(&jpmodel::types::standard()).parse(*p, t))).collect()).collect();
        ctx.par(&pairs, |&(i, j)| {
            crate::watch::begin(0, 32, "std", texts[j], "");
            let ps = Parsers::new(&jpmodel::types::standard());
            ctx.state(1);
            ctx.trans(2);
            for (k, p) in PARSERS.iter().enumerate() {
                ctx.trace(1);
                let _ = ps.parse(*p, texts[i]);
                let got = show(ps.parse(*p, texts[j]));
                if got != base[j][k] {
                    ctx.fail(Violation {
                        kind: "other",
                        who: p.name().into(),
                        what: "parse-depends-on-history".into(),
                        input: format!("{} after {}", texts[j], texts[i]),
                        data: json!({"first": texts[i], "text": texts[j]}),
                        msg: format!("{got} instead of {}", base[j][k]),
                    });
                }
            }
        });
        // one query on several documents in every order of three
        let set = std_set();
        let ds = docs(vec![json!([{"a": "ab"}, {"a": "b"}]), json!({"a": [1, 2], "b": {"a": 1}}), json!([]), json!({"x": {"a": "a"}})]);
        let qs = prep_all(&strs(&["$..a", "$[?@.a]", "$[?match(@.a,'a.*')]", "$[?search(@.a,$[0].a)]", "$..[?@.a==$.b.a]", "$[?count(@.*)==1]"]), set);
        let orders: Vec<Vec<usize>> = (0..64).map(|i| vec![i / 16, i / 4 % 4, i % 4]).collect();
        ctx.par(&orders, |o| {
            with_envs(|envs| {
                for q in &qs {
                    ctx.state(1);
                    for d in o {
                        let mut bad = vec![];
                        let n = examine_eval(q, &ds[*d], set, NODES | PATH, envs, &mut bad).0;
                        ctx.trace(n);
                        ctx.trans(1);
                        report_eval(ctx, q, &ds[*d], set, NODES | PATH, bad);
                    }
                }
            })
        });
    });
}

// ---------------------------------------------------------------------------------------
// Totality of evaluation

pub fn c18(ctx: &Ctx) {
    let set = std_set();
    let t = ctx.thorough;
    let asp = TOTAL_EVAL;
    ctx.suite("queries of every form", "all valid texts of the filter, function and segment tokens to depth 4 (thorough 5), and of the corpora x 8 documents with every kind of value", || {
        let ds = docs(vec![
            json!(null),
            json!([[], {}, "", 0, null]),
            json!({"a": {"a": [1, "s", {"b": 2}], "b": "s"}, "b": ["b", 1.5, true], "c": {"c": {"c": []}}}),
            json!([1, -1, 1.5, 1e300, u64::MAX, i64::MIN, 9007199254740993i64]),
            json!({"a": u64::MAX, "b": [u64::MAX, i64::MIN], "c": "\u{0}\u{1F600}", "": null}),
            json!(docs::values()),
            json!([[["a"], ["b"]], [{"a": {"a": 1}}], {"a": [{"b": 1}, {"b": [0]}]}]),
            json!("s"),
        ]);
        let mut texts: Vec<String> = CORPUS.iter().map(|s| s.to_string()).collect();
        texts.extend(filter_texts());
        texts.retain(|t| is_std(t));
        texts.extend(valid_texts(&p_filter(4 + t as usize), &set.ps.funcs));
        texts.extend(valid_texts(&p_seg(4), &set.ps.funcs));
        texts.extend(crate::gen::queries(&crate::gen::FULL, 3, &set.ps.funcs));
        texts.extend(crate::gen::queries(&crate::gen::FUNCS, 4, &set.ps.funcs));
        texts.extend(valid_texts(&p_logic(5), &set.ps.funcs));
        texts.extend(valid_texts(&p_int(4), &set.ps.funcs));
        let jobs: Vec<&[String]> = texts.chunks(64).collect();
        ctx.par(&jobs, |j| {
            let qs = prep_all(j, set);
            with_envs(|envs| {
                for q in &qs {
                    for d in &ds {
                        let mut bad = vec![];
                        let (n, p) = examine_eval(q, d, set, asp, envs, &mut bad);
                        ctx.state(1);
                        ctx.trace(n);
                        ctx.trans(p);
                        report_eval(ctx, q, d, set, asp, bad);
                    }
                }
            })
        });
    });
    ctx.suite("singular query selectors", "all queries of up to 3 (thorough 4) elements with singular query selectors x documents whose members and elements are every kind of value and extreme integers", || {
        let o = jpmodel::parse::Opts { singular: true, ..Default::default() };
        let mut q = crate::gen::queries(&crate::gen::SING, 3 + t as usize, &set.ps.funcs);
        q.retain(|x| {
            let e = Expect::of(x, o, &set.ps.funcs);
            (x.contains("[$") || x.contains(",$")) && e.valid() && !e.open()
        });
        let keys = [json!("a"), json!("b"), json!("zz"), json!(""), json!(0), json!(1), json!(-1), json!(-9), json!(1.0), json!(-0.0), json!(1e300), json!(u64::MAX), json!(1u64 << 63), json!(i64::MIN), json!(i64::MAX), json!(null), json!(true), json!([]), json!({})];
        let mut v = vec![];
        for k in &keys {
            v.push(json!({"a": k, "b": [1, [2, k], {"a": k, "b": 3}]}));
            v.push(json!([k, [1, 2, {"a": k}], {"a": k, "b": [k]}]));
            v.push(json!({"b": k, "a": [k, "a", 1]}));
        }
        sweep(ctx, &q, &docs(v), set, asp);
    });
    ctx.suite("functions with every argument", "every standard function with every argument form that is well-typed x every kind of value", || {
        let args = ["1", "'s'", "'['", "true", "null", "@", "@.a", "$['a'][0]", "@.*", "$..a", "@[0,1]", "@[?@.x]", "length(@.a)", "count(@.*)", "value(@..a)", "value(@.*)", "''", "-0.5e1", "$", "$[0]"];
        let mut q = vec![];
        for f in ["length", "count", "value"] {
            for a in args {
                for op in ["==1", "<@", ">='a'", "!=null"] {
                    q.push(format!("$[?{f}({a}){op}]"));
                }
            }
        }
        for f in ["match", "search"] {
            for a in args {
                for b in args {
                    q.push(format!("$[?{f}({a},{b})]"));
                }
            }
        }
        q.retain(|t| Expect::of(t, Default::default(), &set.ps.funcs).valid());
        let v = docs::values();
        let ds = docs(vec![json!(v), json!({"a": v, "b": "x"}), json!(v.iter().map(|x| json!({"a": x, "x": [x]})).collect::<Vec<_>>()), json!(v.iter().map(|x| json!([x])).collect::<Vec<_>>())]);
        product(ctx, &prep_all(&q, set), &ds, set, asp);
    });
    ctx.suite("extreme integers", "indices and slices at the limits x arrays, in five positions", || {
        let v = [9007199254740991i64, -9007199254740991, 0, 1, -1];
        let mut q = vec![];
        for a in v {
            q.push(format!("$[{a}]"));
            q.push(format!("$[?@[{a}]==$[{a}]]"));
            for b in v {
                for c in v {
                    q.push(format!("$[{a}:{b}:{c}]"));
                    q.push(format!("$..[{a}:{b}:{c}]"));
                    q.push(format!("$[?@[{a}:{b}:{c}]]"));
                    q.push(format!("$[::{c}]"));
                    q.push(format!("$[{a}::{c}]"));
                    q.push(format!("$[:{b}:{c}]"));
                }
            }
        }
        product(ctx, &prep_all(&q, set), &docs(vec![json!([]), json!([1]), json!([[1], [], [2, 3, 4]]), json!({"a": 1}), json!((0..1000).collect::<Vec<_>>())]), set, asp);
    });
    ctx.suite("wide and deep documents", "20 queries x arrays and objects of up to 100000 members and documents nested up to 120 deep, on threads with the default 2 MiB stack", || {
        let mut v = vec![];
        let wide = |n: usize| -> Vec<Value> { vec![Value::Array((0..n).map(|i| json!(i)).collect()), Value::Object((0..n).map(|i| (format!("k{i}"), json!(i % 3))).collect()), Value::Array((0..n).map(|i| json!({"a": i, "b": [i]})).collect()), json!({"a": Value::Array((0..n).map(|_| json!([])).collect()), "b": Value::Object((0..n).map(|i| (format!("{i}"), json!({}))).collect())})] };
        v.extend(wide(100_000));
        v.extend(wide(1000));
        for n in [20, 60, 120] {
            let (mut a, mut b, mut c) = (json!(1), json!({"a": 1}), json!([1]));
            for i in 0..n {
                a = json!([a]);
                b = json!({"a": b, "b": i});
                c = if i % 2 == 0 { json!({"a": c}) } else { json!([i, c]) };
            }
            v.extend([a, b, c]);
        }
        let ds = docs(v);
        let qs = prep_all(
            &strs(&[
                "$.*", "$..*", "$[?@.a]", "$[?@.x]", "$[?@>99998]", "$..[?@.a==1]", "$..[?@.zz]", "$..zz", "$..a", "$[::-1]", "$[99999]", "$[1:100000:2]", "$[?@.b[0]==5]", "$[?@.x==1,?@.y]", "$.a[?@.*]", "$.b[?@.*]", "$.a.*.*", "$..[0]", "$[?count(@.*)>5]", "$[?match(@.x,'a')]",
            ]),
            set,
        );
        let jobs: Vec<(usize, usize)> = (0..qs.len()).flat_map(|i| (0..ds.len()).map(move |j| (i, j))).collect();
        let next = std::sync::atomic::AtomicUsize::new(0);
        std::thread::scope(|s| {
            for _ in 0..ctx.threads {
                std::thread::Builder::new()
                    .stack_size(2 << 20)
                    .spawn_scoped(s, || {
                        with_envs(|envs| loop {
                            let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                            let Some((a, b)) = jobs.get(i) else { break };
                            let mut bad = vec![];
                            // count the reference's nodes too, on its own thread's stack
                            let (n, p) = examine_eval(&qs[*a], &ds[*b], set, asp, envs, &mut bad);
                            ctx.state(1);
                            ctx.trace(n);
                            ctx.trans(p);
                            if !bad.is_empty() {
                                for x in bad {
                                    ctx.fail(Violation { kind: "other", who: x.who.name().into(), what: x.what.into(), input: format!("{} on wide or deep document {b}", qs[*a].text), data: json!({"text": qs[*a].text, "document": b}), msg: x.msg });
                                }
                            }
                        });
                        crate::watch::end();
                    })
                    .unwrap();
            }
        });
    });
    ctx.suite("large documents", "150 queries of every kind x arrays and objects of 127 to 129, 255 to 257, 1023 to 1025 members, arrays of 65535 to 65537 (thorough: objects too, and to 131073), and documents nested 20 to 300 deep", || large(ctx, asp, |_| true));
}

/// The valid texts of a profile, closed where needed.
pub fn valid_texts(pr: &Profile, funcs: &jpmodel::types::Funcs) -> Vec<String> {
    use jpmodel::parse;
    let mut out = std::collections::BTreeSet::new();
    let mut level = vec![pr.prefix.to_string()];
    for d in 0..=pr.depth {
        let mut next = vec![];
        for t in &level {
            for c in std::iter::once(t.clone()).chain(closers(t).into_iter().map(|c| format!("{t}{c}"))) {
                if Expect::of(&c, Default::default(), funcs).valid() {
                    out.insert(c);
                }
            }
            let p = parse::parse(t, Default::default());
            if d < pr.depth && (p.query.is_some() || p.hit_eof) {
                next.extend(pr.tokens.iter().map(|k| format!("{t}{k}")));
            }
        }
        level = next;
    }
    out.into_iter().collect()
}

// ---------------------------------------------------------------------------------------
// Singular query selectors and the implicit root

pub fn c20(ctx: &Ctx) {
    let set = std_set();
    let t = ctx.thorough;
    let leaves = vec![json!(0), json!(1), json!(-1), json!("a"), json!("b"), json!(null), json!(1.0)];
    let inner = ["$", "$.a", "$.b", "$[0]", "$[1]", "$[-1]", "$['a']['b']", "$.a.b", "$[0][1]", "$.b[0]", "$.x"];
    let mut q = vec![];
    for i in inner {
        for f in ["$[#]", "$.a[#]", "$[#][0]", "$[*][#]", "$..[#]", "$[#,0]", "$['b',#]", "$[#,#]", "$[$.a,#]", "$[ # ]", "$[?@[#]]", "$[?@[#]==1]", "$[?$[#]]", "$[?@.a[#]==$.b]", "$[?count(@[#])==1]", "$[#,?@.a]", "$..[#]..*"] {
            q.push(f.replace('#', i));
        }
        for j in ["$[#]", "$[$.a][#]", "$[#].b"] {
            q.push(format!("$[{}]", j.replace('#', i)));
        }
    }
    q.retain(|x| Expect::of(x, jpmodel::parse::Opts { singular: true, ..Default::default() }, &set.ps.funcs).valid());
    ctx.suite("singular query selectors", "11 singular queries in 20 positions x all documents of at most 4 (thorough 5) nodes with leaves 0, 1, -1, 'a', 'b', null, 1.0", || {
        product(ctx, &prep_all(&q, set), &docs(docs::all(4 + t as usize, &leaves, &["a", "b"])), set, NODES | PATH);
    });
    ctx.suite("sized queries", "all queries of up to 3 (thorough 4) elements over a vocabulary with singular query selectors, with and without the root identifier x all documents of at most 3 nodes and 17 larger ones", || {
        let mut q = vec![];
        for t in crate::gen::tails(&crate::gen::SING, 3 + t as usize, &set.ps.funcs) {
            if !t.is_empty() && !t.starts_with("..") {
                q.push(t.clone());
            }
            q.push(format!("${t}"));
        }
        let o = jpmodel::parse::Opts { singular: true, ..Default::default() };
        q.retain(|x| {
            let e = Expect::of(x, o, &set.ps.funcs);
            e.valid() && !e.open()
        });
        let mut ds = sweep_docs();
        ds.extend(docs(vec![json!({"a": "b", "b": [0, 1]}), json!({"a": 0, "b": ["a"]}), json!([1, 0, {"a": "a"}]), json!(["a", {"a": 1, "b": 2}]), json!({"a": -1, "b": [1, 2]}), json!({"b": "a", "a": [-1, "b"]})]));
        sweep(ctx, &q, &ds, set, NODES | PATH);
    });
    ctx.suite("selected kinds", "singular query selectors that select each of 64 values, nothing, and names and indices beyond the container", || {
        let v = docs::values();
        let mut ds = vec![];
        for x in &v {
            ds.push(json!({"a": x, "b": [10, 20, 30], "c": {"a": 1, "1": 2, "": 3, "null": 4, "true": 5, "b": 6, "\u{e9}": 7}}));
            ds.push(json!([x, [10, 20, 30], {"a": 1, "1": 2, "": 3, "null": 4}]));
        }
        for n in [2i64, 3, -3, -4, 9007199254740991, -9007199254740991, i64::MAX, i64::MIN] {
            ds.push(json!({"a": n, "b": [10, 20, 30], "c": {}}));
        }
        ds.push(json!({"a": u64::MAX, "b": [10, 20, 30]}));
        let q = strs(&["$.b[$.a]", "$.c[$.a]", "$[1][$[0]]", "$[2][$[0]]", "$..[$.a]", "$[$.a]", "$.*[$['a']]", "$.b[$.a,0,$.a]", "$.b[$.zz]", "$[?@[$.a]]", "$[?@[$[0]]]"]);
        product(ctx, &prep_all(&q, set), &docs(ds), set, NODES | PATH);
    });
    ctx.suite("queries of any length", "inner queries of 1 to 24, 31 to 33, 63 to 65 and 127 to 129 (thorough 255 to 257) segments, of names, indices and both by turns, that select a name or an index, or miss one step x containers of 0 to 17 (33) members or elements x 9 positions", || {
        let mut work = vec![];
        let mut lens: Vec<usize> = (1..=24).chain([31, 32, 33, 63, 64, 65, 127, 128, 129]).collect();
        if t {
            lens.extend([255, 256, 257]);
        }
        for n in lens {
            for kind in 0..5 {
                // the segments, innermost last, and where they lead
                let name = |i: usize| match kind {
                    0 => true,
                    1 => false,
                    2 => i % 2 == 0,
                    3 => i % 2 == 1,
                    _ => i + 1 < n,
                };
                let seg = |i: usize| match (name(i), i % 3) {
                    (true, 0) => ".a".to_string(),
                    (true, 1) => "['a']".into(),
                    (true, _) => "[\"a\"]".into(),
                    (false, 2) => "[-1]".into(),
                    (false, _) => "[0]".to_string(),
                };
                let q: String = (0..n).map(seg).collect();
                let wrap = |mut v: Value| {
                    for i in (0..n).rev() {
                        v = if name(i) { json!({"a": v}) } else { json!([v]) };
                    }
                    v
                };
                for target in [json!("k"), json!(1), json!(0), json!(-1), json!("a"), json!([]), Value::Null] {
                    let mut ds = vec![];
                    for size in if t { vec![0usize, 1, 2, 3, 4, 7, 8, 9, 16, 17, 33] } else { vec![0, 1, 2, 3, 9, 17] } {
                        let mut m = serde_json::Map::new();
                        for i in 0..size {
                            m.insert(["k", "a", "1", "0", "-1"].get(i).map(|x| x.to_string()).unwrap_or(format!("m{i}")), json!(i));
                        }
                        ds.push(json!({"a": wrap(target.clone())["a"], "c": m}));
                        let v: Vec<Value> = (0..size).map(|i| json!(i * 10)).collect();
                        ds.push(json!({"a": wrap(target.clone())["a"], "c": v}));
                        // the containers hold what the inner query would find if it started there
                        let mut w = wrap(target.clone());
                        if let Some(m) = w.as_object_mut() {
                            m.insert("c".into(), wrap(json!("k")));
                            m["c"].as_object_mut().map(|c| (1..size).for_each(|i| { c.insert(format!("k{}", if i == 1 { String::new() } else { i.to_string() }), json!(i)); }));
                            ds.push(w);
                        } else {
                            ds.push(w);
                            ds.push(json!([wrap(target.clone())[0], v]));
                            ds.push(json!([v, wrap(target.clone())[0]]));
                        }
                    }
                    let mut qs = vec![];
                    for f in ["$.c[$#]", "$.c[$#,$#]", "$..c[$#]", "$[*][$#]", "$[?@[$#]]", "$[$#]", "c[$#]", "$[1][$#]", "$..[$#]"] {
                        qs.push(f.replace('#', &q));
                    }
                    work.push((qs, ds));
                }
            }
        }
        crate::evals3::jobs(ctx, &work, NODES | PATH);
    });
    ctx.suite("implicit root", "every query of the families with the root identifier left out selects the same x documents of at most 3 (4) nodes", || {
        let mut q = vec![];
        for t in child_queries(false).into_iter().chain(desc_queries()).chain(CORPUS.iter().map(|s| s.to_string())).chain(filter_texts()) {
            let o = jpmodel::parse::Opts { singular: true, ..Default::default() };
            let r = t[1..].to_string();
            for c in [r.clone(), r.strip_prefix('.').filter(|x| !x.starts_with('.')).unwrap_or(&r).to_string()] {
                let e = Expect::of(&c, o, &set.ps.funcs);
                if e.valid() && !e.open() && !is_std(&c) {
                    q.push(c);
                }
            }
        }
        q.sort();
        q.dedup();
        product(ctx, &prep_all(&q, set), &small(3 + t as usize), set, NODES | PATH);
    });
}
