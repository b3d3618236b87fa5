//! Further exhaustive families of query texts: string literals, member names, blanks,
//! expression trees, nesting, typed calls.
use crate::adapt::*;
use crate::report::*;
use crate::syntax::*;
use jpmodel::ast::*;
use jpmodel::parse::{self, Opts};
use jpmodel::types::{Funcs, Ty};
use serde_json::json;

// ---------------------------------------------------------------------------------------
// String literals

const PIECES: &[&str] = &[
    "a", "'", "\"", "\\'", "\\\"", "\\\\", "\\/", "\\b", "\\f", "\\n", "\\r", "\\t", "\\u0041", "\\u00e9", "\\u00E9", "\\uD83D", "\\uDE00", "\\ud83d\\ude00",
    "\\u000A", "\\u", "\\u12", "\\uFFFF", "\\x", "\\0", "\\", "\u{0}", "\u{1}", "\n", "\u{1f}", "\u{7f}", "\u{e9}", "\u{1F600}", " ", "]", "\\u+041", "\\U0041", "0", "D",
];

pub fn contexts(lit: &str) -> [String; 4] {
    [
        format!("$[{lit}]"),
        format!("$[?@.a=={lit}]"),
        format!("$[?length({lit})<@[{lit}]]"),
        format!("$..a[?@[?$[{lit}]],{lit}]"),
    ]
}

/// All sequences of at most `n` pieces, in both kinds of quotes, in four contexts.
pub fn strings(ctx: &Ctx, n: usize, aspects: u32) {
    let set = std_set();
    let mut work = vec![String::new()];
    let mut level = vec![String::new()];
    for _ in 0..n {
        let mut next = vec![];
        for l in &level {
            for p in PIECES {
                next.push(format!("{l}{p}"));
            }
        }
        work.extend(next.iter().cloned());
        level = next;
    }
    ctx.par(&work, |body| {
        for q in ['\'', '"'] {
            let lit = format!("{q}{body}{q}");
            for t in contexts(&lit) {
                ctx.trans(1);
                one_fresh(ctx, &t, set, aspects);
            }
        }
    });
    ctx.sample(|| format!("string: {}", contexts(&format!("'{}'", work[work.len() / 2]))[2]));
}

/// Pieces repeated, and all pairs of pieces taken in turn, also with something else at
/// either end or in the middle.
pub fn repeated_pieces(ctx: &Ctx, sizes: &[usize], aspects: u32) {
    let set = std_set();
    let mut work: Vec<String> = vec![];
    for p in PIECES {
        for n in 3..=*sizes.last().unwrap() {
            work.push(p.repeat(n));
        }
        for q in PIECES {
            for n in sizes {
                work.push(format!("{p}{q}").repeat(*n));
                work.push(format!("{}{q}", p.repeat(*n)));
                work.push(format!("{q}{}", p.repeat(*n)));
                work.push(format!("{}{q}{}", p.repeat(*n), p.repeat(*n)));
                work.push(format!("{}{}", p.repeat(*n), q.repeat(*n)));
            }
        }
    }
    ctx.par(&work, |body| {
        for q in ['\'', '"'] {
            let lit = format!("{q}{body}{q}");
            let c = contexts(&lit);
            for t in &c[..2] {
                ctx.trans(1);
                one_fresh(ctx, t, set, aspects);
            }
        }
    });
    ctx.sample(|| format!("repeated: {}", contexts(&format!("'{}'", work[work.len() / 2]))[0]));
}

/// Every `\uXXXX` escape in upper, lower and mixed case, every surrogate pair, and what
/// may wrongly follow a high surrogate; `all` also tries every code point, written raw.
pub fn code_points(ctx: &Ctx, all: bool, aspects: u32) {
    let set = std_set();
    // valid ones are batched: many selectors in one query, whose tree is compared
    let mut batches: Vec<Vec<String>> = vec![];
    let mut singles: Vec<String> = vec![];
    let mut cur = vec![];
    for u in 0..=0xFFFFu32 {
        let forms: Vec<String> = {
            let lo = format!("\\u{u:04x}");
            let up = format!("\\u{u:04X}");
            if lo == up {
                vec![lo]
            } else {
                vec![lo, up]
            }
        };
        for f in forms {
            if u < 0x20 || (0xD800..=0xDFFF).contains(&u) {
                singles.push(f);
            } else {
                cur.push(f);
                if cur.len() == 256 {
                    batches.push(std::mem::take(&mut cur));
                }
            }
        }
    }
    let highs = 0xD800..=0xDBFFu32;
    for h in highs {
        let step = if all { 1 } else { 5 };
        for l in (0xDC00..=0xDFFFu32).filter(|l| l % step == h % step || *l == 0xDC00 || *l == 0xDFFF) {
            cur.push(if (h ^ l) & 1 == 0 { format!("\\u{h:04X}\\u{l:04x}") } else { format!("\\u{h:04x}\\u{l:04X}") });
            if cur.len() == 256 {
                batches.push(std::mem::take(&mut cur));
            }
        }
        for n in ["\\uDBFF", "\\uD800", "\\uE000", "\\u0041", "\\u0000", "a", "\\n", "\\", "\\u", "\\uDC0", "\\uDC0G", "\\UDC00", "u", "\\uFFFF"] {
            singles.push(format!("\\u{h:04X}{n}"));
        }
    }
    let mut raw: Vec<u32> = (0x20..0x3000).collect();
    raw.extend([0xD7FF, 0xE000, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x1F600, 0x10FFFE, 0x10FFFF]);
    if all {
        raw = (0x20..=0x10FFFF).collect();
    }
    for c in raw.iter().filter_map(|c| char::from_u32(*c)) {
        if c != '\'' && c != '"' && c != '\\' {
            cur.push(c.to_string());
            if cur.len() == 256 {
                batches.push(std::mem::take(&mut cur));
            }
        }
    }
    batches.push(cur);
    for c in 0..0x20u32 {
        singles.push(char::from_u32(c).unwrap().to_string());
    }
    ctx.par(&batches, |b| {
        ctx.trans(b.len() as u64);
        for q in ['\'', '"'] {
            let t = format!("$[{}]", b.iter().map(|x| format!("{q}{x}{q}")).collect::<Vec<_>>().join(","));
            one_fresh(ctx, &t, set, aspects);
            let t = format!("$[?{}]", b.iter().map(|x| format!("@=={q}{x}{q}")).collect::<Vec<_>>().join("||"));
            one_fresh(ctx, &t, set, aspects);
        }
    });
    ctx.par(&singles, |x| {
        ctx.trans(1);
        for q in ['\'', '"'] {
            for t in contexts(&format!("{q}{x}{q}")) {
                one_fresh(ctx, &t, set, aspects);
            }
        }
    });
    ctx.sample(|| format!("code points: {}", batches[batches.len() / 2][0..8].join(" ")));
}

// ---------------------------------------------------------------------------------------
// Member name shorthands and stray characters

pub fn names(ctx: &Ctx, all: bool, aspects: u32) {
    let set = std_set();
    let mut cps: Vec<u32> = (0..0x250).collect();
    cps.extend(0x2000..0x2070);
    cps.extend([0x3000, 0xD7FF, 0xE000, 0xFEFF, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x1F600, 0xE0001, 0x10FFFE, 0x10FFFF]);
    let chars: Vec<char> = cps.iter().filter_map(|c| char::from_u32(*c)).collect();
    ctx.par(&chars, |c| {
        for t in [
            format!("$.{c}"),
            format!("$.a{c}"),
            format!("$.a{c}b"),
            format!("$..{c}"),
            format!("$..a{c}"),
            format!("$.{c}.b"),
            format!("$.a{c}[0]"),
            format!("$[?@.{c}]"),
            format!("$[?@.a{c}]"),
            format!("$[?@.a{c}==1]"),
            format!("$[?@..{c}a]"),
            format!("$[?count({c})==1]"),
            format!("$[?f{c}(@)]"),
            format!("$[?{c}(@)]"),
            format!("{c}$.a"),
            format!("$.a{c}"),
            format!("${c}"),
            format!("{c}"),
            format!("$[{c}]"),
            format!("$[0{c}]"),
            format!("$[{c}0]"),
            format!("$[?@.a=={c}]"),
            format!("$[?@.a {c} 1]"),
            format!("$[?@.a=={c}1]"),
            format!("$[?@.a==1{c}]"),
            format!("$[?{c}@.a]"),
            format!("$[?@{c}.a]"),
            format!("$[?count(@{c})==1]"),
            format!("$[?count(@.*{c})==1]"),
            format!("$[?match(@{c},'a')]"),
            format!("$[1{c}2]"),
            format!("$[1:{c}2]"),
            format!("$[1{c}:2]"),
            format!("$['a'{c}'b']"),
        ] {
            ctx.trans(1);
            one_fresh(ctx, &t, set, aspects);
        }
    });
    if all {
        let ws: Vec<u32> = (0x80..=0x10FFFFu32).step_by(128).collect();
        ctx.par(&ws, |b| {
            let cs: Vec<char> = (*b..*b + 128).filter_map(char::from_u32).collect();
            if cs.is_empty() {
                return;
            }
            ctx.trans(cs.len() as u64);
            let mut t = String::from("$");
            for c in &cs {
                t.push_str(&format!(".{c}.a{c}..{c}"));
            }
            one_fresh(ctx, &t, set, aspects);
        });
    }
    // every pair of ASCII characters as a name
    let pairs: Vec<(char, char)> = (0x20..0x7f).flat_map(|a| (0x20..0x7f).map(move |b| (a as u8 as char, b as u8 as char))).collect();
    ctx.par(&pairs, |(a, b)| {
        ctx.trans(1);
        one_fresh(ctx, &format!("$.{a}{b}"), set, aspects);
        one_fresh(ctx, &format!("$[?{a}{b}]"), set, aspects);
        one_fresh(ctx, &format!("$[?@.a{a}{b}1]"), set, aspects);
        one_fresh(ctx, &format!("$[{a}{b}]"), set, aspects);
    });
}

// ---------------------------------------------------------------------------------------
// Blanks

const BLANKS: &[&str] = &[" ", "\t", "\n", "\r", "  ", "\r\n", " \t\n\r ", "\u{b}", "\u{c}", "\u{a0}", "\u{85}", "\u{2003}", "\u{2028}", "\u{feff}", "\u{200b}"];

/// Every blank (and what is not one) at every token boundary and at every pair of
/// boundaries; and at all boundaries that allow one at once.
pub fn blanks(ctx: &Ctx, corpus: &[&str], set: &Set, aspects: u32, pairs: bool) {
    let mut work: Vec<(Vec<String>, usize, usize)> = vec![];
    for c in corpus {
        let t = toks(c);
        for i in 0..=t.len() {
            work.push((t.clone(), i, i));
            if pairs {
                for j in i + 1..=t.len() {
                    work.push((t.clone(), i, j));
                }
            }
        }
        for b in ["\u{20}", "\t", "\n", "\r"] {
            let mut s = t.clone();
            for i in (0..=t.len()).rev() {
                let mut x = s.clone();
                x.insert(i, b.to_string());
                let p = parse::parse(&x.concat(), Opts::default());
                if p.query.is_some() {
                    s = x;
                }
            }
            ctx.trans(1);
            one_fresh(ctx, &s.concat(), set, aspects);
        }
    }
    ctx.par(&work, |(t, i, j)| {
        let bl: &[&str] = if i == j { BLANKS } else { &BLANKS[..3] };
        for b in bl {
            let mut x = t.clone();
            if i != j {
                x.insert(*j, b.to_string());
            }
            x.insert(*i, b.to_string());
            ctx.trans(1);
            one_fresh(ctx, &x.concat(), set, aspects);
        }
    });
}

// ---------------------------------------------------------------------------------------
// Expression trees

/// All logical expression trees with at most `n` leaves, `&&`/`||` of two or more operands,
/// each operand optionally negated, rendered with the fewest and with redundant parentheses.
pub fn tree_texts(n: usize) -> Vec<String> {
    // trees as (text, class): class 0 = basic, 1 = and-chain, 2 = or-chain
    let leaves = ["@.a", "$.b", "@.c==1", "'x'!=@.d", "count(@.*)>2"];
    let mut by: Vec<Vec<(String, u8)>> = vec![vec![]; n + 1];
    for (i, l) in leaves.iter().enumerate() {
        if n > 2 && i > 3 {
            continue;
        }
        by[1].push((l.to_string(), 0));
        by[1].push((if l.contains('=') || l.contains('>') { format!("!({l})") } else { format!("!{l}") }, 0));
    }
    let pick = |v: &Vec<(String, u8)>, cap: usize| -> Vec<(String, u8)> { v.iter().take(cap).cloned().collect() };
    for k in 2..=n {
        let mut out = vec![];
        for a in 1..k {
            let b = k - a;
            let (la, lb) = (pick(&by[a], if k >= 3 { 40 } else { 100 }), pick(&by[b], if k >= 3 { 40 } else { 100 }));
            for (x, cx) in &la {
                for (y, cy) in &lb {
                    for (op, c) in [("&&", 1u8), ("||", 2u8)] {
                        let w = |t: &String, ct: u8, first: bool| {
                            if ct > c || (ct == c && !first) {
                                format!("({t})")
                            } else {
                                t.clone()
                            }
                        };
                        let t = format!("{}{}{}", w(x, *cx, true), op, w(y, *cy, false));
                        // the same without the parentheses: another tree, as the grammar decides
                        let u = format!("{x} {op} {y}");
                        out.push((t, c));
                        out.push((u, 2));
                    }
                }
            }
        }
        let more: Vec<(String, u8)> = out.iter().flat_map(|(t, _)| [(format!("!({t})"), 0u8), (format!("(({t}))"), 0u8)]).collect();
        // interleave so that caps keep a mixture
        let mut mixed = vec![];
        let (mut i, mut j) = (0, 0);
        while i < out.len() || j < more.len() {
            if i < out.len() {
                mixed.push(out[i].clone());
                i += 7.min(out.len());
            }
            if j < more.len() {
                mixed.push(more[j].clone());
                j += 11.min(more.len());
            }
        }
        out.extend(more);
        let mut seen = std::collections::HashSet::new();
        mixed.extend(out);
        mixed.retain(|x| seen.insert(x.0.clone()));
        by[k] = mixed;
    }
    by.concat().into_iter().map(|x| x.0).collect()
}

pub fn trees(ctx: &Ctx, n: usize, aspects: u32) {
    let set = std_set();
    let v = tree_texts(n);
    ctx.par(&v, |t| {
        ctx.trans(1);
        one_fresh(ctx, &format!("$[?{t}]"), set, aspects);
    });
    ctx.sample(|| format!("trees: $[?{}]", v[v.len() / 3]));
}

// ---------------------------------------------------------------------------------------
// All queries of a size

pub fn sized(ctx: &Ctx, v: &crate::gen::Vocab, n: usize, set: &Set, aspects: u32) {
    let q = crate::gen::queries(v, n, &set.ps.funcs);
    ctx.par(&q, |t| {
        ctx.trans(1);
        one_fresh(ctx, t, set, aspects);
    });
    ctx.sample(|| format!("sized: {}", q[q.len() / 2]));
}

/// Logical expressions in every kind of place for one.
pub const PLACES: &[&str] = &[
    "$[?#]", "$[?(#)]", "$[?!(#)]", "$[?fll(#)]", "$[?!fll(#)]", "$[?gl(#,@.*)]", "$[?h(1,#,@)]", "$[?@[?#]]", "$[?count(@[?#])==1]", "$[0,?#,'x']", "$..[?#]", "$[?fll(@[?#])]", "$[?fll(fll(#))]", "$[?@.z==1&&(#)]",
    "$[?(#)||!@.z]", "$[?fvv(1)==2&&fll(#)]",
];

pub fn logic_places(ctx: &Ctx, n: usize, aspects: u32) {
    let set = ext_set();
    let v = crate::gen::exprs(&crate::gen::LOGIC, n, &set.ps.funcs);
    ctx.par(&v, |e| {
        for p in PLACES {
            ctx.trans(1);
            one_fresh(ctx, &p.replace('#', e), set, aspects);
        }
    });
    ctx.sample(|| format!("places: {}", PLACES[5].replace('#', &v[v.len() / 2])));
}

/// Token strings of the other profiles in places deeper within a query.
pub fn deep_places(ctx: &Ctx, t: usize, aspects: u32) {
    let (s, e) = (std_set(), ext_set());
    for p in ["$[?@", "$[?$", "$[?count(@", "$[?@.a==@", "$[?1<$", "$..a", "$[?length(@", "$[?@[?@", "$[?!@", "$[?@.a&&@", "$[?match(@.a,@", "$['a']", "$[*]", "$[?count(@[?$", "$[0,?@"] {
        explore(ctx, &Profile { prefix: p, ..p_seg(2 + t) }, s, aspects);
    }
    for p in ["$[?@[?", "$[?count(@[?", "$[?count(", "$[?length(", "$[?match(@.a,", "$[?match(", "$[?(", "$[?!(", "$[?!", "$[?@.a==1&&", "$[?@.a||", "$[?1==", "$[?@.a==", "$[0,?", "$..[?", "$[?(@.a)==", "$[?@.a==1||count(@.*)"] {
        explore(ctx, &Profile { prefix: p, ..p_filter(2 + t) }, s, aspects);
    }
    for p in ["$[?fll(", "$[?gl(@,", "$[?fvv(", "$[?h(1,", "$[?fnl(", "$[?!fll(", "$[?fll(fll(", "$[?fvv(fvv(", "$[?@[?fll("] {
        explore(ctx, &Profile { prefix: p, ..p_func(2 + t) }, e, aspects);
    }
    for p in ["$[?", "$[?@.a<", "$[?count(@.*)>", "$[?length(", "$[?match(@.a,"] {
        explore(ctx, &Profile { prefix: p, ..p_num(3 + t) }, s, aspects);
    }
    for p in ["$..[", "$[?@[", "$[?$[", "$[0,", "$['a',", "$[?count(@[", "$[?@.a==@[", "$[1:"] {
        explore(ctx, &Profile { prefix: p, ..p_int(3 + t) }, s, aspects);
    }
}

// ---------------------------------------------------------------------------------------
// Nesting and length: families whose parse must stay cheap

pub fn families(n: usize) -> Vec<(&'static str, String)> {
    let r = |s: &str| s.repeat(n);
    vec![
        ("parentheses", format!("$[?{}@.a{}]", r("("), r(")"))),
        ("negated parentheses", format!("$[?{}@.a{}]", r("!("), r(")"))),
        ("parenthesised comparison", format!("$[?{}@.a==1{}]", r("("), r(")"))),
        ("nested filters", format!("$[?@{}{}]", r("[?@"), r("]"))),
        ("nested filters, names", format!("$[?@.a{}==1{}]", r("[?@.b"), r("]"))),
        ("nested filters, root", format!("${}{}", r("[?$.a"), r("]"))),
        ("nested queries in calls", format!("$[?count(@{}.*{})==1]", r("[?count(@"), r(")==1]"))),
        ("nested value calls", format!("$[?{}@.a{}==1]", r("length("), r(")"))),
        ("segments", format!("${}", r(".a"))),
        ("bracketed segments", format!("${}", r("['a']"))),
        ("descendant segments", format!("${}", r("..a"))),
        ("selectors", format!("$[{}0]", r("'a',"))),
        ("filter selectors", format!("$[{}?@.a]", r("?@.b,"))),
        ("and", format!("$[?@.a{}]", r("&&@.b"))),
        ("or", format!("$[?@.a{}]", r("||@.b==1"))),
        ("and or", format!("$[?@.a{}]", r("&&@.b||@.c"))),
        ("filter segments", format!("$[?@.a{}]", r("[?@.b==1]"))),
        ("blanks", format!("$[{}0{}]", r(" "), r("\n"))),
        ("long name", format!("$.{}", r("a"))),
        ("long string", format!("$['{}']", r("\\u00e9'\"".trim_end_matches(['\'', '"'])))),
        ("long digits", format!("$[?@.a==1.{}]", r("5"))),
        // not well-formed
        ("open parentheses", format!("$[?{}@.a]", r("("))),
        ("open brackets", format!("$[?@{}", r("[?@"))),
        ("open calls", format!("$[?{}@", r("count("))),
        ("nots", format!("$[?{}@.a]", r("!"))),
        ("open segments", format!("${}", r("["))),
        ("dots", format!("${}", r("."))),
        ("closers", format!("$[?@.a{}", r(")"))),
        ("comparison in parentheses compared", format!("$[?{}@.a==1{}==2]", r("("), r(")"))),
        ("unclosed call after nesting", format!("$[?count({}@.a{}]", r("("), r(")"))),
        ("logical arguments", format!("$[?{}@.a{}]", r("fll("), r("&&@.b)"))),
        ("nodes arguments", format!("$[?{}@{}]", r("fnn("), r(")"))),
        ("ill-typed calls", format!("$[?{}@.a{}]", r("fll(!fvv("), r("))"))),
    ]
}

/// Long texts whose parts differ from one another.
pub fn long_texts(n: usize) -> Vec<(&'static str, String)> {
    let j = |f: &dyn Fn(usize) -> String, sep: &str| (0..n).map(f).collect::<Vec<_>>().join(sep);
    vec![
        ("indices", format!("$[{}]", j(&|i| format!("{}", i as i64 * if i % 2 == 0 { 1 } else { -1 }), ","))),
        ("slices", format!("$[{}]", j(&|i| format!("{}:{}:{}", i, i + 1, -(i as i64)), ","))),
        ("quoted names", format!("$[{}]", j(&|i| if i % 2 == 0 { format!("'n{i}'") } else { format!("\"\\u00e9{i}\"") }, ", "))),
        ("name segments", format!("$.{}", j(&|i| format!("n{i}"), "."))),
        ("descendant name segments", format!("$..{}", j(&|i| format!("\u{e9}{i}"), ".."))),
        ("mixed segments", format!("${}", j(&|i| ["..*".to_string(), format!("[{i}]"), format!(".a{i}"), format!("['b',{i}:]"), format!("[?@.a=={i}]"), format!("..[{i},*]")][i % 6].clone(), ""))),
        ("mixed selectors", format!("$[{}]", j(&|i| ["*".to_string(), format!("{i}"), format!("'a{i}'"), format!(":{i}"), format!("?@.a=={i}"), "?!@.b".to_string()][i % 6].clone(), ","))),
        ("mixed logic", format!("$[?{}]", (0..n).map(|i| format!("{}@.a{i}{}", ["", "(", "!(", "!"][i % 4], ["&&", "||@.x)&&", ")||", "||"][i % 4])).collect::<String>() + "@.z")),
        ("comparisons", format!("$[?{}]", j(&|i| format!("@.a{i}{}{}", ["==", "!=", "<", "<=", ">", ">="][i % 6], ["1.5", "'x'", "$.b", "null", "-3", "length(@.c)"][i % 6]), " && "))),
        ("calls", format!("$[?{}]", j(&|i| [format!("count(@.a{i})=={i}"), format!("match(@.a,'{i}')"), format!("!search(@.b,\"{i}\")"), format!("value(@..a{i})!=true")][i % 4].clone(), "||"))),
        ("integers", format!("$[?{}]", j(&|i| format!("@=={}", 3i64.wrapping_pow(i as u32 % 33)), "||"))),
        ("long call name", format!("$[?{}(@)]", "a".repeat(n))),
        ("long digits in an index", format!("$[{}]", "1".repeat(n))),
        ("long exponent", format!("$[?@==1e{}1]", "0".repeat(n))),
        ("long fraction", format!("$[?@==0.{}1]", "0".repeat(n))),
        ("long integer", format!("$[?@==1{}]", "0".repeat(n.min(300)))),
        ("long name of wide characters", format!("$.{}", "\u{1F600}".repeat(n))),
        ("escapes", format!("$['{}']", j(&|i| ["\\n", "\\'", "\\\\", "\\uD83D\\uDE00", "\\/", "\u{e9}", "\""][i % 7].to_string(), ""))),
        ("escapes in a literal", format!("$[?@==\"{}\"]", j(&|i| ["\\t", "\\\"", "\\\\", "\\u00e9", "'", "\u{1F600}", " "][i % 7].to_string(), ""))),
        ("blanks everywhere", { let b = " \n\t\r".repeat(n); format!("${b}.a{b}[{b}0{b},{b}1{b}:{b}2{b}:{b}1{b},{b}?{b}@{b}.b{b}=={b}1{b}&&{b}!{b}({b}@.c{b}||{b}count({b}@.*{b}){b}>{b}1{b}){b}]") }),
        ("trailing blanks", format!("$.a{}", " ".repeat(n))),
        ("leading blanks", format!("{}$.a", " ".repeat(n))),
        ("trailing comma after", format!("$[{}]", "0,".repeat(n))),
        ("missing operand after", format!("$[?{}]", "@.a&&".repeat(n))),
        ("error at the end", format!("${}.", ".\u{e9}".repeat(n))),
        ("error in the last selector", format!("$[{}01]", "'\u{e9}',".repeat(n))),
        ("ill-typed at the end", format!("$[?{}length(@.*)==1]", "@.\u{e9}&&".repeat(n))),
        ("unknown name at the end", format!("$[?{}nope(@)]", "@.\u{e9}||".repeat(n))),
        ("closing after", format!("$[?{}@.a{})]", "(".repeat(n), ")".repeat(n))),
    ]
}

/// Segments of which all but one are of one kind.
pub fn odd_one_out(n: usize) -> Vec<String> {
    let same = [".a", "[0]", "['a']", "[-1]", "..a", ".*", "[0,1]"];
    let odd = ["", ".b", "[1]", "[-2]", "[\"b\"]", ".*", "[*]", "[:]", "[0:1]", "[?@.a]", "..b", "..*", "..[0]", "[0,1]", "['a','a']", "[?@]", "[0,*]"];
    let mut v = vec![];
    for s in same {
        for o in odd {
            let mut at = vec![0, 1, n / 2, n - 1, n];
            at.dedup();
            for k in at {
                let t = format!("{}{o}{}", s.repeat(k.min(n)), s.repeat(n - k.min(n)));
                v.push(format!("${t}"));
                if k == n / 2 || k == n {
                    v.push(format!("$[?@{t}]"));
                    v.push(format!("$[?@{t}==1]"));
                    v.push(format!("$[?length($.b)<=$.a{t}]"));
                    v.push(format!("$[?count(@{t})>1]"));
                    v.push(format!("$[?length(@{t})>1]"));
                    v.push(format!("$[?length(${t})>1]"));
                    v.push(format!("$[?match(@.b,${t})]"));
                    v.push(format!("$[?!search(@{t},'a')]"));
                    v.push(format!("$[?value(${t})==1]"));
                    v.push(format!("$[?1<${t}&&!@{t}]"));
                    v.push(format!("$[?!${t}||@.b]"));
                    v.push(format!("$[?@.b[?@.c==${t}]]"));
                }
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

pub fn odd_ones(ctx: &Ctx, sizes: &[usize], aspects: u32) {
    let set = std_set();
    let work: Vec<String> = sizes.iter().flat_map(|n| odd_one_out(*n)).collect();
    ctx.par(&work, |t| {
        ctx.trans(1);
        one_fresh(ctx, t, set, aspects);
    });
    ctx.sample(|| format!("one odd segment: {}", work[work.len() / 20]));
}

/// Texts with one part longer than 16 bits can count.
pub fn huge(ctx: &Ctx, aspects: u32) {
    let set = std_set();
    let mut work = vec![];
    for n in [65534usize, 65536, 70001] {
        let r = |s: &str| s.repeat(n);
        work.extend([
            format!("$.{}", r("a")),
            format!("$.{}.b", r("\u{e9}")),
            format!("$..{}[0]", r("a")),
            format!("$['{}']", r("a")),
            format!("$[\"{}\",1]", r("\u{1F600}")),
            format!("$['{}']", r("\\n")),
            format!("$['{}\\u0041']", r("a")),
            format!("$[?@.a=='{}']", r("a")),
            format!("$[?@.a==\"{}\"&&@.b]", r("\\\"")),
            format!("$[?match(@.a,'{}')]", r("a")),
            format!("$[?{}@.a]", r(" ")),
            format!("${}.a", r("\n")),
            format!("$[0,{}1]", r(" ")),
            format!("$[?@.{}==1.5]", r("b")),
            format!("$[?@.a==0.{}1]", r("0")),
            format!("$[?@.a==1e{}1]", r("0")),
            format!("$.{}.", r("a")),
            format!("$['{}", r("a")),
            format!("$[0{}", r(" ")),
            format!("$.a{}", r(" ")),
            format!("{}$.a", r(" ")),
            format!("$[?{}(@)]", r("a")),
            format!("$[{}]", r("1")),
            format!("$['{}\\x']", r("a")),
        ]);
    }
    for n in [20000usize, 33000] {
        let r = |s: &str| s.repeat(n);
        work.extend([
            format!("${}", r(".a")),
            format!("${}", r("[0]")),
            format!("$[{}1]", r("0,")),
            format!("$[{}'a']", r("*,")),
            format!("$[{}:]", r("1:2,")),
            format!("$[{}?@.a]", r("'a', ")),
            format!("${}", r("..*")),
            format!("$[?@{}==1]", r(".a")),
            format!("$[?count(@{})==1]", r("[*]")),
            format!("$[?{}1]", r("@.a,?")),
            format!("${}.", r(".a")),
            format!("$[{}]", r("0,")),
            format!("${}[01]", r("[0]")),
        ]);
    }
    ctx.par(&work, |t| {
        ctx.trans(1);
        one_fresh(ctx, t, set, aspects);
    });
    ctx.sample(|| format!("huge: {}...", &work[0][..20]));
}

/// Nested and long queries of the given sizes, with every aspect of the property.
pub fn long(ctx: &Ctx, sizes: &[usize], aspects: u32) {
    let (s, e) = (std_set(), ext_set());
    let mut work = vec![];
    for n in sizes {
        for (_, t) in families(*n).into_iter().chain(long_texts(*n)) {
            let set = if t.contains("fll") || t.contains("fnn") { e } else { s };
            work.push((t, set));
        }
    }
    work.sort_by_key(|w| std::cmp::Reverse(w.0.len()));
    ctx.par(&work, |(t, set)| {
        ctx.trans(1);
        one_fresh(ctx, t, set, aspects);
    });
    ctx.sample(|| format!("long: {}", long_texts(7)[7].1));
}

/// Processor time of this thread, in seconds.
fn cpu() -> f64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
}

/// Parse a text with each parser, and display what comes out: none may take long.
/// They take less than a millisecond for the texts this is called with.
fn timed(ctx: &Ctx, text: &str, set: &Set, aspects: u32, about: &str) -> bool {
    for p in PARSERS {
        crate::watch::begin(0, aspects, set.name, text, "");
        let t = cpu();
        let _ = set.ps.parse(p, text);
        let t = cpu() - t;
        if t > 4.0 {
            if aspects & TOTAL != 0 {
                ctx.fail(Violation {
                    kind: "parse",
                    who: p.name().into(),
                    what: "takes-too-long".into(),
                    input: text.to_string(),
                    data: json!({"text": text, "funcs": set.name, "aspects": aspects}),
                    msg: format!("{about}: {t:.1} s"),
                });
            }
            return false;
        }
    }
    true
}

/// What closes the brackets and quotes of a unit, innermost first.
fn closer(unit: &str) -> String {
    let mut st = vec![];
    for c in unit.chars() {
        match c {
            '(' => st.push(')'),
            '[' => st.push(']'),
            ')' | ']' => {
                if st.last() == Some(&c) {
                    st.pop();
                }
            }
            _ => {}
        }
    }
    st.iter().rev().collect()
}

/// Every unit of one or two (or three) tokens, repeated `k` times around a core, closed,
/// not closed, closed once less or once more: where a parser tries alternatives one after
/// the other, nesting must not multiply the tries.
pub fn pumped(ctx: &Ctx, three: bool, k: usize, aspects: u32) {
    let tok = [
        "(", ")", "!", "[", "[?", "[?@", "@", "$", ".a", "..a", "['a']", "'a'", "1", "-1.5e2", "count(", "length(", "match(", "value(", "nope(", "fll(", "fvv(", "fnn(", "gl(", "@.a", "@.*", "&&", "||", "==", "<", ",", " ", ":", "*", "true", "]",
    ];
    let mut units: Vec<String> = tok.iter().map(|s| s.to_string()).collect();
    for a in tok {
        for b in tok {
            units.push(format!("{a}{b}"));
            if three {
                for c in tok {
                    units.push(format!("{a}{b}{c}"));
                }
            }
        }
    }
    for u in ["(@.a&&", "(@.a||", "(@.a==", "!(@.a&&(", "[?@.a&&@", "[?@.a==1||@", "gl(@.a,", "match(@.a,", "h(1,@.a,", "(1==", "([?", "(@[?", "count(@[?", "value(@[?count(", "[0,?@", "['a',?(", "[?!(@", "(!(", "((", "@.a==(", "@[?@", "$[?$", "length(value(", "fll(gl(", "fll((", "fll(!(", "(fll("] {
        units.push(u.into());
    }
    let set = ext_set();
    ctx.par(&units, |u| {
        let c = closer(u);
        let rest: String = c.clone();
        let mut n = 0;
        'all: for (pre, post) in [("$[?", "]"), ("$", ""), ("$[?@.a==", "]"), ("$[?count(", ")>1]"), ("$[?(", ")&&@.b]"), ("$[?@", "==1]")] {
            for core in ["@.a", "@.a==1", "1", ".b", ""] {
                for closers in [k, 0, k - 1, k + 1] {
                    if rest.is_empty() && closers != k {
                        continue;
                    }
                    let t = format!("{pre}{}{core}{}{post}", u.repeat(k), rest.repeat(closers));
                    n += 1;
                    if !timed(ctx, &t, set, aspects, "repeated parts") {
                        break 'all;
                    }
                }
            }
        }
        ctx.state(n);
        ctx.trace(n * PARSERS.len() as u64);
        ctx.trans(n);
    });
    ctx.sample(|| format!("repeated: {}", units[units.len() / 2].repeat(3)));
}

/// Parse every family at every size up to `n` in every parser; no single parse may take
/// longer than some seconds (they take well under a millisecond).
pub fn nesting(ctx: &Ctx, n: usize, big: &[usize], aspects: u32) {
    let kinds = families(1).len();
    let work: Vec<usize> = (0..kinds).collect();
    let sets = [std_set(), ext_set()];
    ctx.par(&work, |k| {
        let mut sizes: Vec<usize> = (1..=n).collect();
        sizes.extend(big);
        let mut slow;
        for sz in sizes {
            let (name, text) = families(sz)[*k].clone();
            let set = if text.contains("fll") || text.contains("fnn") { sets[1] } else { sets[0] };
            ctx.trans(1);
            if !ctx.fresh((set.name, &text)) {
                continue;
            }
            // time each parser on its own first
            slow = !timed(ctx, &text, set, aspects, &format!("{name} of size {sz}"));
            if slow {
                break;
            }
            one(ctx, &text, set, aspects);
        }
    });
}

/// The families of nested queries, parsed on a thread with the stack that threads have
/// unless asked for more (2 MiB).
pub fn small_stack(ctx: &Ctx, sizes: &[usize], aspects: u32) {
    let kinds = families(1).len();
    let work: Vec<(usize, usize)> = (0..kinds).flat_map(|k| sizes.iter().map(move |n| (k, *n))).collect();
    let sets = [std_set(), ext_set()];
    ctx.par(&work, |(k, sz)| {
        let (_, text) = families(*sz)[*k].clone();
        let set = if text.contains("fll") || text.contains("fnn") { sets[1] } else { sets[0] };
        std::thread::scope(|s| {
            let t = std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(s, || {
                for p in PARSERS {
                    crate::watch::begin(0, aspects, set.name, &text, "");
                    let _ = set.ps.parse(p, &text);
                }
                crate::watch::end();
            });
            let _ = t.unwrap().join();
        });
        ctx.state(1);
        ctx.trans(PARSERS.len() as u64);
        ctx.trace(PARSERS.len() as u64);
    });
}

// ---------------------------------------------------------------------------------------
// Function calls: every signature with every combination of argument forms

const ARGS: &[&str] = &[
    "1", "'s'", "true", "null", "@", "@.a", "$['a'][0]", "@.*", "$..a", "@[0,1]", "@[?@.x]", "@.a==1", "@.a&&@.b", "!@.a", "(@.a)", "(1)", "length(@.a)", "count(@.*)",
    "value(@..a)", "match(@.a,'x')", "fvv(1)", "fvl(1)", "fvn(1)", "fnn(@.*)", "fnl(@.*)", "fll(@.a)", "fln(@.a)", "zn()", "zl()", "zv()", "nope(@)", "1==1", "@.*==1", "!1", "zn()==1",
    "fvn(1)&&@.a", "fvv(1)&&@.a", "count(@.a==1)", "length(@.*)", "match(@.a)", "fvv(1)==2", "-0.5e1", "\"s\"", "!fvl(1)", "!(fnl(@)||zl())",
];

pub fn typed_calls(ctx: &Ctx, deep: bool, aspects: u32) {
    let set = ext_set();
    let fs: &Funcs = &set.ps.funcs;
    let mut calls: Vec<String> = vec![];
    for (n, s) in fs {
        match s.params.len() {
            0 => {
                calls.push(format!("{n}()"));
                for a in ARGS {
                    calls.push(format!("{n}({a})"));
                }
            }
            1 => {
                calls.push(format!("{n}()"));
                for a in ARGS {
                    calls.push(format!("{n}({a})"));
                    calls.push(format!("{n}({a},@.a)"));
                    calls.push(format!("{n}(1, {a})"));
                }
            }
            2 => {
                for a in ARGS {
                    calls.push(format!("{n}({a})"));
                    for b in ARGS {
                        calls.push(format!("{n}({a}, {b})"));
                    }
                    calls.push(format!("{n}(@.a,@.a,{a})"));
                }
            }
            _ => {
                for a in ARGS {
                    for b in ARGS {
                        for c in ARGS {
                            if deep || (ARGS.iter().position(|x| x == a).unwrap() + ARGS.iter().position(|x| x == b).unwrap() * 3 + ARGS.iter().position(|x| x == c).unwrap() * 5) % 7 == 0 {
                                calls.push(format!("{n}({a},{b},{c})"));
                            }
                        }
                    }
                }
            }
        }
    }
    ctx.par(&calls, |c| {
        let ps: Vec<String> = vec![
            format!("$[?{c}]"),
            format!("$[?!{c}]"),
            format!("$[?{c}==1]"),
            format!("$[?'s'<{c}]"),
            format!("$[?@.a && {c}]"),
            format!("$[?({c})||@.a]"),
            format!("$[?fll({c})]"),
            format!("$[?fnl({c})]"),
            format!("$[?fvl({c})]"),
            format!("$[?@.a[?{c}]]"),
        ];
        for t in ps {
            ctx.trans(1);
            one_fresh(ctx, &t, set, aspects);
        }
    });
    ctx.sample(|| format!("typed calls: $[?{}]", calls[calls.len() / 3]));
    // the standard signatures, with every argument form, in a parser without extensions
    let std = std_set();
    let mut v: Vec<String> = vec![];
    for n in ["length", "count", "value", "match", "search", "Length", "lengt", "length1", "count_", "mat", "x"] {
        for a in ARGS {
            v.push(format!("$[?{n}({a})]"));
            v.push(format!("$[?{n}({a})==1]"));
            for b in ARGS {
                v.push(format!("$[?{n}({a},{b})]"));
                v.push(format!("$[?!{n}({a},{b})]"));
                v.push(format!("$[?{n}({a},{b})!=@.a]"));
            }
        }
    }
    ctx.par(&v, |t| {
        ctx.trans(1);
        one_fresh(ctx, t, std, aspects);
    });
    // a signature registered again replaces the former one; standard ones can be replaced
    if aspects & ACCEPT_WF != 0 {
        re_registration(ctx, aspects);
    }
}

/// The functions of the arity suite: every list of three to `n` parameter types (for more
/// than four, those of at most two kinds in turn).
pub fn arity_set() -> &'static Set {
    use jpmodel::types::{standard, Sig};
    static S: std::sync::OnceLock<Set> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        let mut f = standard();
        for n in 3..=7u32 {
            for k in 0..3usize.pow(n) {
                let mut x = k;
                let tys: Vec<usize> = (0..n)
                    .map(|_| {
                        let d = x % 3;
                        x /= 3;
                        d
                    })
                    .collect();
                if n > 4 && !(tys.iter().enumerate().all(|(i, t)| *t == tys[i % 2]) || tys[1..].iter().all(|t| *t == tys[1]) || tys[..n as usize - 1].iter().all(|t| *t == tys[0])) {
                    continue;
                }
                let name: String = tys.iter().map(|t| ["v", "l", "n"][*t]).collect();
                f.insert(format!("q_{name}"), Sig { params: tys.iter().map(|t| [Ty::Value, Ty::Logical, Ty::Nodes][*t]).collect(), ret: Ty::Logical });
            }
        }
        Set { name: "arity", ps: Parsers::new(&f) }
    })
}

/// Functions of three to seven parameters: too few and too many arguments, and each
/// argument in turn of another form.
pub fn arities(ctx: &Ctx, aspects: u32) {
    let set = arity_set();
    let names: Vec<&String> = set.ps.funcs.keys().filter(|n| n.starts_with("q_")).collect();
    let forms = ["1", "@.a", "@.*", "@.a==1", "(@.a)", "!@.a", "length(@)", "match(@,'a')", "nope()", "'s'"];
    ctx.par(&names, |n| {
        let tys = &n[2..];
        let good: Vec<&str> = tys.chars().map(|c| match c { 'v' => "1", 'l' => "@.a==1", _ => "@.*" }).collect();
        let mut v: Vec<Vec<&str>> = vec![];
        for extra in ["1", "@.a", "@.*", "@.a==1"] {
            for k in 0..=4 {
                let mut g = good.clone();
                g.extend(vec![extra; k]);
                v.push(g);
            }
            let mut g = good.clone();
            g.insert(0, extra);
            v.push(g);
        }
        for k in 0..good.len() {
            v.push(good[..k].to_vec());
            v.push(good[k..].to_vec());
            v.push(vec!["@.a"; k]);
            for f in forms {
                let mut g = good.clone();
                g[k] = f;
                v.push(g.clone());
                // and another one that is wrong after it
                for j in k + 1..good.len() {
                    let mut h = g.clone();
                    h[j] = "(1)";
                    v.push(h.clone());
                    h[j] = "@.a";
                    v.push(h);
                }
            }
        }
        for k in 0..good.len() + 4 {
            v.push(vec!["@"; k]);
        }
        for a in v {
            for t in [format!("$[?{n}({})]", a.join(",")), format!("$[?@.a||!{n}( {} )]", a.join(" , "))] {
                ctx.trans(1);
                one_fresh(ctx, &t, set, aspects);
            }
        }
    });
    ctx.sample(|| "arities: $[?q_vln(1,@.a==1,@.*,@.*)]".to_string());
}

fn re_registration(ctx: &Ctx, aspects: u32) {
    use jpmodel::types::{standard, Sig};
    let tys = [Ty::Value, Ty::Logical, Ty::Nodes];
    for n in ["length", "match", "a", "a1_b"] {
        for p in tys {
            for r in tys {
                let mut f = standard();
                f.insert(n.into(), Sig { params: vec![p], ret: r });
                let set = Set { name: Box::leak(format!("re:{n}:{p:?}:{r:?}").into_boxed_str()), ps: Parsers::new(&f) };
                for a in ARGS {
                    for t in [format!("$[?{n}({a})]"), format!("$[?{n}({a})==1]"), format!("$[?{n}({a},'x')]")] {
                        ctx.trans(1);
                        one_fresh(ctx, &t, &set, aspects);
                    }
                }
            }
        }
    }
}

/// A function set named in a replay file.
pub fn set_named(n: &str) -> &'static Set {
    use jpmodel::types::{standard, Sig};
    let x: Vec<&str> = n.split(':').collect();
    if n == "arity" {
        return arity_set();
    }
    if x.len() == 3 && x[0] == "ints" {
        return Box::leak(Box::new(Set { name: Box::leak(n.to_string().into_boxed_str()), ps: Parsers::with_ints(&standard(), x[1].parse().unwrap(), x[2].parse().unwrap()) }));
    }
    if x.len() == 4 && x[0] == "re" {
        let ty = |s: &str| match s {
            "Value" => Ty::Value,
            "Logical" => Ty::Logical,
            _ => Ty::Nodes,
        };
        let mut f = standard();
        f.insert(x[1].into(), Sig { params: vec![ty(x[2])], ret: ty(x[3]) });
        return Box::leak(Box::new(Set { name: Box::leak(n.to_string().into_boxed_str()), ps: Parsers::new(&f) }));
    }
    set_by_name(n)
}

// ---------------------------------------------------------------------------------------
// I-JSON integers

fn int_places(n: &str) -> [String; 25] {
    [
        format!("$[{n}]"),
        format!("$[{n}:]"),
        format!("$[:{n}]"),
        format!("$[::{n}]"),
        format!("$[{n}:{n}:{n}]"),
        format!("$[1:{n}]"),
        format!("$[1:2:{n}]"),
        format!("$[ {n} : 1]"),
        format!("$..[{n}]"),
        format!("$[0,{n}]"),
        format!("$['a',{n},1:{n}]"),
        format!("$[?@[{n}]]"),
        format!("$[?@[{n}]==1]"),
        format!("$[?1<$[{n}]]"),
        format!("$[?@[{n}:]]"),
        format!("$[?@[:1:{n}]]"),
        format!("$[?count(@[{n}])==1]"),
        format!("$[?length(@[{n}])==1]"),
        format!("$[?count(@[{n},1:{n}])==1]"),
        format!("$[?@[?@[{n}]]]"),
        format!("$[$[{n}]]"),
        format!("$[$.a[{n}]]"),
        format!("[{n}].a"),
        format!("[{n}:2]"),
        // number literals have no such range
        format!("$[?@=={n}]"),
    ]
}

/// Parsers whose range of indices was configured accept exactly that range.
pub fn configured_range(ctx: &Ctx, aspects: u32) {
    let m = (1i64 << 53) - 1;
    let mut rs: Vec<(i64, i64)> = vec![];
    for lo in -4..=4 {
        for hi in -4..=4 {
            rs.push((lo, hi));
        }
    }
    rs.extend([(-10, 12), (0, 99), (0, i64::MAX), (i64::MIN, 0), (i64::MIN, i64::MAX), (-m - 1, m + 1), (-m + 1, m - 1), (0, m), (-128, 127), (0, 255), (-32768, 32767), (i32::MIN as i64, i32::MAX as i64), (m, m), (-m, -m), (5, i64::MAX - 1), (i64::MIN + 1, -5)]);
    ctx.par(&rs, |(lo, hi)| {
        let set = set_named(&format!("ints:{lo}:{hi}"));
        let mut v: Vec<i128> = (-13..=13).collect();
        for c in [*lo as i128, *hi as i128, m as i128, -m as i128, i64::MAX as i128, i64::MIN as i128, 100, 128, 256, -128, 32768, 1 << 31, -(1 << 31), 1 << 32] {
            v.extend(c - 2..=c + 2);
        }
        v.sort();
        v.dedup();
        let mut ts: Vec<String> = v.iter().map(|x| x.to_string()).collect();
        ts.extend(["-0", "00", "01", "-01", "+1", "1.0", "1e0", "0x1"].map(String::from));
        for n in ts {
            for t in int_places(&n) {
                ctx.trans(1);
                one_fresh(ctx, &t, set, aspects);
            }
        }
    });
    ctx.sample(|| "with the range -3..=2 configured: $[1:-3]".to_string());
}

/// Every integer around the powers of two and ten that matter, in every integer position.
pub fn int_range(ctx: &Ctx, aspects: u32) {
    let set = std_set();
    let mut v: Vec<i128> = vec![];
    let mut around = |c: i128, k: i128| {
        for d in -k..=k {
            v.push(c + d);
            v.push(-(c + d));
        }
    };
    around(0, 12);
    for p in 3..=70u32 {
        around(1i128 << p, 2);
    }
    for p in 1..=25u32 {
        around(10i128.pow(p), 2);
    }
    around((1 << 53) - 1, 40);
    around(i64::MAX as i128, 3);
    around(u64::MAX as i128, 3);
    around(i32::MAX as i128, 3);
    v.sort();
    v.dedup();
    let mut texts: Vec<String> = v.iter().map(|x| x.to_string()).collect();
    for d in [30, 40, 309, 400] {
        texts.push("9".repeat(d));
        texts.push(format!("-{}", "9".repeat(d)));
        texts.push(format!("1{}", "0".repeat(d)));
    }
    ctx.par(&texts, |n| {
        for t in int_places(n) {
            ctx.trans(1);
            one_fresh(ctx, &t, set, aspects);
        }
    });
    ctx.sample(|| format!("integers: $[{}]", texts[texts.len() - 20]));
}

// ---------------------------------------------------------------------------------------
// Numbers

/// Number literals: sign x integer part x fraction x exponent, and their values.
pub fn numbers(ctx: &Ctx, aspects: u32) {
    let set = std_set();
    let ints = ["0", "1", "9", "10", "12", "100", "123456789", "9007199254740991", "9007199254740992", "9223372036854775807", "9223372036854775808", "18446744073709551616", "00", "01", ""];
    let fracs = ["", ".0", ".1", ".5", ".10", ".05", ".000", ".123456789", "."];
    let exps = ["", "e0", "e1", "E2", "e+1", "e-1", "e-0", "E+0", "e00", "e-05", "e15", "e-20", "e22", "e23", "e100", "e", "e+", "e-", "e1.5"];
    let mut v = vec![];
    for s in ["", "-", "+", "--"] {
        for i in ints {
            for f in fracs {
                for e in exps {
                    v.push(format!("{s}{i}{f}{e}"));
                }
            }
        }
    }
    ctx.par(&v, |n| {
        ctx.trans(1);
        for t in [format!("$[?@=={n}]"), format!("$[?{n}<@.a]"), format!("$[?length({n})!={n}]")] {
            one_fresh(ctx, &t, set, aspects);
        }
    });
    ctx.sample(|| format!("numbers: $[?@=={}]", v[v.len() / 5]));
}

/// Slices and indices: every combination of present/absent bounds and small values, with
/// blanks; the tree must carry exactly these numbers.
pub fn slice_forms(ctx: &Ctx, aspects: u32) {
    let set = std_set();
    let vals = ["", "0", "1", "-1", "2", "-3", "10"];
    let mut v = vec![];
    for a in vals {
        for b in vals {
            v.push(format!("{a}:{b}"));
            v.push(format!("{a} : {b}"));
            for c in vals {
                v.push(format!("{a}:{b}:{c}"));
                v.push(format!("{a} :{b} : {c}"));
                v.push(format!(" {a}: {b}:\n{c} "));
            }
        }
    }
    ctx.par(&v, |x| {
        ctx.trans(1);
        for t in [format!("$[{x}]"), format!("$..[{x},1]"), format!("$[?@[{x}]]"), format!("$['a',{x}]"), format!("$[?count(@[{x}])>1]")] {
            one_fresh(ctx, &t, set, aspects);
        }
    });
}

pub fn render_all(q: &Query) -> String {
    jpmodel::render::query(q)
}
