//! Checks of the seven parsers against the reference grammar.
use crate::adapt::*;
use crate::report::*;
use jpmodel::ast::*;
use jpmodel::parse::{self, Opts, Parsed};
use jpmodel::types::{self, Funcs, Sig, Ty, Typing};
use serde_json::json;
use std::sync::OnceLock;

pub const ACCEPT: u32 = 1;
pub const TREE: u32 = 2;
pub const ROUND: u32 = 4;
pub const ERRKIND: u32 = 8;
pub const CLASSIFY: u32 = 16;
pub const TOTAL: u32 = 32;
pub const SPANS: u32 = 64;
/// acceptance, but only where the text is derivable from the grammar: judge typing/range
pub const ACCEPT_WF: u32 = 128;
/// every way to parse gives the same
pub const ENTRY: u32 = 256;

pub fn ext_funcs() -> Funcs {
    let mut f = types::standard();
    let tys = [(Ty::Value, 'v'), (Ty::Logical, 'l'), (Ty::Nodes, 'n')];
    for (p, pc) in tys {
        for (r, rc) in tys {
            // fxy: one parameter of type x, result of type y
            f.insert(format!("f{pc}{rc}"), Sig { params: vec![p], ret: r });
        }
    }
    for (r, rc) in tys {
        f.insert(format!("z{rc}"), Sig { params: vec![], ret: r });
        f.insert(
            format!("g{rc}"),
            Sig { params: vec![Ty::Logical, Ty::Nodes], ret: r },
        );
    }
    f.insert("h".into(), Sig { params: vec![Ty::Value, Ty::Logical, Ty::Nodes], ret: Ty::Logical });
    // names that begin like the literals
    f.insert("nullable".into(), Sig { params: vec![Ty::Value], ret: Ty::Value });
    f.insert("true_".into(), Sig { params: vec![Ty::Nodes], ret: Ty::Logical });
    f.insert("false1".into(), Sig { params: vec![], ret: Ty::Nodes });
    f
}

pub struct Set {
    pub name: &'static str,
    pub ps: Parsers,
}

pub fn std_set() -> &'static Set {
    static S: OnceLock<Set> = OnceLock::new();
    S.get_or_init(|| Set {
        name: "std",
        ps: Parsers::new(&types::standard()),
    })
}
pub fn ext_set() -> &'static Set {
    static S: OnceLock<Set> = OnceLock::new();
    S.get_or_init(|| Set {
        name: "ext",
        ps: Parsers::new(&ext_funcs()),
    })
}
pub fn set_by_name(n: &str) -> &'static Set {
    match n {
        "ext" => ext_set(),
        "custom" => crate::custom::set(),
        _ => std_set(),
    }
}

#[derive(Debug, Clone)]
pub struct Expect {
    pub parsed: Parsed,
    pub typing: Typing,
    pub canon: Option<Query>,
}

impl Expect {
    pub fn of(text: &str, o: Opts, funcs: &Funcs) -> Expect {
        let parsed = parse::parse(text, o);
        let mut typing = Typing::default();
        if let Some(q) = &parsed.query {
            types::check_query(q, funcs, &mut typing);
        }
        let canon = parsed.query.as_ref().map(|q| q.canon());
        Expect { parsed, typing, canon }
    }
    pub fn valid(&self) -> bool {
        self.parsed.query.is_some() && self.typing.ok()
    }
    /// the specification does not settle this text
    pub fn open(&self) -> bool {
        self.parsed.huge || self.parsed.loose_sel || (self.parsed.query.is_some() && self.typing.ok() && self.typing.loose > 0)
    }
    fn reason(&self) -> String {
        if self.parsed.range {
            "integer out of the I-JSON range".into()
        } else if self.parsed.query.is_none() {
            format!("malformed at character {}", self.parsed.far)
        } else if !self.typing.ok() {
            format!(
                "ill-typed (unknown functions {}, type errors {}, non-singular comparands {})",
                self.typing.name, self.typing.typ, self.typing.nonsingular_cmp
            )
        } else {
            "well-formed and well-typed".into()
        }
    }
}

pub struct Found {
    pub who: Px,
    pub what: &'static str,
    pub msg: String,
}

/// Compare all parsers with the reference on one query text.
pub fn examine(text: &str, set: &Set, aspects: u32, only: Option<Px>, out: &mut Vec<Found>) -> Expect {
    crate::watch::begin(0, aspects, set.name, text, "");
    let std = Expect::of(text, Opts { ints: set.ps.ints, ..Default::default() }, &set.ps.funcs);
    let mut sing: Option<Expect> = None;
    for p in PARSERS {
        if only.map_or(false, |o| o != p) {
            continue;
        }
        let (ex, o) = if p == Px::Sing {
            let o = Opts { singular: true, ints: set.ps.ints, ..Default::default() };
            (&*sing.get_or_insert_with(|| Expect::of(text, o, &set.ps.funcs)), o)
        } else {
            (&std, Opts { ints: set.ps.ints, ..Default::default() })
        };
        examine_one(text, set, aspects, p, ex, o, out);
    }
    std
}

fn examine_one(text: &str, set: &Set, aspects: u32, p: Px, ex: &Expect, o: Opts, out: &mut Vec<Found>) {
    let mut fail = |what: &'static str, msg: String| out.push(Found { who: p, what, msg });
    let got = set.ps.parse(p, text);
    if let Err(e) = &got {
        if e.kind == Kind::Panic {
            if aspects & (TOTAL | ACCEPT | ACCEPT_WF) != 0 {
                fail("panics", e.msg.clone());
            }
            return;
        }
        if e.text.is_none() && aspects & TOTAL != 0 {
            fail("error-cannot-be-displayed", e.msg.clone());
        }
    }
    if aspects & ENTRY != 0 && set.name == "std" {
        let v = entries(p, text);
        let used = match guarded(|| set.ps.text_of(p, text)) {
            Ok(s) => s,
            Err(m) => format!("panic: {m}"),
        };
        for (name, r) in &v {
            if *r != used {
                fail("ways-to-parse-differ", format!("{name} gives {r}, a parser used before gives {used}"));
                break;
            }
        }
    }
    if aspects & SPANS != 0 && p == Px::Hand {
        if let Err(m) = crate::spans::tokens(text) {
            fail("wrong-token", m);
        }
    }
    if ex.open() {
        return;
    }
    let valid = ex.valid();
    let judge = aspects & ACCEPT != 0
        || (aspects & ACCEPT_WF != 0 && (ex.parsed.query.is_some() || ex.parsed.range));
    match &got {
        Ok(_) if !valid => {
            if judge {
                let what = if ex.parsed.range {
                    "accepts-out-of-range"
                } else if ex.parsed.query.is_none() {
                    "accepts-malformed"
                } else {
                    "accepts-ill-typed"
                };
                fail(what, ex.reason());
            }
        }
        Err(e) if valid => {
            if judge {
                fail("rejects-valid", format!("{:?}: {}", e.kind, e.msg.lines().last().unwrap_or("")));
            }
        }
        _ => {}
    }
    match &got {
        Ok(ok) if valid => {
            let want = ex.canon.as_ref().unwrap();
            if aspects & (TREE | ROUND) != 0 {
                if aspects & TREE != 0 {
                    match &ok.ast {
                        Some(a) => {
                            let a = a.canon();
                            if a != *want {
                                fail("wrong-tree", format!("got {a:?}, want {want:?}"));
                            }
                        }
                        // tree not exposed: read it back from the canonical text
                        None => match parse::parse(&ok.display, Opts { ints: Some((i64::MIN, i64::MAX)), ..o }).query.map(|q| q.lax()) {
                            Some(a) if a == want.lax() => {}
                            Some(a) => fail("wrong-tree", format!("got {a:?}, want {want:?}")),
                            None => fail("wrong-tree", format!("canonical text {:?} is malformed", ok.display)),
                        },
                    }
                }
                if aspects & ROUND != 0 {
                    let r = Expect::of(&ok.display, o, &set.ps.funcs);
                    if !r.valid() {
                        fail("text-malformed", format!("{:?}: {}", ok.display, r.reason()));
                    } else if r.canon.as_ref().unwrap().lax() != want.lax() {
                        fail("text-changes-meaning", format!("{:?}", ok.display));
                    } else {
                        match set.ps.parse(p, &ok.display) {
                            Err(e) => fail("text-rejected", format!("{:?}: {}", ok.display, e.msg)),
                            Ok(ok2) => {
                                if ok2.display != ok.display && !big_number(want) {
                                    fail("text-not-fixed-point", format!("{:?} -> {:?}", ok.display, ok2.display));
                                }
                            }
                        }
                    }
                }
            }
            if aspects & CLASSIFY != 0 {
                let q = ex.parsed.query.as_ref().unwrap();
                if ok.singular != q.is_singular() {
                    fail("wrong-is-singular", format!("got {}, want {}", ok.singular, q.is_singular()));
                }
                if let Some(m) = &ok.misclassified {
                    fail("wrong-classification-within", m.clone());
                }
                if ok.empty != q.segs.is_empty() {
                    fail("wrong-is-empty", format!("got {}, want {}", ok.empty, q.segs.is_empty()));
                }
            }
            if aspects & SPANS != 0 && p == Px::Hand {
                if let Err(m) = crate::spans::check(text, &set.ps) {
                    fail("wrong-span", m);
                }
            }
        }
        Err(e) if !valid => {
            if aspects & ERRKIND != 0 {
                if let Some(w) = expected_kind(text, ex, &set.ps.funcs) {
                    let ok = match w {
                        // a malformed text may contain other mistakes, but none may be made up
                        Kind::Syntax if ex.parsed.query.is_none() && !ex.parsed.range => {
                            let c = causes(text, &set.ps.funcs);
                            match e.kind {
                                Kind::Name => c.unknown_call,
                                Kind::Type => c.call || c.literal || c.comparison,
                                _ => true,
                            }
                        }
                        Kind::Syntax => matches!(e.kind, Kind::Syntax | Kind::Lexer),
                        k => e.kind == k,
                    };
                    if !ok {
                        fail("wrong-error-kind", format!("got {:?} ({}), want {:?}", e.kind, e.msg.lines().last().unwrap_or(""), w));
                    }
                }
            }
            if aspects & SPANS != 0 && p == Px::Hand {
                let (a, b) = e.span;
                if a > b || b > text.len() || !text.is_char_boundary(a) || !text.is_char_boundary(b) {
                    fail("error-span-outside-text", format!("span {:?} of a text of {} bytes ({})", e.span, text.len(), e.msg));
                } else if e.kind == Kind::Name && !set.ps.funcs.contains_key(&text[a..b]) && text[b..].starts_with('(') {
                    // points at a call of a function that is not registered
                } else if e.kind == Kind::Name {
                    fail("error-span-elsewhere", format!("unknown function, but the span {:?} is {:?}", e.span, &text[a..b]));
                } else if e.kind == Kind::Type && a == b && !text[..a].ends_with(['\'', '"']) {
                    // (the span of an empty string literal is what is between its quotes)
                    fail("error-span-elsewhere", format!("type error with the empty span {:?} ({})", e.span, e.msg));
                }
            }
        }
        _ => {}
    }
}

/// Whether a number literal is an integer that a double does not hold exactly for sure:
/// its shortest decimal text is then not the only one.
fn big_number(q: &Query) -> bool {
    fn ex(e: &Expr) -> bool {
        match e {
            Expr::Or(v) | Expr::And(v) | Expr::Call(_, v) => v.iter().any(ex),
            Expr::Not(x) | Expr::Paren(x) => ex(x),
            Expr::Cmp(_, a, b) => ex(a) || ex(b),
            Expr::Query { q, .. } => big_number(q),
            Expr::Lit(Lit::Num(n)) => n.abs() > 9007199254740992.0,
            Expr::Lit(_) => false,
        }
    }
    q.segs.iter().any(|s| {
        s.sels.iter().any(|s| match s {
            Sel::Filter(e) => ex(e),
            Sel::Singular(q) => big_number(q),
            _ => false,
        })
    })
}

struct Causes {
    call: bool,
    unknown_call: bool,
    literal: bool,
    comparison: bool,
}

/// What there is in a text that could be wrong other than its form.
fn causes(text: &str, funcs: &Funcs) -> Causes {
    let mut c = Causes { call: false, unknown_call: false, literal: false, comparison: false };
    let t = toks(text);
    for (i, k) in t.iter().enumerate() {
        let first = k.chars().next().unwrap();
        if t.get(i + 1).map_or(false, |n| n == "(") && first.is_alphabetic() {
            c.call = true;
            c.unknown_call |= !funcs.contains_key(k);
        }
        c.literal |= first == '\'' || first == '"' || first.is_ascii_digit() || ["true", "false", "null"].contains(&k.as_str());
        c.comparison |= ["==", "!=", "<", "<=", ">", ">="].contains(&k.as_str());
    }
    c
}

/// The error kind, where a single cause determines it.
pub fn expected_kind(text: &str, ex: &Expect, funcs: &Funcs) -> Option<Kind> {
    // a function that is named like a literal: the specification leaves open which it is
    if ["true(", "false(", "null("].iter().any(|k| text.contains(k)) {
        return None;
    }
    if ex.parsed.query.is_none() {
        if let Some(q) = &ex.parsed.range_query {
            // nothing but the integer is wrong
            let mut t = Typing::default();
            types::check_query(q, funcs, &mut t);
            return if t.ok() { Some(Kind::Syntax) } else { None };
        }
        return Some(Kind::Syntax);
    }
    let t = &ex.typing;
    match (t.name > 0, t.typ > 0, t.nonsingular_cmp > 0) {
        (true, false, false) => Some(Kind::Name),
        (false, true, false) => Some(Kind::Type),
        _ => None,
    }
}

pub fn report(ctx: &Ctx, text: &str, set: &Set, aspects: u32, found: Vec<Found>) {
    for f in found {
        ctx.fail(Violation {
            kind: "parse",
            who: f.who.name().into(),
            what: f.what.into(),
            input: text.into(),
            data: json!({"text": text, "funcs": set.name, "aspects": aspects}),
            msg: f.msg,
        });
    }
}

/// Examine, count, report.
pub fn one(ctx: &Ctx, text: &str, set: &Set, aspects: u32) -> Expect {
    let mut v = vec![];
    let e = examine(text, set, aspects, None, &mut v);
    ctx.trace(PARSERS.len() as u64);
    if !v.is_empty() {
        report(ctx, text, set, aspects, v);
    }
    e
}

/// As `one`, unless this text was examined before in this run.
pub fn one_fresh(ctx: &Ctx, text: &str, set: &Set, aspects: u32) {
    if ctx.fresh((set.name, text)) {
        one(ctx, text, set, aspects);
    }
}

fn visit(ctx: &Ctx, text: &str, pr: &Profile, set: &Set, aspects: u32) {
    if ctx.fresh((set.name, text)) {
        let e = one(ctx, text, set, aspects);
        if e.valid() && text.len() > 6 && ctx.states.load(std::sync::atomic::Ordering::Relaxed) % 997 == 0 {
            ctx.sample(|| format!("{}: {text}", pr.name));
        }
    }
    if pr.close {
        for c in closers(text) {
            one_fresh(ctx, &format!("{text}{c}"), set, aspects);
        }
    }
}

// ---------------------------------------------------------------------------------------
// Exhaustive exploration of token strings

pub struct Profile {
    pub name: &'static str,
    pub prefix: &'static str,
    pub tokens: &'static [&'static str],
    pub depth: usize,
    /// how many further tokens are tried beyond a prefix no valid query begins with
    pub slack: usize,
    /// also try the text completed by what closes the open brackets
    pub close: bool,
}

pub fn closers(text: &str) -> Vec<String> {
    let mut st = vec![];
    let mut quote = None;
    let mut esc = false;
    for c in text.chars() {
        if let Some(q) = quote {
            if esc {
                esc = false;
            } else if c == '\\' {
                esc = true;
            } else if c == q {
                quote = None;
            }
            continue;
        }
        match c {
            '\'' | '"' => quote = Some(c),
            '(' => st.push(')'),
            '[' => st.push(']'),
            ')' | ']' => {
                st.pop();
            }
            _ => {}
        }
    }
    if st.is_empty() {
        return vec![];
    }
    st.reverse();
    let all: String = st.iter().collect();
    let mut out = vec![all.clone()];
    if st[0] == ')' {
        let k = st.iter().position(|c| *c == ']').unwrap_or(st.len());
        let (p, r): (String, String) = (st[..k].iter().collect(), st[k..].iter().collect());
        out.push(format!("{p}==1{r}"));
    } else if st.len() == 1 {
        out.push("==1]".into());
    }
    out
}

pub fn explore(ctx: &Ctx, pr: &Profile, set: &Set, aspects: u32) {
    // split the work over the first two tokens
    let mut roots: Vec<String> = vec![];
    for a in pr.tokens {
        for b in pr.tokens {
            roots.push(format!("{}{}{}", pr.prefix, a, b));
        }
    }
    node(ctx, pr, set, aspects, pr.prefix.to_string(), 0, 0, false);
    for a in pr.tokens {
        node(ctx, pr, set, aspects, format!("{}{}", pr.prefix, a), 1, 0, false);
    }
    ctx.par(&roots, |r| {
        // the first token may already be hopeless
        let first = &r[..];
        let _ = first;
        node(ctx, pr, set, aspects, r.clone(), 2, 0, true);
    });
}

fn viable(text: &str, singular: bool) -> bool {
    let p = parse::parse(text, Opts { singular, ..Default::default() });
    p.query.is_some() || p.hit_eof || p.range
}

fn node(ctx: &Ctx, pr: &Profile, set: &Set, aspects: u32, text: String, depth: usize, dead: usize, rec: bool) {
    ctx.trans(1);
    visit(ctx, &text, pr, set, aspects);
    if !rec || depth >= pr.depth {
        return;
    }
    let alive = viable(&text, false);
    let dead = if alive { 0 } else { dead + 1 };
    if dead > pr.slack {
        return;
    }
    for t in pr.tokens {
        node(ctx, pr, set, aspects, format!("{text}{t}"), depth + 1, dead, true);
    }
}

pub fn p_seg(d: usize) -> Profile {
    Profile {
        name: "segments",
        prefix: "$",
        tokens: &[".", "..", "[", "]", "*", "a", "'b'", "0", "1", "-1", ":", ",", " ", "?@", "$", "\u{e9}", "\0"],
        depth: d,
        slack: 0,
        close: true,
    }
}
pub fn p_filter(d: usize) -> Profile {
    Profile {
        name: "filters",
        prefix: "$[?",
        tokens: &[
            "@", "$", ".a", "['b']", "[0]", "[1:2]", ".*", "..c", "1", "'s'", "true", "null", "==", "<", "!", "(", ")", "&&", "||", ",", "]", "[?", " ",
            "count(", "match(", "nope(",
        ],
        depth: d,
        slack: 0,
        close: true,
    }
}
pub fn p_logic(d: usize) -> Profile {
    Profile {
        name: "logical expressions",
        prefix: "$[?",
        tokens: &["@.a", "$.b", "!", "(", ")", "&&", "||", "==1", " "],
        depth: d,
        slack: 0,
        close: true,
    }
}
pub fn p_func(d: usize) -> Profile {
    Profile {
        name: "function calls",
        prefix: "$[?",
        tokens: &["fvl(", "fll(", "fnl(", "fvv(", "gl(", "zn(", "@", ".*", "[?", "1", "'s'", "==", "!", "(", ")", "&&", ",", " ", "]"],
        depth: d,
        slack: 0,
        close: true,
    }
}
pub fn p_num(d: usize) -> Profile {
    Profile {
        name: "number literals",
        prefix: "$[?@==",
        tokens: &["0", "1", "9", "-", "+", ".", "e", "E", " ", "]"],
        depth: d,
        slack: 1,
        close: true,
    }
}
pub fn p_int(d: usize) -> Profile {
    Profile {
        name: "indices and slices",
        prefix: "$[",
        tokens: &["0", "1", "-", ":", ",", " ", "]", "9007199254740991", "9007199254740992", "."],
        depth: d,
        slack: 1,
        close: true,
    }
}
pub fn p_sing(d: usize) -> Profile {
    Profile {
        name: "singular selectors",
        prefix: "$[",
        tokens: &["$", "@", "a", "[", "]", "'b'", "0", ".", "..", "*", ",", ":", "?", " "],
        depth: d,
        slack: 0,
        close: true,
    }
}
pub fn p_implicit(d: usize) -> Profile {
    Profile {
        name: "implicit root",
        prefix: "",
        tokens: &["$", "a", "[", "]", "'b'", "0", ".", "..", "*", ",", "?@", " ", "@"],
        depth: d,
        slack: 0,
        close: true,
    }
}

/// Deepest-first variant: the singular crate's own viability decides the pruning.
pub fn explore_sing(ctx: &Ctx, pr: &Profile, set: &Set, aspects: u32) {
    let mut level = vec![pr.prefix.to_string()];
    for d in 0..=pr.depth {
        let next = std::sync::Mutex::new(vec![]);
        ctx.par(&level, |t| {
            ctx.trans(1);
            visit(ctx, t, pr, set, aspects);
            if d < pr.depth && viable(t, true) {
                let v: Vec<String> = pr.tokens.iter().map(|k| format!("{t}{k}")).collect();
                next.lock().unwrap().extend(v);
            }
        });
        level = next.into_inner().unwrap();
    }
}

/// Valid queries whose single-token neighbourhood is explored completely.
pub const CORPUS: &[&str] = &[
    "$", "$.a", "$['a']", "$[\"a\"]", "$..a", "$..*", "$.*", "$[*]", "$[0]", "$[-1]", "$[1:3]", "$[::2]", "$[5:1:-2]",
    "$[:]", "$[1:]", "$[:-1]", "$..[0]", "$..['a', 'b']", "$[0, 1, 'a', *, 1:2]", "$.a.b[0]..c[*]['d']",
    "$[?@]", "$[?@.a]", "$[?@['a']]", "$[?@[0]]", "$[?$.a]", "$[?@.a == 1]", "$[?1 == @.a]", "$[?@.a == @.b]",
    "$[?@.a != 'x']", "$[?@.a < 2.5e3]", "$[?@.a >= -0]", "$[?@.a <= null]", "$[?@.a > true]", "$[?false == @]",
    "$[?'a' == \"b\"]", "$[?!@.a]", "$[?!(@.a == 1)]", "$[?!(!@.a)]", "$[?(@.a)]", "$[?((@.a || @.b))]",
    "$[?@.a && @.b || @.c]", "$[?@.a || @.b && @.c]", "$[?(@.a || @.b) && @.c]", "$[?@.a == 1 && @.b == 2]",
    "$[?@.*]", "$[?@..a]", "$[?@[1:2]]", "$[?@['a', 'b']]", "$[?@[?@.a]]", "$[?@[?@.a == 1].b]", "$[?@[?$[?@.x]]]",
    "$[?length(@.a) == 1]", "$[?count(@.*) > 2]", "$[?value(@..a) == 'x']", "$[?match(@.a, 'b.*')]", "$[?!search(@.a, \"b\")]",
    "$[?length('abc') < length(@)]", "$[?length(value(@.*)) == 1]", "$[?match(@.a, $.b)]", "$[?count(@['a', 'b']) == 2]",
    "$[?count(@[?@.a > 1]) == 2]", "$[?count(@[?@.a, ?@.b]) == 2]", "$[?@.a, ?@.b]", "$[?@.a][?@.b]", "$[?@.a]..b[?@ == 1]",
    "$[?match(@.a, 'x') && search(@.b, 'y')]", "$[?match(@.a, 'x') || !match(@.b, 'y')]", "$ .a [0] .. b",
    "$[ 0 , 1 ]", "$[ 1 : 2 : 3 ]", "$[? @.a ]", "$[?@ [0]]", "$[?@['a'] == $['b']]", "$[?@[0] == $[1]]", "$[?@.a.b.c == $.d[0]['e']]",
    "$[?(@.a == 1) && !(@.b == 2 || @.c)]", "$[?@['a']['b'][0]]", "$[?@.\u{e9}]", "$.\u{1F600}",
];

pub const CORPUS_EXT: &[&str] = &[
    "$[?fvl(@.a)]", "$[?fll(@.a == 1)]", "$[?fll(@.a && @.b)]", "$[?fll(!@.a)]", "$[?fll(fnl(@.*))]", "$[?fnl(@[?@.x])]",
    "$[?fvv(1) == fvv('a')]", "$[?fvv(fnv(@.*)) == null]", "$[?gl(@.a || !@.b, @.*)]", "$[?h(1, @.a == 2, $..x)]",
    "$[?zl()]", "$[?zv() == 1]", "$[?zn()]", "$[?!zn()]", "$[?fnl(zn())]", "$[?fll((@.a))]", "$[?fll(fll(fll(@)))]",
    "$[?nullable(@.a) == 1]", "$[?true_(@.*)]", "$[?false1()]", "$[?fll(fvl(true))]", "$[?fvl(null)]", "$[?fll(1 == 2)]",
    "$[?fll(fvv(1) == 2 && @.b)]", "$[?fnv(fnn(@.a)) == fvv(fvv(@))]", "$[?fln(@.a)]", "$[?fnl(fln(@.a))]",
];

const VOCAB: &[&str] = &[
    "$", "@", ".", "..", "[", "]", "*", ":", ",", "?", "(", ")", "!", "&&", "||", "==", "!=", "<", "<=", ">", ">=", "=", "&", "|", "-", "a", "b1", "_",
    "'a'", "\"a\"", "'", "\"", "0", "1", "-1", "01", "-0", "1.5", "1e2", "true", "false", "null", "count", "length(", "match(", "nope(", " ", "\t", "\n",
    "\r", "\0", "\\", "\u{e9}", "\u{a0}", "#", "/", ";", "{", "}", "+",
];

/// Lexical tokens of a query text, good enough to edit it.
pub fn toks(t: &str) -> Vec<String> {
    let cs: Vec<char> = t.chars().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < cs.len() {
        let c = cs[i];
        let mut j = i + 1;
        if c == '\'' || c == '"' {
            while j < cs.len() && cs[j] != c {
                j += 1;
            }
            j = (j + 1).min(cs.len());
        } else if c.is_alphanumeric() || c == '_' {
            while j < cs.len() && (cs[j].is_alphanumeric() || cs[j] == '_') {
                j += 1;
            }
        } else if j < cs.len() && ["..", "==", "!=", "<=", ">=", "&&", "||"].contains(&cs[i..=j].iter().collect::<String>().as_str()) {
            j += 1;
        }
        out.push(cs[i..j].iter().collect());
        i = j;
    }
    out
}

/// All single-token edits of the corpus: deletion, duplication, exchange of neighbours,
/// substitution by and insertion of every vocabulary token.
pub fn edits(ctx: &Ctx, corpus: &[&str], set: &Set, aspects: u32) {
    let mut work: Vec<(Vec<String>, usize)> = vec![];
    for c in corpus {
        let t = toks(c);
        for i in 0..=t.len() {
            work.push((t.clone(), i));
        }
        one_fresh(ctx, c, set, aspects);
    }
    ctx.par(&work, |(t, i)| {
        let i = *i;
        let run = |v: Vec<&str>| {
            ctx.trans(1);
            one_fresh(ctx, &v.concat(), set, aspects);
        };
        let base: Vec<&str> = t.iter().map(|s| s.as_str()).collect();
        for v in VOCAB {
            let mut x = base.clone();
            x.insert(i, v);
            run(x);
            if i < base.len() {
                let mut x = base.clone();
                x[i] = v;
                run(x);
            }
        }
        if i < base.len() {
            let mut x = base.clone();
            x.remove(i);
            run(x);
            let mut x = base.clone();
            x.insert(i, base[i]);
            run(x);
            run(base[..i].to_vec());
            run(base[i..].to_vec());
            if i + 1 < base.len() {
                let mut x = base.clone();
                x.swap(i, i + 1);
                run(x);
            }
        }
    });
}
