//! Adapters from the seven parsers and the evaluation engines under test to the model.
use jpmodel::ast::*;
use jpmodel::path::Step;
use jpmodel::types::{Funcs, Ty};
use serde_json::Value;
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub use jsonpath_rfc9535 as hand;
pub use jsonpath_rfc9535_iter as iter;
pub use jsonpath_rfc9535_locations as loc;
pub use jsonpath_rfc9535_pest as pest;
pub use jsonpath_rfc9535_pest_recursive as rec;
pub use jsonpath_rfc9535_serde as serde;
pub use jsonpath_rfc9535_singular as sing;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Px {
    Hand,
    Pest,
    Rec,
    Serde,
    Iter,
    Loc,
    Sing,
}
pub const PARSERS: [Px; 7] = [
    Px::Hand,
    Px::Pest,
    Px::Rec,
    Px::Serde,
    Px::Iter,
    Px::Loc,
    Px::Sing,
];
impl Px {
    pub fn name(self) -> &'static str {
        match self {
            Px::Hand => "hand",
            Px::Pest => "pest",
            Px::Rec => "pest_recursive",
            Px::Serde => "serde",
            Px::Iter => "iter",
            Px::Loc => "locations",
            Px::Sing => "singular",
        }
    }
    pub fn by_name(n: &str) -> Option<Px> {
        PARSERS.iter().copied().find(|p| p.name() == n)
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Kind {
    Lexer,
    Syntax,
    Type,
    Name,
    Panic,
}

#[derive(Debug, Clone)]
pub struct PErr {
    pub kind: Kind,
    pub msg: String,
    pub span: (usize, usize),
    /// the rendered error, or None when rendering it panicked
    pub text: Option<String>,
}

#[derive(Debug, Clone)]
pub struct POk {
    /// not available for the two crates that keep their syntax tree private
    pub ast: Option<Query>,
    pub display: String,
    pub singular: bool,
    pub empty: bool,
    /// a query within it that is classified wrongly
    pub misclassified: Option<String>,
}

thread_local! {
    /// what was found wrong with the classification of a query within a query
    static MISCLASSIFIED: std::cell::RefCell<Option<String>> = std::cell::RefCell::new(None);
    pub static QUIET: Cell<bool> = Cell::new(false);
    static LAST: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}

pub fn install_hook() {
    let d = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if QUIET.with(|q| q.get()) {
            let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = i.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            let l = i
                .location()
                .map(|l| format!("{}:{}", l.file(), l.line()))
                .unwrap_or_default();
            LAST.with(|x| *x.borrow_mut() = format!("{m} at {l}"));
        } else {
            d(i)
        }
    }));
}

pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let old = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(old));
    r.map_err(|_| LAST.with(|x| x.borrow().clone()))
}


/// An integer literal; beyond the integers that a double holds exactly it is a number.
fn int(v: i64) -> Lit {
    if v.unsigned_abs() <= 1 << 53 {
        Lit::Int(v)
    } else {
        Lit::Num(v as f64)
    }
}

/// Compare what a parser says about a query, perhaps one within another, with its tree.
fn classified(singular: bool, empty: Option<bool>, q: &Query) {
    if singular != q.is_singular() || empty.map_or(false, |e| e != q.segs.is_empty()) {
        MISCLASSIFIED.with(|m| *m.borrow_mut() = Some(format!("{q:?}: singular {singular}, empty {empty:?}")));
    }
}

/// Conversion of a syntax tree made of segment lists.
macro_rules! conv_flat {
    ($modname:ident, $Query:path, $Segment:path, $Selector:path, $Fe:path, $Lo:path, $Co:path, $str:ident, [$($eoi:tt)*]) => {
        pub mod $modname {
            use super::*;
            use $Query as Q;
            use $Segment as S;
            use $Selector as L;
            use $Fe as F;
            use $Lo as LO;
            use $Co as CO;
            pub fn query(q: &Q) -> Query {
                let mut segs = vec![];
                for s in &q.segments {
                    match s {
                        S::Child { selectors, .. } => segs.push(Seg { desc: false, sels: selectors.iter().map(sel).collect() }),
                        S::Recursive { selectors, .. } => segs.push(Seg { desc: true, sels: selectors.iter().map(sel).collect() }),
                        $($eoi)*
                    }
                }
                let r = Query { segs };
                classified(q.is_singular(), Some(q.is_empty()), &r);
                r
            }
            fn sel(s: &L) -> Sel {
                match s {
                    L::Name { name, .. } => Sel::Name(name.clone()),
                    L::Index { index, .. } => Sel::Index(*index),
                    L::Slice { start, stop, step, .. } => Sel::Slice(*start, *stop, *step),
                    L::Wild { .. } => Sel::Wild,
                    L::Filter { expression, .. } => Sel::Filter(Box::new(expr(expression))),
                }
            }
            fn expr(e: &F) -> Expr {
                match e {
                    F::True { .. } => Expr::Lit(Lit::Bool(true)),
                    F::False { .. } => Expr::Lit(Lit::Bool(false)),
                    F::Null { .. } => Expr::Lit(Lit::Null),
                    F::String { value, .. } => Expr::Lit(Lit::Str(value.clone())),
                    F::Int { value, .. } => Expr::Lit(int(*value)),
                    F::Float { value, .. } => Expr::Lit(Lit::Num(*value)),
                    F::Not { expression, .. } => Expr::Not(Box::new(expr(expression))),
                    F::Logical { left, operator, right, .. } => {
                        let v = vec![expr(left), expr(right)];
                        match operator { LO::And => Expr::And(v), LO::Or => Expr::Or(v) }
                    }
                    F::Comparison { left, operator, right, .. } => {
                        let op = match operator {
                            CO::Eq => Op::Eq, CO::Ne => Op::Ne, CO::Ge => Op::Ge,
                            CO::Gt => Op::Gt, CO::Le => Op::Le, CO::Lt => Op::Lt,
                        };
                        Expr::Cmp(op, Box::new(expr(left)), Box::new(expr(right)))
                    }
                    F::RelativeQuery { query: q, .. } => Expr::Query { root: false, q: query(q), loose: false },
                    F::RootQuery { query: q, .. } => Expr::Query { root: true, q: query(q), loose: false },
                    F::Function { name, args, .. } => Expr::Call(name.clone(), args.iter().map(expr).collect()),
                }
            }
        }
    };
}

conv_flat!(c_hand, hand::query::Query, hand::query::Segment, hand::query::Selector, hand::query::FilterExpression, hand::query::LogicalOperator, hand::query::ComparisonOperator, String, []);
conv_flat!(c_pest, pest::ast::Query, pest::ast::Segment, pest::ast::Selector, pest::ast::FilterExpression, pest::ast::LogicalOperator, pest::ast::ComparisonOperator, String, [S::Eoi => {}]);
conv_flat!(c_serde, serde::ast::Query, serde::ast::Segment, serde::ast::Selector, serde::ast::FilterExpression, serde::ast::LogicalOperator, serde::ast::ComparisonOperator, String, [S::Eoi => {}]);
conv_flat!(c_iter, iter::query::Query, iter::segment::Segment, iter::selector::Selector, iter::filter::FilterExpression, iter::filter::LogicalOperator, iter::filter::ComparisonOperator, String, [S::Eoi => {}]);

pub mod c_rec {
    use super::*;
    use rec::ast::{
        ComparisonOperator as CO, FilterExpression as F, LogicalOperator as LO, Query as Q,
        Segment as S, Selector as L,
    };
    pub fn query(q: &Q) -> Query {
        let mut segs = vec![];
        let mut s = &q.ast;
        loop {
            match s {
                S::Root { .. } => break,
                S::Child { left, selectors } => {
                    segs.push(Seg {
                        desc: false,
                        sels: selectors.iter().map(sel).collect(),
                    });
                    s = left;
                }
                S::Recursive { left, selectors } => {
                    segs.push(Seg {
                        desc: true,
                        sels: selectors.iter().map(sel).collect(),
                    });
                    s = left;
                }
            }
        }
        segs.reverse();
        let r = Query { segs };
        classified(q.is_singular(), None, &r);
        r
    }
    fn sel(s: &L) -> Sel {
        match s {
            L::Name { name, .. } => Sel::Name(name.clone()),
            L::Index { index, .. } => Sel::Index(*index),
            L::Slice {
                start, stop, step, ..
            } => Sel::Slice(*start, *stop, *step),
            L::Wild { .. } => Sel::Wild,
            L::Filter { expression, .. } => Sel::Filter(Box::new(expr(expression))),
        }
    }
    fn expr(e: &F) -> Expr {
        match e {
            F::True_ { .. } => Expr::Lit(Lit::Bool(true)),
            F::False_ { .. } => Expr::Lit(Lit::Bool(false)),
            F::Null { .. } => Expr::Lit(Lit::Null),
            F::StringLiteral { value, .. } => Expr::Lit(Lit::Str(value.clone())),
            F::Int { value, .. } => Expr::Lit(int(*value)),
            F::Float { value, .. } => Expr::Lit(Lit::Num(*value)),
            F::Not { expression, .. } => Expr::Not(Box::new(expr(expression))),
            F::Logical {
                left,
                operator,
                right,
                ..
            } => {
                let v = vec![expr(left), expr(right)];
                match operator {
                    LO::And => Expr::And(v),
                    LO::Or => Expr::Or(v),
                }
            }
            F::Comparison {
                left,
                operator,
                right,
                ..
            } => {
                let op = match operator {
                    CO::Eq => Op::Eq,
                    CO::Ne => Op::Ne,
                    CO::Ge => Op::Ge,
                    CO::Gt => Op::Gt,
                    CO::Le => Op::Le,
                    CO::Lt => Op::Lt,
                };
                Expr::Cmp(op, Box::new(expr(left)), Box::new(expr(right)))
            }
            F::RelativeQuery { query: q, .. } => Expr::Query {
                root: false,
                q: query(q),
                loose: false,
            },
            F::RootQuery { query: q, .. } => Expr::Query {
                root: true,
                q: query(q),
                loose: false,
            },
            F::Function { name, args, .. } => {
                Expr::Call(name.clone(), args.iter().map(expr).collect())
            }
        }
    }
}

macro_rules! perr {
    ($m:ident, $e:expr) => {{
        let e = $e;
        use $m::errors::JSONPathErrorType as T;
        let kind = match e.kind {
            T::LexerError => Kind::Lexer,
            T::SyntaxError => Kind::Syntax,
            T::TypeError => Kind::Type,
            T::NameError => Kind::Name,
        };
        let text = guarded(|| e.to_string()).ok();
        PErr { kind, msg: e.msg, span: e.span, text }
    }};
}

macro_rules! perr2 {
    ($m:ident, $e:expr) => {{
        let e = $e;
        use $m::errors::JSONPathErrorType as T;
        #[allow(unreachable_patterns)]
        let kind = match e.kind {
            T::LexerError => Kind::Lexer,
            T::SyntaxError => Kind::Syntax,
            T::TypeError => Kind::Type,
            T::NameError => Kind::Name,
        };
        let text = guarded(|| e.to_string()).ok();
        PErr { kind, msg: e.msg.clone(), span: (0, 0), text }
    }};
}

/// One instance of every parser with the same function signatures registered.
pub struct Parsers {
    /// the range of indices the parsers are configured with, if not the default one
    pub ints: Option<(i64, i64)>,
    pub funcs: Funcs,
    pub hand: hand::Parser,
    pub pest: pest::JSONPathParser,
    pub rec: rec::JSONPathParser,
    pub serde: serde::JSONPathParser,
    pub iter: iter::JSONPathParser,
    pub loc: loc::JSONPathParser,
    pub sing: sing::JSONPathParser,
}

macro_rules! reg {
    ($map:expr, $Sig:path, $Et:ident :: $($et:ident)::+, $n:expr, $s:expr) => {{
        use $Et::$($et)::+ as E;
        use $Sig as Sg;
        let t = |t: Ty| match t { Ty::Value => E::Value, Ty::Logical => E::Logical, Ty::Nodes => E::Nodes };
        $map.insert($n.to_string(), Sg { param_types: $s.params.iter().map(|x| t(*x)).collect(), return_type: t($s.ret) });
    }};
}

impl Parsers {
    pub fn new(funcs: &Funcs) -> Parsers {
        let std = jpmodel::types::standard();
        let mut p = Parsers {
            ints: None,
            funcs: funcs.clone(),
            hand: hand::Parser::new(),
            pest: pest::JSONPathParser::new(),
            rec: rec::JSONPathParser::new(),
            serde: serde::JSONPathParser::new(),
            iter: iter::JSONPathParser::new(),
            loc: loc::JSONPathParser::new(),
            sing: sing::JSONPathParser::new(),
        };
        for (n, s) in funcs {
            if std.get(n) == Some(s) {
                continue;
            }
            let t = |t: Ty| match t {
                Ty::Value => hand::ExpressionType::Value,
                Ty::Logical => hand::ExpressionType::Logical,
                Ty::Nodes => hand::ExpressionType::Nodes,
            };
            p.hand
                .add_function(n, s.params.iter().map(|x| t(*x)).collect(), t(s.ret));
            let t = |t: Ty| match t {
                Ty::Value => rec::parser::ExpressionType::Value,
                Ty::Logical => rec::parser::ExpressionType::Logical,
                Ty::Nodes => rec::parser::ExpressionType::Nodes,
            };
            p.rec
                .add_function(n, s.params.iter().map(|x| t(*x)).collect(), t(s.ret));
            reg!(p.pest.functions, pest::parser::FunctionSignature, pest::parser::ExpressionType, n, s);
            reg!(p.serde.functions, serde::function::FunctionSignature, serde::function::ExpressionType, n, s);
            reg!(p.iter.functions, iter::function::FunctionSignature, iter::function::ExpressionType, n, s);
            reg!(p.loc.functions, loc::function::FunctionSignature, loc::function::ExpressionType, n, s);
            reg!(p.sing.functions, sing::function::FunctionSignature, sing::function::ExpressionType, n, s);
        }
        p
    }

    /// Parsers with another range of indices.
    pub fn with_ints(funcs: &Funcs, lo: i64, hi: i64) -> Parsers {
        let mut p = Parsers::new(funcs);
        p.ints = Some((lo, hi));
        let r = lo..=hi;
        p.hand.index_range = r.clone();
        p.pest.index_range = r.clone();
        p.rec.index_range = r.clone();
        p.serde.index_range = r.clone();
        p.iter.index_range = r.clone();
        p.loc.index_range = r.clone();
        p.sing.index_range = r;
        p
    }

    /// The outcome of parsing, in the form of `entries`.
    pub fn text_of(&self, p: Px, text: &str) -> String {
        macro_rules! go {
            ($p:expr) => {
                match $p.parse(text) {
                    Ok(q) => format!("{q:?} -- {q}"),
                    Err(e) => format!("{e:?}"),
                }
            };
        }
        match p {
            Px::Hand => go!(self.hand),
            Px::Pest => go!(self.pest),
            Px::Rec => go!(self.rec),
            Px::Serde => go!(self.serde),
            Px::Iter => go!(self.iter),
            Px::Loc => go!(self.loc),
            Px::Sing => go!(self.sing),
        }
    }

    pub fn parse(&self, p: Px, text: &str) -> Result<POk, PErr> {
        macro_rules! go {
            ($parser:expr, $m:ident, $conv:expr, $empty:expr, $perr:ident) => {
                match guarded(|| $parser.parse(text)) {
                    Ok(Ok(q)) => {
                        let c: Option<fn(&_) -> Query> = $conv;
                        match guarded(|| POk {
                            ast: c.map(|c| c(&q)),
                            display: q.to_string(),
                            singular: q.is_singular(),
                            empty: $empty(&q),
                            misclassified: MISCLASSIFIED.with(|m| m.borrow_mut().take()),
                        }) {
                            Ok(o) => Ok(o),
                            Err(m) => Err(PErr { kind: Kind::Panic, msg: m, span: (0, 0), text: None }),
                        }
                    }
                    Ok(Err(e)) => Err($perr!($m, e)),
                    Err(m) => Err(PErr { kind: Kind::Panic, msg: m, span: (0, 0), text: None }),
                }
            };
        }
        match p {
            Px::Hand => go!(self.hand, hand, Some(c_hand::query), |q: &hand::Query| q.is_empty(), perr),
            Px::Pest => go!(self.pest, pest, Some(c_pest::query), |q: &pest::Query| q.is_empty(), perr2),
            Px::Rec => go!(self.rec, rec, Some(c_rec::query), |q: &rec::Query| matches!(q.ast, rec::ast::Segment::Root { .. }), perr2),
            Px::Serde => go!(self.serde, serde, Some(c_serde::query), |q: &serde::Query| q.is_empty(), perr2),
            Px::Iter => go!(self.iter, iter, Some(c_iter::query), |q: &iter::Query| q.is_empty(), perr2),
            Px::Loc => go!(self.loc, loc, None::<fn(&loc::Query) -> Query>, |q: &loc::Query| q.is_empty(), perr2),
            Px::Sing => go!(self.sing, sing, None::<fn(&sing::Query) -> Query>, |q: &sing::Query| q.is_empty(), perr2),
        }
    }
}

/// Every way the crate offers to parse a text with the standard functions, and what comes
/// of it: the tree and its text, or the kind, message and position of the error.
pub fn entries(p: Px, text: &str) -> Vec<(&'static str, String)> {
    macro_rules! way {
        ($r:expr, $fe:expr) => {
            match guarded(|| match $r {
                Ok(q) => format!("{q:?} -- {q}"),
                Err(e) => $fe(e),
            }) {
                Ok(s) => s,
                Err(m) => format!("panic: {m}"),
            }
        };
    }
    macro_rules! all {
        ($Q:path, $P:path) => {{
            use $P as P;
            use $Q as Q;
            vec![
                ("a new parser", way!(P::new().parse(text), |e| format!("{e:?}"))),
                ("a default parser", way!(P::default().parse(text), |e| format!("{e:?}"))),
                ("Query::standard", way!(Q::standard(text), |e| format!("{e:?}"))),
            ]
        }};
    }
    match p {
        Px::Hand => {
            let mut v = all!(hand::Query, hand::Parser);
            v.push((
                "lex and parse_tokens",
                way!(hand::lexer::lex(text).and_then(|t| hand::Parser::new().parse_tokens(t)).map(hand::Query::new), |e| format!("{e:?}")),
            ));
            v
        }
        Px::Pest => all!(pest::Query, pest::JSONPathParser),
        Px::Rec => all!(rec::Query, rec::JSONPathParser),
        Px::Serde => all!(serde::Query, serde::JSONPathParser),
        Px::Iter => all!(iter::Query, iter::JSONPathParser),
        Px::Loc => all!(loc::Query, loc::JSONPathParser),
        Px::Sing => all!(sing::Query, sing::JSONPathParser),
    }
}

// ---------------------------------------------------------------------------------------
// Evaluation engines

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Ex {
    Find,
    Loop,
    Iter,
    Loc,
    Sing,
}
pub const ENGINES: [Ex; 5] = [Ex::Find, Ex::Loop, Ex::Iter, Ex::Loc, Ex::Sing];
impl Ex {
    pub fn name(self) -> &'static str {
        match self {
            Ex::Find => "serde.find",
            Ex::Loop => "serde.find_loop",
            Ex::Iter => "iter",
            Ex::Loc => "locations",
            Ex::Sing => "singular",
        }
    }
}

#[derive(Debug, Clone)]
pub struct ENode {
    pub path: String,
    /// structured location, for the crates that expose one (root first)
    pub steps: Option<Vec<Step>>,
    pub ptr: *const Value,
}

pub struct Envs {
    pub serde: &'static serde::env::Environment,
    pub iter: &'static iter::env::Environment,
    pub loc: &'static loc::env::Environment,
    pub sing: &'static sing::env::Environment,
}

impl Envs {
    /// Fresh standard environments (leaked: two of the crates want `&'static`).
    pub fn fresh() -> Envs {
        Envs {
            serde: Box::leak(Box::new(serde::env::Environment::new())),
            iter: Box::leak(Box::new(iter::env::Environment::new())),
            loc: Box::leak(Box::new(loc::env::Environment::new())),
            sing: Box::leak(Box::new(sing::env::Environment::new())),
        }
    }
}

/// Environments that are freed when dropped; nothing may outlive them.
pub struct OwnedEnvs(pub Envs);
impl Envs {
    pub fn fresh_some() -> OwnedEnvs {
        OwnedEnvs(Envs::fresh())
    }
}
impl Drop for OwnedEnvs {
    fn drop(&mut self) {
        unsafe {
            drop(Box::from_raw(self.0.serde as *const _ as *mut serde::env::Environment));
            drop(Box::from_raw(self.0.iter as *const _ as *mut iter::env::Environment));
            drop(Box::from_raw(self.0.loc as *const _ as *mut loc::env::Environment));
            drop(Box::from_raw(self.0.sing as *const _ as *mut sing::env::Environment));
        }
    }
}

/// A query parsed by the four evaluating crates.
pub struct Compiled {
    pub serde: Result<serde::Query, String>,
    pub iter: Result<iter::Query, String>,
    pub loc: Result<loc::Query, String>,
    pub sing: Result<sing::Query, String>,
}

impl Compiled {
    pub fn new(ps: &Parsers, text: &str) -> Compiled {
        macro_rules! c {
            ($p:expr) => {
                match guarded(|| $p.parse(text)) {
                    Ok(Ok(q)) => Ok(q),
                    Ok(Err(e)) => Err(format!("error: {}", e.msg)),
                    Err(m) => Err(format!("panic: {m}")),
                }
            };
        }
        Compiled {
            serde: c!(ps.serde),
            iter: c!(ps.iter),
            loc: c!(ps.loc),
            sing: c!(ps.sing),
        }
    }

    /// What the engine's crate says about the query.
    pub fn singular(&self, e: Ex) -> bool {
        match e {
            Ex::Find | Ex::Loop => self.serde.as_ref().map_or(false, |q| q.is_singular()),
            Ex::Iter => self.iter.as_ref().map_or(false, |q| q.is_singular()),
            Ex::Loc => self.loc.as_ref().map_or(false, |q| q.is_singular()),
            Ex::Sing => self.sing.as_ref().map_or(false, |q| q.is_singular()),
        }
    }

    pub fn run(&self, e: Ex, doc: &Value, envs: &Envs) -> Result<Vec<ENode>, String> {
        macro_rules! q {
            ($f:ident) => {
                match &self.$f {
                    Ok(q) => q,
                    Err(e) => return Err(format!("query rejected: {e}")),
                }
            };
        }
        let r = match e {
            Ex::Find => {
                let q = q!(serde);
                guarded(|| q.find(doc, envs.serde).map(|v| v.into_iter().map(|n| ENode { path: n.location.to_string(), steps: None, ptr: n.value }).collect()).map_err(|e| e.msg))
            }
            Ex::Loop => {
                let q = q!(serde);
                guarded(|| q.find_loop(doc, envs.serde).map(|v| v.into_iter().map(|n| ENode { path: n.location.to_string(), steps: None, ptr: n.value }).collect()).map_err(|e| e.msg))
            }
            Ex::Iter => {
                let q = q!(iter);
                guarded(|| Ok(iter::iter::QueryIter::new(envs.iter, doc, q.clone()).map(|n| ENode { path: n.location.to_string(), steps: None, ptr: n.value }).collect()))
            }
            Ex::Loc => {
                let q = q!(loc);
                guarded(|| {
                    Ok(q.find(doc, envs.loc)
                        .iter()
                        .map(|n| {
                            let mut s: Vec<Step> = n
                                .location
                                .iter()
                                .map(|x| match x {
                                    loc::node::PathElement::Index(i) => Step::Index(*i),
                                    loc::node::PathElement::Name(n) => Step::Name(n.clone()),
                                })
                                .collect();
                            s.reverse();
                            ENode { path: n.path(), steps: Some(s), ptr: n.value }
                        })
                        .collect())
                })
            }
            Ex::Sing => {
                let q = q!(sing);
                guarded(|| {
                    Ok(q.find(doc, envs.sing)
                        .iter()
                        .map(|n| {
                            let mut s: Vec<Step> = n
                                .location
                                .iter()
                                .map(|x| match x {
                                    sing::node::PathElement::Index(i) => Step::Index(*i),
                                    sing::node::PathElement::Name(n) => Step::Name(n.clone()),
                                })
                                .collect();
                            s.reverse();
                            ENode { path: n.path(), steps: Some(s), ptr: n.value }
                        })
                        .collect())
                })
            }
        };
        match r {
            Ok(Ok(v)) => Ok(v),
            Ok(Err(m)) => Err(format!("error: {m}")),
            Err(m) => Err(format!("panic: {m}")),
        }
    }
}
