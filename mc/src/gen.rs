//! All queries up to a size: every derivation of the grammar over a small vocabulary.
//! The size of a query is the number of its selectors, literals, identifiers, calls,
//! negations and parentheses.
use jpmodel::types::{Funcs, Ty};

pub struct Vocab {
    /// selectors other than filters
    pub sels: &'static [&'static str],
    pub desc: bool,
    pub pairs: bool,
    pub filters: bool,
    /// also queries of `$` within filters
    pub abs: bool,
    pub lits: &'static [&'static str],
    pub ops: &'static [&'static str],
    pub logic: bool,
    /// calls, by name, of the registered functions
    pub calls: &'static [&'static str],
    /// test expressions of size one, beyond the queries
    pub atoms: &'static [&'static str],
    /// no bare queries as tests: the atoms are the tests
    pub atoms_only: bool,
    /// any call with any arguments anywhere, any query compared: typing rules are not kept
    pub untyped: bool,
}

pub const NONE: Vocab = Vocab { sels: &[], desc: false, pairs: false, filters: true, abs: false, lits: &[], ops: &[], logic: false, calls: &[], atoms: &[], atoms_only: false, untyped: false };

/// A bit of everything.
pub const FULL: Vocab = Vocab { sels: &["'a'", "0", "*", "::-1"], desc: true, pairs: true, abs: true, lits: &["1"], ops: &["==", "<"], logic: true, calls: &["count", "length"], ..NONE };
pub const FILTERS: Vocab = Vocab { sels: &["'a'", "*"], desc: true, abs: true, lits: &["1"], ops: &["=="], logic: true, ..NONE };
pub const LOGIC: Vocab = Vocab { logic: true, atoms: &["@.a", "$.b", "@.c==1"], atoms_only: true, ..NONE };
pub const SEGS: Vocab = Vocab { sels: &["'a'", "'b'", "0", "-1", "*", "1:", "::-1"], desc: true, pairs: true, filters: false, ..NONE };
pub const CHILD: Vocab = Vocab { desc: false, ..SEGS };
pub const FUNCS: Vocab = Vocab { sels: &["'a'", "*"], desc: true, lits: &["1", "'a'"], ops: &["=="], calls: &["count", "length", "value", "match"], ..NONE };
/// with the functions of `ext_funcs`
pub const LOGIC_CALLS: Vocab = Vocab { logic: true, atoms: &["@.a", "@.c==1"], atoms_only: true, calls: &["fll", "gl"], ..NONE };
pub const CALLS: Vocab = Vocab { sels: &["'a'", "*"], lits: &["1"], ops: &["=="], logic: true, calls: &["fll", "gl", "fnn", "fvv"], ..NONE };
pub const UNTYPED: Vocab = Vocab { sels: &["'a'", "*"], lits: &["1"], ops: &["=="], logic: true, untyped: true, calls: &["fll", "gl", "fnn", "fvv", "nope"], ..NONE };
pub const UNTYPED_STD: Vocab = Vocab { sels: &["*"], lits: &["1"], ops: &["=="], logic: true, untyped: true, calls: &["count", "match"], ..NONE };
/// with singular query selectors
pub const SING: Vocab = Vocab { sels: &["'a'", "0", "*", "$", "$['a']", "$[0]", "$.b"], desc: true, pairs: true, abs: true, lits: &["1"], ops: &["=="], calls: &["count"], ..NONE };
/// comparisons of all kinds of operands
pub const CMP: Vocab = Vocab { sels: &["'a'", "0"], abs: true, lits: &["1", "'a'", "null", "true", "2.5"], ops: &["==", "!=", "<", "<=", ">", ">="], calls: &["length", "count", "value"], ..NONE };

#[derive(Default, Clone)]
struct Row {
    /// segment sequences, and those of singular queries
    q: Vec<String>,
    sq: Vec<String>,
    segs: Vec<String>,
    ssegs: Vec<String>,
    sels: Vec<String>,
    /// logical expressions: basic, conjunctions, disjunctions
    basic: Vec<String>,
    and: Vec<String>,
    or: Vec<String>,
    /// what `!` may stand before
    negatable: Vec<String>,
    /// comparands that are not literals, and literals
    operand: Vec<String>,
    lit: Vec<String>,
    /// calls by result type
    calls: [Vec<String>; 3],
}

fn ix(t: Ty) -> usize {
    match t {
        Ty::Value => 0,
        Ty::Logical => 1,
        Ty::Nodes => 2,
    }
}

/// Texts of what follows the root identifier, of every size up to `n`.
pub fn tails(v: &Vocab, n: usize, funcs: &Funcs) -> Vec<String> {
    let rows = build(v, n, funcs);
    rows.iter().flat_map(|r| r.q.iter().cloned()).collect()
}

/// Logical expressions of every size up to `n`.
pub fn exprs(v: &Vocab, n: usize, funcs: &Funcs) -> Vec<String> {
    let rows = build(v, n, funcs);
    rows.iter().flat_map(|r| r.basic.iter().chain(&r.and).chain(&r.or).cloned()).collect()
}

/// Queries from the root, of every size up to `n`.
pub fn queries(v: &Vocab, n: usize, funcs: &Funcs) -> Vec<String> {
    tails(v, n, funcs).into_iter().map(|t| format!("${t}")).collect()
}

fn build(v: &Vocab, n: usize, funcs: &Funcs) -> Vec<Row> {
    let mut rows: Vec<Row> = vec![Row { q: vec![String::new()], sq: vec![String::new()], ..Default::default() }];
    for k in 1..=n {
        let mut r = Row::default();
        // calls of size k: one for the name, the rest for the arguments
        for c in v.calls {
            let mut args = vec![];
            if v.untyped {
                untyped_arguments(&rows, k - 1, &mut vec![], &mut args);
                for a in args {
                    // each kind of place takes any call
                    r.calls[0].push(format!("{c}({a})"));
                    r.calls[1].push(format!("{c}({a})"));
                }
                continue;
            }
            let sig = &funcs[*c];
            arguments(&rows, &sig.params, k - 1, &mut vec![], &mut args);
            for a in args {
                r.calls[ix(sig.ret)].push(format!("{c}({a})"));
            }
        }
        let ids: &[&str] = if v.abs { &["@", "$"] } else { &["@"] };
        // comparands
        if !v.ops.is_empty() || !v.calls.is_empty() {
            for id in ids {
                let qs = if v.untyped { &rows[k - 1].q } else { &rows[k - 1].sq };
                r.operand.extend(qs.iter().map(|q| format!("{id}{q}")));
            }
            r.operand.extend(r.calls[0].iter().cloned());
            if k == 1 {
                r.lit = v.lits.iter().map(|s| s.to_string()).collect();
            }
        }
        if v.filters {
            // tests
            if !v.atoms_only {
                for id in ids {
                    r.negatable.extend(rows[k - 1].q.iter().map(|q| format!("{id}{q}")));
                }
            }
            if k == 1 {
                r.negatable.extend(v.atoms.iter().filter(|a| !a.contains('=')).map(|s| s.to_string()));
                r.basic.extend(v.atoms.iter().filter(|a| a.contains('=')).map(|s| s.to_string()));
            }
            r.negatable.extend(r.calls[1].iter().chain(&r.calls[2]).cloned());
            if v.logic {
                let p = &rows[k - 1];
                r.negatable.extend(p.basic.iter().chain(&p.and).chain(&p.or).map(|e| format!("({e})")));
            }
            r.basic.extend(r.negatable.iter().cloned());
            if v.untyped {
                r.basic.extend(r.lit.iter().cloned());
            }
            if v.logic {
                r.basic.extend(rows[k - 1].negatable.iter().map(|e| format!("!{e}")));
            }
            for a in 1..k {
                let (x, y) = (&rows[a], &rows[k - a]);
                for op in v.ops {
                    for s in x.operand.iter().chain(&x.lit) {
                        for t in y.operand.iter().chain(&y.lit) {
                            r.basic.push(format!("{s}{op}{t}"));
                        }
                    }
                }
                if v.logic {
                    for s in x.basic.iter().chain(&x.and) {
                        for t in &y.basic {
                            r.and.push(format!("{s}&&{t}"));
                        }
                    }
                    for s in x.basic.iter().chain(&x.and).chain(&x.or) {
                        for t in y.basic.iter().chain(&y.and) {
                            r.or.push(format!("{s}||{t}"));
                        }
                    }
                }
            }
        }
        // selectors
        if k == 1 {
            r.sels.extend(v.sels.iter().map(|s| s.to_string()));
        }
        r.sels.extend(r.basic.iter().chain(&r.and).chain(&r.or).map(|e| format!("?{e}")));
        // segments
        r.segs.extend(r.sels.iter().map(|s| format!("[{s}]")));
        if k == 1 {
            r.ssegs.extend(v.sels.iter().filter(|s| !s.contains(['*', ':', '$'])).map(|s| format!("[{s}]")));
        }
        if v.desc {
            r.segs.extend(r.sels.iter().map(|s| format!("..[{s}]")));
        }
        if v.pairs {
            for a in 1..k {
                for s in &rows[a].sels {
                    for t in &rows[k - a].sels {
                        r.segs.push(format!("[{s},{t}]"));
                        if v.desc {
                            r.segs.push(format!("..[{s},{t}]"));
                        }
                    }
                }
            }
        }
        // sequences of segments
        for a in 1..=k {
            let (segs, ssegs) = if a == k { (&r.segs, &r.ssegs) } else { (&rows[a].segs, &rows[a].ssegs) };
            let mut q = vec![];
            let mut sq = vec![];
            for h in &rows[k - a].q {
                q.extend(segs.iter().map(|s| format!("{h}{s}")));
            }
            for h in &rows[k - a].sq {
                sq.extend(ssegs.iter().map(|s| format!("{h}{s}")));
            }
            r.q.extend(q);
            r.sq.extend(sq);
        }
        rows.push(r);
    }
    rows
}

/// All argument lists of total size `left`; a call without arguments has size one.
fn arguments(rows: &[Row], params: &[Ty], left: usize, cur: &mut Vec<String>, out: &mut Vec<String>) {
    if params.is_empty() {
        if left == 0 {
            out.push(cur.join(","));
        }
        return;
    }
    for s in 1..=left {
        if params.len() == 1 && s != left {
            continue;
        }
        let r = &rows[s];
        let forms: Vec<String> = match params[0] {
            Ty::Value => r.operand.iter().chain(&r.lit).cloned().collect(),
            Ty::Logical => r.basic.iter().chain(&r.and).chain(&r.or).cloned().collect(),
            Ty::Nodes => {
                let mut f: Vec<String> = rows[s - 1].q.iter().map(|q| format!("@{q}")).collect();
                f.extend(r.calls[2].iter().cloned());
                f
            }
        };
        for f in forms {
            cur.push(f);
            arguments(rows, &params[1..], left - s, cur, out);
            cur.pop();
        }
    }
}

/// All lists of at most three arguments of any form.
fn untyped_arguments(rows: &[Row], left: usize, cur: &mut Vec<String>, out: &mut Vec<String>) {
    if left == 0 {
        out.push(cur.join(","));
        return;
    }
    if cur.len() == 3 {
        return;
    }
    for s in 1..=left {
        let r = &rows[s];
        let forms: Vec<String> = r.basic.iter().chain(&r.and).chain(&r.or).cloned().collect();
        for f in forms {
            cur.push(f);
            untyped_arguments(rows, left - s, cur, out);
            cur.pop();
        }
    }
}
