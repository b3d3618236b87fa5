//! The persistent lists in which two of the crates keep a node's location: all sequences of
//! operations on a few lists that share their tails, against vectors.
use crate::adapt::*;
use crate::docs;
use crate::evalx::*;
use crate::report::*;
use crate::syntax::*;
use jpmodel::path::{normalized, Step};
use serde_json::json;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    New(u8),
    Append(u8, u8, u8),
    Tail(u8, u8),
    TailN(u8, u8, u8),
    LastN(u8, u8, u8),
    Clone(u8, u8),
    Collect(u8, u8),
}

fn elem(k: u8) -> Step {
    match k {
        0 => Step::Index(0),
        1 => Step::Name("a".into()),
        _ => Step::Index(k as usize),
    }
}

/// All operations: source and target among `regs` lists.
pub fn ops(regs: u8, elems: u8, ns: &[u8]) -> Vec<Op> {
    let mut v = vec![];
    for t in 0..regs {
        v.push(Op::New(t));
        v.push(Op::Collect(t, 2));
        for s in 0..regs {
            for e in 0..elems {
                v.push(Op::Append(s, t, e));
            }
            v.push(Op::Tail(s, t));
            for n in ns {
                v.push(Op::TailN(s, t, *n));
                v.push(Op::LastN(s, t, *n));
            }
            if s != t {
                v.push(Op::Clone(s, t));
            }
        }
    }
    v
}

macro_rules! crate_lists {
    ($m:ident) => {
        pub mod $m {
            use super::*;
            use crate::adapt::$m::node::{Location, Node, PathElement};
            pub fn to(s: &Step) -> PathElement {
                match s {
                    Step::Index(i) => PathElement::Index(*i),
                    Step::Name(n) => PathElement::Name(n.clone()),
                }
            }
            fn same(a: Option<&PathElement>, b: Option<&Step>) -> bool {
                match (a, b) {
                    (None, None) => true,
                    (Some(PathElement::Index(i)), Some(Step::Index(j))) => i == j,
                    (Some(PathElement::Name(i)), Some(Step::Name(j))) => i == j,
                    _ => false,
                }
            }
            /// Everything that can be seen of a list is as the vector (front first) has it.
            pub fn look(l: &Location, v: &[Step]) -> Option<String> {
                if l.len() != v.len() {
                    return Some(format!("len {} for {}", l.len(), v.len()));
                }
                if l.is_empty() != v.is_empty() {
                    return Some("is_empty".into());
                }
                if !same(l.head(), v.first()) {
                    return Some(format!("head {:?}, want {:?}", l.head(), v.first()));
                }
                if !same(l.last(), v.last()) {
                    return Some(format!("last {:?}, want {:?}", l.last(), v.last()));
                }
                let mut it = l.iter();
                for k in 0..=v.len() {
                    let left = v.len() - k;
                    if it.size_hint() != (left, Some(left)) {
                        return Some(format!("size_hint {:?} with {left} left", it.size_hint()));
                    }
                    let mut other = it.clone();
                    let x = it.next();
                    if !same(x, v.get(k)) || !same(other.next(), v.get(k)) {
                        return Some(format!("element {k} is {x:?}, want {:?}", v.get(k)));
                    }
                }
                if it.next().is_some() {
                    return Some("an element after the end".into());
                }
                if (&*l).into_iter().count() != v.len() {
                    return Some("into_iter".into());
                }
                let d = format!("[{}]", v.iter().map(|s| format!("{:?}", to(s))).collect::<Vec<_>>().join(", "));
                if format!("{l:?}") != d {
                    return Some(format!("debug {l:?}, want {d}"));
                }
                let val = json!(null);
                let n = Node { value: &val, location: l.clone() };
                let mut p = v.to_vec();
                p.reverse();
                if n.path() != normalized(&p) {
                    return Some(format!("path {}, want {}", n.path(), normalized(&p)));
                }
                None
            }
            pub fn run(seq: &[Op], regs: usize) -> Option<String> {
                let mut l: Vec<Location> = (0..regs).map(|_| Location::default()).collect();
                let mut v: Vec<Vec<Step>> = vec![vec![]; regs];
                for (i, op) in seq.iter().enumerate() {
                    let t = match *op {
                        Op::New(t) => {
                            l[t as usize] = Location::new();
                            v[t as usize] = vec![];
                            t
                        }
                        Op::Append(s, t, e) => {
                            let x = l[s as usize].append(to(&elem(e)));
                            let mut y = v[s as usize].clone();
                            y.insert(0, elem(e));
                            l[t as usize] = x;
                            v[t as usize] = y;
                            t
                        }
                        Op::Tail(s, t) => {
                            let x = l[s as usize].tail();
                            let y = v[s as usize].iter().skip(1).cloned().collect();
                            l[t as usize] = x;
                            v[t as usize] = y;
                            t
                        }
                        Op::TailN(s, t, n) => {
                            let x = l[s as usize].tailn(n as usize);
                            let y = v[s as usize].iter().skip(n as usize).cloned().collect();
                            l[t as usize] = x;
                            v[t as usize] = y;
                            t
                        }
                        Op::LastN(s, t, n) => {
                            let x = l[s as usize].lastn(n as usize);
                            let k = v[s as usize].len().saturating_sub(n as usize);
                            let y = v[s as usize][k..].to_vec();
                            l[t as usize] = x;
                            v[t as usize] = y;
                            t
                        }
                        Op::Clone(s, t) => {
                            let x = l[s as usize].clone();
                            l[t as usize] = x;
                            v[t as usize] = v[s as usize].clone();
                            t
                        }
                        Op::Collect(t, n) => {
                            // each element goes to the front
                            l[t as usize] = (0..n).map(|k| to(&elem(k))).collect();
                            v[t as usize] = (0..n).rev().map(elem).collect();
                            t
                        }
                    };
                    let _ = t;
                    // before the last operation only the lists that changed could be off,
                    // but sharing may let an operation reach another one
                    if i + 1 == seq.len() {
                        for k in 0..regs {
                            if let Some(m) = look(&l[k], &v[k]) {
                                return Some(format!("list {k}: {m}"));
                            }
                        }
                    }
                }
                // drop the lists one by one; those that are left stay as they are
                while let Some(x) = l.pop() {
                    drop(x);
                    v.pop();
                    for k in 0..l.len() {
                        if let Some(m) = look(&l[k], &v[k]) {
                            return Some(format!("list {k}, after another one is dropped: {m}"));
                        }
                    }
                }
                None
            }
            /// All sequences of calls of an iterator, against that of a vector; how a list comes
            /// from iterators of several kinds.
            pub fn iterators(n: usize, calls: &[u8]) -> Option<String> {
                let v: Vec<Step> = (0..n).map(|i| Step::Index(i)).collect();
                let l: Location = v.iter().rev().map(to).collect();
                let (mut a, mut b) = (l.iter(), v.iter());
                for (k, c) in calls.iter().enumerate() {
                    let ok = match *c {
                        0 => same(a.next(), b.next()),
                        7 => a.size_hint() == (b.len(), Some(b.len())),
                        8 => a.clone().count() == b.clone().count(),
                        9 => same(a.clone().last(), b.clone().last()),
                        10 => {
                            let (x, y) = (a.by_ref().take(2).count(), b.by_ref().take(2).count());
                            x == y
                        }
                        11 => {
                            let mut i = 0;
                            let mut j = 0;
                            same(a.find(|_| { i += 1; i == 2 }), b.find(|_| { j += 1; j == 2 })) && i == j
                        }
                        12 => {
                            let x: Vec<&PathElement> = a.clone().skip(1).step_by(2).collect();
                            let y: Vec<&Step> = b.clone().skip(1).step_by(2).collect();
                            x.len() == y.len() && x.iter().zip(&y).all(|(x, y)| same(Some(x), Some(y)))
                        }
                        13 => {
                            let x = a.clone().fold(vec![], |mut v, x| { v.push(x); v });
                            let y: Vec<&Step> = b.clone().collect();
                            x.len() == y.len() && x.iter().zip(&y).all(|(x, y)| same(Some(x), Some(y)))
                        }
                        m => same(a.nth(m as usize), b.nth(m as usize)),
                    };
                    if !ok {
                        return Some(format!("call {k} of {calls:?} on an iterator of a list of {n}"));
                    }
                }
                let w: Vec<Step> = v.iter().rev().cloned().collect();
                let e = |i: usize| PathElement::Index(n - 1 - i);
                let made: Vec<(&str, Location)> = vec![
                    ("filter", (0..2 * n).filter(|i| i % 2 == 0).map(|i| e(i / 2)).collect()),
                    ("chain", (0..n / 2).chain(n / 2..n).map(e).collect()),
                    ("from_fn", { let mut i = 0; std::iter::from_fn(move || { i += 1; (i <= n).then(|| e(i - 1)) }).collect() }),
                    ("flat_map", (0..n).flat_map(|i| vec![e(i)]).collect()),
                    ("take_while", (0..).take_while(|i| *i < n).map(e).collect()),
                    ("a vector", w.iter().map(to).collect::<Vec<_>>().into_iter().collect()),
                    ("skip", (0..n + 3).skip(3).map(|i| e(i - 3)).collect()),
                    ("rev", (0..n).rev().map(|i| e(n - 1 - i)).collect()),
                ];
                for (how, m) in &made {
                    if let Some(x) = look(m, &v) {
                        return Some(format!("collected from {how}, {n} elements: {x}"));
                    }
                }
                None
            }
            /// Long lists, and many that share one tail.
            pub fn long(n: usize) -> Option<String> {
                let mut l = Location::new();
                let mut kept = vec![];
                for i in 0..n {
                    l = l.append(PathElement::Index(i));
                    if i % (n / 8).max(1) == 0 {
                        kept.push((i, l.clone()));
                    }
                }
                if l.len() != n || l.iter().count() != n {
                    return Some(format!("a list of {n} has {} elements", l.iter().count()));
                }
                let t = l.tailn(n - 1);
                if t.len() != 1 || !same(t.head(), Some(&Step::Index(0))) || !same(l.last(), Some(&Step::Index(0))) {
                    return Some("its last element differs".into());
                }
                drop(l);
                for (i, k) in &kept {
                    if k.len() != i + 1 || k.iter().count() != i + 1 || !same(k.head(), Some(&Step::Index(*i))) {
                        return Some(format!("a tail of {} elements changed when the list was dropped", i + 1));
                    }
                }
                while let Some(x) = kept.pop() {
                    drop(x);
                }
                if t.len() != 1 || !same(t.head(), Some(&Step::Index(0))) {
                    return Some("the shared tail changed when the lists were dropped".into());
                }
                None
            }
        }
    };
}
crate_lists!(loc);
crate_lists!(sing);

/// What a value feeds into a hasher.
#[derive(Default, PartialEq, Debug)]
struct Fed(Vec<u8>);
impl std::hash::Hasher for Fed {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend(b);
        self.0.push(0xfe);
    }
}
fn fed<T: std::hash::Hash>(x: &T) -> Vec<u8> {
    let mut f = Fed::default();
    x.hash(&mut f);
    f.0
}

macro_rules! crate_compares {
    ($m:ident, $L:path) => {
        pub mod $m {
            use super::*;
            use $L as L;
            /// A list in one of several ways: by appending, by collecting, as the tail or the
            /// end of a longer one; `keep` holds what it shares cells with.
            pub fn make<T: Clone>(v: &[T], how: usize, keep: &mut Vec<L<T>>) -> L<T> {
                let mut l = L::new();
                match how {
                    0 => {
                        for x in v.iter().rev() {
                            l = l.append(x.clone());
                        }
                    }
                    1 => l = v.iter().rev().cloned().collect(),
                    2 if !v.is_empty() => {
                        let a: L<T> = v.iter().rev().cloned().collect();
                        let b = a.append(v[0].clone()).append(v[v.len() - 1].clone());
                        l = b.tailn(2);
                        keep.push(b);
                        keep.push(a);
                    }
                    3 if !v.is_empty() => {
                        let a: L<T> = v.iter().rev().cloned().collect();
                        let b = a.append(v[0].clone()).append(v[0].clone()).append(v[0].clone());
                        l = b.lastn(v.len());
                        keep.push(l.clone());
                    }
                    _ => {
                        l = v.iter().rev().cloned().collect::<L<T>>().clone();
                        keep.push(l.clone());
                    }
                }
                l
            }
            /// Equality, order and hash of two lists are those of the sequences.
            pub fn pair<T: Clone + PartialEq + PartialOrd>(a: &[T], b: &[T], ha: usize, hb: usize) -> Option<&'static str> {
                let mut keep = vec![];
                let x = make(a, ha, &mut keep);
                let y = make(b, hb, &mut keep);
                let (va, vb) = (a.to_vec(), b.to_vec());
                if (x == y) != (va == vb) || (x != y) != (va != vb) {
                    return Some("equality");
                }
                if x.partial_cmp(&y) != va.partial_cmp(&vb) {
                    return Some("order");
                }
                if (x < y) != (va < vb) || (x <= y) != (va <= vb) || (x > y) != (va > vb) || (x >= y) != (va >= vb) {
                    return Some("a comparison");
                }
                None
            }
            /// A list, and those that can be had from it by a few steps, two by two.
            pub fn related<T: Clone + PartialEq + PartialOrd>(seq: &[T], more: &[T]) -> Option<String> {
                let base: L<T> = seq.iter().rev().cloned().collect();
                let n = seq.len();
                let mut all: Vec<(String, L<T>, Vec<T>)> = vec![("itself".into(), base.clone(), seq.to_vec()), ("its clone".into(), base.clone(), seq.to_vec())];
                let mut ks = vec![1, 2, n / 2, n.saturating_sub(1), n];
                ks.sort();
                ks.dedup();
                for k in ks.into_iter().filter(|k| *k <= n && *k > 0) {
                    let t = base.tailn(k);
                    all.push((format!("tailn({k})"), t.clone(), seq[k..].to_vec()));
                    all.push((format!("lastn({k})"), base.lastn(k), seq[n - k..].to_vec()));
                    let back = seq[..k].iter().rev().fold(t.clone(), |l, x| l.append(x.clone()));
                    all.push((format!("tailn({k}) and what was left out"), back, seq.to_vec()));
                    for x in more {
                        let mut v = seq[k..].to_vec();
                        v.insert(0, x.clone());
                        all.push((format!("tailn({k}) and another"), t.append(x.clone()), v));
                    }
                }
                for x in more {
                    let mut v = seq.to_vec();
                    v.insert(0, x.clone());
                    all.push(("one more".into(), base.append(x.clone()), v.clone()));
                    all.push(("one more".into(), base.append(x.clone()).clone(), v.clone()));
                    v.insert(0, x.clone());
                    all.push(("two more".into(), base.append(x.clone()).append(x.clone()), v));
                }
                for (i, x, a) in &all {
                    for (j, y, b) in &all {
                        if (x == y) != (a == b) || (x != y) != (a != b) {
                            return Some(format!("equality of {i} and {j}"));
                        }
                        if x.partial_cmp(y) != a.partial_cmp(b) || (x < y) != (a < b) || (x <= y) != (a <= b) || (x > y) != (a > b) || (x >= y) != (a >= b) {
                            return Some(format!("order of {i} and {j}"));
                        }
                    }
                }
                None
            }
            pub fn hashes<T: Clone + Eq + std::hash::Hash>(a: &[T], b: &[T], ha: usize, hb: usize) -> Option<&'static str> {
                let mut keep = vec![];
                let x = make(a, ha, &mut keep);
                let y = make(b, hb, &mut keep);
                if (fed(&x) == fed(&y)) != (a == b) {
                    return Some("what is hashed");
                }
                None
            }
        }
    };
}
crate_compares!(cmp_loc, jsonpath_rfc9535_locations::ConsList);
crate_compares!(cmp_sing, jsonpath_rfc9535_singular::ConsList);

/// All pairs of short sequences, and long ones that differ in one place or in length.
fn compares(ctx: &Ctx) {
    let mut seqs: Vec<Vec<i32>> = vec![vec![]];
    let mut level = seqs.clone();
    for _ in 0..(4 + ctx.thorough as usize) {
        level = level.iter().flat_map(|v| (0..3).map(move |x| { let mut w = v.clone(); w.push(x); w })).collect();
        seqs.extend(level.iter().cloned());
    }
    let mut pairs: Vec<(Vec<i32>, Vec<i32>)> = vec![];
    for a in &seqs {
        for b in &seqs {
            pairs.push((a.clone(), b.clone()));
        }
    }
    let mut ns: Vec<usize> = (5..=40).collect();
    ns.extend([63, 64, 65, 127, 128, 129, 255, 256, 257, 1000]);
    for n in ns {
        for a in [(0..n as i32).collect::<Vec<_>>(), vec![1; n], (0..n as i32).rev().collect()] {
            pairs.push((a.clone(), a.clone()));
            for k in 0..n {
                if n > 40 && k > 10 && k + 10 < n && k % 31 != 0 {
                    continue;
                }
                for d in [-1, 1] {
                    let mut b = a.clone();
                    b[k] += d;
                    pairs.push((a.clone(), b.clone()));
                    pairs.push((b, a.clone()));
                }
                pairs.push((a.clone(), a[..k].to_vec()));
                pairs.push((a[..k].to_vec(), a.clone()));
                pairs.push((a.clone(), a[k..].to_vec()));
                let mut b = a.clone();
                b.swap(k, (k + 1) % n);
                pairs.push((a.clone(), b));
            }
        }
    }
    ctx.par(&pairs, |(a, b)| {
        let fs = |v: &[i32]| v.iter().map(|x| if *x == 2 { f64::NAN } else { *x as f64 }).collect::<Vec<_>>();
        let st = |v: &[i32]| v.iter().map(|x| format!("{x}")).collect::<Vec<_>>();
        ctx.state(1);
        for ha in 0..5 {
            for hb in 0..5 {
                if a.len() > 4 && (ha + 2 * hb) % 5 != 0 {
                    continue;
                }
                ctx.trans(1);
                ctx.trace(2);
                for (who, r) in [
                    ("locations", guarded(|| cmp_loc::pair(a, b, ha, hb).or(cmp_loc::hashes(a, b, ha, hb)).or(cmp_loc::pair(&fs(a), &fs(b), ha, hb)).or(cmp_loc::pair(&st(a), &st(b), ha, hb)).or(cmp_loc::hashes(&st(a), &st(b), ha, hb)))),
                    ("singular", guarded(|| cmp_sing::pair(a, b, ha, hb).or(cmp_sing::hashes(a, b, ha, hb)).or(cmp_sing::pair(&fs(a), &fs(b), ha, hb)).or(cmp_sing::pair(&st(a), &st(b), ha, hb)).or(cmp_sing::hashes(&st(a), &st(b), ha, hb)))),
                ] {
                    let m = match r {
                        Ok(None) => continue,
                        Ok(Some(m)) => m.to_string(),
                        Err(p) => format!("panic: {p}"),
                    };
                    ctx.fail(Violation { kind: "compare", who: who.into(), what: "wrong-comparison".into(), input: format!("lists {a:?} and {b:?}, made in ways {ha} and {hb}"), data: json!({"a": a, "b": b, "ways": [ha, hb]}), msg: format!("{m} differs from that of the sequences") });
                }
            }
        }
    });
    ctx.sample(|| format!("lists {:?} and {:?}", pairs[pairs.len() / 2].0, pairs[pairs.len() / 2].1));
}

fn related(ctx: &Ctx) {
    let nan = f64::NAN;
    let mut seqs: Vec<Vec<f64>> = vec![vec![]];
    let mut level = seqs.clone();
    for _ in 0..(5 + ctx.thorough as usize) {
        level = level.iter().flat_map(|v| [0.0, 1.0, -0.0, nan].into_iter().map(move |x| { let mut w = v.clone(); w.push(x); w })).collect();
        seqs.extend(level.iter().cloned());
    }
    for n in (6..=20).chain([31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257]) {
        seqs.push(vec![1.0; n]);
        seqs.push((0..n).map(|i| i as f64).collect());
        seqs.push(vec![nan; n]);
        for k in [0, 1, n / 2, n - 2, n - 1] {
            let mut v = vec![1.0; n];
            v[k] = nan;
            seqs.push(v);
        }
    }
    ctx.par(&seqs, |s| {
        ctx.state(1);
        ctx.trace(2);
        ctx.trans(s.len() as u64 + 1);
        let more = [1.0, nan];
        for (who, r) in [("locations", guarded(|| cmp_loc::related(s, &more))), ("singular", guarded(|| cmp_sing::related(s, &more)))] {
            let m = match r {
                Ok(None) => continue,
                Ok(Some(m)) => format!("{m} differs from that of the sequences"),
                Err(p) => format!("panic: {p}"),
            };
            ctx.fail(Violation { kind: "other", who: who.into(), what: "wrong-comparison".into(), input: format!("lists had from {s:?}"), data: json!({"seq": format!("{s:?}")}), msg: m });
        }
    });
}

pub fn replay_compare(d: &serde_json::Value) -> Vec<String> {
    let v = |x: &serde_json::Value| x.as_array().unwrap().iter().map(|i| i.as_i64().unwrap() as i32).collect::<Vec<_>>();
    let (a, b) = (v(&d["a"]), v(&d["b"]));
    let (ha, hb) = (d["ways"][0].as_u64().unwrap() as usize, d["ways"][1].as_u64().unwrap() as usize);
    let fs = |v: &[i32]| v.iter().map(|x| if *x == 2 { f64::NAN } else { *x as f64 }).collect::<Vec<_>>();
    [
        cmp_loc::pair(&a, &b, ha, hb).or(cmp_loc::hashes(&a, &b, ha, hb)).or(cmp_loc::pair(&fs(&a), &fs(&b), ha, hb)),
        cmp_sing::pair(&a, &b, ha, hb).or(cmp_sing::hashes(&a, &b, ha, hb)).or(cmp_sing::pair(&fs(&a), &fs(&b), ha, hb)),
    ]
    .into_iter()
    .flatten()
    .map(String::from)
    .collect()
}

fn show(s: &[Op]) -> String {
    format!("{s:?}")
}

fn run_one(ctx: &Ctx, seq: &[Op], regs: usize) {
    for (who, f) in [("locations", loc::run as fn(&[Op], usize) -> Option<String>), ("singular", sing::run)] {
        let r = guarded(|| f(seq, regs));
        let m = match r {
            Ok(None) => continue,
            Ok(Some(m)) => m,
            Err(p) => format!("panic: {p}"),
        };
        ctx.fail(Violation { kind: "lists", who: who.into(), what: "wrong-list".into(), input: show(seq), data: json!({"ops": encode(seq), "lists": regs}), msg: m });
    }
}

fn encode(s: &[Op]) -> Vec<[u8; 4]> {
    s.iter()
        .map(|o| match *o {
            Op::New(t) => [0, t, 0, 0],
            Op::Append(s, t, e) => [1, s, t, e],
            Op::Tail(s, t) => [2, s, t, 0],
            Op::TailN(s, t, n) => [3, s, t, n],
            Op::LastN(s, t, n) => [4, s, t, n],
            Op::Clone(s, t) => [5, s, t, 0],
            Op::Collect(t, n) => [6, t, n, 0],
        })
        .collect()
}

pub fn replay_lists(d: &serde_json::Value) -> Vec<String> {
    if let Some(c) = d["calls"].as_array() {
        let c: Vec<u8> = c.iter().map(|x| x.as_u64().unwrap() as u8).collect();
        let n = d["n"].as_u64().unwrap() as usize;
        return [loc::iterators(n, &c), sing::iterators(n, &c)].into_iter().flatten().collect();
    }
    let seq: Vec<Op> = d["ops"]
        .as_array()
        .unwrap()
        .iter()
        .map(|x| {
            let g = |i: usize| x[i].as_u64().unwrap() as u8;
            match g(0) {
                0 => Op::New(g(1)),
                1 => Op::Append(g(1), g(2), g(3)),
                2 => Op::Tail(g(1), g(2)),
                3 => Op::TailN(g(1), g(2), g(3)),
                4 => Op::LastN(g(1), g(2), g(3)),
                5 => Op::Clone(g(1), g(2)),
                _ => Op::Collect(g(1), g(2)),
            }
        })
        .collect();
    let n = d["lists"].as_u64().unwrap() as usize;
    [loc::run(&seq, n), sing::run(&seq, n)].into_iter().flatten().collect()
}

/// The state that a sequence leads to, for counting: contents of the lists. (What they
/// share is part of the history and is covered by running every history.)
fn state_of(seq: &[Op], regs: usize) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![vec![]; regs];
    for o in seq {
        match *o {
            Op::New(t) => v[t as usize] = vec![],
            Op::Append(s, t, e) => {
                let mut y = v[s as usize].clone();
                y.insert(0, e);
                v[t as usize] = y;
            }
            Op::Tail(s, t) => v[t as usize] = v[s as usize].iter().skip(1).cloned().collect(),
            Op::TailN(s, t, n) => v[t as usize] = v[s as usize].iter().skip(n as usize).cloned().collect(),
            Op::LastN(s, t, n) => {
                let k = v[s as usize].len().saturating_sub(n as usize);
                v[t as usize] = v[s as usize][k..].to_vec();
            }
            Op::Clone(s, t) => v[t as usize] = v[s as usize].clone(),
            Op::Collect(t, n) => v[t as usize] = (0..n).rev().collect(),
        }
    }
    v
}

fn histories(ctx: &Ctx, regs: u8, o: &[Op], depth: usize) {
    // shorter sequences first, so that what is reported is short
    let first: Vec<Op> = o.to_vec();
    for d in 1..=depth {
        ctx.par(&first, |a| {
            crate::watch::begin(4, 0, "", &format!("histories of {d} operations on lists that begin with {a:?}"), "");
            let mut idx = vec![0usize; d - 1];
            let mut seq = vec![*a; d];
            let mut n = 0u64;
            loop {
                for (k, i) in idx.iter().enumerate() {
                    seq[k + 1] = o[*i];
                }
                run_one(ctx, &seq, regs as usize);
                if d <= 3 || n % 16 == 0 {
                    ctx.fresh((regs, state_of(&seq, regs as usize)));
                }
                n += 1;
                let mut k = d - 1;
                loop {
                    if k == 0 {
                        break;
                    }
                    k -= 1;
                    idx[k] += 1;
                    if idx[k] < o.len() {
                        break;
                    }
                    idx[k] = 0;
                    if k == 0 {
                        k = usize::MAX;
                        break;
                    }
                }
                if d == 1 || k == usize::MAX {
                    break;
                }
            }
            ctx.trans(n);
            ctx.trace(2 * n);
        });
    }
}

pub fn c24(ctx: &Ctx) {
    let t = ctx.thorough;
    let few = ops(2, 2, &[0, 1, 2]);
    ctx.suite("histories of two lists", &format!("all sequences of at most 4 (thorough 5) of {} operations on two lists; all lists are looked at after the last operation and as they are dropped", few.len()), || histories(ctx, 2, &few, 4 + t as usize));
    let many = ops(3, 1, &[2]);
    ctx.suite("histories of three lists", &format!("all sequences of at most 4 of {} operations on three lists", many.len()), || histories(ctx, 3, &many, 4));
    let deep: Vec<Op> = vec![Op::Append(0, 0, 0), Op::Append(0, 0, 1), Op::Append(0, 1, 2), Op::Tail(0, 0), Op::TailN(0, 1, 2), Op::LastN(0, 1, 1), Op::LastN(0, 0, 2), Op::Clone(0, 1), Op::Clone(1, 0), Op::TailN(1, 1, 3)];
    ctx.suite("deep histories", "all sequences of at most 6 (thorough 7) of 10 operations", || histories(ctx, 2, &deep, 6 + t as usize));
    ctx.sample(|| show(&few[..4]));
    ctx.suite("comparisons", "equality, order and hashes of all pairs of sequences of at most 4 (thorough 5) of 3 elements, and of those of 5 to 40 and around 64, 128, 256 and 1000 that differ in one element or in length; integers, doubles with NaN, strings; lists made in 5 ways", || compares(ctx));
    ctx.suite("related lists", "lists of up to 5 (thorough 6) of 4 numbers, one of them not equal to itself, and of up to 257, with one such in five places: equality and order of the list, what is left of it, and that with one or two others before it, which share elements, all two by two", || related(ctx));
    ctx.suite("iterators", "all sequences of up to 4 (thorough 5) of 14 calls (next, nth with 1 to 6, size_hint, count, last, take, find, skip and step_by, fold) on the iterator of a list of 0 to 6 elements; lists collected from eight kinds of iterators of 0 to 300 elements", || {
        let mut seqs: Vec<Vec<u8>> = vec![vec![]];
        let mut level = seqs.clone();
        for _ in 0..4 + t as usize {
            level = level.iter().flat_map(|h: &Vec<u8>| (0..14u8).map(move |o| [&h[..], &[o]].concat())).collect();
            seqs = level.clone();
        }
        let mut work: Vec<(usize, Vec<u8>)> = (0..=6).flat_map(|n| seqs.iter().map(move |s| (n, s.clone()))).collect();
        work.extend((7..=300).map(|n| (n, vec![0, 7, 6, 13, 9])));
        ctx.par(&work, |(n, calls)| {
            for (who, f) in [("locations", loc::iterators as fn(usize, &[u8]) -> Option<String>), ("singular", sing::iterators)] {
                ctx.state(1);
                ctx.trans(calls.len() as u64);
                ctx.trace(1);
                let m = match guarded(|| f(*n, calls)) {
                    Ok(None) => continue,
                    Ok(Some(m)) => m,
                    Err(p) => format!("panic: {p}"),
                };
                ctx.fail(Violation { kind: "other", who: who.into(), what: "wrong-list".into(), input: format!("iterator of {n}: {calls:?}"), data: json!({"n": n, "calls": calls}), msg: m });
            }
        });
    });
    ctx.suite("long lists", "lists of up to 1000000 elements with shared tails, built, read and dropped on a thread with a 2 MiB stack", || {
        for n in [1usize, 2, 3, 10, 1000, 100_000, 1_000_000] {
            for (who, f) in [("locations", loc::long as fn(usize) -> Option<String>), ("singular", sing::long)] {
                crate::watch::begin(4, 0, "", &format!("a list of {n} elements ({who})"), "");
                let r = std::thread::Builder::new().stack_size(2 << 20).spawn(move || guarded(|| f(n))).unwrap().join();
                crate::watch::end();
                ctx.state(1);
                ctx.trans(n as u64);
                ctx.trace(1);
                let m = match r {
                    Ok(Ok(None)) => continue,
                    Ok(Ok(Some(m))) => m,
                    Ok(Err(p)) => format!("panic: {p}"),
                    Err(_) => "panic".into(),
                };
                ctx.fail(Violation { kind: "other", who: who.into(), what: "wrong-list".into(), input: format!("a list of {n} elements"), data: json!({"n": n}), msg: m });
            }
        }
    });
    ctx.suite("kept nodes", "every subset of the nodes of a result is kept while the others are dropped: the kept ones still name their places (6 queries x all documents of at most 5 (6) nodes)", || {
        let set = std_set();
        let qs = prep_all(&["$..*", "$.*", "$..[0]", "$[?@.*]", "$..[?@..*]", "$..['a','b']"].map(|s| s.to_string()), set);
        let ds = docs(docs::all(5 + t as usize, &[json!(1)], &["a", "b"]));
        ctx.par(&ds, |d| with_envs(|envs| {
            for q in &qs {
                kept(ctx, q, d, envs);
            }
        }));
    });
}

fn kept(ctx: &Ctx, q: &Q, d: &Doc, envs: &Envs) {
    macro_rules! go {
        ($m:ident, $who:expr) => {{
            let c = q.c.$m.as_ref().unwrap();
            let all = c.find(&d.v, envs.$m).len().min(6);
            for mask in 0..(1u32 << all) {
                // forwards and backwards
                for back in [false, true] {
                    let mut keep = vec![];
                    let mut ns: Vec<_> = c.find(&d.v, envs.$m).into_iter().take(6).enumerate().collect();
                    if back {
                        ns.reverse();
                    }
                    for (i, n) in ns {
                        if mask >> i & 1 == 1 {
                            keep.push(n);
                        }
                    }
                    ctx.state(1);
                    ctx.trace(1);
                    ctx.trans(keep.len() as u64);
                    for n in &keep {
                        let mut s = d.at[&(n.value as *const serde_json::Value)].clone();
                        s.reverse();
                        if let Some(m) = $m::look(&n.location, &s) {
                            ctx.fail(Violation { kind: "other", who: $who.into(), what: "wrong-location".into(), input: format!("{} on {}", q.text, d.v), data: json!({"text": q.text, "doc": d.v.to_string(), "kept": mask}), msg: m });
                        }
                    }
                }
            }
        }};
    }
    go!(loc, "locations");
    go!(sing, "singular");
}
