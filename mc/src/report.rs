//! Counters, violations, known findings and the evidence file.
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Debug, Clone)]
pub struct Violation {
    /// kind of replay: "parse", "eval", …
    pub kind: &'static str,
    /// what component misbehaved
    pub who: String,
    /// short code of the misbehaviour
    pub what: String,
    /// the failing input, for matching against known findings
    pub input: String,
    /// everything needed to run it again
    pub data: Value,
    pub msg: String,
}

pub struct Known {
    pub who: String,
    pub what: String,
    pub rule: String,
    pub inputs: Vec<String>,
    pub note: String,
    pub hits: AtomicU64,
}

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub start: Instant,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    pub parts: Mutex<BTreeMap<String, u64>>,
    pub samples: Mutex<Vec<String>>,
    pub violations: Mutex<Vec<(Violation, String)>>,
    pub nviol: AtomicU64,
    pub known: Vec<Known>,
    pub notes: Mutex<Vec<String>>,
    pub verbose: bool,
    pub threads: usize,
    /// wall-clock spent in each named part
    pub times: Mutex<BTreeMap<String, f64>>,
    /// the suite that is running
    now: Mutex<String>,
    /// what each part enumerates
    pub bounds: Mutex<BTreeMap<String, String>>,
    seen: Vec<Mutex<HashSet<u64>>>,
}

pub fn root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

impl Ctx {
    pub fn new(prop: &str, thorough: bool) -> Ctx {
        let mut known = vec![];
        if let Ok(t) = std::fs::read_to_string(root().join("known_findings.txt")) {
            for l in t.lines() {
                let Ok(v) = serde_json::from_str::<Value>(l) else {
                    continue;
                };
                if v["property"] == prop && v["status"] == "known" {
                    let g = |k: &str| v[k].as_str().unwrap_or("").to_string();
                    known.push(Known {
                        who: g("who"),
                        what: g("what"),
                        rule: g("rule"),
                        inputs: match &v["input"] {
                            Value::Array(a) => a.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect(),
                            _ => vec![g("input")],
                        },
                        note: g("note"),
                        hits: AtomicU64::new(0),
                    });
                }
            }
        }
        Ctx {
            prop: prop.into(),
            thorough,
            start: Instant::now(),
            states: 0.into(),
            transitions: 0.into(),
            traces: 0.into(),
            parts: Mutex::new(BTreeMap::new()),
            samples: Mutex::new(vec![]),
            violations: Mutex::new(vec![]),
            nviol: 0.into(),
            known,
            notes: Mutex::new(vec![]),
            verbose: std::env::var("MC_VERBOSE").is_ok(),
            threads: std::env::var("MC_THREADS")
                .ok()
                .and_then(|x| x.parse().ok())
                .unwrap_or(8),
            times: Mutex::new(BTreeMap::new()),
            now: Mutex::new(String::new()),
            bounds: Mutex::new(BTreeMap::new()),
            seen: (0..256).map(|_| Mutex::new(HashSet::new())).collect(),
        }
    }

    /// Count a state the first time it is reached; true if it is new.
    pub fn fresh<K: Hash>(&self, k: K) -> bool {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        k.hash(&mut h);
        let h = h.finish();
        let new = self.seen[(h & 255) as usize].lock().unwrap().insert(h);
        if new {
            self.state(1);
        }
        new
    }
    pub fn state(&self, n: u64) {
        self.states.fetch_add(n, Relaxed);
    }
    pub fn trans(&self, n: u64) {
        self.transitions.fetch_add(n, Relaxed);
    }
    pub fn trace(&self, n: u64) {
        self.traces.fetch_add(n, Relaxed);
    }
    pub fn part(&self, k: &str, n: u64) {
        *self.parts.lock().unwrap().entry(k.into()).or_insert(0) += n;
    }
    pub fn sample(&self, s: impl FnOnce() -> String) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 24 {
            let s = s();
            v.push(s.chars().take(400).collect());
        }
    }
    /// keep a sample now and then so that samples spread over the run
    pub fn note(&self, s: String) {
        self.notes.lock().unwrap().push(s);
    }

    /// Run one named part of the property's exploration and record its share.
    pub fn suite(&self, name: &str, what: &str, f: impl FnOnce()) {
        self.bounds.lock().unwrap().insert(name.into(), what.into());
        if let Ok(only) = std::env::var("MC_ONLY") {
            if !name.contains(&only) {
                return;
            }
        }
        *self.now.lock().unwrap() = name.into();
        let t = Instant::now();
        let (s0, v0) = (self.states.load(Relaxed), self.traces.load(Relaxed));
        crate::watch::end();
        f();
        crate::watch::end();
        let d = t.elapsed().as_secs_f64();
        self.times.lock().unwrap().insert(name.into(), d);
        self.part(&format!("{name}: states"), self.states.load(Relaxed) - s0);
        self.part(
            &format!("{name}: traces validated"),
            self.traces.load(Relaxed) - v0,
        );
        if self.verbose {
            eprintln!(
                "[{}] {name}: {:.1}s states {} traces {} viol {}",
                self.prop,
                d,
                self.states.load(Relaxed) - s0,
                self.traces.load(Relaxed) - v0,
                self.nviol.load(Relaxed)
            );
        }
    }

    pub fn fail(&self, v: Violation) {
        let suite = self.now.lock().unwrap().clone();
        for k in &self.known {
            if (k.who == v.who || k.who == "*") && k.what == v.what && k.inputs.iter().any(|i| rule(&k.rule, i, &v.input)) {
                k.hits.fetch_add(1, Relaxed);
                return;
            }
        }
        self.nviol.fetch_add(1, Relaxed);
        let mut vs = self.violations.lock().unwrap();
        // keep the smallest inputs per (kind, who, what)
        let same: Vec<usize> = vs
            .iter()
            .enumerate()
            .filter(|(_, (w, _))| w.who == v.who && w.what == v.what)
            .map(|(i, _)| i)
            .collect();
        let cap = if self.verbose { 12 } else { 3 };
        if same.len() < cap {
            vs.push((v, suite));
        } else if let Some(&i) = same.iter().max_by_key(|i| vs[**i].0.input.len()) {
            if vs[i].0.input.len() > v.input.len() {
                vs[i] = (v, suite);
            }
        }
    }

    /// Deal `items` out to the worker threads.
    pub fn par<T: Sync>(&self, items: &[T], f: impl Fn(&T) + Sync) {
        // what this thread did before is done
        crate::watch::end();
        let next = AtomicUsize::new(0);
        std::thread::scope(|s| {
            for _ in 0..self.threads {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, || {
                    loop {
                        let i = next.fetch_add(1, Relaxed);
                        if i >= items.len() {
                            break;
                        }
                        f(&items[i]);
                        crate::watch::end();
                    }
                    crate::watch::end();
                    })
                    .unwrap();
            }
        });
    }

    pub fn finish(&self, assumptions: &[&str]) -> i32 {
        let tier = if self.thorough { "thorough" } else { "quick" };
        let seed: i64 = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(1);
        let vs = self.violations.lock().unwrap();
        let cov = json!({
            "states": self.states.load(Relaxed),
            "transitions": self.transitions.load(Relaxed),
            "traces_validated_against_impl": self.traces.load(Relaxed),
            "samples": *self.samples.lock().unwrap(),
            "exhaustive": true,
            "bounds": *self.bounds.lock().unwrap(),
            "parts": *self.parts.lock().unwrap(),
            "part_seconds": *self.times.lock().unwrap(),
            "notes": *self.notes.lock().unwrap(),
            "known_finding_hits": self.known.iter().map(|k| json!({"what": k.note, "hits": k.hits.load(Relaxed)})).collect::<Vec<_>>(),
        });
        let ev = json!({
            "property": self.prop,
            "tier": tier,
            "seed": seed,
            "level": "model_checking",
            "coverage": cov,
            "assumptions": assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": self.nviol.load(Relaxed),
        });
        let again = std::env::var("MC_REPLAY").is_ok();
        if !again {
            let dir = root().join("evidence");
            let _ = std::fs::create_dir_all(&dir);
            std::fs::write(dir.join(format!("{}.json", self.prop)), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
        }
        for k in &self.known {
            // listed findings are announced when this run met them again
            if k.hits.load(Relaxed) > 0 {
                println!("KNOWN-FINDING: property={} {}", self.prop, k.note);
            }
        }
        if vs.is_empty() {
            println!(
                "OK property={} tier={} states={} transitions={} traces={} wall={:.1}s",
                self.prop,
                tier,
                self.states.load(Relaxed),
                self.transitions.load(Relaxed),
                self.traces.load(Relaxed),
                self.start.elapsed().as_secs_f64()
            );
            return 0;
        }
        let rdir = root().join("replays");
        let _ = std::fs::create_dir_all(&rdir);
        let mut vs: Vec<&(Violation, String)> = vs.iter().collect();
        vs.sort_by_key(|v| (v.0.input.len(), v.0.who.clone(), v.0.what.clone()));
        let lim = if self.verbose { 400 } else { 12 };
        for (i, (v, suite)) in vs.iter().enumerate().take(lim) {
            if again {
                println!("{} {}: {:?}\n    {}", v.who, v.what, v.input, v.msg);
                continue;
            }
            let f = rdir.join(format!("{}-{}.json", self.prop, i));
            let _ = std::fs::write(
                &f,
                serde_json::to_string_pretty(&json!({
                    "property": self.prop, "kind": v.kind, "who": v.who, "what": v.what,
                    "input": v.input, "data": v.data, "msg": v.msg, "suite": suite, "tier": tier,
                }))
                .unwrap(),
            );
            if i == 0 || self.verbose {
                println!("VIOLATION property={} replay={}", self.prop, f.display());
            }
            println!("  {} {}: {:?}\n    {}", v.who, v.what, v.input, v.msg);
        }
        println!("  ({} violating cases in all)", self.nviol.load(Relaxed));
        1
    }
}

/// Matching rules of the known-findings file. Every rule names inputs, not outcomes.
fn rule(rule: &str, listed: &str, input: &str) -> bool {
    match rule {
        "exact" => listed == input,
        // a \u0000 … \u001F escape in a string literal of the query
        "ctl-escape" => has_ctl_escape(input),
        // a string literal with this character in it
        "literal-has" => literal_has(input, listed.chars().next().unwrap()),
        _ => false,
    }
}

fn literal_has(text: &str, c: char) -> bool {
    use jpmodel::ast::*;
    fn q(x: &Query, c: char) -> bool {
        x.segs.iter().any(|s| {
            s.sels.iter().any(|s| match s {
                Sel::Filter(e) => ex(e, c),
                Sel::Singular(x) => q(x, c),
                _ => false,
            })
        })
    }
    fn ex(e: &Expr, c: char) -> bool {
        match e {
            Expr::Or(v) | Expr::And(v) | Expr::Call(_, v) => v.iter().any(|x| ex(x, c)),
            Expr::Not(x) | Expr::Paren(x) => ex(x, c),
            Expr::Cmp(_, a, b) => ex(a, c) || ex(b, c),
            Expr::Query { q: x, .. } => q(x, c),
            Expr::Lit(Lit::Str(s)) => s.contains(c),
            Expr::Lit(_) => false,
        }
    }
    jpmodel::parse::parse(text, Default::default()).query.map_or(false, |x| q(&x, c))
}

pub fn has_ctl_escape(s: &str) -> bool {
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i + 5 < b.len() {
        if b[i] == '\\' {
            if b[i + 1] == 'u'
                && b[i + 2] == '0'
                && b[i + 3] == '0'
                && (b[i + 4] == '0' || b[i + 4] == '1')
                && b[i + 5].is_ascii_hexdigit()
            {
                return true;
            }
            i += 2;
        } else {
            i += 1;
        }
    }
    false
}
