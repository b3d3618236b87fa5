//! Concurrency: runs the explorer of schedules (/verif/conc), one process per scenario.
use crate::report::*;
use serde_json::{json, Value};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

fn exe() -> std::path::PathBuf {
    root().join("target/conc/debug/conc")
}

/// Output of a run, or None if it did not end in time.
fn output(args: &[&str], secs: f64) -> Option<(String, String)> {
    let mut c = Command::new(exe()).args(args).env_remove("MC_WATCH").stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("conc");
    let start = Instant::now();
    let mut out = c.stdout.take().unwrap();
    let h = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = std::io::Read::read_to_string(&mut out, &mut s);
        s
    });
    loop {
        if let Some(st) = c.try_wait().unwrap() {
            return Some((h.join().unwrap(), format!("{st}")));
        }
        if start.elapsed().as_secs_f64() > secs {
            let _ = c.kill();
            let _ = c.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(2));
    }
}

pub fn c16(ctx: &Ctx) {
    if let Ok(f) = std::env::var("MC_CONC_FAIL") {
        let t = std::fs::read_to_string(f).unwrap_or_default();
        let l = t.lines().find(|l| l.contains("between threads safely")).unwrap_or("").to_string();
        ctx.fail(Violation { kind: "threads", who: "build".into(), what: "cannot-be-shared".into(), input: "environments used by several threads".into(), data: json!({}), msg: l });
        return;
    }
    let (list, _) = output(&["list"], 60.0).expect("conc list");
    let names: Vec<&str> = list.lines().map(|l| l.split('\t').next().unwrap()).collect();
    let budget = if ctx.thorough { 240.0 } else { 4.0 };
    let parts = std::sync::Mutex::new(std::collections::BTreeMap::<String, Value>::new());
    ctx.suite("schedules", "scenarios of two or three threads in one environment per engine, in the global ones, and with shared queries and parsers: all schedules, by number of preemptions, switching at every use of a lock, atomic or cell that threads share and at calls of a registered function", || {
        ctx.par(&names, |n| {
            let want = budget.to_string();
            match output(&["run", n, "99", &want], budget * 9.0 + 60.0) {
                None => fail(ctx, n, json!(null), "the threads do not end".into()),
                Some((o, st)) => match serde_json::from_str::<Value>(o.trim()) {
                    Ok(v) if v.is_object() => {
                        ctx.state(v["states"].as_u64().unwrap_or(0));
                        ctx.trans(v["steps"].as_u64().unwrap_or(0));
                        ctx.trace(v["schedules"].as_u64().unwrap_or(0));
                        if !v["violation"].is_null() {
                            let x = &v["violation"];
                            fail(ctx, n, x["plan"].clone(), format!("{} (threads ran in the order {})", x["msg"].as_str().unwrap_or(""), x["order"]));
                        } else {
                            let b = match &v["bound"] {
                                Value::String(_) => "all".into(),
                                Value::Null => "not even all without preemption".into(),
                                b => format!("{b} preemptions"),
                            };
                            parts.lock().unwrap().insert(n.to_string(), json!(format!("{} schedules ({b})", v["schedules"])));
                        }
                    }
                    // a crash
                    _ => fail(ctx, n, json!(null), format!("the run ends with {st} and no result")),
                },
            }
        });
    });
    for (k, v) in parts.lock().unwrap().iter() {
        ctx.note(format!("{k}: {}", v.as_str().unwrap()));
    }
    ctx.sample(|| format!("{}; {}; {}", names[0], names[names.len() / 3], names[names.len() - 1]));
}

fn fail(ctx: &Ctx, scenario: &str, plan: Value, msg: String) {
    let who = scenario.split(':').next().unwrap_or("").to_string();
    ctx.fail(Violation { kind: "threads", who, what: "wrong-under-concurrency".into(), input: scenario.into(), data: json!({"scenario": scenario, "plan": plan}), msg });
}

pub fn replay_threads(d: &Value) -> Vec<String> {
    let s = d["scenario"].as_str().unwrap_or("");
    let plan = if d["plan"].is_null() { "[]".to_string() } else { d["plan"].to_string() };
    match output(&["replay", s, &plan], 120.0) {
        None => vec!["the threads do not end".into()],
        Some((o, st)) => match serde_json::from_str::<Value>(o.trim()) {
            Ok(v) if v["violation"].is_null() => vec![],
            Ok(v) => vec![format!("{}: {}", s, v["violation"])],
            Err(_) => vec![format!("{s}: {st}")],
        },
    }
}
