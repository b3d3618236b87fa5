#![allow(unused)]
use serde_json::{json, Value};
fn values(r: Result<Vec<(String, Value)>, String>) -> Vec<Value> { r.expect("a query").into_iter().map(|(_, v)| v).collect() }
fn places(r: Result<Vec<(String, Value)>, String>) -> Vec<String> { r.expect("a query").into_iter().map(|(l, _)| l).collect() }
fn iter(q: &str, d: &Value) -> Result<Vec<(String, Value)>, String> { jsonpath_rfc9535_iter::find(q, d).map(|n| n.map(|n| (n.location.clone(), n.value.clone())).collect()).map_err(|e| e.to_string()) }
fn main() { let d = json!([{"a": 1}]); assert_eq!(values(iter("$[?((@.a))]", &d)).len(), 1); let t = std::time::Instant::now(); let n = 40; let q = format!("$[?{}@.a{}]", "(".repeat(n), ")".repeat(n)); let (tx, rx) = std::sync::mpsc::channel(); std::thread::spawn(move || { let d = json!([{"a": 1}]); tx.send(values(iter(&q, &d)).len()).unwrap(); }); assert_eq!(rx.recv_timeout(std::time::Duration::from_secs(20)).expect("in time"), 1); }