#![allow(unused)]
use serde_json::{json, Value};
fn values(r: Result<Vec<(String, Value)>, String>) -> Vec<Value> { r.expect("a query").into_iter().map(|(_, v)| v).collect() }
fn places(r: Result<Vec<(String, Value)>, String>) -> Vec<String> { r.expect("a query").into_iter().map(|(l, _)| l).collect() }
fn iter(q: &str, d: &Value) -> Result<Vec<(String, Value)>, String> { jsonpath_rfc9535_iter::find(q, d).map(|n| n.map(|n| (n.location.clone(), n.value.clone())).collect()).map_err(|e| e.to_string()) }
fn main() { let d = json!([1]); assert!(iter("$[::0]", &d).is_ok()); assert!(iter("$[:-0]", &d).is_err()); assert!(iter("$[::-0]", &d).is_err()); }