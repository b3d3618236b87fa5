#![allow(unused)]
use serde_json::{json, Value};
fn values(r: Result<Vec<(String, Value)>, String>) -> Vec<Value> { r.expect("a query").into_iter().map(|(_, v)| v).collect() }
fn places(r: Result<Vec<(String, Value)>, String>) -> Vec<String> { r.expect("a query").into_iter().map(|(l, _)| l).collect() }
fn serde(q: &str, d: &Value) -> Result<Vec<(String, Value)>, String> { jsonpath_rfc9535_serde::find(q, d).map(|n| n.into_iter().map(|n| (n.location, n.value.clone())).collect()).map_err(|e| e.to_string()) }
fn serde_loop(q: &str, d: &Value) -> Result<Vec<(String, Value)>, String> { jsonpath_rfc9535_serde::find_loop(q, d).map(|n| n.into_iter().map(|n| (n.location, n.value.clone())).collect()).map_err(|e| e.to_string()) }
fn main() { let d = json!([1]); assert!(serde("$[0]", &d).is_ok()); assert!(serde("$[ 0 ]", &d).is_ok()); assert!(serde("$[0  ]", &d).is_ok()); assert!(serde("$[0\r\n]", &d).is_ok()); }