#![allow(unused)]
use serde_json::{json, Value};
fn values(r: Result<Vec<(String, Value)>, String>) -> Vec<Value> { r.expect("a query").into_iter().map(|(_, v)| v).collect() }
fn places(r: Result<Vec<(String, Value)>, String>) -> Vec<String> { r.expect("a query").into_iter().map(|(l, _)| l).collect() }
fn iter(q: &str, d: &Value) -> Result<Vec<(String, Value)>, String> { jsonpath_rfc9535_iter::find(q, d).map(|n| n.map(|n| (n.location.clone(), n.value.clone())).collect()).map_err(|e| e.to_string()) }
fn main() { let d = json!({"\u{1F600}": 1, "é": 2}); assert_eq!(values(iter("$.é", &d)), [json!(2)]); assert_eq!(values(iter("$.\u{1F600}", &d)), [json!(1)]); }