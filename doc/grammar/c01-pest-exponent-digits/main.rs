#![allow(unused)]
use serde_json::{json, Value};
fn values(r: Result<Vec<(String, Value)>, String>) -> Vec<Value> { r.expect("a query").into_iter().map(|(_, v)| v).collect() }
fn places(r: Result<Vec<(String, Value)>, String>) -> Vec<String> { r.expect("a query").into_iter().map(|(l, _)| l).collect() }
fn pest(q: &str) -> Result<jsonpath_rfc9535_pest::Query, jsonpath_rfc9535_pest::errors::JSONPathError> { jsonpath_rfc9535_pest::Query::standard(q) }
fn main() { assert!(pest("$[?@==1e10]").is_ok()); assert!(pest("$[?@==1e100]").is_ok()); assert!(pest("$[?@==1.5E-007]").is_ok()); }