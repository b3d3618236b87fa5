#![allow(unused)]
use serde_json::{json, Value};
fn values(r: Result<Vec<(String, Value)>, String>) -> Vec<Value> { r.expect("a query").into_iter().map(|(_, v)| v).collect() }
fn places(r: Result<Vec<(String, Value)>, String>) -> Vec<String> { r.expect("a query").into_iter().map(|(l, _)| l).collect() }
fn rec(q: &str) -> Result<jsonpath_rfc9535_pest_recursive::Query, jsonpath_rfc9535_pest_recursive::errors::JSONPathError> { jsonpath_rfc9535_pest_recursive::Query::standard(q) }
fn main() { assert!(rec("$..['a']").is_ok()); assert!(rec("$.. a").is_err()); assert!(rec("$.. ['a']").is_err()); }