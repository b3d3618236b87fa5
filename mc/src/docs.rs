//! Enumeration of JSON documents.
use serde_json::{json, Map, Value};

/// Every document of at most `n` nodes: arrays of any width, objects with any subset of
/// `keys` in order, and these leaves (`[]` and `{}` are leaves too).
pub fn all(n: usize, leaves: &[Value], keys: &[&str]) -> Vec<Value> {
    let mut by: Vec<Vec<Value>> = vec![vec![]; n + 1];
    for k in 1..=n {
        let mut out = vec![];
        if k == 1 {
            out.extend(leaves.iter().cloned());
            out.push(json!([]));
            out.push(json!({}));
        } else {
            // forests of total size k-1
            forests(k - 1, &by, &mut vec![], &mut |f: &[Value]| {
                out.push(Value::Array(f.to_vec()));
                choose(keys, f.len(), 0, &mut vec![], &mut |ks| {
                    let mut m = Map::new();
                    for (k, v) in ks.iter().zip(f) {
                        m.insert(k.to_string(), v.clone());
                    }
                    out.push(Value::Object(m));
                });
            });
        }
        by[k] = out;
    }
    by.concat()
}

fn forests(left: usize, by: &[Vec<Value>], cur: &mut Vec<Value>, f: &mut dyn FnMut(&[Value])) {
    if left == 0 {
        f(cur);
        return;
    }
    for s in 1..=left {
        for v in &by[s] {
            cur.push(v.clone());
            forests(left - s, by, cur, f);
            cur.pop();
        }
    }
}

fn choose<'a>(keys: &[&'a str], k: usize, from: usize, cur: &mut Vec<&'a str>, f: &mut dyn FnMut(&[&'a str])) {
    if cur.len() == k {
        f(cur);
        return;
    }
    for i in from..keys.len() {
        cur.push(keys[i]);
        choose(keys, k, i + 1, cur, f);
        cur.pop();
    }
}

/// Documents whose shape or names are out of the ordinary.
pub fn odd() -> Vec<Value> {
    let mut v = vec![
        json!({"": 1, " ": 2, "a b": 3, "0": 4, "-1": 5, "a.b": 6, "*": 7, "$": 8, "@": 9, "..": 10}),
        json!({"'": 1, "\"": 2, "\\": 3, "\\'": 4, "\u{8}\u{c}\n\r\t": 5, "\u{0}\u{1}\u{1f}": 6, "\u{7f}": 7, "/": 8, "']['": 9}),
        json!({"\u{e9}": 1, "e\u{301}": 2, "\u{1F600}": 3, "\u{ffff}": 4, "\u{d7ff}\u{e000}": 5, "A": 6, "a": 7}),
        json!([{"": [{"": []}]}, [[[[]]]], {"'": {"'": {"'": {}}}}]),
        json!({"0": ["x"], "1": {"0": "y"}, "a": ["z", {"a": ["w"]}]}),
        json!([[], [[]], [[], []], {}, {"a": {}}, {"a": []}, [{}]]),
        json!("0123"),
        json!({"length": 1, "true": 2, "null": 3, "a": {"a": {"a": {"a": 1}}}}),
        Value::Array((0..300).map(|i| json!(i)).collect()),
        Value::Object((0..40).map(|i| (format!("k{i:02}"), json!([i, {"k": i}]))).collect()),
    ];
    let mut d = json!({"a": 1, "b": [2]});
    for i in 0..40 {
        d = if i % 2 == 0 { json!([d, i]) } else { json!({"a": d, "b": [i]}) };
    }
    v.push(d);
    v
}

/// The values that comparisons, functions and truth tests have to tell apart.
pub fn values() -> Vec<Value> {
    vec![
        json!(null), json!(true), json!(false), json!(0), json!(-0.0), json!(1), json!(1.0), json!(-1), json!(1.5), json!(2), json!(10), json!(100.0),
        json!(1e2), json!(1e-7), json!(1e300), json!(-1e300), json!(0.1), json!(0.30000000000000004), json!(0.3), json!(9007199254740991i64),
        json!(-9007199254740991i64), json!(9007199254740991.0), json!(""), json!("a"), json!("A"), json!("b"), json!("ab"), json!("aa"), json!("1"), json!("true"),
        json!("null"), json!("\u{e9}"), json!("e\u{301}"), json!("\u{1F600}"), json!("\u{ffff}"), json!("\u{d7ff}"), json!("\u{e000}"), json!("z"), json!("\u{0}"), json!("a\u{0}"), json!([]), json!({}), json!([1]),
        json!([1.0]), json!([1, 2]), json!([2, 1]), json!([[1]]), json!([[1.0], "a"]), json!([null]), json!({"a": 1}), json!({"a": 1.0}), json!({"a": 2}), json!({"b": 1}),
        json!({"a": 1, "b": 2}), json!({"b": 2, "a": 1}), json!({"a": 1, "b": 3}), json!({"a": {"b": [1, {"c": 0}]}}), json!({"a": {"b": [1.0, {"c": -0.0}]}}), json!({"a": {"b": [1, {"c": 1}]}}),
        json!([{"a": 1}, {"b": null}]), json!([{"a": 1.0}, {"b": null}]), json!([{"a": 1}, {"b": false}]), json!([{}]), json!([[]]), json!({"a": null}), json!({"a": []}),
    ]
}
