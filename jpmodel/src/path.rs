//! Normalized paths (RFC 9535 section 2.7).
#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Step {
    Index(usize),
    Name(String),
}

pub fn escape_name(n: &str, out: &mut String) {
    for c in n.chars() {
        match c {
            '\'' => out.push_str("\\'"),
            '\\' => out.push_str("\\\\"),
            '\u{8}' => out.push_str("\\b"),
            '\t' => out.push_str("\\t"),
            '\n' => out.push_str("\\n"),
            '\u{c}' => out.push_str("\\f"),
            '\r' => out.push_str("\\r"),
            c if (c as u32) < 0x20 => out.push_str(&format!("\\u{:04x}", c as u32)),
            c => out.push(c),
        }
    }
}

pub fn normalized(steps: &[Step]) -> String {
    let mut out = String::from("$");
    for s in steps {
        match s {
            Step::Index(i) => {
                out.push('[');
                out.push_str(&i.to_string());
                out.push(']');
            }
            Step::Name(n) => {
                out.push_str("['");
                escape_name(n, &mut out);
                out.push_str("']");
            }
        }
    }
    out
}
