//! Source positions in the syntax tree of the hand-written parser.
//!
//! The tree is read in source order. Every node must carry the byte range of the token
//! that introduces it; reading on from there, the text must consist of exactly the tokens
//! the tree implies, so positions cannot be exchanged, shifted or repeated.
use crate::adapt::*;
use hand::query::{FilterExpression as F, Segment as S, Selector as L};

struct W<'t> {
    t: &'t str,
    /// everything before this byte has been accounted for
    at: usize,
}

type R = Result<(), String>;

fn blank(c: char) -> bool {
    matches!(c, ' ' | '\t' | '\n' | '\r')
}

impl<'t> W<'t> {
    fn slice(&self, sp: (usize, usize)) -> Result<&'t str, String> {
        self.t
            .get(sp.0..sp.1)
            .ok_or_else(|| format!("span {sp:?} is not a range of the text"))
    }
    fn skip(&mut self) {
        while let Some(c) = self.t[self.at..].chars().next() {
            if blank(c) {
                self.at += c.len_utf8();
            } else {
                break;
            }
        }
    }
    /// the next token is `tok`
    fn eat(&mut self, tok: &str) -> bool {
        self.skip();
        if self.t[self.at..].starts_with(tok) {
            self.at += tok.len();
            true
        } else {
            false
        }
    }
    fn want(&mut self, tok: &str) -> R {
        if self.eat(tok) {
            Ok(())
        } else {
            Err(format!("expected {tok:?} at byte {} (checker out of step with the tree)", self.at))
        }
    }
    /// the next token is `tok`, and a node claims that `sp` is where it stands
    fn token(&mut self, what: &str, tok: &str, sp: (usize, usize)) -> R {
        self.skip();
        let want = (self.at, self.at + tok.len());
        let got = self.slice(sp)?;
        if got != tok || sp != want {
            return Err(format!("{what}: span {sp:?} is {got:?}, want {want:?}, {tok:?}"));
        }
        self.at = want.1;
        Ok(())
    }
    fn number(&mut self) -> String {
        self.skip();
        let r = &self.t[self.at..];
        let n = r
            .char_indices()
            .find(|(i, c)| {
                let prev = r[..*i].chars().last();
                !(c.is_ascii_digit()
                    || (*c == '-' && (*i == 0 || matches!(prev, Some('e') | Some('E'))))
                    || (*c == '+' && matches!(prev, Some('e') | Some('E')))
                    || (*c == '.' && r[i + 1..].starts_with(|c: char| c.is_ascii_digit()))
                    || (matches!(c, 'e' | 'E') && *i > 0))
            })
            .map(|(i, _)| i)
            .unwrap_or(r.len());
        r[..n].to_string()
    }
    fn literal_number(&mut self, what: &str, v: f64, sp: (usize, usize)) -> R {
        let n = self.number();
        if n.parse::<f64>().ok() != Some(v) {
            return Err(format!("{what}: {n:?} read where the tree says {v}"));
        }
        self.token(what, &n, sp)
    }
    fn quoted(&mut self, what: &str, value: &str, sp: (usize, usize)) -> R {
        self.skip();
        let q = self.t[self.at..].chars().next().unwrap_or(' ');
        if q != '\'' && q != '"' {
            return Err(format!("{what}: no string at byte {}", self.at));
        }
        self.at += 1;
        let body = &self.t[self.at..];
        let mut esc = false;
        let mut end = None;
        for (i, c) in body.char_indices() {
            if esc {
                esc = false;
            } else if c == '\\' {
                esc = true;
            } else if c == q {
                end = Some(i);
                break;
            }
        }
        let end = end.ok_or("unclosed string")?;
        let tok = &body[..end];
        let _ = value;
        // the span is that of the characters between the quotes; an empty string has an empty span
        if tok.is_empty() {
            if sp.0 != sp.1 || sp.0 != self.at {
                return Err(format!("{what}: span {sp:?} of an empty string at byte {}", self.at));
            }
        } else {
            let want = (self.at, self.at + end);
            let got = self.slice(sp)?;
            if sp != want {
                return Err(format!("{what}: span {sp:?} is {got:?}, want {want:?}, {tok:?}"));
            }
        }
        self.at += end + 1;
        Ok(())
    }

    fn segments(&mut self, segs: &[S]) -> R {
        for s in segs {
            match s {
                S::Child { span, selectors } => {
                    self.skip();
                    if self.t[self.at..].starts_with('[') {
                        self.token("child segment", "[", *span)?;
                        self.selectors(selectors)?;
                    } else {
                        self.want(".")?;
                        let keep = self.at;
                        self.shorthand("child segment", &selectors[0], *span)?;
                        self.at = keep;
                        let sp = match &selectors[0] {
                            L::Name { span, .. } | L::Wild { span } => *span,
                            o => return Err(format!("shorthand for {o:?}")),
                        };
                        self.shorthand("selector", &selectors[0], sp)?;
                    }
                }
                S::Recursive { span, selectors } => {
                    self.token("descendant segment", "..", *span)?;
                    if self.t[self.at..].starts_with('[') {
                        self.at += 1;
                        self.selectors(selectors)?;
                    } else {
                        let sp = match &selectors[0] {
                            L::Name { span, .. } | L::Wild { span } => *span,
                            o => return Err(format!("shorthand for {o:?}")),
                        };
                        self.shorthand("selector", &selectors[0], sp)?;
                    }
                }
            }
        }
        Ok(())
    }

    fn shorthand(&mut self, what: &str, s: &L, sp: (usize, usize)) -> R {
        match s {
            L::Name { name, .. } => self.token(what, name, sp),
            L::Wild { .. } => self.token(what, "*", sp),
            o => Err(format!("shorthand for {o:?}")),
        }
    }

    fn selectors(&mut self, v: &[L]) -> R {
        for (i, s) in v.iter().enumerate() {
            if i > 0 {
                self.want(",")?;
            }
            match s {
                L::Name { span, name } => self.quoted("name selector", name, *span)?,
                L::Index { span, index } => self.literal_number("index selector", *index as f64, *span)?,
                L::Wild { span } => self.token("wildcard selector", "*", *span)?,
                L::Filter { span, expression } => {
                    self.token("filter selector", "?", *span)?;
                    self.expr(expression)?;
                    while self.eat(")") {}
                }
                L::Slice { span, start, stop, step } => {
                    match start {
                        Some(n) => {
                            self.literal_number("slice selector", *n as f64, *span)?;
                            self.want(":")?;
                        }
                        None => self.token("slice selector", ":", *span)?,
                    }
                    if stop.is_some() {
                        let n = self.number();
                        self.want(&n)?;
                    }
                    if self.eat(":") && step.is_some() {
                        let n = self.number();
                        if !n.is_empty() {
                            self.want(&n)?;
                        }
                    }
                }
            }
        }
        self.want("]")
    }

    /// Parentheses are not in the tree: skip those that open before an operand and those
    /// that close after it.
    fn opens(&mut self) {
        while self.eat("(") {}
    }
    fn expr(&mut self, e: &F) -> R {
        self.opens();
        let (F::True { span }
        | F::False { span }
        | F::Null { span }
        | F::String { span, .. }
        | F::Int { span, .. }
        | F::Float { span, .. }
        | F::Not { span, .. }
        | F::Logical { span, .. }
        | F::Comparison { span, .. }
        | F::RelativeQuery { span, .. }
        | F::RootQuery { span, .. }
        | F::Function { span, .. }) = e;
        if e.span() != *span {
            return Err(format!("span() gives {:?} for an expression with the span {span:?}", e.span()));
        }
        match e {
            F::True { span } => self.token("true", "true", *span)?,
            F::False { span } => self.token("false", "false", *span)?,
            F::Null { span } => self.token("null", "null", *span)?,
            F::String { span, value } => self.quoted("string literal", value, *span)?,
            F::Int { span, value } => self.literal_number("integer literal", *value as f64, *span)?,
            F::Float { span, value } => self.literal_number("number literal", *value, *span)?,
            F::Not { span, expression } => {
                self.token("negation", "!", *span)?;
                self.expr(expression)?;
            }
            F::Logical { span, left, operator, right } => {
                self.binary(*span, left, &operator.to_string(), right)?;
            }
            F::Comparison { span, left, operator, right } => {
                self.binary(*span, left, &operator.to_string(), right)?;
            }
            F::RelativeQuery { span, query } => {
                self.token("relative query", "@", *span)?;
                self.segments(&query.segments)?;
            }
            F::RootQuery { span, query } => {
                self.token("root query", "$", *span)?;
                self.segments(&query.segments)?;
            }
            F::Function { span, name, args } => {
                self.token("function call", name, *span)?;
                self.want("(")?;
                for (i, a) in args.iter().enumerate() {
                    if i > 0 {
                        self.want(",")?;
                    }
                    let depth_at = self.at;
                    self.expr(a)?;
                    // closing parentheses that belong to the argument
                    let mut d = self.balance(depth_at);
                    while d > 0 && self.eat(")") {
                        d -= 1;
                    }
                }
                self.want(")")?;
            }
        }
        Ok(())
    }

    /// parentheses opened and not closed since byte `from`, outside strings
    fn balance(&self, from: usize) -> i64 {
        let mut d = 0;
        let mut quote = None;
        let mut esc = false;
        for c in self.t[from..self.at].chars() {
            match quote {
                Some(q) => {
                    if esc {
                        esc = false
                    } else if c == '\\' {
                        esc = true
                    } else if c == q {
                        quote = None
                    }
                }
                None => match c {
                    '\'' | '"' => quote = Some(c),
                    '(' => d += 1,
                    ')' => d -= 1,
                    _ => {}
                },
            }
        }
        d
    }

    fn binary(&mut self, span: (usize, usize), left: &F, op: &str, right: &F) -> R {
        // an operator's position is that of its left operand
        if span != left.span() {
            return Err(format!("operator {op}: span {span:?} is not that of its left operand, {:?}", left.span()));
        }
        self.expr(left)?;
        while self.eat(")") {}
        self.want(op)?;
        self.expr(right)?;
        // the closing parentheses of a filter expression; those of a call are counted there
        Ok(())
    }
}

pub fn check(text: &str, ps: &Parsers) -> R {
    let q = match guarded(|| ps.hand.parse(text)) {
        Ok(Ok(q)) => q,
        _ => return Ok(()),
    };
    let mut w = W { t: text, at: 0 };
    w.want("$")?;
    w.segments(&q.segments)?;
    w.skip();
    if w.at != text.len() {
        return Err(format!("text from byte {} on is not in the tree", w.at));
    }
    Ok(())
}

/// The tokens of any text: each stands where it says, they are in order, and what is
/// between them has no token of its own.
pub fn tokens(text: &str) -> R {
    use hand::token::TokenType as T;
    let ts = guarded(|| hand::lexer::tokenize(text)).map_err(|m| format!("the lexer panics: {m}"))?;
    let lexed = guarded(|| hand::lexer::lex(text)).map_err(|m| format!("lex panics: {m}"))?;
    let Some(last) = ts.last() else { return Err("no tokens".into()) };
    match (&last.kind, &lexed) {
        (T::Error { msg }, Err(e)) => {
            if e.msg != **msg || e.span != last.span {
                return Err(format!("lex fails with {:?} at {:?}, the error token is {:?} at {:?}", e.msg, e.span, msg, last.span));
            }
        }
        (T::Eoq, Ok(v)) => {
            if *v != ts {
                return Err("lex and tokenize give different tokens".into());
            }
            if last.span != (text.len(), text.len()) {
                return Err(format!("the end of the query is at {:?} of {}", last.span, text.len()));
            }
        }
        (k, r) => return Err(format!("the last token is {k:?}, and lex gives {}", if r.is_ok() { "tokens" } else { "an error" })),
    }
    let mut at = 0;
    let mut quote: Option<char> = None;
    let mut call = false;
    for (i, t) in ts.iter().enumerate() {
        let (a, b) = t.span;
        let Some(s) = text.get(a..b) else {
            return Err(format!("token {i}, {:?}, has the span {:?}, which is not a range of the text", t.kind, t.span));
        };
        let Some(mut gap) = text.get(at..a) else {
            return Err(format!("token {i}, {:?} at {:?}, begins before the end of the one before, {at}", t.kind, t.span));
        };
        if let T::Error { .. } = t.kind {
            if i + 1 != ts.len() {
                return Err("an error token is not the last".into());
            }
            break;
        }
        let want: Option<&str> = match &t.kind {
            T::Eoq => Some(""),
            T::Colon => Some(":"),
            T::Comma => Some(","),
            T::DoubleDot => Some(".."),
            T::Filter => Some("?"),
            T::LBracket => Some("["),
            T::RBracket => Some("]"),
            T::Root => Some("$"),
            T::Wild => Some("*"),
            T::And => Some("&&"),
            T::Current => Some("@"),
            T::Eq => Some("=="),
            T::False => Some("false"),
            T::Ge => Some(">="),
            T::Gt => Some(">"),
            T::Le => Some("<="),
            T::LParen => Some("("),
            T::Lt => Some("<"),
            T::Ne => Some("!="),
            T::Not => Some("!"),
            T::Null => Some("null"),
            T::Or => Some("||"),
            T::RParen => Some(")"),
            T::True => Some("true"),
            T::Index { value } | T::Name { value } | T::Float { value } | T::Int { value } | T::DoubleQuoteString { value } | T::SingleQuoteString { value } => Some(value),
            T::Function { name } => Some(name),
            T::Error { .. } => None,
        };
        if want != Some(s) {
            return Err(format!("token {i}, {:?}, has the span {:?}, which is {s:?}", t.kind, t.span));
        }
        // what has no token of its own
        if let Some(q) = quote.take() {
            let Some(g) = gap.strip_prefix(q) else { return Err(format!("the string before token {i} does not end in its quote")) };
            gap = g;
        }
        if call {
            let Some(g) = gap.strip_prefix('(') else { return Err(format!("the function name before token {i} is not followed by a parenthesis")) };
            gap = g;
            call = false;
        }
        match &t.kind {
            T::DoubleQuoteString { .. } | T::SingleQuoteString { .. } => {
                let q = if matches!(t.kind, T::DoubleQuoteString { .. }) { '"' } else { '\'' };
                let Some(g) = gap.strip_suffix(q) else { return Err(format!("the string at {:?} does not follow its quote", t.span)) };
                gap = g;
                quote = Some(q);
            }
            T::Function { .. } => call = true,
            T::Name { .. } | T::Wild => {
                if let Some(g) = gap.strip_suffix('.') {
                    gap = g;
                }
            }
            _ => {}
        }
        if let Some(c) = gap.chars().find(|c| !blank(*c)) {
            return Err(format!("{c:?} before token {i}, {:?} at {:?}, belongs to no token", t.kind, t.span));
        }
        at = b;
    }
    Ok(())
}
