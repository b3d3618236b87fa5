//! Reference recursive descent parser for the RFC 9535 grammar.
use crate::ast::*;

pub const MAX_INT: i64 = (1 << 53) - 1;

#[derive(Debug, Clone, Copy, Default)]
pub struct Opts {
    /// accept the extensions of the `singular` crate
    pub singular: bool,
    /// also accept literals that are not compared to anything (used to tell which
    /// error a malformed query should give, never to accept one)
    pub bare_literals: bool,
    /// the configured range of indices, if it is not the default one
    pub ints: Option<(i64, i64)>,
}

/// Syntactic outcome (typing is judged separately, see `types`).
#[derive(Debug, Clone)]
pub struct Parsed {
    pub query: Option<Query>,
    /// the parser looked past the end of the text, so some extension might be well-formed
    pub hit_eof: bool,
    /// the query is well-formed but for an integer outside the I-JSON range
    pub range: bool,
    /// that query, with zero in place of such integers
    pub range_query: Option<Query>,
    /// a `\u0000`..`\u001F` escape was used in a string literal
    pub ctl_escape: bool,
    /// blanks inside the brackets of a singular query selector (extension; unspecified)
    pub loose_sel: bool,
    /// a number literal that no finite double approximates was used
    pub huge: bool,
    /// furthest character position examined
    pub far: usize,
}

pub fn parse(text: &str, o: Opts) -> Parsed {
    let cs: Vec<char> = text.chars().collect();
    parse_chars(&cs, o)
}

pub fn parse_chars(cs: &[char], o: Opts) -> Parsed {
    let mut p = P {
        cs,
        i: 0,
        far: 0,
        eof: false,
        range: false,
        ctl: false,
        loose_sel: false,
        huge: false,
        o,
    };
    let mut r = p.query();
    if r.is_some() && p.peek().is_some() {
        r = None;
    }
    if r.is_none() && o.singular {
        let (eof, far) = (p.eof, p.far);
        p.i = 0;
        p.range = false;
        p.ctl = false;
        p.loose_sel = false;
        p.huge = false;
        r = p.implicit_query();
        if r.is_some() && p.peek().is_some() {
            r = None;
        }
        p.eof |= eof;
        p.far = p.far.max(far);
    }
    // reaching the end successfully always peeks past it
    let range = p.range && r.is_some();
    let range_query = if range { r.take() } else { None };
    Parsed {
        query: r,
        range_query,
        hit_eof: p.eof,
        range,
        ctl_escape: p.ctl,
        loose_sel: p.loose_sel,
        huge: p.huge,
        far: p.far,
    }
}

struct P<'a> {
    cs: &'a [char],
    i: usize,
    far: usize,
    eof: bool,
    range: bool,
    ctl: bool,
    loose_sel: bool,
    huge: bool,
    o: Opts,
}

fn is_blank(c: char) -> bool {
    matches!(c, ' ' | '\t' | '\n' | '\r')
}

pub fn is_name_first(c: char) -> bool {
    c.is_ascii_alphabetic() || c == '_' || (c as u32) >= 0x80
}

pub fn is_name_char(c: char) -> bool {
    is_name_first(c) || c.is_ascii_digit()
}

impl<'a> P<'a> {
    fn at(&mut self, k: usize) -> Option<char> {
        let j = self.i + k;
        if j > self.far {
            self.far = j;
        }
        match self.cs.get(j) {
            Some(c) => Some(*c),
            None => {
                self.eof = true;
                None
            }
        }
    }
    fn peek(&mut self) -> Option<char> {
        self.at(0)
    }
    fn eat(&mut self, c: char) -> bool {
        if self.peek() == Some(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn eat2(&mut self, a: char, b: char) -> bool {
        if self.peek() == Some(a) && self.at(1) == Some(b) {
            self.i += 2;
            true
        } else {
            false
        }
    }
    fn s(&mut self) {
        while let Some(c) = self.peek() {
            if is_blank(c) {
                self.i += 1
            } else {
                break;
            }
        }
    }

    fn query(&mut self) -> Option<Query> {
        if !self.eat('$') {
            return None;
        }
        let (q, _) = self.segments()?;
        Some(q)
    }

    fn implicit_query(&mut self) -> Option<Query> {
        Some(self.implicit()?.0)
    }

    fn implicit(&mut self) -> Option<(Query, bool)> {
        let mut segs = vec![];
        let mut loose = false;
        match self.peek()? {
            '[' => {
                let (sels, l) = self.bracketed()?;
                loose |= l;
                segs.push(Seg { desc: false, sels });
            }
            c if is_name_first(c) => {
                let n = self.shorthand()?;
                segs.push(Seg {
                    desc: false,
                    sels: vec![Sel::Name(n)],
                });
            }
            _ => return None,
        }
        let (q, l) = self.segments()?;
        loose |= l;
        segs.extend(q.segs);
        Some((Query { segs }, loose))
    }

    /// `*(S segment)`; the flag tells whether blanks occurred inside a bracketed selection.
    fn segments(&mut self) -> Option<(Query, bool)> {
        let mut segs = vec![];
        let mut loose = false;
        loop {
            let save = self.i;
            self.s();
            match self.peek() {
                Some('[') => {
                    let (sels, l) = self.bracketed()?;
                    loose |= l;
                    segs.push(Seg { desc: false, sels });
                }
                Some('.') => {
                    self.i += 1;
                    if self.eat('.') {
                        let sels = match self.peek()? {
                            '[' => {
                                let (s, l) = self.bracketed()?;
                                loose |= l;
                                s
                            }
                            '*' => {
                                self.i += 1;
                                vec![Sel::Wild]
                            }
                            _ => vec![Sel::Name(self.shorthand()?)],
                        };
                        segs.push(Seg { desc: true, sels });
                    } else {
                        let sels = match self.peek()? {
                            '*' => {
                                self.i += 1;
                                vec![Sel::Wild]
                            }
                            _ => vec![Sel::Name(self.shorthand()?)],
                        };
                        segs.push(Seg { desc: false, sels });
                    }
                }
                _ => {
                    self.i = save;
                    return Some((Query { segs }, loose));
                }
            }
        }
    }

    fn shorthand(&mut self) -> Option<String> {
        let c = self.peek()?;
        if !is_name_first(c) {
            return None;
        }
        let mut n = String::new();
        while let Some(c) = self.peek() {
            if is_name_char(c) {
                n.push(c);
                self.i += 1;
            } else {
                break;
            }
        }
        Some(n)
    }

    fn bracketed(&mut self) -> Option<(Vec<Sel>, bool)> {
        let start = self.i;
        if !self.eat('[') {
            return None;
        }
        let mut loose = self.peek().map_or(false, is_blank);
        self.s();
        let mut sels = vec![self.selector()?];
        loop {
            let b = self.i;
            self.s();
            if self.i > b {
                loose = true;
            }
            if self.eat(',') {
                self.s();
                sels.push(self.selector()?);
            } else if self.eat(']') {
                let _ = start;
                return Some((sels, loose));
            } else {
                return None;
            }
        }
    }

    fn selector(&mut self) -> Option<Sel> {
        match self.peek()? {
            '\'' | '"' => Some(Sel::Name(self.string()?)),
            '*' => {
                self.i += 1;
                Some(Sel::Wild)
            }
            '?' => {
                self.i += 1;
                self.s();
                Some(Sel::Filter(Box::new(self.or_expr()?)))
            }
            ':' => self.slice(None),
            c if c == '-' || c.is_ascii_digit() => {
                let n = self.int_in_range()?;
                let save = self.i;
                self.s();
                if self.peek() == Some(':') {
                    self.slice(Some(n))
                } else {
                    self.i = save;
                    Some(Sel::Index(n))
                }
            }
            '$' if self.o.singular => {
                self.i += 1;
                let (q, l) = self.segments()?;
                if !q.is_singular() {
                    return None;
                }
                self.loose_sel |= l;
                Some(Sel::Singular(q))
            }
            c if self.o.singular && (c == '[' || is_name_first(c)) => {
                let (q, l) = self.implicit()?;
                if !q.is_singular() {
                    return None;
                }
                self.loose_sel |= l;
                Some(Sel::Singular(q))
            }
            _ => None,
        }
    }

    fn slice(&mut self, start: Option<i64>) -> Option<Sel> {
        if !self.eat(':') {
            return None;
        }
        let mut stop = None;
        let mut step = None;
        let mut save = self.i;
        self.s();
        if matches!(self.peek(), Some(c) if c=='-' || c.is_ascii_digit()) {
            stop = Some(self.int_in_range()?);
            save = self.i;
            self.s();
        }
        if self.eat(':') {
            save = self.i;
            self.s();
            if matches!(self.peek(), Some(c) if c=='-' || c.is_ascii_digit()) {
                step = Some(self.int_in_range()?);
                save = self.i;
            }
        }
        self.i = save;
        Some(Sel::Slice(start, stop, step))
    }

    fn int_text(&mut self) -> Option<String> {
        let mut t = String::new();
        match self.peek()? {
            '0' => {
                self.i += 1;
                t.push('0');
                return Some(t);
            }
            '-' => {
                t.push('-');
                self.i += 1;
            }
            _ => {}
        }
        match self.peek()? {
            c if c.is_ascii_digit() && c != '0' => {}
            _ => return None,
        }
        while let Some(c) = self.peek() {
            if c.is_ascii_digit() {
                t.push(c);
                self.i += 1;
            } else {
                break;
            }
        }
        Some(t)
    }

    fn int_in_range(&mut self) -> Option<i64> {
        let t = self.int_text()?;
        let n: i128 = if t.len() > 30 {
            if t.starts_with('-') { i128::MIN } else { i128::MAX }
        } else {
            t.parse().unwrap()
        };
        let (lo, hi) = self.o.ints.unwrap_or((-MAX_INT, MAX_INT));
        if n > hi as i128 || n < lo as i128 {
            self.range = true;
            return Some(0);
        }
        Some(n as i64)
    }

    fn number(&mut self) -> Option<Lit> {
        let start = self.i;
        if self.peek() == Some('-') && self.at(1) == Some('0') {
            self.i += 2;
        } else {
            self.int_text()?;
        }
        if self.peek() == Some('.') {
            self.i += 1;
            self.digits1()?;
        }
        if matches!(self.peek(), Some('e') | Some('E')) {
            self.i += 1;
            if matches!(self.peek(), Some('+') | Some('-')) {
                self.i += 1;
            }
            self.digits1()?;
        }
        let t: String = self.cs[start..self.i].iter().collect();
        let n: f64 = t.parse().ok()?;
        if !n.is_finite() {
            self.huge = true;
        }
        // an integer: no fraction and no negative exponent
        if n.abs() <= 9007199254740992.0 && !t.contains('.') && !t.to_lowercase().contains("e-") {
            return Some(Lit::Int(n as i64));
        }
        Some(Lit::Num(n))
    }

    fn digits1(&mut self) -> Option<()> {
        if !self.peek()?.is_ascii_digit() {
            return None;
        }
        while let Some(c) = self.peek() {
            if c.is_ascii_digit() {
                self.i += 1;
            } else {
                break;
            }
        }
        Some(())
    }

    fn string(&mut self) -> Option<String> {
        let q = self.peek()?;
        self.i += 1;
        let mut out = String::new();
        loop {
            let c = self.peek()?;
            self.i += 1;
            if c == q {
                return Some(out);
            }
            if c == '\\' {
                let e = self.peek()?;
                self.i += 1;
                match e {
                    'b' => out.push('\u{8}'),
                    'f' => out.push('\u{c}'),
                    'n' => out.push('\n'),
                    'r' => out.push('\r'),
                    't' => out.push('\t'),
                    '/' => out.push('/'),
                    '\\' => out.push('\\'),
                    'u' => {
                        let hi = self.hex4()?;
                        if (0xD800..=0xDBFF).contains(&hi) {
                            if self.peek()? != '\\' {
                                return None;
                            }
                            self.i += 1;
                            if self.peek()? != 'u' {
                                return None;
                            }
                            self.i += 1;
                            let lo = self.hex4()?;
                            if !(0xDC00..=0xDFFF).contains(&lo) {
                                return None;
                            }
                            let cp = 0x10000 + (hi - 0xD800) * 0x400 + (lo - 0xDC00);
                            out.push(char::from_u32(cp).unwrap());
                        } else if (0xDC00..=0xDFFF).contains(&hi) {
                            return None;
                        } else {
                            if hi <= 0x1F {
                                self.ctl = true;
                            }
                            out.push(char::from_u32(hi).unwrap());
                        }
                    }
                    e if e == q => out.push(e),
                    _ => return None,
                }
            } else if (c as u32) < 0x20 {
                return None;
            } else {
                out.push(c);
            }
        }
    }

    fn hex4(&mut self) -> Option<u32> {
        let mut n = 0;
        for _ in 0..4 {
            let d = self.peek()?.to_digit(16)?;
            self.i += 1;
            n = n * 16 + d;
        }
        Some(n)
    }

    fn or_expr(&mut self) -> Option<Expr> {
        let e = self.or_expr_raw(false)?;
        Some(e)
    }

    fn or_expr_raw(&mut self, arg: bool) -> Option<Expr> {
        let first = self.and_expr_raw(arg)?;
        let mut v = vec![first];
        loop {
            let save = self.i;
            self.s();
            if self.eat2('|', '|') {
                if arg && !self.o.bare_literals && v.len() == 1 && matches!(v[0], Expr::Lit(_)) {
                    return None;
                }
                self.s();
                v.push(self.and_expr_raw(false)?);
            } else {
                self.i = save;
                break;
            }
        }
        Some(if v.len() == 1 {
            v.pop().unwrap()
        } else {
            Expr::Or(v)
        })
    }

    fn and_expr_raw(&mut self, arg: bool) -> Option<Expr> {
        let first = self.basic(arg)?;
        let mut v = vec![first];
        loop {
            let save = self.i;
            self.s();
            if self.eat2('&', '&') {
                if arg && !self.o.bare_literals && v.len() == 1 && matches!(v[0], Expr::Lit(_)) {
                    return None;
                }
                self.s();
                v.push(self.basic(false)?);
            } else {
                self.i = save;
                break;
            }
        }
        Some(if v.len() == 1 {
            v.pop().unwrap()
        } else {
            Expr::And(v)
        })
    }

    fn cmp_op(&mut self) -> Option<Op> {
        if self.eat2('=', '=') {
            Some(Op::Eq)
        } else if self.eat2('!', '=') {
            Some(Op::Ne)
        } else if self.eat2('<', '=') {
            Some(Op::Le)
        } else if self.eat2('>', '=') {
            Some(Op::Ge)
        } else if self.eat('<') {
            Some(Op::Lt)
        } else if self.eat('>') {
            Some(Op::Gt)
        } else {
            None
        }
    }

    fn basic(&mut self, arg: bool) -> Option<Expr> {
        match self.peek()? {
            '!' => {
                self.i += 1;
                self.s();
                match self.peek()? {
                    '(' => Some(Expr::Not(Box::new(self.paren()?))),
                    _ => {
                        let e = self.operand()?;
                        if matches!(e, Expr::Lit(_)) && !self.o.bare_literals {
                            return None;
                        }
                        Some(Expr::Not(Box::new(e)))
                    }
                }
            }
            '(' => self.paren(),
            _ => {
                let left = self.operand()?;
                let save = self.i;
                self.s();
                if let Some(op) = self.cmp_op() {
                    self.s();
                    let right = self.operand()?;
                    return Some(Expr::Cmp(op, Box::new(left), Box::new(right)));
                }
                self.i = save;
                if !arg && !self.o.bare_literals && matches!(left, Expr::Lit(_)) {
                    return None;
                }
                Some(left)
            }
        }
    }

    fn paren(&mut self) -> Option<Expr> {
        if !self.eat('(') {
            return None;
        }
        self.s();
        let e = self.or_expr()?;
        self.s();
        if !self.eat(')') {
            return None;
        }
        Some(Expr::Paren(Box::new(e)))
    }

    /// literal / query / function call
    fn operand(&mut self) -> Option<Expr> {
        match self.peek()? {
            '\'' | '"' => Some(Expr::Lit(Lit::Str(self.string()?))),
            c if c == '-' || c.is_ascii_digit() => Some(Expr::Lit(self.number()?)),
            c @ ('@' | '$') => {
                self.i += 1;
                let (q, loose) = self.segments()?;
                Some(Expr::Query {
                    root: c == '$',
                    q,
                    loose,
                })
            }
            c if c.is_ascii_lowercase() => {
                let mut n = String::new();
                while let Some(c) = self.peek() {
                    if c.is_ascii_lowercase() || c == '_' || c.is_ascii_digit() {
                        n.push(c);
                        self.i += 1;
                    } else {
                        break;
                    }
                }
                if self.peek() == Some('(') {
                    self.i += 1;
                    self.s();
                    let mut args = vec![];
                    if self.eat(')') {
                        return Some(Expr::Call(n, args));
                    }
                    loop {
                        args.push(self.or_expr_raw(true)?);
                        self.s();
                        if self.eat(',') {
                            self.s();
                        } else if self.eat(')') {
                            return Some(Expr::Call(n, args));
                        } else {
                            return None;
                        }
                    }
                }
                match n.as_str() {
                    "true" => Some(Expr::Lit(Lit::Bool(true))),
                    "false" => Some(Expr::Lit(Lit::Bool(false))),
                    "null" => Some(Expr::Lit(Lit::Null)),
                    _ => None,
                }
            }
            _ => None,
        }
    }
}
