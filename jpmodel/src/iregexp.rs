//! RFC 9485 I-Regexp: recogniser and matcher (sets of end positions; no backtracking engine).
//! `^` and `$` outside character classes are read as anchors, as in the mapping of RFC 9485
//! section 5 (and in the JSONPath compliance suite).

#[derive(Debug, Clone)]
enum Re {
    Empty,
    Char(char),
    Dot,
    Start,
    End,
    Class(bool, Vec<Item>),
    Seq(Vec<Re>),
    Alt(Vec<Re>),
    Rep(Box<Re>, usize, Option<usize>),
}

#[derive(Debug, Clone)]
enum Item {
    Range(char, char),
    Cat(bool, String),
}

struct P<'a> {
    c: &'a [char],
    i: usize,
    reversed: bool,
}

const CATS: &[&str] = &[
    "L", "Ll", "Lm", "Lo", "Lt", "Lu", "M", "Mc", "Me", "Mn", "N", "Nd", "Nl", "No", "P", "Pc",
    "Pd", "Pe", "Pf", "Pi", "Po", "Ps", "Z", "Zl", "Zp", "Zs", "S", "Sc", "Sk", "Sm", "So", "C",
    "Cc", "Cf", "Cn", "Co",
];

impl<'a> P<'a> {
    fn peek(&self) -> Option<char> {
        self.c.get(self.i).copied()
    }
    fn eat(&mut self, c: char) -> bool {
        if self.peek() == Some(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn alt(&mut self) -> Option<Re> {
        let mut v = vec![self.branch()?];
        while self.eat('|') {
            v.push(self.branch()?);
        }
        Some(if v.len() == 1 {
            v.pop().unwrap()
        } else {
            Re::Alt(v)
        })
    }
    fn branch(&mut self) -> Option<Re> {
        let mut v = vec![];
        while let Some(c) = self.peek() {
            if c == '|' || c == ')' {
                break;
            }
            let a = self.atom()?;
            let (lo, hi) = match self.peek() {
                Some('*') => (0, None),
                Some('+') => (1, None),
                Some('?') => (0, Some(1)),
                Some('{') => {
                    self.i += 1;
                    let lo = self.quant()?;
                    let hi = if self.eat(',') {
                        if self.peek() == Some('}') {
                            None
                        } else {
                            Some(self.quant()?)
                        }
                    } else {
                        Some(lo)
                    };
                    if self.peek() != Some('}') {
                        return None;
                    }
                    if hi.map_or(false, |h| h < lo) {
                        self.reversed = true;
                    }
                    (lo, hi)
                }
                _ => {
                    v.push(a);
                    continue;
                }
            };
            self.i += 1;
            v.push(Re::Rep(Box::new(a), lo, hi));
        }
        Some(match v.len() {
            0 => Re::Empty,
            1 => v.pop().unwrap(),
            _ => Re::Seq(v),
        })
    }
    fn quant(&mut self) -> Option<usize> {
        let s = self.i;
        while matches!(self.peek(), Some(c) if c.is_ascii_digit()) {
            self.i += 1;
        }
        if s == self.i || self.i - s > 6 {
            return None;
        }
        self.c[s..self.i].iter().collect::<String>().parse().ok()
    }
    fn atom(&mut self) -> Option<Re> {
        let c = self.peek()?;
        self.i += 1;
        match c {
            '(' => {
                let r = self.alt()?;
                if !self.eat(')') {
                    return None;
                }
                Some(r)
            }
            '.' => Some(Re::Dot),
            '^' => Some(Re::Start),
            '$' => Some(Re::End),
            '\\' => self.esc(),
            '[' => self.class(),
            ')' | '*' | '+' | '?' | ']' | '{' | '}' | '|' => None,
            c => Some(Re::Char(c)),
        }
    }
    fn single(&mut self) -> Option<char> {
        let c = self.peek()?;
        self.i += 1;
        match c {
            '(' | ')' | '*' | '+' | '-' | '.' | '?' | '[' | '\\' | ']' | '^' | '{' | '|' | '}' => {
                Some(c)
            }
            'n' => Some('\n'),
            'r' => Some('\r'),
            't' => Some('\t'),
            _ => None,
        }
    }
    fn cat(&mut self) -> Option<Item> {
        let neg = self.peek()? == 'P';
        self.i += 1;
        if !self.eat('{') {
            return None;
        }
        let mut n = String::new();
        loop {
            let c = self.peek()?;
            self.i += 1;
            if c == '}' {
                break;
            }
            n.push(c);
        }
        if !CATS.contains(&n.as_str()) {
            return None;
        }
        Some(Item::Cat(neg, n))
    }
    fn esc(&mut self) -> Option<Re> {
        if matches!(self.peek(), Some('p') | Some('P')) {
            return Some(Re::Class(false, vec![self.cat()?]));
        }
        Some(Re::Char(self.single()?))
    }
    fn ccchar(&mut self) -> Option<char> {
        let c = self.peek()?;
        if matches!(c, '-' | '[' | ']') {
            return None;
        }
        self.i += 1;
        if c == '\\' {
            return self.single();
        }
        Some(c)
    }
    fn class(&mut self) -> Option<Re> {
        let neg = self.eat('^');
        let mut items = vec![];
        if self.eat('-') {
            items.push(Item::Range('-', '-'));
        } else {
            self.cce1(&mut items)?;
        }
        loop {
            match self.peek()? {
                ']' => {
                    self.i += 1;
                    return Some(Re::Class(neg, items));
                }
                '-' => {
                    self.i += 1;
                    items.push(Item::Range('-', '-'));
                    if !self.eat(']') {
                        return None;
                    }
                    return Some(Re::Class(neg, items));
                }
                _ => self.cce1(&mut items)?,
            }
        }
    }
    fn cce1(&mut self, items: &mut Vec<Item>) -> Option<()> {
        if self.peek() == Some('\\') && matches!(self.c.get(self.i + 1), Some('p') | Some('P')) {
            self.i += 1;
            items.push(self.cat()?);
            return Some(());
        }
        let a = self.ccchar()?;
        if self.peek() == Some('-') && self.c.get(self.i + 1) != Some(&']') {
            self.i += 1;
            let b = self.ccchar()?;
            if b < a {
                self.reversed = true;
            }
            items.push(Item::Range(a, b));
        } else {
            items.push(Item::Range(a, a));
        }
        Some(())
    }
}

/// General category of a character, as of Unicode 15.
pub fn category(c: char) -> &'static str {
    let i = crate::gc::GC.partition_point(|x| x.0 <= c as u32);
    crate::gc::GC[i - 1].1
}

fn cat(n: &str, c: char) -> bool {
    category(c).starts_with(n)
}

/// The positions at which a match of `r` that starts at one of `from` can end (sorted, each once).
fn m(r: &Re, s: &[char], from: &[usize]) -> Vec<usize> {
    let step = |f: &dyn Fn(char) -> bool| -> Vec<usize> {
        from.iter().filter(|&&i| matches!(s.get(i), Some(&c) if f(c))).map(|&i| i + 1).collect()
    };
    match r {
        Re::Empty => from.to_vec(),
        Re::Char(c) => step(&|x| x == *c),
        Re::Dot => step(&|x| x != '\n' && x != '\r'),
        Re::Start => from.iter().copied().filter(|&i| i == 0).collect(),
        Re::End => from.iter().copied().filter(|&i| i == s.len()).collect(),
        Re::Class(neg, items) => step(&|c| {
            let hit = items.iter().any(|x| match x {
                Item::Range(a, b) => *a <= c && c <= *b,
                Item::Cat(n, k) => cat(k, c) != *n,
            });
            hit != *neg
        }),
        Re::Seq(v) => {
            let mut cur = from.to_vec();
            for x in v {
                if cur.is_empty() {
                    break;
                }
                cur = m(x, s, &cur);
            }
            cur
        }
        Re::Alt(v) => {
            let mut out: Vec<usize> = v.iter().flat_map(|x| m(x, s, from)).collect();
            out.sort_unstable();
            out.dedup();
            out
        }
        Re::Rep(x, lo, hi) => {
            let mut cur = from.to_vec();
            for _ in 0..*lo {
                let nxt = m(x, s, &cur);
                if nxt == cur {
                    break;
                }
                cur = nxt;
            }
            let mut seen: std::collections::BTreeSet<usize> = cur.iter().copied().collect();
            let mut k = *lo;
            while !cur.is_empty() && hi.map_or(true, |h| k < h) {
                let mut nxt = m(x, s, &cur);
                nxt.retain(|j| seen.insert(*j));
                cur = nxt;
                k += 1;
            }
            seen.into_iter().collect()
        }
    }
}

fn compile(p: &str) -> Option<Re> {
    let c: Vec<char> = p.chars().collect();
    let mut q = P {
        c: &c,
        i: 0,
        reversed: false,
    };
    let r = q.alt()?;
    if q.i != c.len() || q.reversed {
        return None;
    }
    Some(r)
}

pub fn valid(p: &str) -> bool {
    compile(p).is_some()
}

/// `match` (full) or `search` of pattern `p` on `s`; an invalid pattern never matches.
pub fn run(p: &str, s: &str, full: bool) -> bool {
    let Some(r) = compile(p) else { return false };
    let s: Vec<char> = s.chars().collect();
    if full {
        m(&r, &s, &[0]).contains(&s.len())
    } else {
        !m(&r, &s, &(0..=s.len()).collect::<Vec<_>>()).is_empty()
    }
}
