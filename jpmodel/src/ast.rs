//! The reference syntax tree.

#[derive(Debug, Clone, PartialEq)]
pub struct Query {
    pub segs: Vec<Seg>,
}

#[derive(Debug, Clone, PartialEq)]
pub struct Seg {
    pub desc: bool,
    pub sels: Vec<Sel>,
}

#[derive(Debug, Clone, PartialEq)]
pub enum Sel {
    Name(String),
    Wild,
    Index(i64),
    Slice(Option<i64>, Option<i64>, Option<i64>),
    Filter(Box<Expr>),
    /// Extension: singular query selector.
    Singular(Query),
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Op {
    Eq,
    Ne,
    Lt,
    Le,
    Gt,
    Ge,
}

pub const OPS: [Op; 6] = [Op::Eq, Op::Ne, Op::Lt, Op::Le, Op::Gt, Op::Ge];

impl Op {
    pub fn text(self) -> &'static str {
        match self {
            Op::Eq => "==",
            Op::Ne => "!=",
            Op::Lt => "<",
            Op::Le => "<=",
            Op::Gt => ">",
            Op::Ge => ">=",
        }
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum Lit {
    Null,
    Bool(bool),
    /// an integer literal within the interoperable integers
    Int(i64),
    Num(f64),
    Str(String),
}

#[derive(Debug, Clone, PartialEq)]
pub enum Expr {
    Or(Vec<Expr>),
    And(Vec<Expr>),
    Not(Box<Expr>),
    Paren(Box<Expr>),
    Cmp(Op, Box<Expr>, Box<Expr>),
    /// `root` is true for `$…`, false for `@…`. `loose` is set by the parser when the
    /// query contains blanks inside the brackets of a name or index segment, which the
    /// singular-query production of RFC 9535 does not derive.
    Query { root: bool, q: Query, loose: bool },
    Call(String, Vec<Expr>),
    Lit(Lit),
}

impl Query {
    pub fn is_singular(&self) -> bool {
        self.segs.iter().all(|s| {
            !s.desc && s.sels.len() == 1 && matches!(s.sels[0], Sel::Name(_) | Sel::Index(_))
        })
    }

    /// The canonical form, with integers and other numbers not distinguished.
    pub fn lax(&self) -> Query {
        let mut q = self.canon();
        q.widen();
        q
    }

    fn widen(&mut self) {
        for s in self.segs.iter_mut().flat_map(|s| s.sels.iter_mut()) {
            match s {
                Sel::Filter(e) => e.widen(),
                Sel::Singular(q) => q.widen(),
                _ => {}
            }
        }
    }

    /// Canonical abstract form: no parentheses, n-ary `&&`/`||` chains flattened,
    /// `loose` erased, slice step default made explicit. Two queries mean the same
    /// abstract query iff their canonical forms are equal.
    pub fn canon(&self) -> Query {
        Query {
            segs: self
                .segs
                .iter()
                .map(|s| Seg {
                    desc: s.desc,
                    sels: s
                        .sels
                        .iter()
                        .map(|x| match x {
                            Sel::Filter(e) => Sel::Filter(Box::new(e.canon())),
                            Sel::Singular(q) => Sel::Singular(q.canon()),
                            Sel::Slice(a, b, c) => Sel::Slice(*a, *b, Some(c.unwrap_or(1))),
                            o => o.clone(),
                        })
                        .collect(),
                })
                .collect(),
        }
    }
}

impl Expr {
    fn widen(&mut self) {
        match self {
            Expr::Paren(e) | Expr::Not(e) => e.widen(),
            Expr::Or(v) | Expr::And(v) | Expr::Call(_, v) => v.iter_mut().for_each(|e| e.widen()),
            Expr::Cmp(_, a, b) => {
                a.widen();
                b.widen();
            }
            Expr::Query { q, .. } => q.widen(),
            Expr::Lit(l) => {
                if let Lit::Int(i) = l {
                    *l = Lit::Num(*i as f64)
                }
            }
        }
    }

    pub fn canon(&self) -> Expr {
        match self {
            Expr::Paren(e) => e.canon(),
            Expr::Or(v) => {
                let mut out = vec![];
                for e in v {
                    match e.canon() {
                        Expr::Or(mut w) => out.append(&mut w),
                        o => out.push(o),
                    }
                }
                if out.len() == 1 {
                    out.pop().unwrap()
                } else {
                    Expr::Or(out)
                }
            }
            Expr::And(v) => {
                let mut out = vec![];
                for e in v {
                    match e.canon() {
                        Expr::And(mut w) => out.append(&mut w),
                        o => out.push(o),
                    }
                }
                if out.len() == 1 {
                    out.pop().unwrap()
                } else {
                    Expr::And(out)
                }
            }
            Expr::Not(e) => Expr::Not(Box::new(e.canon())),
            Expr::Cmp(o, a, b) => Expr::Cmp(*o, Box::new(a.canon()), Box::new(b.canon())),
            Expr::Query { root, q, .. } => Expr::Query {
                root: *root,
                q: q.canon(),
                loose: false,
            },
            Expr::Call(n, a) => Expr::Call(n.clone(), a.iter().map(|x| x.canon()).collect()),
            Expr::Lit(Lit::Num(n)) => Expr::Lit(Lit::Num(if *n == 0.0 { 0.0 } else { *n })),
            Expr::Lit(l) => Expr::Lit(l.clone()),
        }
    }
}
