//! Structural queries: generator, printer and evaluation on the model.
use crate::model::{Model, K};
use crate::refxml::{ANAMES, ENAMES};
use crate::rng::Rng;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Axis {
    Child,
    Desc,
    DescSelf,
    SelfA,
    Parent,
    Anc,
    AncSelf,
    FolSib,
    PreSib,
    Fol,
    Prec,
    Attr,
}
#[derive(Clone, Debug)]
pub enum Test {
    Name(String),
    Star,
    NsStar(String),
    Node,
    Text,
    Comment,
    Pi(Option<String>),
    ElemT(Option<String>),
    AttrT(Option<String>),
    ElemTT(Option<String>, usize, bool), // element(name or *, type) or (.., type?)
    AttrTT(Option<String>, usize),
}
/// Types in kind tests, and whether untyped content derives from them.
const ETYPES: [(&str, bool); 5] = [("xs:untyped", true), ("xs:anyType", true), ("xs:anyAtomicType", false), ("xs:string", false), ("xs:untypedAtomic", false)];
const ATYPES: [(&str, bool); 6] =
    [("xs:untypedAtomic", true), ("xs:anyAtomicType", true), ("xs:anySimpleType", true), ("xs:anyType", true), ("xs:string", false), ("xs:untyped", false)];
#[derive(Clone, Debug)]
pub struct Step {
    pub dbl: bool, // preceded by '//'
    pub axis: Axis,
    pub abbrev: bool,
    pub test: Test,
    pub preds: Vec<Expr>,
}
#[derive(Clone, Debug)]
pub enum Start {
    Rel,
    Root,
    Expr(Box<Expr>),
}
#[derive(Clone, Debug)]
pub enum Expr {
    Path(Start, Vec<Step>),
    Set(u8, Box<Expr>, Box<Expr>), // 0 union 1 intersect 2 except
    Filter(Box<Expr>, Vec<Expr>),
    For(String, Box<Expr>, Box<Expr>),
    Let(String, Box<Expr>, Box<Expr>),
    If(Box<Expr>, Box<Expr>, Box<Expr>),
    Quant(bool, String, Box<Expr>, Box<Expr>), // true: some
    NodeCmp(u8, Box<Expr>, Box<Expr>),         // 0 is 1 << 2 >>
    Cmp(u8, Box<Expr>, Box<Expr>),             // 0 = 1 != 2 < 3 <= 4 > 5 >=
    And(Box<Expr>, Box<Expr>),
    Or(Box<Expr>, Box<Expr>),
    Not(Box<Expr>),
    Fn1(u8, Box<Expr>), // 0 count 1 exists 2 empty
    Var(String),
    Dot,
    Int(i64),
    Last,
    LastMinus(i64),
    Pos,
    AttrEq(String, String), // @n = 'v'
    NameEq(String),         // name() = 'n'
    Lit(usize),             // a literal as a predicate
    PosMod(i64, i64),       // position() mod a = b
}
const LITS: [(&str, Val); 12] = [
    ("1.0", Val::Num(1.0)), ("2.0", Val::Num(2.0)), ("1.5", Val::Num(1.5)), ("2.9", Val::Num(2.9)), ("1e0", Val::Num(1.0)), ("2.5e0", Val::Num(2.5)),
    ("3.0e0", Val::Num(3.0)), ("0", Val::Int(0)), ("true()", Val::Bool(true)), ("false()", Val::Bool(false)), ("'0'", Val::Bool(true)), ("''", Val::Bool(false)),
];

// ---------------------------------------------------------------- printing
/// The library reads a word after '*' as a name (a limit of its lexer, see P01 in DESIGN.md).
fn left(e: &Expr) -> String {
    let t = e.show();
    if t.ends_with('*') {
        format!("({})", t)
    } else {
        t
    }
}
impl Expr {
    pub fn show(&self) -> String {
        match self {
            Expr::Path(st, steps) => {
                let mut o = match st {
                    Start::Rel => String::new(),
                    Start::Root => String::new(),
                    Start::Expr(e) => match **e {
                        Expr::Var(_) => e.show(),
                        _ => format!("({})", e.show()),
                    },
                };
                if steps.is_empty() {
                    return match st {
                        Start::Root => "/".into(),
                        Start::Rel => ".".into(),
                        _ => o,
                    };
                }
                for (i, s) in steps.iter().enumerate() {
                    if i == 0 && matches!(st, Start::Rel) {
                        if s.dbl {
                            o += ".//";
                        }
                    } else {
                        o += if s.dbl { "//" } else { "/" };
                    }
                    o += &s.show();
                }
                o
            }
            Expr::Set(k, a, b) => format!("({} {} {})", left(a), ["|", "intersect", "except"][*k as usize], b.show()),
            Expr::Filter(e, p) => {
                let mut o = format!("({})", e.show());
                for x in p {
                    o += &format!("[{}]", x.show());
                }
                o
            }
            Expr::For(v, i, r) => match &**r {
                // two loops in one expression
                Expr::For(w, j, q) if v.len() % 2 == 0 => format!("(for ${} in {}, ${} in {} return {})", v, i.show(), w, j.show(), q.show()),
                _ => format!("(for ${} in {} return {})", v, i.show(), r.show()),
            },
            Expr::Let(v, i, r) => format!("(let ${} := {} return {})", v, i.show(), r.show()),
            Expr::If(c, a, b) => format!("(if ({}) then {} else {})", c.show(), a.show(), b.show()),
            Expr::Quant(s, v, i, c) => format!("({} ${} in {} satisfies {})", if *s { "some" } else { "every" }, v, i.show(), c.show()),
            Expr::NodeCmp(k, a, b) => format!("({} {} {})", left(a), ["is", "<<", ">>"][*k as usize], b.show()),
            Expr::Cmp(k, a, b) => format!("({} {} {})", a.show(), ["=", "!=", "<", "<=", ">", ">="][*k as usize], b.show()),
            Expr::And(a, b) => format!("({} and {})", left(a), b.show()),
            Expr::Or(a, b) => format!("({} or {})", left(a), b.show()),
            Expr::Not(a) => format!("not({})", a.show()),
            Expr::Fn1(k, a) => format!("{}({})", ["count", "exists", "empty"][*k as usize], a.show()),
            Expr::Var(v) => format!("${}", v),
            Expr::Dot => ".".into(),
            Expr::Int(n) => n.to_string(),
            Expr::Last => "last()".into(),
            Expr::LastMinus(n) => format!("last() - {}", n),
            Expr::Pos => "position()".into(),
            Expr::AttrEq(n, v) => format!("@{} = '{}'", n, v),
            Expr::NameEq(n) => format!("name() = '{}'", n),
            Expr::Lit(i) => LITS[*i].0.into(),
            Expr::PosMod(a, b) => format!("position() mod {} = {}", a, b),
        }
    }
}
impl Step {
    fn show(&self) -> String {
        let t = match &self.test {
            Test::Name(n) => n.clone(),
            Test::Star => "*".into(),
            Test::NsStar(p) => format!("{}:*", p),
            Test::Node => "node()".into(),
            Test::Text => "text()".into(),
            Test::Comment => "comment()".into(),
            Test::Pi(None) => "processing-instruction()".into(),
            Test::Pi(Some(n)) => {
                if n.len() % 2 == 0 && n.chars().all(|c| c.is_ascii_alphabetic()) {
                    format!("processing-instruction({})", n)
                } else {
                    format!("processing-instruction('{}')", n)
                }
            }
            Test::ElemTT(n, t, q) => format!("element({}, {}{})", n.as_ref().map_or("*", |n| n), ETYPES[*t].0, if *q { "?" } else { "" }),
            Test::AttrTT(n, t) => format!("attribute({}, {})", n.as_ref().map_or("*", |n| n), ATYPES[*t].0),
            Test::ElemT(None) => "element()".into(),
            Test::ElemT(Some(n)) => format!("element({})", n),
            Test::AttrT(None) => "attribute()".into(),
            Test::AttrT(Some(n)) => format!("attribute({})", n),
        };
        let mut o = if self.abbrev {
            match self.axis {
                Axis::Child => t,
                Axis::Attr => format!("@{}", t),
                Axis::Parent => "..".into(),
                _ => ".".into(),
            }
        } else {
            let a = match self.axis {
                Axis::Child => "child",
                Axis::Desc => "descendant",
                Axis::DescSelf => "descendant-or-self",
                Axis::SelfA => "self",
                Axis::Parent => "parent",
                Axis::Anc => "ancestor",
                Axis::AncSelf => "ancestor-or-self",
                Axis::FolSib => "following-sibling",
                Axis::PreSib => "preceding-sibling",
                Axis::Fol => "following",
                Axis::Prec => "preceding",
                Axis::Attr => "attribute",
            };
            format!("{}::{}", a, t)
        };
        for p in &self.preds {
            o += &format!("[{}]", p.show());
        }
        o
    }
}

// ---------------------------------------------------------------- evaluation
#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Nodes(Vec<usize>),
    Bool(bool),
    Int(i64),
    Num(f64),
}
/// None: the specification leaves it open, or it costs too much.
pub struct Ev<'a> {
    pub m: &'a Model,
    pub top: usize,
    rank: std::collections::BTreeMap<usize, usize>,
    order: Vec<usize>,
    pub cost: u64,
    vars: Vec<(String, Vec<usize>)>,
}
const COST_CAP: u64 = 40_000;

impl<'a> Ev<'a> {
    pub fn new(m: &'a Model, ctx: usize) -> Ev<'a> {
        let top = m.top(ctx);
        let mut order = Vec::new();
        m.doc_order(top, &mut order);
        let rank = order.iter().enumerate().map(|(i, x)| (*x, i)).collect();
        Ev { m, top, rank, order, cost: 0, vars: vec![] }
    }
    fn pay(&mut self, c: usize) -> Option<()> {
        self.cost += c as u64 + 1;
        if self.cost > COST_CAP {
            None
        } else {
            Some(())
        }
    }
    fn sort(&self, v: &mut Vec<usize>) {
        v.sort_by_key(|x| self.rank[x]);
        v.dedup();
    }
    fn desc(&self, i: usize, out: &mut Vec<usize>) {
        for k in &self.m.n[i].kids {
            out.push(*k);
            self.desc(*k, out);
        }
    }
    /// candidates in document order
    fn axis(&mut self, i: usize, a: Axis) -> Option<Vec<usize>> {
        let m = self.m;
        let mut v = Vec::new();
        match a {
            Axis::Child => v = m.n[i].kids.clone(),
            Axis::Attr => v = m.n[i].attrs.clone(),
            Axis::Desc => self.desc(i, &mut v),
            Axis::DescSelf => {
                v.push(i);
                self.desc(i, &mut v);
            }
            Axis::SelfA => v.push(i),
            Axis::Parent => v.extend(m.parent(i)),
            Axis::Anc | Axis::AncSelf => {
                let mut x = i;
                if a == Axis::AncSelf {
                    v.push(i);
                }
                while let Some(p) = m.parent(x) {
                    v.push(p);
                    x = p;
                }
                v.reverse();
            }
            Axis::FolSib | Axis::PreSib => {
                if m.n[i].k != K::Attr {
                    if let Some(p) = m.parent(i) {
                        let x = m.kid_index(p, i).unwrap_or(0);
                        v = if a == Axis::FolSib { m.n[p].kids[x + 1..].to_vec() } else { m.n[p].kids[..x].to_vec() };
                    }
                }
            }
            Axis::Fol | Axis::Prec => {
                let mut skip = Vec::new();
                if a == Axis::Fol {
                    self.desc(i, &mut skip);
                } else {
                    let mut x = i;
                    while let Some(p) = m.parent(x) {
                        skip.push(p);
                        x = p;
                    }
                }
                let r = self.rank[&i];
                let n = self.order.len();
                self.pay(n * (skip.len() + 2) / 4)?;
                for (j, x) in self.order.iter().enumerate() {
                    if m.n[*x].k != K::Attr && ((a == Axis::Fol && j > r) || (a == Axis::Prec && j < r)) && !skip.contains(x) {
                        v.push(*x);
                    }
                }
            }
        }
        self.pay(v.len())?;
        Some(v)
    }
    fn test(&self, i: usize, a: Axis, t: &Test) -> bool {
        let n = &self.m.n[i];
        let main = if a == Axis::Attr { K::Attr } else { K::Elem };
        match t {
            Test::Node => true,
            Test::Name(s) => n.k == main && n.name == *s,
            Test::Star => n.k == main,
            Test::NsStar(p) => n.k == main && self.m.space_name(i) == p,
            Test::Text => n.k == K::Text,
            Test::Comment => n.k == K::Comment,
            Test::Pi(None) => n.k == K::Pi,
            Test::Pi(Some(s)) => n.k == K::Pi && n.name == *s,
            Test::ElemT(None) => n.k == K::Elem,
            Test::ElemT(Some(s)) => n.k == K::Elem && n.name == *s,
            Test::AttrT(None) => n.k == K::Attr,
            Test::AttrT(Some(s)) => n.k == K::Attr && n.name == *s,
            Test::ElemTT(s, t, q) => {
                let nil = self.m.attr_index(i, "xsi:nil").map_or(false, |x| self.m.n[n.attrs[x]].value == "true");
                n.k == K::Elem && s.as_ref().map_or(true, |s| n.name == *s) && ETYPES[*t].1 && (*q || !nil)
            }
            Test::AttrTT(s, t) => n.k == K::Attr && s.as_ref().map_or(true, |s| n.name == *s) && ATYPES[*t].1,
        }
    }
    fn filter(&mut self, v: Vec<usize>, preds: &[Expr], rev: bool) -> Option<Vec<usize>> {
        let mut cur = v;
        for p in preds {
            let last = cur.len();
            let mut nx = Vec::new();
            for (i, x) in cur.iter().enumerate() {
                let pos = if rev { last - i } else { i + 1 };
                let keep = match self.eval(p, *x, pos as i64, last as i64)? {
                    Val::Int(n) => n == pos as i64,
                    Val::Num(n) => n == pos as f64,
                    Val::Bool(b) => b,
                    Val::Nodes(v) => !v.is_empty(),
                };
                if keep {
                    nx.push(*x);
                }
            }
            cur = nx;
        }
        Some(cur)
    }
    fn step(&mut self, ctxs: Vec<usize>, s: &Step) -> Option<Vec<usize>> {
        let mut cs = ctxs;
        if s.dbl {
            let mut all = Vec::new();
            for c in cs {
                all.extend(self.axis(c, Axis::DescSelf)?);
            }
            self.sort(&mut all);
            cs = all;
        }
        let rev = matches!(s.axis, Axis::Anc | Axis::AncSelf | Axis::Prec | Axis::PreSib | Axis::Parent);
        let mut out = Vec::new();
        for c in cs {
            let mut v = self.axis(c, s.axis)?;
            v.retain(|x| self.test(*x, s.axis, &s.test));
            out.extend(self.filter(v, &s.preds, rev)?);
        }
        self.sort(&mut out);
        Some(out)
    }
    fn nodes(&mut self, e: &Expr, ctx: usize, pos: i64, last: i64) -> Option<Vec<usize>> {
        match self.eval(e, ctx, pos, last)? {
            Val::Nodes(v) => Some(v),
            _ => None,
        }
    }
    fn ebv(&mut self, e: &Expr, ctx: usize, pos: i64, last: i64) -> Option<bool> {
        Some(match self.eval(e, ctx, pos, last)? {
            Val::Nodes(v) => !v.is_empty(),
            Val::Bool(b) => b,
            Val::Int(n) => n != 0,
            Val::Num(n) => n != 0.0,
        })
    }
    pub fn eval(&mut self, e: &Expr, ctx: usize, pos: i64, last: i64) -> Option<Val> {
        self.pay(1)?;
        Some(match e {
            Expr::Path(st, steps) => {
                let mut cur = match st {
                    Start::Rel => vec![ctx],
                    Start::Root => vec![self.top],
                    Start::Expr(e) => {
                        let v = self.nodes(e, ctx, pos, last)?;
                        if steps.is_empty() {
                            return Some(Val::Nodes(v));
                        }
                        v
                    }
                };
                for s in steps {
                    cur = self.step(cur, s)?;
                }
                Val::Nodes(cur)
            }
            Expr::Set(k, a, b) => {
                let x = self.nodes(a, ctx, pos, last)?;
                let y = self.nodes(b, ctx, pos, last)?;
                let mut v: Vec<usize> = match k {
                    0 => x.iter().chain(y.iter()).copied().collect(),
                    1 => x.into_iter().filter(|n| y.contains(n)).collect(),
                    _ => x.into_iter().filter(|n| !y.contains(n)).collect(),
                };
                self.sort(&mut v);
                Val::Nodes(v)
            }
            Expr::Filter(e, p) => {
                let v = self.nodes(e, ctx, pos, last)?;
                Val::Nodes(self.filter(v, p, false)?)
            }
            Expr::For(v, i, r) => {
                let xs = self.nodes(i, ctx, pos, last)?;
                let mut out = Vec::new();
                for x in xs {
                    self.vars.push((v.clone(), vec![x]));
                    let y = self.nodes(r, ctx, pos, last);
                    self.vars.pop();
                    out.extend(y?);
                    self.pay(out.len())?;
                }
                Val::Nodes(out)
            }
            Expr::If(c, a, b) => {
                if self.ebv(c, ctx, pos, last)? {
                    self.eval(a, ctx, pos, last)?
                } else {
                    self.eval(b, ctx, pos, last)?
                }
            }
            Expr::Let(v, i, r) => {
                let xs = self.nodes(i, ctx, pos, last)?;
                self.vars.push((v.clone(), xs));
                let y = self.nodes(r, ctx, pos, last);
                self.vars.pop();
                Val::Nodes(y?)
            }
            Expr::Quant(some, v, i, c) => {
                let xs = self.nodes(i, ctx, pos, last)?;
                let mut res = !*some;
                for x in xs {
                    self.vars.push((v.clone(), vec![x]));
                    let y = self.ebv(c, ctx, pos, last);
                    self.vars.pop();
                    if y? == *some {
                        res = *some;
                        break;
                    }
                }
                Val::Bool(res)
            }
            Expr::NodeCmp(k, a, b) => {
                let x = self.nodes(a, ctx, pos, last)?;
                let y = self.nodes(b, ctx, pos, last)?;
                if x.len() != 1 || y.len() != 1 {
                    return None;
                }
                let (p, q) = (self.rank[&x[0]], self.rank[&y[0]]);
                Val::Bool(match k {
                    0 => p == q,
                    1 => p < q,
                    _ => p > q,
                })
            }
            Expr::Cmp(k, a, b) => {
                let (x, y) = match (self.eval(a, ctx, pos, last)?, self.eval(b, ctx, pos, last)?) {
                    (Val::Int(x), Val::Int(y)) => (x, y),
                    _ => return None,
                };
                Val::Bool(match k {
                    0 => x == y,
                    1 => x != y,
                    2 => x < y,
                    3 => x <= y,
                    4 => x > y,
                    _ => x >= y,
                })
            }
            Expr::And(a, b) => Val::Bool(self.ebv(a, ctx, pos, last)? && self.ebv(b, ctx, pos, last)?),
            Expr::Or(a, b) => Val::Bool(self.ebv(a, ctx, pos, last)? || self.ebv(b, ctx, pos, last)?),
            Expr::Not(a) => Val::Bool(!self.ebv(a, ctx, pos, last)?),
            Expr::Fn1(k, a) => {
                let n = self.nodes(a, ctx, pos, last)?.len();
                match k {
                    0 => Val::Int(n as i64),
                    1 => Val::Bool(n > 0),
                    _ => Val::Bool(n == 0),
                }
            }
            Expr::Var(v) => {
                Val::Nodes(self.vars.iter().rev().find(|x| x.0 == *v)?.1.clone())
            }
            Expr::Dot => Val::Nodes(vec![ctx]),
            Expr::Int(n) => Val::Int(*n),
            Expr::Last => Val::Int(last),
            Expr::LastMinus(n) => Val::Int(last - n),
            Expr::Pos => Val::Int(pos),
            Expr::Lit(i) => LITS[*i].1.clone(),
            Expr::PosMod(a, b) => Val::Bool(pos % a == *b),
            Expr::AttrEq(n, v) => Val::Bool(self.m.attr_index(ctx, n).map_or(false, |x| self.m.n[self.m.n[ctx].attrs[x]].value == *v)),
            Expr::NameEq(n) => {
                let x = &self.m.n[ctx];
                match x.k {
                    K::Elem | K::Attr | K::Pi => Val::Bool(x.name == *n),
                    K::Text | K::Comment | K::Root => Val::Bool(false),
                    _ => return None,
                }
            }
        })
    }
}

// ---------------------------------------------------------------- generation
struct G {
    r: Rng,
    focus: bool, // inside a predicate
    nv: u32,
    scope: Vec<String>,
}
impl G {
    fn ename(&mut self) -> String {
        let w = [6, 6, 5, 3, 2, 1, 2, 1, 1];
        ENAMES[self.r.weighted(&w)].to_string()
    }
    fn test(&mut self, a: Axis) -> Test {
        if a == Axis::Attr {
            return match self.r.below(17) {
                0..=7 => Test::Star,
                8 => Test::AttrTT(if self.r.chance(1, 2) { None } else { Some(self.r.pick(&["id", "x", "v", "n:id"]).to_string()) }, self.r.below(ATYPES.len())),
                9 | 10 => Test::Node,
                11 | 12 => Test::AttrT(if self.r.chance(1, 2) { None } else { Some(self.r.pick(&["id", "x", "v"]).to_string()) }),
                13 => Test::NsStar("n".into()),
                _ => Test::Name(self.r.pick(&ANAMES[..6]).to_string()),
            };
        }
        match self.r.below(21) {
            20 => Test::ElemTT(if self.r.chance(1, 2) { None } else { Some(self.ename()) }, self.r.below(ETYPES.len()), self.r.chance(1, 3)),
            0..=6 => Test::Name(self.ename()),
            7..=11 => Test::Star,
            12..=14 => Test::Node,
            15 => Test::Text,
            16 => Test::Comment,
            17 => Test::Pi(if self.r.chance(1, 2) { None } else { Some(self.r.pick(&crate::refxml::PITS[..]).to_string()) }),
            18 => Test::ElemT(if self.r.chance(1, 2) { None } else { Some(self.ename()) }),
            _ => Test::NsStar("n".into()),
        }
    }
    fn step(&mut self, size: usize, depth: usize) -> Step {
        let dbl = self.r.chance(1, 3);
        let axis = match self.r.weighted(&[12, 3, 2, 2, 3, 3, 2, 4, 4, 3, 3, 4]) {
            0 => Axis::Child,
            1 => Axis::Desc,
            2 => Axis::DescSelf,
            3 => Axis::SelfA,
            4 => Axis::Parent,
            5 => Axis::Anc,
            6 => Axis::AncSelf,
            7 => Axis::FolSib,
            8 => Axis::PreSib,
            9 => Axis::Fol,
            10 => Axis::Prec,
            _ => Axis::Attr,
        };
        let test = self.test(axis);
        let mut abbrev = self.r.chance(2, 3) && matches!(axis, Axis::Child | Axis::Attr);
        let mut preds = Vec::new();
        if axis == Axis::Parent && matches!(test, Test::Node) && self.r.chance(1, 2) {
            abbrev = true;
        }
        if abbrev && axis == Axis::Child && matches!(test, Test::AttrT(_) | Test::AttrTT(..)) {
            abbrev = false;
        }
        if !(abbrev && axis == Axis::Parent) {
            let np = [0, 0, 1, 1, 2][self.r.below(5)].min(size);
            for _ in 0..np {
                preds.push(self.pred(size / 2, depth + 1));
            }
        }
        Step { dbl, axis, abbrev, test, preds }
    }
    fn pred(&mut self, size: usize, depth: usize) -> Expr {
        let old = std::mem::replace(&mut self.focus, true);
        let e = self.pred0(size, depth);
        self.focus = old;
        e
    }
    fn pred0(&mut self, size: usize, depth: usize) -> Expr {
        match self.r.below(if depth > 3 || size == 0 { 6 } else { 12 }) {
            0 if self.r.chance(1, 3) => match self.r.below(6) {
                0 | 1 => Expr::Lit(self.r.below(LITS.len())),
                2 => Expr::PosMod(2 + self.r.below(2) as i64, self.r.below(2) as i64),
                3 if size > 0 => Expr::Fn1(0, Box::new(self.path(size / 2, depth + 1, true))),
                _ => Expr::Int(4 + self.r.below(9) as i64),
            },
            0 | 1 => Expr::Int(1 + self.r.below(3) as i64),
            2 => Expr::Last,
            3 => {
                if self.r.chance(1, 2) {
                    Expr::LastMinus(1)
                } else {
                    let k = self.r.below(6) as u8;
                    Expr::Cmp(k, Box::new(Expr::Pos), Box::new(if self.r.chance(1, 2) { Expr::Last } else { Expr::Int(1 + self.r.below(3) as i64) }))
                }
            }
            4 => Expr::AttrEq(self.r.pick(&["id", "x", "v"]).to_string(), self.r.pick(&["v", "w", "u1", "true"]).to_string()),
            5 => Expr::NameEq(if self.r.chance(1, 8) { self.r.pick(&crate::refxml::PITS[..]).to_string() } else { self.ename() }),
            6..=8 => self.path(size, depth, true),
            _ => self.boolean(size, depth),
        }
    }
    fn boolean(&mut self, size: usize, depth: usize) -> Expr {
        if size == 0 || depth > 5 {
            return Expr::Fn1(1 + self.r.below(2) as u8, Box::new(self.path(0, depth + 1, true)));
        }
        let s = size / 2;
        if self.focus && self.r.chance(1, 6) {
            let a = if self.r.chance(1, 2) { Expr::Pos } else { Expr::Last };
            let b = match self.r.below(4) {
                0 => Expr::Pos,
                1 => Expr::Last,
                2 => Expr::Int(1 + self.r.below(4) as i64),
                _ => Expr::Fn1(0, Box::new(self.nodes(s, depth + 1))),
            };
            return Expr::Cmp(self.r.below(6) as u8, Box::new(a), Box::new(b));
        }
        match self.r.below(10) {
            0 | 1 => Expr::Fn1(1 + self.r.below(2) as u8, Box::new(self.nodes(s, depth + 1))),
            2 => {
                let k = self.r.below(6) as u8;
                Expr::Cmp(k, Box::new(Expr::Fn1(0, Box::new(self.nodes(s, depth + 1)))), Box::new(Expr::Int(self.r.below(4) as i64)))
            }
            3 => Expr::Not(Box::new(self.boolean(s, depth + 1))),
            4 => Expr::And(Box::new(self.boolean(s, depth + 1)), Box::new(self.boolean(s, depth + 1))),
            5 => Expr::Or(Box::new(self.boolean(s, depth + 1)), Box::new(self.boolean(s, depth + 1))),
            6 | 7 => {
                let v = self.var();
                let i = self.nodes(s, depth + 1);
                self.scope.push(v.clone());
                let c = self.boolean(s, depth + 1);
                self.scope.pop();
                Expr::Quant(self.r.chance(1, 2), v, Box::new(i), Box::new(c))
            }
            _ => {
                let k = self.r.below(3) as u8;
                let a = self.single(s, depth + 1);
                let b = self.single(s, depth + 1);
                Expr::NodeCmp(k, Box::new(a), Box::new(b))
            }
        }
    }
    /// an expression that is likely to give one node
    fn single(&mut self, size: usize, depth: usize) -> Expr {
        match self.r.below(5) {
            0 => Expr::Dot,
            1 if !self.scope.is_empty() => Expr::Var(self.scope[self.r.below(self.scope.len())].clone()),
            _ => {
                let p = self.path(size.max(1), depth + 1, true);
                let k = if self.r.chance(1, 3) { Expr::Last } else { Expr::Int(1 + self.r.below(2) as i64) };
                Expr::Filter(Box::new(p), vec![k])
            }
        }
    }
    fn var(&mut self) -> String {
        if !self.scope.is_empty() && self.r.chance(1, 4) {
            // hides an outer variable
            return self.scope[self.r.below(self.scope.len())].clone();
        }
        self.nv += 1;
        format!("v{}", self.nv)
    }
    fn path(&mut self, size: usize, depth: usize, inner: bool) -> Expr {
        let mut st = match self.r.below(10) {
            0..=4 => Start::Rel,
            5..=8 => Start::Root,
            _ => Start::Rel,
        };
        if inner && self.r.chance(1, 2) {
            st = Start::Rel;
        }
        if !self.scope.is_empty() && self.r.chance(1, 4) {
            st = Start::Expr(Box::new(Expr::Var(self.scope[self.r.below(self.scope.len())].clone())));
        } else if size > 2 && depth < 3 && self.r.chance(1, 6) {
            st = Start::Expr(Box::new(self.nodes(size / 2, depth + 1)));
        }
        let n = 1 + self.r.below(size.min(3) + 1);
        let mut steps = Vec::new();
        for i in 0..n {
            let mut s = self.step(size / 2, depth + 1);
            if i == 0 && matches!(st, Start::Root) && self.r.chance(3, 4) {
                s.dbl = true;
            }
            steps.push(s);
        }
        Expr::Path(st, steps)
    }
    /// Two wide sets of nodes put together.
    fn sets(&mut self) -> Expr {
        let a = self.wide();
        let b = match self.r.below(3) {
            0 => self.wide(),
            1 => Expr::Filter(Box::new(a.clone()), vec![self.pred(1, 2)]),
            _ => Expr::Filter(Box::new(self.wide()), vec![self.pred(1, 2)]),
        };
        let k = self.r.below(3) as u8;
        if self.r.chance(3, 4) {
            Expr::Set(k, Box::new(a), Box::new(b))
        } else {
            Expr::Set(k, Box::new(b), Box::new(a))
        }
    }
    fn wide(&mut self) -> Expr {
        let test = match self.r.below(9) {
            0 | 1 => Test::Star,
            2 => Test::Node,
            3 | 4 => Test::Text,
            5 => Test::Comment,
            _ => Test::Name(self.ename()),
        };
        let st = if self.r.chance(3, 4) { Start::Root } else { Start::Rel };
        let s1 = |t: Test, dbl: bool, axis: Axis| Step { dbl, axis, abbrev: true, test: t, preds: vec![] };
        let steps = if self.r.chance(1, 4) {
            vec![s1(Test::Star, true, Axis::Child), s1(Test::Star, false, Axis::Attr)]
        } else {
            vec![s1(test, true, Axis::Child)]
        };
        Expr::Path(st, steps)
    }
    fn nodes(&mut self, size: usize, depth: usize) -> Expr {
        if size == 0 || depth > 4 {
            return self.path(0, depth, depth > 0);
        }
        let s = size / 2;
        match self.r.below(15) {
            0..=7 => self.path(size, depth, depth > 0),
            8 => {
                // a set against a part of it
                let a = self.nodes(s, depth + 1);
                let part = Expr::Filter(Box::new(a.clone()), vec![self.pred(s, depth + 1)]);
                let k = self.r.below(3) as u8;
                if self.r.chance(3, 4) {
                    Expr::Set(k, Box::new(a), Box::new(part))
                } else {
                    Expr::Set(k, Box::new(part), Box::new(a))
                }
            }
            9 => Expr::Set(self.r.below(3) as u8, Box::new(self.nodes(s, depth + 1)), Box::new(self.nodes(s, depth + 1))),
            10 | 11 => {
                let e = self.nodes(s, depth + 1);
                let p = self.pred(s, depth + 1);
                Expr::Filter(Box::new(e), vec![p])
            }
            14 if self.r.chance(1, 3) => {
                // one name bound inside and outside, and used afterwards
                let v = self.var();
                let b = Box::new;
                let i = self.nodes(s, depth + 1);
                self.scope.push(v.clone());
                let rng = self.nodes(s, depth + 1);
                let used = Expr::Path(Start::Expr(b(Expr::Var(v.clone()))), if self.r.chance(1, 2) { vec![] } else { vec![self.step(0, depth + 1)] });
                let body = match self.r.below(4) {
                    0 | 1 => {
                        let c = Expr::Quant(self.r.chance(1, 2), v.clone(), b(rng), b(self.boolean(s.min(1), depth + 1)));
                        if self.r.chance(1, 2) {
                            Expr::If(b(c), b(used.clone()), b(used))
                        } else {
                            let c = if self.r.chance(1, 2) { Expr::Or(b(c), b(Expr::Fn1(1, b(self.path(0, depth + 1, true))))) } else { Expr::And(b(c), b(Expr::Fn1(1, b(used.clone())))) };
                            Expr::If(b(c), b(used.clone()), b(self.path(0, depth + 1, true)))
                        }
                    }
                    2 => Expr::Set(0, b(Expr::For(v.clone(), b(rng), b(used.clone()))), b(used)),
                    _ => Expr::Filter(b(used.clone()), vec![Expr::Fn1(1, b(Expr::Let(v.clone(), b(rng), b(used.clone())))), Expr::Fn1(1, b(used))]),
                };
                self.scope.pop();
                if self.r.chance(1, 3) {
                    return Expr::Let(v, b(i), b(body));
                }
                Expr::For(v, b(i), b(body))
            }
            12 | 14 => {
                let is_let = self.r.chance(1, 3);
                let v = self.var();
                let i = self.nodes(s, depth + 1);
                self.scope.push(v.clone());
                let r = self.nodes(s, depth + 1);
                self.scope.pop();
                if is_let {
                    return Expr::Let(v, Box::new(i), Box::new(r));
                }
                Expr::For(v, Box::new(i), Box::new(r))
            }
            _ => Expr::If(Box::new(self.boolean(s, depth + 1)), Box::new(self.nodes(s, depth + 1)), Box::new(self.nodes(s, depth + 1))),
        }
    }
}

/// The query with this seed and size. kind: 0 nodes, 1 any value.
pub fn make(seed: i64, size: i64, kind: i64) -> Expr {
    let mut g = G { r: Rng::new(seed as u64 ^ 0x51), focus: false, nv: 0, scope: vec![] };
    let size = size.clamp(0, 8) as usize;
    if kind == 1 {
        if g.r.chance(1, 3) {
            Expr::Fn1(0, Box::new(g.nodes(size, 0)))
        } else {
            g.boolean(size, 0)
        }
    } else {
        g.nodes(size, 0)
    }
}
/// Pools of plain queries, likely to select something.
pub fn simple(seed: i64) -> Expr {
    let mut g = G { r: Rng::new(seed as u64 ^ 0x52), focus: false, nv: 0, scope: vec![] };
    if g.r.chance(1, 4) {
        return g.sets();
    }
    let t = match g.r.below(6) {
        0 | 1 => Test::Star,
        2 => Test::Node,
        3 => Test::Text,
        _ => Test::Name(g.ename()),
    };
    let st = if g.r.chance(2, 3) { Start::Root } else { Start::Rel };
    let mut steps = vec![Step { dbl: true, axis: Axis::Child, abbrev: true, test: t, preds: vec![] }];
    if g.r.chance(1, 5) {
        steps = vec![
            Step { dbl: true, axis: Axis::Child, abbrev: true, test: Test::Star, preds: vec![] },
            Step { dbl: false, axis: Axis::Attr, abbrev: true, test: Test::Star, preds: vec![] },
        ];
    }
    Expr::Path(st, steps)
}
/// Query of a step: size -1 is the simple pool.
pub fn of(seed: i64, size: i64, kind: i64) -> Expr {
    if size < 0 {
        simple(seed)
    } else {
        make(seed, size, kind)
    }
}
