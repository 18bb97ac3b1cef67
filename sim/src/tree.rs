//! Simulated clients editing, querying and dropping shared document trees (C01-C06, C12, C13).

use crate::env;
use crate::exprgen;
use crate::model::{Model, K};
use crate::query::{self, Ev, Val};
use crate::refxml::{self, DocOpt, Ref};
use crate::rng::Rng;
use crate::runner::{self, host, lib, AbortToken, Caught, Ctx, Mode, World};
use crate::step::{Arg, Step};
use crate::vast;
use crate::deep;
use amxml::dom::{new_document, NodePtr, NodeType};
use amxml::xpath::Sequence;
use std::collections::BTreeMap;

const OPS: [&str; 33] = [
    "parse", "badparse", "nav", "clone", "qall", "qfirst", "qeval", "append", "insprev", "insnext", "replace", "delete", "delkid", "setattr",
    "delattr", "each", "eachbad", "evalfail", "drop", "crash", "dropdoc", "hold", "holda", "sweep", "order", "twin",
    "save", "reboot", "burst", "churn", "wide", "vast", "deep",
];
fn weights(prop: &str) -> [u32; 33] {
    let mut w = [0; 33];
    w[..26].copy_from_slice(&tree_weights(prop));
    if prop == "C07" {
        w[26] = 14;
        w[27] = 3;
    }
    w[28] = match prop {
        "C03" | "C06" | "C12" | "C13" => 1,
        _ => 0,
    };
    w[29] = if prop == "C07" { 0 } else { 1 };
    w[30] = if prop == "C02" { 1 } else { 0 };
    w[31] = 1;
    w[32] = if matches!(prop, "C05" | "C12") { 1 } else { 0 };
    w
}
fn tree_weights(prop: &str) -> [u32; 26] {
    //   pa ba nav cl qa qf qe ap ip in re de dk sa da ea eb ef dr cr dd ho ha sw or tw
    match prop {
        "C01" => [2, 1, 14, 2, 4, 1, 2, 7, 4, 4, 4, 3, 4, 8, 4, 2, 1, 1, 5, 1, 1, 0, 0, 7, 0, 0],
        "C02" => [2, 1, 7, 1, 22, 6, 12, 6, 4, 4, 4, 3, 4, 5, 3, 2, 1, 1, 4, 1, 4, 0, 0, 1, 5, 0],
        "C03" => [2, 1, 8, 1, 6, 2, 4, 6, 4, 4, 4, 3, 4, 6, 3, 3, 2, 5, 4, 1, 3, 0, 0, 1, 1, 22],
        "C04" => [2, 0, 12, 1, 3, 1, 1, 13, 9, 9, 9, 3, 4, 6, 3, 1, 0, 0, 5, 1, 3, 0, 0, 10, 0, 0],
        "C05" => [2, 0, 14, 2, 8, 2, 4, 5, 4, 4, 5, 4, 6, 5, 3, 2, 0, 1, 8, 2, 8, 0, 0, 9, 2, 0],
        "C06" => [2, 0, 8, 1, 3, 1, 1, 5, 4, 4, 4, 3, 4, 4, 2, 16, 3, 1, 4, 1, 2, 0, 0, 4, 0, 0],
        "C07" => [2, 0, 8, 1, 2, 1, 1, 7, 4, 4, 4, 2, 4, 9, 3, 2, 0, 1, 3, 1, 2, 0, 0, 0, 0, 0],
        "C12" => [3, 2, 8, 2, 6, 2, 5, 6, 4, 4, 4, 3, 4, 5, 3, 4, 2, 4, 5, 1, 3, 3, 2, 0, 1, 0],
        "C13" => [2, 1, 8, 1, 4, 1, 3, 5, 4, 4, 4, 3, 5, 5, 3, 2, 1, 2, 5, 1, 4, 16, 6, 8, 0, 0],
        _ => [1; 26],
    }
}

pub struct Handle {
    client: u32,
    real: NodePtr,
    m: usize,
}
enum HeldReal {
    Seq(Sequence),
    Vec(Vec<NodePtr>),
}
enum HItem {
    Node(usize, bool), // the text of a node item can be predicted
    Atom(String),
}
struct Held {
    client: u32,
    real: HeldReal,
    items: Vec<HItem>,
    whole: bool, // the string of the whole can be predicted from its items
}

// counters
const NAMES: [&str; 60] = [
    "parse", "parse of a damaged document", "navigation", "handle clones", "node set queries", "first node queries", "value queries", "append_child",
    "insert_as_previous_sibling", "insert_as_next_sibling", "replace_with", "delete_child (any target)", "delete_child (a child)", "set_attribute",
    "delete_attribute", "each_node", "each_node in error", "failing evaluations", "handle drops", "client crashes", "document/ancestor drops",
    "held results", "held atomic results", "sweeps", "order reads", "twin comparisons", "nested steps in callbacks", "callbacks visited",
    "callbacks that panicked", "edits without a valid target", "insertions of an ancestor or itself", "nodes orphaned by a drop", "nodes verified",
    "queries decided by the model", "queries the model leaves open", "queries from an orphan", "queries with a result", "held results re-read",
    "twins skipped", "expression ended in an error", "expression panicked", "each_node snapshot identity known", "passes repeated", "deep or large documents",
    "documents saved", "saves of a whole document", "restarts", "documents reloaded", "crash while writing", "crash before flush", "crash before rename",
    "crash after rename, new version kept", "crash after rename, old version kept", "disk full or write error", "crash after completed save", "explicit restarts",
    "calls repeated in bursts", "results repeated in a fresh process", "edits repeated in bursts",
    "trees of thousands of nodes",
];
fn opi(op: &str) -> usize {
    OPS.iter().position(|x| *x == op).unwrap_or(0)
}

pub struct Tree;

struct W {
    m: Model,
    h: BTreeMap<(u32, u32), Handle>,
    held: BTreeMap<u32, Held>,
    pins: Vec<(NodePtr, usize)>, // nodes the harness itself keeps alive
    mpins: Vec<usize>,           // nodes only the library keeps alive (unvisited snapshot)
    cap: usize,
    rich: bool,
    nest: u32,
    record: Option<Vec<Step>>,
    edits: u64,
    reads: u64,
    docs: usize,
    lax: bool,
    slots: BTreeMap<i64, Slot>,
    bursts: u32,
    texts: Vec<String>,
    watch: Vec<((u32, u32), String)>,
    asked: Vec<Vec<Arg>>,
    apart: Vec<(Step, String)>, // to be repeated in a fresh process, with what came out here
}
/// What the simulated disk durably holds under one name.
struct Slot {
    text: String,
    m: Model,
    root: usize,
}

fn ty(k: K) -> NodeType {
    match k {
        K::Root => NodeType::DocumentRoot,
        K::Elem => NodeType::Element,
        K::Text => NodeType::Text,
        K::Comment => NodeType::Comment,
        K::Decl => NodeType::XMLDecl,
        K::Pi => NodeType::Instruction,
        K::Attr => NodeType::Attribute,
    }
}

fn short(s: &str) -> String {
    let c: Vec<char> = s.chars().collect();
    if c.len() > 700 {
        format!("{}...", c[..700].iter().collect::<String>())
    } else {
        s.to_string()
    }
}

/// The real tree, as read through children() and attributes().
fn real_dump(n: &NodePtr, depth: usize) -> String {
    let mut s = match n.node_type() {
        NodeType::DocumentRoot => "#doc".to_string(),
        NodeType::Element => n.name(),
        NodeType::Text => format!("{:?}", n.value()),
        NodeType::Attribute => format!("@{}={:?}", n.name(), n.value()),
        NodeType::Comment => format!("<!--{}-->", n.value()),
        _ => format!("<?{} {:?}?>", n.name(), n.value()),
    };
    let at = n.attributes();
    let ch = n.children();
    if depth < 300 && at.len() + ch.len() > 0 {
        s += "(";
        s += &at.iter().chain(ch.iter()).map(|x| real_dump(x, depth + 1)).collect::<Vec<_>>().join(" ");
        s += ")";
    }
    s
}

impl W {
    fn new() -> W {
        W {
            m: Model::new(), h: BTreeMap::new(), held: BTreeMap::new(), pins: vec![], mpins: vec![], cap: 120, rich: false, nest: 0, record: None, edits: 0,
            reads: 0, docs: 0, lax: false, slots: BTreeMap::new(), bursts: 0, texts: vec![], watch: vec![], asked: vec![], apart: vec![],
        }
    }

    // ------------------------------------------------------------ guarded calls
    fn call<T>(&mut self, ctx: &mut Ctx, what: &str, f: impl FnOnce() -> T) -> T {
        match lib(f) {
            Ok(v) => v,
            Err(Caught::Panic(m)) => {
                let strict = matches!(ctx.prop.as_str(), "C01" | "C04" | "C05" | "C06") || (ctx.prop == "C02" && what.starts_with("query"))
                    || (ctx.prop == "C13" && what.starts_with("held"))
                    || (ctx.prop == "C07" && what == "to_string");
                if strict {
                    ctx.fail("panic", &format!("{} panicked: {}", what, m))
                } else {
                    ctx.skip("a library call panicked")
                }
            }
            Err(Caught::Abort) => runner::harness_error("unexpected abort token"),
        }
    }
    /// A disagreement about the tree itself.
    fn differs(&mut self, ctx: &mut Ctx, class: &str, msg: &str) -> ! {
        if matches!(ctx.prop.as_str(), "C01" | "C04" | "C05" | "C06") || std::env::var("AMSIM_STRICT").is_ok() {
            ctx.fail(class, msg)
        } else {
            ctx.skip(&format!("the tree itself differs from the model: [{}] {}", class, msg))
        }
    }

    // ------------------------------------------------------------ bookkeeping
    fn gc(&mut self) {
        let mut p: Vec<usize> = self.h.values().map(|x| x.m).collect();
        p.extend(self.pins.iter().map(|x| x.1));
        p.extend_from_slice(&self.mpins);
        for x in self.held.values() {
            for i in &x.items {
                if let HItem::Node(n, _) = i {
                    p.push(*n);
                }
            }
        }
        self.m.gc(&p);
    }
    fn add(&mut self, key: (u32, u32), client: u32, real: NodePtr, m: usize) {
        self.h.insert(key, Handle { client, real, m });
    }
    fn drop_handles(&mut self, ctx: &mut Ctx, keys: &[(u32, u32)]) {
        for k in keys {
            if let Some(x) = self.h.remove(k) {
                self.call(ctx, "drop of a handle", move || drop(x.real));
            }
        }
    }
    fn drop_everything(&mut self, ctx: &mut Ctx) {
        let h = std::mem::take(&mut self.h);
        let held = std::mem::take(&mut self.held);
        let pins = std::mem::take(&mut self.pins);
        self.call(ctx, "drop of all handles", move || {
            drop(pins);
            for (_, x) in h {
                drop(x.real);
            }
            for (_, x) in held {
                drop(x.real);
            }
        });
        self.m = Model::new();
    }

    // ------------------------------------------------------------ walking a real tree
    /// Walks the real and the model tree together; Err is a description of the first difference.
    fn walk(&mut self, ctx: &mut Ctx, real: &NodePtr, mid: usize) -> Result<BTreeMap<usize, NodePtr>, String> {
        let mut map = BTreeMap::new();
        let mut st = vec![(real.rc_clone(), mid)];
        while let Some((r, i)) = st.pop() {
            let (t, n, v, at, ch) = self.call(ctx, "reading a node", || (r.node_type(), r.name(), r.value(), r.attributes(), r.children()));
            let x = &self.m.n[i];
            if t != ty(x.k) {
                return Err(format!("node_type is {:?}, expected {:?} ({})", t, ty(x.k), short(&self.m.dump(i))));
            }
            if n != x.name {
                return Err(format!("name is {:?}, expected {:?}", n, x.name));
            }
            if v != x.value {
                return Err(format!("value is {:?}, expected {:?}", v, x.value));
            }
            if at.len() != x.attrs.len() {
                return Err(format!("{} attributes, expected {} at {}", at.len(), x.attrs.len(), short(&self.m.dump(i))));
            }
            if ch.len() != x.kids.len() {
                return Err(format!("{} children, expected {} at {}", ch.len(), x.kids.len(), short(&self.m.dump(i))));
            }
            for (k, c) in x.attrs.iter().zip(at) {
                st.push((c, *k));
            }
            for (k, c) in x.kids.iter().zip(ch) {
                st.push((c, *k));
            }
            map.insert(i, r);
        }
        Ok(map)
    }
    fn both(&mut self, ctx: &mut Ctx, real: &NodePtr, mid: usize) -> String {
        let r = self.call(ctx, "reading a tree", || real_dump(real, 0));
        format!("real: {}; expected: {}", short(&r), short(&self.m.dump(mid)))
    }
    /// The real top of a node, by climbing; checks the length of the way.
    fn climb(&mut self, ctx: &mut Ctx, real: &NodePtr, mid: usize) -> Result<(NodePtr, usize), String> {
        let mut r = real.rc_clone();
        let mut i = mid;
        loop {
            let p = self.call(ctx, "parent()", || r.parent());
            match (p, self.m.parent(i)) {
                (None, None) => return Ok((r, i)),
                (Some(p), Some(q)) => {
                    r = p;
                    i = q;
                }
                (Some(_), None) => return Err(format!("parent() is a node, but {} has no parent", short(&self.m.dump(i)))),
                (None, Some(q)) => return Err(format!("parent() is None, expected {} for {}", short(&self.m.debug(q)), short(&self.m.dump(i)))),
            }
        }
    }

    fn tops(&self) -> Vec<((u32, u32), usize, usize)> {
        // one handle for each tree
        let mut seen: Vec<usize> = vec![];
        let mut out = vec![];
        for (k, x) in &self.h {
            let t = self.m.top(x.m);
            if !seen.contains(&t) {
                seen.push(t);
                out.push((*k, x.m, t));
            }
        }
        out
    }

    /// Compares everything readable with the model.
    fn sweep(&mut self, ctx: &mut Ctx, deep: bool) {
        let mut tops: Vec<(usize, NodePtr)> = Vec::new();
        let hs: Vec<(NodePtr, usize)> = self.h.values().map(|x| (x.real.rc_clone(), x.m)).collect();
        let mut cover: BTreeMap<usize, NodePtr> = BTreeMap::new();
        for (r, i) in &hs {
            match self.climb(ctx, r, *i) {
                Err(e) => self.differs(ctx, "parent", &format!("{}: handle of {}", e, short(&self.m.dump(*i)))),
                Ok((t, ti)) => match tops.iter().find(|x| x.0 == ti).cloned() {
                    Some((_, t0)) => {
                        if t0 != t {
                            self.differs(ctx, "identity", &format!("two nodes of one tree reach different topmost nodes: {}", short(&self.m.dump(ti))));
                        }
                    }
                    None => {
                        if let Some(x) = tops.iter().find(|x| x.1 == t) {
                            let m = format!("nodes of two separate trees reach the same topmost node: {} and {}", short(&self.m.dump(x.0)), short(&self.m.dump(ti)));
                            self.differs(ctx, "identity", &m);
                        }
                        tops.push((ti, t));
                    }
                },
            }
        }
        for (ti, t) in tops.clone() {
            match self.walk(ctx, &t, ti) {
                Err(e) => {
                    let b = self.both(ctx, &t, ti);
                    self.differs(ctx, "content", &format!("{}; {}", e, b))
                }
                Ok(map) => cover.extend(map),
            }
        }
        for (r, i) in &hs {
            match cover.get(i) {
                Some(x) if x == r => {}
                _ => self.differs(ctx, "identity", &format!("a handle no longer is the node at its place: {}", short(&self.m.dump(*i)))),
            }
        }
        self.reads += cover.len() as u64;
        ctx.cnt[32] += cover.len() as u64;
        if deep {
            self.deep(ctx, &tops, &cover);
        }
        // results held by clients
        let keys: Vec<u32> = self.held.keys().copied().collect();
        if !keys.is_empty() {
            for k in keys {
                self.check_held(ctx, k, &cover);
            }
        }
        // the walk must not have kept anything alive
        drop(hs);
        self.call(ctx, "drop", move || {
            drop(cover);
            drop(tops);
        });
    }

    fn deep(&mut self, ctx: &mut Ctx, tops: &[(usize, NodePtr)], cover: &BTreeMap<usize, NodePtr>) {
        let big = cover.len() > 300;
        for (ti, t) in tops {
            let mut ids = Vec::new();
            self.m.doc_order(*ti, &mut ids);
            let re = self.m.root_element(*ti);
            for (no, i) in ids.iter().enumerate() {
                if big && no % 7 != (self.reads % 7) as usize && no > 20 {
                    continue;
                }
                let r = &cover[i];
                let (loc, sp, ns, par, root, rel, fc, dbg) = self.call(ctx, "reading a node", || {
                    (r.local_name(), r.space_name(), r.namespace_uri(), r.parent(), r.root(), r.root_element(), r.first_child(), format!("{:?}", r))
                });
                let x = self.m.n[*i].clone();
                let bad = |w: &mut W, ctx: &mut Ctx, what: &str, got: String, exp: String| -> ! {
                    let d = w.both(ctx, t, *ti);
                    let here = short(&w.m.dump(*i));
                    w.differs(ctx, &format!("read-{}", what), &format!("{} of {} is {}, expected {}; {}", what, here, got, exp, d))
                };
                if matches!(x.k, K::Elem | K::Attr) {
                    if loc != self.m.local_name(*i) {
                        bad(self, ctx, "local_name", loc, x.name.clone());
                    }
                    if sp != self.m.space_name(*i) {
                        bad(self, ctx, "space_name", sp, x.name.clone());
                    }
                    let e = self.m.namespace_uri(*i);
                    if x.k == K::Elem && ns != e {
                        bad(self, ctx, "namespace_uri", ns, e);
                    }
                }
                match (par, self.m.parent(*i)) {
                    (None, None) => {}
                    (Some(p), Some(q)) if cover.get(&q) == Some(&p) => {}
                    (p, q) => bad(self, ctx, "parent", format!("{:?}", p.map(|p| p.name())), format!("{:?}", q.map(|q| self.m.dump(q)))),
                }
                if root != *t {
                    bad(self, ctx, "root", "another node".into(), "the topmost node".into());
                }
                if rel != cover[&re] {
                    bad(self, ctx, "root_element", "another node".into(), self.m.dump(re));
                }
                match (fc, x.kids.first()) {
                    (None, None) => {}
                    (Some(a), Some(b)) if cover[b] == a => {}
                    _ => bad(self, ctx, "first_child", "another node".into(), format!("{:?}", x.kids.first().map(|k| self.m.dump(*k)))),
                }
                let e = self.m.debug(*i);
                if dbg != e {
                    bad(self, ctx, "debug", dbg, e);
                }
                let nk = x.kids.len();
                for k in 0..=nk {
                    if k > 3 && k + 2 < nk {
                        continue;
                    }
                    let c = self.call(ctx, "nth_child()", || r.nth_child(k));
                    match (c, x.kids.get(k)) {
                        (None, None) => {}
                        (Some(a), Some(b)) if cover[b] == a => {}
                        _ => bad(self, ctx, "nth_child", format!("another node at {}", k), format!("{:?}", x.kids.get(k).map(|k| self.m.dump(*k)))),
                    }
                }
                for a in &x.attrs {
                    let an = self.m.n[*a].name.clone();
                    let v = self.call(ctx, "attribute_value()", || r.attribute_value(&an));
                    if v.as_deref() != Some(self.m.n[*a].value.as_str()) {
                        bad(self, ctx, "attribute_value", format!("{:?} for {}", v, an), self.m.n[*a].value.clone());
                    }
                }
                let v = self.call(ctx, "attribute_value()", || r.attribute_value("no-such"));
                if v.is_some() {
                    bad(self, ctx, "attribute_value", format!("{:?}", v), "None".into());
                }
                if no < 3 || no % 5 == 0 {
                    let (a, b) = self.call(ctx, "serialising", || (r.to_string(), r.inner_xml()));
                    let e = self.m.ser(*i);
                    if a != e {
                        bad(self, ctx, "to_string", a, e);
                    }
                    let e = self.m.inner(*i);
                    if b != e {
                        bad(self, ctx, "inner_xml", b, e);
                    }
                }
                if no < 2 || no % 11 == 0 {
                    let a = self.call(ctx, "serialising", || r.to_pretty_string());
                    let e = self.m.pretty(*i);
                    if a != e {
                        bad(self, ctx, "to_pretty_string", a, e);
                    }
                }
            }
        }
    }

    fn check_held(&mut self, ctx: &mut Ctx, k: u32, cover: &BTreeMap<usize, NodePtr>) {
        ctx.cnt[37] += 1;
        let held = self.held.remove(&k).unwrap();
        let mut extra: BTreeMap<usize, NodePtr> = BTreeMap::new();
        let got: Vec<Option<NodePtr>> = match &held.real {
            HeldReal::Vec(v) => v.iter().map(|x| Some(x.rc_clone())).collect(),
            HeldReal::Seq(s) => {
                let n = self.call(ctx, "held: len()", || s.len());
                if n != held.items.len() {
                    ctx.fail("held-length", &format!("a held result has {} items, had {} when it was returned", n, held.items.len()));
                }
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.call(ctx, "held: get_item()", || s.get_item(i).as_nodeptr()));
                }
                v
            }
        };
        if got.len() != held.items.len() {
            ctx.fail("held-length", "a held vector changed its length");
        }
        for (i, (g, e)) in got.iter().zip(&held.items).enumerate() {
            match (g, e) {
                (Some(r), HItem::Node(m, _)) => {
                    if !cover.contains_key(m) && !extra.contains_key(m) {
                        match self.climb(ctx, r, *m) {
                            Ok((t, ti)) => match self.walk(ctx, &t, ti) {
                                Ok(mp) => extra.extend(mp),
                                Err(_) => ctx.skip("the tree itself differs from the model"),
                            },
                            Err(_) => ctx.skip("the tree itself differs from the model"),
                        }
                    }
                    let x = cover.get(m).or_else(|| extra.get(m));
                    if x != Some(r) {
                        ctx.fail("held-identity", &format!("item {} of a held result is not the node it was: expected {}", i, short(&self.m.dump(*m))));
                    }
                }
                (None, HItem::Atom(_)) => {}
                _ => ctx.fail("held-kind", &format!("item {} of a held result changed from a node to a value or back", i)),
            }
        }
        if let HeldReal::Seq(s) = &held.real {
            let mut parts = Vec::new();
            for (i, e) in held.items.iter().enumerate() {
                let t = self.call(ctx, "held: to_string()", || s.get_item(i).to_string());
                let exp = match e {
                    HItem::Node(m, true) => self.m.debug(*m),
                    HItem::Node(_, false) => t.clone(),
                    HItem::Atom(a) => a.clone(),
                };
                if t != exp {
                    ctx.fail("held-item", &format!("item {} of a held result reads {:?}, expected {:?}", i, short(&t), short(&exp)));
                }
                parts.push(t);
            }
            let t = self.call(ctx, "held: to_string()", || s.to_string());
            let t2 = self.call(ctx, "held: to_string()", || s.to_string());
            if t != t2 {
                ctx.fail("held-string", &format!("reading a held result twice gives {:?} and {:?}", short(&t), short(&t2)));
            }
            if held.whole {
                let exp = whole(&parts);
                if t != exp {
                    ctx.fail("held-string", &format!("a held result reads {:?}, expected {:?}", short(&t), short(&exp)));
                }
            }
            ctx.observe(&t);
        }
        self.reads += 1;
        self.held.insert(k, held);
        self.call(ctx, "drop", move || {
            drop(got);
            drop(extra);
        });
    }

    /// The real nodes of the tree a handle is in.
    fn locate(&mut self, ctx: &mut Ctx, real: &NodePtr, mid: usize) -> BTreeMap<usize, NodePtr> {
        let (t, ti) = match self.climb(ctx, real, mid) {
            Ok(x) => x,
            Err(e) => self.differs(ctx, "parent", &e),
        };
        match self.walk(ctx, &t, ti) {
            Ok(m) => m,
            Err(e) => {
                let b = self.both(ctx, &t, ti);
                self.differs(ctx, "content", &format!("{}; {}", e, b))
            }
        }
    }

    // ------------------------------------------------------------ driving
    fn drive(&mut self, ctx: &mut Ctx, n: usize) {
        let mut i = 0;
        loop {
            let st = if ctx.generating() {
                if i >= n {
                    break;
                }
                match self.gen_step(ctx, None) {
                    Some(mut s) => {
                        s.id = ctx.fresh_id();
                        s
                    }
                    None => {
                        i += 1;
                        continue;
                    }
                }
            } else {
                match ctx.next_top() {
                    Some(s) if s.op == "cfg" => continue,
                    Some(s) => s,
                    None => break,
                }
            };
            self.step(ctx, st);
            i += 1;
        }
    }
    fn step(&mut self, ctx: &mut Ctx, mut st: Step) {
        if matches!(st.op.as_str(), "qall" | "qfirst" | "qeval" | "each" | "hold") {
            st.note = query::of(st.n(1), st.n(2), st.n(3)).show();
        }
        ctx.log(&st);
        if let Some(v) = &mut self.record {
            v.push(st.clone());
        }
        match st.op.as_str() {
            "save" | "burst" | "churn" | "wide" | "vast" | "deep" => {}
            "reboot" => ctx.cnt[55] += 1,
            o => ctx.cnt[opi(nav_op(o))] += 1,
        }
        if st.within.is_some() {
            ctx.cnt[26] += 1;
        }
        if !self.lax {
            // in a large tree a query may rightly take long; in a small one it may not
            let big = self.tops().iter().any(|x| self.m.size(x.2) > 130);
            unsafe { runner::HANG_SKIPS = big };
        }
        self.exec(ctx, &st);
        self.gc();
    }

    fn pick(&self, r: &mut Rng, f: impl Fn(&W, &Handle) -> bool) -> Option<(u32, u32)> {
        let v: Vec<(u32, u32)> = self.h.iter().filter(|x| f(self, x.1)).map(|x| *x.0).collect();
        if v.is_empty() {
            None
        } else {
            // recent handles more often
            let n = v.len();
            let i = if r.chance(1, 3) { n - 1 - r.below(n.min(6)) } else { r.below(n) };
            Some(v[i])
        }
    }

    fn gen_step(&mut self, ctx: &mut Ctx, focus: Option<(u32, u32)>) -> Option<Step> {
        let prop = ctx.prop.clone();
        let mut w = weights(&prop);
        let r = &mut ctx.rng;
        let total: usize = self.tops().iter().map(|x| self.m.size(x.2)).sum();
        if self.h.is_empty() {
            w = [0; 33];
            w[0] = 1;
        } else if self.nest > 0 {
            for z in [0, 1, 19, 23, 24, 27, 28, 29, 30, 31, 32] {
                w[z] = 0;
            }
            w[15] = if self.nest < 2 { w[15].min(3) } else { 0 };
        }
        if total > self.cap {
            for z in [0, 7, 8, 9] {
                w[z] = 0;
            }
            w[12] += 6;
            w[11] += 2;
        }
        if self.docs > 5 || self.h.len() > 45 {
            w[0] = 0;
        }
        if self.h.len() > 30 {
            w[18] += 10;
            w[2] /= 3;
        }
        let client = 1 + r.below(3) as u32;
        let op = OPS[r.weighted(&w)];
        let kind = |k: K| move |w: &W, x: &Handle| w.m.n[x.m].k == k;
        let near = |r: &mut Rng, d: Option<(u32, u32)>| -> Option<(u32, u32)> {
            match focus {
                Some(f) if r.chance(1, 2) && self.h.contains_key(&f) => Some(f),
                _ => d,
            }
        };
        let h = |a: (u32, u32)| Arg::H(a.0, a.1);
        let any = self.pick(r, |_, _| true);
        let any = near(r, any);
        Some(match op {
            "parse" => {
                let deep = self.cap > 200 && r.chance(1, 3);
                let o = DocOpt {
                    nodes: if deep { r.range(100, self.cap.min(600)) } else { r.range(1, if self.nest > 0 { 8 } else { 36 }) },
                    depth: if deep { r.range(4, 120) } else { r.range(2, 7) },
                    rich: self.rich, adjacent: r.chance(1, 3), plain_names: r.chance(1, 2), scale: if self.nest > 0 || deep { 0 } else { 40 },
                };
                if deep {
                    ctx.cnt[43] += 1;
                }
                let (t, _, _) = refxml::gen_doc(&mut ctx.rng, &o);
                Step::new(op, client, vec![Arg::S(t)])
            }
            "badparse" => {
                let o = DocOpt { nodes: r.range(1, 12), depth: 4, rich: self.rich, adjacent: false, plain_names: true, scale: 20 };
                let (t, _, _) = refxml::gen_doc(&mut ctx.rng, &o);
                let mut c: Vec<char> = t.chars().collect();
                let k = ctx.rng.below(c.len());
                match ctx.rng.below(3) {
                    0 => c.truncate(k),
                    1 => c[k] = *ctx.rng.pick(&['<', '>', '&', '\0', '"', '/']),
                    _ => {
                        c.remove(k);
                    }
                }
                Step::new(op, client, vec![Arg::S(c.into_iter().collect())])
            }
            "nav" => {
                let a = any?;
                let k = r.below(9);
                let ops = ["child", "children", "first", "parent", "root", "rootelem", "attrs", "child", "path"];
                Step::new(ops[k], client, vec![h(a), Arg::N(if k == 8 { r.next() as i64 >> 20 } else { r.below(5) as i64 })])
            }
            "clone" => Step::new(op, client, vec![h(any?)]),
            "qall" | "qfirst" | "qeval" | "each" | "hold" => {
                let size = if total > 250 {
                    *r.pick(&[-1i64, -1, 0, 1])
                } else if op == "each" {
                    *r.pick(&[-1i64, -1, -1, 0, 2])
                } else {
                    *r.pick(&[-1i64, -1, 0, 1, 2, 3, 4, 6])
                };
                let kind = if op == "qeval" || (op == "hold" && r.chance(1, 6)) { r.below(2) as i64 } else { 0 };
                let a = any?;
                let mut v = vec![h(a), Arg::N((r.next() >> 24) as i64), Arg::N(size), Arg::N(kind)];
                if op == "each" {
                    v.push(Arg::N(r.below(2) as i64)); // 1: do not pin the snapshot
                    v.push(Arg::N(if r.chance(1, 5) { r.below(5) as i64 } else { -1 }));
                }
                if op == "hold" {
                    v.push(Arg::N(r.weighted(&[5, 2, 1, 1]) as i64)); // how: sequence, node vector, children, attributes
                }
                // the same query again, at the same node, whatever has changed since
                if r.chance(1, 5) {
                    let again: Vec<&Vec<Arg>> = self.asked.iter().rev().take(5).filter(|q| match q[0] {
                        Arg::H(x, y) => self.h.contains_key(&(x, y)),
                        _ => false,
                    }).collect();
                    if !again.is_empty() {
                        let q = r.pick(&again);
                        if total <= 250 || matches!(q[2], Arg::N(n) if n < 2) {
                            for k in 0..4 {
                                v[k] = q[k].clone();
                            }
                            if op != "qeval" && op != "hold" {
                                v[3] = Arg::N(0);
                            }
                        }
                    }
                } else {
                    self.asked.push(v[..4].to_vec());
                }
                Step::new(op, client, v)
            }
            "append" => {
                let t = self.pick(r, |w, x| matches!(w.m.n[x.m].k, K::Elem | K::Root));
                let t = match near(r, t) {
                    Some(f) if matches!(self.m.n[self.h[&f].m].k, K::Elem | K::Root) => f,
                    _ => t?,
                };
                let s = self.source(r, t, total)?;
                Step::new(op, client, vec![h(t), h(s)])
            }
            "insprev" | "insnext" | "replace" => {
                let t = if r.chance(9, 10) {
                    self.pick(r, |w, x| w.m.n[x.m].k != K::Attr && w.m.parent(x.m).is_some())
                } else {
                    self.pick(r, |w, x| w.m.n[x.m].k != K::Root)
                };
                let t = near(r, t)?;
                if self.m.n[self.h[&t].m].k == K::Root {
                    return None;
                }
                let s = self.source(r, t, total)?;
                Step::new(op, client, vec![h(t), h(s)])
            }
            "delete" => {
                let c = any?;
                let cm = self.h[&c].m;
                let p = if r.chance(1, 2) {
                    self.h.iter().find(|x| Some(x.1.m) == self.m.parent(cm)).map(|x| *x.0)
                } else {
                    self.pick(r, |_, _| true)
                };
                Step::new(op, client, vec![h(p.or(any)?), h(c)])
            }
            "delkid" => {
                let p = self.pick(r, |w, x| !w.m.n[x.m].kids.is_empty());
                let p = near(r, p)?;
                Step::new(op, client, vec![h(p), Arg::N(r.below(self.m.n[self.h[&p].m].kids.len().max(1)) as i64)])
            }
            "setattr" => {
                let e = self.pick(r, kind(K::Elem));
                let e = near(r, e)?;
                let em = self.h[&e].m;
                if self.m.n[em].k != K::Elem {
                    return None;
                }
                let name = if !self.m.n[em].attrs.is_empty() && r.chance(1, 2) {
                    self.m.n[*r.pick(&self.m.n[em].attrs)].name.clone()
                } else if r.chance(1, 6) {
                    r.pick(&["xmlns", "xmlns:n", "xmlns:m", "xsi:nil"]).to_string()
                } else if r.chance(1, 20) {
                    refxml::any_name(r)
                } else {
                    r.pick(&refxml::ANAMES[..]).to_string()
                };
                let v = if name == "xsi:nil" { r.pick(&["true", "true", "false", ""]).to_string() } else { refxml::gen_attr_value(r, self.rich) };
                Step::new(op, client, vec![h(e), Arg::S(name), Arg::S(v)])
            }
            "delattr" => {
                let e = if r.chance(3, 4) { self.pick(r, |w, x| !w.m.n[x.m].attrs.is_empty()) } else { self.pick(r, kind(K::Elem)) };
                let e = near(r, e)?;
                let at = &self.m.n[self.h[&e].m].attrs;
                let name = if !at.is_empty() && r.chance(4, 5) { self.m.n[*r.pick(at)].name.clone() } else { r.pick(&refxml::ANAMES[..]).to_string() };
                Step::new(op, client, vec![h(e), Arg::S(name)])
            }
            "eachbad" | "evalfail" => {
                let a = any?;
                let t = exprgen::bad(r);
                Step::new(op, client, vec![h(a), Arg::S(t)])
            }
            "drop" => Step::new(op, client, vec![h(any?)]),
            "crash" => Step::new(op, client, vec![]),
            "dropdoc" => {
                let a = self.pick(r, |w, x| w.m.parent(x.m).is_some())?;
                Step::new(op, client, vec![h(a)])
            }
            "holda" => {
                let a = any?;
                let t = exprgen::atomic(r);
                Step::new(op, client, vec![h(a), Arg::S(t)])
            }
            "sweep" => Step::new(op, client, vec![]),
            "order" => Step::new(op, client, vec![h(any?)]),
            "twin" => {
                let mut a = any?;
                // the same expression again, at the same node, whatever has changed since
                let again: Vec<&((u32, u32), String)> = self.watch.iter().rev().take(4).filter(|w| self.h.contains_key(&w.0)).collect();
                let pick = if !again.is_empty() && r.chance(1, 4) { Some((*r.pick(&again)).clone()) } else { None };
                let t = match r.below(8) {
                    _ if pick.is_some() => {
                        let (h, t) = pick.clone().unwrap();
                        a = h;
                        t
                    }
                    5 | 6 if !self.texts.is_empty() => {
                        let t = r.pick(&self.texts).clone();
                        exprgen::variant(r, &t)
                    }
                    0 => query::of((r.next() >> 24) as i64, *r.pick(&[-1i64, 2, 4]), 0).show(),
                    1 => query::of((r.next() >> 24) as i64, 3, 1).show(),
                    2 => exprgen::bad(r),
                    _ => exprgen::expr(r),
                };
                if pick.is_none() {
                    self.watch.push((a, t.clone()));
                }
                Step::new(op, client, vec![h(a), Arg::S(t)])
            }
            "save" => {
                let a = if r.chance(1, 2) { self.pick(r, kind(K::Root)).or(any) } else { any };
                let mut f = r.weighted(&[10, 1, 1, 1, 2, 1, 2]) as i64;
                if self.nest > 0 && f != 5 {
                    f = 0;
                }
                Step::new(op, client, vec![h(a?), Arg::N(r.below(3) as i64), Arg::N(f), Arg::N(r.below(2) as i64)])
            }
            "reboot" => Step::new(op, client, vec![]),
            "burst" => {
                let a = any?;
                if self.bursts > 0 || self.m.size(self.m.top(self.h[&a].m)) > 40 {
                    return None;
                }
                let n = *r.pick(&[10i64, 20, 40, 70, 140, 280][..if prop == "C12" { 4 } else { 6 }]);
                let t = if r.chance(1, 3) { exprgen::bad(r) } else { r.pick(&["1 div 0", "//a[", "foo(", "('a' + 1)", "no-such-function(1)", "count(//*)", "."]).to_string() };
                Step::new(op, client, vec![h(a), Arg::N(if prop == "C06" { *r.pick(&[1, 1, 6, 7, 0]) } else { r.below(8) as i64 }), Arg::N(n), Arg::S(t)])
            }
            "wide" => {
                if !r.chance(1, 150) {
                    return None;
                }
                let n = *r.pick(&[300usize, 1000, 1030, 4100, 8200, 16500, 17000, 33000, 33000, 66000]);
                Step::new(op, client, vec![Arg::N((n + r.below(n / 4)) as i64), Arg::N((r.next() >> 24) as i64)])
            }
            "deep" => {
                if !r.chance(1, if prop == "C12" { 500 } else { 1000 }) {
                    return None;
                }
                deep::step(r, client)
            }
            "vast" => {
                if !r.chance(1, match prop.as_str() { "C12" => 40, "C02" | "C03" | "C06" => 250, _ => 120 }) {
                    return None;
                }
                let n = *r.pick(&[200usize, 300, 500, 1000, 1000, 2000, 2000, 4000, 4000, 8000, 16300, 33000, 65500][..if prop == "C12" { 11 } else { 13 }]);
                Step::new(op, client, vec![Arg::N((n + r.below(n / 4)) as i64), Arg::N(r.below(vast::SHAPES) as i64), Arg::N((r.next() >> 24) as i64), Arg::N(r.range(2, 9) as i64)])
            }
            "churn" => {
                let e = self.pick(r, kind(K::Elem))?;
                if self.bursts > 1 || self.m.size(self.m.top(self.h[&e].m)) > 100 {
                    return None;
                }
                let n = if r.chance(1, 60) && prop != "C12" { 65536 } else { *r.pick(&[16i64, 60, 64, 100, 127, 128, 255, 256, 256, 257, 512, 1000, 1024]) };
                let at = self.m.n[self.h[&e].m].attrs.clone();
                let name = if !at.is_empty() && r.chance(1, 2) { self.m.n[*r.pick(&at)].name.clone() } else { "v".to_string() };
                Step::new(op, client, vec![h(e), Arg::N(r.below(5) as i64), Arg::N(n), Arg::S(name)])
            }
            _ => return None,
        })
    }
    /// What to insert: usually small, sometimes the target itself or one of its ancestors.
    fn source(&self, r: &mut Rng, t: (u32, u32), total: usize) -> Option<(u32, u32)> {
        let room = (2 * self.cap).saturating_sub(total);
        let tm = self.h[&t].m;
        if r.chance(1, 6) {
            let ok = self.pick(r, |w, x| {
                matches!(w.m.n[x.m].k, K::Elem | K::Text | K::Comment | K::Pi) && w.m.size(x.m) <= room && w.m.depth(x.m) < 100 && {
                    let mut c = Some(tm);
                    let mut hit = false;
                    while let Some(y) = c {
                        hit |= y == x.m;
                        c = w.m.parent(y);
                    }
                    hit
                }
            });
            if ok.is_some() {
                return ok;
            }
        }
        self.pick(r, |w, x| !matches!(w.m.n[x.m].k, K::Root | K::Attr) && w.m.size(x.m) <= room && w.m.depth(x.m) < 100)
    }

    // ------------------------------------------------------------ execution
    fn get(&self, k: (u32, u32)) -> Option<(NodePtr, usize)> {
        self.h.get(&k).map(|x| (x.real.rc_clone(), x.m))
    }

    fn exec(&mut self, ctx: &mut Ctx, st: &Step) {
        match st.op.as_str() {
            "parse" => {
                if let Ref::Well(m2, r2) = refxml::read(st.s(0)) {
                    let t = st.s(0);
                    match self.call(ctx, "new_document", || new_document(t).map_err(|e| e.to_string())) {
                        Err(e) => {
                            if ctx.prop == "C01" {
                                ctx.fail("parse", &format!("a well-formed document is rejected: {}: {}", e, short(t)));
                            }
                            ctx.skip("a well-formed document is rejected")
                        }
                        Ok(d) => {
                            let i = self.m.import(&m2, r2);
                            // what parsing gives is C08's business: a different tree ends the run
                            if let Err(_) = self.walk(ctx, &d, i) {
                                ctx.skip("the parsed tree differs from the reference");
                            }
                            self.add((st.id, 0), st.actor, d, i);
                            self.docs += 1;
                        }
                    }
                }
            }
            "badparse" => {
                let t = st.s(0);
                match lib(|| new_document(t).is_ok()) {
                    Ok(b) => ctx.observe(&format!("badparse {}", b)),
                    Err(_) => ctx.observe("badparse panic"),
                }
            }
            "child" | "children" | "first" | "parent" | "root" | "rootelem" | "attrs" | "path" => self.nav(ctx, st),
            "clone" => {
                if let Some(x) = self.h.get(&st.h(0)) {
                    let (r, m) = (x.real.rc_clone(), x.m);
                    self.add((st.id, 0), st.actor, r, m);
                }
            }
            "qall" | "qfirst" | "qeval" => self.query(ctx, st),
            "append" | "insprev" | "insnext" | "replace" => {
                if let (Some((t, tm)), Some((s, sm))) = (self.get(st.h(0)), self.get(st.h(1))) {
                    if matches!(self.m.n[sm].k, K::Root | K::Attr) || self.m.size(sm) > 4000 {
                        return;
                    }
                    let tk = self.m.n[tm].k;
                    if st.op == "append" {
                        if !matches!(tk, K::Root | K::Elem) {
                            return;
                        }
                    } else if tk == K::Root {
                        return;
                    }
                    let has = self.m.parent(tm).is_some() && tk != K::Attr;
                    let anc = {
                        let mut c = Some(tm);
                        let mut hit = false;
                        while let Some(y) = c {
                            hit |= y == sm;
                            c = self.m.parent(y);
                        }
                        hit
                    };
                    match st.op.as_str() {
                        "append" => {
                            self.call(ctx, "append_child", || t.append_child(&s));
                            self.m.append(tm, sm);
                        }
                        "insprev" => {
                            self.call(ctx, "insert_as_previous_sibling", || t.insert_as_previous_sibling(&s));
                            self.m.insert_prev(tm, sm);
                        }
                        "insnext" => {
                            self.call(ctx, "insert_as_next_sibling", || t.insert_as_next_sibling(&s));
                            self.m.insert_next(tm, sm);
                        }
                        _ => {
                            self.call(ctx, "replace_with", || t.replace_with(&s));
                            self.m.replace(tm, sm);
                        }
                    }
                    if st.op == "append" || has {
                        self.edits += 1;
                        if anc {
                            ctx.cnt[30] += 1;
                        }
                    } else {
                        ctx.cnt[29] += 1;
                    }
                    self.call(ctx, "drop", move || drop((t, s)));
                }
            }
            "delete" => {
                if let (Some((p, pm)), Some((c, cm))) = (self.get(st.h(0)), self.get(st.h(1))) {
                    self.call(ctx, "delete_child", || p.delete_child(&c));
                    if self.m.kid_index(pm, cm).is_some() {
                        self.edits += 1;
                    } else {
                        ctx.cnt[29] += 1;
                    }
                    self.m.delete_child(pm, cm);
                    self.call(ctx, "drop", move || drop((p, c)));
                }
            }
            "delkid" => {
                if let Some((p, pm)) = self.get(st.h(0)) {
                    let n = self.m.n[pm].kids.len();
                    if n > 0 {
                        let k = st.n(1).unsigned_abs() as usize % n;
                        let cm = self.m.n[pm].kids[k];
                        let c = self.call(ctx, "nth_child", || p.nth_child(k));
                        match c {
                            Some(c) => {
                                self.call(ctx, "delete_child", || {
                                    p.delete_child(&c);
                                    drop(c)
                                });
                                self.m.delete_child(pm, cm);
                                self.edits += 1;
                            }
                            None => self.differs(ctx, "read-nth_child", "nth_child is None within the number of children"),
                        }
                    }
                    self.call(ctx, "drop", move || drop(p));
                }
            }
            "setattr" => {
                if let Some((mut e, em)) = self.get(st.h(0)) {
                    if self.m.n[em].k == K::Elem {
                        let (n, v) = (st.s(1), st.s(2));
                        self.call(ctx, "set_attribute", || e.set_attribute(n, v));
                        self.m.set_attr(em, n, v);
                        self.edits += 1;
                    }
                    self.call(ctx, "drop", move || drop(e));
                }
            }
            "delattr" => {
                if let Some((mut e, em)) = self.get(st.h(0)) {
                    let n = st.s(1);
                    self.call(ctx, "delete_attribute", || e.delete_attribute(n));
                    if self.m.attr_index(em, n).is_some() {
                        self.edits += 1;
                    } else {
                        ctx.cnt[29] += 1;
                    }
                    self.m.del_attr(em, n);
                    self.call(ctx, "drop", move || drop(e));
                }
            }
            "each" => self.each(ctx, st),
            "eachbad" | "evalfail" => self.bad(ctx, st),
            "drop" => {
                let before = self.h.get(&st.h(0)).map(|x| x.m);
                self.drop_handles(ctx, &[st.h(0)]);
                self.held.remove(&st.h(0).0);
                if before.is_some() {
                    self.edits += 1;
                }
            }
            "crash" => {
                let ks: Vec<(u32, u32)> = self.h.iter().filter(|x| x.1.client == st.actor).map(|x| *x.0).collect();
                let hs: Vec<u32> = self.held.iter().filter(|x| x.1.client == st.actor).map(|x| *x.0).collect();
                self.drop_handles(ctx, &ks);
                for k in hs {
                    if let Some(x) = self.held.remove(&k) {
                        self.call(ctx, "drop of a result", move || drop(x.real));
                    }
                }
                self.edits += 1;
            }
            "dropdoc" => {
                if let Some(x) = self.h.get(&st.h(0)) {
                    let mut anc = vec![];
                    let mut c = self.m.parent(x.m);
                    while let Some(p) = c {
                        anc.push(p);
                        c = self.m.parent(p);
                    }
                    let had = anc.len();
                    let xm = x.m;
                    let ks: Vec<(u32, u32)> = self.h.iter().filter(|x| anc.contains(&x.1.m)).map(|x| *x.0).collect();
                    self.drop_handles(ctx, &ks);
                    self.gc();
                    if had > 0 && self.m.parent(xm).is_none() {
                        ctx.cnt[31] += 1;
                        self.edits += 1;
                    }
                }
            }
            "hold" | "holda" => self.hold(ctx, st),
            "sweep" => {
                let deep = matches!(ctx.prop.as_str(), "C01" | "C04" | "C05");
                self.sweep(ctx, deep);
            }
            "order" => self.order(ctx, st),
            "twin" => self.twin(ctx, st),
            "burst" => self.burst(ctx, st),
            "churn" => self.churn(ctx, st),
            "wide" => self.wide(ctx, st),
            "vast" | "deep" => {
                ctx.cnt[59] += 1;
                let before = unsafe { runner::HANG_SKIPS };
                unsafe {
                    runner::HANG_SKIPS = true;
                    runner::LONG_CALLS = true
                };
                if st.op == "vast" {
                    vast::vast(ctx, st);
                } else {
                    deep::deep(ctx, st);
                }
                unsafe {
                    runner::HANG_SKIPS = before;
                    runner::LONG_CALLS = false
                };
            }
            "save" => self.save(ctx, st),
            "reboot" => self.reboot(ctx, st.id),
            _ => {}
        }
    }

    fn nav(&mut self, ctx: &mut Ctx, st: &Step) {
        let (r, m) = match self.get(st.h(0)) {
            Some(x) => x,
            None => return,
        };
        let n = st.n(1).unsigned_abs() as usize;
        let id = st.id;
        let op = st.op.clone();
        let exp: Vec<usize> = match op.as_str() {
            "child" => self.m.n[m].kids.get(n).copied().into_iter().collect(),
            "children" => self.m.n[m].kids.clone(),
            "first" => self.m.n[m].kids.first().copied().into_iter().collect(),
            "parent" => self.m.parent(m).into_iter().collect(),
            "root" => vec![self.m.top(m)],
            "rootelem" => vec![self.m.root_element(m)],
            "path" => vec![],
            _ => self.m.n[m].attrs.clone(),
        };
        if op == "path" {
            // climb, then descend to a node chosen by the number
            let (t, ti) = match self.climb(ctx, &r, m) {
                Ok(x) => x,
                Err(e) => self.differs(ctx, "parent", &e),
            };
            let mut ids = vec![];
            self.m.doc_order(ti, &mut ids);
            let goal = ids[n % ids.len()];
            let mut cur = t;
            let mut ci = ti;
            for (at, k) in self.m.path(goal) {
                let nx = self.call(ctx, "children()", || if at { cur.attributes().into_iter().nth(k) } else { cur.children().into_iter().nth(k) });
                ci = if at { self.m.n[ci].attrs[k] } else { self.m.n[ci].kids[k] };
                cur = match nx {
                    Some(x) => x,
                    None => self.differs(ctx, "content", &format!("a child or attribute is missing: {}", short(&self.m.dump(ti)))),
                };
            }
            self.add((id, 0), st.actor, cur, goal);
            return;
        }
        let got: Vec<NodePtr> = self.call(ctx, &format!("{}()", op), || match op.as_str() {
            "child" => r.nth_child(n).into_iter().collect(),
            "children" => r.children(),
            "first" => r.first_child().into_iter().collect(),
            "parent" => r.parent().into_iter().collect(),
            "root" => vec![r.root()],
            "rootelem" => vec![r.root_element()],
            _ => r.attributes(),
        });
        self.reads += 1;
        if got.len() != exp.len() {
            let b = self.m.dump(m);
            self.differs(ctx, &format!("read-{}", op), &format!("{} of {} gives {} nodes, expected {}", op, short(&b), got.len(), exp.len()));
        }
        for (i, (g, e)) in got.into_iter().zip(exp).enumerate() {
            let (t, nm, v) = self.call(ctx, "reading a node", || (g.node_type(), g.name(), g.value()));
            let x = self.m.n[e].clone();
            if t != ty(x.k) || nm != x.name || v != x.value {
                self.differs(ctx, &format!("read-{}", op), &format!("{} gives {:?} {:?} {:?}, expected {}", op, t, nm, v, short(&self.m.dump(e))));
            }
            ctx.observe(&nm);
            if i < 5 {
                self.add((id, i as u32), st.actor, g, e);
            } else {
                self.call(ctx, "drop", move || drop(g));
            }
        }
    }

    fn query(&mut self, ctx: &mut Ctx, st: &Step) {
        let (r, m) = match self.get(st.h(0)) {
            Some(x) => x,
            None => return,
        };
        let ex = query::of(st.n(1), st.n(2), st.n(3));
        let text = ex.show();
        let judge = matches!(ctx.prop.as_str(), "C02" | "C05" | "C06");
        let mut ev = Ev::new(&self.m, m);
        let exp = ev.eval(&ex, m, 1, 1);
        let cheap = ev.cost < 40_000;
        if exp.is_none() && !cheap {
            ctx.cnt[34] += 1;
            return; // too expensive to run
        }
        if ev.cost > 4_000 || st.n(2) > 0 {
            unsafe { runner::HANG_SKIPS = true };
        }
        if self.m.n[self.m.top(m)].k != K::Root {
            ctx.cnt[35] += 1;
        }
        ctx.observe(&text);
        if st.op == "qeval" {
            let res = match lib(|| r.eval_xpath(&text).map_err(|e| e.to_string())) {
                Ok(x) => x,
                Err(Caught::Panic(p)) => {
                    if exp.is_some() && judge {
                        ctx.fail("query-panic", &format!("eval_xpath({:?}) panicked: {}", text, p));
                    }
                    ctx.cnt[40] += 1;
                    return;
                }
                Err(_) => return,
            };
            match (&res, &exp) {
                (_, None) => ctx.cnt[34] += 1,
                (Err(e), Some(_)) => {
                    if judge {
                        ctx.fail("query-error", &format!("eval_xpath({:?}) fails: {}", text, e));
                    }
                }
                (Ok(s), Some(Val::Bool(b))) => {
                    ctx.cnt[33] += 1;
                    let t = self.call(ctx, "query: to_string", || s.to_string());
                    ctx.observe(&t);
                    if judge && t != if *b { "true" } else { "false" } {
                        let d = self.m.dump(self.m.top(m));
                        ctx.fail("query-value", &format!("eval_xpath({:?}) is {}, expected {}; context {} in {}", text, t, b, short(&self.m.debug(m)), short(&d)));
                    }
                }
                (Ok(_), Some(Val::Num(_))) => {}
                (Ok(s), Some(Val::Int(b))) => {
                    ctx.cnt[33] += 1;
                    let t = self.call(ctx, "query: to_string", || s.to_string());
                    ctx.observe(&t);
                    if judge && t != format!("{}", b) {
                        let d = self.m.dump(self.m.top(m));
                        ctx.fail("query-value", &format!("eval_xpath({:?}) is {}, expected {}; context {} in {}", text, t, b, short(&self.m.debug(m)), short(&d)));
                    }
                }
                (Ok(s), Some(Val::Nodes(v))) => {
                    let got: Vec<Option<NodePtr>> = self.call(ctx, "query: get_item", || (0..s.len()).map(|i| s.get_item(i).as_nodeptr()).collect());
                    if got.iter().any(|x| x.is_none()) {
                        if judge {
                            ctx.fail("query-value", &format!("eval_xpath({:?}) holds an item that is not a node", text));
                        }
                    } else {
                        let g: Vec<NodePtr> = got.into_iter().map(|x| x.unwrap()).collect();
                        let v = v.clone();
                        self.nodes_match(ctx, &r, m, "eval_xpath", &text, &g, &v, judge);
                        self.call(ctx, "drop", move || drop(g));
                    }
                }
            }
            self.call(ctx, "drop", move || drop(res));
        } else if st.op == "qall" {
            let res = match lib(|| r.get_nodeset(&text).map_err(|e| e.to_string())) {
                Ok(x) => x,
                Err(Caught::Panic(p)) => {
                    if exp.is_some() && judge {
                        ctx.fail("query-panic", &format!("get_nodeset({:?}) panicked: {}", text, p));
                    }
                    ctx.cnt[40] += 1;
                    return;
                }
                Err(_) => return,
            };
            match (res, exp) {
                (Ok(v), Some(Val::Nodes(e))) => {
                    let ok = self.nodes_match(ctx, &r, m, "get_nodeset", &text, &v, &e, judge);
                    for (i, (g, x)) in v.into_iter().zip(e).enumerate() {
                        if ok && judge && i < 3 {
                            self.add((st.id, i as u32), st.actor, g, x);
                        } else {
                            self.call(ctx, "drop", move || drop(g));
                        }
                    }
                }
                (Err(e), Some(_)) => {
                    if judge {
                        ctx.fail("query-error", &format!("get_nodeset({:?}) fails: {}", text, e));
                    }
                }
                _ => ctx.cnt[34] += 1,
            }
        } else {
            let res = match lib(|| r.get_first_node(&text)) {
                Ok(x) => x,
                Err(Caught::Panic(p)) => {
                    if exp.is_some() && judge {
                        ctx.fail("query-panic", &format!("get_first_node({:?}) panicked: {}", text, p));
                    }
                    ctx.cnt[40] += 1;
                    return;
                }
                Err(_) => return,
            };
            if let Some(Val::Nodes(e)) = exp {
                let g: Vec<NodePtr> = res.into_iter().collect();
                let e: Vec<usize> = e.into_iter().take(1).collect();
                if self.nodes_match(ctx, &r, m, "get_first_node", &text, &g, &e, judge) && judge {
                    for (g, x) in g.into_iter().zip(e) {
                        self.add((st.id, 0), st.actor, g, x);
                    }
                } else {
                    self.call(ctx, "drop", move || drop(g));
                }
            }
        }
    }

    fn nodes_match(&mut self, ctx: &mut Ctx, r: &NodePtr, m: usize, what: &str, text: &str, got: &[NodePtr], exp: &[usize], judge: bool) -> bool {
        ctx.cnt[33] += 1;
        if !exp.is_empty() {
            ctx.cnt[36] += 1;
        }
        ctx.observe(&format!("{}", got.len()));
        if !judge {
            return false;
        }
        self.reads += 1;
        let map = self.locate(ctx, r, m);
        let ok = got.len() == exp.len() && got.iter().zip(exp).all(|(g, e)| map.get(e) == Some(g));
        if !ok {
            let names: Vec<String> = got
                .iter()
                .map(|g| match map.iter().find(|x| x.1 == g) {
                    Some((i, _)) => format!("{}{:?}", short(&self.m.dump(*i)), self.m.path(*i).iter().map(|x| x.1).collect::<Vec<_>>()),
                    None => "A NODE OUTSIDE THE TREE".to_string(),
                })
                .collect();
            let en: Vec<String> = exp.iter().map(|i| format!("{}{:?}", short(&self.m.dump(*i)), self.m.path(*i).iter().map(|x| x.1).collect::<Vec<_>>())).collect();
            let mut class = "query-order";
            if names.iter().any(|x| x.starts_with("A NODE OUT")) {
                class = "query-foreign";
            } else if got.len() != exp.len() || !exp.iter().all(|e| got.iter().any(|g| map.get(e) == Some(g))) {
                class = "query-selection";
            }
            let d = self.m.dump(self.m.top(m));
            ctx.fail(class, &format!("{}({:?}) from {} gives {:?}, expected {:?} in {}", what, text, short(&self.m.dump(m)), names, en, short(&d)));
        }
        self.call(ctx, "drop", move || drop(map));
        true
    }

    fn order(&mut self, ctx: &mut Ctx, st: &Step) {
        if let Some((r, m)) = self.get(st.h(0)) {
            let map = self.locate(ctx, &r, m);
            let mut ids = vec![];
            self.m.doc_order(self.m.top(m), &mut ids);
            let start = ids.iter().position(|x| *x == m).unwrap_or(0);
            let mut v = Vec::new();
            for k in 0..ids.len() {
                // begin at the handle's own node: its cached order must not be stale
                let j = (start + k) % ids.len();
                let o = self.call(ctx, "query: document_order", || map[&ids[j]].document_order());
                v.push((j, o));
            }
            v.sort();
            for w in v.windows(2) {
                if w[0].1 >= w[1].1 && matches!(ctx.prop.as_str(), "C02" | "C05") {
                    let d = self.m.dump(self.m.top(m));
                    let (a, b) = (short(&self.m.dump(ids[w[0].0])), short(&self.m.dump(ids[w[1].0])));
                    ctx.fail("order", &format!("document_order of {} is {}, of the later {} is {} in {}", a, w[0].1, b, w[1].1, short(&d)));
                }
            }
            self.reads += 1;
            self.call(ctx, "drop", move || drop((map, r)));
        }
    }

    fn each(&mut self, ctx: &mut Ctx, st: &Step) {
        let (r, m) = match self.get(st.h(0)) {
            Some(x) => x,
            None => return,
        };
        let ex = query::of(st.n(1), st.n(2), 0);
        let text = ex.show();
        let mut ev = Ev::new(&self.m, m);
        let exp = match ev.eval(&ex, m, 1, 1) {
            Some(Val::Nodes(v)) => v,
            _ => return,
        };
        if exp.len() > 60 {
            return;
        }
        if ev.cost > 4_000 || st.n(2) > 0 {
            unsafe { runner::HANG_SKIPS = true };
        }
        let judge = ctx.prop == "C06";
        let unpinned = st.n(4) == 1;
        let abort_at = if st.args.len() > 5 { st.n(5) } else { -1 };
        let np = self.pins.len();
        let nm = self.mpins.len();
        if !unpinned {
            let map = self.locate(ctx, &r, m);
            for e in &exp {
                self.pins.push((map[e].rc_clone(), *e));
            }
            ctx.cnt[41] += 1;
            self.call(ctx, "drop", move || drop(map));
        }
        self.mpins.push(m);
        self.mpins.extend_from_slice(&exp);
        let mut visits = 0usize;
        self.nest += 1;
        let res = {
            let w = &mut *self;
            let c = &mut *ctx;
            let exp = &exp;
            let vis = &mut visits;
            lib(move || {
                r.each_node(&text, |n| {
                    let stop = host(|| {
                        let k = *vis;
                        *vis += 1;
                        w.callback(c, st, k, n, exp, unpinned, np, judge);
                        k as i64 == abort_at
                    });
                    if stop {
                        std::panic::panic_any(AbortToken)
                    }
                })
                .map_err(|e| e.to_string())
            })
        };
        self.nest -= 1;
        let text = ex.show();
        match res {
            Ok(Ok(())) => {
                if visits != exp.len() && judge {
                    ctx.fail("each-count", &format!("each_node({:?}) called its callback {} times for {} nodes", text, visits, exp.len()));
                }
            }
            Ok(Err(e)) => {
                if judge {
                    ctx.fail("each-error", &format!("each_node({:?}) fails: {}", text, e));
                }
                ctx.skip("each_node fails");
            }
            Err(Caught::Abort) => {
                ctx.cnt[28] += 1;
            }
            Err(Caught::Panic(p)) => {
                if judge || ctx.prop == "C05" {
                    ctx.fail("panic", &format!("each_node({:?}) panicked: {}", text, p));
                }
                ctx.skip("each_node panicked");
            }
        }
        ctx.observe(&format!("each {}", visits));
        self.reads += visits as u64;
        self.mpins.truncate(nm);
        let old: Vec<(NodePtr, usize)> = self.pins.drain(np..).collect();
        self.call(ctx, "drop", move || drop(old));
        self.gc();
        if judge {
            self.sweep(ctx, false);
        }
    }

    fn callback(&mut self, ctx: &mut Ctx, st: &Step, k: usize, n: NodePtr, exp: &[usize], unpinned: bool, np: usize, judge: bool) {
        ctx.cnt[27] += 1;
        if k >= exp.len() {
            if judge {
                ctx.fail("each-count", &format!("each_node calls its callback more than {} times", exp.len()));
            }
            ctx.skip("each_node visits too much");
        }
        let e = exp[k];
        if unpinned {
            let (t, nm, v, na, nc) = self.call(ctx, "reading a visited node", || (n.node_type(), n.name(), n.value(), n.attributes().len(), n.children().len()));
            let x = &self.m.n[e];
            if t != ty(x.k) || nm != x.name || v != x.value || na != x.attrs.len() || nc != x.kids.len() {
                if judge {
                    let m = format!("visit {} is {:?} {:?} {:?} with {} attributes and {} children, expected {}", k, t, nm, v, na, nc, short(&self.m.dump(e)));
                    ctx.fail("each-node", &m);
                }
                ctx.skip("each_node visits another node");
            }
            self.pins.push((n.rc_clone(), e));
        } else if self.pins[np + k].0 != n {
            if judge {
                let which = self.pins[np..].iter().position(|x| x.0 == n);
                ctx.fail("each-node", &format!("visit {} is not node {} of the snapshot (it is {:?}): expected {}", k, k, which, short(&self.m.dump(e))));
            }
            ctx.skip("each_node visits another node");
        }
        let key = (st.id, k as u32);
        let had = self.h.len();
        self.add(key, st.actor, n, e);
        let me = (st.id, k as u32);
        if ctx.generating() {
            let c = if k < 12 { [0, 1, 1, 2][ctx.rng.below(4)] } else { 0 };
            for _ in 0..c {
                if let Some(mut s) = self.gen_step(ctx, Some(key)) {
                    s.id = ctx.fresh_id();
                    s.within = Some(me);
                    self.step(ctx, s);
                }
            }
        } else {
            for s in ctx.nested(st.id, k as u32) {
                self.step(ctx, s);
            }
        }
        if judge && k % 3 == 0 {
            self.sweep(ctx, false);
        }
        if had > 40 {
            self.drop_handles(ctx, &[key]);
        }
        self.gc();
    }

    fn bad(&mut self, ctx: &mut Ctx, st: &Step) {
        let (r, m) = match self.get(st.h(0)) {
            Some(x) => x,
            None => return,
        };
        let text = st.s(1).to_string();
        if self.m.size(self.m.top(m)) > 150 {
            return;
        }
        if st.op == "eachbad" {
            let mut seen = 0;
            let res = lib(|| r.each_node(&text, |_| seen += 1).is_err());
            match res {
                Ok(true) => {
                    ctx.cnt[39] += 1;
                    if seen > 0 && ctx.prop == "C06" {
                        ctx.fail("each-error", &format!("each_node({:?}) called its callback {} times and then reported an error", text, seen));
                    }
                }
                Ok(false) => {}
                Err(_) => ctx.cnt[40] += 1,
            }
            ctx.observe(&format!("eachbad {}", seen));
        } else {
            match lib(|| r.eval_xpath(&text).map(|s| s.to_string()).map_err(|e| e.to_string())) {
                Ok(Ok(s)) => ctx.observe(&s),
                Ok(Err(e)) => {
                    ctx.cnt[39] += 1;
                    ctx.observe(&e);
                }
                Err(_) => ctx.cnt[40] += 1,
            }
        }
        if matches!(ctx.prop.as_str(), "C06" | "C01") {
            self.sweep(ctx, false);
        }
        self.call(ctx, "drop", move || drop(r));
    }

    fn hold(&mut self, ctx: &mut Ctx, st: &Step) {
        let (r, m) = match self.get(st.h(0)) {
            Some(x) => x,
            None => return,
        };
        if self.held.len() > 12 {
            let k = *self.held.keys().next().unwrap();
            if let Some(x) = self.held.remove(&k) {
                self.call(ctx, "drop of a result", move || drop(x.real));
            }
            self.gc();
        }
        let how = if st.op == "hold" { st.n(4) } else { 0 };
        let text = if st.op == "hold" { query::of(st.n(1), st.n(2), st.n(3)).show() } else { st.s(1).to_string() };
        if st.op == "hold" && how < 2 {
            let ex = query::of(st.n(1), st.n(2), st.n(3));
            let mut ev = Ev::new(&self.m, m);
            let _ = ev.eval(&ex, m, 1, 1);
            if ev.cost >= 40_000 {
                return;
            }
        }
        let real = match how {
            0 => match lib(|| r.eval_xpath(&text).map_err(|e| e.to_string())) {
                Ok(Ok(s)) => HeldReal::Seq(s),
                _ => return,
            },
            1 => match lib(|| r.get_nodeset(&text).map_err(|e| e.to_string())) {
                Ok(Ok(s)) => HeldReal::Vec(s),
                _ => return,
            },
            2 => HeldReal::Vec(self.call(ctx, "children()", || r.children())),
            _ => HeldReal::Vec(self.call(ctx, "attributes()", || r.attributes())),
        };
        let map = self.locate(ctx, &r, m);
        let find = |n: &NodePtr| map.iter().find(|x| x.1 == n).map(|x| *x.0);
        let mut items = Vec::new();
        let mut whole_ok = true;
        match &real {
            HeldReal::Vec(v) => {
                for n in v {
                    match find(n) {
                        Some(i) => items.push(HItem::Node(i, false)),
                        None => return,
                    }
                }
            }
            HeldReal::Seq(s) => {
                let n = self.call(ctx, "len()", || s.len());
                if n > 80 {
                    return;
                }
                let mut parts = vec![];
                for i in 0..n {
                    let (p, t) = self.call(ctx, "get_item()", || {
                        let x = s.get_item(i);
                        (x.as_nodeptr(), x.to_string())
                    });
                    match p {
                        Some(p) => match find(&p) {
                            Some(j) => items.push(HItem::Node(j, t == self.m.debug(j))),
                            None => return,
                        },
                        None => items.push(HItem::Atom(t.clone())),
                    }
                    parts.push(t);
                }
                let t = self.call(ctx, "to_string()", || s.to_string());
                whole_ok = t == whole(&parts);
            }
        }
        self.held.insert(st.id, Held { client: st.actor, real, items, whole: whole_ok });
        self.call(ctx, "drop", move || drop((map, r)));
    }

    // ------------------------------------------------------------ C07
    /// A document another reader of XML would take: one element, no text but white space around it.
    fn savable(&self, i: usize) -> bool {
        let n = &self.m.n[i];
        n.k == K::Root
            && n.kids.iter().filter(|k| self.m.n[**k].k == K::Elem).count() == 1
            && n.kids.iter().enumerate().all(|(j, k)| {
                let x = &self.m.n[*k];
                match x.k {
                    K::Text => j > 0 && x.value.chars().all(|c| " \t\n".contains(c)),
                    K::Decl => j == 0,
                    _ => true,
                }
            })
            && self.decls(i) == n.kids.iter().filter(|k| self.m.n[**k].k == K::Decl).count()
    }
    fn decls(&self, i: usize) -> usize {
        (self.m.n[i].k == K::Decl) as usize + self.m.n[i].kids.iter().map(|k| self.decls(*k)).sum::<usize>()
    }
    fn save(&mut self, ctx: &mut Ctx, st: &Step) {
        let (r, m) = match self.get(st.h(0)) {
            Some(x) => x,
            None => return,
        };
        let map = self.locate(ctx, &r, m);
        let mut what = m;
        if !self.savable(m) && !(self.m.n[m].k == K::Elem && self.decls(m) == 0) {
            what = self.m.root_element(m);
            if self.m.n[what].k != K::Elem || self.decls(what) > 0 {
                return;
            }
        }
        if self.m.n[what].k == K::Root {
            ctx.cnt[45] += 1;
        }
        ctx.cnt[44] += 1;
        let node = map[&what].rc_clone();
        let text = self.call(ctx, "to_string", || node.to_string());
        let again = self.call(ctx, "to_string", || node.to_string());
        if text != again {
            ctx.fail("save", &format!("serialising twice gives {:?} and {:?}", short(&text), short(&again)));
        }
        let ti = self.m.top(m);
        if let Err(e) = self.walk(ctx, &map[&ti].rc_clone(), ti) {
            ctx.fail("save-changed", &format!("serialising changed the document: {}", e));
        }
        self.reads += 1;
        self.call(ctx, "drop", move || drop((map, r, node)));
        ctx.observe(&text);
        let (nm, nr) = if self.m.n[what].k == K::Root {
            self.m.normalised(what)
        } else {
            let mut x = Model::new();
            let root = x.make(K::Root, "", "");
            let (y, yr) = self.m.normalised(what);
            let c = x.import(&y, yr);
            x.push_kid(root, c);
            (x, root)
        };
        // write a temporary file, flush it, rename it over the old one, flush the directory
        let slot = st.n(1);
        let fault = st.n(2);
        let kept = match fault {
            1 | 2 | 3 => false,
            4 => st.n(3) == 1,
            5 => false,
            _ => true,
        };
        if kept {
            self.slots.insert(slot, Slot { text, m: nm, root: nr });
        }
        match fault {
            1..=3 => ctx.cnt[47 + fault as usize] += 1,
            4 => ctx.cnt[if kept { 51 } else { 52 }] += 1,
            5 => ctx.cnt[53] += 1,
            6 => ctx.cnt[54] += 1,
            _ => {}
        }
        if fault != 0 && fault != 5 && self.nest == 0 {
            self.reboot(ctx, st.id);
        }
    }
    /// The process dies; a new one loads what the disk holds.
    fn reboot(&mut self, ctx: &mut Ctx, id: u32) {
        self.drop_everything(ctx);
        self.docs = 0;
        ctx.cnt[46] += 1;
        let keys: Vec<i64> = self.slots.keys().copied().collect();
        for k in keys {
            let s = self.slots.remove(&k).unwrap();
            let t = s.text.clone();
            ctx.cnt[47] += 1;
            let d = match lib(|| new_document(&t).map_err(|e| e.to_string())) {
                Ok(Ok(d)) => d,
                Ok(Err(e)) => ctx.fail("reload-rejected", &format!("a saved document is rejected: {}; text {:?}", e, short(&t))),
                Err(_) => ctx.fail("panic", &format!("loading a saved document panicked: {}; text {:?}", runner::last_panic(), short(&t))),
            };
            let i = self.m.import(&s.m, s.root);
            if let Err(e) = self.walk(ctx, &d, i) {
                let b = self.both(ctx, &d, i);
                ctx.fail("reload", &format!("a saved document reads differently: {}; text {:?}; {}", e, short(&t), b));
            }
            let t2 = self.call(ctx, "to_string", || d.to_string());
            // (an element holding nothing but empty text is written <a></a>, and <a/> once reloaded)
            if t2 != t && t2 != self.m.ser(i) {
                ctx.fail("resave", &format!("saving a reloaded document again gives {:?}, the file held {:?}", short(&t2), short(&t)));
            }
            ctx.observe(&t2);
            self.add((id, k as u32), 1, d, i);
            self.docs += 1;
            self.edits += 1;
            self.slots.insert(k, s);
        }
        self.gc();
    }

    // ------------------------------------------------------------ C03
    fn twin(&mut self, ctx: &mut Ctx, st: &Step) {
        let (r, m) = match self.get(st.h(0)) {
            Some(x) => x,
            None => return,
        };
        let text = st.s(1).to_string();
        let ti = self.m.top(m);
        if self.m.size(ti) > 90 {
            ctx.cnt[38] += 1;
            return;
        }
        let map = self.locate(ctx, &r, m);
        let tk = self.m.n[ti].k;
        // a freshly parsed tree of the same content
        let mut rng = Rng::new(st.id as u64);
        let body = match tk {
            K::Attr => None,
            _ => refxml::write(&self.m, ti, &mut rng, true),
        };
        let xml = match (tk, body) {
            (K::Attr, _) => {
                // written as the attribute of an element
                let mut mm = Model::new();
                let e = mm.make(K::Elem, "z", "");
                let a = mm.make(K::Attr, &self.m.n[ti].name, &self.m.n[ti].value);
                mm.push_attr(e, a);
                refxml::write(&mm, e, &mut rng, true)
            }
            (K::Root | K::Elem, b) => b,
            (_, Some(b)) => Some(format!("<z>{}</z>", b)),
            _ => None,
        };
        let (xml, twin_top) = match xml.and_then(|x| fresh_top(&x, tk).map(|t| (x, t))) {
            Some(x) => x,
            None => {
                ctx.cnt[38] += 1;
                return;
            }
        };
        let tmap = match self.climb(ctx, &twin_top, ti).and_then(|_| self.walk(ctx, &twin_top, ti)) {
            Ok(x) => x,
            Err(_) => {
                ctx.cnt[38] += 1;
                return;
            }
        };
        let a = self.outcome(&r, &text, &map);
        let b = self.outcome(&tmap[&m], &text, &tmap);
        let c = self.outcome(&r, &text, &map);
        if a == "panic" {
            ctx.cnt[40] += 1;
        } else if a.starts_with("error") {
            ctx.cnt[39] += 1;
        }
        ctx.observe(&a);
        self.reads += 1;
        if self.texts.len() < 200 {
            self.texts.push(text.clone());
            let mut ids = vec![];
            self.m.doc_order(ti, &mut ids);
            if let Some(at) = ids.iter().position(|x| *x == m) {
                self.apart.push((Step::new("t", 0, vec![Arg::S(xml), Arg::N(at as i64), Arg::N(top_kind(tk)), Arg::S(text.clone())]), a.clone()));
            }
        }
        let d = short(&self.m.dump(ti));
        let here = short(&self.m.dump(m));
        if a != b {
            ctx.fail("history", &format!("{:?} at {}: here {:?}, in a freshly parsed tree {:?}; {}", text, here, short(&a), short(&b), d));
        }
        if a != c {
            ctx.fail("repeat", &format!("{:?} at {}: first {:?}, then {:?}; {}", text, here, short(&a), short(&c), d));
        }
        for (what, mp) in [("the document", &map), ("the fresh document", &tmap)] {
            match self.walk(ctx, &mp[&ti].rc_clone(), ti) {
                Ok(x) if x.len() == mp.len() && x.iter().all(|y| mp[y.0] == *y.1) => {}
                Ok(_) => ctx.fail("mutated", &format!("evaluating {:?} replaced nodes of {}", text, what)),
                Err(e) => ctx.fail("mutated", &format!("evaluating {:?} changed {}: {}", text, what, e)),
            }
        }
        self.call(ctx, "drop", move || drop((map, tmap, r, twin_top)));
    }

    /// A tree far larger than any other: a few marked elements among thousands, some of them put in
    /// later, and unions of the marks in any order.
    fn wide(&mut self, ctx: &mut Ctx, st: &Step) {
        let n = st.n(0).clamp(1, 100_000) as usize;
        let mut r = Rng::new(st.n(1) as u64);
        unsafe { runner::HANG_SKIPS = false };
        ctx.cnt[59] += 1;
        let marks = r.range(2, 7);
        let mut at: Vec<usize> = (0..marks).map(|_| if r.chance(1, 3) { *r.pick(&[0, n - 1, n / 2, n * 63 / 64]) } else { r.below(n) }).collect();
        at.sort();
        at.dedup();
        let shape = r.below(3);
        let mut t = String::from("<r>");
        let mut order = Vec::new();
        for i in 0..n {
            if at.contains(&i) {
                t += &format!("<m{}/>", i);
                order.push(format!("m{}", i));
            }
            t += match (shape, i % 3) {
                (0, _) => "<c/>",
                (1, 0) => "<c x='1' y='2'/>",
                (1, 1) => "t",
                (1, _) => "<!---->",
                (_, 0) => "<c><d/><d/></c>",
                _ => "<c/>",
            };
        }
        t += "</r>";
        let r0 = self.call(ctx, "parse", || new_document(&t).map(|d| d.root_element()).map_err(|e| e.to_string()));
        let r0 = match r0 {
            Ok(x) => x,
            Err(e) => ctx.skip(&format!("a wide document is rejected: {}", e)),
        };
        for round in 0..3 {
            if round > 0 {
                // put a new mark beside one of the old ones
                let k = r.below(order.len());
                let old = order[k].clone();
                let name = format!("p{}", round);
                let before = r.chance(1, 2);
                let ok = self.call(ctx, "insertion", || {
                    let e = new_document(&format!("<{}/>", name)).unwrap().root_element();
                    match r0.get_first_node(&old) {
                        Some(x) => {
                            if before {
                                x.insert_as_previous_sibling(&e);
                            } else {
                                x.insert_as_next_sibling(&e);
                            }
                            true
                        }
                        None => false,
                    }
                });
                if !ok {
                    ctx.fail("selection", &format!("{:?} selects nothing among {} elements", old, n));
                }
                order.insert(if before { k } else { k + 1 }, name);
            }
            let mut sel: Vec<usize> = (0..order.len()).collect();
            for i in (1..sel.len()).rev() {
                let j = r.below(i + 1);
                sel.swap(i, j);
            }
            let q: Vec<String> = sel.iter().map(|i| order[*i].clone()).collect();
            let q = q.join(" | ");
            let got = self.call(ctx, "query", || r0.get_nodeset(&q).map(|v| v.iter().map(|x| x.name()).collect::<Vec<_>>()).map_err(|e| e.to_string()));
            if got.as_ref().ok() != Some(&order) {
                ctx.fail("order", &format!("{:?} among {} elements: expected {:?}, got {:?}", q, n, order, got));
            }
        }
        self.call(ctx, "drop", move || drop(r0));
    }

    /// The same edit again and again, right after a query.
    fn churn(&mut self, ctx: &mut Ctx, st: &Step) {
        let (mut r, m) = match self.get(st.h(0)) {
            Some(x) => x,
            None => return,
        };
        if self.m.n[m].k != K::Elem || self.m.size(self.m.top(m)) > 200 {
            return;
        }
        self.bursts += 1;
        let n = st.n(2).clamp(0, if st.n(1) == 1 { 2000 } else { 70_000 });
        let a = st.s(3);
        ctx.cnt[58] += n as u64;
        let _ = self.call(ctx, "query", || r.get_nodeset("//node()|//@*").map(|x| x.len()).unwrap_or(0));
        match st.n(1) {
            0 => {
                self.call(ctx, "set_attribute", || {
                    for i in 0..n {
                        r.set_attribute(a, if i % 2 == 0 { "c0" } else { "c1" });
                    }
                });
                for i in (0..n).rev().take(1) {
                    self.m.set_attr(m, a, if i % 2 == 0 { "c0" } else { "c1" });
                }
            }
            1 => {
                // everything put in is taken out again, but for the last one
                let len = self.m.n[m].kids.len();
                self.call(ctx, "append_child and delete_child", || {
                    let d = new_document("<q w='1'/>").unwrap().root_element();
                    for i in 0..n {
                        r.append_child(&d);
                        if i + 1 < n {
                            if let Some(c) = r.nth_child(len) {
                                r.delete_child(&c);
                            }
                        }
                    }
                });
                if n > 0 {
                    let q = self.m.make(K::Elem, "q", "");
                    let w = self.m.make(K::Attr, "w", "1");
                    self.m.push_attr(q, w);
                    self.m.append(m, q);
                }
            }
            2 => {
                self.call(ctx, "delete_attribute", || {
                    for _ in 0..n {
                        r.delete_attribute("none-such");
                    }
                });
            }
            4 => {
                // one edit that matters among many that do not
                let pos = n / 2;
                self.call(ctx, "append_child", || {
                    let d = new_document("<q w='1'/>").unwrap().root_element();
                    for i in 0..n {
                        if i == pos {
                            r.append_child(&d);
                        } else {
                            r.delete_attribute("none-such");
                        }
                    }
                });
                if n > 0 {
                    let q = self.m.make(K::Elem, "q", "");
                    let w = self.m.make(K::Attr, "w", "1");
                    self.m.push_attr(q, w);
                    self.m.append(m, q);
                }
            }
            _ => {
                // a node that is not a child: nothing changes
                let c = r.rc_clone();
                self.call(ctx, "delete_child", || {
                    for _ in 0..n {
                        r.delete_child(&c);
                    }
                    drop(c);
                });
            }
        }
        self.edits += 1;
        self.call(ctx, "drop", move || drop(r));
    }

    /// The same call again and again.
    fn burst(&mut self, ctx: &mut Ctx, st: &Step) {
        let (r, m) = match self.get(st.h(0)) {
            Some(x) => x,
            None => return,
        };
        if self.m.size(self.m.top(m)) > 150 {
            return;
        }
        let t = st.s(3).to_string();
        self.bursts += 1;
        let (mut failed, mut panicked) = (0, 0);
        for i in 0..st.n(2).clamp(0, 1000) {
            ctx.cnt[56] += 1;
            let x = match st.n(1) {
                0 => lib(|| r.eval_xpath(&t).map(|s| s.to_string()).is_err()),
                1 => lib(|| r.each_node("//node()|.", |_| panic!("injected")).is_err()),
                2 => {
                    let t = format!("count(//*) + {}", i);
                    lib(|| r.eval_xpath(&t).map(|s| s.to_string()).is_err())
                }
                3 => {
                    let t = format!("<a{} b='{}'>{}</a{}>", i, i, i, i);
                    lib(|| new_document(&t).map(|d| d.to_string()).is_err())
                }
                4 => {
                    let t = format!("<a{}><b c='{}'>{}", i, i, t);
                    lib(|| new_document(&t).is_err())
                }
                6 => lib(|| r.each_node(&t, |_| ()).is_err()),
                7 => {
                    // iterations within iterations, as deep as the burst is long, every ninth one ending in a panic
                    if i % 9 > 0 || i > 150 {
                        continue;
                    }
                    let mut seen = 0;
                    let x = lib(|| nest(&r, i, i % 2 == 1, &mut seen));
                    if ctx.prop == "C06" && seen != i + 1 {
                        ctx.fail("visits", &format!("{} iterations over '.' within each other: {} callbacks ran, {} expected", i + 1, seen, i + 1));
                    }
                    x.map(|_| false)
                }
                _ => {
                    let t = format!("//*[. = \"{}\"]|//@x{}", i, i);
                    lib(|| r.get_nodeset(&t).is_err())
                }
            };
            match x {
                Ok(b) => failed += b as u32,
                Err(_) => panicked += 1,
            }
        }
        ctx.observe(&format!("burst {} {}", failed, panicked));
        self.call(ctx, "drop", move || drop(r));
    }
    /// Everything evaluated in this run once more, in another order, by a process that has done
    /// nothing else.
    fn fresh_process(&mut self, ctx: &mut Ctx, aside: runner::Aside) {
        let v = std::mem::take(&mut self.apart);
        let q: String = v.iter().rev().map(|x| x.0.to_line() + "\n").collect();
        match aside.ask(q.as_bytes()) {
            Ok(None) => {}
            Err(e) => ctx.fail("history", &format!("a fresh process evaluating the same expressions failed: {}", e)),
            Ok(Some(a)) => {
                let a = String::from_utf8_lossy(&a).to_string();
                for (l, (s, exp)) in a.lines().zip(v.iter().rev()) {
                    let got = Step::parse(l).map(|x| x.s(0).to_string()).unwrap_or_default();
                    if got == "?" {
                        continue;
                    }
                    ctx.cnt[57] += 1;
                    if got != *exp {
                        ctx.fail("history", &format!("{:?} at node {} of {}: here {:?}, in a fresh process {:?}", s.s(3), s.n(1), short(s.s(0)), short(exp), short(&got)));
                    }
                }
            }
        }
    }

    fn outcome(&mut self, r: &NodePtr, text: &str, map: &BTreeMap<usize, NodePtr>) -> String {
        let res = lib(|| {
            r.eval_xpath(text).map_err(|e| e.to_string()).map(|s| {
                let mut v = Vec::new();
                for i in 0..s.len() {
                    let x = s.get_item(i);
                    v.push((x.as_nodeptr(), x.to_string()));
                }
                (s.to_string(), v)
            })
        });
        match res {
            Err(_) => "panic".to_string(),
            Ok(Err(e)) => format!("error {}", e),
            Ok(Ok((s, v))) => {
                let mut o = format!("{} items {}", v.len(), s);
                for (n, t) in v.iter().take(150) {
                    match n {
                        None => {
                            o += " | ";
                            o += t;
                        }
                        Some(n) => match map.iter().find(|x| x.1 == n) {
                            Some((i, _)) => o += &format!(" | node {:?}", self.m.path(*i)),
                            None => o += " | foreign node",
                        },
                    }
                }
                let _ = lib(move || drop(v));
                o
            }
        }
    }
}

fn top_kind(k: K) -> i64 {
    match k {
        K::Root => 0,
        K::Elem => 1,
        K::Attr => 2,
        _ => 3,
    }
}
/// The topmost node of a freshly parsed tree; the document is dropped unless it is that node.
fn fresh_top(xml: &str, tk: K) -> Option<NodePtr> {
    let d = match lib(|| new_document(xml).ok()) {
        Ok(Some(d)) => d,
        _ => return None,
    };
    let t = lib(|| match tk {
        K::Root => Some(d.rc_clone()),
        K::Elem => d.first_child(),
        K::Attr => d.first_child().and_then(|z| z.attributes().into_iter().next()),
        _ => d.first_child().and_then(|z| z.first_child()),
    });
    let _ = lib(move || drop(d));
    t.unwrap_or(None)
}
/// The other side of `fresh_process`.
fn serve(q: &[u8]) -> Vec<u8> {
    let q = String::from_utf8_lossy(q).to_string();
    let mut out = String::new();
    for l in q.lines() {
        let mut res = "?".to_string();
        if let Some(s) = Step::parse(l) {
            if let Ref::Well(m2, r2) = refxml::read(s.s(0)) {
                let mut w = W::new();
                let r2 = w.m.import(&m2, r2);
                let kid = |w: &W, i: usize| w.m.n[i].kids.first().copied();
                let (k, top) = match s.n(2) {
                    0 => (K::Root, Some(r2)),
                    1 => (K::Elem, kid(&w, r2)),
                    2 => (K::Attr, kid(&w, r2).and_then(|z| w.m.n[z].attrs.first().copied())),
                    _ => (K::Text, kid(&w, r2).and_then(|z| kid(&w, z))),
                };
                if let (Some(top), Some(t)) = (top, fresh_top(s.s(0), k)) {
                    w.m.gc(&[top]);
                    let mut ids = vec![];
                    w.m.doc_order(top, &mut ids);
                    if let (Some(m), Some(map)) = (ids.get(s.n(1) as usize), pair(&w.m, top, &t)) {
                        res = w.outcome(&map[m].rc_clone(), s.s(3), &map);
                    }
                }
            }
        }
        out += &Step::new("o", 0, vec![Arg::S(res)]).to_line();
        out += "\n";
    }
    out.into_bytes()
}
/// The nodes of a real tree, by those of the model; None if their numbers differ.
fn pair(m: &Model, mi: usize, r: &NodePtr) -> Option<BTreeMap<usize, NodePtr>> {
    let mut map = BTreeMap::new();
    let mut st = vec![(r.rc_clone(), mi)];
    while let Some((r, i)) = st.pop() {
        let (at, ch) = lib(|| (r.attributes(), r.children())).ok()?;
        if at.len() != m.n[i].attrs.len() || ch.len() != m.n[i].kids.len() {
            return None;
        }
        st.extend(at.into_iter().zip(m.n[i].attrs.iter().copied()));
        st.extend(ch.into_iter().zip(m.n[i].kids.iter().copied()));
        map.insert(i, r);
    }
    Some(map)
}

fn nest(r: &NodePtr, depth: i64, panics: bool, seen: &mut i64) {
    let _ = r.each_node(".", |x| {
        *seen += 1;
        if depth > 0 {
            nest(&x, depth - 1, panics, seen);
        } else if panics {
            panic!("injected");
        }
    });
}

fn whole(parts: &[String]) -> String {
    if parts.len() == 1 {
        parts[0].clone()
    } else {
        format!("({})", parts.join(", "))
    }
}
fn nav_op(op: &str) -> &str {
    match op {
        "child" | "children" | "first" | "parent" | "root" | "rootelem" | "attrs" | "path" => "nav",
        x => x,
    }
}

impl World for Tree {
    fn run(&self, ctx: &mut Ctx) {
        let thorough = ctx.thorough;
        let c = ctx.config("cfg", |r| {
            let big = r.chance(1, if thorough { 12 } else { 25 });
            let n = match r.below(10) {
                0 => r.range(80, if thorough { 400 } else { 160 }),
                1..=3 => r.range(3, 14),
                _ => r.range(12, 60),
            };
            vec![Arg::N(n as i64), Arg::N(if big { 600 } else { *r.pick(&[40, 90, 160]) }), Arg::N(r.below(2) as i64)]
        });
        let (n, cap, rich) = (c.n(0) as usize, c.n(1).max(20) as usize, c.n(2) == 1 || ctx.prop == "C07");
        let mut w = W::new();
        if matches!(ctx.prop.as_str(), "C03" | "C12" | "C13") {
            // arbitrary expressions: time is not what these properties are about
            unsafe { runner::HANG_SKIPS = true };
            w.lax = true;
        }
        w.cap = cap;
        w.rich = rich;
        if ctx.prop == "C12" {
            return leaks(ctx, w, n);
        }
        let aside = if ctx.prop == "C03" { Some(runner::Aside::new(serve)) } else { None };
        w.drive(ctx, n);
        if let Some(a) = aside {
            w.fresh_process(ctx, a);
        }
        if ctx.prop == "C02" {
            // one last look at every tree that is left
            for (k, _, _) in w.tops() {
                let st = Step::new("order", 0, vec![Arg::H(k.0, k.1)]);
                w.order(ctx, &st);
            }
        }
        let deep = matches!(ctx.prop.as_str(), "C01" | "C04" | "C05");
        if ctx.prop == "C07" {
            w.reboot(ctx, u32::MAX - 1);
        } else {
            w.sweep(ctx, deep);
        }
        ctx.nontrivial = w.edits > 0 && w.reads > 0;
        w.drop_everything(ctx);
    }
    fn shrink(&self, s: &Step) -> Vec<Step> {
        let mut out = Vec::new();
        match s.op.as_str() {
            "parse" => {
                if let Ref::Well(m, r) = refxml::read(s.s(0)) {
                    let mut ids = vec![];
                    m.doc_order(r, &mut ids);
                    let mut alts = vec![];
                    for i in ids.iter().skip(1) {
                        let mut c = m.clone();
                        let p = m.n[*i].parent.unwrap();
                        if m.n[*i].k == K::Attr {
                            c.n[p].attrs.retain(|x| x != i);
                        } else {
                            c.n[p].kids.retain(|x| x != i);
                            if m.n[*i].k == K::Elem && m.n[p].k == K::Elem {
                                // hoist the children instead
                                let mut d = m.clone();
                                let at = d.kid_index(p, *i).unwrap();
                                d.n[p].kids.remove(at);
                                for (j, k) in m.n[*i].kids.iter().enumerate() {
                                    d.n[p].kids.insert(at + j, *k);
                                    d.n[*k].parent = Some(p);
                                }
                                alts.push(d);
                            }
                        }
                        alts.push(c);
                        if m.n[*i].value.chars().count() > 1 {
                            let mut c = m.clone();
                            c.n[*i].value = "v".into();
                            alts.push(c);
                        }
                    }
                    for a in alts {
                        if let Some(t) = refxml::write(&a, r, &mut Rng::new(1), true) {
                            if t.len() < s.s(0).len() && matches!(refxml::read(&t), Ref::Well(..)) {
                                let mut x = s.clone();
                                x.args[0] = Arg::S(t);
                                out.push(x);
                            }
                        }
                    }
                }
            }
            "setattr" if s.s(2).len() > 1 => {
                let mut x = s.clone();
                x.args[2] = Arg::S("v".into());
                out.push(x);
            }
            "cfg" => {}
            "wide" => {
                for n in [1, 100, s.n(0) / 2, s.n(0) - s.n(0) / 8, s.n(0) - 1] {
                    if n > 0 && n < s.n(0) {
                        let mut x = s.clone();
                        x.args[0] = Arg::N(n);
                        out.push(x);
                    }
                }
            }
            "deep" => {
                for n in [1, 100, s.n(0) / 2, s.n(0) - s.n(0) / 8, s.n(0) - 1] {
                    if n > 0 && n < s.n(0) {
                        let mut x = s.clone();
                        x.args[0] = Arg::N(n);
                        out.push(x);
                    }
                }
            }
            "vast" => {
                for (k, n) in [(3, s.n(3) - 1), (3, 1), (0, 1), (0, 100), (0, s.n(0) / 2), (0, s.n(0) - s.n(0) / 8), (0, s.n(0) - 1)] {
                    if n > 0 && n < s.n(k) {
                        let mut x = s.clone();
                        x.args[k] = Arg::N(n);
                        out.push(x);
                    }
                }
            }
            "burst" | "churn" => {
                for n in [1, s.n(2) / 2, s.n(2) - 1] {
                    if n > 0 && n < s.n(2) {
                        let mut x = s.clone();
                        x.args[2] = Arg::N(n);
                        out.push(x);
                    }
                }
            }
            "twin" | "evalfail" | "eachbad" => {
                let c: Vec<char> = s.s(1).chars().collect();
                for t in ["1 div 0", "//*", "foo("] {
                    if c.len() > t.len() + 2 {
                        let mut x = s.clone();
                        x.args[1] = Arg::S(t.into());
                        out.push(x);
                    }
                }
                // a parenthesised part instead of the whole
                let mut stack = vec![];
                for (i, ch) in c.iter().enumerate() {
                    if *ch == '(' {
                        stack.push(i);
                    } else if *ch == ')' {
                        if let Some(b) = stack.pop() {
                            if i - b + 1 < c.len() && out.len() < 40 {
                                let mut x = s.clone();
                                x.args[1] = Arg::S(c[b..=i].iter().collect());
                                out.push(x);
                            }
                        }
                    }
                }
            }
            "qall" | "qfirst" | "qeval" | "each" | "hold" => {
                let size = s.n(2);
                for t in [-1i64, 0, 1, 2, 3] {
                    if t < size {
                        for d in [0i64, 1, 2] {
                            let mut x = s.clone();
                            x.args[2] = Arg::N(t);
                            x.args[1] = Arg::N(s.n(1) + d);
                            out.push(x);
                        }
                    }
                }
            }
            _ => {}
        }
        if s.op == "each" && s.args.len() > 5 && s.n(5) >= 0 {
            let mut x = s.clone();
            x.args[5] = Arg::N(-1);
            out.push(x);
        }
        out
    }
    fn counters(&self) -> &'static [&'static str] {
        &NAMES
    }
    fn rule(&self) -> String {
        "runs whose digest of observed results is distinct and that made at least one effective edit or drop and at least one verified read".into()
    }
    fn real_and_stub(&self) -> String {
        "real: the whole library (dom, sax, xpath); simulated: heap (address policy), hash seeds, clock, clients; stub: none".into()
    }
}

/// Compares a real tree with a model tree (for the other worlds).
pub fn compare(ctx: &mut Ctx, real: &NodePtr, m: &Model, root: usize) -> Result<(), String> {
    let mut w = W::new();
    let i = w.m.import(m, root);
    let r = w.walk(ctx, real, i).and_then(|map| {
        for (k, n) in &map {
            if let Some(p) = w.m.parent(*k) {
                match lib(|| n.parent()) {
                    Ok(Some(q)) if q == map[&p] => {}
                    _ => return Err(format!("the parent of {} is wrong", short(&w.m.dump(*k)))),
                }
            }
        }
        Ok(())
    });
    match r {
        Ok(()) => Ok(()),
        Err(e) => Err(format!("{}; {}", e, w.both(ctx, real, i))),
    }
}

// ---------------------------------------------------------------- C12
const PAD: usize = 4000;
/// The same steps with longer attribute values, texts and expressions.
fn pad_steps(v: &[Step]) -> Vec<Step> {
    let pad = "p".repeat(PAD);
    v.iter()
        .map(|s| {
            let mut s = s.clone();
            match s.op.as_str() {
                "parse" => {
                    if let Ref::Well(mut m, r) = refxml::read(s.s(0)) {
                        let mut ids = vec![];
                        m.doc_order(r, &mut ids);
                        let mut left = 20;
                        for i in ids {
                            let x = &m.n[i];
                            let top = x.parent == Some(r);
                            let ok = match x.k {
                                K::Attr => !x.name.starts_with("xmlns"),
                                K::Text | K::Comment => !top,
                                _ => false,
                            };
                            if ok && left > 0 {
                                left -= 1;
                                m.n[i].value.push_str(&pad);
                            }
                        }
                        if let Some(t) = refxml::write(&m, r, &mut Rng::new(1), true) {
                            s.args[0] = Arg::S(t);
                        }
                    }
                }
                "badparse" => s.args[0] = Arg::S(format!("<a b='{}'>{}", pad, s.s(0))),
                "setattr" if !s.s(1).starts_with("xmlns") => s.args[2] = Arg::S(format!("{}{}", s.s(2), pad)),
                "evalfail" | "eachbad" | "holda" => s.args[1] = Arg::S(format!("if (\"{}\") then ({}) else ()", pad, s.s(1))),
                _ => {}
            }
            s
        })
        .collect()
}
fn leaks(ctx: &mut Ctx, mut w: W, n: usize) {
    let live = || unsafe { env::LIVE_BYTES };
    let (cap, rich) = (w.cap, w.rich);
    w.record = Some(Vec::new());
    w.drive(ctx, n);
    ctx.nontrivial = w.edits > 0;
    let steps = w.record.take().unwrap();
    w.drop_everything(ctx);
    drop(w);
    let mut l = vec![live()];
    let padded = if n % 3 == 0 { Some(pad_steps(&steps)) } else { None };
    let saved = std::mem::replace(&mut ctx.mode, Mode::Replay(steps));
    let pos = ctx.pos;
    ctx.quiet = true;
    let pass = |ctx: &mut Ctx, l: &mut Vec<usize>| {
        ctx.pos = 0;
        let mut w = W::new();
        w.cap = cap;
        w.rich = rich;
        w.lax = true;
        w.drive(ctx, 0);
        w.drop_everything(ctx);
        ctx.cnt[42] += 1;
        drop(w);
        l.push(live());
    };
    for _ in 0..3 {
        pass(ctx, &mut l);
    }
    if l[3] > l[1] {
        // a store that grows by doubling does not grow in every pass
        while l.len() < 14 {
            pass(ctx, &mut l);
        }
        let up = l[1..].windows(2).filter(|x| x[1] > x[0]).count();
        if up >= 2 && l[13] > l[1] && l[1..].windows(2).all(|x| x[1] >= x[0]) {
            ctx.fail("leak", &format!("memory in use after repeating the same history and dropping everything: {:?} bytes", l));
        }
    }
    let plain = *l.last().unwrap();
    let mut end = plain;
    if let Some(p) = padded {
        // the same history once more, with larger values and texts of expressions
        ctx.mode = Mode::Replay(p);
        pass(ctx, &mut l);
        end = *l.last().unwrap();
    }
    // a small fixed workload: what is released only now was being held by the library
    let mut low = end;
    for _ in 0..3 {
        let _ = lib(|| {
            if let Ok(d) = new_document("<a/>") {
                let _ = d.eval_xpath(".").map(|s| s.to_string());
                let _ = d.get_nodeset("*").map(|s| s.len());
                let _ = d.each_node("*", |n| drop(n.to_string()));
            }
            if let Ok(d) = new_document("<a x='1' y='2'><b>t</b><b/><c/></a>") {
                let _ = d.eval_xpath("(//b|//@*)[last()]").map(|s| s.to_string());
                let _ = d.eval_xpath("map{'k':1}?k + [2](1)").map(|s| s.to_string());
                let _ = d.eval_xpath("1 div 0").map(|s| s.to_string());
                let _ = d.eval_xpath("//b[").map(|s| s.to_string());
                if let Some(mut a) = d.get_first_node("//a") {
                    for b in a.children() {
                        a.delete_child(&b);
                    }
                    a.set_attribute("x", "3");
                    a.delete_attribute("y");
                }
            }
            let _ = new_document("<a><b>").is_ok();
        });
        low = low.min(live());
    }
    ctx.quiet = false;
    ctx.mode = saved;
    ctx.pos = pos;
    ctx.observe(&format!("{:?} {}", l, low));
    if low < end {
        ctx.fail("retained", &format!("{} bytes were still in use after everything had been dropped, and were released only by a later unrelated workload", end - low));
    }
    if end > plain + 3000 {
        ctx.fail("retained", &format!("memory in use after dropping everything: {} bytes, and {} bytes after the same history with longer values", plain, end));
    }
    unsafe {
        if plain > 1 << 16 && plain > env::PEAK_BYTES / 2 {
            ctx.fail("retained", &format!("{} bytes are in use after everything has been dropped", plain));
        }
    }
}
