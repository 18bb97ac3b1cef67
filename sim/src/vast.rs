//! Trees of thousands of nodes or levels: a few edits, iterations and reads on both the library's
//! tree and the model, then everything compared.

use crate::model::{Model, K};
use crate::rng::Rng;
use crate::runner::{self, host, lib, AbortToken, Caught, Ctx};
use crate::step::Step;
use crate::tree::compare;
use amxml::dom::{new_document, NodePtr};
use amxml::xpath::Sequence;

struct V {
    m: Model,
    tops: Vec<(NodePtr, usize)>,
    kept: Vec<(NodePtr, usize)>,
    r: Rng,
    fresh: usize,
    did: Vec<String>,
}

fn short(s: &str) -> String {
    let n = s.chars().count();
    if n > 300 {
        let a: String = s.chars().take(160).collect();
        let b: String = s.chars().skip(n - 100).collect();
        format!("{}...{}", a, b)
    } else {
        s.to_string()
    }
}

fn call<T>(ctx: &mut Ctx, what: &str, f: impl FnOnce() -> T) -> T {
    match lib(f) {
        Ok(v) => v,
        Err(Caught::Panic(m)) => {
            if matches!(ctx.prop.as_str(), "C01" | "C04" | "C05" | "C06") || (ctx.prop == "C02" && what == "query") || (ctx.prop == "C13" && what == "held") || (ctx.prop == "C07" && what == "to_string") {
                ctx.fail("panic", &format!("{} panicked in a large tree: {}", what, m))
            } else {
                ctx.skip("a library call panicked")
            }
        }
        Err(Caught::Abort) => runner::harness_error("unexpected abort token"),
    }
}
fn differs(ctx: &mut Ctx, class: &str, msg: &str) -> ! {
    if matches!(ctx.prop.as_str(), "C01" | "C04" | "C05" | "C06") {
        ctx.fail(class, msg)
    } else {
        ctx.skip(&format!("the tree itself differs from the model: [{}] {}", class, msg))
    }
}

pub const SHAPES: usize = 6;
/// The document: `n` nodes of a shape. Every name and value in it is its own.
fn build(m: &mut Model, shape: usize, n: usize, r: &mut Rng) -> usize {
    let root = m.make(K::Root, "", "");
    if r.chance(1, 2) {
        let c = m.make(K::Comment, "", "first");
        m.push_kid(root, c);
    }
    let e = m.make(K::Elem, "r", "");
    m.push_kid(root, e);
    let per = r.range(2, 9);
    let mix = r.below(3);
    let leaf = |m: &mut Model, p: usize, i: usize| {
        let last_text = m.n[p].kids.last().map(|k| m.n[*k].k == K::Text).unwrap_or(false);
        let c = match (mix, i % per) {
            (1, 1) if !last_text => m.make(K::Text, "", &format!("t{}", i)),
            (1, 0) => m.make(K::Comment, "", &format!("k{}", i)),
            (2, 1) if !last_text => m.make(K::Text, "", &format!("t{}&<", i)),
            (2, 0) => m.make(K::Pi, "p", &format!("q{}", i)),
            _ => m.make(K::Elem, &format!("e{}", i), ""),
        };
        m.push_kid(p, c);
        if m.n[c].k == K::Elem && i % (per + 1) == 0 {
            let a = m.make(K::Attr, "x", &format!("{}", i));
            m.push_attr(c, a);
            if i % 5 == 0 {
                let a = m.make(K::Attr, "y", "\"");
                m.push_attr(c, a);
            }
        }
        c
    };
    match shape {
        0 => {
            for i in 0..n {
                leaf(m, e, i);
            }
        }
        1 => {
            // one below the other
            let mut p = e;
            for i in 0..n {
                if i % per == 1 {
                    leaf(m, p, n + 2 * i);
                }
                let c = m.make(K::Elem, &format!("e{}", i), "");
                m.push_kid(p, c);
                if i % per == 0 {
                    let a = m.make(K::Attr, "x", &format!("{}", i));
                    m.push_attr(c, a);
                }
                if i % per == 2 {
                    leaf(m, p, n + 2 * i + 1);
                }
                p = c;
            }
        }
        2 => {
            // many attributes
            leaf(m, e, 1);
            let c = m.make(K::Elem, "many", "");
            m.push_kid(e, c);
            for i in 0..n {
                let a = m.make(K::Attr, &format!("a{}", i), &format!("{}", i));
                m.push_attr(c, a);
            }
            leaf(m, e, 2);
        }
        3 => {
            // a random tree
            let mut open = vec![e];
            for i in 0..n {
                let j = if r.chance(1, 3) { open.len() - 1 } else { r.below(open.len()) };
                let c = leaf(m, open[j], i);
                if m.n[c].k == K::Elem && r.chance(1, 2) {
                    open.push(c);
                    if open.len() > 40 {
                        let k = r.below(40);
                        open.swap_remove(k);
                    }
                }
            }
        }
        4 => {
            // many of many
            let w = ((n as f64).sqrt() as usize).max(1);
            for i in 0..w {
                let c = m.make(K::Elem, &format!("g{}", i), "");
                m.push_kid(e, c);
                for j in 0..n / w {
                    leaf(m, c, i * w + j);
                }
            }
        }
        _ => {
            // levels, then breadth at the bottom
            let mut p = e;
            for i in 0..n.min(40) {
                let c = m.make(K::Elem, &format!("d{}", i), "");
                m.push_kid(p, c);
                p = c;
            }
            for i in 0..n {
                leaf(m, p, i);
            }
        }
    }
    root
}

/// The real node at a model node's place, from the top of its tree.
fn go(ctx: &mut Ctx, v: &V, t: &NodePtr, id: usize) -> NodePtr {
    let mut c = t.rc_clone();
    for (at, k) in v.m.path(id) {
        let x = call(ctx, "reading a node", || if at { c.attributes().into_iter().nth(k) } else { c.nth_child(k) });
        c = match x {
            Some(x) => x,
            None => differs(ctx, "content", &format!("after {:?}: a node of a large tree is missing: {} at {} of its parent", v.did, short(&v.m.debug(id)), k)),
        };
    }
    let (n, val) = call(ctx, "reading a node", || (c.name(), c.value()));
    if n != v.m.n[id].name || val != v.m.n[id].value {
        differs(ctx, "content", &format!("after {:?}: a node of a large tree is {:?} {:?}, expected {:?} {:?}", v.did, n, short(&val), v.m.n[id].name, short(&v.m.n[id].value)));
    }
    c
}

/// A node, at the ends or at a round number as often as anywhere.
fn choose(v: &mut V, top: usize, f: impl Fn(&Model, usize) -> bool) -> Option<usize> {
    let mut ids = Vec::new();
    v.m.doc_order(top, &mut ids);
    if v.r.chance(1, 2) {
        // among the children of a node with many
        let p = ids.iter().copied().max_by_key(|i| v.m.n[*i].kids.len()).unwrap();
        let n = v.m.n[p].kids.len();
        if n > 0 {
            let k = match v.r.below(6) {
                0 => 0,
                1 => n - 1,
                2 => *v.r.pick(&[255usize, 256, 257, 1023, 1024, 4095, 4096, 32767, 32768, 65535, 65536]),
                _ => v.r.below(n),
            };
            let c = v.m.n[p].kids[k.min(n - 1)];
            if f(&v.m, c) {
                return Some(c);
            }
        }
    }
    for _ in 0..20 {
        let n = ids.len();
        let k = match v.r.below(8) {
            0 => 0,
            1 => n - 1 - v.r.below(n.min(3)),
            2 => *v.r.pick(&[255usize, 256, 257, 1024, 4096, 32768, 65535, 65536]),
            _ => v.r.below(n),
        };
        if f(&v.m, ids[k.min(n - 1)]) {
            return Some(ids[k.min(n - 1)]);
        }
    }
    None
}

fn is_in(m: &Model, top: usize, mut i: usize) -> bool {
    loop {
        if i == top {
            return true;
        }
        match m.parent(i) {
            Some(p) => i = p,
            None => return false,
        }
    }
}

/// One edit on both sides. `near`: within this subtree only (a callback's node).
fn edit(ctx: &mut Ctx, v: &mut V, budget: usize) {
    let ti = v.r.below(v.tops.len());
    let (t, top) = (v.tops[ti].0.rc_clone(), v.tops[ti].1);
    let kid = |m: &Model, i: usize| m.n[i].k != K::Attr && m.parent(i).is_some();
    let elem = |m: &Model, i: usize| m.n[i].k == K::Elem;
    let op = v.r.weighted(&[4, 3, 3, 3, 4, 3, 2]);
    match op {
        0..=3 => {
            let target = match choose(v, top, if op == 0 { elem } else { kid }) {
                Some(x) => x,
                None => return,
            };
            if op > 0 && v.m.n[v.m.parent(target).unwrap()].k == K::Root {
                return; // the document keeps one root element
            }
            // what to insert: a new small tree, or something of this tree, now and then a large part
            let (s, si) = if v.r.chance(1, 2) {
                let (a, b) = (v.fresh, v.fresh + 1);
                v.fresh += 2;
                let s = call(ctx, "parse", || new_document(&format!("<n{} z='1'><n{}/></n{}>", a, b, a)).map(|d| d.root_element()).map_err(|e| e.to_string()));
                let s = match s {
                    Ok(s) => s,
                    Err(_) => ctx.skip("a small document is rejected"),
                };
                let si = v.m.make(K::Elem, &format!("n{}", a), "");
                let z = v.m.make(K::Attr, "z", "1");
                v.m.push_attr(si, z);
                let k = v.m.make(K::Elem, &format!("n{}", b), "");
                v.m.push_kid(si, k);
                (s, si)
            } else {
                let si = v.r.below(v.tops.len());
                let (st, stop) = (v.tops[si].0.rc_clone(), v.tops[si].1);
                let i = if v.r.chance(1, 3) { v.m.root_element(stop) } else {
                    match choose(v, stop, |m, i| !matches!(m.n[i].k, K::Attr | K::Root | K::Decl)) {
                        Some(i) => i,
                        None => return,
                    }
                };
                if matches!(v.m.n[i].k, K::Root | K::Attr) || v.m.size(i) > budget || v.m.depth(i) + v.m.path(target).len() > 2600 {
                    return;
                }
                (go(ctx, v, &st, i), i)
            };
            let x = go(ctx, v, &t, target);
            let name = ["append_child", "insert_as_previous_sibling", "insert_as_next_sibling", "replace_with"][op];
            v.did.push(format!("{} at {:?} of {}", name, v.m.path(target).last().map(|p| p.1), short(&v.m.debug(si))));
            call(ctx, name, || match op {
                0 => x.append_child(&s),
                1 => x.insert_as_previous_sibling(&s),
                2 => x.insert_as_next_sibling(&s),
                _ => x.replace_with(&s),
            });
            match op {
                0 => v.m.append(target, si),
                1 => v.m.insert_prev(target, si),
                2 => v.m.insert_next(target, si),
                _ => v.m.replace(target, si),
            }
            call(ctx, "drop", move || drop((x, s)));
        }
        4 => {
            let c = match choose(v, top, kid) {
                Some(x) => x,
                None => return,
            };
            let p = v.m.parent(c).unwrap();
            if v.m.n[p].k == K::Root {
                return;
            }
            let (rp, rc) = (go(ctx, v, &t, p), go(ctx, v, &t, c));
            v.did.push(format!("delete_child of {} at {:?}", short(&v.m.debug(c)), v.m.kid_index(p, c)));
            call(ctx, "delete_child", || rp.delete_child(&rc));
            v.m.delete_child(p, c);
            if v.tops.len() < 4 {
                v.tops.push((rc, c));
            } else {
                call(ctx, "drop", move || drop(rc));
            }
        }
        _ => {
            let e = match choose(v, top, elem) {
                Some(x) => x,
                None => return,
            };
            let e = if v.r.chance(1, 2) {
                let mut ids = vec![];
                v.m.doc_order(top, &mut ids);
                ids.into_iter().filter(|i| v.m.n[*i].k == K::Elem).max_by_key(|i| v.m.n[*i].attrs.len()).unwrap_or(e)
            } else {
                e
            };
            let at = v.m.n[e].attrs.clone();
            let name = if !at.is_empty() && v.r.chance(2, 3) {
                let k = if v.r.chance(1, 3) { at.len() - 1 } else { v.r.below(at.len()) };
                v.m.n[at[k]].name.clone()
            } else {
                v.r.pick(&["x", "new", "y"]).to_string()
            };
            let mut x = go(ctx, v, &t, e);
            if op == 5 {
                v.fresh += 1;
                let val = format!("v{}", v.fresh);
                v.did.push(format!("set_attribute {} of {}", name, v.m.n[e].name));
                call(ctx, "set_attribute", || x.set_attribute(&name, &val));
                v.m.set_attr(e, &name, &val);
            } else {
                v.did.push(format!("delete_attribute {} of {}", name, v.m.n[e].name));
                call(ctx, "delete_attribute", || x.delete_attribute(&name));
                v.m.del_attr(e, &name);
            }
            call(ctx, "drop", move || drop(x));
        }
    }
}

fn gc(v: &mut V, more: &[usize]) {
    let pins: Vec<usize> = v.tops.iter().chain(v.kept.iter()).map(|x| x.1).chain(more.iter().copied()).collect();
    v.m.gc(&pins);
}

/// The kept handles: still the nodes they were, at the place the model knows.
fn look(ctx: &mut Ctx, v: &V) {
    for (r, i) in &v.kept {
        let (n, val, par, nk, na) = call(ctx, "reading a node", || (r.name(), r.value(), r.parent(), r.children().len(), r.attributes().len()));
        let x = &v.m.n[*i];
        if n != x.name || val != x.value || nk != x.kids.len() || na != x.attrs.len() {
            differs(ctx, "content", &format!("after {:?}: a handle reads {:?} {:?} with {} children and {} attributes, expected {} with {} and {}", v.did, n, short(&val), nk, na, short(&v.m.debug(*i)), x.kids.len(), x.attrs.len()));
        }
        match (&par, v.m.parent(*i)) {
            (None, None) => {}
            (Some(p), Some(q)) => {
                let (pn, here) = call(ctx, "reading a node", || {
                    let here = match (x.k == K::Attr, &v.m.path(*i).last()) {
                        (true, Some((_, k))) => p.attributes().into_iter().nth(*k),
                        (false, Some((_, k))) => p.nth_child(*k),
                        _ => None,
                    };
                    (p.name(), here)
                });
                if pn != v.m.n[q].name || here.as_ref() != Some(r) {
                    differs(ctx, "parent", &format!("after {:?}: {} is not where it should be under its parent {:?}", v.did, short(&v.m.debug(*i)), pn));
                }
            }
            _ => differs(ctx, "parent", &format!("after {:?}: parent() of {} is {:?}, expected {:?}", v.did, short(&v.m.debug(*i)), par.map(|p| p.name()), v.m.parent(*i).map(|q| v.m.n[q].name.clone()))),
        }
        let t = v.m.top(*i);
        let (root, re) = call(ctx, "reading a node", || (r.root(), r.root_element()));
        if let Some(x) = v.tops.iter().find(|x| x.1 == t) {
            if x.0 != root {
                differs(ctx, "root", &format!("after {:?}: root() of {} is not the top of its tree", v.did, short(&v.m.debug(*i))));
            }
        }
        let e = v.m.root_element(t);
        let n = call(ctx, "reading a node", || re.name());
        if n != v.m.n[e].name {
            differs(ctx, "root", &format!("after {:?}: root_element() of {} is {:?}, expected {:?}", v.did, short(&v.m.debug(*i)), n, v.m.n[e].name));
        }
    }
}

/// Selections whose value the model knows from the order of the nodes.
fn asks(v: &mut V, top: usize) -> Option<(String, String)> {
    let mut ids = Vec::new();
    v.m.doc_order(top, &mut ids);
    let el: Vec<usize> = ids.iter().copied().filter(|i| v.m.n[*i].k == K::Elem).collect();
    if el.is_empty() || v.m.n[top].k != K::Root {
        return None;
    }
    let once = |m: &Model, i: usize| el.iter().filter(|x| m.n[**x].name == m.n[i].name).count() == 1;
    let pick = |v: &mut V| -> usize {
        let n = el.len();
        let k = match v.r.below(5) {
            0 => 0,
            1 => n - 1,
            2 => *v.r.pick(&[255usize, 256, 257, 1024, 4096, 32768, 65535, 65536]),
            _ => v.r.below(n),
        };
        el[k.min(n - 1)]
    };
    let a = pick(v);
    if !once(&v.m, a) {
        return None;
    }
    let an = v.m.n[a].name.clone();
    let pos = ids.iter().position(|x| *x == a).unwrap();
    let other: Vec<usize> = ids.iter().copied().filter(|i| v.m.n[*i].k != K::Attr && *i != top).collect();
    Some(match v.r.below(11) {
        0 => ("count(//*)".into(), el.len().to_string()),
        1 => ("count(//node())".into(), other.len().to_string()),
        2 => ("count(//@*)".into(), ids.iter().filter(|i| v.m.n[**i].k == K::Attr).count().to_string()),
        3 => {
            let k = el.iter().position(|x| *x == a).unwrap();
            (format!("name((//*)[{}])", k + 1), an)
        }
        4 => ("name((//*)[last()])".into(), v.m.n[*el.last().unwrap()].name.clone()),
        5 => {
            let mut anc = 0;
            let mut c = v.m.parent(a);
            while let Some(p) = c {
                anc += (v.m.n[p].k == K::Elem) as usize;
                c = v.m.parent(p);
            }
            (format!("count(//{}/ancestor::*)", an), anc.to_string())
        }
        6 => {
            let n = ids[pos..].iter().filter(|i| v.m.n[**i].k == K::Elem && !is_in(&v.m, a, **i)).count();
            (format!("count(//{}/following::*)", an), n.to_string())
        }
        7 => {
            let n = ids[..pos].iter().filter(|i| v.m.n[**i].k == K::Elem && !is_in(&v.m, **i, a)).count();
            (format!("count(//{}/preceding::*)", an), n.to_string())
        }
        8 => {
            let p = v.m.parent(a)?;
            let k = v.m.kid_index(p, a)?;
            if v.r.chance(1, 2) {
                (format!("count(//{}/preceding-sibling::node())", an), k.to_string())
            } else {
                (format!("count(//{}/following-sibling::node())", an), (v.m.n[p].kids.len() - k - 1).to_string())
            }
        }
        9 => {
            let b = pick(v);
            if !once(&v.m, b) {
                return None;
            }
            let o = ids.iter().position(|x| *x == b).unwrap();
            match v.r.below(3) {
                0 => (format!("//{} << //{}", an, v.m.n[b].name), (pos < o).to_string()),
                1 => (format!("//{} is //{}", an, v.m.n[b].name), (pos == o).to_string()),
                _ => (format!("//{} >> //{}", an, v.m.n[b].name), (pos > o).to_string()),
            }
        }
        _ => {
            let b = pick(v);
            let c = pick(v);
            if !once(&v.m, b) || !once(&v.m, c) {
                return None;
            }
            let mut s = vec![a, b, c];
            let t: Vec<String> = s.iter().map(|x| format!("//{}", v.m.n[*x].name)).collect();
            s.sort_by_key(|x| ids.iter().position(|y| y == x));
            s.dedup();
            let e: Vec<String> = s.iter().map(|x| v.m.n[*x].name.clone()).collect();
            (format!("string-join(({})/name(.), ' ')", t.join(" | ")), e.join(" "))
        }
    })
}

/// Iterates over many nodes, editing at a few of them.
fn iterate(ctx: &mut Ctx, v: &mut V, budget: usize) {
    let ti = v.r.below(v.tops.len());
    let (t, top) = (v.tops[ti].0.rc_clone(), v.tops[ti].1);
    if v.m.n[top].k != K::Root {
        return;
    }
    let mut ids = Vec::new();
    v.m.doc_order(top, &mut ids);
    let kind = v.r.below(4);
    let q = ["//*", "//node()", "//@*", "//* | //@*"][kind];
    let exp: Vec<usize> = ids.into_iter().filter(|i| *i != top && match (kind, v.m.n[*i].k) {
        (0, K::Elem) => true,
        (0, _) => false,
        (1, k) => k != K::Attr,
        (2, k) => k == K::Attr,
        (_, k) => matches!(k, K::Elem | K::Attr),
    }).collect();
    if exp.is_empty() {
        return;
    }
    let judge = ctx.prop == "C06";
    let mut at: Vec<usize> = (0..v.r.range(0, 4)).map(|_| v.r.below(exp.len())).collect();
    if v.r.chance(1, 3) {
        at.push(exp.len() - 1);
    }
    let stop_at = if v.r.chance(1, 6) { Some(v.r.below(exp.len())) } else { None };
    let mut seen = 0usize;
    let res = {
        let (c, vv, seen, exp, at) = (&mut *ctx, &mut *v, &mut seen, &exp, &at);
        lib(move || {
            t.each_node(q, |n| {
                let stop = host(|| {
                    let k = *seen;
                    *seen += 1;
                    if k >= exp.len() {
                        if c.prop == "C06" {
                            c.fail("each-count", &format!("each_node({:?}) visits more than {} nodes of a large tree", q, exp.len()));
                        }
                        c.skip("each_node visits too much");
                    }
                    let x = &vv.m.n[exp[k]];
                    let (nm, val) = call(c, "reading a visited node", || (n.name(), n.value()));
                    if nm != x.name || val != x.value {
                        if c.prop == "C06" {
                            c.fail("each-order", &format!("visit {} of each_node({:?}) in a large tree is {:?} {:?}, expected {:?} {:?}", k, q, nm, val, x.name, x.value));
                        }
                        c.skip("each_node visits another node");
                    }
                    if at.contains(&k) {
                        edit(c, vv, budget);
                        gc(vv, exp);
                    }
                    call(c, "drop", move || drop(n));
                    stop_at == Some(k)
                });
                if stop {
                    std::panic::panic_any(AbortToken)
                }
            })
            .map_err(|e| e.to_string())
        })
    };
    v.did.push(format!("each_node {:?}", q));
    match res {
        Ok(Ok(())) => {
            if seen != exp.len() && judge {
                ctx.fail("each-count", &format!("each_node({:?}) called its callback {} times for {} nodes", q, seen, exp.len()));
            }
        }
        Ok(Err(e)) => {
            if judge {
                ctx.fail("each-error", &format!("each_node({:?}) fails in a large tree: {}", q, e));
            }
            ctx.skip("each_node fails");
        }
        Err(Caught::Abort) => {}
        Err(Caught::Panic(p)) => {
            if judge || ctx.prop == "C05" {
                ctx.fail("panic", &format!("each_node({:?}) panicked in a large tree: {}", q, p));
            }
            ctx.skip("each_node panicked");
        }
    }
    gc(v, &[]);
}

struct Kept {
    vec: Vec<NodePtr>,
    seq: Sequence,
    ids: Vec<usize>,
}
fn check_kept(ctx: &mut Ctx, v: &V, h: &Kept) {
    if h.vec.len() != h.ids.len() {
        ctx.fail("held-length", "a held vector of many nodes changed its length");
    }
    let n = call(ctx, "held", || h.seq.len());
    if n != h.ids.len() {
        ctx.fail("held-length", &format!("after {:?}: a held result of {} items has {}", v.did, h.ids.len(), n));
    }
    for (k, i) in h.ids.iter().enumerate() {
        let x = &v.m.n[*i];
        if k % 97 != 0 && k > 20 && k + 20 < n && n > 3000 {
            continue;
        }
        let (a, b, na, val, t) = call(ctx, "held", || {
            let it = h.seq.get_item(k);
            (h.vec[k].rc_clone(), it.as_nodeptr(), h.vec[k].name(), h.vec[k].value(), it.to_string())
        });
        if b.as_ref() != Some(&a) || na != x.name || (x.k != K::Attr && val != x.value) {
            ctx.fail("held-identity", &format!("after {:?}: item {} of a held result of {} is another node: {:?} {:?}, expected {}", v.did, k, n, na, val, short(&v.m.debug(*i))));
        }
        let e = v.m.debug(*i);
        if t != e {
            ctx.fail("held-item", &format!("after {:?}: item {} of a held result of {} reads {:?}, expected {:?}", v.did, k, n, short(&t), short(&e)));
        }
    }
}

pub fn vast(ctx: &mut Ctx, st: &Step) {
    let n = st.n(0).clamp(1, 100_000) as usize;
    let shape = st.n(1).unsigned_abs() as usize % SHAPES;
    let n = match shape {
        1 => n.min(2200),
        2 => n.min(3000),
        _ => n,
    };
    let rounds = st.n(3).clamp(0, 40) as usize;
    let mut v = V { m: Model::new(), tops: vec![], kept: vec![], r: Rng::new(st.n(2) as u64), fresh: 0, did: vec![] };
    let mut br = Rng::new(st.n(2) as u64 ^ 0x5a5a);
    let root = build(&mut v.m, shape, n, &mut br);
    let text = v.m.ser(root);
    let d = call(ctx, "parse", || new_document(&text).map_err(|e| e.to_string()));
    let d = match d {
        Ok(d) => d,
        Err(e) => ctx.skip(&format!("a large document is rejected: {}", e)),
    };
    if let Err(e) = compare(ctx, &d, &v.m, root) {
        if ctx.prop == "C01" {
            ctx.fail("parse", &format!("a large document is read as another tree: {}", e));
        }
        ctx.skip("the parsed tree differs from the reference");
    }
    v.tops.push((d, root));
    for _ in 0..6 {
        if let Some(i) = choose(&mut v, root, |m, i| m.n[i].k != K::Root) {
            let t = v.tops[0].0.rc_clone();
            let x = go(ctx, &v, &t, i);
            v.kept.push((x, i));
        }
    }
    let budget = if v.m.n.len() < 20_000 { 20_000 } else { 80_000 };
    let mut held: Option<Kept> = None;
    let grown = |v: &V| v.m.n.len() > 400_000;
    for _ in 0..rounds {
        if grown(&v) {
            break;
        }
        let t = v.tops[0].0.rc_clone();
        match ctx.prop.as_str() {
            "C06" if v.r.chance(1, 3) => iterate(ctx, &mut v, budget),
            "C13" if held.is_none() && v.m.n[v.tops[0].1].k == K::Root => {
                let mut ids = vec![];
                v.m.doc_order(v.tops[0].1, &mut ids);
                let at = v.r.chance(1, 3);
                ids.retain(|i| if at { v.m.n[*i].k == K::Attr } else { v.m.n[*i].k == K::Elem });
                let q = if at { "//@*" } else { "//*" };
                let got = lib(|| match (t.get_nodeset(q), t.eval_xpath(q)) {
                    (Ok(a), Ok(b)) => Some((a, b)),
                    _ => None,
                });
                if let Ok(Some((vec, seq))) = got {
                    if vec.len() == ids.len() {
                        held = Some(Kept { vec, seq, ids });
                    }
                }
            }
            "C02" | "C03" if v.r.chance(1, 2) => {
                let top = v.tops[0].1;
                if let Some((q, e)) = asks(&mut v, top) {
                    let a = lib(|| t.eval_xpath(&q).map(|s| s.to_string()).map_err(|e| e.to_string()));
                    if ctx.prop == "C02" {
                        match &a {
                            Ok(Ok(s)) if s.trim_matches('"') == e => {}
                            Err(_) => ctx.fail("query-panic", &format!("after {:?}: {:?} panics in a tree of {} nodes", v.did, q, n)),
                            Ok(x) => ctx.fail("query-value", &format!("after {:?}: {:?} in a tree of {} nodes is {:?}, expected {:?}", v.did, q, n, x, e)),
                        }
                    } else {
                        let (nm, nr) = v.m.normalised(top);
                        if nm.same(nr, &v.m, top) {
                            let tx = v.m.ser(top);
                            let b = lib(|| new_document(&tx).map(|d| d.eval_xpath(&q).map(|s| s.to_string()).map_err(|e| e.to_string())).map_err(|e| e.to_string()));
                            let b = match b {
                                Ok(Ok(b)) => Ok(b),
                                Ok(Err(_)) => ctx.skip("a large document is rejected"),
                                Err(_) => Err(()),
                            };
                            let a = a.map_err(|_| ());
                            if a != b {
                                ctx.fail("history", &format!("after {:?}: {:?} in a tree of {} nodes is {:?}, in a fresh tree {:?}", v.did, q, n, a, b));
                            }
                        }
                    }
                }
            }
            "C07" if v.r.chance(1, 4) && v.m.n[v.tops[0].1].k == K::Root => {
                let top = v.tops[0].1;
                let s = call(ctx, "to_string", || t.to_string());
                let (nm, nr) = v.m.normalised(top);
                let d = match lib(|| new_document(&s).map_err(|e| e.to_string())) {
                    Ok(Ok(d)) => d,
                    Ok(Err(e)) => ctx.fail("reload", &format!("after {:?}: the saved text of a tree of {} nodes is rejected: {}", v.did, n, e)),
                    Err(_) => ctx.fail("reload", &format!("after {:?}: reading the saved text of a tree of {} nodes panics", v.did, n)),
                };
                if let Err(e) = compare(ctx, &d, &nm, nr) {
                    ctx.fail("reload", &format!("after {:?}: a tree of {} nodes comes back changed: {}", v.did, n, e));
                }
                // go on with what came back
                let old: Vec<(NodePtr, usize)> = v.tops.drain(..).chain(v.kept.drain(..)).collect();
                call(ctx, "drop", move || drop(old));
                v.m = nm;
                v.tops.push((d, nr));
            }
            _ => edit(ctx, &mut v, budget),
        }
        call(ctx, "drop", move || drop(t));
        let more = held.as_ref().map(|h| h.ids.clone()).unwrap_or_default();
        gc(&mut v, &more);
        look(ctx, &v);
        ctx.observe(&format!("vast {}", v.did.len()));
    }
    if let Some(h) = &held {
        check_kept(ctx, &v, h);
    }
    if ctx.prop == "C05" {
        let tops: Vec<(NodePtr, usize)> = v.tops.drain(..).collect();
        call(ctx, "drop of a large document", move || drop(tops));
        gc(&mut v, &[]);
        v.did.push("drop of the document".into());
        look(ctx, &v);
        let kept = std::mem::take(&mut v.kept);
        for (r, i) in &kept {
            if let Err(e) = compare(ctx, r, &v.m, *i) {
                ctx.fail("content", &format!("after {:?}: {}", v.did, e));
            }
        }
        v.kept = kept;
    }
    for (r, i) in &v.tops {
        let s = call(ctx, "to_string", || r.to_string());
        let e = v.m.ser(*i);
        if s != e {
            let k = s.bytes().zip(e.bytes()).take_while(|x| x.0 == x.1).count();
            let cut = |t: &str| String::from_utf8_lossy(&t.as_bytes()[k.saturating_sub(40).min(t.len())..(k + 80).min(t.len())]).to_string();
            differs(ctx, "to_string", &format!("after {:?}: a tree of {} nodes is written {:?} where {:?} is expected", v.did, n, cut(&s), cut(&e)));
        }
        if let Err(e) = compare(ctx, r, &v.m, *i) {
            differs(ctx, "content", &format!("after {:?}: {}", v.did, e));
        }
    }
    let (tops, kept) = (std::mem::take(&mut v.tops), std::mem::take(&mut v.kept));
    call(ctx, "drop", move || {
        drop(held);
        drop(kept);
        drop(tops)
    });
}
