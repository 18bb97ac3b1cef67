//! Documents nested tens or hundreds of thousands of levels deep: only what needs no recursion on
//! either side (reading, walking down, dropping in pieces); what walks up stays near the top.

use crate::env;
use crate::model::K;
use crate::refxml::{self, Ref};
use crate::rng::Rng;
use crate::runner::{self, lib, Caught, Ctx};
use crate::step::{Arg, Step};
use amxml::dom::{new_document, NodePtr, NodeType};

pub fn step(r: &mut Rng, client: u32) -> Step {
    let n = 1usize << r.range(12, 18);
    Step::new("deep", client, vec![Arg::N((n + r.below(n / 2)) as i64), Arg::N((r.next() >> 24) as i64)])
}

fn text(n: usize, r: &mut Rng) -> String {
    let names = ["a", "b", "long-name", "p:q", "\u{e9}"];
    let kinds = 1 + r.below(5);
    let extra = *r.pick(&[0usize, 0, 2, 50, 1000]);
    let mut pick = Vec::with_capacity(n);
    let mut t = String::new();
    for i in 0..n {
        if t.len() > 1_200_000 {
            break;
        }
        let k = r.below(kinds);
        pick.push(k);
        t.push('<');
        t += names[k];
        if extra > 0 && r.chance(1, extra) {
            t += &format!(" at='{}'", i);
        }
        t.push('>');
        if extra > 0 && r.chance(1, extra) {
            t += ["text", "<!--c-->", "<x/>", "<?pi v?>"][r.below(4)];
        }
    }
    for k in pick.iter().rev() {
        t += "</";
        t += names[*k];
        t.push('>');
        if extra > 0 && r.chance(1, extra) {
            t += ["text", "<!--c-->", "<x/>", "<?pi v?>"][r.below(3)];
        }
    }
    if t.ends_with("text") {
        t.truncate(t.len() - 4);
    }
    t
}
fn damage(t: &mut String, r: &mut Rng) {
    let near_end = r.chance(1, 2);
    let n = t.len();
    let mut at = if near_end { n - 1 - r.below(n.min(40)) } else { r.below(n) };
    while !t.is_char_boundary(at) {
        at -= 1;
    }
    match r.below(6) {
        0 | 1 => t.truncate(at),
        2 => {
            let cut = t[at..].find('<').map(|k| at + k);
            t.truncate(cut.unwrap_or(n));
        }
        3 => t.push_str("</a>"),
        4 => t.insert(at, *r.pick(&['<', '>', '&', '\0', 'z', '/'])),
        _ => {
            t.remove(at);
        }
    }
}
fn call<T>(ctx: &mut Ctx, what: &str, f: impl FnOnce() -> T) -> T {
    match lib(f) {
        Ok(v) => v,
        Err(Caught::Panic(m)) => ctx.fail("panic", &format!("{} panicked in a deep tree: {}", what, m)),
        Err(Caught::Abort) => runner::harness_error("unexpected abort token"),
    }
}

pub fn deep(ctx: &mut Ctx, st: &Step) {
    let n = st.n(0).clamp(1, 500_000) as usize;
    let mut r = Rng::new(st.n(1) as u64);
    let mut t = text(n, &mut r);
    if r.chance(if ctx.prop == "C08" { 2 } else { 1 }, 3) {
        damage(&mut t, &mut r);
    }
    for again in 0..2 {
        let before = unsafe { env::LIVE_BYTES };
        once(ctx, n, &t, &mut Rng::new(st.n(1) as u64 ^ 77));
        let after = unsafe { env::LIVE_BYTES };
        if again == 1 && ctx.prop == "C12" && after > before {
            ctx.fail("leak", &format!("after parsing, walking and dropping a document of {} levels {} more bytes are in use", n, after - before));
        }
        if ctx.prop != "C12" {
            break;
        }
    }
}

fn once(ctx: &mut Ctx, n: usize, t: &str, r: &mut Rng) {
    let expect = refxml::read(t);
    let got = call(ctx, "parsing", || new_document(t).map_err(|e| e.to_string().len()));
    let doc = match (&expect, got) {
        (Ref::Reject(why), Ok(d)) => {
            if ctx.prop == "C08" {
                ctx.fail("accepted", &format!("a text of {} levels that {} is accepted", n, why));
            }
            call(ctx, "drop", move || drop(d));
            return;
        }
        (Ref::Well(..), Err(_)) => {
            if ctx.prop == "C08" {
                ctx.fail("refused", &format!("a well-formed text of {} levels is rejected", n));
            }
            return;
        }
        (_, Err(_)) => {
            ctx.observe("deep rejected");
            return;
        }
        (_, Ok(d)) => d,
    };
    ctx.observe("deep accepted");
    // down the chain, level by level, against the reference tree
    let mut kept: Vec<NodePtr> = vec![];
    let mut high = 0; // so many of them are near the top
    let keep = 1 + r.below(4);
    let mut levels = 0usize;
    if let Ref::Well(m, root) | Ref::Lenient(m, root) = &expect {
        let (mut i, mut x) = (*root, doc.rc_clone());
        loop {
            let kids = call(ctx, "children", || x.children());
            let want = &m.n[i].kids;
            let bad = |ctx: &mut Ctx, what: &str| {
                if ctx.prop == "C08" {
                    ctx.fail("tree", &format!("a text of {} levels is read as another tree: {} at level {}", n, what, levels))
                }
                ctx.skip("the tree itself differs from the model")
            };
            if kids.len() != want.len() {
                bad(ctx, "number of children");
            }
            let at: Vec<String> = call(ctx, "attributes", || x.attributes().iter().map(|a| a.value()).collect());
            if at.len() != m.n[i].attrs.len() || at.iter().zip(&m.n[i].attrs).any(|(a, b)| *a != m.n[*b].value) {
                bad(ctx, "attributes");
            }
            let mut next = None;
            for (k, j) in kids.into_iter().zip(want) {
                let (nm, v, el) = call(ctx, "name", || (k.name(), k.value(), k.node_type() == NodeType::Element));
                let w = &m.n[*j];
                if el != (w.k == K::Elem) || (el && nm != w.name) || (!el && v != w.value) {
                    bad(ctx, "a child");
                }
                if el && (!w.kids.is_empty() || next.is_none()) {
                    next = Some((*j, k));
                }
            }
            match next {
                Some((j, k)) => {
                    levels += 1;
                    if levels < 400 && kept.len() < keep && r.chance(1, 100) {
                        kept.push(k.rc_clone());
                        high += 1;
                    } else if r.chance(2, 1 + n) {
                        kept.push(k.rc_clone());
                    }
                    if m.n[j].kids.is_empty() {
                        kept.push(k.rc_clone());
                    }
                    i = j;
                    x = k;
                }
                None => break,
            }
        }
    }
    if ctx.prop == "C08" || kept.is_empty() {
        call(ctx, "drop", move || drop((doc, kept)));
        return;
    }
    // pieces go, from above, from the middle or from below
    let mut roots = vec![doc];
    for _ in 0..1 + r.below(4) {
        let k = r.below(kept.len());
        let h = kept[k].rc_clone();
        match r.below(3) {
            0 if k < high => {
                // cut off below the parent
                if let Some(p) = call(ctx, "parent", || h.parent()) {
                    call(ctx, "delete_child", || p.delete_child(&h));
                    if call(ctx, "parent", || h.parent().is_some() || h.root() != h) && ctx.prop == "C05" {
                        ctx.fail("parent", &format!("a deleted node of a tree of {} levels still has a parent", n));
                    }
                }
            }
            1 => {
                call(ctx, "drop", move || drop(h));
                let gone = kept.remove(k);
                high -= (k < high) as usize;
                call(ctx, "drop", move || drop(gone));
                if kept.is_empty() {
                    break;
                }
                continue;
            }
            _ => {
                if let Some(top) = roots.pop() {
                    call(ctx, "drop", move || drop(top));
                }
            }
        }
    }
    let had = !roots.is_empty();
    call(ctx, "drop of a deep document", move || drop(roots));
    // the handles are in order of depth: the first one has nothing above it now
    for (k, h) in kept.iter().enumerate() {
        let (up, name) = call(ctx, "parent", || (h.parent(), h.name()));
        if ctx.prop == "C05" && (name.is_empty() || (k == 0 && (up.is_some() || call(ctx, "root", || h.root()) != *h))) {
            ctx.fail("parent", &format!("after the drop of a tree of {} levels (held until then: {}) a node that is left is not the root of its own tree", n, had));
        }
    }
    // one by one, the upper ones first or last
    while !kept.is_empty() {
        let k = if r.chance(1, 2) { 0 } else { kept.len() - 1 };
        let h = kept.remove(k);
        call(ctx, "drop", move || drop(h));
        if let (Some(h), "C05") = (kept.first(), ctx.prop.as_str()) {
            let h = h.rc_clone();
            if call(ctx, "parent", || h.parent().is_some() || h.root() != h) {
                ctx.fail("parent", &format!("after the drop of the upper part of a tree of {} levels the rest has a parent", n));
            }
        }
    }
}
