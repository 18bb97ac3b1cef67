//! C08: documents on a simulated block device that tears, loses, misdirects and corrupts writes;
//! clients write and read, the machine crashes and restarts.
use crate::deep;
use crate::env;
use crate::refxml::{self, DocOpt, Ref};
use crate::rng::Rng;
use crate::runner::{self, lib, Caught, Ctx, World};
use crate::step::{Arg, Step};
use crate::tree;
use amxml::dom::new_document;
use std::collections::BTreeMap;

pub struct Disk;

const NAMES: [&str; 35] = [
    "documents written", "overwrites", "reads", "read back intact", "damaged but still well-formed, tree verified", "damaged, must be rejected", "damaged, left open by the property",
    "not UTF-8, refused by the client", "empty files", "fault: truncated", "fault: torn write (head of new, tail of old)", "fault: sectors persisted out of order",
    "fault: length not updated", "fault: zero-filled sectors", "fault: sector duplicated", "fault: sectors swapped", "fault: stale sector from another file",
    "fault: bit flips", "fault: bytes lost", "fault: bytes inserted", "fault: appended garbage", "crashes", "several faults on one file",
    "rejected: contains U+0000", "rejected: unclosed elements", "rejected: not closed in order", "rejected: ends inside a tag", "rejected: ends inside another construct",
    "left open, accepted by the library", "left open, rejected by the library", "large documents",
    "malformed, tolerated and read exactly", "malformed, could be tolerated, rejected", "rejected: malformed tag", "documents of 4 000 to 400 000 levels",
];

struct File {
    old: Vec<u8>,
    data: Vec<u8>,
    faults: u32,
}
struct D {
    f: BTreeMap<i64, File>,
    sector: usize,
}

fn b2s(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b);
    let c: Vec<char> = s.chars().collect();
    if c.len() > 500 {
        format!("{}...({} chars)", c[..500].iter().collect::<String>(), c.len())
    } else {
        s.to_string()
    }
}

impl D {
    fn fault(&mut self, ctx: &mut Ctx, st: &Step) {
        let s = self.sector;
        let other: Vec<u8> = {
            let me = st.n(0);
            self.f.iter().filter(|x| *x.0 != me).nth(st.n(4).unsigned_abs() as usize % self.f.len().max(1)).map(|x| x.1.data.clone()).unwrap_or_default()
        };
        let f = match self.f.get_mut(&st.n(0)) {
            Some(f) => f,
            None => return,
        };
        let (a, b) = (st.n(2).unsigned_abs() as usize, st.n(3).unsigned_abs() as usize);
        let n = f.data.len();
        if n == 0 {
            return;
        }
        let secs = (n + s - 1) / s;
        let before = f.data.clone();
        let d = &mut f.data;
        match st.s(1) {
            "trunc" => d.truncate(a % (n + 1)),
            "torn" => {
                // head of the new version, tail of the old one, cut at a sector boundary
                let cut = ((a % (secs + 1)) * s).min(n);
                let mut x = d[..cut].to_vec();
                if f.old.len() > cut {
                    x.extend_from_slice(&f.old[cut..]);
                }
                if b % 2 == 0 && x.len() > n && !f.old.is_empty() {
                    x.truncate(n);
                }
                *d = x;
            }
            "reorder" => {
                // an arbitrary subset of the new version's sectors reached the device
                let mut r = Rng::new(a as u64);
                let len = if b % 2 == 0 { n } else { f.old.len().max(n) };
                let mut x = vec![0u8; len];
                for k in 0..(len + s - 1) / s {
                    let (p, q) = (k * s, ((k + 1) * s).min(len));
                    let from: &[u8] = if r.chance(2, 3) { d } else { &f.old };
                    for i in p..q {
                        x[i] = *from.get(i).unwrap_or(&0);
                    }
                }
                *d = x;
            }
            "meta" => {
                // new data, old length
                let l = f.old.len();
                d.resize(l, 0);
            }
            "zero" => {
                let k = a % secs;
                let m = 1 + b % 2;
                for i in k * s..((k + m) * s).min(n) {
                    d[i] = 0;
                }
            }
            "dup" => {
                let (k, j) = (a % secs, b % secs);
                let src = d[k * s..((k + 1) * s).min(n)].to_vec();
                for (i, c) in src.iter().enumerate() {
                    if j * s + i < n {
                        d[j * s + i] = *c;
                    }
                }
            }
            "swap" => {
                let (k, j) = (a % secs, b % secs);
                for i in 0..s {
                    if k * s + i < n && j * s + i < n {
                        d.swap(k * s + i, j * s + i);
                    }
                }
            }
            "stale" => {
                let k = a % secs;
                for i in k * s..((k + 1) * s).min(n) {
                    if let Some(c) = other.get(i) {
                        d[i] = *c;
                    }
                }
            }
            "flip" => d[a % n] ^= 1 << (b % 7),
            "lose" => {
                let i = a % n;
                let m = (1 + b % 4).min(n - i);
                d.drain(i..i + m);
            }
            "insert" => {
                let i = a % (n + 1);
                d.insert(i, GARBAGE[b % GARBAGE.len()]);
            }
            "append" => {
                // the tail of whatever the blocks held before
                let src: &[u8] = if b % 2 == 0 { &f.old } else { &other };
                if !src.is_empty() {
                    let i = a % src.len();
                    let t = src[i..].to_vec();
                    d.extend_from_slice(&t);
                } else {
                    d.push(GARBAGE[b % GARBAGE.len()]);
                }
            }
            _ => return,
        }
        if f.data != before {
            f.faults += 1;
            ctx.cnt[9 + KINDS.iter().position(|k| *k == st.s(1)).unwrap()] += 1;
            if f.faults > 1 {
                ctx.cnt[22] += 1;
            }
        }
    }
    fn read(&mut self, ctx: &mut Ctx, slot: i64) {
        let (data, faults) = match self.f.get(&slot) {
            Some(f) => (f.data.clone(), f.faults),
            None => return,
        };
        ctx.cnt[2] += 1;
        if data.is_empty() {
            ctx.cnt[8] += 1;
        }
        let text = match String::from_utf8(data) {
            Ok(t) => t,
            Err(_) => {
                ctx.cnt[7] += 1;
                ctx.observe("not utf-8");
                return;
            }
        };
        let expect = refxml::read(&text);
        let base = unsafe {
            env::PEAK_BYTES = env::LIVE_BYTES;
            env::LIVE_BYTES
        };
        let got = match lib(|| new_document(&text).map_err(|e| e.to_string())) {
            Ok(r) => r,
            Err(Caught::Panic(m)) => ctx.fail("panic", &format!("parsing a stored document panicked: {}; {:?}", m, b2s(text.as_bytes()))),
            Err(Caught::Abort) => runner::harness_error("unexpected abort token"),
        };
        let peak = unsafe { env::PEAK_BYTES } - base;
        let bound = 700 * text.len() + 65536;
        if peak > bound {
            ctx.fail("memory", &format!("parsing {} bytes used {} bytes of memory (bound {}); {:?}", text.len(), peak, bound, b2s(text.as_bytes())));
        }
        match (&expect, &got) {
            (Ref::Reject(why), Ok(d)) => {
                let d = d.rc_clone();
                let r = lib(|| d.to_string()).unwrap_or_default();
                ctx.fail("accepted", &format!("a text that {} is accepted: {:?} is read as {:?}", why, b2s(text.as_bytes()), b2s(r.as_bytes())));
            }
            (Ref::Reject(why), Err(_)) => {
                ctx.cnt[5] += 1;
                let k = if why.contains("0000") {
                    23
                } else if why.contains("unclosed") {
                    24
                } else if why.contains("order") || why.contains("without") {
                    25
                } else if why.contains("malformed") || why.contains("without a name") {
                    33
                } else if why.contains("tag") {
                    26
                } else {
                    27
                };
                ctx.cnt[k] += 1;
            }
            (Ref::Well(..), Err(e)) => ctx.fail("refused", &format!("a well-formed text is rejected: {}; {:?}", e, b2s(text.as_bytes()))),
            (Ref::Well(m, r), Ok(d)) => {
                if let Err(e) = tree::compare(ctx, d, m, *r) {
                    ctx.fail("tree", &format!("a well-formed text is read as a different tree: {}; {:?}", e, b2s(text.as_bytes())));
                }
                ctx.cnt[if faults > 0 { 4 } else { 3 }] += 1;
            }
            (Ref::Lenient(m, r), Ok(d)) => {
                if let Err(e) = tree::compare(ctx, d, m, *r) {
                    ctx.fail("tree", &format!("a damaged text is accepted, but not read as it stands: {}; {:?}", e, b2s(text.as_bytes())));
                }
                ctx.cnt[31] += 1;
            }
            (Ref::Lenient(..), Err(_)) => ctx.cnt[32] += 1,
            (Ref::Other, Ok(_)) => {
                ctx.cnt[6] += 1;
                ctx.cnt[28] += 1;
            }
            (Ref::Other, Err(_)) => {
                ctx.cnt[6] += 1;
                ctx.cnt[29] += 1;
            }
        }
        ctx.observe(&match &got {
            Ok(d) => format!("ok {}", lib(|| d.to_string()).unwrap_or_default()),
            Err(e) => format!("error {}", e),
        });
        let _ = lib(move || drop(got));
    }
    fn exec(&mut self, ctx: &mut Ctx, st: &Step) {
        match st.op.as_str() {
            "write" => {
                let b = st.s(1).as_bytes().to_vec();
                ctx.cnt[0] += 1;
                if b.len() > 4000 {
                    ctx.cnt[30] += 1;
                }
                let old = match self.f.remove(&st.n(0)) {
                    Some(f) => {
                        ctx.cnt[1] += 1;
                        f.data
                    }
                    None => vec![],
                };
                self.f.insert(st.n(0), File { old, data: b, faults: 0 });
            }
            "fault" => self.fault(ctx, st),
            "read" => self.read(ctx, st.n(0)),
            "deep" => {
                ctx.cnt[34] += 1;
                unsafe { runner::LONG_CALLS = true };
                deep::deep(ctx, st);
                unsafe { runner::LONG_CALLS = false };
            }
            "crash" => {
                ctx.cnt[21] += 1;
                let k: Vec<i64> = self.f.keys().copied().collect();
                for s in k {
                    self.read(ctx, s);
                }
            }
            _ => {}
        }
    }
}

const KINDS: [&str; 12] = ["trunc", "torn", "reorder", "meta", "zero", "dup", "swap", "stale", "flip", "lose", "insert", "append"];
const GARBAGE: [u8; 18] = [b'<', b'>', b'&', b'"', b'\'', b'/', b'!', b'?', b'-', b']', b' ', b'a', 0, b'=', b'\r', b';', b'[', b'#'];

/// Positions in a text where the reader is inside something.
fn hot(t: &str) -> Vec<usize> {
    let b = t.as_bytes();
    let mut v = Vec::new();
    for i in 0..b.len() {
        if b"<>/\"'!?-[]&;=#".contains(&b[i]) {
            v.push(i);
            v.push(i + 1);
        }
    }
    v.push(b.len());
    v
}

impl World for Disk {
    fn run(&self, ctx: &mut Ctx) {
        let thorough = ctx.thorough;
        let c = ctx.config("cfg", |r| {
            let big = r.chance(1, if thorough { 20 } else { 60 });
            let mask = if r.chance(1, 4) { 0xfff } else { (r.next() & 0xfff).max(1) };
            vec![
                Arg::N(*r.pick(&[8i64, 16, 16, 32, 64, 128, 512])),
                Arg::N(r.range(4, 30) as i64),
                Arg::N(if big { r.range(150, if thorough { 900 } else { 400 }) } else { *r.pick(&[3usize, 6, 12, 25, 50]) } as i64),
                Arg::N(r.below(3) as i64),
                Arg::N(mask as i64),
            ]
        });
        let mut d = D { f: BTreeMap::new(), sector: c.n(0).max(1) as usize };
        if !ctx.generating() {
            while let Some(s) = ctx.next_top() {
                if s.op != "cfg" {
                    ctx.log(&s);
                    d.exec(ctx, &s);
                }
            }
        } else {
            let o = DocOpt { nodes: c.n(2) as usize, depth: 12, rich: c.n(3) > 0, adjacent: c.n(3) > 1, plain_names: c.n(3) == 0, scale: 10 };
            let kinds: Vec<&str> = KINDS.iter().enumerate().filter(|(i, _)| c.n(4) >> i & 1 == 1).map(|x| *x.1).collect();
            let n = c.n(1) as usize;
            let mut k = 0;
            while k < n {
                let slot = ctx.rng.below(3) as i64;
                let mut steps = Vec::new();
                if ctx.rng.chance(1, 30_000) {
                    steps.push(deep::step(&mut ctx.rng, 0));
                } else if !d.f.contains_key(&slot) || ctx.rng.chance(1, 3) {
                    let t = if ctx.rng.chance(1, 5) && !d.f.is_empty() {
                        // another version of a document already there
                        let keys: Vec<i64> = d.f.keys().copied().collect();
                        let kx = *ctx.rng.pick(&keys);
                        match String::from_utf8(d.f[&kx].data.clone()) {
                            Ok(t) => match refxml::read(&t) {
                                Ref::Well(m, r) => refxml::write(&m, r, &mut ctx.rng, false).filter(|t| matches!(refxml::read(t), Ref::Well(..))),
                                _ => None,
                            },
                            _ => None,
                        }
                    } else {
                        None
                    };
                    let t = match t {
                        Some(t) => t,
                        None => refxml::gen_doc(&mut ctx.rng, &o).0,
                    };
                    steps.push(Step::new("write", 0, vec![Arg::N(slot), Arg::S(t)]));
                } else {
                    let m = [1, 1, 1, 1, 2, 2, 3][ctx.rng.below(7)];
                    for _ in 0..m {
                        let kind = *ctx.rng.pick(&kinds);
                        let len = d.f[&slot].data.len();
                        let mut a = ctx.rng.below(4 * len.max(1)) as i64;
                        if matches!(kind, "trunc" | "flip" | "lose" | "insert") && ctx.rng.chance(1, 2) {
                            if let Ok(t) = std::str::from_utf8(&d.f[&slot].data) {
                                a = *ctx.rng.pick(&hot(t)) as i64;
                            }
                        }
                        let b = ctx.rng.below(1 << 16) as i64;
                        let o = ctx.rng.below(3) as i64;
                        steps.push(Step::new("fault", 1, vec![Arg::N(slot), Arg::S(kind.into()), Arg::N(a), Arg::N(b), Arg::N(o)]));
                    }
                    if ctx.rng.chance(1, 10) {
                        steps.push(Step::new("crash", 1, vec![]));
                    } else {
                        steps.push(Step::new("read", 0, vec![Arg::N(slot)]));
                    }
                    // most damaged files are replaced soon, so that faults do not pile up
                    if ctx.rng.chance(4, 5) {
                        let t = refxml::gen_doc(&mut ctx.rng, &o_of(&c)).0;
                        steps.push(Step::new("write", 0, vec![Arg::N(slot), Arg::S(t)]));
                    }
                }
                for mut s in steps {
                    s.id = ctx.fresh_id();
                    ctx.log(&s);
                    d.exec(ctx, &s);
                    k += 1;
                }
            }
        }
        let keys: Vec<i64> = d.f.keys().copied().collect();
        for s in keys {
            d.read(ctx, s);
        }
        ctx.nontrivial = ctx.cnt[9..21].iter().any(|x| *x > 0);
    }
    fn shrink(&self, s: &Step) -> Vec<Step> {
        let mut out = Vec::new();
        if s.op == "write" {
            let t: Vec<char> = s.s(1).chars().collect();
            let n = t.len();
            let mut c = n / 2;
            while c >= 1 {
                let mut i = 0;
                while i + c <= n && out.len() < 400 {
                    let x: String = t[..i].iter().chain(&t[i + c..]).collect();
                    let mut y = s.clone();
                    y.args[1] = Arg::S(x);
                    out.push(y);
                    i += c;
                }
                c /= 2;
            }
        }
        if s.op == "deep" {
            for n in [1, 100, s.n(0) / 2, s.n(0) - s.n(0) / 8, s.n(0) - 1] {
                if n > 0 && n < s.n(0) {
                    let mut x = s.clone();
                    x.args[0] = Arg::N(n);
                    out.push(x);
                }
            }
        }
        if s.op == "fault" {
            for (i, v) in [(3usize, 0i64), (2, 0), (4, 0)] {
                if s.n(i) != v {
                    let mut y = s.clone();
                    y.args[i] = Arg::N(v);
                    out.push(y);
                    let mut y = s.clone();
                    y.args[i] = Arg::N(s.n(i) / 2);
                    out.push(y);
                }
            }
        }
        out
    }
    fn counters(&self) -> &'static [&'static str] {
        &NAMES
    }
    fn rule(&self) -> String {
        "runs whose digest of observed results (accepted text or error of every read) is distinct and in which at least one fault changed stored bytes".into()
    }
    fn real_and_stub(&self) -> String {
        "real: dom and sax; simulated: block device, writer and reader processes, heap, hash seeds, clock; stub: file system (files are byte vectors split into sectors)".into()
    }
}
fn o_of(c: &Step) -> DocOpt {
    DocOpt { nodes: c.n(2) as usize, depth: 12, rich: c.n(3) > 0, adjacent: c.n(3) > 1, plain_names: c.n(3) == 0, scale: 10 }
}
