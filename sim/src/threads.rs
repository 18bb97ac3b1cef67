//! C11: each client thread works on its own documents; the simulator decides every switch between
//! them, the hash seeds, the addresses, the clock and the environment. Every thread's transcript
//! must be the one it has when it runs alone, in a fresh process with another environment.
use crate::env::{self, EnvCfg, Sched};
use crate::exprgen;
use crate::query;
use crate::refxml::{self, DocOpt};
use crate::rng::Rng;
use crate::runner::{self, lib, Ctx, Mode, World};
use crate::saxw;
use crate::step::{Arg, Step};
use amxml::dom::{new_document, NodePtr};
use amxml::sax::SaxDecoder;
use std::sync::{Arc, Mutex};

pub struct Threads;

const NAMES: [&str; 17] = [
    "threads run", "documents parsed", "damaged documents parsed", "expressions evaluated", "edits", "serialisations", "document orders read", "token streams read",
    "iterations", "errors", "panics", "switches at a basic block", "waits on a lock", "hash seedings", "clock reads", "clock jumps", "accesses to static memory (extra scheduling points)",
];

/// The work of one thread. Nothing in here may depend on anything but the steps.
fn work(steps: &[Step]) -> Vec<String> {
    let mut out = Vec::new();
    let mut docs: Vec<NodePtr> = Vec::new();
    let mut dec: Option<SaxDecoder> = None;
    for s in steps {
        let r = one(s, &mut docs, &mut dec);
        out.push(match r {
            Some(t) => t,
            None => "panic".to_string(),
        });
    }
    let _ = lib(move || drop((docs, dec)));
    out
}

fn one(s: &Step, docs: &mut Vec<NodePtr>, dec: &mut Option<SaxDecoder>) -> Option<String> {
    let t = s.s(0);
    if s.op == "parse" {
        return match lib(|| new_document(t).map_err(|e| e.to_string())) {
            Ok(Ok(d)) => {
                docs.push(d);
                if docs.len() > 3 {
                    let d = docs.remove(0);
                    let _ = lib(move || drop(d));
                }
                Some("ok".into())
            }
            Ok(Err(e)) => Some(format!("error {}", e)),
            Err(_) => None,
        };
    }
    if s.op == "sax" {
        let r = lib(|| SaxDecoder::new(t).map_err(|e| e.to_string()));
        return match r {
            Ok(Ok(d)) => {
                *dec = Some(d);
                Some("ok".into())
            }
            Ok(Err(e)) => Some(format!("error {}", e)),
            Err(_) => None,
        };
    }
    if s.op == "tok" {
        let d = match dec.as_mut() {
            Some(d) => d,
            None => return Some("-".into()),
        };
        let n = s.n(0);
        return lib(|| {
            let mut o = String::new();
            for _ in 0..n {
                o += &saxw::show(&d.raw_token().map_err(|e| e.to_string()));
                o.push(' ');
            }
            o
        })
        .ok();
    }
    let k = s.n(s.args.len().saturating_sub(1)).unsigned_abs() as usize;
    let d = match docs.len() {
        0 => return Some("-".into()),
        n => docs[k % n].rc_clone(),
    };
    let r = match s.op.as_str() {
        "eval" => lib(|| match d.eval_xpath(t) {
            Ok(s) => {
                let mut o = format!("{} {}", s.len(), s.to_string());
                for i in 0..s.len().min(12) {
                    o += &format!(" | {}", s.get_item(i).to_string());
                }
                o
            }
            Err(e) => format!("error {} / {:?}", e, e),
        }),
        "nodes" => lib(|| match d.get_nodeset(t) {
            Ok(v) => v.iter().map(|n| format!("{:?}:{}", n, n.to_string())).collect::<Vec<_>>().join(" | "),
            Err(e) => format!("error {} / {:?}", e, e),
        }),
        "order" => lib(|| match d.get_nodeset("//node() | //@*") {
            Ok(v) => v.iter().map(|n| n.document_order().to_string()).collect::<Vec<_>>().join(" "),
            Err(e) => format!("error {}", e),
        }),
        "ser" => lib(|| format!("{} {} {}", d.to_string(), d.to_pretty_string(), d.inner_xml())),
        "edit" => lib(|| {
            let mut n = match d.get_first_node(t) {
                Some(n) => n,
                None => return "no target".to_string(),
            };
            match s.s(1) {
                "set" => n.set_attribute(s.s(2), s.s(3)),
                "del" => n.delete_attribute(s.s(2)),
                "rm" => {
                    if let Some(p) = n.parent() {
                        p.delete_child(&n)
                    }
                }
                x => {
                    if let Some(m) = d.get_first_node(s.s(2)) {
                        if m.to_string().len() < 2000 {
                            match x {
                                "app" => n.append_child(&m),
                                "prev" => n.insert_as_previous_sibling(&m),
                                "next" => n.insert_as_next_sibling(&m),
                                _ => n.replace_with(&m),
                            }
                        }
                    }
                }
            }
            d.to_string()
        }),
        "each" => lib(|| {
            let mut o = String::new();
            let r = d.each_node(t, |n| {
                o += &format!("{:?} ", n);
                let mut n = n.rc_clone();
                n.set_attribute("seen", &o.len().to_string());
            });
            format!("{} {}", o, r.map(|_| "ok".to_string()).unwrap_or_else(|e| e.to_string()))
        }),
        _ => return Some("?".into()),
    };
    let _ = lib(move || drop(d));
    r.ok()
}

const PATHS: [&str; 16] = ["//*", "/*", "//a", "//b", "//c", "//text()", "//comment()", "//@*", "/*/*", "//*[2]", "//*[@id]", "//*[last()]", "/*/*[1]/*", "//item", "//*[not(*)]", "//a/b"];

fn gen(r: &mut Rng, o: &DocOpt, first: bool) -> Step {
    let doc = |r: &mut Rng| {
        let t = refxml::gen_doc(r, o).0;
        if r.chance(1, 8) {
            saxw::damage(r, &t)
        } else {
            t
        }
    };
    let which = Arg::N(r.below(3) as i64);
    if first {
        return Step::new("parse", 0, vec![Arg::S(refxml::gen_doc(r, o).0)]);
    }
    match r.below(20) {
        0 | 1 => Step::new("parse", 0, vec![Arg::S(doc(r))]),
        2 => Step::new("sax", 0, vec![Arg::S(doc(r))]),
        3 => Step::new("tok", 0, vec![Arg::N(1 + r.below(8) as i64)]),
        4..=8 => {
            let t = match r.below(5) {
                0 => exprgen::bad(r),
                1 => exprgen::atomic(r),
                2 => query::make((r.next() >> 24) as i64, 2, 0).show(),
                _ => exprgen::expr(r),
            };
            Step::new("eval", 0, vec![Arg::S(t), which])
        }
        9 | 10 => {
            let t = if r.chance(1, 2) { r.pick(&PATHS[..]).to_string() } else { query::simple((r.next() >> 24) as i64).show() };
            Step::new("nodes", 0, vec![Arg::S(t), which])
        }
        11 | 12 => Step::new("order", 0, vec![Arg::S(String::new()), which]),
        13 => Step::new("ser", 0, vec![Arg::S(String::new()), which]),
        14 => Step::new("each", 0, vec![Arg::S(r.pick(&["//*", "//a", "//b | //c", "/*/*", "//*[@id]"]).to_string()), which]),
        _ => {
            let kind = *r.pick(&["set", "set", "del", "rm", "app", "prev", "next", "repl"]);
            let (a, b) = match kind {
                "set" => (r.pick(&["id", "x", "xmlns", "xmlns:n", "n:k"]).to_string(), r.pick(&["1", "http://n", "a&b<", "é", ""]).to_string()),
                "del" => (r.pick(&["id", "x", "xmlns"]).to_string(), String::new()),
                _ => (r.pick(&PATHS[1..7]).to_string(), String::new()),
            };
            let p = r.pick(&["//*", "/*", "//a", "//b", "//c", "/*/*", "//*[2]", "//*[@id]", "//item"]).to_string();
            Step::new("edit", 0, vec![Arg::S(p), Arg::S(kind.into()), Arg::S(a), Arg::S(b), which])
        }
    }
}

fn sched_str(v: &[(u64, u8)]) -> String {
    // relative block counts keep the line short
    let mut o = String::new();
    let mut last = 0;
    for (e, t) in v {
        o += &format!("{}:{},", e - last, t);
        last = *e;
    }
    o
}
fn parse_sched(s: &str) -> Vec<(u64, u8)> {
    let mut v = Vec::new();
    let mut last = 0u64;
    for p in s.split(',') {
        if let Some((a, b)) = p.split_once(':') {
            if let (Ok(a), Ok(b)) = (a.parse::<u64>(), b.parse::<u8>()) {
                last += a;
                v.push((last, b));
            }
        }
    }
    v
}

fn cut(s: &str) -> String {
    let c: Vec<char> = s.chars().collect();
    if c.len() > 600 {
        format!("{}...", c[..600].iter().collect::<String>())
    } else {
        s.to_string()
    }
}

impl World for Threads {
    fn run(&self, ctx: &mut Ctx) {
        unsafe { runner::HANG_SKIPS = true };
        let thorough = ctx.thorough;
        let c = ctx.config("cfg", |r| {
            vec![
                Arg::N(r.range(2, 4) as i64),
                Arg::N(r.range(4, if thorough { 40 } else { 24 }) as i64),
                Arg::N(*r.pick(&[3i64, 8, 15, 30])),
                Arg::N(r.below(3) as i64),
                Arg::N(*r.pick(&[1i64, 20, 300, 3000, 40000])),
                Arg::N(r.chance(1, 4) as i64),
            ]
        });
        let nt = c.n(0).clamp(2, 4) as usize;
        let mut scripts: Vec<Vec<Step>> = vec![vec![]; nt];
        let mut sched = None;
        if let Mode::Replay(v) = &ctx.mode {
            let v = v.clone();
            for s in v {
                if s.op == "sched" {
                    sched = Some(parse_sched(s.s(0)));
                } else if s.op != "cfg" {
                    ctx.log(&s);
                    scripts[s.actor as usize % nt].push(s);
                }
            }
        } else {
            let o = DocOpt { nodes: c.n(2) as usize, depth: 8, rich: c.n(3) > 0, adjacent: c.n(3) > 1, plain_names: c.n(3) == 0, scale: 40 };
            for a in 0..nt {
                for k in 0..c.n(1) {
                    let mut s = if c.n(5) == 1 && a > 0 {
                        // the same work in every thread
                        scripts[0][k as usize].clone()
                    } else {
                        gen(&mut ctx.rng, &o, k == 0)
                    };
                    s.actor = a as u32;
                    s.id = ctx.fresh_id();
                    ctx.log(&s);
                    scripts[a].push(s);
                }
            }
        }
        // each thread alone, in a process of its own whose environment is another one
        let mut base: Vec<Vec<String>> = Vec::new();
        for s in &scripts {
            let s = s.clone();
            let r = saxw::forked(move || {
                env::apply(&EnvCfg::plain());
                work(&s).iter().map(|x| crate::step::quote(x)).collect::<Vec<_>>().join("\n")
            });
            match r {
                Ok(t) => base.push(if t.is_empty() { vec![] } else { t.lines().map(|x| x.to_string()).collect() }),
                Err(e) => ctx.skip(&format!("a thread alone ended its process: {}", e)),
            }
        }
        // all together
        let outs: Vec<Arc<Mutex<Vec<String>>>> = (0..nt).map(|_| Arc::new(Mutex::new(vec![]))).collect();
        let mut bodies: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
        for (a, s) in scripts.iter().enumerate() {
            let (s, o) = (s.clone(), outs[a].clone());
            bodies.push(Box::new(move || {
                let r: Vec<String> = work(&s).iter().map(|x| crate::step::quote(x)).collect();
                *o.lock().unwrap() = r;
            }));
        }
        let how = match sched {
            Some(v) => Sched::Replay(v),
            None if ctx.generating() => Sched::Random { seed: ctx.rng.next(), quantum: c.n(4).max(1) as u64 },
            None => Sched::Replay(vec![]),
        };
        let e0 = env::edges();
        env::run_threads(bodies, how);
        let _ = e0;
        let log: Vec<(u64, u8)> = unsafe { std::mem::take(&mut *std::ptr::addr_of_mut!(env::SCHED_LOG)) };
        let mut st = Step::new("sched", 0, vec![Arg::S(sched_str(&log))]);
        st.id = 0;
        ctx.log(&st);
        ctx.cnt[0] += nt as u64;
        ctx.cnt[11] += log.len() as u64;
        unsafe {
            ctx.cnt[12] += env::FUTEX_WAITS;
            ctx.cnt[13] += env::HASH_SEEDINGS;
            ctx.cnt[14] += env::CLOCK_READS;
            ctx.cnt[15] += env::CLOCK_JUMPS;
            ctx.cnt[16] += env::SHARED_ACCESSES;
        }
        for a in 0..nt {
            let got = outs[a].lock().unwrap().clone();
            for (k, s) in scripts[a].iter().enumerate() {
                let slot = match s.op.as_str() {
                    "parse" => 1,
                    "eval" | "nodes" => 3,
                    "edit" => 4,
                    "ser" => 5,
                    "order" => 6,
                    "tok" | "sax" => 7,
                    _ => 8,
                };
                ctx.cnt[slot] += 1;
                let (g, b) = (got.get(k).cloned().unwrap_or_default(), base[a].get(k).cloned().unwrap_or_default());
                if g.starts_with("\"error") {
                    ctx.cnt[9] += 1;
                    if s.op == "parse" {
                        ctx.cnt[2] += 1;
                    }
                }
                if g == "\"panic\"" {
                    ctx.cnt[10] += 1;
                }
                if g != b {
                    ctx.fail("differs", &format!("thread {}, {}: together with the other threads {}, alone in a process with another environment {}", a, s.to_line(), cut(&g), cut(&b)));
                }
                ctx.digest.add(g.as_bytes());
            }
        }
        for (e, t) in &log {
            ctx.digest.add_u64(*e - e0);
            ctx.digest.add_u64(*t as u64);
        }
        ctx.nontrivial = log.len() > 3;
    }
    fn shrink(&self, s: &Step) -> Vec<Step> {
        let mut out = Vec::new();
        if s.op == "sched" {
            let v = parse_sched(s.s(0));
            let n = v.len();
            let mut c = n / 2;
            while c >= 1 {
                let mut i = 0;
                while i + c <= n && out.len() < 200 {
                    let mut w = v[..i].to_vec();
                    w.extend_from_slice(&v[i + c..]);
                    let mut y = s.clone();
                    y.args[0] = Arg::S(sched_str(&w));
                    out.push(y);
                    i += c;
                }
                c /= 2;
            }
        }
        if s.op == "parse" || s.op == "sax" {
            let t: Vec<char> = s.s(0).chars().collect();
            let n = t.len();
            let mut c = n / 2;
            while c >= 1 {
                let mut i = 0;
                while i + c <= n && out.len() < 200 {
                    let mut y = s.clone();
                    y.args[0] = Arg::S(t[..i].iter().chain(&t[i + c..]).collect());
                    out.push(y);
                    i += c;
                }
                c /= 2;
            }
        }
        out
    }
    fn counters(&self) -> &'static [&'static str] {
        &NAMES
    }
    fn rule(&self) -> String {
        "runs whose digest of all transcripts and of the schedule (basic block and target of every switch) is distinct, with more than three switches inside library code".into()
    }
    fn real_and_stub(&self) -> String {
        "real: the whole library (dom, sax, xpath) on real thread stacks; simulated: thread scheduling (switches at any basic block of the library), locks' waits, heap, hash seeds, clock, environment variables; stub: none".into()
    }
}
