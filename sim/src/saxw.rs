//! C09: several SAX decoders over intact and damaged inputs, their calls interleaved with each
//! other, with whole-document parses and with crashes of their clients.
use crate::env;
use crate::refxml::{self, DocOpt, Ref};
use crate::rng::Rng;
use crate::runner::{self, lib, Caught, Ctx, Mode, World};
use crate::step::{Arg, Step};
use crate::sys;
use amxml::dom::new_document;
use amxml::sax::{SaxDecoder, XmlToken};
use std::collections::BTreeMap;

pub struct SaxW;

const NAMES: [&str; 17] = [
    "inputs", "damaged inputs", "decoders opened", "decoder calls", "tokens", "errors", "end of input reached", "calls after end of input", "calls after an error",
    "decoders dropped unfinished", "documents parsed in between", "switches between decoders", "prefix comparisons", "prefix tokens compared", "self-closed elements checked",
    "inputs with U+0000", "calls in between that failed",
];

/// Runs `f` in a child process that has the present state, and returns what it wrote.
pub fn forked(f: impl FnOnce() -> String) -> Result<String, String> {
    unsafe {
        let mut p = [0i32; 2];
        if sys::pipe(p.as_mut_ptr()) != 0 {
            runner::harness_error("pipe");
        }
        let pid = sys::fork();
        if pid < 0 {
            runner::harness_error("fork");
        }
        if pid == 0 {
            sys::close(p[0]);
            let s = f();
            let b = s.as_bytes();
            let mut o = 0;
            while o < b.len() {
                let n = sys::write(p[1], b[o..].as_ptr() as *const _, b.len() - o);
                if n <= 0 {
                    break;
                }
                o += n as usize;
            }
            sys::_exit(0);
        }
        sys::close(p[1]);
        let mut out = Vec::new();
        let mut buf = [0u8; 65536];
        loop {
            let n = sys::read(p[0], buf.as_mut_ptr() as *mut _, buf.len());
            if n <= 0 {
                break;
            }
            out.extend_from_slice(&buf[..n as usize]);
        }
        sys::close(p[0]);
        let mut st = 0;
        while sys::waitpid(pid, &mut st, 0) != pid {}
        if let Some(s) = sys::wifsignaled(st) {
            return Err(format!("signal {}", s));
        }
        match sys::wexit(st) {
            0 => Ok(String::from_utf8_lossy(&out).to_string()),
            // a violation (hang, memory) was recorded by the child: pass it on
            10 => sys::_exit(10),
            99 => sys::_exit(99),
            c => Err(format!("exit {}", c)),
        }
    }
}

pub fn show(t: &Result<XmlToken, String>) -> String {
    match t {
        Ok(XmlToken::EOF) => "EOF".into(),
        Ok(XmlToken::StartElement { name, attr }) => {
            let a: Vec<String> = attr.iter().map(|a| format!("{:?}={:?}", a.name(), a.value())).collect();
            format!("S {:?} [{}]", name, a.join(" "))
        }
        Ok(XmlToken::EndElement { name }) => format!("E {:?}", name),
        Ok(XmlToken::CharData { chardata }) => format!("T {:?}", chardata),
        Ok(XmlToken::ProcInst { target, inst }) => format!("P {:?} {:?}", target, inst),
        Ok(XmlToken::Comment { comment }) => format!("C {:?}", comment),
        Ok(XmlToken::Directive { directive }) => format!("D {:?}", directive),
        Err(e) => format!("error {:?}", e),
    }
}

/// One call; "panic" if it panicked.
fn tok(d: &mut SaxDecoder) -> String {
    let r = lib(|| d.raw_token().map_err(|e| e.to_string()));
    match r {
        Ok(t) => show(&t),
        Err(Caught::Panic(m)) => format!("panic {:?}", m),
        Err(Caught::Abort) => "abort".into(),
    }
}
fn open(t: &str) -> Result<SaxDecoder, String> {
    match lib(|| SaxDecoder::new(t).map_err(|e| format!("no decoder {:?}", e.to_string()))) {
        Ok(r) => r,
        Err(_) => Err(format!("panic {:?}", runner::last_panic())),
    }
}

struct Unit {
    end: usize,
    tokens: usize,
    closed: bool,
    markup: bool,
}

/// Where the tokens of a well-formed text end (in characters).
fn units(t: &[char]) -> Option<Vec<Unit>> {
    let mut v = Vec::new();
    let mut i = 0;
    let at = |i: usize, s: &str| s.chars().enumerate().all(|(k, c)| t.get(i + k) == Some(&c));
    let find = |i: usize, s: &str| (i..t.len()).find(|j| at(*j, s)).map(|j| j + s.chars().count());
    while i < t.len() {
        let (mut end, mut closed) = (0, false);
        if t[i] != '<' {
            end = i;
            while end < t.len() && t[end] != '<' {
                end += 1;
            }
        } else if at(i, "<!--") {
            end = find(i + 4, "-->")?;
        } else if at(i, "<![CDATA[") {
            end = find(i + 9, "]]>")?;
        } else if at(i, "<?") {
            end = find(i + 2, "?>")?;
        } else if at(i, "<!") {
            let mut l = 0;
            for j in i..t.len() {
                match t[j] {
                    '<' => l += 1,
                    '>' => {
                        l -= 1;
                        if l == 0 {
                            end = j + 1;
                            break;
                        }
                    }
                    _ => {}
                }
            }
            if end == 0 {
                return None;
            }
        } else {
            let mut q = None;
            let mut j = i;
            while j < t.len() {
                match (q, t[j]) {
                    (None, '"') | (None, '\'') => q = Some(t[j]),
                    (Some(x), c) if x == c => q = None,
                    (None, '>') => {
                        end = j + 1;
                        closed = t[j - 1] == '/';
                        break;
                    }
                    _ => {}
                }
                j += 1;
            }
            if end == 0 {
                return None;
            }
        }
        v.push(Unit { end, tokens: 1 + closed as usize, closed, markup: t[i] == '<' });
        i = end;
    }
    Some(v)
}

struct Input {
    text: String,
    base: Vec<String>,
    eof: usize, // position of the first EOF in base
}
struct Dec {
    d: Option<SaxDecoder>,
    input: i64,
    calls: usize,
    failed: bool,
}
struct S {
    inputs: BTreeMap<i64, Input>,
    decs: BTreeMap<i64, Dec>,
    last: i64,
}

fn cut(s: &str) -> String {
    let c: Vec<char> = s.chars().collect();
    if c.len() > 400 {
        format!("{}...", c[..400].iter().collect::<String>())
    } else {
        s.to_string()
    }
}

impl S {
    /// What one decoder alone gives, in a process of its own.
    fn input(&mut self, ctx: &mut Ctx, st: &Step) {
        let t = st.s(1).to_string();
        let n = t.chars().count();
        ctx.cnt[0] += 1;
        if t.contains('\0') {
            ctx.cnt[15] += 1;
        }
        let r = forked(|| {
            let mut o = String::new();
            let mut d = match open(&t) {
                Ok(d) => d,
                Err(e) => return format!("{}\n", e),
            };
            let mut eof = 0;
            for _ in 0..2 * n + 8 {
                let x = tok(&mut d);
                let p = x.starts_with("panic");
                if x == "EOF" {
                    eof += 1;
                }
                o += &x;
                o.push('\n');
                if p || eof > 5 {
                    break;
                }
            }
            o
        });
        let base: Vec<String> = match r {
            Ok(s) => s.lines().map(|x| x.to_string()).collect(),
            Err(e) => ctx.fail("crash", &format!("a single decoder ended its process ({}) on {:?}", e, cut(&t))),
        };
        let eof = base.iter().position(|x| x == "EOF");
        if let Some(p) = base.iter().find(|x| x.starts_with("panic")) {
            ctx.fail("panic", &format!("a decoder call panicked: {} on {:?}", p, cut(&t)));
        }
        let eof = if base.first().map_or(false, |x| x.starts_with("no decoder")) {
            0
        } else {
            match eof {
                None => ctx.fail("no-eof", &format!("no end of input after {} calls on {} characters: {:?}", base.len(), n, cut(&t))),
                Some(p) => {
                    if p + 1 > 2 * n + 2 {
                        ctx.fail("no-eof", &format!("end of input only after {} calls on {} characters: {:?}", p + 1, n, cut(&t)));
                    }
                    if let Some(x) = base[p..].iter().find(|x| *x != "EOF") {
                        ctx.fail("eof-left", &format!("{} after end of input had been reported, on {:?}", x, cut(&t)));
                    }
                    p
                }
            }
        };
        if let Ref::Well(..) = refxml::read(&t) {
            self.well(ctx, &t, &base);
        }
        // tokens before the damage are those of the undamaged text
        if st.n(2) > 0 {
            ctx.cnt[1] += 1;
            if let Some(o) = self.inputs.get(&st.n(2)) {
                let (a, b): (Vec<char>, Vec<char>) = (o.text.chars().collect(), t.chars().collect());
                let p = a.iter().zip(&b).take_while(|x| x.0 == x.1).count();
                if let (Some(u), Ref::Well(..)) = (units(&a), refxml::read(&o.text)) {
                    let total: usize = u.iter().map(|x| x.tokens).sum();
                    if total == o.eof && (!base[0].starts_with("no decoder") || !t.contains('\0')) {
                        ctx.cnt[12] += 1;
                        let mut k = 0;
                        for x in &u {
                            let mark = x.markup && x.end <= p;
                            if x.end >= p && !mark {
                                break;
                            }
                            k += x.tokens;
                        }
                        for i in 0..k {
                            ctx.cnt[13] += 1;
                            if base.get(i) != o.base.get(i) {
                                ctx.fail("prefix", &format!("token {} ends before the first damaged character (position {}), but is {} instead of {}; damaged {:?}; undamaged {:?}",
                                    i, p, base.get(i).cloned().unwrap_or_default(), o.base[i], cut(&t), cut(&o.text)));
                            }
                        }
                    }
                }
            }
        }
        self.inputs.insert(st.n(0), Input { text: t, base, eof });
    }
    /// Start and end tokens of a well-formed text.
    fn well(&mut self, ctx: &mut Ctx, t: &str, base: &[String]) {
        let c: Vec<char> = t.chars().collect();
        let u = match units(&c) {
            Some(u) => u,
            None => return,
        };
        let mut i = 0;
        for x in &u {
            if x.closed {
                ctx.cnt[14] += 1;
                let name = |s: &str| s.split('"').nth(1).unwrap_or("").to_string();
                let (a, b) = (base.get(i).cloned().unwrap_or_default(), base.get(i + 1).cloned().unwrap_or_default());
                if !a.starts_with("S ") || !b.starts_with("E ") || name(&a) != name(&b) {
                    ctx.fail("self-closed", &format!("the self-closed element that ends at character {} gives {} and {}; {:?}", x.end, a, b, cut(t)));
                }
            }
            i += x.tokens;
        }
    }
    fn exec(&mut self, ctx: &mut Ctx, st: &Step) {
        match st.op.as_str() {
            "new" => {
                let i = match self.inputs.get(&st.n(1)) {
                    Some(i) => i,
                    None => return,
                };
                ctx.cnt[2] += 1;
                let (d, e) = match open(&i.text) {
                    Ok(d) => (Some(d), String::new()),
                    Err(e) => (None, e),
                };
                if d.is_none() != i.base[0].starts_with("no decoder") || (d.is_none() && e != i.base[0]) {
                    ctx.fail("differs", &format!("opening a decoder gives {:?}, alone {:?}; {:?}", e, i.base[0], cut(&i.text)));
                }
                let old = self.decs.insert(st.n(0), Dec { d, input: st.n(1), calls: 0, failed: false });
                let _ = lib(move || drop(old.map(|x| x.d)));
            }
            "tok" => {
                if !self.decs.contains_key(&st.n(0)) {
                    return;
                }
                if self.last != st.n(0) {
                    ctx.cnt[11] += 1;
                    self.last = st.n(0);
                }
                for _ in 0..st.n(1).max(1) {
                    let x = self.decs.get_mut(&st.n(0)).unwrap();
                    let i = &self.inputs[&x.input];
                    let d = match x.d.as_mut() {
                        Some(d) => d,
                        None => return,
                    };
                    let got = tok(d);
                    let want = i.base.get(x.calls.min(i.base.len() - 1)).unwrap();
                    ctx.cnt[3] += 1;
                    if x.calls > i.eof {
                        ctx.cnt[7] += 1;
                    }
                    if x.failed {
                        ctx.cnt[8] += 1;
                    }
                    if &got != want {
                        ctx.fail("differs", &format!("call {} of a decoder gives {}, but {} when the decoder is alone; input {:?}", x.calls + 1, cut(&got), cut(want), cut(&i.text)));
                    }
                    if got.starts_with("error") {
                        ctx.cnt[5] += 1;
                        x.failed = true;
                    } else if got == "EOF" {
                        ctx.cnt[6] += 1;
                    } else {
                        ctx.cnt[4] += 1;
                    }
                    x.calls += 1;
                    ctx.digest.add(got.as_bytes());
                }
            }
            "drop" => {
                if let Some(x) = self.decs.remove(&st.n(0)) {
                    if x.calls <= self.inputs[&x.input].eof {
                        ctx.cnt[9] += 1;
                    }
                    let _ = lib(move || drop(x.d));
                }
            }
            "crash" => {
                // a client dies with all its decoders
                let ds = std::mem::take(&mut self.decs);
                ctx.cnt[9] += ds.len() as u64;
                let _ = lib(move || drop(ds.into_iter().map(|x| x.1.d).collect::<Vec<_>>()));
            }
            "parse" => {
                if let Some(i) = self.inputs.get(&st.n(0)) {
                    ctx.cnt[10] += 1;
                    let t = i.text.clone();
                    let r = lib(|| match new_document(&t) {
                        Ok(d) => {
                            let s = d.to_string();
                            let n = d.get_nodeset("//*[. != '']/..").map(|v| v.len()).unwrap_or(0);
                            format!("{} {}", s, n)
                        }
                        Err(e) => format!("error {}", e),
                    });
                    match r {
                        Ok(s) => {
                            if s.starts_with("error") {
                                ctx.cnt[16] += 1;
                            }
                            ctx.observe(&s)
                        }
                        Err(_) => ctx.skip("parsing a document panicked"),
                    }
                }
            }
            _ => {}
        }
    }
}

/// A damaged copy of a text.
pub fn damage(r: &mut Rng, t: &str) -> String {
    let mut c: Vec<char> = t.chars().collect();
    let n = c.len();
    if n == 0 {
        return "<".into();
    }
    let hot: Vec<usize> = (0..n).filter(|i| "<>/\"'!?-[]&;=#".contains(c[*i])).collect();
    let pos = |r: &mut Rng| if r.chance(2, 3) && !hot.is_empty() { (*r.pick(&hot) + r.below(2)).min(n - 1) } else { r.below(n) };
    let k = if r.chance(1, 4) { 2 } else { 1 };
    for _ in 0..k {
        if c.is_empty() {
            break;
        }
        let i = pos(r).min(c.len() - 1);
        match r.below(6) {
            0 => c.truncate(i),
            1 => {
                let m = (1 + r.below(4)).min(c.len() - i);
                c.drain(i..i + m);
            }
            2 => c.insert(i, *r.pick(&['<', '>', '&', '"', '\'', '/', '!', '?', '-', ']', ' ', 'a', '=', ';', '[', '#', '\r'])),
            3 => c[i] = *r.pick(&['<', '>', '&', '"', '\'', '/', '!', '?', '-', ']', ' ', 'a', '=', ';', '[', '#', '\u{1}']),
            4 => {
                let m = (1 + r.below(12)).min(c.len() - i);
                let s: Vec<char> = c[i..i + m].to_vec();
                for (k, x) in s.into_iter().enumerate() {
                    c.insert(i + k, x);
                }
            }
            _ => {
                if r.chance(1, 6) {
                    c[i] = '\0';
                } else {
                    let j = r.below(c.len());
                    c.swap(i, j);
                }
            }
        }
    }
    c.into_iter().collect()
}

impl World for SaxW {
    fn run(&self, ctx: &mut Ctx) {
        let thorough = ctx.thorough;
        let c = ctx.config("cfg", |r| {
            vec![
                Arg::N(r.range(2, 6) as i64),
                Arg::N(r.range(10, if thorough { 250 } else { 120 }) as i64),
                Arg::N(if r.chance(1, 40) { 250 } else { *r.pick(&[2i64, 5, 10, 20, 40]) }),
                Arg::N(r.below(3) as i64),
                Arg::N(*r.pick(&[1i64, 1, 1, 4])),
            ]
        });
        let mut s = S { inputs: BTreeMap::new(), decs: BTreeMap::new(), last: -1 };
        if let Mode::Replay(v) = &ctx.mode {
            let v = v.clone();
            for phase in 0..2 {
                for x in &v {
                    if x.op != "cfg" && (x.op == "input") == (phase == 0) {
                        ctx.log(x);
                        if phase == 0 {
                            s.input(ctx, x);
                        } else {
                            s.exec(ctx, x);
                        }
                    }
                }
            }
        } else {
            let o = DocOpt { nodes: c.n(2) as usize, depth: 10, rich: c.n(3) > 0, adjacent: c.n(3) > 1, plain_names: c.n(3) == 0, scale: 10 };
            let mut wells: Vec<(i64, String)> = vec![];
            for k in 1..=c.n(0) {
                let mut from = 0;
                let t = if !wells.is_empty() && ctx.rng.chance(3, 5) {
                    let (id, t) = ctx.rng.pick(&wells).clone();
                    from = id;
                    damage(&mut ctx.rng, &t)
                } else {
                    let t = refxml::gen_doc(&mut ctx.rng, &o).0;
                    wells.push((k, t.clone()));
                    t
                };
                let mut st = Step::new("input", 0, vec![Arg::N(k), Arg::S(t), Arg::N(from)]);
                st.id = ctx.fresh_id();
                ctx.log(&st);
                s.input(ctx, &st);
            }
            let n = c.n(1) as usize;
            for _ in 0..n {
                let keys: Vec<i64> = s.decs.keys().copied().collect();
                let mut st = if keys.is_empty() || (keys.len() < 5 && ctx.rng.chance(1, 6)) {
                    Step::new("new", 0, vec![Arg::N(ctx.rng.below(5) as i64), Arg::N(1 + ctx.rng.below(c.n(0) as usize) as i64)])
                } else {
                    match ctx.rng.below(40) {
                        0..=1 => Step::new("drop", 0, vec![Arg::N(*ctx.rng.pick(&keys))]),
                        2 => Step::new("crash", 0, vec![]),
                        3..=4 => Step::new("parse", 0, vec![Arg::N(1 + ctx.rng.below(c.n(0) as usize) as i64)]),
                        _ => {
                            let k = *ctx.rng.pick(&keys);
                            let m = if ctx.rng.chance(1, 12) { 30 } else { 1 + ctx.rng.below(c.n(4) as usize) };
                            Step::new("tok", 0, vec![Arg::N(k), Arg::N(m as i64)])
                        }
                    }
                };
                st.id = ctx.fresh_id();
                ctx.log(&st);
                s.exec(ctx, &st);
            }
        }
        // every decoder that is still open runs to its end
        let keys: Vec<i64> = s.decs.keys().copied().collect();
        let mut left = true;
        let mut rounds = 0;
        while left && rounds < 100_000 {
            left = false;
            rounds += 1;
            for k in &keys {
                let x = &s.decs[k];
                if x.d.is_some() && x.calls <= s.inputs[&x.input].eof + 2 {
                    left = true;
                    s.exec(ctx, &Step::new("tok", 0, vec![Arg::N(*k), Arg::N(1)]));
                }
            }
        }
        ctx.nontrivial = ctx.cnt[11] > 2;
        let _ = env::edges();
    }
    fn shrink(&self, s: &Step) -> Vec<Step> {
        let mut out = Vec::new();
        if s.op == "input" {
            let t: Vec<char> = s.s(1).chars().collect();
            let n = t.len();
            let mut c = n / 2;
            while c >= 1 {
                let mut i = 0;
                while i + c <= n && out.len() < 400 {
                    let mut y = s.clone();
                    y.args[1] = Arg::S(t[..i].iter().chain(&t[i + c..]).collect());
                    out.push(y);
                    i += c;
                }
                c /= 2;
            }
        }
        if s.op == "tok" && s.n(1) > 1 {
            let mut y = s.clone();
            y.args[1] = Arg::N(s.n(1) / 2);
            out.push(y);
        }
        out
    }
    fn counters(&self) -> &'static [&'static str] {
        &NAMES
    }
    fn rule(&self) -> String {
        "runs whose digest of all tokens, in the order of the calls, is distinct and in which the calls changed decoder more than twice".into()
    }
    fn real_and_stub(&self) -> String {
        "real: sax (and dom, xpath for the documents processed in between); simulated: scheduling of the decoders' calls, damaged inputs, heap, hash seeds, clock; stub: none".into()
    }
}
