//! C10: the shipped command-line tool as a process of its own; every system call and allocation it
//! makes on its file, its output and its heap passes a shim that follows the run's fault plan.
use crate::refxml::{self, DocOpt, Ref};
use crate::rng::Rng;
use crate::runner::{self, lib, Ctx, World};
use crate::saxw;
use crate::step::{bytes_to_str, str_to_bytes, Arg, Step};
use crate::sys;
use amxml::dom::new_document;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{Command, Stdio};

pub struct Cli;

const NAMES: [&str; 38] = [
    "tool runs", "runs without a fault", "correct output, status 0", "failed, non-zero status", "failed by signal (abort)", "output cut short by a failure",
    "files", "large files (over 64 KiB)", "not UTF-8", "malformed files", "files left open by the reference reader", "damaged files",
    "fault: open fails", "fault: interrupted open", "fault: stat fails", "fault: stat reports another size", "fault: seek fails", "fault: read fails",
    "fault: interrupted read", "fault: short reads", "fault: file truncated while read", "fault: write fails", "fault: interrupted write", "fault: short writes",
    "fault: disk full", "fault: reader of the output hangs up", "fault: write takes nothing", "fault: writing to stderr fails", "fault: one allocation fails",
    "fault: all allocations fail from some point", "output to /dev/full", "no such file", "a directory instead of a file", "no argument",
    "several fault kinds in one run", "calls seen: read", "calls seen: write", "calls seen: allocation",
];

const CLS: &str = "oslrwEm";
const ACT: &str = "ezsctfgh";
const FNAMES: [&str; 5] = ["doc.xml", "a b.xml", "-x.xml", "dok\u{fc}.xml", "sub/doc.xml"];

#[derive(Default, Clone)]
struct Seen {
    calls: [i64; 7],
    fired: [[i64; 8]; 7],
    trunc_at: i64,
}
impl Seen {
    fn f(&self, c: char, a: char) -> i64 {
        self.fired[CLS.find(c).unwrap()][ACT.find(a).unwrap()]
    }
}

struct Ran {
    code: Option<i32>,
    signal: Option<i32>,
    out: Vec<u8>,
    seen: Seen,
}

struct C {
    dir: String,
    exe: String,
    shim: String,
    content: Vec<u8>,
    plan: Vec<Step>,
    last: Seen,
}

impl C {
    fn new() -> C {
        let v = |k: usize| match crate::setting(k) {
            "" => runner::harness_error("AMSIM_CLI and AMSIM_SHIM are not set"),
            s => s.to_string(),
        };
        let dir = format!("{}/cli.{}", crate::scratch(), unsafe { sys::getpid() });
        if std::fs::create_dir_all(format!("{}/sub", dir)).is_err() {
            runner::harness_error("cannot make the scratch directory");
        }
        C { dir, exe: v(1), shim: v(2), content: vec![], plan: vec![], last: Seen::default() }
    }
    fn launch(&self, name: &str, how: &str, hseed: i64) -> Ran {
        fn he(w: &str) -> ! {
            runner::harness_error(&format!("the tool cannot be run: {}", w))
        }
        let file = format!("{}/{}", self.dir, name);
        if how == "missing" {
            let _ = std::fs::remove_file(&file);
        } else if std::fs::write(&file, &self.content).is_err() {
            he("writing its file");
        }
        let log = format!("{}/log", self.dir);
        let outp = format!("{}/out", self.dir);
        if std::fs::write(&log, vec![0u8; 4096]).is_err() {
            he("writing the log");
        }
        let out = if how == "devfull" {
            match std::fs::OpenOptions::new().write(true).open("/dev/full") {
                Ok(f) => f,
                Err(_) => he("/dev/full"),
            }
        } else {
            match std::fs::File::create(&outp) {
                Ok(f) => f,
                Err(_) => he("creating the output"),
            }
        };
        let plan: String = self.plan.iter().map(|s| format!("{}:{}:{}:{};", s.s(0), s.n(1), s.s(2), s.n(3))).collect();
        let arg = if how == "dir" { "sub" } else { name };
        let mut c = Command::new(&self.exe);
        c.current_dir(&self.dir).env_clear();
        c.env("LD_PRELOAD", &self.shim).env("AMSIM_PLAN", plan).env("AMSIM_LOG", &log).env("AMSIM_FILE", arg).env("AMSIM_HSEED", hseed.to_string());
        if hseed % 3 == 0 {
            c.env("LANG", "C.UTF-8").env("HOME", "/");
        }
        if how != "noarg" {
            c.arg(arg);
        }
        c.stdin(Stdio::null()).stdout(out).stderr(Stdio::null());
        unsafe {
            c.pre_exec(|| {
                sys::raw_syscall(135, 0x0040000, 0, 0, 0, 0, 0); // fixed addresses, where allowed
                let lim = [0u64, 0u64];
                sys::raw_syscall(160, 4, lim.as_ptr() as i64, 0, 0, 0, 0); // no core files
                let lim = [20u64, 21u64];
                sys::raw_syscall(160, 0, lim.as_ptr() as i64, 0, 0, 0, 0); // processor seconds
                sys::alarm(100);
                Ok(())
            });
        }
        let st = match c.status() {
            Ok(s) => s,
            Err(e) => he(&e.to_string()),
        };
        let l = std::fs::read(&log).unwrap_or_default();
        let g = |i: usize| i64::from_le_bytes(l[i * 8..i * 8 + 8].try_into().unwrap());
        if l.len() != 4096 {
            he("its log is gone");
        }
        let mut seen = Seen::default();
        for k in 0..7 {
            seen.calls[k] = g(k);
            for a in 0..8 {
                seen.fired[k][a] = g(7 + k * 8 + a);
            }
        }
        seen.trunc_at = g(7 + 56 + 1);
        let out = if how == "devfull" { vec![] } else { std::fs::read(&outp).unwrap_or_default() };
        Ran { code: st.code(), signal: st.signal().map(|s| if s == 24 { 14 } else { s }), out, seen }
    }
    /// What the tool has to print for this content; None: it has to fail.
    fn correct(&self, ctx: &mut Ctx, b: &[u8]) -> Option<String> {
        let t = match std::str::from_utf8(b) {
            Ok(t) => t,
            Err(_) => {
                ctx.cnt[8] += 1;
                return None;
            }
        };
        match refxml::read(t) {
            Ref::Well(m, r) => Some(m.pretty(r) + "\n"),
            Ref::Reject(_) => {
                ctx.cnt[9] += 1;
                None
            }
            Ref::Other | Ref::Lenient(..) => {
                ctx.cnt[10] += 1;
                let t = t.to_string();
                let r = saxw::forked(move || match lib(|| new_document(&t).map(|d| d.to_pretty_string()).map_err(|e| e.to_string())) {
                    Ok(Ok(s)) => format!("+{}\n", s),
                    _ => "-".into(),
                });
                match r {
                    Ok(s) if s.starts_with('+') => Some(s[1..].to_string()),
                    Ok(_) => None,
                    Err(e) => ctx.skip(&e),
                }
            }
        }
    }
    fn run(&mut self, ctx: &mut Ctx, st: &Step) {
        let name = FNAMES[st.n(0).unsigned_abs() as usize % FNAMES.len()];
        let how = st.s(1).to_string();
        if matches!(how.as_str(), "missing" | "dir" | "noarg") {
            self.plan.clear();
        }
        let r = self.launch(name, &how, st.n(2));
        ctx.cnt[0] += 1;
        ctx.sim_ns += 0;
        let s = &r.seen;
        let content = if s.trunc_at >= 0 { self.content[..(s.trunc_at as usize).min(self.content.len())].to_vec() } else { self.content.clone() };
        let good = if matches!(how.as_str(), "missing" | "dir" | "noarg") { None } else { self.correct(ctx, &content) };
        // which faults happened
        let mut kinds = 0;
        let mut benign = true;
        for p in &self.plan {
            let (c, a, v) = (p.s(0).chars().next().unwrap_or('?'), p.s(2).chars().next().unwrap_or('?'), p.n(3));
            if CLS.find(c).is_none() || ACT.find(a).is_none() || s.f(c, a) == 0 {
                continue;
            }
            kinds += 1;
            let slot = match (c, a) {
                ('o', 'e') if v == 4 => 13,
                ('o', _) => 12,
                ('s', 'g') => 15,
                ('s', _) => 14,
                ('l', _) => 16,
                ('r', 'e') if v == 4 => 18,
                ('r', 's') | ('r', 'c') => 19,
                ('r', 't') => 20,
                ('r', _) => 17,
                ('w', 'e') if v == 4 => 22,
                ('w', 's') | ('w', 'c') => 23,
                ('w', 'f') => 24,
                ('w', 'h') => 25,
                ('w', 't') => 26,
                ('w', _) => 21,
                ('E', _) => 27,
                ('m', 'e') => 28,
                _ => 29,
            };
            ctx.cnt[slot] += 1;
            let harmless = matches!(slot, 13 | 18 | 19 | 20 | 22 | 23) || slot == 15 && (0..1 << 20).contains(&v);
            benign &= harmless;
        }
        match how.as_str() {
            "devfull" => {
                benign = false;
                ctx.cnt[30] += 1;
            }
            "missing" => ctx.cnt[31] += 1,
            "dir" => ctx.cnt[32] += 1,
            "noarg" => ctx.cnt[33] += 1,
            _ => {}
        }
        if kinds == 0 && how == "plain" {
            ctx.cnt[1] += 1;
        }
        if kinds > 1 {
            ctx.cnt[34] += 1;
        }
        ctx.cnt[35] += s.calls[3] as u64;
        ctx.cnt[36] += s.calls[4] as u64;
        ctx.cnt[37] += s.calls[6] as u64;
        if kinds > 0 {
            ctx.nontrivial = true;
        }
        let show = |b: &[u8]| {
            let t = String::from_utf8_lossy(b).to_string();
            if t.len() > 400 {
                format!("{:?}... ({} bytes)", t.chars().take(300).collect::<String>(), b.len())
            } else {
                format!("{:?}", t)
            }
        };
        let ending = match (r.code, r.signal) {
            (Some(c), _) => format!("status {}", c),
            (_, Some(x)) => format!("signal {}", x),
            _ => "?".into(),
        };
        let plan: String = self.plan.iter().map(|s| format!("{}:{}:{}:{} ", s.s(0), s.n(1), s.s(2), s.n(3))).collect();
        let about = format!("{}, output {}; file {}; faults {:?}", ending, show(&r.out), show(&content), plan);
        if r.signal == Some(14) {
            ctx.fail("hang", &format!("the tool did not end: {}", about));
        }
        if r.code == Some(0) {
            ctx.cnt[2] += 1;
            match &good {
                None => ctx.fail("success", &format!("status 0 although the tool could not do its work ({}): {}", how, about)),
                Some(_) if how == "devfull" => ctx.fail("success", &format!("status 0 although nothing could be written: {}", about)),
                Some(g) if g.as_bytes() != &r.out[..] => {
                    let k = g.bytes().zip(&r.out).take_while(|(x, y)| x == *y).count();
                    ctx.fail("output", &format!("status 0 with wrong output, correct is {}, different from byte {} of {}: {}", show(g.as_bytes()), k, g.len(), about))
                }
                _ => {}
            }
        } else {
            ctx.cnt[3] += 1;
            if r.signal.is_some() {
                ctx.cnt[4] += 1;
            }
            match &good {
                Some(g) => {
                    if benign {
                        ctx.fail("refused", &format!("the tool fails without a reason: {}", about));
                    }
                    if !g.as_bytes().starts_with(&r.out) {
                        ctx.fail("output", &format!("the tool failed, and its output is not a prefix of the correct output {}: {}", show(g.as_bytes()), about));
                    }
                    if !r.out.is_empty() {
                        ctx.cnt[5] += 1;
                    }
                }
                None => {
                    if !r.out.is_empty() {
                        ctx.fail("output", &format!("the tool failed on a file it cannot print, and wrote something: {}", about));
                    }
                }
            }
        }
        ctx.observe(&ending);
        ctx.digest.add(&r.out);
        for k in 0..6 {
            ctx.digest.add_u64(s.calls[k] as u64);
        }
        self.last = s.clone();
        self.plan.clear();
    }
    fn exec(&mut self, ctx: &mut Ctx, st: &Step) {
        match st.op.as_str() {
            "file" => self.content = str_to_bytes(st.s(0)),
            "large" => {
                let mut t = String::from("<r>");
                for _ in 0..st.n(1).clamp(0, 3_000_000) {
                    t += st.s(0);
                    if t.len() > if st.n(1) > 300_000 { 3_000_000 } else { 600_000 } {
                        break;
                    }
                }
                t += "</r>";
                self.content = t.into_bytes();
            }
            "dmg" => {
                let (a, b) = (st.n(1).unsigned_abs() as usize, st.n(2).unsigned_abs() as usize);
                let d = &mut self.content;
                let n = d.len();
                if n > 0 {
                    match st.s(0) {
                        "head" => {
                            let t: &[u8] = match b % 6 {
                                0..=2 => b"\xef\xbb\xbf",
                                3 => b"\xff\xfe",
                                4 => b"\n ",
                                _ => b"\xef\xbb",
                            };
                            d.splice(0..0, t.iter().copied());
                        }
                        "flip" => d[a % n] ^= 1 << (b % 8),
                        "trunc" => d.truncate(a % n),
                        // the last bytes are missing
                        "end" => d.truncate(n - (1 + a % 6).min(n)),
                        // something follows the document
                        "tail" => {
                            let k = (1 + b / 32 % 40).min(n);
                            let again = d[n - k..].to_vec();
                            let t: &[u8] = match b % 22 {
                                0 => b"\xc3",
                                1 => b"\n\xe6\x97",
                                2 => b"\xf0\x9f\x98",
                                3 => b"\xa9",
                                4 => b"\n\xff",
                                5 => b"\0",
                                6 => b"\n\x1a",
                                7 => b"<!--\xc3\xa9-->",
                                8 => b"<!--\xc3-->",
                                9 => b"\n<!--end--",
                                10 => b"<?pi x",
                                11 => b"<",
                                12 => b"\n\n  \n",
                                13 => b"\xef\xbb\xbf",
                                14 => b"\xed\xa0\x80",
                                15 => b"</r>",
                                16 => b"\0\0\0\0\0\0\0\0",
                                17 => b"\n<!--e-->\xe2\x82",
                                _ => &again,
                            };
                            d.extend_from_slice(t);
                        }
                        "byte" => d.insert(a % (n + 1), [0xff, 0xc3, 0x80, 0, b'<', b'&', 0xed][b % 7]),
                        _ => {
                            let i = a % n;
                            d.drain(i..(i + 1 + b % 5).min(n));
                        }
                    }
                }
                ctx.cnt[11] += 1;
            }
            "fault" => self.plan.push(st.clone()),
            "run" => self.run(ctx, st),
            _ => {}
        }
        if matches!(st.op.as_str(), "file" | "large") {
            ctx.cnt[6] += 1;
            if self.content.len() > 65536 {
                ctx.cnt[7] += 1;
            }
        }
    }
    fn gen_fault(&self, r: &mut Rng) -> Step {
        let at = |r: &mut Rng, cls: usize| -> i64 {
            // anywhere among the calls a run of this file makes, often at the last ones
            let n = self.last.calls[cls].max(1) as usize;
            if r.chance(1, 4) {
                (n - 1 - r.below(n.min(3))) as i64
            } else {
                r.below(n + 1) as i64
            }
        };
        let len = self.content.len().max(1);
        let f = |c: &str, k: i64, a: &str, v: i64| Step::new("fault", 1, vec![Arg::S(c.into()), Arg::N(k), Arg::S(a.into()), Arg::N(v)]);
        let chunk = |r: &mut Rng| {
            let lo = (len / 200).max(1);
            let v = *r.pick(&[1usize, 2, 3, 5, 7, 16, 61, 511, 4095, 8192, 8193]);
            v.max(lo) as i64
        };
        match r.below(30) {
            0 => f("o", 0, "e", *r.pick(&[2i64, 5, 13, 24, 12])),
            1 => f("o", 0, "e", 4),
            2 => f("s", r.below(2) as i64, "e", *r.pick(&[5i64, 12, 75])),
            3 => f("s", 0, "g", *r.pick(&[0i64, 1, len as i64 / 2, len as i64 - 1, len as i64 + 1, 2 * len as i64, 900_000, 1 << 45])),
            4 => f("l", 0, "e", *r.pick(&[29i64, 22])),
            5 | 6 => f("r", at(r, 3), "e", *r.pick(&[5i64, 5, 11, 21, 22, 116])),
            7 => f("r", at(r, 3), "z", 5),
            8 | 9 => f("r", at(r, 3), "e", 4),
            10 | 11 => f("r", at(r, 3), "s", 1 + r.below(len) as i64),
            12 | 13 => f("r", 0, "c", chunk(r)),
            14 | 15 => f("r", at(r, 3).max(r.below(2) as i64), "t", 0),
            16 | 17 => f("w", at(r, 4), "e", *r.pick(&[5i64, 28, 32, 11, 27, 122])),
            18 => f("w", at(r, 4), "z", *r.pick(&[5i64, 28, 32])),
            19 | 20 => f("w", at(r, 4), "e", 4),
            21 => f("w", at(r, 4), "s", 1 + r.below(len) as i64),
            22 => f("w", 0, "c", chunk(r)),
            23 | 24 => f("w", 0, *r.pick(&["f", "h"]), if r.chance(1, 3) { r.below(4) as i64 } else { r.below(len * 2) as i64 }),
            25 => f("w", at(r, 4), "t", 0),
            26 => f("E", 0, "z", *r.pick(&[5i64, 28, 32])),
            27 | 28 => f("m", at(r, 6), "e", 12),
            _ => f("m", at(r, 6), "z", 12),
        }
    }
}

/// A piece of content for large files.
fn piece(r: &mut Rng) -> String {
    let mut o = String::new();
    for _ in 0..r.range(1, 5) {
        o += match r.below(9) {
            0 => "<item id='1'/>",
            1 => "text \u{fc} & more".split('&').next().unwrap(),
            2 => "<b>\u{65e5}\u{672c}\u{8a9e}</b>",
            3 => "<!-- c -->",
            4 => "<?p data?>",
            5 => "&amp;&lt;x",
            6 => "<![CDATA[x<y]]>",
            7 => "<a><b/>\u{1f600}</a>",
            _ => "<long name='a value that is not short'>and more character data than that</long>\n",
        };
    }
    o
}

impl World for Cli {
    fn run(&self, ctx: &mut Ctx) {
        let thorough = ctx.thorough;
        let c = ctx.config("cfg", |r| {
            vec![Arg::N(r.range(2, 7) as i64), Arg::N(*r.pick(&[2i64, 5, 12, 40])), Arg::N(r.below(3) as i64), Arg::N(r.chance(1, if thorough { 5 } else { 8 }) as i64), Arg::N(r.below(3) as i64)]
        });
        let mut w = C::new();
        if !ctx.generating() {
            while let Some(s) = ctx.next_top() {
                if s.op != "cfg" {
                    ctx.log(&s);
                    w.exec(ctx, &s);
                }
            }
        } else {
            let go = |w: &mut C, ctx: &mut Ctx, mut s: Step| {
                s.id = ctx.fresh_id();
                ctx.log(&s);
                w.exec(ctx, &s);
            };
            let o = DocOpt { nodes: c.n(1) as usize, depth: 8, rich: c.n(2) > 0, adjacent: c.n(2) > 1, plain_names: c.n(2) == 0, scale: 6 };
            let name = Arg::N(ctx.rng.below(FNAMES.len()) as i64);
            for round in 0..2 {
                if c.n(3) == 1 && round == 0 {
                    let p = piece(&mut ctx.rng);
                    let huge = ctx.rng.chance(1, 30);
                    let n = if huge { ctx.rng.range(300_001, 2_500_000 / p.len() + 300_001) } else { ctx.rng.range(500, 300_000) / p.len() };
                    go(&mut w, ctx, Step::new("large", 0, vec![Arg::S(p), Arg::N(n as i64)]));
                } else {
                    let t = refxml::gen_doc(&mut ctx.rng, &o).0;
                    let t = bytes_to_str(t.as_bytes());
                    go(&mut w, ctx, Step::new("file", 0, vec![Arg::S(t)]));
                }
                let damaged = ctx.rng.below(3) < c.n(4) as usize && ctx.rng.chance(1, 2);
                if damaged {
                    let k = *ctx.rng.pick(&["flip", "trunc", "byte", "byte", "lose", "end", "tail", "tail", "head"]);
                    let (a, b) = (ctx.rng.below(w.content.len().max(1)) as i64, ctx.rng.below(1000) as i64);
                    go(&mut w, ctx, Step::new("dmg", 1, vec![Arg::S(k.into()), Arg::N(a), Arg::N(b)]));
                }
                // first without a fault: this also tells how many calls there are to fail
                for k in 0..c.n(0) {
                    if k > 0 {
                        let m = *ctx.rng.pick(&[1usize, 1, 1, 2, 3]);
                        for _ in 0..m {
                            let f = w.gen_fault(&mut ctx.rng);
                            go(&mut w, ctx, f);
                        }
                    }
                    let how = if k == 0 || ctx.rng.chance(9, 10) { "plain" } else { *ctx.rng.pick(&["devfull", "devfull", "missing", "dir", "noarg"]) };
                    let h = ctx.rng.below(1 << 20) as i64;
                    go(&mut w, ctx, Step::new("run", 0, vec![name.clone(), Arg::S(how.into()), Arg::N(h)]));
                }
            }
        }
        let _ = std::fs::remove_dir_all(&w.dir);
    }
    fn shrink(&self, s: &Step) -> Vec<Step> {
        let mut out = Vec::new();
        if s.op == "file" {
            let t: Vec<char> = s.s(0).chars().collect();
            let n = t.len();
            let mut c = n / 2;
            while c >= 1 {
                let mut i = 0;
                while i + c <= n && out.len() < 200 {
                    let mut y = s.clone();
                    y.args[0] = Arg::S(t[..i].iter().chain(&t[i + c..]).collect());
                    out.push(y);
                    i += c;
                }
                c /= 2;
            }
        }
        let at: &[usize] = match s.op.as_str() {
            "large" => &[1],
            "fault" => &[1, 3],
            "run" => &[0, 2],
            _ => &[],
        };
        for i in at {
            let v = s.n(*i);
            for x in [0, v / 2, v - v.abs() / 8, v - 1] {
                if x != v && x >= 0 {
                    let mut y = s.clone();
                    y.args[*i] = Arg::N(x);
                    out.push(y);
                }
            }
        }
        out
    }
    fn counters(&self) -> &'static [&'static str] {
        &NAMES
    }
    fn rule(&self) -> String {
        "runs whose digest (status, output and number of calls of every execution of the tool) is distinct and in which at least one planned fault happened".into()
    }
    fn real_and_stub(&self) -> String {
        "real: the release build of the amxml binary with the Rust standard library and libc, its process and its files; simulated through an LD_PRELOAD shim: results of open, stat, lseek, read, write and allocation calls, hash seeds; stub: none".into()
    }
}
