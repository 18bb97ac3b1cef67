//! Coordinator: forks workers, forks one child per run, collects results, minimises, writes
//! replay files and evidence.
#![allow(static_mut_refs)]

use crate::env::{self, EnvCfg};
use crate::rng::{mix, Digest, Rng};
use crate::step::Step;
use crate::sys;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

pub const NCNT: usize = 96;

pub trait World: Sync {
    fn run(&self, ctx: &mut Ctx);
    fn shrink(&self, _s: &Step) -> Vec<Step> {
        Vec::new()
    }
    fn counters(&self) -> &'static [&'static str];
    fn rule(&self) -> String;
    fn real_and_stub(&self) -> String;
}

pub enum Mode {
    Generate,
    Replay(Vec<Step>),
}

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub rng: Rng,
    pub mode: Mode,
    pub env: EnvCfg,
    pub cnt: [u64; NCNT],
    pub digest: Digest,
    pub nsteps: u64,
    pub next_id: u32,
    pub pos: usize,
    pub nontrivial: bool,
    pub sim_ns: u64,
    pub quiet: bool,
}

impl Ctx {
    pub fn generating(&self) -> bool {
        matches!(self.mode, Mode::Generate)
    }
    /// Next recorded top-level step (replay only).
    pub fn next_top(&mut self) -> Option<Step> {
        if let Mode::Replay(v) = &self.mode {
            while self.pos < v.len() {
                let s = &v[self.pos];
                self.pos += 1;
                if s.within.is_none() {
                    return Some(s.clone());
                }
            }
        }
        None
    }
    pub fn nested(&self, id: u32, visit: u32) -> Vec<Step> {
        match &self.mode {
            Mode::Replay(v) => v.iter().filter(|s| s.within == Some((id, visit))).cloned().collect(),
            _ => Vec::new(),
        }
    }
    pub fn fresh_id(&mut self) -> u32 {
        self.next_id += 1;
        self.next_id
    }
    pub fn log(&mut self, s: &Step) {
        self.nsteps += 1;
        if self.quiet {
            return;
        }
        trace_line(&s.to_line());
    }
    pub fn observe(&mut self, s: &str) {
        self.digest.add(s.as_bytes());
    }
    /// A config step: drawn and recorded when generating, read back when replaying.
    pub fn config(&mut self, op: &str, gen: impl FnOnce(&mut Rng) -> Vec<crate::step::Arg>) -> Step {
        if self.generating() {
            let mut st = Step::new(op, 0, gen(&mut self.rng));
            st.id = self.fresh_id();
            self.log(&st);
            st
        } else {
            let found = if let Mode::Replay(v) = &self.mode { v.iter().find(|s| s.op == op).cloned() } else { None };
            match found {
                Some(s) => {
                    self.log(&s);
                    s
                }
                None => Step::new(op, 0, vec![]),
            }
        }
    }
    /// Ends the run without a verdict: what happened is not this property's business.
    pub fn skip(&mut self, why: &str) -> ! {
        self.cnt[NCNT - 1] += 1;
        self.finish_counters();
        if tracing() {
            trace_line(&format!("# run abandoned: {}", why));
        }
        unsafe { sys::_exit(11) }
    }
    pub fn fail(&mut self, class: &str, msg: &str) -> ! {
        self.finish_counters();
        die(class, msg)
    }
    fn finish_counters(&self) {
        unsafe {
            let sh = shared();
            for i in 0..NCNT {
                if self.cnt[i] != 0 {
                    (*sh).cnt[i].fetch_add(self.cnt[i], SeqCst);
                }
            }
        }
    }
}

// ---------------------------------------------------------------- shared memory
#[repr(C)]
struct Shared {
    min_viol: AtomicU64,
    harness_err: AtomicU64,
    cnt: [AtomicU64; NCNT],
    cov: [u8; env::COV_LEN],
    slots: [Slot; 64],
}
#[repr(C)]
struct Slot {
    len: u32,
    msg: [u8; 16384],
}
#[repr(C)]
#[derive(Clone, Copy)]
struct RunRec {
    status: u64, // 0 not run, 1 ok, 2 violation, 3 harness error
    digest: u64,
    steps: u64,
    edges: u64,
    nontrivial: u64,
    sim_ns: u64,
    allocs: u64,
    switches: u64,
}

static mut SHARED: *mut Shared = std::ptr::null_mut();
static mut SLOT: usize = 0;
static mut TRACE_FD: i32 = -1;
static mut IN_CHILD: bool = false;

fn shared() -> *mut Shared {
    unsafe { SHARED }
}

fn set_msg(class: &str, msg: &str) {
    unsafe {
        if SHARED.is_null() {
            return;
        }
        let s = &mut (*SHARED).slots[SLOT];
        let full = format!("{}\n{}", class, msg);
        let b = full.as_bytes();
        let n = b.len().min(s.msg.len());
        s.msg[..n].copy_from_slice(&b[..n]);
        s.len = n as u32;
    }
}
fn get_msg(slot: usize) -> (String, String) {
    unsafe {
        let s = &(*SHARED).slots[slot];
        let t = String::from_utf8_lossy(&s.msg[..s.len as usize]).to_string();
        match t.split_once('\n') {
            Some((a, b)) => (a.to_string(), b.to_string()),
            None => (t, String::new()),
        }
    }
}

/// A run of this process ends quietly when a call exceeds its block budget.
pub static mut HANG_SKIPS: bool = false;
/// Calls on very large trees are under way: a larger budget.
pub static mut LONG_CALLS: bool = false;

/// Ends the run with a violation.
pub fn die(class: &str, msg: &str) -> ! {
    env::set_in_lib(false);
    unsafe {
        if HANG_SKIPS && (class == "hang" || class == "memory") {
            (*shared()).cnt[NCNT - 1].fetch_add(1, SeqCst);
            sys::_exit(11)
        }
        set_msg(class, msg);
        sys::_exit(if IN_CHILD { 10 } else { 3 })
    }
}
pub fn harness_error(msg: &str) -> ! {
    env::set_in_lib(false);
    unsafe {
        set_msg("harness", msg);
        sys::_exit(99)
    }
}

fn trace_line(l: &str) {
    unsafe {
        if TRACE_FD >= 0 {
            let t = format!("{}\n", l);
            let b = t.as_bytes();
            let mut off = 0;
            while off < b.len() {
                let n = sys::write(TRACE_FD, b[off..].as_ptr() as *const _, b.len() - off);
                if n <= 0 {
                    break;
                }
                off += n as usize;
            }
        }
    }
}
pub fn tracing() -> bool {
    unsafe { TRACE_FD >= 0 }
}
/// Appends a line to the trace that is not a step (kept in replay files).
pub fn trace_extra(l: &str) {
    trace_line(l)
}

// ---------------------------------------------------------------- library call guard
pub struct AbortToken;
static mut LAST_PANIC: String = String::new();

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let old = env::set_in_lib(false);
        unsafe {
            LAST_PANIC = format!("{}", info);
        }
        env::set_in_lib(old);
    }));
}
pub fn last_panic() -> String {
    unsafe { LAST_PANIC.clone() }
}

pub enum Caught {
    Abort,
    Panic(String),
}

/// Runs a library call: its allocations go to the simulated arena, its blocks are counted and
/// bounded, and a panic is caught.
pub fn lib<T>(f: impl FnOnce() -> T) -> Result<T, Caught> {
    let old = env::set_in_lib(true);
    let b = env::arm_budget();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    env::restore_budget(b);
    env::set_in_lib(old);
    match r {
        Ok(v) => Ok(v),
        Err(p) => {
            if p.is::<AbortToken>() {
                Err(Caught::Abort)
            } else {
                Err(Caught::Panic(last_panic()))
            }
        }
    }
}

/// Runs harness code inside a callback of the library.
pub fn host<T>(f: impl FnOnce() -> T) -> T {
    struct G(bool, u64, u64);
    impl Drop for G {
        fn drop(&mut self) {
            env::set_in_lib(self.0);
            env::restore_budget(if self.1 == u64::MAX { self.1 } else { self.1 + (env::edges() - self.2) });
        }
    }
    let old = env::set_in_lib(false);
    let e = env::edges();
    let b = env::arm_budget();
    let _g = G(old, b, e);
    f()
}

// ---------------------------------------------------------------- one run in a forked child
pub enum What<'a> {
    Gen(u64, &'a EnvCfg),
    Replay(&'a [Step], &'a EnvCfg),
}

pub struct Outcome {
    pub ok: bool,
    pub class: String,
    pub msg: String,
    pub trace: String,
}

fn child_body(world: &dyn World, prop: &str, thorough: bool, what: &What, rec: *mut RunRec) -> ! {
    unsafe {
        IN_CHILD = true;
        sys::alarm(if thorough { 300 } else { 100 });
        let (seed, mode, envc) = match what {
            What::Gen(s, e) => (*s, Mode::Generate, (*e).clone()),
            What::Replay(st, e) => (0, Mode::Replay(st.to_vec()), (*e).clone()),
        };
        let next_id = match &mode {
            Mode::Replay(v) => v.iter().map(|s| s.id).max().unwrap_or(0) + 1,
            _ => 0,
        };
        env::apply(&envc);
        let mut ctx = Ctx {
            prop: prop.to_string(), thorough, rng: Rng::new(seed), mode, env: envc, cnt: [0; NCNT],
            digest: Digest::new(), nsteps: 0, next_id, pos: 0, nontrivial: false, sim_ns: 0, quiet: false,
        };
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| world.run(&mut ctx)));
        if r.is_err() {
            harness_error(&format!("panic outside a library call: {}", last_panic()));
        }
        ctx.finish_counters();
        env::merge_coverage((*shared()).cov.as_mut_ptr());
        if !rec.is_null() {
            (*rec).digest = ctx.digest.0;
            (*rec).steps = ctx.nsteps;
            (*rec).edges = env::EDGES;
            (*rec).nontrivial = ctx.nontrivial as u64;
            (*rec).sim_ns = ctx.sim_ns;
            (*rec).allocs = env::TOTAL_ALLOCS;
            (*rec).switches = env::SWITCHES;
        }
        if tracing() {
            trace_line(&format!("digest {:016x}", ctx.digest.0));
        }
        sys::_exit(0)
    }
}

/// (0 ok, 2 violation, 3 harness error)
fn run_forked(world: &dyn World, prop: &str, thorough: bool, what: What, rec: *mut RunRec) -> u64 {
    unsafe {
        (*SHARED).slots[SLOT].len = 0;
        let pid = sys::fork();
        if pid < 0 {
            eprintln!("fork failed: {}", sys::errno());
            sys::_exit(2);
        }
        if pid == 0 {
            child_body(world, prop, thorough, &what, rec);
        }
        let mut st = 0i32;
        while sys::waitpid(pid, &mut st, 0) != pid {
            if sys::errno() != 4 {
                sys::_exit(2);
            }
        }
        if let Some(sig) = sys::wifsignaled(st) {
            if sig == 9 || sig == 15 || sig == 2 {
                set_msg("harness", &format!("run ended by signal {} from outside", sig));
                return 3;
            }
            if sig == 14 {
                set_msg("wall", "a run did not end within its wall-clock limit");
            } else {
                set_msg(&format!("signal-{}", sig), &format!("the process was killed by signal {} inside a library call (stack overflow, abort or memory error)", sig));
            }
            return 2;
        }
        match sys::wexit(st) {
            0 | 11 => 1,
            10 => 2,
            99 => 3,
            c => {
                set_msg("exit", &format!("the process ended unexpectedly with status {}", c));
                2
            }
        }
    }
}

/// Runs with tracing into a scratch file.
pub fn run_traced(world: &dyn World, prop: &str, thorough: bool, what: What, want_trace: bool) -> Outcome {
    unsafe {
        let path = format!("{}/trace.{}\0", crate::scratch(), sys::getpid());
        if want_trace {
            TRACE_FD = sys::open(path.as_ptr() as *const _, 0o1000 | 0o100 | 1, 0o600u32);
        }
        let r = run_forked(world, prop, thorough, what, std::ptr::null_mut());
        let mut trace = String::new();
        if TRACE_FD >= 0 {
            sys::close(TRACE_FD);
            TRACE_FD = -1;
            trace = String::from_utf8_lossy(&std::fs::read(&path[..path.len() - 1]).unwrap_or_default()).to_string();
            let _ = std::fs::remove_file(&path[..path.len() - 1]);
        }
        let (class, msg) = get_msg(SLOT);
        if r == 3 {
            eprintln!("HARNESS ERROR: {}", msg);
        }
        Outcome { ok: r == 1, class: if r == 1 { String::new() } else { class }, msg, trace }
    }
}

/// A copy of this process as it is now, kept aside until `ask` hands it a request.
pub struct Aside {
    pid: i32,
    to: i32,
    from: i32,
}
unsafe fn read_all(fd: i32) -> Vec<u8> {
    let mut out = Vec::new();
    let mut b = [0u8; 65536];
    loop {
        let n = sys::read(fd, b.as_mut_ptr() as *mut _, b.len());
        if n > 0 {
            out.extend_from_slice(&b[..n as usize]);
        } else if n == 0 || sys::errno() != 4 {
            return out;
        }
    }
}
unsafe fn write_all(fd: i32, b: &[u8]) {
    let mut off = 0;
    while off < b.len() {
        let n = sys::write(fd, b[off..].as_ptr() as *const _, b.len() - off);
        if n <= 0 {
            break;
        }
        off += n as usize;
    }
}
impl Aside {
    pub fn new(serve: fn(&[u8]) -> Vec<u8>) -> Aside {
        unsafe {
            let (mut a, mut b) = ([0i32; 2], [0i32; 2]);
            if sys::pipe(a.as_mut_ptr()) != 0 || sys::pipe(b.as_mut_ptr()) != 0 {
                harness_error("pipe failed");
            }
            let pid = sys::fork();
            if pid < 0 {
                harness_error("fork failed");
            }
            if pid == 0 {
                TRACE_FD = -1;
                sys::close(a[1]);
                sys::close(b[0]);
                let q = read_all(a[0]);
                if q.is_empty() {
                    sys::_exit(0); // the run ended early
                }
                sys::alarm(60);
                let r = std::panic::catch_unwind(|| serve(&q));
                match r {
                    Ok(r) => {
                        write_all(b[1], &r);
                        sys::_exit(0)
                    }
                    Err(_) => harness_error("panic in a process kept aside"),
                }
            }
            sys::close(a[0]);
            sys::close(b[1]);
            Aside { pid, to: a[1], from: b[0] }
        }
    }
    /// The answer; Ok(None) if the process gave up, Err if it failed.
    pub fn ask(self, q: &[u8]) -> Result<Option<Vec<u8>>, String> {
        unsafe {
            write_all(self.to, q);
            sys::close(self.to);
            let out = read_all(self.from);
            sys::close(self.from);
            let mut st = 0i32;
            while sys::waitpid(self.pid, &mut st, 0) != self.pid {
                if sys::errno() != 4 {
                    harness_error("waitpid failed");
                }
            }
            match sys::wifsignaled(st) {
                Some(14) => return Ok(None),
                Some(s) if s == 9 || s == 15 || s == 2 => harness_error("a process kept aside was ended from outside"),
                Some(s) => return Err(format!("it was ended by signal {}", s)),
                None => {}
            }
            match sys::wexit(st) {
                0 => Ok(Some(out)),
                11 => Ok(None),
                99 => sys::_exit(99),
                10 => Err(get_msg(SLOT).1),
                c => Err(format!("it ended with status {}", c)),
            }
        }
    }
}

pub fn run_seed(seed: u64, prop: &str, i: u64) -> u64 {
    let mut h = Digest::new();
    h.add(prop.as_bytes());
    h.add_u64(seed);
    h.add_u64(i);
    mix(h.0)
}
pub fn run_env(rs: u64) -> EnvCfg {
    let mut r = Rng::new(rs ^ 0xE27);
    EnvCfg::random(&mut r)
}

fn parse_trace(t: &str) -> Vec<Step> {
    t.lines().filter_map(Step::parse).collect()
}

// ---------------------------------------------------------------- batch
pub struct Batch {
    pub runs: u64,
    pub done: u64,
    pub viol: Option<u64>,
    recs: Vec<RunRec>,
    pub cnt: Vec<u64>,
    pub cov_hit: u64,
    pub wall: f64,
    pub harness_err: bool,
    pub viol_class: String,
    pub viol_msg: String,
}

pub fn init_shared() {
    unsafe {
        if SHARED.is_null() {
            SHARED = sys::shared_map(std::mem::size_of::<Shared>()) as *mut Shared;
        }
        (*SHARED).min_viol.store(u64::MAX, SeqCst);
        (*SHARED).harness_err.store(0, SeqCst);
        for c in (*SHARED).cnt.iter() {
            c.store(0, SeqCst);
        }
    }
}

pub fn batch(world: &dyn World, prop: &str, thorough: bool, seed: u64, runs: u64, workers: usize, wall_cap: f64) -> Batch {
    init_shared();
    let t0 = sys::real_now();
    let recs = unsafe { sys::shared_map(std::mem::size_of::<RunRec>() * runs as usize + 4096) as *mut RunRec };
    let mut pids = Vec::new();
    for w in 0..workers {
        let pid = unsafe { sys::fork() };
        if pid < 0 {
            eprintln!("fork failed");
            std::process::exit(2);
        }
        if pid == 0 {
            unsafe {
                sys::prctl(1, 9, 0, 0, 0); // die with the parent
                SLOT = w;
                let mut i = w as u64;
                while i < runs {
                    if i > (*SHARED).min_viol.load(SeqCst) || sys::real_now() - t0 > wall_cap {
                        break;
                    }
                    let rs = run_seed(seed, prop, i);
                    let e = run_env(rs);
                    let rec = recs.add(i as usize);
                    let r = run_forked(world, prop, thorough, What::Gen(rs, &e), rec);
                    (*rec).status = r;
                    if r == 3 {
                        let (_, m) = get_msg(SLOT);
                        eprintln!("HARNESS ERROR in run {}: {}", i, m);
                        (*SHARED).harness_err.store(1, SeqCst);
                        break;
                    }
                    if r == 2 {
                        (*SHARED).min_viol.fetch_min(i, SeqCst);
                        break;
                    }
                    i += workers as u64;
                }
                sys::_exit(0);
            }
        }
        pids.push(pid);
    }
    let mut worker_died = false;
    for p in pids {
        let mut st = 0;
        unsafe {
            while sys::waitpid(p, &mut st, 0) != p {
                if sys::errno() != 4 {
                    break;
                }
            }
        }
        if st != 0 {
            worker_died = true;
        }
    }
    let v: Vec<RunRec> = unsafe { std::slice::from_raw_parts(recs, runs as usize).to_vec() };
    unsafe {
        sys::munmap(recs as *mut _, std::mem::size_of::<RunRec>() * runs as usize + 4096);
    }
    let sh = shared();
    let (mv, he, cnt, cov) = unsafe {
        ((*sh).min_viol.load(SeqCst), (*sh).harness_err.load(SeqCst) != 0,
         (*sh).cnt.iter().map(|c| c.load(SeqCst)).collect::<Vec<u64>>(),
         (*sh).cov.iter().map(|c| *c as u64).sum::<u64>())
    };
    Batch {
        runs,
        done: v.iter().filter(|r| r.status == 1 || r.status == 2).count() as u64,
        viol: if mv == u64::MAX { None } else { Some(mv) },
        recs: v,
        cnt,
        cov_hit: cov,
        wall: sys::real_now() - t0,
        harness_err: he || (worker_died && mv == u64::MAX),
        viol_class: String::new(),
        viol_msg: String::new(),
    }
}

// ---------------------------------------------------------------- minimisation
pub fn minimise(world: &dyn World, prop: &str, thorough: bool, steps: Vec<Step>, envc: EnvCfg, class: &str, cap: f64) -> (Vec<Step>, EnvCfg, u64) {
    let t0 = sys::real_now();
    let mut trials = 0u64;
    let mut cur = steps;
    let mut cenv = envc;
    let test = |s: &[Step], e: &EnvCfg, trials: &mut u64| -> bool {
        *trials += 1;
        let o = run_traced(world, prop, thorough, What::Replay(s, e), false);
        !o.ok && o.class == class
    };
    if class == "wall" {
        return (cur, cenv, 0);
    }
    let mut rounds = 0;
    loop {
        let before = cur.len();
        let mut changed = false;
        // 1. drop chunks of steps, largest first
        let mut chunk = (cur.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < cur.len() {
                if sys::real_now() - t0 > cap {
                    return (cur, cenv, trials);
                }
                let j = (i + chunk).min(cur.len());
                let mut c: Vec<Step> = cur[..i].to_vec();
                c.extend_from_slice(&cur[j..]);
                if c.len() < cur.len() && test(&c, &cenv, &mut trials) {
                    cur = c;
                    changed = true;
                } else {
                    i = j;
                }
            }
            if chunk == 1 {
                break;
            }
            chunk = (chunk / 2).max(1);
        }
        // 2. simpler environment
        let plain = EnvCfg::plain();
        if cenv != plain && test(&cur, &plain, &mut trials) {
            cenv = plain;
            changed = true;
        }
        // 3. smaller arguments
        let mut i = 0;
        while i < cur.len() {
            let mut again = true;
            while again {
                again = false;
                for alt in world.shrink(&cur[i]) {
                    if sys::real_now() - t0 > cap {
                        return (cur, cenv, trials);
                    }
                    let mut c = cur.clone();
                    c[i] = alt;
                    if c != cur && test(&c, &cenv, &mut trials) {
                        cur = c;
                        changed = true;
                        again = true;
                        break;
                    }
                }
            }
            i += 1;
        }
        rounds += 1;
        if !changed || rounds > 6 || (cur.len() == before && rounds > 4) {
            return (cur, cenv, trials);
        }
    }
}

// ---------------------------------------------------------------- check
fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    let _ = write!(o, "\\u{:04x}", u);
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct CheckArgs {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub runs: u64,
    pub workers: usize,
    pub wall_cap: f64,
    pub evidence: String,
    pub replay_dir: String,
    pub build_info: String,
}

pub fn check(world: &dyn World, a: &CheckArgs) -> i32 {
    println!("seed={} property={} runs={} workers={} instrumented_blocks={}", a.seed, a.prop, a.runs, a.workers, env::guards());
    let t0 = sys::real_now();
    let mut b = batch(world, &a.prop, a.thorough, a.seed, a.runs, a.workers, a.wall_cap);
    if b.harness_err && b.viol.is_none() {
        eprintln!("ERROR: the harness failed; no verdict");
        return 2;
    }
    let mut replay_path = String::new();
    let mut verified = false;
    let mut trials = 0;
    let mut min_len = 0;
    if let Some(i) = b.viol {
        let rs = run_seed(a.seed, &a.prop, i);
        let e = run_env(rs);
        let mut o = run_traced(world, &a.prop, a.thorough, What::Gen(rs, &e), true);
        for _ in 0..3 {
            if !o.ok {
                break;
            }
            o = run_traced(world, &a.prop, a.thorough, What::Gen(rs, &e), true);
        }
        let steps = parse_trace(&o.trace);
        let class = if o.ok { "not-reproducible".to_string() } else { o.class.clone() };
        b.viol_class = class.clone();
        b.viol_msg = o.msg.clone();
        println!("run {} (run seed {}) violates the property: [{}] {}", i, rs, class, o.msg);
        let mut fin = steps.clone();
        let mut fenv = e.clone();
        // does the recorded trace reproduce by itself?
        let r0 = run_traced(world, &a.prop, a.thorough, What::Replay(&steps, &e), false);
        if !r0.ok && r0.class == class {
            let (m, me, t) = minimise(world, &a.prop, a.thorough, steps, e, &class, 40.0);
            trials = t;
            let o2 = run_traced(world, &a.prop, a.thorough, What::Replay(&m, &me), true);
            if !o2.ok && o2.class == class {
                b.viol_msg = o2.msg.clone();
                let ex = parse_trace(&o2.trace); // only the steps that were executed
                let o3 = run_traced(world, &a.prop, a.thorough, What::Replay(&ex, &me), false);
                fin = if !o3.ok && o3.class == class { ex } else { m };
                fenv = me;
            }
        }
        min_len = fin.len();
        let _ = std::fs::create_dir_all(&a.replay_dir);
        replay_path = format!("{}/{}-seed{}-run{}.replay", a.replay_dir, a.prop, a.seed, i);
        let mut f = String::new();
        let _ = writeln!(f, "# amxml-sim replay; run: ./check replay <this file>");
        let _ = writeln!(f, "property {}", a.prop);
        let _ = writeln!(f, "tier {}", if a.thorough { "thorough" } else { "quick" });
        let _ = writeln!(f, "origin VERIF_SEED={} run={} run_seed={}", a.seed, i, rs);
        let _ = writeln!(f, "class {}", class);
        for l in b.viol_msg.lines() {
            let _ = writeln!(f, "# {}", l);
        }
        let _ = writeln!(f, "{}", fenv.to_line());
        for s in &fin {
            let _ = writeln!(f, "{}", s.to_line());
        }
        if std::fs::write(&replay_path, &f).is_err() {
            eprintln!("cannot write {}", replay_path);
        }
        // a fresh process must fail in the same way
        let exe = std::env::current_exe().unwrap();
        if let Ok(o) = std::process::Command::new(exe).arg("replay").arg(&replay_path).output() {
            verified = o.status.code() == Some(1);
        }
        println!("minimised to {} steps in {} trials; replay in a fresh process {}", fin.len(), trials,
            if verified { "reproduces it" } else { "does NOT reproduce it" });
        for s in fin.iter().take(40) {
            println!("    {}", s.to_line());
        }
        println!("  {}", b.viol_msg);
    }
    // samples: the first runs, executed again with their trace
    let mut samples = Vec::new();
    if b.viol.is_none() {
        for i in 0..a.runs.min(2) {
            let rs = run_seed(a.seed, &a.prop, i);
            let e = run_env(rs);
            let o = run_traced(world, &a.prop, a.thorough, What::Gen(rs, &e), true);
            let mut t = String::new();
            for l in o.trace.lines().take(25) {
                let l: String = l.chars().take(200).collect();
                t += &l;
                t += "\n";
            }
            samples.push(format!("run {} (run seed {}, {})\n{}", i, rs, e.to_line(), t));
        }
    } else {
        samples.push(format!("violating run, minimised: see {}", replay_path));
    }
    // evidence
    let mut distinct = BTreeSet::new();
    let (mut steps, mut edges, mut sim, mut nontriv, mut allocs, mut sw) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    for r in &b.recs {
        if r.status == 1 {
            steps += r.steps;
            edges += r.edges;
            sim += r.sim_ns;
            allocs += r.allocs;
            sw += r.switches;
            if r.nontrivial != 0 {
                nontriv += 1;
                distinct.insert(r.digest);
            }
        }
    }
    let names = world.counters();
    let mut cm = BTreeMap::new();
    cm.insert("runs without a verdict", b.cnt[NCNT - 1]);
    for (i, n) in names.iter().enumerate() {
        cm.insert(*n, b.cnt[i]);
    }
    let wall = sys::real_now() - t0;
    let mut j = String::new();
    let _ = write!(j, "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n",
        json_str(&a.prop), json_str(if a.thorough { "thorough" } else { "quick" }), a.seed);
    let _ = write!(j, "  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n", b.done, distinct.len(), json_str(&world.rule()));
    let _ = write!(j, "  \"samples\": [{}],\n", samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "));
    let _ = write!(j, "  \"nontrivial_runs\": {},\n  \"runs_planned\": {},\n  \"runs_per_hour\": {},\n  \"steps_executed\": {},\n  \"thread_switches\": {},\n  \"basic_blocks_executed_in_library\": {},\n  \"library_allocations\": {},\n  \"simulated_time_s\": {},\n",
        nontriv, b.runs, (b.done as f64 / b.wall.max(0.001) * 3600.0) as u64, steps, sw, edges, allocs, sim as f64 / 1e9);
    let _ = write!(j, "  \"library_blocks_reached\": {},\n  \"library_blocks_total\": {},\n", b.cov_hit, env::guards());
    let _ = write!(j, "  \"events_and_faults\": {{{}}},\n", cm.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect::<Vec<_>>().join(", "));
    let _ = write!(j, "  \"components\": {},\n  \"build\": {},\n", json_str(&world.real_and_stub()), json_str(&a.build_info));
    let _ = write!(j, "  \"minimiser_trials\": {},\n  \"minimised_steps\": {}\n }},\n", trials, min_len);
    let _ = write!(j, " \"assumptions\": [\"runs are sampled by a seeded generator, not enumerated\", \"the reference model in /verif/sim is right\"],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n", wall, b.viol.is_some() as u32);
    if std::fs::write(&a.evidence, &j).is_err() {
        eprintln!("cannot write {}", a.evidence);
        return 2;
    }
    println!("{} of {} runs, {} distinct non-trivial, {} steps, {} blocks executed, {}/{} library blocks reached, {:.1} s",
        b.done, b.runs, distinct.len(), steps, edges, b.cov_hit, env::guards(), wall);
    if b.viol.is_some() {
        println!("VIOLATION property={} replay={}", a.prop, replay_path);
        return 1;
    }
    if b.done < b.runs {
        println!("note: wall-clock cap reached, {} runs not executed", b.runs - b.done);
    }
    0
}

// ---------------------------------------------------------------- replay and self test
pub fn replay(worlds: &dyn Fn(&str) -> Option<Box<dyn World>>, path: &str) -> i32 {
    let t = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {}", path, e);
            return 2;
        }
    };
    let mut prop = String::new();
    let mut class = String::new();
    let mut thorough = false;
    let mut envc = EnvCfg::plain();
    let mut steps = Vec::new();
    for l in t.lines() {
        if l.starts_with('#') {
            continue;
        } else if let Some(p) = l.strip_prefix("property ") {
            prop = p.trim().to_string();
        } else if let Some(p) = l.strip_prefix("class ") {
            class = p.trim().to_string();
        } else if let Some(p) = l.strip_prefix("tier ") {
            thorough = p.trim() == "thorough";
        } else if l.starts_with("env ") {
            if let Some(e) = EnvCfg::parse(l) {
                envc = e;
            }
        } else if l.starts_with("origin ") || l.starts_with("digest ") {
        } else if let Some(s) = Step::parse(l) {
            steps.push(s);
        }
    }
    let w = match worlds(&prop) {
        Some(w) => w,
        None => {
            eprintln!("unknown property {}", prop);
            return 2;
        }
    };
    init_shared();
    let o = run_traced(w.as_ref(), &prop, thorough, What::Replay(&steps, &envc), true);
    print!("{}", o.trace);
    if o.ok {
        println!("no violation");
        return 0;
    }
    println!("[{}] {}", o.class, o.msg);
    if o.class == class {
        println!("VIOLATION property={} replay={}", prop, path);
        return 1;
    }
    println!("a different outcome than recorded ({})", class);
    if o.class == "harness" {
        return 2;
    }
    println!("VIOLATION property={} replay={}", prop, path);
    1
}

/// Determinism: the same seeds twice, at two worker counts; every run's digest, steps and block
/// count must agree, and so must a replay of its recorded trace.
pub fn selftest(world: &dyn World, prop: &str, seed: u64, runs: u64) -> bool {
    let mut ok = true;
    let b1 = batch(world, prop, false, seed, runs, 8, 1e9);
    let b2 = batch(world, prop, false, seed, runs, 3, 1e9);
    let mut bad = 0;
    for i in 0..runs as usize {
        let (x, y) = (&b1.recs[i], &b2.recs[i]);
        if x.status != y.status || x.digest != y.digest || x.steps != y.steps || x.edges != y.edges || x.switches != y.switches || x.allocs != y.allocs {
            bad += 1;
            if bad < 4 {
                println!("  run {}: {:016x}/{}/{}/{} vs {:016x}/{}/{}/{}", i, x.digest, x.steps, x.edges, x.switches, y.digest, y.steps, y.edges, y.switches);
            }
        }
    }
    if bad > 0 {
        ok = false;
    }
    let mut rbad = 0;
    let nr = runs.min(60);
    for i in 0..nr {
        let rs = run_seed(seed, prop, i);
        let e = run_env(rs);
        let o = run_traced(world, prop, false, What::Gen(rs, &e), true);
        let d1 = o.trace.lines().find(|l| l.starts_with("digest ")).unwrap_or("").to_string();
        let st = parse_trace(&o.trace);
        let o2 = run_traced(world, prop, false, What::Replay(&st, &e), true);
        let d2 = o2.trace.lines().find(|l| l.starts_with("digest ")).unwrap_or("").to_string();
        if d1 != d2 || o.trace != o2.trace || o.trace.is_empty() {
            rbad += 1;
            if rbad < 3 {
                println!("  run {}: trace replay differs ({} / {}) {} {}", i, d1, d2, o.msg, o2.msg);
                for (a, b) in o.trace.lines().zip(o2.trace.lines()) {
                    if a != b {
                        println!("   gen: {}\n   rep: {}", a, b);
                        break;
                    }
                }
            }
        }
    }
    if rbad > 0 {
        ok = false;
    }
    println!("{}: {} runs x2 at 8 and 3 workers: {} differ; {} trace replays: {} differ", prop, runs, bad, nr, rbad);
    ok
}
