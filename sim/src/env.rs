//! The seams: allocator, block counter (schedule points, step budget, coverage), hash seeds,
//! clock, futex/yield, and the scheduler that decides which simulated thread runs.
#![allow(static_mut_refs)]

use crate::rng::Rng;
use crate::sys;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::ffi::c_void;

// ---------------------------------------------------------------- environment of one run
#[derive(Clone, Debug, PartialEq)]
pub struct EnvCfg {
    pub alloc_policy: u32, // 0 lifo, 1 fifo, 2 random, 3 no reuse, 4 descending
    pub alloc_seed: u64,
    pub hash_seed: u64,
    pub clock_mode: u32, // 0 steady, 1 jumps, 2 frozen
    pub clock_seed: u64,
}

impl EnvCfg {
    pub fn plain() -> EnvCfg {
        EnvCfg { alloc_policy: 0, alloc_seed: 1, hash_seed: 1, clock_mode: 0, clock_seed: 1 }
    }
    pub fn random(r: &mut Rng) -> EnvCfg {
        EnvCfg {
            alloc_policy: r.below(5) as u32,
            alloc_seed: r.next() >> 16,
            hash_seed: r.next() >> 16,
            clock_mode: r.below(3) as u32,
            clock_seed: r.next() >> 16,
        }
    }
    pub fn to_line(&self) -> String {
        format!("env {} {} {} {} {}", self.alloc_policy, self.alloc_seed, self.hash_seed, self.clock_mode, self.clock_seed)
    }
    pub fn parse(line: &str) -> Option<EnvCfg> {
        let v: Vec<u64> = line.split_whitespace().skip(1).filter_map(|x| x.parse().ok()).collect();
        if v.len() != 5 {
            return None;
        }
        Some(EnvCfg { alloc_policy: v[0] as u32, alloc_seed: v[1], hash_seed: v[2], clock_mode: v[3] as u32, clock_seed: v[4] })
    }
}

pub const ALLOC_POLICY_NAMES: [&str; 5] = ["lifo", "fifo", "random", "no-reuse", "descending"];

/// Applied once, in the forked child that executes a run.
pub fn apply(e: &EnvCfg) {
    unsafe {
        POLICY = e.alloc_policy;
        ARENA_RNG = crate::rng::mix(e.alloc_seed) | 1;
        HASH_STATE = crate::rng::mix(e.hash_seed);
        CLOCK_MODE = e.clock_mode;
        CLOCK_RNG = crate::rng::mix(e.clock_seed) | 1;
        SIM_NS = 1_000_000_000 * (1 + e.clock_seed % 2_000_000_000);
        let skew = (crate::rng::mix(e.alloc_seed ^ 77) % 4096) * 16;
        BUMP_LO = ARENA_BASE + skew as usize;
        BUMP_HI = ARENA_BASE + ARENA_LEN;
        SIM_ON = true;
    }
    unsafe { ENV_SEED = crate::rng::mix(e.hash_seed ^ 0x55) };
}
static mut ENV_SEED: u64 = 0;
pub static mut ENV_READS: u64 = 0;
const ENV_VALUES: [&str; 12] = ["\0", "0\0", "1\0", "2\0", "16\0", "true\0", "C\0", "tr_TR.UTF-8\0", "Asia/Tokyo\0", "/tmp\0", "debug\0", "1000000\0"];

extern "C" {
    static environ: *const *const u8;
}

/// Inside library calls every environment variable has the value this run's seed gives it; three
/// quarters of all names are set. Outside, and for the Rust runtime's own names, the real ones.
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const u8) -> *const u8 {
    let mut n = 0;
    while *name.add(n) != 0 {
        n += 1;
    }
    let name = std::slice::from_raw_parts(name, n);
    if SIM_ON && !name.starts_with(b"RUST") && IN_LIB.try_with(|f| f.get()).unwrap_or(false) {
        ENV_READS += 1;
        let mut h = ENV_SEED;
        for b in name {
            h = crate::rng::mix(h ^ *b as u64);
        }
        return if h % 4 == 0 { std::ptr::null() } else { ENV_VALUES[(h >> 8) as usize % ENV_VALUES.len()].as_ptr() };
    }
    let mut p = environ;
    while !p.is_null() && !(*p).is_null() {
        let e = *p;
        let mut i = 0;
        while i < n && *e.add(i) == name[i] {
            i += 1;
        }
        if i == n && *e.add(n) == b'=' {
            return e.add(n + 1);
        }
        p = p.add(1);
    }
    std::ptr::null()
}

/// The process number and the number of processors, as the library sees them.
#[no_mangle]
pub unsafe extern "C" fn getpid() -> i32 {
    if SIM_ON && IN_LIB.try_with(|f| f.get()).unwrap_or(false) {
        return 2 + (ENV_SEED >> 20) as i32 % 30_000;
    }
    sys::raw_syscall(39, 0, 0, 0, 0, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: i32, len: usize, mask: *mut u8) -> i32 {
    if SIM_ON && IN_LIB.try_with(|f| f.get()).unwrap_or(false) {
        std::ptr::write_bytes(mask, 0, len);
        for i in 0..1 + (ENV_SEED >> 40) as usize % 64 {
            if i / 8 < len {
                *mask.add(i / 8) |= 1 << (i % 8);
            }
        }
        return 0;
    }
    let r = sys::raw_syscall(204, pid as i64, len as i64, mask as i64, 0, 0, 0);
    if r < 0 {
        sys::set_errno(-r as i32);
        return -1;
    }
    if (r as usize) < len {
        std::ptr::write_bytes(mask.add(r as usize), 0, len - r as usize);
    }
    0
}

static mut SIM_ON: bool = false;

// ---------------------------------------------------------------- in-library flag
thread_local! {
    static IN_LIB: Cell<bool> = const { Cell::new(false) };
    static SIM_TID: Cell<i32> = const { Cell::new(-1) };
}

pub fn in_lib() -> bool {
    IN_LIB.with(|f| f.get())
}
pub fn set_in_lib(v: bool) -> bool {
    IN_LIB.with(|f| f.replace(v))
}

// ---------------------------------------------------------------- allocator
const ARENA_BASE: usize = 0x2000_0000_0000;
const ARENA_LEN: usize = 8 << 30;
const HDR: usize = 16;
const NCLASS: usize = 110;
const FL_CAP: usize = 1 << 22;
pub const MEM_CAP: usize = 1 << 30;

static mut ARENA_OK: bool = false;
static mut POLICY: u32 = 0;
static mut ARENA_RNG: u64 = 1;
static mut BUMP_LO: usize = 0;
static mut BUMP_HI: usize = 0;
pub static mut LIVE_BYTES: usize = 0;
pub static mut LIVE_BLOCKS: usize = 0;
pub static mut PEAK_BYTES: usize = 0;
pub static mut TOTAL_ALLOCS: u64 = 0;

struct FreeList {
    buf: *mut usize,
    head: usize,
    len: usize,
}
static mut FREE: [FreeList; NCLASS] = [const { FreeList { buf: std::ptr::null_mut(), head: 0, len: 0 } }; NCLASS];

fn class_of(size: usize) -> (usize, usize) {
    if size <= 1024 {
        let c = (size + 15) / 16;
        let c = if c == 0 { 1 } else { c };
        (c, c * 16)
    } else {
        let p = size.next_power_of_two();
        (64 + (p.trailing_zeros() as usize - 10), p)
    }
}

pub fn init_arena() {
    unsafe {
        let p = sys::mmap(ARENA_BASE as *mut c_void, ARENA_LEN, sys::PROT_RW,
            sys::MAP_PRIVATE | sys::MAP_ANON | sys::MAP_NORESERVE | sys::MAP_FIXED_NOREPLACE, -1, 0);
        ARENA_OK = p as usize == ARENA_BASE;
        BUMP_LO = ARENA_BASE;
        BUMP_HI = ARENA_BASE + ARENA_LEN;
    }
}
pub fn arena_ok() -> bool {
    unsafe { ARENA_OK }
}

fn xs(s: &mut u64) -> u64 {
    *s ^= *s << 13;
    *s ^= *s >> 7;
    *s ^= *s << 17;
    *s
}

unsafe fn arena_alloc(size: usize) -> *mut u8 {
    let (c, full) = class_of(size + HDR);
    TOTAL_ALLOCS += 1;
    LIVE_BYTES += size;
    LIVE_BLOCKS += 1;
    if LIVE_BYTES > PEAK_BYTES {
        PEAK_BYTES = LIVE_BYTES;
        if LIVE_BYTES > MEM_CAP {
            crate::runner::die("memory", "memory in use by the library exceeds 1 GiB");
        }
    }
    let fl = &mut FREE[c];
    let mut addr = 0usize;
    if fl.len > 0 && POLICY != 3 {
        match POLICY {
            1 => {
                addr = *fl.buf.add(fl.head % FL_CAP);
                fl.head += 1;
                fl.len -= 1;
            }
            2 => {
                if xs(&mut ARENA_RNG) % 4 != 0 {
                    let k = (xs(&mut ARENA_RNG) as usize) % fl.len;
                    let i = (fl.head + k) % FL_CAP;
                    let last = (fl.head + fl.len - 1) % FL_CAP;
                    addr = *fl.buf.add(i);
                    *fl.buf.add(i) = *fl.buf.add(last);
                    fl.len -= 1;
                }
            }
            _ => {
                fl.len -= 1;
                addr = *fl.buf.add((fl.head + fl.len) % FL_CAP);
            }
        }
    }
    if addr == 0 {
        let gap = if POLICY == 2 { (xs(&mut ARENA_RNG) % 8) as usize * 16 } else { 0 };
        let down = POLICY == 4 || (POLICY == 2 && xs(&mut ARENA_RNG) & 1 == 1);
        if down {
            BUMP_HI -= full + gap;
            BUMP_HI &= !15;
            addr = BUMP_HI;
        } else {
            addr = BUMP_LO + gap;
            BUMP_LO += full + gap;
        }
        if BUMP_LO >= BUMP_HI {
            crate::runner::die("memory", "address space given to the library is used up");
        }
    }
    *(addr as *mut usize) = size;
    *((addr + 8) as *mut usize) = c;
    (addr + HDR) as *mut u8
}

unsafe fn arena_free(p: *mut u8) {
    let addr = p as usize - HDR;
    let size = *(addr as *mut usize);
    let c = *((addr + 8) as *mut usize);
    LIVE_BYTES -= size;
    LIVE_BLOCKS -= 1;
    if POLICY == 3 {
        return;
    }
    let fl = &mut FREE[c];
    if fl.buf.is_null() {
        fl.buf = sys::mmap(std::ptr::null_mut(), FL_CAP * 8, sys::PROT_RW,
            sys::MAP_PRIVATE | sys::MAP_ANON | sys::MAP_NORESERVE, -1, 0) as *mut usize;
    }
    if fl.len < FL_CAP {
        *fl.buf.add((fl.head + fl.len) % FL_CAP) = addr;
        fl.len += 1;
    }
}

fn in_arena(p: *mut u8) -> bool {
    let a = p as usize;
    a >= ARENA_BASE && a < ARENA_BASE + ARENA_LEN
}

pub struct SimAlloc;

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ARENA_OK && l.align() <= 16 && IN_LIB.try_with(|f| f.get()).unwrap_or(false) {
            arena_alloc(l.size())
        } else {
            System.alloc(l)
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if in_arena(p) {
            arena_free(p)
        } else {
            System.dealloc(p, l)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let lib = ARENA_OK && l.align() <= 16 && IN_LIB.try_with(|f| f.get()).unwrap_or(false);
        if !lib && !in_arena(p) {
            return System.realloc(p, l, n);
        }
        let nl = Layout::from_size_align_unchecked(n, l.align());
        let q = self.alloc(nl);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}

// ---------------------------------------------------------------- block counter
pub const COV_LEN: usize = 1 << 16;
static mut COV_LOCAL: [u8; COV_LEN] = [0; COV_LEN];
static mut NGUARDS: u32 = 0;
pub static mut EDGES: u64 = 0;
static mut NEXT_EVENT: u64 = u64::MAX;
static mut BUDGET_END: u64 = u64::MAX;
static mut SWITCH_AT: u64 = u64::MAX;

pub const CALL_BUDGET: u64 = 300_000_000;

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    if start == stop || *start != 0 {
        return;
    }
    while p < stop {
        NGUARDS += 1;
        *p = NGUARDS;
        p = p.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    let g = *guard as usize & (COV_LEN - 1);
    COV_LOCAL[g] = 1;
    EDGES += 1;
    if EDGES >= NEXT_EVENT {
        slow_event();
    }
}

extern "C" {
    static __data_start: u8;
    static _end: u8;
}
pub static mut SHARED_ACCESSES: u64 = 0;

/// Loads and stores of the library: memory that exists once for all threads (statics) is where they
/// can meet, so every access to it is a scheduling point with a probability of its own.
#[inline(always)]
unsafe fn access(p: *const u8) {
    let base = std::ptr::addr_of!(__data_start) as usize;
    if (p as usize).wrapping_sub(base) < std::ptr::addr_of!(_end) as usize - base {
        shared_access();
    }
}
#[cold]
#[inline(never)]
unsafe fn shared_access() {
    if SIM_TID.with(|t| t.get()) < 0 {
        return;
    }
    SHARED_ACCESSES += 1;
    EDGES += 1;
    if !REPLAYING && SHARED_ACCESSES < 20_000 && xs(&mut SCHED_RNG) % 3 == 0 {
        SWITCH_AT = EDGES;
        recompute();
    }
    if EDGES >= NEXT_EVENT {
        slow_event();
    }
}
macro_rules! accesses {
    ($($n:ident)*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $n(p: *const u8) {
            access(p)
        }
    )* };
}
accesses! { __sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
    __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16 }

#[cold]
#[inline(never)]
unsafe fn slow_event() {
    if EDGES >= BUDGET_END {
        crate::runner::die("hang", &format!("a single library call executed more than {} basic blocks without returning", CALL_BUDGET));
    }
    if EDGES >= SWITCH_AT {
        sched_preempt();
    }
    recompute();
}

unsafe fn recompute() {
    NEXT_EVENT = BUDGET_END.min(SWITCH_AT);
}

pub fn guards() -> u32 {
    unsafe { NGUARDS }
}
pub fn edges() -> u64 {
    unsafe { EDGES }
}
pub unsafe fn merge_coverage(dst: *mut u8) {
    let n = (NGUARDS as usize + 1).min(COV_LEN);
    for i in 0..n {
        if COV_LOCAL[i] != 0 {
            *dst.add(i) = 1;
        }
    }
}

/// Starts the step budget of one library call; returns the previous end.
pub fn arm_budget() -> u64 {
    unsafe {
        let old = BUDGET_END;
        BUDGET_END = EDGES + if crate::runner::LONG_CALLS { CALL_BUDGET * 4 } else if crate::runner::HANG_SKIPS { CALL_BUDGET / 5 } else { CALL_BUDGET };
        recompute();
        old
    }
}
pub fn restore_budget(old: u64) {
    unsafe {
        BUDGET_END = old;
        recompute();
    }
}

// ---------------------------------------------------------------- hash seeds and clock
static mut HASH_STATE: u64 = 42;
pub static mut HASH_SEEDINGS: u64 = 0;
static mut CLOCK_MODE: u32 = 0;
static mut CLOCK_RNG: u64 = 1;
static mut SIM_NS: u64 = 1_700_000_000_000_000_000;
static mut MONO_NS: u64 = 1_000_000_000;
pub static mut CLOCK_READS: u64 = 0;
pub static mut CLOCK_JUMPS: u64 = 0;

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    HASH_SEEDINGS += 1;
    for i in 0..len {
        HASH_STATE = HASH_STATE.wrapping_add(0x9E37_79B9_7F4A_7C15);
        *buf.add(i) = (crate::rng::mix(HASH_STATE) >> 24) as u8;
    }
    len as isize
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut i64) -> i32 {
    if !SIM_ON {
        let r = sys::raw_syscall(228, clk as i64, ts as i64, 0, 0, 0, 0);
        return if r < 0 { -1 } else { 0 };
    }
    CLOCK_READS += 1;
    let mut adv = 1000u64;
    match CLOCK_MODE {
        1 => {
            let r = xs(&mut CLOCK_RNG);
            if r % 4 == 0 {
                CLOCK_JUMPS += 1;
                adv = (r >> 8) % 4_000_000_000_000;
                if r & 16 != 0 {
                    SIM_NS = SIM_NS.saturating_sub(2 * adv);
                }
            }
        }
        2 => adv = 0,
        _ => {}
    }
    SIM_NS += adv;
    MONO_NS += adv;
    let t = if clk == 0 || clk == 5 { SIM_NS } else { MONO_NS };
    *ts = (t / 1_000_000_000) as i64;
    *ts.add(1) = (t % 1_000_000_000) as i64;
    0
}

unsafe fn sim_sleep(ns: u64) {
    SIM_NS += ns;
    MONO_NS += ns;
    sched_yield_now();
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const i64, _rem: *mut i64) -> i32 {
    if !SIM_ON {
        let r = sys::raw_syscall(35, req as i64, 0, 0, 0, 0, 0);
        return if r < 0 { -1 } else { 0 };
    }
    sim_sleep(*req as u64 * 1_000_000_000 + *req.add(1) as u64);
    0
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: i32, flags: i32, req: *const i64, rem: *mut i64) -> i32 {
    if !SIM_ON {
        return -sys::raw_syscall(230, clk as i64, flags as i64, req as i64, rem as i64, 0, 0) as i32;
    }
    sim_sleep(if flags == 0 { *req as u64 * 1_000_000_000 + *req.add(1) as u64 } else { 1000 });
    0
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if SIM_TID.with(|t| t.get()) >= 0 {
        sched_yield_now();
    } else {
        sys::raw_syscall(24, 0, 0, 0, 0, 0, 0);
    }
    0
}

/// std's locks end here; a simulated thread never blocks in the kernel.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == 202 && SIM_TID.try_with(|t| t.get()).unwrap_or(-1) >= 0 {
        let op = b & 0x7f;
        if op == 0 || op == 9 {
            if *(a as *const u32) != c as u32 {
                sys::set_errno(11);
                return -1;
            }
            FUTEX_WAITS += 1;
            sched_yield_now();
            return 0;
        }
    }
    let r = sys::raw_syscall(n, a, b, c, d, e, f);
    if r < 0 && r > -4096 {
        sys::set_errno(-r as i32);
        return -1;
    }
    r
}

// ---------------------------------------------------------------- thread scheduler
pub const MAXT: usize = 6;
static mut NTHREADS: usize = 0;
static mut CUR: usize = 0;
static mut DONE: [bool; MAXT] = [false; MAXT];
static mut PIPES: [[i32; 2]; MAXT + 1] = [[-1; 2]; MAXT + 1];
static mut SCHED_RNG: u64 = 0;
static mut QUANTUM: u64 = 1000;
static mut REPLAY: Vec<(u64, u8)> = Vec::new();
static mut REPLAY_POS: usize = 0;
static mut REPLAYING: bool = false;
pub static mut SCHED_LOG: Vec<(u64, u8)> = Vec::new();
pub static mut SWITCHES: u64 = 0;
pub static mut FUTEX_WAITS: u64 = 0;
static mut IDLE_YIELDS: u64 = 0;

pub enum Sched {
    Random { seed: u64, quantum: u64 },
    Replay(Vec<(u64, u8)>),
}

unsafe fn hand_to(me: usize, t: usize) {
    CUR = t;
    SWITCHES += 1;
    let b = [1u8];
    sys::write(PIPES[t][1], b.as_ptr() as *const _, 1);
    if me != t {
        wait_turn(me);
    }
}
unsafe fn wait_turn(me: usize) {
    let mut b = [0u8];
    while sys::read(PIPES[me][0], b.as_mut_ptr() as *mut _, 1) != 1 {}
}

unsafe fn next_switch() {
    if REPLAYING {
        SWITCH_AT = if REPLAY_POS < REPLAY.len() { REPLAY[REPLAY_POS].0 } else { u64::MAX };
    } else {
        // mixture: mostly around the quantum, sometimes immediately again
        let r = xs(&mut SCHED_RNG);
        let q = match r % 8 {
            0 => 1 + (r >> 8) % 8,
            1 => 1 + (r >> 8) % (QUANTUM * 8),
            _ => 1 + (r >> 8) % (QUANTUM * 2),
        };
        // the longer the run, the coarser: a bounded number of switches, at any place
        SWITCH_AT = EDGES + (q << (SWITCHES / 600).min(30));
    }
}

unsafe fn sched_preempt() {
    if SIM_TID.with(|t| t.get()) < 0 {
        SWITCH_AT = u64::MAX;
        return;
    }
    let lib = set_in_lib(false);
    let me = CUR;
    let target;
    if REPLAYING {
        target = REPLAY[REPLAY_POS].1 as usize;
        REPLAY_POS += 1;
    } else {
        let cand: Vec<usize> = (0..NTHREADS).filter(|t| !DONE[*t] && *t != me).collect();
        target = if cand.is_empty() { me } else { cand[(xs(&mut SCHED_RNG) as usize) % cand.len()] };
    }
    next_switch();
    if target != me && target < NTHREADS && !DONE[target] {
        if SCHED_LOG.len() < 200_000 {
            SCHED_LOG.push((EDGES, target as u8));
        }
        let saved = BUDGET_END;
        let at = EDGES;
        BUDGET_END = u64::MAX;
        recompute();
        hand_to(me, target);
        // back again: the budget counts only this thread's own blocks
        BUDGET_END = if saved == u64::MAX { saved } else { EDGES + (saved - at) };
        recompute();
    }
    IDLE_YIELDS = 0;
    set_in_lib(lib);
}

/// Voluntary or lock-induced switch: round robin, not part of the recorded schedule.
unsafe fn sched_yield_now() {
    if SIM_TID.with(|t| t.get()) < 0 {
        return;
    }
    let lib = set_in_lib(false);
    let me = CUR;
    IDLE_YIELDS += 1;
    if IDLE_YIELDS > 100_000 {
        crate::runner::die("deadlock", "every thread is waiting");
    }
    for k in 1..NTHREADS {
        let t = (me + k) % NTHREADS;
        if !DONE[t] {
            BUDGET_END = u64::MAX;
            recompute();
            hand_to(me, t);
            BUDGET_END = EDGES + CALL_BUDGET;
            recompute();
            break;
        }
    }
    set_in_lib(lib);
}

/// Runs the bodies as simulated threads, one at a time, under the given scheduler.
pub fn run_threads(bodies: Vec<Box<dyn FnOnce() + Send>>, sched: Sched) {
    unsafe {
        NTHREADS = bodies.len();
        for i in 0..NTHREADS + 1 {
            sys::pipe(PIPES[i].as_mut_ptr());
            if i < MAXT {
                DONE[i] = false;
            }
        }
        match sched {
            Sched::Random { seed, quantum } => {
                REPLAYING = false;
                SCHED_RNG = crate::rng::mix(seed) | 1;
                QUANTUM = quantum;
            }
            Sched::Replay(v) => {
                REPLAYING = true;
                REPLAY = v;
                REPLAY_POS = 0;
            }
        }
        next_switch();
        recompute();
        let main = NTHREADS;
        let mut hs = Vec::new();
        for (i, b) in bodies.into_iter().enumerate() {
            let h = std::thread::Builder::new().stack_size(32 << 20).spawn(move || {
                wait_turn(i);
                SIM_TID.with(|t| t.set(i as i32));
                b();
                SIM_TID.with(|t| t.set(-1));
                DONE[i] = true;
                IDLE_YIELDS = 0;
                let b = [1u8];
                match (0..NTHREADS).find(|t| !DONE[*t]) {
                    Some(t) => {
                        CUR = t;
                        sys::write(PIPES[t][1], b.as_ptr() as *const _, 1);
                    }
                    None => {
                        sys::write(PIPES[main][1], b.as_ptr() as *const _, 1);
                    }
                }
            });
            hs.push(h.unwrap_or_else(|_| crate::runner::harness_error("cannot start a thread")));
        }
        CUR = 0;
        let b = [1u8];
        sys::write(PIPES[0][1], b.as_ptr() as *const _, 1);
        wait_turn(main);
        SWITCH_AT = u64::MAX;
        recompute();
        for h in hs {
            let _ = h.join();
        }
    }
}
