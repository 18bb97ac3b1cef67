//! Raw system interface (no libc crate is available offline).
#![allow(dead_code)]

use std::arch::asm;
use std::ffi::c_void;

extern "C" {
    pub fn fork() -> i32;
    pub fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    pub fn _exit(code: i32) -> !;
    pub fn mmap(addr: *mut c_void, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut c_void;
    pub fn munmap(addr: *mut c_void, len: usize) -> i32;
    pub fn kill(pid: i32, sig: i32) -> i32;
    pub fn alarm(sec: u32) -> u32;
    pub fn pipe(fds: *mut i32) -> i32;
    pub fn read(fd: i32, buf: *mut c_void, n: usize) -> isize;
    pub fn write(fd: i32, buf: *const c_void, n: usize) -> isize;
    pub fn open(path: *const std::ffi::c_char, flags: i32, ...) -> i32;
    pub fn close(fd: i32) -> i32;
    pub fn dup2(a: i32, b: i32) -> i32;
    pub fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    pub fn getppid() -> i32;
    fn __errno_location() -> *mut i32;
}

pub const PROT_RW: i32 = 3;
pub const MAP_SHARED: i32 = 1;
pub const MAP_PRIVATE: i32 = 2;
pub const MAP_ANON: i32 = 0x20;
pub const MAP_NORESERVE: i32 = 0x4000;
pub const MAP_FIXED_NOREPLACE: i32 = 0x100000;

pub unsafe fn getpid() -> i32 {
    raw_syscall(39, 0, 0, 0, 0, 0, 0) as i32
}

pub fn errno() -> i32 {
    unsafe { *__errno_location() }
}
pub fn set_errno(e: i32) {
    unsafe { *__errno_location() = e }
}

pub unsafe fn raw_syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let ret: i64;
    asm!("syscall",
        inlateout("rax") n => ret,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        out("rcx") _, out("r11") _, options(nostack));
    ret
}

/// Real time in seconds: used only for wall-clock caps and evidence, never by a simulation.
pub fn real_now() -> f64 {
    let mut ts = [0i64; 2];
    unsafe { raw_syscall(228, 1, ts.as_mut_ptr() as i64, 0, 0, 0, 0) };
    ts[0] as f64 + ts[1] as f64 / 1e9
}

pub unsafe fn shared_map(len: usize) -> *mut u8 {
    let p = mmap(std::ptr::null_mut(), len, PROT_RW, MAP_SHARED | MAP_ANON | MAP_NORESERVE, -1, 0);
    if p as isize == -1 {
        eprintln!("mmap failed");
        _exit(2);
    }
    p as *mut u8
}

pub fn wifsignaled(st: i32) -> Option<i32> {
    let s = st & 0x7f;
    if s != 0 && s != 0x7f {
        Some(s)
    } else {
        None
    }
}
pub fn wexit(st: i32) -> i32 {
    (st >> 8) & 0xff
}
