//! The few libc functions the simulator itself needs.
#![allow(non_camel_case_types)]
use std::ffi::{c_char, c_int, c_long, c_void};

extern "C" {
    pub fn fork() -> c_int;
    pub fn waitpid(pid: c_int, status: *mut c_int, options: c_int) -> c_int;
    pub fn pipe(fds: *mut c_int) -> c_int;
    pub fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize;
    pub fn close(fd: c_int) -> c_int;
    pub fn kill(pid: c_int, sig: c_int) -> c_int;
    pub fn _exit(code: c_int) -> !;
    pub fn mmap(addr: *mut c_void, len: usize, prot: c_int, flags: c_int, fd: c_int, off: c_long) -> *mut c_void;
    pub fn dlopen(path: *const c_char, flags: c_int) -> *mut c_void;
    pub fn dlsym(handle: *mut c_void, name: *const c_char) -> *mut c_void;
    pub fn dlerror() -> *const c_char;
    pub fn poll(fds: *mut pollfd, n: u64, timeout: c_int) -> c_int;
    pub fn setrlimit(resource: c_int, lim: *const [u64; 2]) -> c_int;
    pub fn prctl(op: c_int, a: u64, b: u64, c: u64, d: u64) -> c_int;
}

#[repr(C)]
pub struct pollfd {
    pub fd: c_int,
    pub events: i16,
    pub revents: i16,
}

/// Raw system call; never goes through the simulated `syscall`.
#[inline(never)]
pub unsafe fn raw_syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let ret: i64;
    std::arch::asm!("syscall", inlateout("rax") n => ret, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    ret
}

/// Write to a descriptor bypassing the simulated console (property C10).
pub fn raw_write(fd: i32, mut data: &[u8]) {
    while !data.is_empty() {
        let n = unsafe { raw_syscall(1, fd as i64, data.as_ptr() as i64, data.len() as i64, 0, 0, 0) };
        if n == -4 || n == -11 {
            continue;
        }
        if n <= 0 {
            return;
        }
        data = &data[n as usize..];
    }
}

/// Real time, for reports and batch limits only; no simulated run sees it.
pub fn real_time() -> f64 {
    let mut ts = [0i64; 2];
    unsafe { raw_syscall(228, 1, ts.as_mut_ptr() as i64, 0, 0, 0, 0) };
    ts[0] as f64 + ts[1] as f64 * 1e-9
}

pub fn print(text: &str) {
    raw_write(1, text.as_bytes());
    raw_write(1, b"\n");
}

pub fn shared(len: usize) -> *mut u8 {
    let p = unsafe { mmap(std::ptr::null_mut(), len, 3, 0x21, -1, 0) };
    assert!(p as isize != -1);
    p as *mut u8
}
