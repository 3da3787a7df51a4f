//! Everything the outside world gives to lunify goes through this file: the
//! step clock (one tick per executed control-flow edge), memory, the wall
//! clock, randomness, blocking, sleeping and the console.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicPtr, AtomicU32, AtomicU64, Ordering::Relaxed};

use crate::sys;

pub const MAX_EDGES: usize = 1 << 16;
/// Exit codes of a child process that had to be stopped inside lunify.
pub const EXIT_STEPS: i32 = 98;
pub const EXIT_MEMORY: i32 = 97;

pub static EDGE_COUNT: AtomicU32 = AtomicU32::new(0);
/// Shared between all processes of one check: one byte per edge.
pub static COVERAGE: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());

pub struct Tl {
    /// This thread is inside a simulated call of lunify.
    pub inside: Cell<bool>,
    /// Lane of the arena, or u32::MAX for the ordinary heap.
    pub lane: Cell<u32>,
    pub steps: Cell<u64>,
    pub budget: Cell<u64>,
    pub path: Cell<u64>,
    /// Step at which the scheduler wants to be asked who runs next (C04).
    pub preempt_at: Cell<u64>,
    pub controlled: Cell<bool>,
    pub live: Cell<i64>,
    pub peak: Cell<i64>,
    pub allocs: Cell<u64>,
    pub cap: Cell<i64>,
}

thread_local! {
    pub static TL: Tl = const { Tl {
        inside: Cell::new(false), lane: Cell::new(u32::MAX), steps: Cell::new(0), budget: Cell::new(0), path: Cell::new(0),
        preempt_at: Cell::new(u64::MAX), controlled: Cell::new(false),
        live: Cell::new(0), peak: Cell::new(0), allocs: Cell::new(0), cap: Cell::new(0),
    } };
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut start: *mut u32, stop: *mut u32) {
    if start == stop || *start != 0 {
        return;
    }
    while start < stop {
        let n = EDGE_COUNT.fetch_add(1, Relaxed) + 1;
        *start = n.min(MAX_EDGES as u32 - 1);
        start = start.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    let edge = *guard;
    let coverage = COVERAGE.load(Relaxed);
    let yielding = TL.with(|t| {
        if !t.inside.get() {
            return false;
        }
        if !coverage.is_null() {
            *coverage.add(edge as usize) = 1;
        }
        let steps = t.steps.get() + 1;
        t.steps.set(steps);
        t.path.set((t.path.get() ^ edge as u64).wrapping_mul(0x100000001b3).rotate_left(5));
        if steps > t.budget.get() {
            sys::_exit(EXIT_STEPS);
        }
        t.controlled.get() && steps >= t.preempt_at.get()
    });
    if yielding {
        crate::sched::preempted();
    }
}

pub struct Counting;

#[global_allocator]
static ALLOCATOR: Counting = Counting;

fn account(delta: i64) {
    let _ = TL.try_with(|t| {
        if t.inside.get() {
            let live = t.live.get() + delta;
            t.live.set(live);
            if delta > 0 {
                t.allocs.set(t.allocs.get() + 1);
                if live > t.peak.get() {
                    t.peak.set(live);
                    if live > t.cap.get() {
                        unsafe { sys::_exit(EXIT_MEMORY) }
                    }
                }
            }
        }
    });
}

/// The lane of the arena that this thread allocates from, if it does.
fn lane() -> Option<usize> {
    TL.try_with(|t| t.lane.get()).ok().filter(|&l| l != u32::MAX).map(|l| l as usize)
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        account(l.size() as i64);
        let p = match lane() {
            Some(lane) => crate::arena::alloc(lane, &l, false),
            None => System.alloc(l),
        };
        fill(p, l.size());
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        account(-(l.size() as i64));
        match crate::arena::owns(p) {
            true => crate::arena::dealloc(p, &l),
            false => System.dealloc(p, l),
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        account(l.size() as i64);
        match lane() {
            Some(lane) => crate::arena::alloc(lane, &l, true),
            None => System.alloc_zeroed(l),
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // Old and new block can exist at the same time.
        account(n as i64);
        account(-(l.size() as i64));
        let lane = lane();
        if lane.is_none() && !crate::arena::owns(p) {
            return System.realloc(p, l, n);
        }
        let new = Layout::from_size_align_unchecked(n, l.align());
        let q = match lane {
            Some(lane) => crate::arena::alloc(lane, &new, false),
            None => System.alloc(new),
        };
        if !q.is_null() {
            fill(q, n);
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            match crate::arena::owns(p) {
                true => crate::arena::dealloc(p, &l),
                false => System.dealloc(p, l),
            }
        }
        q
    }
}

// ---------------------------------------------------------------- clock

/// Simulated wall clock in nanoseconds and its drift per reading.
pub static CLOCK: AtomicU64 = AtomicU64::new(1_000_000_000_000_000_000);
pub static CLOCK_STEP: AtomicU64 = AtomicU64::new(1000);
pub static CLOCK_READS: AtomicU64 = AtomicU64::new(0);
pub static ENTROPY: AtomicU64 = AtomicU64::new(1);
pub static ENTROPY_READS: AtomicU64 = AtomicU64::new(0);

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(_id: i32, ts: *mut [i64; 2]) -> i32 {
    let now = CLOCK.fetch_add(CLOCK_STEP.load(Relaxed), Relaxed);
    CLOCK_READS.fetch_add(1, Relaxed);
    (*ts)[0] = (now / 1_000_000_000) as i64;
    (*ts)[1] = (now % 1_000_000_000) as i64;
    0
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    ENTROPY_READS.fetch_add(1, Relaxed);
    for k in 0..len {
        let x = ENTROPY.fetch_add(0x9E3779B97F4A7C15, Relaxed);
        *buf.add(k) = crate::rng::mix(x) as u8;
    }
    len as isize
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const [i64; 2], _rem: *mut [i64; 2]) -> i32 {
    CLOCK.fetch_add(((*req)[0] as u64).wrapping_mul(1_000_000_000).wrapping_add((*req)[1] as u64), Relaxed);
    crate::sched::voluntary_yield();
    0
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(_id: i32, _flags: i32, req: *const [i64; 2], rem: *mut [i64; 2]) -> i32 {
    nanosleep(req, rem)
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    crate::sched::voluntary_yield();
    0
}

const SYS_FUTEX: i64 = 202;
const SYS_GETRANDOM: i64 = 318;

extern "C" {
    fn __errno_location() -> *mut i32;
}

/// std blocks through this. A controlled thread never really blocks: the
/// scheduler runs somebody else and the wait returns as a spurious wake-up.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == SYS_GETRANDOM {
        return getrandom(a as *mut u8, b as usize, c as u32) as i64;
    }
    if n == SYS_FUTEX && (b & 0x7f == 0 || b & 0x7f == 9) && crate::sched::is_controlled() {
        let word = &*(a as *const AtomicU32);
        if word.load(Relaxed) == c as u32 {
            crate::sched::blocked();
        }
        return 0;
    }
    let r = sys::raw_syscall(n, a, b, c, d, e, f);
    if r < 0 && r > -4096 {
        *__errno_location() = -r as i32;
        return -1;
    }
    r
}

// ---------------------------------------------------------------- console

/// What the simulated console does with the n-th write while a simulated call
/// with console faults is running.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum WriteFault {
    None,
    Error(i32),
    Short(usize),
}

pub struct Console {
    pub active: bool,
    pub writes: u64,
    pub bytes: u64,
    /// (write number, fault); the last entry's fault stays in force if `sticky`.
    pub faults: Vec<(u64, WriteFault)>,
    pub sticky: bool,
    pub fired: [u64; 5],
}

pub static mut CONSOLE: Console = Console { active: false, writes: 0, bytes: 0, faults: Vec::new(), sticky: false, fired: [0; 5] };

#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: *const u8, n: usize) -> isize {
    let console = &mut *std::ptr::addr_of_mut!(CONSOLE);
    if console.active && (fd == 1 || fd == 2) {
        let k = console.writes;
        console.writes += 1;
        let mut fault = WriteFault::None;
        for &(at, f) in &console.faults {
            if at == k || (console.sticky && at < k) {
                fault = f;
            }
        }
        return match fault {
            WriteFault::None => {
                console.bytes += n as u64;
                n as isize
            }
            WriteFault::Short(m) => {
                console.fired[0] += 1;
                let m = m.max(1).min(n);
                console.bytes += m as u64;
                m as isize
            }
            WriteFault::Error(errno) => {
                console.fired[match errno {
                    4 => 1,
                    28 => 2,
                    32 => 3,
                    _ => 4,
                }] += 1;
                *__errno_location() = errno;
                -1
            }
        };
    }
    let r = sys::raw_syscall(1, fd as i64, buf as i64, n as i64, 0, 0, 0);
    if r < 0 {
        *__errno_location() = -r as i32;
        return -1;
    }
    r as isize
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, iov: *const [usize; 2], cnt: i32) -> isize {
    let mut total = 0;
    for k in 0..cnt as usize {
        let [p, n] = *iov.add(k);
        if n == 0 {
            continue;
        }
        let r = write(fd, p as *const u8, n);
        if r < 0 {
            return if total > 0 { total } else { r };
        }
        total += r;
        if (r as usize) < n {
            break;
        }
    }
    total
}

// ---------------------------------------------------------------- environment

/// Non-zero: lookups of simulated calls are answered from this seed.
pub static ENVIRONMENT: AtomicU64 = AtomicU64::new(0);
pub static ENVIRONMENT_READS: AtomicU64 = AtomicU64::new(0);
/// 0x100 | byte: fresh memory of simulated calls holds that byte.
pub static FILL: AtomicU32 = AtomicU32::new(0);

extern "C" {
    static environ: *const *const u8;
}

#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const u8) -> *const u8 {
    let name = std::ffi::CStr::from_ptr(name as *const _).to_bytes();
    let seed = ENVIRONMENT.load(Relaxed);
    if seed != 0 && TL.try_with(|t| t.inside.get()).unwrap_or(false) {
        ENVIRONMENT_READS.fetch_add(1, Relaxed);
        let values: [&[u8]; 8] = [b"\0", b"0\0", b"1\0", b"true\0", b"de_DE.UTF-8\0", b"/nonexistent\0", b"17\0", b"full\0"];
        let h = crate::rng::mix(seed ^ crate::rng::hash_bytes(name));
        return if h & 8 == 0 { std::ptr::null() } else { values[h as usize & 7].as_ptr() };
    }
    let mut p = environ;
    while !p.is_null() && !(*p).is_null() {
        let e = std::ffi::CStr::from_ptr(*p as *const _).to_bytes();
        if e.len() > name.len() && e.starts_with(name) && e[name.len()] == b'=' {
            return (*p).add(name.len() + 1);
        }
        p = p.add(1);
    }
    std::ptr::null()
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const u8, flags: i32, mode: u32) -> i32 {
    let seed = ENVIRONMENT.load(Relaxed);
    if seed != 0 && TL.try_with(|t| t.inside.get()).unwrap_or(false) {
        ENVIRONMENT_READS.fetch_add(1, Relaxed);
        *__errno_location() = [2, 13, 24, 28][seed as usize >> 8 & 3];
        return -1;
    }
    syscall(2, path as i64, flags as i64, mode as i64, 0, 0, 0) as i32
}

unsafe fn fill(p: *mut u8, n: usize) {
    let f = FILL.load(Relaxed);
    if f != 0 && !p.is_null() && TL.try_with(|t| t.inside.get()).unwrap_or(false) {
        std::ptr::write_bytes(p, f as u8, n);
    }
}
