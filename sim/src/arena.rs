//! Memory of simulated calls at fixed addresses: what a conversion allocates,
//! and where, depends only on the scenario. Each simulated thread has a lane.

use std::alloc::Layout;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::*};

use crate::sys;

const BASE: usize = 0x1000_0000_0000;
const LANE: usize = 1 << 36;
const LANES: usize = 16;
const CLASSES: usize = 40;

struct Lane {
    lock: AtomicBool,
    next: AtomicUsize,
    /// Bytes requested from this lane and not yet given back.
    live: AtomicI64,
    free: [AtomicUsize; CLASSES],
}

static LANE_STATE: [Lane; LANES] = [const {
    Lane { lock: AtomicBool::new(false), next: AtomicUsize::new(0), live: AtomicI64::new(0), free: [const { AtomicUsize::new(0) }; CLASSES] }
}; LANES];

/// Lane of calls whose memory is told apart from that of earlier calls.
pub const SECOND: u32 = LANES as u32 - 1;

/// Not zero: where fresh blocks lie is drawn from this seed.
pub static LAYOUT: AtomicU64 = AtomicU64::new(0);

pub fn live(lane: u32) -> i64 {
    LANE_STATE[lane as usize].live.load(Relaxed)
}

pub fn map() {
    // private, anonymous, no reserve, fixed (but never over something else)
    let p = unsafe { sys::mmap(BASE as *mut _, LANE * LANES, 3, 0x22 | 0x4000 | 0x100000, -1, 0) };
    assert!(p as usize == BASE, "harness: the arena could not be mapped");
}

pub fn owns(p: *mut u8) -> bool {
    (p as usize).wrapping_sub(BASE) < LANE * LANES
}

fn class(l: &Layout) -> usize {
    (l.size().max(l.align()).max(16).next_power_of_two().trailing_zeros()) as usize
}

fn locked<R>(lane: usize, f: impl FnOnce(&Lane) -> R) -> R {
    let lane = &LANE_STATE[lane];
    while lane.lock.swap(true, Acquire) {
        std::hint::spin_loop();
    }
    let r = f(lane);
    lane.lock.store(false, Release);
    r
}

/// Null if the block does not fit the lane; `zero` blocks are cleared.
pub fn alloc(lane: usize, l: &Layout, zero: bool) -> *mut u8 {
    if l.size().max(l.align()) > LANE / 4 {
        return std::ptr::null_mut();
    }
    let k = class(l);
    let size = 1usize << k;
    locked(lane, |s| {
        s.live.fetch_add(l.size() as i64, Relaxed);
        let p = s.free[k].load(Relaxed);
        if p != 0 {
            s.free[k].store(unsafe { *(p as *const usize) }, Relaxed);
            if zero {
                unsafe { std::ptr::write_bytes(p as *mut u8, 0, l.size()) };
            }
            return p as *mut u8;
        }
        let align = l.align().max(16);
        let start = BASE + lane * LANE;
        let mut next = s.next.load(Relaxed);
        match LAYOUT.load(Relaxed) {
            0 => {}
            seed if next == 0 => next = (crate::rng::mix(seed ^ lane as u64) as usize) % (LANE / 2),
            seed => next += crate::rng::mix(seed ^ next as u64) as usize % 5 * 16,
        }
        let at = (start + next + align - 1) & !(align - 1);
        if at + size > start + LANE {
            return std::ptr::null_mut();
        }
        s.next.store(at + size - start, Relaxed);
        at as *mut u8
    })
}

pub fn dealloc(p: *mut u8, l: &Layout) {
    let lane = (p as usize - BASE) / LANE;
    let k = class(l);
    locked(lane, |s| {
        s.live.fetch_sub(l.size() as i64, Relaxed);
        unsafe { *(p as *mut usize) = s.free[k].load(Relaxed) };
        s.free[k].store(p as usize, Relaxed);
    })
}
