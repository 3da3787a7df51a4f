//! Token scheduler for real threads calling lunify (property C04): exactly one
//! controlled thread runs at a time, and who runs next is read from the
//! scenario. Blocking system calls and sleeps of a controlled thread become
//! switches.

use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

use crate::seams::TL;
use crate::sys;

pub const MAX_THREADS: usize = 8;
pub const EXIT_BLOCKED: i32 = 96;
const QUANTUM: u64 = 20_000;

static TURN: AtomicU32 = AtomicU32::new(u32::MAX);

pub struct State {
    pub on: bool,
    pub count: usize,
    pub done: [bool; MAX_THREADS],
    pub stalled: [bool; MAX_THREADS],
    /// Step (of that thread) at which it stalls.
    pub stall_at: [u64; MAX_THREADS],
    /// (steps to run before the switch, thread to switch to)
    pub switches: Vec<(u64, u32)>,
    pub next_switch: usize,
    pub current: usize,
    pub slice_start: u64,
    pub idle: u64,
    pub trace: u64,
    pub preemptions: u64,
    pub blockings: u64,
    pub yields: u64,
    pub stalls_fired: u64,
}

pub static mut STATE: State = State {
    on: false,
    count: 0,
    done: [false; MAX_THREADS],
    stalled: [false; MAX_THREADS],
    stall_at: [u64::MAX; MAX_THREADS],
    switches: Vec::new(),
    next_switch: 0,
    current: 0,
    slice_start: 0,
    idle: 0,
    trace: 0,
    preemptions: 0,
    blockings: 0,
    yields: 0,
    stalls_fired: 0,
};

#[allow(static_mut_refs)]
pub fn state() -> &'static mut State {
    unsafe { &mut *std::ptr::addr_of_mut!(STATE) }
}

thread_local! {
    static ME: std::cell::Cell<u32> = const { std::cell::Cell::new(u32::MAX) };
}

pub fn is_controlled() -> bool {
    ME.with(|m| m.get() != u32::MAX)
}

fn wait_turn(me: u32) {
    loop {
        let turn = TURN.load(SeqCst);
        if turn == me {
            return;
        }
        unsafe { sys::raw_syscall(202, TURN.as_ptr() as i64, 128, turn as i64, 0, 0, 0) };
    }
}

fn give(to: u32) {
    TURN.store(to, SeqCst);
    unsafe { sys::raw_syscall(202, TURN.as_ptr() as i64, 129, i32::MAX as i64, 0, 0, 0) };
}

/// Arms the preemption point of the running thread.
fn arm() {
    let s = state();
    TL.with(|t| {
        s.slice_start = t.steps.get();
        let slice = match s.switches.get(s.next_switch) {
            Some(&(after, _)) => after,
            None => QUANTUM,
        };
        let me = s.current;
        t.preempt_at.set((t.steps.get() + slice.max(1)).min(s.stall_at[me].max(t.steps.get() + 1)));
    });
}

fn runnable(s: &State, k: usize) -> bool {
    k < s.count && !s.done[k] && !s.stalled[k]
}

fn switch_to(me: u32, wanted: u32, runnable_me: bool) {
    let s = state();
    let mut to = wanted as usize % s.count;
    for _ in 0..s.count {
        if runnable(s, to) && (runnable_me || to != me as usize) {
            break;
        }
        to = (to + 1) % s.count;
    }
    if !runnable(s, to) || (!runnable_me && to == me as usize) {
        // Nobody else can run.
        if !s.done[me as usize] && !s.stalled[me as usize] {
            arm();
            return;
        }
        // Only stalled threads are left: the stall ends now.
        match (0..s.count).find(|&k| !s.done[k]) {
            Some(k) => {
                s.stalled[k] = false;
                s.stall_at[k] = u64::MAX;
                to = k;
            }
            None => {
                give(u32::MAX - 1); // all done
                return;
            }
        }
    }
    if to == me as usize {
        arm();
        return;
    }
    s.trace = crate::rng::mix(s.trace ^ ((me as u64) << 8 | to as u64) ^ TL.with(|t| t.path.get()));
    s.current = to;
    give(to as u32);
    if !s.done[me as usize] {
        wait_turn(me);
        arm();
    }
}

fn outside<R>(f: impl FnOnce() -> R) -> R {
    TL.with(|t| {
        let inside = t.inside.replace(false);
        let r = f();
        t.inside.set(inside);
        r
    })
}

pub fn preempted() {
    let me = ME.with(|m| m.get());
    outside(|| {
        let s = state();
        let steps = TL.with(|t| t.steps.get());
        if steps > s.slice_start {
            s.idle = 0;
        }
        if steps >= s.stall_at[me as usize] {
            s.stall_at[me as usize] = u64::MAX;
            s.stalled[me as usize] = true;
            s.stalls_fired += 1;
            switch_to(me, me + 1, false);
            return;
        }
        let wanted = match s.switches.get(s.next_switch) {
            Some(&(after, to)) if steps - s.slice_start >= after.max(1) => {
                s.next_switch += 1;
                to
            }
            Some(_) => me,
            None => me + 1,
        };
        s.preemptions += 1;
        switch_to(me, wanted, true);
    });
}

pub fn voluntary_yield() {
    let me = ME.with(|m| m.get());
    if me == u32::MAX {
        return;
    }
    outside(|| {
        state().yields += 1;
        switch_to(me, me + 1, true)
    });
}

/// The running thread would block in the kernel.
pub fn blocked() {
    let me = ME.with(|m| m.get());
    outside(|| {
        let s = state();
        s.blockings += 1;
        s.idle += 1;
        if s.idle > 200 {
            // Nobody made a step between 200 attempts to block.
            unsafe { sys::_exit(EXIT_BLOCKED) }
        }
        switch_to(me, me + 1, false);
    });
}

pub fn enter(me: usize) {
    ME.with(|m| m.set(me as u32));
    wait_turn(me as u32);
    TL.with(|t| {
        t.controlled.set(true);
        t.steps.set(0);
    });
    arm();
}

pub fn leave(me: usize) {
    TL.with(|t| t.controlled.set(false));
    let s = state();
    s.done[me] = true;
    s.idle = 0;
    switch_to(me as u32, me as u32 + 1, false);
    ME.with(|m| m.set(u32::MAX));
}

/// Starts the run and waits until every thread has left.
pub fn run() {
    let s = state();
    s.current = 0;
    give(0);
    wait_turn(u32::MAX - 1);
}

pub fn me() -> u32 {
    ME.with(|m| m.get())
}
