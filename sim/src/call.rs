//! One simulated call of the real `lunify::unify`.

use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;

use crate::chunk::{Fmt, Sets};
use crate::seams::TL;

#[derive(Clone, Debug, PartialEq)]
pub enum Ret {
    Ok(Vec<u8>),
    Err(lunify::LunifyError),
    Panic(String),
}

#[derive(Clone, Debug)]
pub struct Call {
    pub ret: Ret,
    pub steps: u64,
    pub path: u64,
    pub peak: i64,
    /// Bytes still allocated after the return, the output not counted.
    pub leaked: i64,
    pub allocs: u64,
}

static PANIC: Mutex<String> = Mutex::new(String::new());

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let message = match info.payload().downcast_ref::<&str>() {
            Some(s) => s.to_string(),
            None => info.payload().downcast_ref::<String>().cloned().unwrap_or_default(),
        };
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if let Ok(mut p) = PANIC.lock() {
            *p = format!("{message} at {at}");
        }
    }));
}

pub fn last_panic() -> String {
    PANIC.lock().map(|p| p.clone()).unwrap_or_default()
}

/// Generous: no conversion of a file of this size takes nearly as many edges.
pub fn step_budget(len: usize) -> u64 {
    20_000_000 + 20_000 * len as u64 + 40 * (len as u64) * (len as u64)
}

pub const MEMORY_CAP: i64 = 1 << 30;

pub fn call(bytes: &[u8], fmt: &Fmt, sets: &Sets) -> Call {
    let me = TL.with(|t| if t.controlled.get() { crate::sched::me() as u32 + 1 } else { 0 });
    call_with(me, bytes, fmt, sets)
}

/// A call whose `leaked` counts its own blocks only: giving back what an
/// earlier call kept does not make up for keeping something new.
pub fn call_apart(bytes: &[u8], fmt: &Fmt, sets: &Sets) -> Call {
    call_with(crate::arena::SECOND, bytes, fmt, sets)
}

fn call_with(lane: u32, bytes: &[u8], fmt: &Fmt, sets: &Sets) -> Call {
    TL.with(|t| t.lane.set(lane));
    let r = call_in_lane(bytes, &fmt.lunify(), &sets.lunify());
    TL.with(|t| t.lane.set(u32::MAX));
    r
}

/// A call with a format and settings that come from somewhere else.
pub fn call_raw(bytes: &[u8], format: &lunify::Format, settings: &lunify::Settings) -> Call {
    TL.with(|t| t.lane.set(0));
    let r = call_in_lane(bytes, format, settings);
    TL.with(|t| t.lane.set(u32::MAX));
    r
}

fn call_in_lane(bytes: &[u8], format: &lunify::Format, settings: &lunify::Settings) -> Call {
    let input = bytes.to_vec();
    let bytes = &input[..];
    TL.with(|t| {
        t.steps.set(if t.controlled.get() { t.steps.get() } else { 0 });
        t.budget.set(t.steps.get() + step_budget(bytes.len()));
        t.path.set(0);
        t.live.set(0);
        t.peak.set(0);
        t.allocs.set(0);
        t.cap.set(MEMORY_CAP);
    });
    let start = TL.with(|t| t.steps.get());
    let lane = TL.with(|t| t.lane.get());
    let before = crate::arena::live(lane);
    TL.with(|t| t.inside.set(true));
    let r = catch_unwind(AssertUnwindSafe(|| lunify::unify(bytes, format, settings)));
    TL.with(|t| t.inside.set(false));
    let (steps, path, peak, live, allocs) =
        TL.with(|t| (t.steps.get() - start, t.path.get(), t.peak.get(), t.live.get(), t.allocs.get()));
    let mut leaked = if lane == crate::arena::SECOND { crate::arena::live(lane) - before } else { live };
    let ret = match r {
        Ok(Ok(v)) => {
            leaked -= v.capacity() as i64;
            Ret::Ok(v)
        }
        Ok(Err(e)) => Ret::Err(e),
        Err(_) => Ret::Panic(last_panic()),
    };
    Call { ret, steps, path, peak, leaked, allocs }
}

impl Ret {
    pub fn show(&self) -> String {
        match self {
            Ret::Ok(v) => format!("Ok({} bytes, hash {:016x})", v.len(), crate::rng::hash_bytes(v)),
            Ret::Err(e) => format!("Err({e:?})"),
            Ret::Panic(m) => format!("panic: {m}"),
        }
    }
    pub fn hash(&self) -> u64 {
        match self {
            Ret::Ok(v) => crate::rng::hash_bytes(v),
            other => crate::rng::hash_bytes(other.show().as_bytes()),
        }
    }
}
