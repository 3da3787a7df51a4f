//! C10: tracing to a failing console never changes or kills a conversion.
//! Only in the build with the `trace` feature.

use super::delivery::{self, Delivery};
use crate::call::{call, Ret};
use crate::engine::{fatal, violation, Ctx, Prop, Verdict};
use crate::json::{self, J};
use crate::rng::Rng;
use crate::seams::{WriteFault, CONSOLE};
use crate::{sched, sys};
use std::ffi::CString;

const ERRNOS: [i32; 8] = [4, 5, 11, 27, 28, 32, 9, 122];

fn generate(rng: &mut Rng, _index: u64) -> J {
    let mut d = delivery::generate(rng, 3);
    if d.base.len() > 6000 {
        let b = delivery::base(rng);
        d = Delivery { base: b.bytes, out: b.out, sets: b.sets, deliveries: vec![vec![]] };
    }
    if rng.chance(1, 2) {
        d.deliveries.insert(0, vec![]);
    }
    let scale = 1u64 << rng.below(12);
    let mut faults = Vec::new();
    let n = if rng.chance(1, 8) { 0 } else { 1 + rng.below(6) };
    for _ in 0..n {
        let at = rng.below(scale.max(1));
        let fault = if rng.chance(1, 3) { -(1 + rng.below(40) as i64) } else { *rng.pick(&ERRNOS) as i64 };
        faults.push(J::Arr(vec![json::i(at), J::Int(fault as i128)]));
    }
    let threads = if rng.chance(2, 3) { 1 } else { 2 + rng.below(2) };
    let nsw = if threads == 1 { 0 } else { rng.below(40) };
    let switches: Vec<J> = (0..nsw)
        .map(|_| {
            let after = 1 + rng.below(scale * 8);
            J::Arr(vec![json::i(after), json::i(rng.below(threads))])
        })
        .collect();
    let J::Obj(mut items) = d.json() else { unreachable!() };
    items.push(("console".into(), J::Arr(faults)));
    items.push(("sticky".into(), json::i(rng.below(2))));
    items.push(("threads".into(), json::i(threads)));
    items.push(("switches".into(), J::Arr(switches)));
    J::Obj(items)
}

type Plain = unsafe extern "C" fn(*const u8, usize, *mut usize) -> *const u8;

/// Loads the build without tracing.
pub fn plain() -> Plain {
    static ADDRESS: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
    let p = *ADDRESS.get_or_init(|| unsafe {
        let root = std::env::var("SIM_ROOT").unwrap_or_else(|_| "/verif".into());
        let path = CString::new(format!("{root}/build/plain/release/liblunify_plain.so")).unwrap();
        let h = sys::dlopen(path.as_ptr(), 2);
        if h.is_null() {
            fatal("liblunify_plain.so could not be loaded");
        }
        sys::dlsym(h, c"plain_unify".as_ptr()) as usize
    });
    assert!(p != 0, "harness: plain_unify");
    unsafe { std::mem::transmute(p) }
}

fn without_tracing(bytes: &[u8], d: &Delivery) -> String {
    let request = json::obj(vec![("input", json::hex(bytes)), ("output_format", d.out.json()), ("settings", d.sets.json())]).dump();
    let mut n = 0;
    let p = unsafe { plain()(request.as_ptr(), request.len(), &mut n) };
    String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(p, n) }).into_owned()
}

fn run(j: &J, ctx: &mut Ctx) -> Verdict {
    let d = Delivery::parse(j);
    let console = unsafe { &mut *std::ptr::addr_of_mut!(CONSOLE) };
    for x in j.get("console").arr() {
        let v = x.arr()[1].int() as i64;
        console.faults.push((x.arr()[0].u64(), if v < 0 { WriteFault::Short(-v as usize) } else { WriteFault::Error(v as i32) }));
    }
    console.faults.sort_by_key(|x| x.0);
    console.sticky = j.get("sticky").u64() != 0;
    // Interrupted and retried for ever is not a console that answers.
    if console.sticky && matches!(console.faults.last(), Some((_, WriteFault::Error(4)))) {
        console.faults.pop();
        console.faults.push((u64::MAX, WriteFault::None));
        console.sticky = false;
    }
    let files: Vec<Vec<u8>> = (0..d.deliveries.len()).map(|k| d.damaged(k, ctx)).collect();
    let mut expected = Vec::new();
    for f in &files {
        expected.push(without_tracing(f, &d));
    }
    let threads = j.get("threads").usize();
    let convert = |t: usize| -> Vec<(usize, Ret, u64, u64)> {
        (0..files.len())
            .map(|n| (n + t) % files.len())
            .filter(|&k| expected[k] != "panic")
            .map(|k| {
                let c = call(&files[k], &d.out, &d.sets);
                (k, c.ret, c.path, c.steps)
            })
            .collect()
    };
    console.active = true;
    let mut results = Vec::new();
    if threads <= 1 {
        results.push(convert(0));
    } else {
        let s = sched::state();
        s.on = true;
        s.count = threads;
        s.switches = j.get("switches").arr().iter().map(|x| (x.arr()[0].u64(), x.arr()[1].u64() as u32)).collect();
        std::thread::scope(|scope| {
            let convert = &convert;
            let handles: Vec<_> = (0..threads)
                .map(|me| {
                    std::thread::Builder::new()
                        .stack_size(2 << 20)
                        .spawn_scoped(scope, move || {
                            sched::enter(me);
                            let r = convert(me);
                            sched::leave(me);
                            r
                        })
                        .expect("harness: spawn")
                })
                .collect();
            sched::run();
            for h in handles {
                results.push(h.join().expect("harness: controlled thread died"));
            }
        });
        ctx.log(s.trace);
        ctx.count("sched.preemptions", s.preemptions);
        ctx.count("sched.blocked_waits", s.blockings);
    }
    console.active = false;
    for (k, name) in ["short_write", "EINTR", "ENOSPC", "EPIPE", "other_error"].iter().enumerate() {
        ctx.count(&format!("fault.console_{name}"), console.fired[k]);
    }
    ctx.count("probe.console_writes", console.writes);
    ctx.log(console.writes ^ console.bytes << 20);
    let mut bad = None;
    for (t, list) in results.into_iter().enumerate() {
        for (k, ret, path, steps) in list {
            ctx.evaluations += 1;
            ctx.sim_ns += steps;
            ctx.log(ret.hash() ^ path);
            if console.writes > 0 {
                ctx.case(crate::rng::mix(path ^ console.fired.iter().fold(console.writes, |a, x| crate::rng::mix(a ^ x))));
            }
            delivery::count_outcome(ctx, &ret);
            if ret.show() != expected[k] && bad.is_none() {
                let class = if matches!(ret, Ret::Panic(_)) { "panic" } else { "changed" };
                bad = Some((class, format!("thread {t}, delivery {k}: {} with tracing, {} without", ret.show(), expected[k])));
            }
        }
    }
    match bad {
        Some((class, detail)) => violation(class, detail),
        None => Ok(()),
    }
}

fn with(j: &J, key: &str, value: J) -> J {
    let J::Obj(items) = j else { unreachable!() };
    J::Obj(items.iter().map(|(k, v)| (k.clone(), if k == key { value.clone() } else { v.clone() })).collect())
}

fn shrink(j: &J) -> Vec<J> {
    let mut out = Vec::new();
    if j.get("threads").u64() > 1 {
        out.push(with(&with(j, "threads", json::i(1u64)), "switches", J::Arr(vec![])));
    }
    for key in ["console", "switches"] {
        let list = j.get(key).arr();
        for k in 0..list.len() {
            let mut l = list.to_vec();
            l.remove(k);
            out.push(with(j, key, J::Arr(l)));
        }
    }
    for (k, x) in j.get("console").arr().iter().enumerate() {
        let at = x.arr()[0].u64();
        for smaller in [0, at / 2] {
            if smaller < at {
                let mut l = j.get("console").arr().to_vec();
                l[k] = J::Arr(vec![json::i(smaller), x.arr()[1].clone()]);
                out.push(with(j, "console", J::Arr(l)));
            }
        }
    }
    for c in delivery::shrink(j) {
        let mut s = j.clone();
        for key in ["base", "output_format", "settings", "deliveries"] {
            s = with(&s, key, c.get(key).clone());
        }
        out.push(s);
    }
    out
}

pub const PROP: Prop = Prop {
    id: "C10",
    quick: 30_000,
    thorough: 1_000_000,
    generate,
    run,
    shrink,
    rule: "a case is one traced conversion (alone or next to others on other threads) of an intact or damaged file whose console answers the n-th write with a fault; non-trivial: tracing wrote to the console",
    measure: "distinct (executed edge sequence, fired console faults, number of writes)",
    real: &["lunify::unify built with its `debug` feature (instrumented)", "lunify::unify built without it", "std's stdout and its lock"],
    stub: &["write and writev of the console", "storage and transport (fault model)", "thread scheduler"],
    assumptions: &["a console that answers every write with EINTR for ever is not simulated"],
};
