//! C04: conversions are isolated from each other and from the environment.

use super::delivery;
use crate::call::call;
use crate::chunk::*;
use crate::engine::{isolated, violation, Ctx, Prop, Verdict};
use crate::faults;
use crate::gen;
use crate::json::{self, J};
use crate::rng::{self, Rng};
use crate::{sched, seams};
use std::sync::atomic::Ordering::Relaxed;

struct Job {
    bytes: Vec<u8>,
    out: Fmt,
    sets: Sets,
}

impl Job {
    fn json(&self) -> J {
        json::obj(vec![("input", json::hex(&self.bytes)), ("output_format", self.out.json()), ("settings", self.sets.json())])
    }
    fn parse(j: &J) -> Job {
        Job { bytes: j.get("input").bytes(), out: Fmt::parse(j.get("output_format")), sets: Sets::parse(j.get("settings")) }
    }
}

fn generate(rng: &mut Rng, _index: u64) -> J {
    let n = 1 + rng.below(4);
    let mut jobs: Vec<Job> = Vec::new();
    for _ in 0..n {
        // Variations of one conversion are the likeliest to disturb each other.
        if !jobs.is_empty() && rng.chance(1, 2) {
            let k = rng.usize(jobs.len());
            let mut j = Job { bytes: jobs[k].bytes.clone(), out: jobs[k].out, sets: jobs[k].sets.clone() };
            let n = j.bytes.len();
            match rng.below(6) {
                0 => j.out = Fmt { ins: j.out.ins, ..Fmt::random(rng) },
                1 => {
                    let s = j.sets.clone();
                    j.sets.output = Sets::random(rng, j.out.ins, j.out.ins).output;
                    if rng.chance(1, 2) {
                        j.sets.output.fpf = 1 + rng.below(60);
                    }
                    j.sets.lua50 = s.lua50;
                }
                2 => {
                    // How the file is read.
                    let s = Sets::random(rng, 4, 4);
                    match rng.below(4) {
                        0 => j.sets.lua50.layout = s.lua50.layout,
                        1 => j.sets.lua51.layout = s.lua51.layout,
                        2 => (j.sets.lua50.fpf, j.sets.lua51.fpf) = (s.lua50.fpf, s.lua51.fpf),
                        _ => (j.sets.lua50.stack_limit, j.sets.lua51.stack_limit) = (100, 100),
                    }
                }
                3 if n > 1 => {
                    // The same bytes in another order.
                    let (k, l) = (rng.usize(n), rng.usize(n));
                    j.bytes.swap(k, l);
                }
                4 if n > 1 => {
                    // The same length and sum.
                    let (k, l) = (rng.usize(n), rng.usize(n));
                    j.bytes[k] = j.bytes[k].wrapping_add(1);
                    j.bytes[l] = j.bytes[l].wrapping_sub(1);
                }
                _ if n > 0 => {
                    let k = rng.usize(n);
                    j.bytes[k] ^= 1 << rng.below(8);
                }
                _ => {}
            }
            jobs.push(j);
            continue;
        }
        let b = delivery::base(rng);
        let mut bytes = b.bytes.clone();
        if rng.chance(1, 4) {
            for f in faults::sequence(rng, &b.spans, &b.bytes, &b.bytes, b.fmt.big) {
                f.apply(&mut bytes);
            }
            bytes.truncate(1 << 16);
        }
        jobs.push(Job { bytes, out: b.out, sets: b.sets });
    }
    // Some processes have a long life: whatever a conversion leaves behind adds up.
    let long_lived = rng.chance(1, 12);
    if long_lived {
        for job in &mut jobs {
            // Small files, some of them damaged: a failure may leave more behind.
            let (b, d) = delivery::small(rng);
            job.bytes = if rng.chance(1, 2) { d } else { b.bytes };
            job.out = b.out;
            job.sets = b.sets;
        }
    }
    // A few live so long that a counter of 16 bits wraps.
    let aged = long_lived && rng.chance(1, 25);
    if aged {
        jobs.truncate(2);
        for job in &mut jobs {
            let b = delivery::base(rng);
            let c = if b.ver == Ver::L50 { &b.sets.lua50 } else { &b.sets.lua51 };
            job.bytes = encode(b.ver, b.fmt, c, &gen::corners(rng, b.ver, &b.fmt, c, &b.out));
            (job.out, job.sets) = (b.out, b.sets);
        }
    }
    // Or several conversions need much of what could be shared at the same time.
    let tall = !long_lived && rng.chance(1, 12);
    if tall {
        for job in &mut jobs {
            let b = delivery::tall(rng);
            (job.bytes, job.out, job.sets) = (b.bytes, b.out, b.sets);
        }
    }
    let repeat = if aged { 67_000 } else if long_lived { 20 + rng.below(280) } else { 1 };
    let threads = if aged { 1 } else if long_lived { 1 + rng.below(2) } else { 1 + rng.below(4) + tall as u64 };
    let plan: Vec<J> =
        (0..threads)
        .map(|_| {
            let calls = if aged { 1 } else { 1 + rng.below(4) };
            J::Arr((0..calls).map(|_| json::us(rng.usize(jobs.len()))).collect())
        })
        .collect();
    let nsw = if threads == 1 { 0 } else { rng.below(60) };
    // Short slices hit windows of a few edges; long ones let whole phases pass.
    let scale = 1u64 << (2 + rng.below(14));
    let switches: Vec<J> =
        (0..nsw)
        .map(|_| {
            let after = 1 + rng.below(scale);
            J::Arr(vec![json::i(after), json::i(rng.below(threads))])
        })
        .collect();
    let stalls: Vec<J> = (0..threads)
        .map(|_| if threads > 1 && rng.chance(1, 4) { {
                let scale = 1 << (4 + rng.below(14));
                json::i(1 + rng.below(scale))
            } } else { J::Null })
        .collect();
    json::obj(vec![
        ("jobs", J::Arr(jobs.iter().map(|x| x.json()).collect())),
        ("plan", J::Arr(plan)),
        ("repeat", json::i(repeat)),
        ("switches", J::Arr(switches)),
        ("stalls", J::Arr(stalls)),
        ("clock", json::i(*rng.pick(&[0u64, 1, 1 << 31, 1_000_000_000 * (1 << 31), 4_102_444_800_000_000_000, 1_700_000_000_123_456_789]))),
        ("clock_step", json::i(*rng.pick(&[0u64, 1, 1000, 1_000_000_000, 86_400_000_000_000]))),
        ("entropy", json::i(rng.u64())),
        ("environment", json::i(rng.u64())),
        ("memory_fill", json::i(rng.below(256))),
        ("memory_layout", json::i(rng.u64())),
    ])
}

fn apply_environment(j: &J) {
    seams::CLOCK.store(j.get("clock").u64(), Relaxed);
    seams::CLOCK_STEP.store(j.get("clock_step").u64(), Relaxed);
    seams::ENTROPY.store(j.get("entropy").u64(), Relaxed);
    seams::ENVIRONMENT.store(j.get("environment").u64() | 1, Relaxed);
    crate::arena::LAYOUT.store(j.get("memory_layout").u64(), Relaxed);
    seams::FILL.store(0x100 | j.get("memory_fill").u64() as u32, Relaxed);
}

fn run(j: &J, ctx: &mut Ctx) -> Verdict {
    let jobs: Vec<Job> = j.get("jobs").arr().iter().map(Job::parse).collect();
    // The fresh-process results, in the default environment.
    let mut golden = Vec::new();
    for job in &jobs {
        let r = isolated(|| {
            let c = call(&job.bytes, &job.out, &job.sets);
            json::obj(vec![("hash", json::i(c.ret.hash())), ("text", json::s(c.ret.show())), ("steps", json::i(c.steps))])
        });
        match r {
            Ok(j) => golden.push((j.get("hash").u64(), j.get("text").str().to_string())),
            Err(_) => {
                // Crashes and hangs of a single conversion are C01's.
                ctx.count("outcome.skipped_crash", 1);
                return Ok(());
            }
        }
    }
    apply_environment(j);
    let repeat = j.get("repeat").usize();
    let plan: Vec<Vec<usize>> = j.get("plan").arr().iter().map(|t| t.arr().iter().map(|x| x.usize()).collect::<Vec<_>>().repeat(repeat)).collect();
    let s = sched::state();
    s.on = true;
    s.count = plan.len();
    s.switches = j.get("switches").arr().iter().map(|x| (x.arr()[0].u64(), x.arr()[1].u64() as u32)).collect();
    for (k, x) in j.get("stalls").arr().iter().enumerate() {
        s.stall_at[k] = if x.is_null() { u64::MAX } else { x.u64() };
    }
    let mut failures: Vec<(usize, usize, usize, String)> = Vec::new();
    let mut results: Vec<Vec<(u64, String, u64, u64)>> = Vec::new();
    std::thread::scope(|scope| {
        let handles: Vec<_> = plan
            .iter()
            .enumerate()
            .map(|(me, list)| {
                let (jobs, golden) = (&jobs, &golden);
                std::thread::Builder::new()
                    .stack_size(2 << 20)
                    .spawn_scoped(scope, move || {
                        sched::enter(me);
                        let mut out = Vec::with_capacity(list.len());
                        for &k in list {
                            let c = call(&jobs[k].bytes, &jobs[k].out, &jobs[k].sets);
                            let hash = c.ret.hash();
                            let text = if hash == golden[k].0 { String::new() } else { c.ret.show() };
                            out.push((hash, text, c.path, c.steps));
                        }
                        sched::leave(me);
                        out
                    })
                    .expect("harness: spawn")
            })
            .collect();
        sched::run();
        for h in handles {
            results.push(h.join().unwrap_or_else(|_| panic!("controlled thread died: {}", crate::call::last_panic())));
        }
    });
    let s = sched::state();
    ctx.count("sched.preemptions", s.preemptions);
    ctx.count("sched.blocked_waits", s.blockings);
    ctx.count("sched.yields", s.yields);
    ctx.count("fault.stalled_caller", s.stalls_fired);
    ctx.count("fault.clock", 1);
    ctx.count("fault.entropy", 1);
    ctx.count("fault.memory_fill", 1);
    ctx.count("fault.memory_layout", 1);
    ctx.count("probe.clock_reads", seams::CLOCK_READS.load(Relaxed));
    ctx.count("probe.environment_reads", seams::ENVIRONMENT_READS.load(Relaxed));
    ctx.log(s.trace);
    for (t, list) in plan.iter().enumerate() {
        for (n, &k) in list.iter().enumerate() {
            let (hash, text, path, steps) = &results[t][n];
            ctx.evaluations += 1;
            ctx.sim_ns += steps;
            ctx.log(*hash ^ *path);
            ctx.count(if n > 0 { "probe.calls_with_history" } else { "probe.first_calls" }, 1);
            if *hash != golden[k].0 {
                failures.push((t, n, k, text.clone()));
            }
        }
    }
    ctx.case(rng::mix(s.trace ^ golden.iter().fold(0, |a, g| rng::mix(a ^ g.0))));
    if let Some((t, n, k, text)) = failures.first() {
        return violation(
            "interference",
            format!("thread {t}, call {n} (conversion {k}): {text}, but {} in a fresh process", golden[*k].1),
        );
    }
    Ok(())
}

fn with(j: &J, key: &str, value: J) -> J {
    let J::Obj(items) = j else { unreachable!() };
    J::Obj(items.iter().map(|(k, v)| (k.clone(), if k == key { value.clone() } else { v.clone() })).collect())
}

fn shrink(j: &J) -> Vec<J> {
    let mut out = Vec::new();
    let plan = j.get("plan").arr();
    let stalls = j.get("stalls").arr();
    for t in 0..plan.len() {
        if plan.len() > 1 {
            let mut p = plan.to_vec();
            let mut s = stalls.to_vec();
            p.remove(t);
            s.remove(t);
            out.push(with(&with(j, "plan", J::Arr(p)), "stalls", J::Arr(s)));
        }
        let list = plan[t].arr();
        for k in 0..list.len() {
            if list.len() > 1 {
                let mut p = plan.to_vec();
                let mut l = list.to_vec();
                l.remove(k);
                p[t] = J::Arr(l);
                out.push(with(j, "plan", J::Arr(p)));
            }
        }
        if !stalls[t].is_null() {
            let mut s = stalls.to_vec();
            s[t] = J::Null;
            out.push(with(j, "stalls", J::Arr(s)));
        }
    }
    let sw = j.get("switches").arr();
    let mut n = sw.len();
    while n > 0 {
        for s in (0..sw.len()).step_by(n) {
            let mut w = sw.to_vec();
            w.drain(s..(s + n).min(w.len()));
            out.push(with(j, "switches", J::Arr(w)));
        }
        n /= 2;
    }
    for (key, v) in [("clock", 1_000_000_000_000_000_000u64), ("clock_step", 1000), ("entropy", 1), ("memory_fill", 0), ("memory_layout", 0), ("environment", 0)] {
        out.push(with(j, key, json::i(v)));
    }
    let repeat = j.get("repeat").u64();
    for fewer in [1, repeat / 2, repeat * 7 / 8, repeat.saturating_sub(1)] {
        if fewer > 0 && fewer < repeat {
            out.push(with(j, "repeat", json::i(fewer)));
        }
    }
    let jobs = j.get("jobs").arr();
    let used: std::collections::BTreeSet<usize> = plan.iter().flat_map(|t| t.arr().iter().map(|x| x.usize())).collect();
    if used.len() < jobs.len() {
        let keep: Vec<usize> = used.into_iter().collect();
        let p = plan.iter().map(|t| J::Arr(t.arr().iter().map(|x| json::us(keep.iter().position(|k| *k == x.usize()).unwrap())).collect())).collect();
        out.push(with(&with(j, "jobs", J::Arr(keep.iter().map(|&k| jobs[k].clone()).collect())), "plan", J::Arr(p)));
    }
    for k in 0..jobs.len() {
        let job = Job::parse(&jobs[k]);
        let d = delivery::Delivery { base: job.bytes, out: job.out, sets: job.sets, deliveries: vec![vec![]] };
        for c in delivery::shrink(&d.json()) {
            let c = delivery::Delivery::parse(&c);
            let mut js = jobs.to_vec();
            js[k] = Job { bytes: c.base, out: c.out, sets: c.sets }.json();
            out.push(with(j, "jobs", J::Arr(js)));
        }
    }
    out
}

pub const PROP: Prop = Prop {
    id: "C04",
    quick: 10_000,
    thorough: 1_000_000,
    generate,
    run,
    shrink,
    rule: "a case is one simulated process: 1-4 threads each making 1-4 conversions, in one process of twelve up to 300 times over and in a few of those 67,000 times, under seeded switches at control-flow edges, stalls, clock, entropy, environment, memory contents and memory layout; non-trivial: its switch trace and results differ from every other case's",
    measure: "distinct (interleaving trace, results) hashes",
    real: &["lunify::unify (instrumented build)", "operating system threads", "std synchronisation primitives (their futex waits become scheduler switches)"],
    stub: &["thread scheduler", "clock_gettime, nanosleep, getrandom, getenv, file opening", "contents and addresses of fresh memory"],
    assumptions: &[
        "threads are interleaved at control-flow edges of lunify under sequential consistency; weak-memory reorderings are not simulated",
        "a stalled caller resumes only when nobody else can run",
    ],
};
