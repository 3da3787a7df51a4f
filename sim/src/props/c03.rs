//! C03: memory and work bounded by the received bytes; nothing is leaked.

use super::delivery::{self, Delivery};
use crate::call::{call, call_apart, Ret};
use crate::chunk::*;
use crate::engine::{violation, Ctx, Prop, Verdict};
use crate::json::J;
use crate::rng::Rng;

fn generate(rng: &mut Rng, _index: u64) -> J {
    if rng.chance(1, 10) {
        let b = delivery::worst(rng);
        let mut d = delivery::generate_from(rng, b, 4);
        d.deliveries.push(vec![]);
        return d.json();
    }
    delivery::generate(rng, 8).json()
}

pub fn memory_bound(len: usize) -> i64 {
    64 * 1024 + 12_000 * len as i64
}

fn step_bound(len: usize) -> u64 {
    200_000 + 20_000 * len as u64 + 20 * (len as u64) * (len as u64)
}

/// The same content many times over.
fn grown(d: &Delivery) -> Option<Vec<u8>> {
    let dec = decode(&d.base, &d.sets);
    let (Some(ver), Some(root), None) = (dec.ver, dec.root, dec.bad) else { return None };
    if dec.depth > crate::model::DEEP || d.base.len() > 1 << 16 {
        return None;
    }
    let c = match ver {
        Ver::L50 => &d.sets.lua50,
        Ver::L51 => &d.sets.lua51,
    };
    let mut outer = Func { source: [vec![b'=' ; 5000], vec![0]].concat(), protos: vec![root; 32], lines: vec![1], ..Func::empty() };
    outer.code = vec![match ver {
        Ver::L50 => c.layout.abc(op50("RETURN"), 0, 1, 0),
        Ver::L51 => c.layout.abc(op51("RETURN"), 0, 1, 0),
    }];
    Some(encode(ver, dec.fmt, c, &outer))
}

fn run(j: &J, ctx: &mut Ctx) -> Verdict {
    let d = Delivery::parse(j);
    for k in 0..d.deliveries.len() {
        let bytes = d.damaged(k, ctx);
        let c = call(&bytes, &d.out, &d.sets);
        ctx.evaluations += 1;
        ctx.sim_ns += c.steps;
        ctx.case(crate::rng::mix(c.path ^ c.peak as u64));
        ctx.log(c.ret.hash() ^ c.path ^ c.peak as u64);
        delivery::count_outcome(ctx, &c.ret);
        let per_byte = |x: u64| x / bytes.len().max(1) as u64;
        for (name, v) in [("peak_bytes_per_input_byte", per_byte(c.peak as u64)), ("steps_per_input_byte", per_byte(c.steps))] {
            let bucket = if v == 0 { 0 } else { 1u64 << (63 - v.leading_zeros()) };
            ctx.count(&format!("probe.{name}>={bucket:05}"), 1);
        }
        if let Ret::Panic(_) = c.ret {
            ctx.count("outcome.skipped_panic", 1);
            continue;
        }
        if c.peak > memory_bound(bytes.len()) {
            return violation("memory", format!("delivery {k}: {} input bytes, {} bytes held at once, result {}", bytes.len(), c.peak, c.ret.show()));
        }
        if c.steps > step_bound(bytes.len()) {
            return violation("work", format!("delivery {k}: {} input bytes, {} steps, result {}", bytes.len(), c.steps, c.ret.show()));
        }
        if c.leaked != 0 {
            // One-time initialisation is no leak: it must happen every time.
            ctx.count("probe.repeated_for_leak", 1);
            drop(c.ret);
            let again = call_apart(&bytes, &d.out, &d.sets);
            if again.leaked > 0 {
                return violation(
                    "leak",
                    format!("delivery {k}: {} bytes still allocated after {}", again.leaked, again.ret.show()),
                );
            }
            // Nor does it depend on the file.
            if let Some(bigger) = grown(&d) {
                call_apart(&d.base, &d.out, &d.sets);
                let kept = call_apart(&bigger, &d.out, &d.sets);
                if kept.leaked > 0 {
                    return violation(
                        "leak",
                        format!("delivery {k}: {} bytes still allocated after an earlier call and {} more after a file of {} bytes", c.leaked, kept.leaked, bigger.len()),
                    );
                }
            }
        }
    }
    Ok(())
}

pub const PROP: Prop = Prop {
    id: "C03",
    quick: 30_000,
    thorough: 2_000_000,
    generate,
    run,
    shrink: delivery::shrink,
    rule: "a case is one delivery of a file through a fault sequence to the real unify under the simulated allocator; non-trivial: the pair (executed edge sequence, peak memory) differs from every other case's",
    measure: "distinct hashes of executed edge sequence and peak memory",
    real: &["lunify::unify (instrumented build)"],
    stub: &["allocator (counts, then forwards to the system allocator)", "storage and transport (fault model)", "step clock"],
    assumptions: &["bound checked: 64 KiB + 12000 bytes per input byte; steps <= 200000 + 20000 n + 20 n^2 for n input bytes"],
};
