//! C09: a rejected file is diagnosed by its first unusable field.

use super::delivery::{self, Delivery};
use crate::call::{call, Ret};
use crate::chunk::*;
use crate::engine::{violation, Ctx, Prop, Verdict};
use crate::faults::Fault;
use crate::json::J;
use crate::model;
use crate::rng::Rng;

fn generate(rng: &mut Rng, _index: u64) -> J {
    let b = delivery::base(rng);
    let n = 1 + rng.below(16);
    let structural = |k: Span| {
        matches!(
            k,
            Span::Signature
                | Span::Version
                | Span::Endian
                | Span::WidthInt
                | Span::WidthSize
                | Span::WidthIns
                | Span::InsFormat
                | Span::WidthNum
                | Span::KTag
                | Span::Count
                | Span::StrLen
                | Span::Word
        )
    };
    let header: Vec<_> = b.spans.iter().filter(|s| structural(s.2) && s.0 < 24).collect();
    let body: Vec<_> = b.spans.iter().filter(|s| structural(s.2) && s.0 >= 24).collect();
    let mut deliveries = Vec::new();
    for _ in 0..n {
        let mut faults = Vec::new();
        for _ in 0..1 + rng.below(3) {
            let &&(at, len, kind) = if body.is_empty() || rng.chance(1, 2) { rng.pick(&header) } else { rng.pick(&body) };
            let len = len.max(1);
            faults.push(match kind {
                Span::Word => {
                    // Damage the opcode bits (both layouts keep some in every byte).
                    let k = rng.usize(len);
                    Fault::Set(at + k, vec![rng.below(256) as u8])
                }
                Span::Count | Span::StrLen => {
                    let lsb = if b.fmt.big { at + len - 1 } else { at };
                    match rng.below(3) {
                        0 => Fault::Set(lsb, vec![rng.below(256) as u8]),
                        1 => Fault::Set(if b.fmt.big { at + len - 2 } else { at + 1 }, vec![rng.below(256) as u8]),
                        _ => Fault::Flip(at + rng.usize(len), rng.below(8) as u8),
                    }
                }
                _ => Fault::Set(at + rng.usize(len), vec![if rng.chance(1, 3) { rng.below(12) as u8 } else { rng.below(256) as u8 }]),
            });
        }
        if rng.chance(1, 4) {
            faults.push(Fault::Cut(rng.usize(b.bytes.len() + 1)));
        } else if rng.chance(1, 6) {
            faults.push(Fault::Append(vec![rng.below(256) as u8; 1 + rng.usize(20)]));
        }
        deliveries.push(faults);
    }
    Delivery { base: b.bytes, out: b.out, sets: b.sets, deliveries }.json()
}

fn run(j: &J, ctx: &mut Ctx) -> Verdict {
    let d = Delivery::parse(j);
    let intact = decode(&d.base, &d.sets);
    let convertible = delivery::intact_converts(&d);
    for k in 0..d.deliveries.len() {
        let bytes = d.damaged(k, ctx);
        let dec = decode(&bytes, &d.sets);
        let c = call(&bytes, &d.out, &d.sets);
        ctx.evaluations += 1;
        ctx.sim_ns += c.steps;
        ctx.log(c.ret.hash() ^ c.path);
        delivery::count_outcome(ctx, &c.ret);
        if dec.bad.is_some() {
            ctx.case(crate::rng::mix(crate::rng::hash_bytes(format!("{:?}", dec.bad).as_bytes()) ^ c.path));
        }
        let at = dec.at;
        match (&dec.bad, &c.ret) {
            (_, Ret::Panic(m)) => return violation("panic", m.clone()),
            (None, Ret::Ok(_)) => {}
            (None, Ret::Err(e)) => {
                if model::is_structural(e) && !dec.negative {
                    return violation("misdiagnosed", format!("delivery {k}: every field is usable, got {e:?}"));
                }
            }
            (Some(bad), Ret::Ok(_)) => {
                return violation("accepted", format!("delivery {k}: {bad:?} at byte {at}, but the file was converted"));
            }
            (Some(bad), Ret::Err(e)) => {
                if dec.negative || dec.depth > model::DEEP {
                    ctx.count("probe.any_error_allowed", 1);
                    continue;
                }
                if Some(*e) == model::expected_error(bad) {
                    ctx.count("probe.exact_diagnosis", 1);
                    continue;
                }
                if !model::is_structural(e) {
                    // A function completely read before the bad field may
                    // itself be impossible to convert.
                    let changed = !convertible || dec.fmt != intact.fmt || dec.ver != intact.ver || delivery::differing_functions(&dec.completed, &intact);
                    if changed && !dec.completed.is_empty() {
                        ctx.count("probe.refused_earlier_function", 1);
                        continue;
                    }
                }
                return violation("misdiagnosed", format!("delivery {k}: first unusable field is {bad:?} at byte {at}, got {e:?}"));
            }
        }
    }
    Ok(())
}

pub const PROP: Prop = Prop {
    id: "C09",
    quick: 30_000,
    thorough: 2_000_000,
    generate,
    run,
    shrink: delivery::shrink,
    rule: "a case is one delivery with one to three damaged header or tag fields (plus cuts and surplus); non-trivial: the damaged file has an unusable field; distinct by (first unusable field, executed edge sequence)",
    measure: "distinct (first unusable field, executed edge sequence) pairs",
    real: &["lunify::unify (instrumented build)"],
    stub: &["storage and transport (fault model)"],
    assumptions: &[
        "a negative count has no error of its own: any error is accepted for it",
        "a function read completely before the first unusable field may be refused for its content if the damage changed it",
    ],
};
