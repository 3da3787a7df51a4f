//! C07: accepted content is carried over exactly.

use super::delivery::{self, Delivery};
use crate::call::{call, Ret};
use crate::chunk::*;
use crate::engine::{violation, Ctx, Prop, Verdict};
use crate::faults::Fault;
use crate::gen;
use crate::json::J;
use crate::model::{self, Judge};
use crate::rng::Rng;

fn generate(rng: &mut Rng, _index: u64) -> J {
    if rng.chance(1, 10) {
        // Many short files of values at the edges.
        let b = delivery::base(rng);
        let c = if b.ver == Ver::L50 { &b.sets.lua50 } else { &b.sets.lua51 };
        let base = encode(b.ver, b.fmt, c, &gen::corners(rng, b.ver, &b.fmt, c, &b.out));
        let flips = rng.below(4);
        let deliveries = (0..1 + flips).map(|k| if k == 0 { vec![] } else { vec![Fault::Flip(rng.usize(base.len()), rng.below(8) as u8)] }).collect();
        return Delivery { base, out: b.out, sets: b.sets, deliveries }.json();
    }
    let mut d = delivery::generate(rng, 8);
    // Most faults here damage payload, which is accepted: keep the lists short
    // and always deliver the intact file too.
    for f in &mut d.deliveries {
        f.truncate(2);
    }
    let n = d.base.len();
    let payload: Vec<Vec<Fault>> = (0..6).map(|_| (0..1 + rng.below(3)).map(|_| Fault::Flip(rng.usize(n), rng.below(8) as u8)).collect()).collect();
    d.deliveries.extend(payload);
    d.deliveries.push(vec![]);
    d.json()
}

/// Judges one result; used by C08 too.
pub fn judge(bytes: &[u8], out_fmt: &Fmt, sets: &Sets, ret: &Ret, ctx: &mut Ctx) -> Verdict {
    let dec = decode(bytes, sets);
    match ret {
        Ret::Panic(m) => violation("panic", m.clone()),
        Ret::Err(e) => {
            if model::must_convert(&dec, sets, out_fmt) {
                return violation("refused", format!("every value fits the target, but the result is {e:?}"));
            }
            Ok(())
        }
        Ret::Ok(out) => {
            let already = model::already_right(&dec, out_fmt, sets) && bytes.starts_with(sets.output.sig.as_bytes());
            if already {
                if out == bytes {
                    ctx.count("probe.identity", 1);
                    return Ok(());
                }
                // Re-encoding a readable file is as good.
            }
            let Some(root) = &dec.root else {
                return violation("unreadable-accepted", format!("the input is unreadable ({:?} at byte {}) but was converted", dec.bad, dec.at));
            };
            if let Some(b) = &dec.bad {
                return violation("unreadable-accepted", format!("the input is unreadable ({b:?} at byte {}) but was converted", dec.at));
            }
            let mut osets = sets.clone();
            osets.lua51 = sets.output.clone();
            osets.lua50.sig = sets.output.sig.clone();
            let got = decode(out, &osets);
            if got.bad.is_some() || got.ver != Some(Ver::L51) || got.negative || got.ambiguous {
                return violation("malformed-output", format!("output: {:?} at byte {} of {}", got.bad, got.at, out.len()));
            }
            if got.fmt != *out_fmt {
                return violation("malformed-output", format!("output format {:?} instead of {:?}", got.fmt, out_fmt));
            }
            if dec.ambiguous {
                ctx.count("probe.ambiguous_header", 1);
                return Ok(());
            }
            let mut judge = Judge { ver: dec.ver.unwrap(), sets, to: out_fmt, code_compared: 0, functions: 0 };
            let r = judge.func(root, got.root.as_ref().unwrap(), "main");
            ctx.count("probe.functions_compared", judge.functions);
            ctx.count("probe.functions_with_code_compared", judge.code_compared);
            if let Err(what) = r {
                return violation("content", what);
            }
            Ok(())
        }
    }
}

fn run(j: &J, ctx: &mut Ctx) -> Verdict {
    let d = Delivery::parse(j);
    for k in 0..d.deliveries.len() {
        let bytes = d.damaged(k, ctx);
        let c = call(&bytes, &d.out, &d.sets);
        ctx.evaluations += 1;
        ctx.sim_ns += c.steps;
        ctx.log(c.ret.hash() ^ c.path);
        delivery::count_outcome(ctx, &c.ret);
        if let Ret::Ok(out) = &c.ret {
            ctx.case(crate::rng::hash_bytes(out));
            if !d.deliveries[k].is_empty() && bytes != d.base {
                ctx.count("probe.damaged_and_accepted", 1);
            }
        }
        if let Ret::Panic(_) = c.ret {
            // C01's business; the content question does not arise.
            ctx.count("outcome.skipped_panic", 1);
            continue;
        }
        if let Err(mut v) = judge(&bytes, &d.out, &d.sets, &c.ret, ctx) {
            v.detail = format!("delivery {k}: {}", v.detail);
            return Err(v);
        }
    }
    Ok(())
}

pub const PROP: Prop = Prop {
    id: "C07",
    quick: 16_000,
    thorough: 2_000_000,
    generate,
    run,
    shrink: delivery::shrink,
    rule: "a case is one delivery (intact or through storage faults) to the real unify; non-trivial: it was accepted and its output differs from every other case's",
    measure: "distinct outputs compared with the independent decoding of their input",
    real: &["lunify::unify (instrumented build)"],
    stub: &["storage and transport (fault model)"],
    assumptions: &[
        "operands that no Lua machine reads and the size hints of NEWTABLE may change",
        "code of Lua 5.0 functions with loops, table constructors or variadic arguments is compared by landmarks only; its behaviour is C05's",
    ],
};
