//! C01: damaged byte code never crashes or hangs the converter.

use super::delivery::{self, Delivery};
use crate::call::{call_raw, Ret};
use crate::engine::{violation, Ctx, Prop, Verdict, Violation};
use crate::json::{self, J};
use crate::rng::Rng;

fn generate(rng: &mut Rng, _index: u64) -> J {
    let b = if rng.chance(1, 20) { delivery::worst(rng) } else { delivery::base(rng) };
    let mut d = delivery::generate_from(rng, b, 16);
    if rng.chance(1, 25) {
        // Flush sizes that no compiled Lua has, but that nothing forbids.
        for c in [&mut d.sets.lua50, &mut d.sets.lua51, &mut d.sets.output] {
            if rng.chance(1, 2) {
                c.fpf = *rng.pick(&[0, 0, 255, 256, 1000, u32::MAX as u64, i64::MAX as u64, u64::MAX]);
            }
        }
    }
    let mut j = d.json();
    if rng.chance(1, 8) {
        let specifications = (0..3).map(|_| if rng.chance(1, 2) { J::Null } else { json::s(specification(rng)) }).collect();
        if let J::Obj(m) = &mut j {
            m.push(("specifications".to_string(), J::Arr(specifications)));
        }
    }
    j
}

/// An order and sizes of the operands that `from_specification` may or may not accept.
fn specification(rng: &mut Rng) -> String {
    let mut operands = vec!['O', 'A', 'B', 'C'];
    for k in (1..4).rev() {
        operands.swap(k, rng.usize(k + 1));
    }
    if rng.chance(1, 2) {
        // B and C next to each other, as they have to be.
        operands.retain(|&c| c != 'C');
        let b = operands.iter().position(|&c| c == 'B').unwrap();
        operands.insert(b + rng.usize(2), 'C');
    }
    if rng.chance(1, 20) {
        let (k, l) = (rng.usize(4), rng.usize(4));
        operands[k] = operands[l];
    }
    let few = rng.chance(1, 3);
    let sizes = operands.iter().map(|_| match rng.below(40) {
        0 => *rng.pick(&[0, 1, 5, 6, 7, 32, 33, 63, 64, 65, u64::MAX / 2, u64::MAX]),
        _ if few => 6 + rng.below(6),
        _ => 8 + rng.below(24),
    });
    let sizes: Vec<u64> = sizes.collect();
    operands.iter().zip(sizes).map(|(c, n)| format!("{c}{n}")).collect::<Vec<_>>().join(" ")
}

/// The layout of a specification, or None if it is refused.
fn build(text: &str, ctx: &mut Ctx) -> Result<Option<lunify::InstructionLayout>, Violation> {
    use lunify::OperandType as T;
    let operands: Vec<T> = text
        .split(' ')
        .map(|t| {
            let n = t[1..].parse().unwrap();
            match t.as_bytes()[0] {
                b'O' => T::Opcode(n),
                b'A' => T::A(n),
                b'B' => T::B(n),
                _ => T::C(n),
            }
        })
        .collect();
    let operands: [T; 4] = operands.try_into().ok().expect("harness: specification");
    match std::panic::catch_unwind(|| lunify::InstructionLayout::from_specification(operands)) {
        Ok(Ok(l)) => {
            ctx.count("specification.accepted", 1);
            Ok(Some(l))
        }
        Ok(Err(_)) => {
            ctx.count("specification.refused", 1);
            Ok(None)
        }
        Err(_) => Err(Violation { class: "panic".into(), detail: format!("from_specification({text}): {}", crate::call::last_panic()) }),
    }
}

fn run(j: &J, ctx: &mut Ctx) -> Verdict {
    let d = Delivery::parse(j);
    let format = d.out.lunify();
    let mut settings = d.sets.lunify();
    let layouts = [&mut settings.lua50.layout, &mut settings.lua51.layout, &mut settings.output.layout];
    for (layout, text) in layouts.into_iter().zip(j.get("specifications").arr()) {
        if let J::Str(text) = text {
            if let Some(l) = build(text, ctx)? {
                *layout = l;
            }
        }
    }
    for k in 0..d.deliveries.len() {
        let bytes = d.damaged(k, ctx);
        let c = call_raw(&bytes, &format, &settings);
        ctx.evaluations += 1;
        ctx.sim_ns += c.steps;
        ctx.case(c.path);
        ctx.log(c.ret.hash() ^ c.path);
        delivery::count_outcome(ctx, &c.ret);
        if let Ret::Panic(m) = c.ret {
            return violation("panic", format!("delivery {k} ({} bytes): {m}", bytes.len()));
        }
    }
    Ok(())
}

fn shrink(j: &J) -> Vec<J> {
    let mut out = Vec::new();
    let s = j.get("specifications");
    if *s == J::Null {
        return delivery::shrink(j);
    }
    let with = |j: &J, s: Vec<J>| {
        let mut j = j.clone();
        if let J::Obj(m) = &mut j {
            m.retain(|x| x.0 != "specifications");
            m.push(("specifications".to_string(), J::Arr(s)));
        }
        j
    };
    let mut plain = j.clone();
    if let J::Obj(m) = &mut plain {
        m.retain(|x| x.0 != "specifications");
    }
    for k in 0..3 {
        if s.arr()[k] != J::Null {
            let mut s = s.arr().to_vec();
            s[k] = J::Null;
            out.push(with(j, s));
        }
    }
    out.extend(delivery::shrink(&plain).iter().map(|j| with(j, s.arr().to_vec())));
    out.push(plain);
    out
}

pub const PROP: Prop = Prop {
    id: "C01",
    quick: 20_000,
    thorough: 3_000_000,
    generate,
    run,
    shrink,
    rule: "a case is one delivery of a generated or compiled file through a fault sequence to the real unify; non-trivial: its sequence of executed lunify edges differs from every other case's",
    measure: "distinct hashes of the ordered sequence of executed control-flow edges of lunify",
    real: &["lunify::unify (instrumented build)", "Rust allocator", "thread stack of 2 MiB"],
    stub: &["storage and transport (fault model)", "step clock (one tick per executed edge; reported as one simulated nanosecond)"],
    assumptions: &[
        "arithmetic overflow counts as a panic (debug profile semantics)",
        "settings are legal: MAXSTACK <= 250, layouts accepted by from_specification that fit the instruction width",
    ],
};
