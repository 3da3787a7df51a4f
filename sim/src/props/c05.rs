//! C05: converted Lua 5.0 programs behave as on Lua 5.0 under any schedule.

use crate::call::{call, Ret};
use crate::chunk::*;
use crate::engine::{violation, Ctx, Prop, Verdict};
use crate::json::J;
use crate::lang;
use crate::model::shape50;
use crate::props::c06::{check_stack, holds_numbers, relay, relayout, roomy, route, Case, BUDGET};
use crate::rng::{self, Rng};
use crate::vm::{self, World};

/// Lua 5.0 requires powers of two.
pub const FLUSH50: [u64; 7] = [32, 64, 16, 8, 2, 1, 128];
pub const FLUSH51: [u64; 8] = [50, 32, 20, 8, 5, 3, 1, 120];

fn generate(r: &mut Rng, _index: u64) -> J {
    let from = Fmt::random(r);
    let to = Fmt::random(r);
    let mut sets = Sets::random(r, from.ins, to.ins);
    sets.lua50.fpf = if r.chance(1, 2) { 32 } else { *r.pick(&FLUSH50) };
    sets.output.fpf = if r.chance(1, 3) { 50 } else { *r.pick(&FLUSH51) };
    if r.chance(3, 4) {
        sets.output.stack_limit = 250;
    }
    // Layouts too small for the programs only lead to refusals.
    for (which, ins) in [(0, from.ins), (1, to.ins)] {
        for k in 0..8 {
            let l = if which == 0 { &mut sets.lua50 } else { &mut sets.output };
            if roomy(&l.layout) || k < 2 && r.chance(1, 8) {
                break;
            }
            let normal = if which == 0 { LAYOUT50 } else { LAYOUT51 };
            l.layout = if k == 7 { normal } else { Layout::random(r, ins as u32 * 8, true) };
        }
    }
    // The limit must leave room for constants in B and C.
    let l = &sets.lua50.layout;
    let rk = l.field('B').1.min(l.field('C').1);
    sets.lua50.stack_limit = if r.chance(3, 4) { 250 } else { 32 + r.below(400) }.min((1 << rk) - 1);
    let n = r.weighted(&[4, 4, 2]) + 1;
    let mut sources = Vec::new();
    let mut strip = Vec::new();
    for k in 0..n {
        let o = lang::Options {
            v50: true,
            integers: from.integral || to.integral,
            flush: vec![sets.lua50.fpf, sets.output.fpf],
            prefix: (b'A' + k as u8) as char,
            tasks: r.chance(3, 4),
            size: *r.pick(&[4, 10, 20]),
            vast: false,
        };
        sources.push(lang::program(r, &o));
        strip.push(r.chance(1, 6));
    }
    let mut world = World::random(r, n);
    world.lines = true;
    // The two machines name variables differently.
    world.full_messages = false;
    world.variables = 1;
    let relay = relay(r);
    Case { sources, strip, from, to, sets, relay, world }.json()
}

/// Lua 5.0 words in the layout and with the first constant of `to`; false if
/// an operand does not fit.
pub fn relayout50(f: &mut Func, to: &Consts) -> bool {
    let from = &LAYOUT50;
    let mut fits = true;
    f.walk_mut(&mut |f| {
        fits &= (f.maxstack as u64) <= to.stack_limit;
        for w in f.code.iter_mut() {
            let l = &to.layout;
            let name = NAMES50[from.get(*w, 'O') as usize];
            let mut v = 0;
            let mut put = |which: char, x: i64, n: u32| {
                if x < 0 || n < 63 && x >= 1 << n {
                    fits = false;
                } else if which == 'X' {
                    v = l.set_bx(v, x as u64);
                } else {
                    v = l.set(v, which, x as u64);
                }
            };
            put('O', from.get(*w, 'O') as i64, l.field('O').1);
            put('A', from.get(*w, 'A') as i64, l.field('A').1);
            match shape50(name) {
                Shape::Abx => put('X', from.get_bx(*w) as i64, l.bx().1),
                Shape::AsBx(_) => put('X', from.get_bx(*w) as i64 - from.bias() + l.bias(), l.bx().1),
                Shape::Abc(_, ub, uc) => {
                    for (which, u) in [('B', ub), ('C', uc)] {
                        let mut x = from.get(*w, which) as i64;
                        if u == Use::RK && x >= 250 {
                            x += to.stack_limit as i64 - 250;
                        }
                        put(which, x, l.field(which).1);
                    }
                }
            }
            *w = v;
        }
    });
    fits
}

fn run(j: &J, ctx: &mut Ctx) -> Verdict {
    let c = Case::parse(j);
    let source = vm::machine(&format!("vm50_{}", c.sets.lua50.fpf));
    let target = vm::machine(&format!("vm{}", c.sets.output.fpf));
    let plain = Sets::default();
    let mut originals = Vec::new();
    let mut converted = Vec::new();
    let mut shapes = 0u64;
    for (text, &strip) in c.sources.iter().zip(&c.strip) {
        let Ok(bytes) = source.compile(text, strip) else {
            ctx.count("discard.not_compiled", 1);
            return Ok(());
        };
        let dec = decode(&bytes, &plain);
        let mut f = dec.root.unwrap_or_else(|| panic!("the machine's own file is not readable: {:?}", dec.bad));
        if strip {
            // What luac 5.0 -s leaves behind.
            f.source = b"=(none)\0".to_vec();
        }
        originals.push(encode(Ver::L51, Fmt::HOST, &plain.output, &f));
        let mut stack = 0;
        let mut constants = 0;
        let mut pages = 0;
        f.walk_mut(&mut |f| {
            f.vararg = (f.vararg != 0) as u8;
            // Regrouping keeps less than one batch of every table on the stack.
            let mut tables = std::collections::BTreeSet::new();
            for w in &f.code {
                let name = NAMES50[LAYOUT50.get(*w, 'O') as usize];
                if name.starts_with("SETLIST") {
                    pages = pages.max(LAYOUT50.get_bx(*w) / c.sets.output.fpf + 1);
                }
                if name.starts_with("SETLIST") && LAYOUT50.get_bx(*w) >= c.sets.lua50.fpf {
                    tables.insert(LAYOUT50.get(*w, 'A'));
                }
            }
            stack = stack.max(f.maxstack as u64 + tables.len() as u64 * c.sets.output.fpf);
            constants = constants.max(f.consts.len());
        });
        if !relayout50(&mut f, &c.sets.lua50) {
            ctx.count("discard.source_layout_too_small", 1);
            return Ok(());
        }
        if !holds_numbers(&f, &c.from) || !holds_numbers(&f, &c.to) || c.relay.as_ref().is_some_and(|r| !holds_numbers(&f, &r.0)) {
            ctx.count("discard.number_format_too_small", 1);
            return Ok(());
        }
        f.walk(&mut |f| {
            for w in &f.code {
                shapes |= 1 << c.sets.lua50.layout.get(*w, 'O');
            }
        });
        let mut file = encode(Ver::L50, c.from, &c.sets.lua50, &f);
        let mut sets = c.sets.clone();
        if let Some((fmt, consts)) = &c.relay {
            let (first, second) = route(&c.sets, consts);
            match call(&file, fmt, &first).ret {
                Ret::Ok(v) => file = v,
                Ret::Panic(m) => return violation("panic", m),
                Ret::Err(_) => {
                    ctx.count("probe.refused_by_relay", 1);
                    return Ok(());
                }
            }
            ctx.evaluations += 1;
            ctx.count("probe.relayed", 1);
            sets = second;
        }
        let r = call(&file, &c.to, &sets);
        ctx.evaluations += 1;
        ctx.log(r.ret.hash() ^ r.path);
        let out = match r.ret {
            Ret::Ok(v) => v,
            Ret::Panic(m) => return violation("panic", m),
            Ret::Err(e) => {
                ctx.count("probe.refused", 1);
                ctx.count(&format!("probe.refused.{}", format!("{e:?}").split('(').next().unwrap()), 1);
                let limit = c.sets.output.stack_limit.min(250);
                if c.relay.is_none() && roomy(&c.sets.output.layout) && stack + 12 < limit && constants < 200 && pages < 1 << c.sets.output.layout.field('C').1 {
                    return violation("refused", format!("{e:?}, but the program needs only {stack} registers and {constants} constants"));
                }
                return Ok(());
            }
        };
        let mut check = Sets { lua51: c.sets.output.clone(), ..c.sets.clone() };
        check.lua50.sig = check.lua51.sig.clone();
        let dec = decode(&out, &check);
        let Some(mut g) = dec.root else {
            return violation("unreadable", format!("the converted file is not readable: {:?} at byte {}", dec.bad, dec.at));
        };
        check_stack(&g, &c.sets)?;
        if !relayout(&mut g, &c.sets.output.layout, &LAYOUT51) {
            ctx.count("discard.target_layout_too_big", 1);
            return Ok(());
        }
        converted.push(encode(Ver::L51, Fmt::HOST, &plain.output, &g));
    }
    let want = source.run_nested(&c.world.gentle(), &originals, BUDGET, 120);
    let got = target.run(&c.world, &converted, BUDGET * 8);
    ctx.sim_ns += got.instructions;
    got.count(ctx, &c.world);
    ctx.log(want.hash());
    ctx.log(got.hash());
    if want.out_of_budget {
        ctx.count("discard.out_of_budget", 1);
        return Ok(());
    }
    for (op, name) in NAMES50.iter().enumerate() {
        if shapes >> op & 1 == 1 && matches!(*name, "FORLOOP" | "TFORLOOP" | "TFORPREP" | "SETLIST" | "SETLISTO" | "TEST" | "CLOSE") {
            ctx.count(&format!("probe.programs_with_{name}"), 1);
        }
    }
    ctx.count("probe.compared", 1);
    ctx.case(got.hash() ^ rng::mix(shapes));
    match vm::compare(&c.world, &want, &got) {
        Ok(()) => Ok(()),
        Err(m) => violation("behaviour", m),
    }
}

pub const PROP: Prop = Prop {
    id: "C05",
    quick: 40_000,
    thorough: 1_000_000,
    generate,
    run,
    shrink: Case::shrink,
    rule: "a case is one execution of one to three converted programs under one schedule and fault sequence; non-trivial: the programs were converted, loaded and compared with the originals; distinct by (event history, set of Lua 5.0 opcodes)",
    measure: "distinct (event history, set of Lua 5.0 opcodes in the programs) pairs",
    real: &["lunify::unify (instrumented build)", "Lua 5.1.5 byte code checker and machine, one build per flush size, for the converted programs"],
    stub: &[
        "Lua 5.0 compiler and machine: a port of the 5.0 code generator and instruction set onto the 5.1.5 runtime, byte for byte equal to luac 5.0 on the repository's six Lua 5.0 files",
        "host functions, scheduler, allocator, garbage-collection timing (simulated)",
        "instruction layouts of the machines (re-encoded to the machines' own)",
    ],
    assumptions: &[
        "the order of assignments in a table constructor is undefined: no explicit key equals the position of a positional item",
        "the length of a table with holes is unspecified",
        "error messages are compared up to the names of variables and functions in them",
        "program memory is not limited by what a converted program needs in addition",
    ],
};
