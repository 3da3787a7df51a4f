//! C06: retargeted Lua 5.1 programs behave as before under any schedule.

use crate::call::{call, Ret};
use crate::chunk::*;
use crate::engine::{violation, Ctx, Prop, Verdict};
use crate::json::{self, J};
use crate::lang;
use crate::rng::{self, Rng};
use crate::vm::{self, World};

pub const FLUSH: [u64; 8] = [50, 32, 20, 8, 5, 3, 1, 120];

pub struct Case {
    pub sources: Vec<String>,
    pub strip: Vec<bool>,
    pub from: Fmt,
    pub to: Fmt,
    pub sets: Sets,
    /// The files pass another converter on their way.
    pub relay: Option<(Fmt, Consts)>,
    pub world: World,
}

impl Case {
    pub fn json(&self) -> J {
        json::obj(vec![
            ("sources", J::Arr(self.sources.iter().map(|x| J::Arr(x.lines().map(json::s).collect())).collect())),
            ("strip", J::Arr(self.strip.iter().map(|&x| J::Bool(x)).collect())),
            ("from", self.from.json()),
            ("to", self.to.json()),
            ("settings", self.sets.json()),
            (
                "relay",
                match &self.relay {
                    Some((f, c)) => json::obj(vec![("format", f.json()), ("consts", c.json())]),
                    None => J::Null,
                },
            ),
            ("world", self.world.json()),
        ])
    }
    pub fn parse(j: &J) -> Case {
        Case {
            sources: j.get("sources").arr().iter().map(|x| x.arr().iter().map(|l| l.str().to_string() + "\n").collect()).collect(),
            strip: j.get("strip").arr().iter().map(|x| x.bool()).collect(),
            from: Fmt::parse(j.get("from")),
            to: Fmt::parse(j.get("to")),
            sets: Sets::parse(j.get("settings")),
            relay: match j.get("relay") {
                J::Null => None,
                r => Some((Fmt::parse(r.get("format")), Consts::parse(r.get("consts")))),
            },
            world: World::parse(j.get("world")),
        }
    }
    pub fn shrink(j: &J) -> Vec<J> {
        let c = Case::parse(j);
        let mut out = Vec::new();
        let with = |f: &dyn Fn(&mut Case)| {
            let mut d = Case::parse(j);
            f(&mut d);
            d.json()
        };
        if c.sources.len() > 1 {
            for k in 0..c.sources.len() {
                out.push(with(&|d| {
                    d.sources.remove(k);
                    d.strip.remove(k);
                }));
                out.push(with(&|d| d.sources[k] = "emit(1)\n".into()));
            }
        }
        if c.relay.is_some() {
            out.push(with(&|d| d.relay = None));
            out.push(with(&|d| d.relay.as_mut().unwrap().0 = Fmt::HOST));
            out.push(with(&|d| d.relay.as_mut().unwrap().1.layout = LAYOUT51));
        }
        for w in c.world.shrink() {
            out.push(with(&|d| d.world = w.clone()));
        }
        for k in 0..c.sources.len() {
            if c.strip[k] {
                out.push(with(&|d| d.strip[k] = false));
            }
            for s in vm::shrink_source(&c.sources[k]) {
                out.push(with(&|d| d.sources[k] = s.clone()));
            }
        }
        out.push(with(&|d| d.from = Fmt::HOST));
        out.push(with(&|d| d.to = Fmt::HOST));
        out.push(with(&|d| d.sets.lua50.layout = LAYOUT50));
        out.push(with(&|d| d.sets.lua51.layout = LAYOUT51));
        out.push(with(&|d| d.sets.output.layout = LAYOUT51));
        out.push(with(&|d| d.sets.output.stack_limit = 250));
        out
    }
}

/// One program in three takes a way around.
pub fn relay(r: &mut Rng) -> Option<(Fmt, Consts)> {
    if !r.chance(1, 3) {
        return None;
    }
    let f = Fmt::random(r);
    let mut c = Sets::default().output;
    c.fpf = *r.pick(&[50, 50, 32, 1, 2, 3, 4, 5, 7, 10, 20, 64, 100]);
    for _ in 0..4 {
        let l = Layout::random(r, f.ins as u32 * 8, true);
        if roomy(&l) {
            c.layout = l;
        }
    }
    if r.chance(1, 4) {
        c.sig = "\x1bRelay".into();
    }
    Some((f, c))
}

/// The settings of the first and of the second converter.
pub fn route(sets: &Sets, relay: &Consts) -> (Sets, Sets) {
    let mut first = sets.clone();
    first.output = relay.clone();
    let mut second = sets.clone();
    second.lua51 = relay.clone();
    second.lua50.sig = relay.sig.clone();
    (first, second)
}

/// A layout that holds every operand of a normal Lua 5.1 instruction.
pub fn roomy(l: &Layout) -> bool {
    l.field('O').1 >= 6 && l.field('A').1 >= 8 && l.field('B').1 >= 9 && l.field('C').1 >= l.field('B').1
}

fn generate(r: &mut Rng, _index: u64) -> J {
    let from = Fmt::random(r);
    let to = Fmt::random(r);
    let mut sets = Sets::random(r, from.ins, to.ins);
    sets.lua51.fpf = *r.pick(&FLUSH);
    sets.output.fpf = if r.chance(1, 6) { sets.lua51.fpf } else { *r.pick(&FLUSH) };
    if r.chance(3, 4) {
        sets.output.stack_limit = 250;
    }
    // Layouts too small for the programs only lead to refusals.
    for k in 0..8 {
        if roomy(&sets.lua51.layout) || k < 2 && r.chance(1, 8) {
            break;
        }
        sets.lua51.layout = if k == 7 { LAYOUT51 } else { Layout::random(r, from.ins as u32 * 8, true) };
    }
    for k in 0..8 {
        if roomy(&sets.output.layout) || k < 2 && r.chance(1, 8) {
            break;
        }
        sets.output.layout = if k == 7 { LAYOUT51 } else { Layout::random(r, to.ins as u32 * 8, true) };
    }
    let vast = r.chance(1, 40);
    if vast {
        sets.lua51.fpf = *r.pick(&[1, 1, 1, 3, 5]);
        if r.chance(3, 4) {
            sets.output.fpf = sets.lua51.fpf;
        }
    }
    let n = r.weighted(&[4, 4, 2]) + 1;
    let mut sources = Vec::new();
    let mut strip = Vec::new();
    for k in 0..n {
        let o = lang::Options {
            v50: false,
            integers: from.integral || to.integral,
            flush: vec![sets.lua51.fpf, sets.output.fpf],
            prefix: (b'A' + k as u8) as char,
            tasks: r.chance(3, 4),
            size: *r.pick(&[4, 10, 20]),
            vast: vast && k == 0,
        };
        sources.push(lang::program(r, &o));
        strip.push(r.chance(1, 6));
    }
    let mut world = World::random(r, n);
    world.lines = true;
    let relay = relay(r);
    Case { sources, strip, from, to, sets, relay, world }.json()
}

/// Words of another layout; None if an operand does not fit.
pub fn relayout(f: &mut Func, from: &Layout, to: &Layout) -> bool {
    let mut fits = true;
    f.walk_mut(&mut |f| {
        let mut skip = false;
        for w in f.code.iter_mut() {
            if std::mem::replace(&mut skip, has_page_word(*w, from)) {
                skip = false;
                continue;
            }
            let r = recode51(*w, from, to);
            if r.refuse {
                fits = false;
                return;
            }
            let mut v = 0;
            for (which, x) in r.must {
                v = match which {
                    'X' => to.set_bx(v, x as u64),
                    'S' => to.set_bx(v, (x + to.bias()) as u64),
                    c => to.set(v, c, x as u64),
                };
            }
            *w = v;
        }
    });
    fits
}

/// Whether every number constant has exactly its value in the format.
pub fn holds_numbers(f: &Func, to: &Fmt) -> bool {
    let mut fits = true;
    f.walk(&mut |f| {
        for k in &f.consts {
            if let K::Num(Num::F(x)) = k {
                fits &= match (to.integral, to.num) {
                    (true, n) => x.fract() == 0.0 && x.abs() < if n == 4 { 2e9 } else { 9e15 } && !(*x == 0.0 && x.is_sign_negative()),
                    (false, 4) => *x as f32 as f64 == *x,
                    (false, _) => true,
                };
            }
        }
    });
    fits
}

/// A machine with the stack of the target refuses to load anything else.
pub fn check_stack(f: &Func, sets: &Sets) -> Verdict {
    let mut most = 0;
    f.walk(&mut |f| most = most.max(f.maxstack as u64));
    if most > sets.output.stack_limit {
        return violation("stack", format!("the converted file needs {most} registers, the target has {}", sets.output.stack_limit));
    }
    Ok(())
}

pub const BUDGET: u64 = 400_000;

fn run(j: &J, ctx: &mut Ctx) -> Verdict {
    let c = Case::parse(j);
    let source = vm::machine(&format!("vm{}", c.sets.lua51.fpf));
    let target = vm::machine(&format!("vm{}", c.sets.output.fpf));
    let plain = Sets::default();
    let mut originals = Vec::new();
    let mut converted = Vec::new();
    for (text, &strip) in c.sources.iter().zip(&c.strip) {
        let Ok(bytes) = source.compile(text, strip) else {
            ctx.count("discard.not_compiled", 1);
            return Ok(());
        };
        let dec = decode(&bytes, &plain);
        let mut f = dec.root.unwrap_or_else(|| panic!("the machine's own file is not readable: {:?}", dec.bad));
        if !relayout(&mut f, &LAYOUT51, &c.sets.lua51.layout) {
            ctx.count("discard.source_layout_too_small", 1);
            return Ok(());
        }
        if !holds_numbers(&f, &c.from) || !holds_numbers(&f, &c.to) || c.relay.as_ref().is_some_and(|r| !holds_numbers(&f, &r.0)) {
            ctx.count("discard.number_format_too_small", 1);
            return Ok(());
        }
        let mut file = encode(Ver::L51, c.from, &c.sets.lua51, &f);
        let mut sets = c.sets.clone();
        if let Some((fmt, consts)) = &c.relay {
            let (first, second) = route(&c.sets, consts);
            match call(&file, fmt, &first).ret {
                Ret::Ok(v) => file = v,
                Ret::Panic(m) => return violation("panic", m),
                Ret::Err(_) => {
                    ctx.count("probe.refused_by_relay", 1);
                    return Ok(());
                }
            }
            ctx.evaluations += 1;
            ctx.count("probe.relayed", 1);
            sets = second;
        }
        let r = call(&file, &c.to, &sets);
        ctx.evaluations += 1;
        ctx.log(r.ret.hash() ^ r.path);
        let out = match r.ret {
            Ret::Ok(v) => v,
            Ret::Panic(m) => return violation("panic", m),
            Ret::Err(e) => {
                ctx.count("probe.refused", 1);
                ctx.count(&format!("probe.refused.{}", format!("{e:?}").split('(').next().unwrap()), 1);
                // What the target machine's own compiler makes of the program.
                let limit = c.sets.output.stack_limit.min(250);
                if c.relay.is_none() && roomy(&c.sets.output.layout) && c.sets.output.fpf != c.sets.lua51.fpf && limit >= 10 {
                    if let Ok(native) = target.compile(text, strip) {
                        let (mut fits, mut wide) = (true, false);
                        decode(&native, &plain).root.unwrap().walk(&mut |f| {
                            fits &= (f.maxstack as u64) < limit - 8;
                            wide |= f.code.iter().any(|w| has_page_word(*w, &LAYOUT51));
                        });
                        f.walk(&mut |f| fits &= (f.maxstack as u64) < limit - 8);
                        f.walk(&mut |f| wide |= f.code.iter().any(|w| has_page_word(*w, &c.sets.lua51.layout)));
                        if fits && !wide {
                            return violation("refused", format!("{e:?}, but a native program needs no more than this target has"));
                        }
                    }
                }
                return Ok(());
            }
        };
        let mut check = Sets { lua51: c.sets.output.clone(), ..c.sets.clone() };
        check.lua50.sig = check.lua51.sig.clone();
        let dec = decode(&out, &check);
        let Some(mut g) = dec.root else {
            return violation("unreadable", format!("the converted file is not readable: {:?} at byte {}", dec.bad, dec.at));
        };
        check_stack(&g, &c.sets)?;
        if !relayout(&mut g, &c.sets.output.layout, &LAYOUT51) {
            ctx.count("discard.target_layout_too_big", 1);
            return Ok(());
        }
        originals.push(bytes);
        converted.push(encode(Ver::L51, Fmt::HOST, &plain.output, &g));
    }
    let want = source.run_nested(&c.world.gentle(), &originals, BUDGET, 120);
    let got = target.run(&c.world, &converted, BUDGET * 4);
    ctx.sim_ns += got.instructions;
    got.count(ctx, &c.world);
    ctx.log(want.hash());
    ctx.log(got.hash());
    if want.out_of_budget {
        ctx.count("discard.out_of_budget", 1);
        return Ok(());
    }
    let setlists = |b: &Vec<Vec<u8>>| {
        let mut h = 0u64;
        for b in b {
            decode(b, &plain).root.unwrap().walk(&mut |f| {
                for (pc, w) in instructions(&f.code, Ver::L51, &LAYOUT51) {
                    if LAYOUT51.get(w, 'O') == 34 {
                        h = rng::mix(h ^ w ^ (pc as u64) << 32);
                    }
                }
            });
        }
        h
    };
    let (a, b) = (setlists(&originals), setlists(&converted));
    if a != b {
        ctx.count("probe.regrouped_tables", 1);
    }
    ctx.count("probe.compared", 1);
    ctx.case(got.hash() ^ rng::mix(a) ^ b);
    match vm::compare(&c.world, &want, &got) {
        Ok(()) => Ok(()),
        Err(m) => violation("behaviour", m),
    }
}

pub const PROP: Prop = Prop {
    id: "C06",
    quick: 40_000,
    thorough: 1_000_000,
    generate,
    run,
    shrink: Case::shrink,
    rule: "a case is one execution of one to three converted programs under one schedule and fault sequence; non-trivial: the programs were converted, loaded and compared with the originals; distinct by (event history, table flush instructions)",
    measure: "distinct (event history, original and converted table flush instructions) pairs",
    real: &["lunify::unify (instrumented build)", "Lua 5.1.5 compiler, byte code checker and machine, one build per flush size"],
    stub: &["host functions, scheduler, allocator, garbage-collection timing (simulated)", "instruction layout of the target machine (re-encoded to the machine's own)"],
    assumptions: &[
        "the order of assignments in a table constructor is undefined: no explicit key equals the position of a positional item",
        "the length of a table with holes is unspecified",
        "program memory is not limited by what a converted program needs in addition",
    ],
};
