//! Scenarios in which files reach the converter through damaging storage.

use crate::chunk::*;
use crate::engine::Ctx;
use crate::faults::{self, Fault};
use crate::gen;
use crate::json::{self, J};
use crate::model;
use crate::rng::Rng;

pub struct Delivery {
    pub base: Vec<u8>,
    pub out: Fmt,
    pub sets: Sets,
    /// Each entry is the damage of one delivery of `base`.
    pub deliveries: Vec<Vec<Fault>>,
}

impl Delivery {
    pub fn json(&self) -> J {
        json::obj(vec![
            ("base", json::hex(&self.base)),
            ("output_format", self.out.json()),
            ("settings", self.sets.json()),
            ("deliveries", J::Arr(self.deliveries.iter().map(|d| J::Arr(d.iter().map(|f| f.json()).collect())).collect())),
        ])
    }
    pub fn parse(j: &J) -> Delivery {
        Delivery {
            base: j.get("base").bytes(),
            out: Fmt::parse(j.get("output_format")),
            sets: Sets::parse(j.get("settings")),
            deliveries: j.get("deliveries").arr().iter().map(|d| d.arr().iter().map(Fault::parse).collect()).collect(),
        }
    }
    /// Applies one delivery's faults, counting what really fired.
    pub fn damaged(&self, k: usize, ctx: &mut Ctx) -> Vec<u8> {
        let mut d = self.base.clone();
        for f in &self.deliveries[k] {
            if f.apply(&mut d) {
                ctx.count(&format!("fault.{}", f.kind()), 1);
            }
        }
        if d.len() > 1 << 20 {
            d.truncate(1 << 20);
        }
        d
    }
}

pub struct Base {
    pub bytes: Vec<u8>,
    pub spans: Vec<(usize, usize, Span)>,
    pub ver: Ver,
    pub fmt: Fmt,
    pub out: Fmt,
    pub sets: Sets,
}

pub fn base(rng: &mut Rng) -> Base {
    let ver = if rng.chance(1, 2) { Ver::L50 } else { Ver::L51 };
    let mut fmt = if rng.chance(1, 4) { Fmt::HOST } else { Fmt::random(rng) };
    if ver == Ver::L50 {
        fmt.format = 0;
    }
    let out = match rng.below(6) {
        0 => fmt,
        1 => Fmt::HOST,
        _ => Fmt::random(rng),
    };
    let sets = Sets::random(rng, fmt.ins, out.ins);
    base_with(rng, ver, fmt, out, sets)
}

/// As deep as functions can be nested, or almost.
pub fn tall(rng: &mut Rng) -> Base {
    let mut b = base(rng);
    let c = if b.ver == Ver::L50 { &b.sets.lua50 } else { &b.sets.lua51 };
    let f = gen::tower(Func::empty(), 150 + rng.usize(51), b.ver, c);
    let e = Encoder::encode(b.ver, b.fmt, c, &f);
    b.bytes = e.out;
    b.spans = e.spans;
    b
}

/// Few instructions that ask for as much as operands can.
pub fn worst(rng: &mut Rng) -> Base {
    let mut b = base(rng);
    b.fmt.ins = 8;
    b.sets = Sets::random(rng, 8, b.out.ins);
    if rng.chance(2, 3) {
        b.sets.lua50.layout = Layout::random(rng, 64, true);
        b.sets.lua51.layout = Layout::random(rng, 64, true);
    }
    let c = if b.ver == Ver::L50 { &b.sets.lua50 } else { &b.sets.lua51 };
    let f = gen::worst(rng, b.ver, c);
    let e = Encoder::encode(b.ver, b.fmt, c, &f);
    b.bytes = e.out;
    b.spans = e.spans;
    b
}

/// A short file, and the same file damaged.
pub fn small(rng: &mut Rng) -> (Base, Vec<u8>) {
    let mut b = base(rng);
    for _ in 0..20 {
        if b.bytes.len() < 700 {
            break;
        }
        b = base(rng);
    }
    b.bytes.truncate(4000);
    let mut damaged = b.bytes.clone();
    for f in faults::sequence(rng, &b.spans, &b.bytes, &b.bytes, b.fmt.big) {
        f.apply(&mut damaged);
    }
    damaged.truncate(4000);
    (b, damaged)
}

pub fn base_with(rng: &mut Rng, ver: Ver, fmt: Fmt, out: Fmt, sets: Sets) -> Base {
    let c = if ver == Ver::L50 { &sets.lua50 } else { &sets.lua51 };
    let f = gen::file(rng, ver, &fmt, c);
    let e = Encoder::encode(ver, fmt, c, &f);
    let (bytes, spans) = (e.out, e.spans);
    Base { bytes, spans, ver, fmt, out, sets }
}

pub fn generate(rng: &mut Rng, max_deliveries: u64) -> Delivery {
    let b = base(rng);
    generate_from(rng, b, max_deliveries)
}

pub fn generate_from(rng: &mut Rng, mut b: Base, max_deliveries: u64) -> Delivery {
    if b.ver == Ver::L51 && b.out.ins == b.fmt.ins && rng.chance(1, 12) {
        // Nothing to convert, except for the signature now and then: a Lua 5.1
        // file may also start with the one expected of Lua 5.0 files.
        b.out = b.fmt;
        b.sets.output = b.sets.lua51.clone();
        let own = b.sets.lua51.sig.clone();
        let other = ["\x1bLuB", "\x1bQua", "\x1bLu5"][rng.usize(3)].to_string();
        if rng.chance(1, 3) && other.len() == own.len() && other != own {
            b.bytes[..own.len()].copy_from_slice(other.as_bytes());
            b.sets.lua50.sig = other;
        }
    }
    let stale = if rng.chance(1, 2) { base(rng).bytes } else { b.bytes.clone() };
    let n = 1 + rng.below(max_deliveries);
    let words: Vec<usize> = b.spans.iter().filter(|s| s.2 == Span::Word).map(|s| s.0).collect();
    let layout = if b.ver == Ver::L50 { &b.sets.lua50.layout } else { &b.sets.lua51.layout };
    let deliveries = (0..n)
        .map(|_| {
            let mut faults = Vec::new();
            if rng.chance(1, 30) {
                if let Some(f) = faults::stuck(rng, &b.spans) {
                    faults.push(f);
                    if rng.chance(1, 2) {
                        return faults;
                    }
                }
            }
            if !words.is_empty() && rng.chance(1, 4) {
                // Nonsense in the operands of some instructions.
                for _ in 0..1 + rng.below(4) {
                    let at = *rng.pick(&words);
                    faults.push(operand_damage(rng, &b, at, layout));
                }
                if rng.chance(1, 2) {
                    return faults;
                }
            }
            faults.extend(faults::sequence(rng, &b.spans, &b.bytes, &stale, b.fmt.big));
            faults
        })
        .collect();
    Delivery { base: b.bytes, out: b.out, sets: b.sets, deliveries }
}

fn operand_damage(rng: &mut Rng, b: &Base, at: usize, layout: &Layout) -> Fault {
    let n = b.fmt.ins as usize;
    let mut raw = b.bytes[at..at + n].to_vec();
    if b.fmt.big {
        raw.reverse();
    }
    raw.resize(8, 0);
    let mut w = u64::from_le_bytes(raw.try_into().unwrap());
    for which in ['O', 'A', 'B', 'C'] {
        let max = (1u64 << layout.field(which).1) - 1;
        if which == 'O' {
            if rng.chance(1, 2) {
                w = layout.set(w, which, rng.below(38).min(max));
            }
        } else if rng.chance(1, 2) {
            let v = match rng.below(6) {
                0 => 0,
                1 => 1,
                2 => max,
                3 => max - rng.below(3),
                4 => max / 2 + rng.below(2),
                _ => rng.below(max + 1),
            };
            w = layout.set(w, which, v);
        }
    }
    let mut raw = w.to_le_bytes()[..n].to_vec();
    if b.fmt.big {
        raw.reverse();
    }
    Fault::Set(at, raw)
}

/// Smaller models of the same file.
pub fn shrink_func(f: &Func) -> Vec<Func> {
    let mut out = Vec::new();
    for p in &f.protos {
        out.push(p.clone());
    }
    for k in 0..f.protos.len() {
        let mut g = f.clone();
        g.protos.remove(k);
        out.push(g);
    }
    fn cut<T: Clone>(v: &[T]) -> Vec<Vec<T>> {
        let mut r = Vec::new();
        let mut n = v.len();
        while n > 0 {
            for s in (0..v.len()).step_by(n) {
                let mut w = v.to_vec();
                w.drain(s..(s + n).min(v.len()));
                r.push(w);
                if r.len() > 60 {
                    return r;
                }
            }
            n /= 2;
        }
        r
    }
    // Code and lines together.
    if f.lines.len() == f.code.len() {
        let idx: Vec<usize> = (0..f.code.len()).collect();
        for keep in cut(&idx) {
            let mut g = f.clone();
            g.code = keep.iter().map(|&k| f.code[k]).collect();
            g.lines = keep.iter().map(|&k| f.lines[k]).collect();
            out.push(g);
        }
    } else {
        for c in cut(&f.code) {
            let mut g = f.clone();
            g.code = c;
            out.push(g);
        }
        for c in cut(&f.lines) {
            let mut g = f.clone();
            g.lines = c;
            out.push(g);
        }
    }
    for c in cut(&f.consts) {
        let mut g = f.clone();
        g.consts = c;
        out.push(g);
    }
    for c in cut(&f.locals) {
        let mut g = f.clone();
        g.locals = c;
        out.push(g);
    }
    for c in cut(&f.upnames) {
        let mut g = f.clone();
        g.upnames = c;
        out.push(g);
    }
    for c in cut(&f.source) {
        let mut g = f.clone();
        g.source = c;
        out.push(g);
    }
    for (k, p) in f.protos.iter().enumerate() {
        for q in shrink_func(p) {
            let mut g = f.clone();
            g.protos[k] = q;
            out.push(g);
            if out.len() > 600 {
                return out;
            }
        }
    }
    out
}

pub fn shrink(j: &J) -> Vec<J> {
    let d = Delivery::parse(j);
    let mut out = Vec::new();
    let mut push = |d: Delivery| out.push(d.json());
    let re = |base: Vec<u8>, o: Fmt, sets: Sets, deliveries: Vec<Vec<Fault>>| Delivery { base, out: o, sets, deliveries };
    if d.deliveries.len() > 1 {
        for x in &d.deliveries {
            push(re(d.base.clone(), d.out, d.sets.clone(), vec![x.clone()]));
        }
        return out;
    }
    let faults = d.deliveries.first().cloned().unwrap_or_default();
    if faults.len() > 1 {
        for k in 0..faults.len() {
            let mut f = faults.clone();
            f.remove(k);
            push(re(d.base.clone(), d.out, d.sets.clone(), vec![f]));
        }
    }
    if d.sets != Sets::default() {
        push(re(d.base.clone(), d.out, Sets::default(), d.deliveries.clone()));
        let def = Sets::default();
        for k in 0..3 {
            let mut s = d.sets.clone();
            match k {
                0 => s.lua50 = def.lua50.clone(),
                1 => s.lua51 = def.lua51.clone(),
                _ => s.output = def.output.clone(),
            }
            push(re(d.base.clone(), d.out, s, d.deliveries.clone()));
        }
    }
    if d.out != Fmt::HOST {
        push(re(d.base.clone(), Fmt::HOST, d.sets.clone(), d.deliveries.clone()));
    }
    let dec = decode(&d.base, &d.sets);
    if let (Some(root), None, Some(ver)) = (&dec.root, &dec.bad, dec.ver) {
        let c = if ver == Ver::L50 { &d.sets.lua50 } else { &d.sets.lua51 };
        for fmt in [Fmt::HOST, dec.fmt] {
            if fmt != dec.fmt && fmt.integral == dec.fmt.integral {
                push(re(encode(ver, fmt, c, root), d.out, d.sets.clone(), d.deliveries.clone()));
            }
        }
        let before = encode(ver, dec.fmt, c, root);
        for f in shrink_func(root) {
            let bytes = encode(ver, dec.fmt, c, &f);
            push(re(bytes.clone(), d.out, d.sets.clone(), d.deliveries.clone()));
            // Faults aimed behind the removed part move with it.
            let gone = before.len() as i64 - bytes.len() as i64;
            if gone > 0 && !faults.is_empty() {
                let shift = |x: usize| (x as i64 - gone).max(0) as usize;
                let moved = faults
                    .iter()
                    .map(|f| match f.clone() {
                        Fault::Cut(x) => Fault::Cut(shift(x)),
                        Fault::Flip(x, b) => Fault::Flip(shift(x), b),
                        Fault::Set(x, b) => Fault::Set(shift(x), b),
                        Fault::Zero(x, n) => Fault::Zero(shift(x), n),
                        Fault::Del(x, n) => Fault::Del(shift(x), n),
                        Fault::Dup(x, n) => Fault::Dup(shift(x), n),
                        Fault::Repeat(x, n, times) => Fault::Repeat(shift(x), n, times),
                        Fault::Swap(x, y, n) => Fault::Swap(shift(x), shift(y), n),
                        Fault::Insert(x, b) => Fault::Insert(shift(x), b),
                        f => f,
                    })
                    .collect();
                push(re(bytes, d.out, d.sets.clone(), vec![moved]));
            }
        }
    } else if !faults.is_empty() || dec.bad.is_some() {
        // Undecodable base: remove and clear byte ranges.
        let n = d.base.len();
        let mut step = n / 2;
        while step > 0 {
            for s in (0..n).step_by(step) {
                let mut b = d.base.clone();
                b.drain(s..(s + step).min(n));
                push(re(b, d.out, d.sets.clone(), d.deliveries.clone()));
            }
            if step < 8 {
                break;
            }
            step /= 2;
        }
    }
    for (k, f) in faults.iter().enumerate() {
        if let Fault::Repeat(at, len, times) = f {
            for fewer in [times / 2, times * 7 / 8, times.saturating_sub(1)] {
                if fewer > 0 && fewer < *times {
                    let mut f = faults.clone();
                    f[k] = Fault::Repeat(*at, *len, fewer);
                    push(re(d.base.clone(), d.out, d.sets.clone(), vec![f]));
                }
            }
        }
    }
    if !faults.is_empty() {
        let mut b = d.base.clone();
        for f in &faults {
            f.apply(&mut b);
        }
        if b.len() > d.base.len() + 1000 {
            return out;
        }
        push(re(b, d.out, d.sets.clone(), vec![vec![]]));
    }
    out
}

/// Was this file damaged into something with a reason to be refused?
pub fn intact_converts(d: &Delivery) -> bool {
    matches!(crate::call::call(&d.base, &d.out, &d.sets).ret, crate::call::Ret::Ok(_))
}

pub fn count_outcome(ctx: &mut Ctx, ret: &crate::call::Ret) {
    let key = match ret {
        crate::call::Ret::Ok(_) => "outcome.ok".to_string(),
        crate::call::Ret::Err(e) => {
            let t = format!("{e:?}");
            format!("outcome.{}", t.split('(').next().unwrap())
        }
        crate::call::Ret::Panic(_) => "outcome.panic".to_string(),
    };
    ctx.count(&key, 1);
}

pub fn differing_functions(completed: &[Func], base: &Decoded) -> bool {
    let _ = model::DEEP;
    completed.iter().any(|f| !base.completed.contains(f))
}
