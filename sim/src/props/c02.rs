//! C02: torn or over-long byte code is always detected, and redelivery heals.

use super::delivery;
use crate::call::{call, Ret};
use crate::chunk::*;
use crate::engine::{isolated, violation, Ctx, Prop, Verdict};
use crate::json::{self, J};
use crate::rng::{self, Rng};
use lunify::LunifyError as E;

fn generate(rng: &mut Rng, _index: u64) -> J {
    let mut b = delivery::base(rng);
    if b.ver == Ver::L51 && b.out.ins == b.fmt.ins && rng.chance(1, 10) {
        // Nothing to convert.
        b.out = b.fmt;
        b.sets.output = b.sets.lua51.clone();
    }
    let n = b.bytes.len();
    // Every cut point of small files, a sample of random and field start cuts of
    // big ones.
    let mut cuts: Vec<usize> = if n <= 200 {
        (0..n).collect()
    } else {
        let mut c: Vec<usize> = (0..60).map(|_| rng.usize(n)).collect();
        for _ in 0..60 {
            c.push(rng.pick(&b.spans).0);
        }
        c.extend(n - 20..n);
        c.extend((0..40).map(|_| rng.usize(60)));
        c
    };
    // Delivery order is part of the schedule.
    for k in (1..cuts.len()).rev() {
        cuts.swap(k, rng.usize(k + 1));
    }
    let mut tails: Vec<Vec<u8>> = (0..6)
        .map(|k| match k {
            0 => vec![rng.below(256) as u8],
            1 => vec![0; 1 + rng.usize(64)],
            2 => b.bytes[n - 1 - rng.usize(n.min(64))..].to_vec(),
            3 => b.bytes.clone(),
            4 => (0..1 + rng.usize(600)).map(|_| rng.below(256) as u8).collect(),
            _ => b"\x1bLua\x51\0\x01\x04\x08\x04\x08\0".to_vec(),
        })
        .collect();
    // One more byte: the ones transports are known to add or drop, and some others.
    tails.extend([0, 0x04, b'\n', b'\r', 0x1a, 0x1b, b' ', 0x7f, 0xff].map(|b| vec![b]));
    tails.extend((0..if n <= 2000 { 30 } else { 5 }).map(|_| vec![rng.below(256) as u8]));
    tails.push(b"\r\n".to_vec());
    json::obj(vec![
        ("base", json::hex(&b.bytes)),
        ("output_format", b.out.json()),
        ("settings", b.sets.json()),
        ("cuts", J::Arr(cuts.iter().map(|x| json::us(*x)).collect())),
        ("tails", J::Arr(tails.iter().map(|t| json::hex(t)).collect())),
    ])
}

fn run(j: &J, ctx: &mut Ctx) -> Verdict {
    let base = j.get("base").bytes();
    let out = Fmt::parse(j.get("output_format"));
    let sets = Sets::parse(j.get("settings"));
    // The result without any failed delivery, from a process of its own.
    let clean = isolated(|| {
        let c = call(&base, &out, &sets);
        json::obj(vec![("ok", J::Bool(matches!(c.ret, Ret::Ok(_)))), ("hash", json::i(c.ret.hash())), ("show", json::s(c.ret.show()))])
    });
    let Ok(clean) = clean else {
        ctx.count("outcome.intact_file_not_convertible", 1);
        return Ok(());
    };
    if !clean.get("ok").bool() {
        ctx.count("outcome.intact_file_not_convertible", 1);
        return Ok(());
    }
    let dec = decode(&base, &sets);
    if dec.negative || dec.ambiguous || dec.bad.is_some() || dec.depth > crate::model::DEEP {
        return Ok(());
    }
    let sig = if base.starts_with(sets.lua50.sig.as_bytes()) { sets.lua50.sig.len() } else { sets.lua51.sig.len() };
    let base_hash = rng::hash_bytes(&base);
    for cut in j.get("cuts").arr() {
        let cut = cut.usize();
        if cut >= base.len() {
            continue;
        }
        let c = call(&base[..cut], &out, &sets);
        ctx.evaluations += 1;
        ctx.sim_ns += c.steps;
        ctx.count("fault.connection_broken", 1);
        ctx.log(c.ret.hash() ^ c.path);
        if cut > sig {
            ctx.case(rng::mix(base_hash ^ cut as u64));
        }
        let want = if cut <= sig { E::IncorrectSignature } else { E::InputTooShort };
        if c.ret != Ret::Err(want) {
            let class = match c.ret {
                Ret::Ok(_) => "torn-accepted",
                Ret::Panic(_) => "panic",
                Ret::Err(_) => "torn-misreported",
            };
            return violation(class, format!("only {cut} of {} bytes arrived: expected {want:?}, got {}", base.len(), c.ret.show()));
        }
    }
    for tail in j.get("tails").arr() {
        let tail = tail.bytes();
        if tail.is_empty() {
            continue;
        }
        let mut long = base.clone();
        long.extend_from_slice(&tail);
        let c = call(&long, &out, &sets);
        ctx.evaluations += 1;
        ctx.sim_ns += c.steps;
        ctx.count("fault.surplus", 1);
        ctx.log(c.ret.hash() ^ c.path);
        ctx.case(rng::mix(base_hash ^ rng::hash_bytes(&tail)));
        if c.ret != Ret::Err(E::InputTooLong) {
            return violation("surplus-misreported", format!("{} surplus bytes: expected InputTooLong, got {}", tail.len(), c.ret.show()));
        }
    }
    let c = call(&base, &out, &sets);
    ctx.evaluations += 1;
    ctx.count("sched.redelivery", 1);
    if c.ret.hash() != clean.get("hash").u64() {
        return violation("redelivery", format!("after the failed deliveries: {}, without them: {}", c.ret.show(), clean.get("show").str()));
    }
    Ok(())
}

fn shrink(j: &J) -> Vec<J> {
    let mut out = Vec::new();
    let with = |key: &str, v: J| {
        let J::Obj(items) = j else { unreachable!() };
        J::Obj(items.iter().map(|(k, x)| (k.clone(), if k == key { v.clone() } else { x.clone() })).collect())
    };
    for key in ["cuts", "tails"] {
        let v = j.get(key).arr();
        let mut n = v.len();
        while n > 0 {
            for s in (0..v.len()).step_by(n) {
                let mut w = v.to_vec();
                w.drain(s..(s + n).min(v.len()));
                out.push(with(key, J::Arr(w)));
            }
            n /= 2;
            if out.len() > 200 {
                break;
            }
        }
    }
    // Smaller file: a single cut keeps its distance from the end.
    let base = j.get("base").bytes();
    let d = delivery::Delivery {
        base: base.clone(),
        out: Fmt::parse(j.get("output_format")),
        sets: Sets::parse(j.get("settings")),
        deliveries: vec![vec![]],
    };
    for c in delivery::shrink(&d.json()) {
        let nb = c.get("base").bytes();
        for from_end in [false, true] {
            let cuts = j
                .get("cuts")
                .arr()
                .iter()
                .map(|x| {
                    let x = x.usize();
                    json::us(if from_end { (x + nb.len()).saturating_sub(base.len()) } else { x })
                })
                .collect();
            out.push(json::obj(vec![
                ("base", c.get("base").clone()),
                ("output_format", c.get("output_format").clone()),
                ("settings", c.get("settings").clone()),
                ("cuts", J::Arr(cuts)),
                ("tails", j.get("tails").clone()),
            ]));
        }
    }
    out
}

pub const PROP: Prop = Prop {
    id: "C02",
    quick: 2_500,
    thorough: 300_000,
    generate,
    run,
    shrink,
    rule: "a case is one delivery of a valid file that breaks off at one byte, or carries surplus bytes; a run breaks the connection at every byte (files up to 200 bytes; a sample of about 180 points above) in a seeded order, then delivers surplus, then the whole file; non-trivial: the cut lies behind the signature; distinct by (file, cut) or (file, surplus)",
    measure: "distinct (file, cut point or surplus) pairs",
    real: &["lunify::unify (instrumented build)"],
    stub: &["connection (breaks at a chosen byte)"],
    assumptions: &["a file that cannot be converted when it is intact is not considered"],
};
