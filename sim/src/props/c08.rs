//! C08: every relay route and retry history yields the same byte code.
//!
//! A discrete-event network: converters (nodes) with a format and settings of
//! their own forward a byte code file to their neighbours. Every send has a
//! fate (delay, loss, duplication); nodes crash and restart, keeping only the
//! file they stored; links are cut and healed.

use super::c07;
use super::delivery;
use crate::call::{call, Ret};
use crate::chunk::*;
use crate::engine::{violation, Ctx, Prop, Verdict};
use crate::gen;
use crate::json::{self, J};
use crate::model;
use crate::rng::Rng;
use std::collections::BTreeMap;

struct Node {
    fmt: Fmt,
    consts: Consts,
    links: Vec<usize>,
}

/// What happens to the k-th send of the run.
#[derive(Clone, Debug)]
struct Fate {
    delay: u64,
    copies: u64,
}

struct Net {
    base: Vec<u8>,
    /// Settings that describe the original file.
    lua50: Consts,
    lua51: Consts,
    nodes: Vec<Node>,
    fates: Vec<Fate>,
    /// (time, node, down for)
    crashes: Vec<(u64, usize, u64)>,
    /// (time, a, b, for): messages between a and b are lost.
    cuts: Vec<(u64, usize, usize, u64)>,
    /// (time, node): the node converts its stored file again.
    redo: Vec<(u64, usize)>,
}

impl Net {
    fn json(&self) -> J {
        let nums = |v: &[u64]| J::Arr(v.iter().map(|&x| json::i(x)).collect());
        json::obj(vec![
            ("base", json::hex(&self.base)),
            ("lua50", self.lua50.json()),
            ("lua51", self.lua51.json()),
            (
                "nodes",
                J::Arr(
                    self.nodes
                        .iter()
                        .map(|n| {
                            json::obj(vec![
                                ("format", n.fmt.json()),
                                ("settings", n.consts.json()),
                                ("links", J::Arr(n.links.iter().map(|&x| json::us(x)).collect())),
                            ])
                        })
                        .collect(),
                ),
            ),
            ("fates", J::Arr(self.fates.iter().map(|f| nums(&[f.delay, f.copies])).collect())),
            ("crashes", J::Arr(self.crashes.iter().map(|c| nums(&[c.0, c.1 as u64, c.2])).collect())),
            ("cuts", J::Arr(self.cuts.iter().map(|c| nums(&[c.0, c.1 as u64, c.2 as u64, c.3])).collect())),
            ("redo", J::Arr(self.redo.iter().map(|c| nums(&[c.0, c.1 as u64])).collect())),
        ])
    }
    fn parse(j: &J) -> Net {
        let nums = |j: &J| j.arr().iter().map(|x| x.u64()).collect::<Vec<_>>();
        Net {
            base: j.get("base").bytes(),
            lua50: Consts::parse(j.get("lua50")),
            lua51: Consts::parse(j.get("lua51")),
            nodes: j
                .get("nodes")
                .arr()
                .iter()
                .map(|n| Node {
                    fmt: Fmt::parse(n.get("format")),
                    consts: Consts::parse(n.get("settings")),
                    links: n.get("links").arr().iter().map(|x| x.usize()).collect(),
                })
                .collect(),
            fates: j.get("fates").arr().iter().map(|f| Fate { delay: nums(f)[0], copies: nums(f)[1] }).collect(),
            crashes: j.get("crashes").arr().iter().map(|c| (nums(c)[0], nums(c)[1] as usize, nums(c)[2])).collect(),
            cuts: j.get("cuts").arr().iter().map(|c| (nums(c)[0], nums(c)[1] as usize, nums(c)[2] as usize, nums(c)[3])).collect(),
            redo: j.get("redo").arr().iter().map(|c| (nums(c)[0], nums(c)[1] as usize)).collect(),
        }
    }
}

fn generate(rng: &mut Rng, _index: u64) -> J {
    let ver = if rng.chance(1, 2) { Ver::L50 } else { Ver::L51 };
    let mut fmt = if rng.chance(1, 4) { Fmt::HOST } else { Fmt::random(rng) };
    if ver == Ver::L50 {
        fmt.format = 0;
    }
    let sets = Sets::random(rng, fmt.ins, fmt.ins);
    let integral_world = rng.chance(1, 8);
    fmt.integral = integral_world;
    let n = 2 + rng.usize(4);
    // One flush size per network: regrouped table constructors need not be the
    // same instructions on every route (their behaviour is C06's).
    let fpf = if ver == Ver::L51 { sets.lua51.fpf } else { sets.output.fpf };
    let mut nodes: Vec<Node> = (0..n)
        .map(|_| {
            let mut f = Fmt::random(rng);
            f.integral = integral_world != rng.chance(1, 10);
            let mut c = Sets::random(rng, f.ins, f.ins).output;
            c.fpf = fpf;
            // A 5.0 signature that starts the 5.1 signature hides it.
            if c.sig != sets.lua50.sig && (c.sig.starts_with(&sets.lua50.sig) || sets.lua50.sig.starts_with(&c.sig)) {
                c.sig = sets.lua50.sig.clone();
            }
            if rng.chance(2, 3) {
                c.stack_limit = 250;
            }
            Node { fmt: f, consts: c, links: vec![] }
        })
        .collect();
    if rng.chance(1, 4) {
        // A node that already wants the origin's format.
        let k = rng.usize(n);
        nodes[k].fmt = fmt;
        if nodes[k].consts.layout.total() > fmt.ins as u32 * 8 {
            nodes[k].consts.layout = LAYOUT51;
        }
        if ver == Ver::L51 && rng.chance(1, 2) {
            nodes[k].consts = sets.lua51.clone();
        }
    }
    // A random connected topology.
    for k in 1..n {
        let p = rng.usize(k);
        nodes[k].links.push(p);
        nodes[p].links.push(k);
    }
    for _ in 0..rng.below(n as u64) {
        let (a, b) = (rng.usize(n), rng.usize(n));
        if a != b && !nodes[a].links.contains(&b) {
            nodes[a].links.push(b);
            nodes[b].links.push(a);
        }
    }
    let c = if ver == Ver::L50 { &sets.lua50 } else { &sets.lua51 };
    let mut f = gen::file(rng, ver, &fmt, c);
    if rng.chance(2, 3) {
        // Make every number representable everywhere.
        f.walk_mut(&mut |f| {
            for k in &mut f.consts {
                if let K::Num(x) = k {
                    let v = match *x {
                        Num::F(x) if x.abs() < 1e6 => x.trunc() as i64,
                        Num::I(x) if x.unsigned_abs() < 1_000_000 => x,
                        _ => 7,
                    };
                    *x = if integral_world { Num::I(v) } else { Num::F(v as f64) };
                }
            }
        });
    }
    let base = encode(ver, fmt, c, &f);
    let calm = rng.chance(1, 6);
    let fates = (0..if calm { 0 } else { rng.below(40) })
        .map(|_| Fate { delay: if rng.chance(1, 6) { rng.below(400) } else { 1 + rng.below(20) }, copies: *rng.pick(&[0, 1, 1, 1, 1, 2, 3]) })
        .collect();
    let m = |rng: &mut Rng| if calm { 0 } else { rng.below(4) };
    let crashes = (0..m(rng)).map(|_| (rng.below(300), rng.usize(n), 1 + rng.below(100))).collect();
    let cuts = (0..m(rng)).map(|_| (rng.below(300), rng.usize(n), rng.usize(n), 1 + rng.below(200))).collect();
    let redo = (0..m(rng)).map(|_| (rng.below(400), rng.usize(n))).collect();
    Net { base, lua50: sets.lua50, lua51: sets.lua51, nodes, fates, crashes, cuts, redo }.json()
}

const ORIGIN: usize = usize::MAX;

fn settings_for(net: &Net, from: usize, to: usize) -> Sets {
    Sets {
        lua50: net.lua50.clone(),
        lua51: if from == ORIGIN { net.lua51.clone() } else { net.nodes[from].consts.clone() },
        output: net.nodes[to].consts.clone(),
    }
}

fn exact(k: &K, fmt: &Fmt) -> bool {
    let K::Num(n) = k else { return true };
    if model::fits_num(*n, fmt) != Some(true) {
        return false;
    }
    match *n {
        Num::F(x) => fmt.integral || fmt.num == 8 || (x as f32) as f64 == x,
        Num::I(_) => true,
    }
}

/// Same program: equal up to operands that no machine reads and size hints.
fn same_program(a: &Func, b: &Func, l: &Layout) -> Result<(), String> {
    if a.code.len() != b.code.len() {
        return Err(format!("{} instructions and {}", a.code.len(), b.code.len()));
    }
    let list = instructions(&a.code, Ver::L51, l);
    for (pc, (&x, &y)) in a.code.iter().zip(&b.code).enumerate() {
        let is_page_word = !list.iter().any(|i| i.0 == pc);
        if x != y && (is_page_word || !matches(y, l, &recode51(x, l, l).must)) {
            return Err(format!("instruction {pc}: {} and {}", show51(x, l), show51(y, l)));
        }
    }
    let strip = |f: &Func| {
        let mut f = f.clone();
        f.code.clear();
        f.protos.clear();
        // Bit patterns of NaNs may change when a number changes its width.
        for k in &mut f.consts {
            match k {
                K::Num(Num::F(x)) if x.is_nan() => *k = K::Str(b"NaN".to_vec()),
                K::Bool(b) => *k = K::Bool((*b != 0) as u8),
                _ => {}
            }
        }
        f
    };
    let (p, q) = (strip(a), strip(b));
    if p != q {
        return Err(format!("{p:?} and {q:?}"));
    }
    if a.protos.len() != b.protos.len() {
        return Err("different nested functions".into());
    }
    for (x, y) in a.protos.iter().zip(&b.protos) {
        same_program(x, y, l)?;
    }
    Ok(())
}

enum Ev {
    Deliver { from: usize, to: usize, bytes: Vec<u8> },
    Retry { node: usize },
    Down { node: usize, time: u64 },
    Up { node: usize },
    Redo { node: usize },
}

struct Sim<'a> {
    net: &'a Net,
    queue: BTreeMap<(u64, u64), Ev>,
    seq: u64,
    sends: u64,
    now: u64,
    up: Vec<bool>,
    /// Durable: the converted file.
    stored: Vec<Option<Vec<u8>>>,
    /// Volatile: neighbours known to have the file.
    told: Vec<Vec<bool>>,
    conversions: u64,
    routes: u64,
}

const RETRY: u64 = 50;
const FAULTS_END: u64 = 1000;
const LIMIT: u64 = 4000;

impl Sim<'_> {
    fn at(&mut self, t: u64, e: Ev) {
        self.seq += 1;
        self.queue.insert((t, self.seq), e);
    }
    fn send(&mut self, from: usize, to: usize, bytes: Vec<u8>, ctx: &mut Ctx) {
        let k = self.sends as usize;
        self.sends += 1;
        let mut fate = Fate { delay: 1, copies: 1 };
        if self.now < FAULTS_END {
            if let Some(f) = self.net.fates.get(k) {
                fate = f.clone();
            }
        }
        let cut = from != ORIGIN
            && self.net.cuts.iter().any(|c| self.now >= c.0 && self.now < c.0 + c.3 && ((c.1 == from && c.2 == to) || (c.1 == to && c.2 == from)));
        if cut {
            ctx.count("fault.link_cut", 1);
            return;
        }
        match fate.copies {
            0 => ctx.count("fault.message_loss", 1),
            1 => {}
            _ => ctx.count("fault.message_duplication", 1),
        }
        if fate.delay > 20 {
            ctx.count("fault.long_delay", 1);
        }
        for c in 0..fate.copies {
            self.at(self.now + fate.delay.max(1) + c * 7, Ev::Deliver { from, to, bytes: bytes.clone() });
        }
    }
}

fn run(j: &J, ctx: &mut Ctx) -> Verdict {
    let net = Net::parse(j);
    let n = net.nodes.len();
    // The reference: converting the original directly for each node.
    let mut golden = Vec::new();
    for k in 0..n {
        let sets = settings_for(&net, ORIGIN, k);
        let dec = decode(&net.base, &sets);
        let Some(root) = &dec.root else {
            ctx.count("outcome.skipped_unreadable", 1);
            return Ok(());
        };
        if dec.bad.is_some() {
            ctx.count("outcome.skipped_unreadable", 1);
            return Ok(());
        }
        let mut fits = true;
        root.walk(&mut |f| fits &= f.consts.iter().all(|c| exact(c, &net.nodes[k].fmt)));
        let c = call(&net.base, &net.nodes[k].fmt, &sets);
        ctx.sim_ns += c.steps;
        match c.ret {
            Ret::Ok(out) if fits => {
                c07::judge(&net.base, &net.nodes[k].fmt, &sets, &Ret::Ok(out.clone()), ctx)?;
                golden.push(out);
            }
            Ret::Panic(_) => {
                ctx.count("outcome.skipped_panic", 1);
                return Ok(());
            }
            // Some format on the routes cannot represent the program.
            _ => {
                ctx.count("outcome.skipped_unrepresentable", 1);
                return Ok(());
            }
        }
    }
    ctx.count("outcome.networks", 1);
    let mut s = Sim {
        net: &net,
        queue: BTreeMap::new(),
        seq: 0,
        sends: 0,
        now: 0,
        up: vec![true; n],
        stored: vec![None; n],
        told: vec![vec![false; n]; n],
        conversions: 0,
        routes: 0,
    };
    for &(t, node, down) in &net.crashes {
        if node < n {
            s.at(t, Ev::Down { node, time: down });
        }
    }
    for &(t, node) in &net.redo {
        if node < n {
            s.at(t, Ev::Redo { node });
        }
    }
    // The origin hands the file to node 0 until it has it.
    s.send(ORIGIN, 0, net.base.clone(), ctx);
    for t in (RETRY..FAULTS_END + 2 * RETRY).step_by(RETRY as usize) {
        s.at(t, Ev::Retry { node: ORIGIN });
    }
    let mut trace = 0u64;
    while let Some(((t, _), ev)) = s.queue.pop_first() {
        if t > LIMIT {
            break;
        }
        s.now = t;
        match ev {
            Ev::Retry { node } => {
                if node == ORIGIN {
                    if s.stored[0].is_none() {
                        s.send(ORIGIN, 0, net.base.clone(), ctx);
                    }
                } else if s.up[node] {
                    if let Some(file) = s.stored[node].clone() {
                        let mut again = false;
                        for &to in &net.nodes[node].links {
                            if !s.told[node][to] {
                                s.send(node, to, file.clone(), ctx);
                                again = true;
                            }
                        }
                        if again {
                            s.at(t + RETRY, Ev::Retry { node });
                        }
                    }
                }
            }
            Ev::Down { node, time } => {
                if s.up[node] {
                    s.up[node] = false;
                    s.told[node] = vec![false; n];
                    ctx.count("fault.crash", 1);
                    s.at(t + time, Ev::Up { node });
                }
            }
            Ev::Up { node } => {
                s.up[node] = true;
                ctx.count("fault.restart", 1);
                s.at(t, Ev::Redo { node });
                s.at(t, Ev::Retry { node });
            }
            Ev::Redo { node } => {
                if !s.up[node] {
                    continue;
                }
                if let Some(file) = s.stored[node].clone() {
                    ctx.count("probe.redone_conversions", 1);
                    let sets = Sets { lua50: net.lua50.clone(), lua51: net.nodes[node].consts.clone(), output: net.nodes[node].consts.clone() };
                    let c = call(&file, &net.nodes[node].fmt, &sets);
                    ctx.evaluations += 1;
                    ctx.sim_ns += c.steps;
                    if c.ret != Ret::Ok(file.clone()) {
                        return violation(
                            "identity",
                            format!("node {node} converted its own {} byte file again: {}", file.len(), c.ret.show()),
                        );
                    }
                }
            }
            Ev::Deliver { from, to, bytes } => {
                if !s.up[to] {
                    ctx.count("fault.delivery_to_crashed_node", 1);
                    continue;
                }
                let sets = settings_for(&net, from, to);
                let c = call(&bytes, &net.nodes[to].fmt, &sets);
                s.conversions += 1;
                ctx.evaluations += 1;
                ctx.sim_ns += c.steps;
                ctx.log(c.ret.hash() ^ c.path ^ t);
                trace = crate::rng::mix(trace ^ (from as u64) << 8 ^ to as u64 ^ t << 20);
                let out = match c.ret {
                    Ret::Ok(out) => out,
                    other => {
                        return violation("route-failed", format!("at {t}, message from {} to {to}: {}, but the direct conversion succeeds", name(from), other.show()))
                    }
                };
                if from != ORIGIN {
                    s.routes += 1;
                }
                let mut osets = sets.clone();
                osets.lua51 = sets.output.clone();
                let (a, b) = (decode(&golden[to], &osets), decode(&out, &osets));
                let (Some(fa), Some(fb)) = (&a.root, &b.root) else {
                    return violation("route-differs", format!("at {t}, message from {} to {to}: the output is unreadable", name(from)));
                };
                if b.bad.is_some() || a.ver != b.ver || a.fmt != b.fmt {
                    return violation("route-differs", format!("at {t}, message from {} to {to}: header {:?} {:?} instead of {:?} {:?}", name(from), b.ver, b.fmt, a.ver, a.fmt));
                }
                if let Err(what) = same_program(fa, fb, &net.nodes[to].consts.layout) {
                    return violation("route-differs", format!("at {t}, message from {} to {to}: directly and by this route: {what}", name(from)));
                }
                // The sender hears about it at once; losing that only causes retries.
                if from != ORIGIN {
                    s.told[from][to] = true;
                    s.told[to][from] = true;
                }
                if s.stored[to].is_none() {
                    s.stored[to] = Some(out);
                    s.at(t, Ev::Retry { node: to });
                }
            }
        }
    }
    ctx.sim_ns += s.now * 1_000_000;
    ctx.count("probe.conversions", s.conversions);
    ctx.count("probe.relayed_conversions", s.routes);
    ctx.case(crate::rng::mix(trace ^ crate::rng::hash_bytes(&net.base)));
    // Faults are over and every link works: everybody has the file.
    if let Some(k) = s.stored.iter().position(|x| x.is_none()) {
        return violation("no-progress", format!("node {k} has no file at {}", s.now));
    }
    Ok(())
}

fn name(k: usize) -> String {
    if k == ORIGIN {
        "the origin".into()
    } else {
        k.to_string()
    }
}

fn shrink(j: &J) -> Vec<J> {
    let mut out = Vec::new();
    let fresh = || Net::parse(j);
    let net = fresh();
    for key in 0..4 {
        let mut n = fresh();
        match key {
            0 => n.fates.clear(),
            1 => n.crashes.clear(),
            2 => n.cuts.clear(),
            _ => n.redo.clear(),
        }
        out.push(n.json());
    }
    // Drop the last node when only a leaf (indices stay valid).
    if net.nodes.len() > 1 {
        for gone in (1..net.nodes.len()).rev() {
            let mut n = fresh();
            let heirs: Vec<usize> = n.nodes[gone].links.clone();
            n.nodes.remove(gone);
            let re = |x: usize| if x > gone { x - 1 } else { x };
            for nd in &mut n.nodes {
                nd.links.retain(|x| *x != gone);
                for x in &mut nd.links {
                    *x = re(*x);
                }
            }
            // Keep the rest connected.
            for w in heirs.windows(2) {
                let (a, b) = (re(w[0]), re(w[1]));
                if a != b && !n.nodes[a].links.contains(&b) {
                    n.nodes[a].links.push(b);
                    n.nodes[b].links.push(a);
                }
            }
            n.crashes.retain(|c| c.1 != gone);
            n.crashes.iter_mut().for_each(|c| c.1 = re(c.1));
            n.cuts.retain(|c| c.1 != gone && c.2 != gone);
            n.cuts.iter_mut().for_each(|c| {
                c.1 = re(c.1);
                c.2 = re(c.2);
            });
            n.redo.retain(|c| c.1 != gone);
            n.redo.iter_mut().for_each(|c| c.1 = re(c.1));
            out.push(n.json());
        }
    }
    for k in 0..net.fates.len() {
        let mut n = fresh();
        n.fates[k] = Fate { delay: 1, copies: 1 };
        if net.fates[k].delay != 1 || net.fates[k].copies != 1 {
            out.push(n.json());
        }
    }
    macro_rules! drop_each {
        ($f:ident) => {
            for k in 0..net.$f.len() {
                let mut n = fresh();
                n.$f.remove(k);
                out.push(n.json());
            }
        };
    }
    drop_each!(crashes);
    drop_each!(cuts);
    drop_each!(redo);
    drop_each!(fates);
    for k in 0..net.nodes.len() {
        let mut n = fresh();
        n.nodes[k].fmt = Fmt::HOST;
        if net.nodes[k].fmt != Fmt::HOST && n.nodes[k].consts.layout.total() <= 32 {
            out.push(n.json());
        }
        let mut n = fresh();
        let fpf = n.nodes[k].consts.fpf;
        n.nodes[k].consts = Sets::default().output;
        n.nodes[k].consts.fpf = fpf;
        if n.nodes[k].consts != net.nodes[k].consts {
            out.push(n.json());
        }
    }
    let sets = Sets { lua50: net.lua50.clone(), lua51: net.lua51.clone(), output: net.nodes[0].consts.clone() };
    let dec = decode(&net.base, &sets);
    if let (Some(root), None, Some(ver)) = (&dec.root, &dec.bad, dec.ver) {
        let c = if ver == Ver::L50 { &sets.lua50 } else { &sets.lua51 };
        for f in delivery::shrink_func(root) {
            let mut n = fresh();
            n.base = encode(ver, dec.fmt, c, &f);
            out.push(n.json());
        }
    }
    out
}

pub const PROP: Prop = Prop {
    id: "C08",
    quick: 10_000,
    thorough: 1_000_000,
    generate,
    run,
    shrink,
    rule: "a case is one simulated network of 2-5 converters with its message fates, crashes, restarts, link cuts and redone conversions; non-trivial: the order of deliveries or the file differs from every other case's",
    measure: "distinct (delivery order and times, file) hashes of networks whose nodes can all represent the program",
    real: &["lunify::unify (instrumented build) at every node"],
    stub: &["network (discrete events)", "node processes and their durable store"],
    assumptions: &[
        "all nodes use one flush size",
        "the converter on a hop is told the settings the file was written with",
    ],
};
