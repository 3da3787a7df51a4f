//! C12: formats and settings survive serialization, storage and relay.
//! Only in the build with the `stored` feature.
//!
//! A cluster of converters that get their configuration (a format, settings, the
//! specification of a layout, the last error) from an operator, keep it on disk
//! across crashes, and pass it on. Every time the configuration moves, lunify's
//! serialization support writes it and reads it back.

use super::delivery;
use crate::call::{call, call_raw, last_panic, Ret};
use crate::chunk::*;
use crate::engine::{violation, Ctx, Prop, Verdict};
use crate::json::{self, J};
use crate::rng::{hash_bytes, mix, Rng};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// What is written and read.
type Stored<'a> = (lunify::Format, lunify::Settings<'a>, [lunify::OperandType; 4], Option<lunify::LunifyError>);

/// Binary, a JSON tree with sorted keys, JSON text, an indented JSON tree.
const BINARY: u64 = 0;
const SORTED: u64 = 1;
const TEXT: u64 = 2;
const CODECS: u64 = 4;

fn write(codec: u64, value: &Stored) -> Result<Vec<u8>, String> {
    match codec {
        BINARY => bincode::serialize(value).map_err(|e| e.to_string()),
        SORTED => serde_json::to_value(value).map(|v| v.to_string().into_bytes()).map_err(|e| e.to_string()),
        TEXT => serde_json::to_vec(value).map_err(|e| e.to_string()),
        _ => serde_json::to_vec_pretty(value).map_err(|e| e.to_string()),
    }
}

/// Err(true): reading panicked.
fn read<T>(codec: u64, bytes: &[u8], f: impl FnOnce(&Stored) -> T) -> Result<T, (bool, String)> {
    use serde::Deserialize;
    let tree: serde_json::Value;
    let value = match catch_unwind(AssertUnwindSafe(|| -> Result<_, String> {
        Ok(match codec {
            BINARY | TEXT => None,
            _ => Some(serde_json::from_slice(bytes).map_err(|e| e.to_string())?),
        })
    })) {
        Err(_) => return Err((true, last_panic())),
        Ok(Err(e)) => return Err((false, e)),
        Ok(Ok(t)) => {
            tree = t.unwrap_or_default();
            catch_unwind(AssertUnwindSafe(|| -> Result<Stored, String> {
                match codec {
                    BINARY => bincode::deserialize(bytes).map_err(|e| e.to_string()),
                    TEXT => serde_json::from_slice(bytes).map_err(|e| e.to_string()),
                    _ => Stored::deserialize(&tree).map_err(|e| e.to_string()),
                }
            }))
        }
    };
    match value {
        Err(_) => Err((true, last_panic())),
        Ok(Err(e)) => Err((false, e)),
        Ok(Ok(v)) => Ok(f(&v)),
    }
}

#[derive(Clone)]
struct Config {
    fmt: Fmt,
    sets: Sets,
}

#[derive(Clone)]
struct Node {
    disk: u64,
    wire: u64,
    links: Vec<usize>,
}

#[derive(Clone)]
struct Cluster {
    files: Vec<Vec<u8>>,
    configs: Vec<Config>,
    nodes: Vec<Node>,
    /// For each configuration: when, and to which node.
    published: Vec<(u64, usize)>,
    /// (delay, copies) of the k-th message.
    fates: Vec<(u64, u64)>,
    /// (storage operation, how much of an unfinished write survives)
    crashes: Vec<(u64, u64)>,
    /// (k-th read after a restart, 0 cut or 1 flipped bit, where)
    media: Vec<(u64, u64, u64)>,
}

impl Cluster {
    fn json(&self) -> J {
        let nums = |v: &[u64]| J::Arr(v.iter().map(|&x| json::i(x)).collect());
        json::obj(vec![
            ("files", J::Arr(self.files.iter().map(|f| json::hex(f)).collect())),
            (
                "configs",
                J::Arr(self.configs.iter().map(|c| json::obj(vec![("format", c.fmt.json()), ("settings", c.sets.json())])).collect()),
            ),
            (
                "nodes",
                J::Arr(
                    self.nodes
                        .iter()
                        .map(|n| {
                            json::obj(vec![
                                ("disk", json::i(n.disk)),
                                ("wire", json::i(n.wire)),
                                ("links", J::Arr(n.links.iter().map(|&x| json::us(x)).collect())),
                            ])
                        })
                        .collect(),
                ),
            ),
            ("published", J::Arr(self.published.iter().map(|c| nums(&[c.0, c.1 as u64])).collect())),
            ("fates", J::Arr(self.fates.iter().map(|c| nums(&[c.0, c.1])).collect())),
            ("crashes", J::Arr(self.crashes.iter().map(|c| nums(&[c.0, c.1])).collect())),
            ("media", J::Arr(self.media.iter().map(|c| nums(&[c.0, c.1, c.2])).collect())),
        ])
    }
    fn parse(j: &J) -> Cluster {
        let n = |x: &J, k: usize| x.arr()[k].u64();
        Cluster {
            files: j.get("files").arr().iter().map(|f| f.bytes()).collect(),
            configs: j
                .get("configs")
                .arr()
                .iter()
                .map(|c| Config { fmt: Fmt::parse(c.get("format")), sets: Sets::parse(c.get("settings")) })
                .collect(),
            nodes: j
                .get("nodes")
                .arr()
                .iter()
                .map(|x| Node {
                    disk: x.get("disk").u64(),
                    wire: x.get("wire").u64(),
                    links: x.get("links").arr().iter().map(|x| x.usize()).collect(),
                })
                .collect(),
            published: j.get("published").arr().iter().map(|x| (n(x, 0), n(x, 1) as usize)).collect(),
            fates: j.get("fates").arr().iter().map(|x| (n(x, 0), n(x, 1))).collect(),
            crashes: j.get("crashes").arr().iter().map(|x| (n(x, 0), n(x, 1))).collect(),
            media: j.get("media").arr().iter().map(|x| (n(x, 0), n(x, 1), n(x, 2))).collect(),
        }
    }
}

fn plain_text(s: &str) -> bool {
    s.chars().all(|c| c >= ' ' && c != '"' && c != '\\')
}

fn generate(rng: &mut Rng, _index: u64) -> J {
    let mut d = delivery::generate(rng, 3);
    for _ in 0..4 {
        if d.base.len() > 3000 {
            d = delivery::generate(rng, 3);
        }
    }
    let mut files = vec![d.base.clone()];
    files.extend((0..d.deliveries.len()).map(|k| d.damaged(k, &mut Ctx::default())).filter(|f| f.len() < 8000));
    let mut configs = vec![Config { fmt: d.out, sets: d.sets.clone() }];
    for _ in 0..rng.below(4) {
        let fmt = Fmt::random(rng);
        let width = if rng.chance(1, 2) { 8 } else { fmt.ins };
        let mut sets = Sets::random(rng, 8, width);
        if rng.chance(2, 3) {
            sets.lua50 = d.sets.lua50.clone();
            sets.lua51 = d.sets.lua51.clone();
        }
        configs.push(Config { fmt, sets });
    }
    for c in &mut configs {
        if rng.chance(1, 3) {
            // Any value may be stored, sensible or not.
            let edge = |rng: &mut Rng| match rng.below(6) {
                0 => rng.below(3),
                1 => u64::MAX - rng.below(2),
                2 => i64::MAX as u64 + rng.below(2),
                3 => u32::MAX as u64 + rng.below(2),
                4 => 255 + rng.below(3),
                _ => rng.u64() >> rng.below(64),
            };
            for part in [&mut c.sets.lua50, &mut c.sets.lua51, &mut c.sets.output] {
                if rng.chance(1, 2) {
                    part.stack_limit = edge(rng);
                }
                if rng.chance(1, 2) {
                    part.fpf = edge(rng);
                }
                if rng.chance(1, 3) {
                    part.layout = Layout::random(rng, 64, true);
                }
            }
        }
        if rng.chance(1, 8) {
            let any = ["", "Lua", "\u{7f}\u{0}", "\u{10ffff}\u{80}", "a\"b\\c\n", "\u{feff}\u{2028}", "long signature: 0123456789 0123456789 0123456789 0123456789"];
            c.sets.output.sig = rng.pick(&any).to_string();
        }
    }
    // Text is read by borrowing from it, which escapes prevent.
    let text = configs.iter().all(|c| plain_text(&c.sets.lua50.sig) && plain_text(&c.sets.lua51.sig) && plain_text(&c.sets.output.sig));
    let codec = |rng: &mut Rng| match rng.below(CODECS) {
        TEXT if !text => SORTED,
        c => c,
    };
    let n = 1 + rng.usize(4);
    let mut nodes: Vec<Node> = (0..n).map(|_| Node { disk: codec(rng), wire: codec(rng), links: vec![] }).collect();
    for k in 1..n {
        let p = rng.usize(k);
        nodes[k].links.push(p);
        nodes[p].links.push(k);
    }
    let calm = rng.chance(1, 8);
    let published = configs.iter().map(|_| (rng.below(500), rng.usize(n))).collect();
    let fates = (0..if calm { 0 } else { rng.below(40) })
        .map(|_| (if rng.chance(1, 6) { rng.below(400) } else { 1 + rng.below(20) }, *rng.pick(&[0, 1, 1, 1, 1, 2, 3])))
        .collect();
    let crashes = (0..if calm { 0 } else { rng.below(8) }).map(|_| (rng.below(40), rng.u64() >> 1)).collect();
    let media = (0..if calm { 0 } else { rng.below(4) }).map(|_| (rng.below(3), rng.below(2), rng.u64() >> 1)).collect();
    Cluster { files, configs, nodes, published, fates, crashes, media }.json()
}

const OPERATOR: usize = usize::MAX;
const RETRY: u64 = 50;
const FAULTS_END: u64 = 1000;
const LIMIT: u64 = 4000;

enum Ev {
    Deliver { from: usize, to: usize, version: usize, codec: u64, bytes: Vec<u8> },
    Retry { node: usize },
    Up { node: usize },
}

struct Disk {
    /// The version in force and its bytes.
    current: Option<(usize, Vec<u8>)>,
    /// What is left of a file being written, and the length it should get.
    temp: Option<(usize, Vec<u8>, usize)>,
}

struct Sim<'a> {
    c: &'a Cluster,
    specs: Vec<[lunify::OperandType; 4]>,
    golden: Vec<Vec<String>>,
    reports: Vec<Option<lunify::LunifyError>>,
    queue: BTreeMap<(u64, u64), Ev>,
    seq: u64,
    now: u64,
    sends: u64,
    ops: u64,
    reads: u64,
    up: Vec<bool>,
    disks: Vec<Disk>,
    told: Vec<Vec<usize>>,
    trace: u64,
}

fn specification(l: &Layout) -> [lunify::OperandType; 4] {
    use lunify::OperandType as T;
    l.order.map(|(c, n)| match c {
        'O' => T::Opcode(n as u64),
        'A' => T::A(n as u64),
        'B' => T::B(n as u64),
        _ => T::C(n as u64),
    })
}

impl Sim<'_> {
    fn at(&mut self, t: u64, e: Ev) {
        self.seq += 1;
        self.queue.insert((t, self.seq), e);
    }

    fn send(&mut self, from: usize, to: usize, version: usize, codec: u64, bytes: Vec<u8>, ctx: &mut Ctx) {
        let k = self.sends as usize;
        self.sends += 1;
        let (mut delay, mut copies) = (1, 1);
        if self.now < FAULTS_END {
            if let Some(f) = self.c.fates.get(k) {
                (delay, copies) = *f;
            }
        }
        match copies {
            0 => ctx.count("fault.message_loss", 1),
            1 => {}
            _ => ctx.count("fault.message_duplication", 1),
        }
        if delay > 20 {
            ctx.count("fault.long_delay", 1);
        }
        for c in 0..copies {
            self.at(self.now + delay.max(1) + c * 7, Ev::Deliver { from, to, version, codec, bytes: bytes.clone() });
        }
    }

    /// The original of a version.
    fn original(&self, version: usize) -> Stored<'_> {
        let c = &self.c.configs[version];
        (c.fmt.lunify(), c.sets.lunify(), self.specs[version], self.reports[version])
    }

    fn writes(&self, codec: u64, value: &Stored) -> Result<Vec<u8>, (&'static str, String)> {
        match catch_unwind(AssertUnwindSafe(|| write(codec, value))) {
            Ok(Ok(b)) => Ok(b),
            Ok(Err(e)) => Err(("unwritable", e)),
            Err(_) => Err(("panic", format!("writing: {}", last_panic()))),
        }
    }

    /// What was read must be the original and convert like it.
    fn same(&self, version: usize, v: &Stored, k: usize, ctx: &mut Ctx) -> Verdict {
        let o = self.original(version);
        if *v != o {
            return violation("not-equal", format!("configuration {version} was {o:?} and is {v:?}"));
        }
        match (lunify::InstructionLayout::from_specification(v.2), lunify::InstructionLayout::from_specification(o.2)) {
            (Ok(a), Ok(b)) if a == b => {}
            (a, b) => return violation("not-equal", format!("the specification {:?} gives {a:?} and {b:?}", o.2)),
        }
        let k = k % self.c.files.len();
        let c = call_raw(&self.c.files[k], &v.0, &v.1);
        ctx.evaluations += 1;
        ctx.sim_ns += c.steps;
        ctx.log(c.ret.hash() ^ c.path);
        delivery::count_outcome(ctx, &c.ret);
        if c.ret.show() != self.golden[version][k] {
            return violation(
                "converts-differently",
                format!("file {k} with configuration {version}: {} with what was read, {} with the original", c.ret.show(), self.golden[version][k]),
            );
        }
        if let Ret::Err(e) = c.ret {
            // The failure is reported to the operator.
            for codec in [BINARY, SORTED] {
                let same = match codec {
                    BINARY => bincode::serialize(&e).ok().and_then(|b| bincode::deserialize::<lunify::LunifyError>(&b).ok()),
                    _ => serde_json::to_string(&e).ok().and_then(|b| serde_json::from_str::<lunify::LunifyError>(&b).ok()),
                };
                if same != Some(e) {
                    return violation("not-equal", format!("the reported error was {e:?} and is {same:?}"));
                }
            }
            ctx.count("probe.reported_errors", 1);
        }
        Ok(())
    }

    /// One operation of the disk; Some: the node dies, keeping that much.
    fn dies(&mut self, ctx: &mut Ctx, what: &str) -> Option<u64> {
        let op = self.ops;
        self.ops += 1;
        let hit = self.c.crashes.iter().find(|x| x.0 == op && self.now < FAULTS_END).map(|x| x.1);
        if hit.is_some() {
            ctx.count(&format!("fault.crash_{what}"), 1);
        }
        hit
    }

    fn store(&mut self, node: usize, version: usize, bytes: Vec<u8>, ctx: &mut Ctx) {
        let part = |keep: u64, n: usize| (keep % (n as u64 + 1)) as usize;
        let n = bytes.len();
        let half = n / 2;
        let mut left = None;
        let mut renamed = false;
        let mut dead = None;
        for (op, end) in [("writing", half), ("writing", n), ("syncing", n)] {
            if let Some(keep) = self.dies(ctx, op) {
                left = Some((version, bytes[..part(keep, end)].to_vec(), n));
                dead = Some(keep);
                break;
            }
        }
        if dead.is_none() {
            match self.dies(ctx, "renaming") {
                Some(keep) => {
                    dead = Some(keep);
                    renamed = keep & 1 != 0;
                    if !renamed {
                        left = Some((version, bytes.clone(), n));
                    }
                }
                None => renamed = true,
            }
        }
        if renamed {
            self.disks[node].current = Some((version, bytes));
        }
        self.disks[node].temp = left;
        if let Some(keep) = dead {
            self.up[node] = false;
            self.told[node].fill(0);
            self.at(self.now + 1 + keep % 120, Ev::Up { node });
        }
    }

    fn restart(&mut self, node: usize, ctx: &mut Ctx) -> Verdict {
        self.up[node] = true;
        ctx.count("fault.restart", 1);
        let disk = self.c.nodes[node].disk;
        if let Some((version, bytes, n)) = self.disks[node].temp.take() {
            let r = read(disk, &bytes, |v| self.same(version, v, node, ctx));
            match r {
                Err((true, e)) => return violation("panic", format!("reading {} of {n} bytes: {e}", bytes.len())),
                Err(_) if bytes.len() < n => ctx.count("outcome.torn_refused", 1),
                Ok(_) if bytes.len() < n => return violation("accepted-torn", format!("{} of the {n} bytes of configuration {version} were accepted by {}", bytes.len(), name(disk))),
                Err((_, e)) => return violation("unreadable", format!("configuration {version} with {}: {e}", name(disk))),
                Ok(r) => r?,
            }
        }
        let Some((version, bytes)) = self.disks[node].current.clone() else { return Ok(()) };
        let k = self.reads;
        self.reads += 1;
        let damage = self.c.media.iter().find(|m| m.0 == k && self.now < FAULTS_END);
        let Some(&(_, kind, place)) = damage else {
            return match read(disk, &bytes, |v| self.same(version, v, node, ctx)) {
                Err((panic, e)) => violation(if panic { "panic" } else { "unreadable" }, format!("configuration {version} with {}: {e}", name(disk))),
                Ok(r) => r,
            };
        };
        let mut bad = bytes.clone();
        if kind == 0 {
            bad.truncate((place % bytes.len() as u64) as usize);
            ctx.count("fault.media_cut", 1);
        } else {
            let p = (place >> 3) as usize % bytes.len();
            bad[p] ^= 1 << (place & 7);
            ctx.count("fault.media_flip", 1);
        }
        let r = read(disk, &bad, |v| {
            if *v == self.original(version) {
                return Ok(());
            }
            ctx.count("outcome.damaged_accepted", 1);
            for (k, f) in self.c.files.iter().enumerate() {
                let c = call_raw(f, &v.0, &v.1);
                ctx.evaluations += 1;
                ctx.sim_ns += c.steps;
                if let Ret::Panic(e) = c.ret {
                    return violation("damaged-panic", format!("file {k} with the damaged configuration {v:?}: {e}"));
                }
            }
            Ok(())
        });
        match r {
            Err((true, e)) => return violation("panic", format!("reading a damaged configuration: {e}")),
            Err(_) => ctx.count("outcome.damaged_refused", 1),
            Ok(_) if kind == 0 => {
                return violation("accepted-torn", format!("{} of the {} bytes of configuration {version} were accepted by {}", bad.len(), bytes.len(), name(disk)))
            }
            Ok(r) => r?,
        }
        // The checksum next to it is wrong: the neighbours have to help.
        self.disks[node].current = None;
        for k in 0..self.told.len() {
            self.told[k][node] = 0;
        }
        Ok(())
    }

    fn tell(&mut self, node: usize, ctx: &mut Ctx) -> Verdict {
        let Some((version, bytes)) = self.disks[node].current.clone() else { return Ok(()) };
        let disk = self.c.nodes[node].disk;
        for to in self.c.nodes[node].links.clone() {
            if self.told[node][to] > version {
                continue;
            }
            let wire = self.c.nodes[node].wire;
            let message = match read(disk, &bytes, |v| self.writes(wire, v)) {
                Ok(Ok(m)) => m,
                Ok(Err((class, e))) => return violation(class, format!("configuration {version} with {}: {e}", name(wire))),
                Err((panic, e)) => return violation(if panic { "panic" } else { "unreadable" }, format!("configuration {version} with {}: {e}", name(disk))),
            };
            self.send(node, to, version, wire, message, ctx);
        }
        Ok(())
    }

    fn deliver(&mut self, from: usize, to: usize, version: usize, codec: u64, bytes: Vec<u8>, ctx: &mut Ctx) -> Verdict {
        if !self.up[to] {
            ctx.count("fault.delivery_to_crashed_node", 1);
            return Ok(());
        }
        self.trace = mix(self.trace ^ (from as u64) << 8 ^ to as u64 ^ (version as u64) << 32 ^ self.now << 40);
        ctx.log(hash_bytes(&bytes) ^ self.now);
        let disk = self.c.nodes[to].disk;
        let r = read(codec, &bytes, |v| {
            self.same(version, v, to + self.now as usize, ctx)?;
            Ok(self.writes(disk, v))
        });
        let file = match r {
            Err((panic, e)) => {
                return violation(if panic { "panic" } else { "unreadable" }, format!("configuration {version} with {}: {e}", name(codec)))
            }
            Ok(Err(v)) => return Err(v),
            Ok(Ok(Err((class, e)))) => return violation(class, format!("configuration {version} with {}: {e}", name(disk))),
            Ok(Ok(Ok(f))) => f,
        };
        if from != OPERATOR {
            ctx.count("probe.relayed", 1);
            self.told[to][from] = self.told[to][from].max(version + 1);
        }
        let have = self.disks[to].current.as_ref().map(|x| x.0);
        if have.is_none() || have < Some(version) {
            self.store(to, version, file, ctx);
        }
        // The sender hears about it at once; losing that only causes retries.
        if from != OPERATOR && self.up[to] {
            self.told[from][to] = self.told[from][to].max(version + 1);
        }
        Ok(())
    }
}

fn name(codec: u64) -> &'static str {
    ["bincode", "a sorted JSON tree", "JSON text", "an indented JSON tree"][codec as usize]
}

fn run(j: &J, ctx: &mut Ctx) -> Verdict {
    let c = Cluster::parse(j);
    let n = c.nodes.len();
    let mut golden = Vec::new();
    let mut reports = Vec::new();
    for config in &c.configs {
        let results: Vec<Ret> = c.files.iter().map(|f| call(f, &config.fmt, &config.sets).ret).collect();
        reports.push(results.iter().find_map(|r| match r {
            Ret::Err(e) => Some(*e),
            _ => None,
        }));
        golden.push(results.iter().map(|r| r.show()).collect());
    }
    let specs = c.configs.iter().map(|x| specification(&x.sets.output.layout)).collect();
    let mut s = Sim {
        c: &c,
        specs,
        golden,
        reports,
        queue: BTreeMap::new(),
        seq: 0,
        now: 0,
        sends: 0,
        ops: 0,
        reads: 0,
        up: vec![true; n],
        disks: (0..n).map(|_| Disk { current: None, temp: None }).collect(),
        told: vec![vec![0; n]; n],
        trace: 0,
    };
    for t in (0..LIMIT).step_by(RETRY as usize) {
        for node in 0..n {
            s.at(t + node as u64, Ev::Retry { node });
        }
        s.at(t, Ev::Retry { node: OPERATOR });
    }
    while let Some(((t, _), ev)) = s.queue.pop_first() {
        if t > LIMIT {
            break;
        }
        s.now = t;
        match ev {
            Ev::Retry { node: OPERATOR } => {
                for (version, &(when, to)) in c.published.iter().enumerate() {
                    let to = to % n;
                    let have = s.disks[to].current.as_ref().map(|x| x.0);
                    if t < when || have >= Some(version) {
                        continue;
                    }
                    let wire = c.nodes[to].wire;
                    match s.writes(wire, &s.original(version)) {
                        Ok(m) => s.send(OPERATOR, to, version, wire, m, ctx),
                        Err((class, e)) => return violation(class, format!("configuration {version} with {}: {e}", name(wire))),
                    }
                }
            }
            Ev::Retry { node } => {
                if s.up[node] {
                    s.tell(node, ctx)?;
                }
            }
            Ev::Up { node } => s.restart(node, ctx)?,
            Ev::Deliver { from, to, version, codec, bytes } => s.deliver(from, to, version, codec, bytes, ctx)?,
        }
    }
    ctx.sim_ns += s.now * 1_000_000;
    ctx.count("probe.messages", s.sends);
    ctx.count("probe.storage_operations", s.ops);
    ctx.case(mix(s.trace ^ hash_bytes(j.get("configs").dump().as_bytes())));
    let last = c.configs.len() - 1;
    for node in 0..n {
        let have = s.disks[node].current.as_ref().map(|x| x.0);
        if have != Some(last) {
            return violation("no-progress", format!("node {node} has configuration {have:?} at {}", s.now));
        }
    }
    Ok(())
}

fn shrink(j: &J) -> Vec<J> {
    let c = Cluster::parse(j);
    let mut out = Vec::new();
    let mut put = |f: &dyn Fn(&mut Cluster)| {
        let mut x = c.clone();
        f(&mut x);
        let x = x.json();
        if x != *j {
            out.push(x);
        }
    };
    put(&|x| x.fates.clear());
    put(&|x| x.crashes.clear());
    put(&|x| x.media.clear());
    for k in (1..c.nodes.len()).rev() {
        // Only leaves, so that the rest stays connected.
        if c.nodes.iter().skip(k + 1).all(|n| !n.links.contains(&k)) && k == c.nodes.len() - 1 {
            put(&|x| {
                x.nodes.remove(k);
                x.nodes.iter_mut().for_each(|n| n.links.retain(|&l| l != k));
            });
        }
    }
    if c.configs.len() > 1 {
        for k in 0..c.configs.len() {
            put(&|x| {
                x.configs.remove(k);
                x.published.remove(k);
            });
        }
    }
    if c.files.len() > 1 {
        for k in 0..c.files.len() {
            put(&|x| drop(x.files.remove(k)));
        }
    }
    for k in 0..c.files.len() {
        put(&|x| x.files[k].truncate(0));
        put(&|x| {
            let n = x.files[k].len() / 2;
            x.files[k].truncate(n)
        });
    }
    for k in 0..c.crashes.len() {
        put(&|x| drop(x.crashes.remove(k)));
    }
    for k in 0..c.media.len() {
        put(&|x| drop(x.media.remove(k)));
    }
    for k in 0..c.fates.len() {
        put(&|x| x.fates[k] = (1, 1));
    }
    for k in 0..c.nodes.len() {
        put(&|x| x.nodes[k].disk = BINARY);
        put(&|x| x.nodes[k].wire = BINARY);
    }
    for k in 0..c.configs.len() {
        put(&|x| x.published[k] = (0, 0));
        put(&|x| x.configs[k].fmt = Fmt::HOST);
        put(&|x| x.configs[k].sets.lua50 = Sets::default().lua50);
        put(&|x| x.configs[k].sets.lua51 = Sets::default().lua51);
        put(&|x| x.configs[k].sets.output = Sets::default().output);
        put(&|x| x.configs[k].sets.output.layout = LAYOUT51);
        put(&|x| x.configs[k].sets.lua51.layout = LAYOUT51);
        put(&|x| x.configs[k].sets.lua50.layout = LAYOUT50);
    }
    out
}

pub const PROP: Prop = Prop {
    id: "C12",
    quick: 12_000,
    thorough: 600_000,
    generate,
    run,
    shrink,
    rule: "a case is one simulated cluster of 1-4 converters that receive, store and pass on 1-4 configurations while messages are lost, repeated and delayed, nodes crash at storage operations and media are damaged; non-trivial: the order of deliveries or the configurations differ from every other case's",
    measure: "distinct (delivery order and times, configurations) hashes",
    real: &[
        "lunify's serialization support (feature `serde`) with serde, bincode and serde_json",
        "lunify::unify with what was read (instrumented build)",
    ],
    stub: &["network (discrete events)", "node processes and their disks (write, sync and rename with torn writes)"],
    assumptions: &["JSON text is read directly only if no signature needs an escape (see the known finding)"],
};
