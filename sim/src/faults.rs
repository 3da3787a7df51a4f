//! The lossy storage / transport between the writer of a byte code file and
//! the converter. A fault list is explicit so that it can be replayed and shrunk.

use crate::chunk::Span;
use crate::json::{self, J};
use crate::rng::Rng;

pub const SECTORS: [usize; 5] = [1, 4, 16, 64, 512];

#[derive(Clone, Debug, PartialEq)]
pub enum Fault {
    /// Everything from this offset on was never written.
    Cut(usize),
    /// Bit rot.
    Flip(usize, u8),
    /// Overwritten bytes (misdirected write, aimed damage).
    Set(usize, Vec<u8>),
    /// Lost write: zeros where data should be.
    Zero(usize, usize),
    /// Lost block: following data moves down.
    Del(usize, usize),
    /// Block written twice: following data moves up.
    Dup(usize, usize),
    /// A stuck writer: the block follows itself that many times.
    Repeat(usize, usize, usize),
    /// Two blocks exchanged (reordered writes).
    Swap(usize, usize, usize),
    /// Foreign block inserted.
    Insert(usize, Vec<u8>),
    /// Surplus after the end.
    Append(Vec<u8>),
}

impl Fault {
    pub fn kind(&self) -> &'static str {
        match self {
            Fault::Cut(..) => "cut",
            Fault::Flip(..) => "bit_flip",
            Fault::Set(..) => "overwrite",
            Fault::Zero(..) => "lost_write_zeros",
            Fault::Del(..) => "lost_block",
            Fault::Dup(..) => "repeated_block",
            Fault::Repeat(..) => "stuck_writer",
            Fault::Swap(..) => "reordered_blocks",
            Fault::Insert(..) => "foreign_block",
            Fault::Append(..) => "surplus",
        }
    }

    /// Applies the fault; false if it changed nothing.
    pub fn apply(&self, d: &mut Vec<u8>) -> bool {
        let before = d.clone();
        let n = d.len();
        match self {
            Fault::Cut(at) => d.truncate(*at),
            Fault::Flip(at, bit) => {
                if *at < n {
                    d[*at] ^= 1 << (bit & 7);
                }
            }
            Fault::Set(at, bytes) => {
                for (k, b) in bytes.iter().enumerate() {
                    if at + k < n {
                        d[at + k] = *b;
                    }
                }
            }
            Fault::Zero(at, len) => {
                for k in *at..(*at + *len).min(n) {
                    d[k] = 0;
                }
            }
            Fault::Del(at, len) => {
                let (a, b) = ((*at).min(n), (*at + *len).min(n));
                d.drain(a..b);
            }
            Fault::Dup(at, len) => {
                let (a, b) = ((*at).min(n), (*at + *len).min(n));
                let block = d[a..b].to_vec();
                d.splice(b..b, block);
            }
            Fault::Repeat(at, len, times) => {
                let (a, b) = ((*at).min(n), (*at + *len).min(n));
                let block = d[a..b].repeat((*times).min((1 << 20) / (b - a).max(1)));
                d.splice(b..b, block);
            }
            Fault::Swap(x, y, len) => {
                let (x, y) = (*x.min(y), *x.max(y));
                if y + len <= n && x + len <= y {
                    for k in 0..*len {
                        d.swap(x + k, y + k);
                    }
                }
            }
            Fault::Insert(at, bytes) => {
                let a = (*at).min(n);
                d.splice(a..a, bytes.iter().cloned());
            }
            Fault::Append(bytes) => d.extend_from_slice(bytes),
        }
        *d != before
    }

    pub fn json(&self) -> J {
        let a = |v: Vec<J>| J::Arr(std::iter::once(json::s(self.kind())).chain(v).collect());
        match self {
            Fault::Cut(x) => a(vec![json::us(*x)]),
            Fault::Flip(x, b) => a(vec![json::us(*x), json::i(*b)]),
            Fault::Set(x, b) => a(vec![json::us(*x), json::hex(b)]),
            Fault::Zero(x, n) | Fault::Del(x, n) | Fault::Dup(x, n) => a(vec![json::us(*x), json::us(*n)]),
            Fault::Swap(x, y, n) | Fault::Repeat(x, y, n) => a(vec![json::us(*x), json::us(*y), json::us(*n)]),
            Fault::Insert(x, b) => a(vec![json::us(*x), json::hex(b)]),
            Fault::Append(b) => a(vec![json::hex(b)]),
        }
    }

    pub fn parse(j: &J) -> Fault {
        let v = j.arr();
        let u = |k: usize| v[k].usize();
        match v[0].str() {
            "cut" => Fault::Cut(u(1)),
            "bit_flip" => Fault::Flip(u(1), u(2) as u8),
            "overwrite" => Fault::Set(u(1), v[2].bytes()),
            "lost_write_zeros" => Fault::Zero(u(1), u(2)),
            "lost_block" => Fault::Del(u(1), u(2)),
            "repeated_block" => Fault::Dup(u(1), u(2)),
            "stuck_writer" => Fault::Repeat(u(1), u(2), u(3)),
            "reordered_blocks" => Fault::Swap(u(1), u(2), u(3)),
            "foreign_block" => Fault::Insert(u(1), v[2].bytes()),
            "surplus" => Fault::Append(v[1].bytes()),
            x => panic!("harness: fault {x}"),
        }
    }
}

type Spans = [(usize, usize, Span)];

/// Which fields the aimed faults prefer in this run (swarm style).
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Aim {
    Any,
    Header,
    Counts,
    Code,
    Tags,
    Strings,
}

fn aimed(rng: &mut Rng, spans: &Spans, len: usize, big: bool, aim: Aim) -> Fault {
    let wanted: Vec<&(usize, usize, Span)> = spans
        .iter()
        .filter(|(_, n, k)| {
            *n > 0
                && match aim {
                    Aim::Any => true,
                    Aim::Header => matches!(
                        k,
                        Span::Signature
                            | Span::Version
                            | Span::FormatByte
                            | Span::Endian
                            | Span::WidthInt
                            | Span::WidthSize
                            | Span::WidthIns
                            | Span::InsFormat
                            | Span::WidthNum
                            | Span::Integral
                            | Span::TestNumber
                    ),
                    Aim::Counts => matches!(k, Span::Count | Span::StrLen),
                    Aim::Code => matches!(k, Span::Word | Span::MaxStack | Span::Params | Span::Vararg | Span::Nups),
                    Aim::Tags => matches!(k, Span::KTag | Span::KBool | Span::KNum),
                    Aim::Strings => matches!(k, Span::StrBody | Span::StrLen),
                }
        })
        .collect();
    if wanted.is_empty() {
        return Fault::Flip(rng.usize(len.max(1)), rng.below(8) as u8);
    }
    let &&(at, n, kind) = rng.pick(&wanted);
    let value: u64 = match kind {
        Span::Count | Span::StrLen => match rng.below(10) {
            0 => 0,
            1 => 1,
            2 => u64::MAX,
            3 => 1 << 31,
            4 => (1 << 31) - 1,
            5 => 1 << 63,
            6 => i64::MAX as u64,
            7 => rng.below(300),
            8 => u64::MAX - rng.below(40),
            _ => (len as u64).wrapping_sub(rng.below(40)),
        },
        Span::Word => {
            // Keep most of the word, damage one operand or the opcode.
            let bit = rng.below(n as u64 * 8);
            if rng.chance(1, 2) {
                return Fault::Flip(at + bit as usize / 8, (bit % 8) as u8);
            }
            match rng.below(6) {
                0 => 0,
                1 => u64::MAX,
                2 => rng.u64() & 0x3f,
                3 => rng.u64() | 0xffff_c000,
                _ => rng.u64(),
            }
        }
        _ => match rng.below(4) {
            0 => 0,
            1 => u64::MAX,
            2 => rng.below(16),
            _ => rng.u64(),
        },
    };
    let mut bytes = value.to_le_bytes().to_vec();
    bytes.resize(n.min(8), 0);
    if big {
        bytes.reverse();
    }
    Fault::Set(at, bytes)
}

/// The writer is stuck between the start of a function and that of the one
/// inside it, so that every copy nests one level deeper.
pub fn stuck(rng: &mut Rng, spans: &Spans) -> Option<Fault> {
    let mut starts = Vec::new();
    let mut last = 0;
    for &(at, _, kind) in spans {
        match kind {
            Span::StrLen => last = at,
            Span::Nups => starts.push(last),
            _ => {}
        }
    }
    let k = rng.usize(starts.len().checked_sub(1).filter(|n| *n > 0)?);
    let most = [3, 150, 198, 200, 1000, 10_000, 10_000];
    let most = *rng.pick(&most);
    Some(Fault::Repeat(starts[k], starts[k + 1] - starts[k], 1 + rng.usize(most)))
}

/// A fault sequence for one delivery. `stale`: older content of the medium.
pub fn sequence(rng: &mut Rng, spans: &Spans, base: &[u8], stale: &[u8], big: bool) -> Vec<Fault> {
    let count = *rng.pick(&[1usize, 1, 1, 2, 2, 3, 4, 8]);
    let aim = *rng.pick(&[Aim::Any, Aim::Header, Aim::Counts, Aim::Counts, Aim::Code, Aim::Code, Aim::Tags, Aim::Strings]);
    // Each run enables a random subset of the fault kinds.
    let enabled: Vec<u64> = (0..9).filter(|_| rng.chance(1, 2)).collect();
    let mut out = Vec::new();
    for _ in 0..count {
        let n = base.len().max(1);
        if enabled.is_empty() || rng.chance(1, 2) {
            out.push(aimed(rng, spans, base.len(), big, aim));
            continue;
        }
        let sector = *rng.pick(&SECTORS);
        let at = rng.usize(n) / sector * sector;
        let foreign = |rng: &mut Rng| -> Vec<u8> {
            let m = sector.min(64);
            match rng.below(4) {
                0 => vec![0; m],
                1 => vec![0xff; m],
                2 => (0..m).map(|_| rng.below(256) as u8).collect(),
                _ => {
                    let s = if stale.is_empty() { 0 } else { rng.usize(stale.len()) };
                    stale[s..(s + m).min(stale.len())].to_vec()
                }
            }
        };
        if rng.chance(1, 12) {
            let times = rng.range(2, 8000 / sector as i64 + 3) as usize;
            out.push(Fault::Repeat(at, sector, times));
            continue;
        }
        out.push(match rng.pick(&enabled) {
            0 => {
                let (s, l, _) = *rng.pick(spans);
                Fault::Cut(if rng.chance(1, 2) { s + rng.usize(l + 1) } else { rng.usize(n) })
            }
            1 => Fault::Flip(rng.usize(n), rng.below(8) as u8),
            2 => Fault::Zero(at, sector),
            3 => Fault::Del(at, sector),
            4 => Fault::Dup(at, sector),
            5 => Fault::Swap(at, rng.usize(n) / sector * sector, sector),
            6 => {
                let b = foreign(rng);
                Fault::Insert(at, b)
            }
            7 => {
                let b = foreign(rng);
                Fault::Set(at, b)
            }
            _ => {
                let b = foreign(rng);
                Fault::Append(b)
            }
        });
    }
    out
}
