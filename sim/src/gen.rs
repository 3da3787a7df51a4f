//! Generated byte code files: structurally valid, every kind of field in use.
//! (Executable programs come from luac50.rs and the real Lua 5.1 compiler.)

use crate::chunk::*;
use crate::rng::Rng;

pub struct Shape_ {
    pub max_funcs: usize,
    pub max_code: usize,
    pub max_depth: usize,
    pub strings: usize,
}

impl Shape_ {
    pub fn random(rng: &mut Rng) -> Shape_ {
        match rng.below(4) {
            0 => Shape_ { max_funcs: 1, max_code: 6, max_depth: 1, strings: 8 },
            1 => Shape_ { max_funcs: 4, max_code: 15, max_depth: 3, strings: 20 },
            2 => Shape_ { max_funcs: 12, max_code: 40, max_depth: 6, strings: 40 },
            _ => Shape_ { max_funcs: 2, max_code: 120, max_depth: 2, strings: 300 },
        }
    }
}

pub fn string(rng: &mut Rng, max: usize) -> Vec<u8> {
    let n = match rng.below(6) {
        0 => 0,
        1 => rng.usize(max + 1),
        _ => rng.usize(9),
    };
    if n == 0 && rng.chance(1, 2) {
        return vec![];
    }
    let mode = rng.below(4);
    let mut s: Vec<u8> = (0..n)
        .map(|_| match mode {
            0 => b'a' + rng.below(26) as u8,
            1 => rng.below(256) as u8,
            2 => 0x80 + rng.below(128) as u8,
            _ => *rng.pick(b"\0\n\xff\xc3\xa9%_\x1bLua\x7f\x80"),
        })
        .collect();
    s.push(0);
    s
}

pub fn number(rng: &mut Rng, integral: bool, width: u8) -> Num {
    if integral {
        let v = match rng.below(6) {
            0 => 0,
            1 => -1,
            2 => i64::MAX,
            3 => i64::MIN,
            4 => rng.range(-100, 100),
            _ => rng.u64() as i64 >> rng.below(64),
        };
        return Num::I(if width == 4 { v as i32 as i64 } else { v });
    }
    let v = match rng.below(8) {
        0 => 0.0,
        1 => -0.0,
        2 => f64::INFINITY,
        3 => 1e300,
        4 => rng.range(-1000, 1000) as f64 / 8.0,
        5 => f64::from_bits(rng.u64()),
        6 => rng.range(-100000, 100000) as f64,
        _ => *rng.pick(&[1.0, 0.1, 2147483647.0, 2147483648.0, -2147483648.0, 9007199254740993.0, 9.3e18, 5e-324, 4294967296.5]),
    };
    Num::F(if width == 4 { v as f32 as f64 } else { v })
}

fn constant(rng: &mut Rng, fmt: &Fmt, sh: &Shape_) -> K {
    match rng.below(8) {
        0 => K::Nil,
        1 => K::Bool(if rng.chance(1, 8) { rng.below(256) as u8 } else { rng.below(2) as u8 }),
        2..=4 => K::Num(number(rng, fmt.integral, fmt.num)),
        _ => K::Str(string(rng, sh.strings)),
    }
}

/// Small instruction-level generator; `simple` keeps to instructions whose
/// conversion is one to one.
/// Nothing but one instruction, the worst case for everything that is done per
/// instruction.
fn single(rng: &mut Rng, ver: Ver, c: &Consts) -> Vec<u64> {
    let l = &c.layout;
    let max = |which: char| (1u64 << l.field(which).1) - 1;
    let op = |name: &str| match ver {
        Ver::L50 => op50(name),
        Ver::L51 => op51(name),
    };
    let mut out: Vec<u64> = Vec::new();
    let nops = if ver == Ver::L50 { 35 } else { 38 };
    let o = match rng.below(3) {
        0 => rng.below(nops),
        _ => op(*rng.pick(match ver {
            Ver::L50 => &["FORLOOP", "TFORLOOP", "TFORPREP", "SETLIST", "SETLISTO", "JMP"][..],
            Ver::L51 => &["FORLOOP", "FORPREP", "TFORLOOP", "SETLIST", "CALL", "JMP"][..],
        })),
    };
    let most = if rng.chance(1, 4) { 600 } else { 30 };
    let setlist = op("SETLIST");
    if o == setlist && c.fpf > 0 && rng.chance(1, 2) {
        // Consistent batches whose elements were lost.
        let a = rng.below(4);
        for page in 0..1 + rng.below(most) {
            let w = match ver {
                Ver::L50 => l.abx(setlist, a, ((page + 1) * c.fpf - 1) & ((1 << (l.field('B').1 + l.field('C').1)) - 1)),
                Ver::L51 => l.abc(setlist, a, c.fpf.min(max('B')), (page + 1).min(max('C'))),
            };
            out.push(w);
            if rng.chance(1, 10) {
                out.push(l.abc(op("MOVE"), rng.below(9), rng.below(9), 0));
            }
        }
        return out;
    }
    for _ in 0..1 + rng.below(most) {
        let mut w = match rng.below(3) {
            0 => l.abx(o, rng.below(4), rng.below(300)),
            1 => l.asbx(o, rng.below(4), -(rng.below(out.len() as u64 + 2) as i64)),
            _ => l.abc(o, rng.below(4), rng.below(8), rng.below(8)),
        };
        for which in ['A', 'B', 'C'] {
            if rng.chance(1, 6) {
                w = l.set(w, which, *rng.pick(&[0, 1, max(which) / 2, max(which) - 1, max(which)]));
            }
        }
        out.push(w);
    }
    out
}

fn code(rng: &mut Rng, ver: Ver, c: &Consts, f: &Func, sh: &Shape_, protos: usize) -> Vec<u64> {
    let l = &c.layout;
    let max = |which: char| (1u64 << l.field(which).1) - 1;
    let regs = rng.range(2, 12) as u64;
    let n = 1 + rng.usize(sh.max_code);
    let op = |name: &str| match ver {
        Ver::L50 => op50(name),
        Ver::L51 => op51(name),
    };
    let nconst = f.consts.len() as u64;
    let mut out: Vec<u64> = Vec::new();
    if rng.chance(1, 25) {
        return single(rng, ver, c);
    }
    let mut jumps: Vec<usize> = Vec::new();
    while out.len() < n {
        let r = |rng: &mut Rng| rng.below(regs);
        let rk = |rng: &mut Rng, which: char| {
            if nconst > 0 && rng.chance(1, 3) {
                let k = rng.below(nconst);
                let v = match ver {
                    Ver::L50 => c.stack_limit + k,
                    Ver::L51 => l.bitrk() | k,
                };
                if k < l.bitrk() && v <= max(which) {
                    return v;
                }
            }
            rng.below(regs)
        };
        let a = r(rng);
        match rng.below(26) {
            0 => out.push(l.abc(op("MOVE"), a, r(rng), 0)),
            1 if nconst > 0 => out.push(l.abx(op("LOADK"), a, rng.below(nconst))),
            2 => out.push(l.abc(op("LOADBOOL"), a, rng.below(2), 0)),
            3 => out.push(l.abc(op("LOADNIL"), a, a + rng.below(4), 0)),
            4 if f.nups > 0 => out.push(l.abc(op(*rng.pick(&["GETUPVAL", "SETUPVAL"])), a, rng.below(f.nups as u64), 0)),
            5 if nconst > 0 => out.push(l.abx(op(*rng.pick(&["GETGLOBAL", "SETGLOBAL"])), a, rng.below(nconst))),
            6 => out.push(l.abc(op("GETTABLE"), a, r(rng), rk(rng, 'C'))),
            7 => out.push(l.abc(op("SETTABLE"), a, rk(rng, 'B'), rk(rng, 'C'))),
            8 => out.push(l.abc(op("NEWTABLE"), a, rng.below(8), rng.below(4))),
            9 => out.push(l.abc(op("SELF"), a, r(rng), rk(rng, 'C'))),
            10 | 11 => {
                let ops: &[&str] = match ver {
                    Ver::L50 => &["ADD", "SUB", "MUL", "DIV", "POW"],
                    Ver::L51 => &["ADD", "SUB", "MUL", "DIV", "POW", "MOD"],
                };
                out.push(l.abc(op(*rng.pick(ops)), a, rk(rng, 'B'), rk(rng, 'C')))
            }
            12 => {
                let ops: &[&str] = match ver {
                    Ver::L50 => &["UNM", "NOT"],
                    Ver::L51 => &["UNM", "NOT", "LEN"],
                };
                out.push(l.abc(op(*rng.pick(ops)), a, r(rng), 0))
            }
            13 => {
                let b = r(rng);
                out.push(l.abc(op("CONCAT"), a, b, b + 1 + rng.below(3)))
            }
            14 => {
                jumps.push(out.len());
                out.push(l.asbx(op("JMP"), 0, 0));
            }
            15 | 16 => {
                out.push(l.abc(op(*rng.pick(&["EQ", "LT", "LE"])), rng.below(2), rk(rng, 'B'), rk(rng, 'C')));
                jumps.push(out.len());
                out.push(l.asbx(op("JMP"), 0, 0));
            }
            17 => {
                let b = match ver {
                    Ver::L50 => r(rng),
                    Ver::L51 => 0,
                };
                out.push(l.abc(op("TEST"), a, b, rng.below(2)));
                jumps.push(out.len());
                out.push(l.asbx(op("JMP"), 0, 0));
            }
            18 if ver == Ver::L51 && rng.chance(1, 8) => {
                // A page too big for its operand is in a word of its own.
                out.push(l.abc(op("SETLIST"), a, rng.below(c.fpf.min(max('B')) + 1), 0));
                let page = rng.range(max('C') as i64 + 1, 70_000) as u64;
                out.push(page.min((1 << l.total().min(32)) - 1));
            }
            18 if ver == Ver::L51 => {
                out.push(l.abc(op("TESTSET"), a, r(rng), rng.below(2)));
                jumps.push(out.len());
                out.push(l.asbx(op("JMP"), 0, 0));
            }
            19 | 20 => out.push(l.abc(op("CALL"), a, rng.below(4), rng.below(4))),
            21 => {
                let back = rng.below(out.len() as u64 + 1) as i64;
                match ver {
                    Ver::L50 => {
                        jumps.push(out.len());
                        out.push(l.asbx(op("JMP"), 0, 0));
                        out.push(l.asbx(op("FORLOOP"), a, -back - 2));
                    }
                    Ver::L51 => {
                        out.push(l.asbx(op("FORPREP"), a, 0));
                        out.push(l.asbx(op("FORLOOP"), a, -2));
                    }
                }
            }
            22 => {
                if ver == Ver::L50 && rng.chance(1, 2) {
                    jumps.push(out.len());
                    out.push(l.asbx(op("TFORPREP"), a, 0));
                }
                let c = rng.below(4) + if ver == Ver::L51 { 1 } else { 0 };
                out.push(l.abc(op("TFORLOOP"), a, 0, c));
                jumps.push(out.len());
                out.push(l.asbx(op("JMP"), 0, 0));
            }
            23 | 24 if nconst > 0 => {
                // A table constructor the way the compilers emit it.
                let items = match rng.below(4) {
                    0 => rng.below(4),
                    1 => c.fpf,
                    _ => rng.below(3 * c.fpf.min(30)) + 1,
                };
                if a + c.fpf < 60 && items > 0 && items < 300 {
                    out.push(l.abc(op("NEWTABLE"), a, 0, 0));
                    for k in 0..items {
                        let slot = k % c.fpf + 1;
                        out.push(l.abx(op("LOADK"), a + slot, rng.below(nconst)));
                        if slot == c.fpf || k + 1 == items {
                            match ver {
                                Ver::L50 => out.push(l.abx(op("SETLIST"), a, k)),
                                Ver::L51 => out.push(l.abc(op("SETLIST"), a, slot, k / c.fpf + 1)),
                            }
                        }
                    }
                }
            }
            25 if protos > 0 => {
                if ver == Ver::L51 && rng.chance(1, 3) {
                    out.push(l.abc(op("VARARG"), a, rng.below(4), 0));
                }
                out.push(l.abx(op("CLOSURE"), a, rng.below(protos as u64)));
                out.push(l.abc(op("CLOSE"), a, 0, 0));
            }
            _ => out.push(l.abc(op("RETURN"), a, rng.below(3), 0)),
        }
    }
    out.push(l.abc(op("RETURN"), 0, 1, 0));
    let end = out.len() as i64;
    for j in jumps {
        let name = l.get(out[j], 'O');
        let a = l.get(out[j], 'A');
        let dest = rng.below(end as u64) as i64;
        let dest = if rng.chance(1, 2) { (j as i64 + 1 + rng.range(0, 6)).min(end - 1) } else { dest };
        out[j] = l.asbx(name, a, dest - j as i64 - 1);
    }
    if rng.chance(1, 6) {
        // What a broken compiler or a careless patch makes of it.
        for _ in 0..1 + rng.below(4) {
            let k = rng.usize(out.len());
            let a = rng.below(regs);
            match rng.below(6) {
                0 if out.len() > 2 => {
                    out.remove(k);
                }
                1 => out.insert(k, out[k]),
                2 => {
                    let j = rng.usize(out.len());
                    out.swap(k, j);
                }
                3 => out[k] = l.set(out[k], 'A', a),
                // An open list that nothing, or something else, opened.
                4 => {
                    let w = match ver {
                        Ver::L50 => l.abx(op("SETLISTO"), a, rng.below(c.fpf.min(20) + 3)),
                        Ver::L51 => l.abc(op("SETLIST"), a, 0, 1 + rng.below(3)),
                    };
                    out.insert(k, w);
                }
                _ => {
                    let w = match ver {
                        Ver::L51 if rng.chance(1, 3) => l.abc(op("VARARG"), a, 0, 0),
                        _ => l.abc(op("CALL"), a, rng.below(3), 0),
                    };
                    out.insert(k, w);
                    let w = match ver {
                        Ver::L50 => l.abx(op("SETLISTO"), rng.below(regs), rng.below(c.fpf.min(20) + 3)),
                        Ver::L51 => l.abc(op("SETLIST"), rng.below(regs), 0, 1 + rng.below(2)),
                    };
                    out.insert(k + 1, w);
                }
            }
        }
    }
    out
}

pub fn func(rng: &mut Rng, ver: Ver, fmt: &Fmt, c: &Consts, sh: &Shape_, budget: &mut usize, depth: usize) -> Func {
    let mut f = Func::empty();
    *budget = budget.saturating_sub(1);
    f.source = string(rng, sh.strings);
    f.line_def = rng.range(0, 300);
    f.last_line = if ver == Ver::L51 { f.line_def + rng.range(0, 50) } else { f.line_def };
    f.nups = rng.below(4) as u8;
    f.params = rng.below(4) as u8;
    f.vararg = match ver {
        Ver::L50 => rng.chance(1, 5) as u8,
        Ver::L51 => *rng.pick(&[0u8, 0, 0, 2, 2, 3, 7]),
    };
    f.maxstack = rng.range(2, 40) as u8;
    let nk = rng.usize(9) + if rng.chance(1, 30) { 300 } else { 0 };
    f.consts = (0..nk).map(|_| constant(rng, fmt, sh)).collect();
    let np = if depth < sh.max_depth { rng.usize(4).min(*budget) } else { 0 };
    for _ in 0..np {
        if *budget > 0 {
            f.protos.push(func(rng, ver, fmt, c, sh, budget, depth + 1));
        }
    }
    // Twins: what is almost the same must not be taken for the same.
    if rng.chance(1, 6) {
        let mut twins: Vec<K> = f.consts.iter().filter(|_| rng.chance(1, 2)).cloned().collect();
        if rng.chance(1, 3) {
            let n = 18 + rng.usize(60);
            let long = K::Str((0..n).map(|_| b'a' + rng.below(26) as u8).chain([0]).collect());
            f.consts.push(long.clone());
            twins.push(long);
        }
        for k in &mut twins {
            match k {
                K::Str(s) if s.len() > 1 => {
                    let at = rng.usize(s.len() - 1);
                    s[at] ^= 1 << rng.below(8);
                }
                K::Num(Num::I(x)) => *x ^= 1 << rng.below(if fmt.num == 4 { 31 } else { 63 }),
                K::Num(Num::F(x)) if fmt.num == 8 => *x = f64::from_bits(x.to_bits() ^ 1 << rng.below(64)),
                _ => {}
            }
        }
        f.consts.extend(twins);
    }
    f.code = code(rng, ver, c, &f, sh, f.protos.len());
    if rng.chance(1, 12) && !f.protos.is_empty() && *budget > 0 {
        let mut twin = f.protos[rng.usize(f.protos.len())].clone();
        let n = twin.lines.len();
        match rng.below(6) {
            0 if n > 0 => twin.lines[rng.usize(n)] ^= 1,
            1 => {
                twin.line_def += 1;
                twin.last_line += 1;
            }
            2 => twin.nups ^= 1,
            3 => twin.consts.push(constant(rng, fmt, sh)),
            4 => twin.maxstack += 1,
            _ => twin.source.insert(0, b'@'),
        }
        *budget = budget.saturating_sub(1);
        f.protos.push(twin);
    }
    // No compiler does that, but the format allows it.
    if rng.chance(1, 40) {
        f.code.clear();
    }
    let mut line = f.line_def.max(1);
    f.lines = (0..f.code.len())
        .map(|_| {
            if rng.chance(1, 3) {
                line += rng.range(0, 3);
            }
            if rng.chance(1, 200) {
                i32::MAX as i64
            } else {
                line
            }
        })
        .collect();
    for _ in 0..rng.usize(4) {
        let s = rng.range(0, f.code.len() as i64);
        f.locals.push((string(rng, sh.strings), s, s + rng.range(0, 5)));
    }
    f.upnames = (0..f.nups).map(|_| string(rng, sh.strings)).collect();
    // Lists longer than a byte can count.
    if rng.chance(1, 40) {
        let n = 250 + rng.usize(20);
        match rng.below(3) {
            0 => f.locals = (0..n).map(|k| (string(rng, 3), k as i64, rng.range(0, 300))).collect(),
            1 => f.upnames = (0..n).map(|_| string(rng, 3)).collect(),
            _ => {
                // Long enough for what counts in 16 bits: strings too.
                let n = *rng.pick(&[255usize, 256, 257, 1000, 65_535, 65_536, 70_000]);
                f.source = (0..n).map(|_| 1 + rng.below(255) as u8).chain([0]).collect();
            }
        }
    }
    if rng.chance(1, 40) && depth < sh.max_depth {
        for _ in 0..250 + rng.usize(20) {
            let mut g = Func::empty();
            g.code = vec![match ver {
                Ver::L50 => c.layout.abc(op50("RETURN"), 0, 1, 0),
                Ver::L51 => c.layout.abc(op51("RETURN"), 0, 1, 0),
            }];
            g.lines = vec![rng.range(0, 300)];
            g.maxstack = 2;
            f.protos.push(g);
        }
    }
    f
}

/// A complete file.
pub fn file(rng: &mut Rng, ver: Ver, fmt: &Fmt, c: &Consts) -> Func {
    let sh = Shape_::random(rng);
    let mut budget = sh.max_funcs;
    let mut f = func(rng, ver, fmt, c, &sh, &mut budget, 1);
    if rng.chance(1, 5) {
        f.strip();
    }
    // A tower of nested functions now and then.
    if rng.chance(1, 40) {
        let tall = if rng.chance(1, 2) { 190 } else { rng.range(5, 60) as usize };
        f = tower(f, tall, ver, c);
    }
    f
}

/// Next to a power of two, on either side of zero.
fn corner(rng: &mut Rng) -> i128 {
    let k = *rng.pick(&[0, 7, 8, 15, 16, 23, 24, 25, 31, 32, 33, 52, 53, 54, 62, 63, 64]);
    let v = (1i128 << k) + rng.range(-2, 2) as i128;
    if rng.chance(1, 2) {
        -v
    } else {
        v
    }
}

fn corner_number(rng: &mut Rng, integral: bool, width: u8) -> Num {
    let v = corner(rng);
    if integral {
        return Num::I(if width == 4 { v as i32 as i64 } else { v as i64 });
    }
    let mut x = v as f64;
    if width == 4 {
        let b = (x as f32).to_bits();
        x = f32::from_bits(b.wrapping_add(rng.below(3) as u32).wrapping_sub(1)) as f64;
    } else if rng.chance(1, 3) {
        x = f64::from_bits(x.to_bits().wrapping_add(rng.below(3)).wrapping_sub(1));
    } else if rng.chance(1, 3) {
        // The same for what a float of 4 bytes holds.
        x = match rng.below(6) {
            0 => f32::MAX as f64,
            1 => f32::MIN_POSITIVE as f64,
            2 => f32::from_bits(1) as f64,
            3 => f32::MIN as f64,
            4 => f64::NAN,
            _ => f64::INFINITY,
        };
    }
    Num::F(x)
}

/// A short function full of values at the edges of what fields hold; mostly
/// ones that fit `to`.
pub fn corners(rng: &mut Rng, ver: Ver, fmt: &Fmt, c: &Consts, to: &Fmt) -> Func {
    let fitting = rng.chance(3, 4);
    let mut f = Func::empty();
    let mut int = |rng: &mut Rng| loop {
        let mut v = corner(rng) as i64;
        if rng.chance(1, 2) {
            v = rng.range(0, 9);
        }
        if (fmt.int == 8 || v == v as i32 as i64) && (!fitting || to.int == 8 || v == v as i32 as i64) {
            return v;
        }
    };
    f.source = string(rng, 8);
    f.line_def = int(rng);
    f.last_line = if ver == Ver::L51 { int(rng) } else { f.line_def };
    f.maxstack = rng.range(2, 9) as u8;
    f.code = vec![match ver {
        Ver::L50 => c.layout.abc(op50("RETURN"), 0, 1, 0),
        Ver::L51 => c.layout.abc(op51("RETURN"), 0, 1, 0),
    }];
    f.lines = vec![int(rng)];
    for _ in 0..rng.usize(3) {
        f.locals.push((string(rng, 8), int(rng), int(rng)));
    }
    for _ in 0..1 + rng.usize(4) {
        let mut n = corner_number(rng, fmt.integral, fmt.num);
        for _ in 0..20 {
            if !fitting || crate::model::fits_num(n, to) == Some(true) {
                break;
            }
            n = corner_number(rng, fmt.integral, fmt.num);
        }
        f.consts.push(K::Num(n));
    }
    f
}

/// Functions around `f` until they are `tall` levels.
pub fn tower(mut f: Func, tall: usize, ver: Ver, c: &Consts) -> Func {
    for _ in 0..tall.saturating_sub(f.depth()) {
        let mut outer = Func::empty();
        outer.code = vec![match ver {
            Ver::L50 => c.layout.abc(op50("RETURN"), 0, 1, 0),
            Ver::L51 => c.layout.abc(op51("RETURN"), 0, 1, 0),
        }];
        outer.lines = vec![1];
        outer.protos.push(f);
        f = outer;
    }
    f
}

/// A file whose functions repeat one instruction, with operands at the edges.
pub fn worst(rng: &mut Rng, ver: Ver, c: &Consts) -> Func {
    let mut f = Func::empty();
    f.maxstack = 2 + rng.below(40) as u8;
    f.code = single(rng, ver, c);
    f.lines = f.code.iter().map(|_| rng.range(0, 9)).collect();
    for _ in 0..rng.below(3) {
        let mut g = f.clone();
        g.code = single(rng, ver, c);
        g.lines = vec![1; g.code.len()];
        g.protos.clear();
        f.protos.push(g);
    }
    f
}
