//! What a conversion may and may not do, derived from the file formats alone.

use lunify::LunifyError as E;

use crate::chunk::*;

pub fn expected_error(b: &Bad) -> Option<E> {
    Some(match b {
        Bad::Signature => E::IncorrectSignature,
        Bad::Version(x) => E::UnsupportedVersion(*x),
        Bad::Endian(x) => E::InvaildEndianness(*x),
        Bad::WidthInt(x) => E::UnsupportedIntegerWidth(*x),
        Bad::WidthSize(x) => E::UnsupportedSizeTWidth(*x),
        Bad::WidthIns(x) => E::UnsupportedInstructionWidth(*x),
        Bad::InsFormat(x) => E::UnsupportedInstructionFormat(*x),
        Bad::WidthNum(x) => E::UnsupportedNumberWidth(*x),
        Bad::Opcode(x) => E::InvalidOpcode(*x),
        Bad::KTag(x) => E::InvalidConstantType(*x),
        Bad::Short => E::InputTooShort,
        Bad::Long => E::InputTooLong,
        Bad::Deep => return None,
    })
}

/// Errors that diagnose a field of the file; everything else refuses what the
/// (readable) content would need in the target.
pub fn is_structural(e: &E) -> bool {
    matches!(
        e,
        E::IncorrectSignature
            | E::UnsupportedVersion(_)
            | E::InvaildEndianness(_)
            | E::UnsupportedInstructionFormat(_)
            | E::UnsupportedSizeTWidth(_)
            | E::UnsupportedIntegerWidth(_)
            | E::UnsupportedInstructionWidth(_)
            | E::UnsupportedNumberWidth(_)
            | E::InvalidOpcode(_)
            | E::InvalidConstantType(_)
            | E::InputTooShort
            | E::InputTooLong
    )
}

/// The input already is what was asked for, so returning it is right.
pub fn already_right(d: &Decoded, out: &Fmt, sets: &Sets) -> bool {
    d.ver == Some(Ver::L51) && d.fmt == *out && sets.lua51 == sets.output
}

pub const DEEP: usize = 200;

fn same_num(input: Num, out: Num, to: &Fmt) -> bool {
    match (input, out) {
        (Num::F(a), Num::F(b)) => {
            if to.num == 4 {
                (a as f32).to_bits() == (b as f32).to_bits() || (a.is_nan() && b.is_nan())
            } else {
                a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
            }
        }
        (Num::I(a), Num::I(b)) => a == b,
        (Num::F(a), Num::I(b)) => a == b as f64 && (b as f64) as i128 == b as i128 && a.trunc() as i128 == b as i128,
        (Num::I(a), Num::F(b)) => {
            // Only floats may be narrowed to the nearest one.
            b as i128 == a as i128
        }
    }
}

/// Some(true): certainly representable; Some(false): certainly not.
pub fn fits_num(n: Num, to: &Fmt) -> Option<bool> {
    match n {
        Num::F(x) if to.integral => {
            if x.trunc() != x || !x.is_finite() {
                return Some(false);
            }
            let lim = if to.num == 4 { 2147483648.0 } else { 9223372036854775808.0 };
            if x >= lim || x < -lim {
                return Some(false);
            }
            if x == 0.0 && x.is_sign_negative() {
                return None;
            }
            Some(true)
        }
        Num::F(x) => {
            if to.num == 4 && x.is_finite() && (x as f32).is_infinite() {
                return None;
            }
            Some(true)
        }
        Num::I(x) if to.integral => Some(to.num == 8 || x == x as i32 as i64),
        Num::I(x) => {
            let f = x as f64;
            if f as i128 != x as i128 {
                return Some(false);
            }
            Some(to.num == 8 || (f as f32) as f64 == f)
        }
    }
}

fn same_const(a: &K, b: &K, to: &Fmt) -> bool {
    match (a, b) {
        (K::Nil, K::Nil) => true,
        (K::Bool(x), K::Bool(y)) => (*x != 0) == (*y != 0),
        (K::Num(x), K::Num(y)) => same_num(*x, *y, to),
        (K::Str(x), K::Str(y)) => x == y,
        _ => false,
    }
}

pub struct Judge<'a> {
    pub ver: Ver,
    pub sets: &'a Sets,
    pub to: &'a Fmt,
    /// How many functions had their code compared word by word.
    pub code_compared: u64,
    pub functions: u64,
}

/// One to one images of Lua 5.0 instructions.
fn simple50(name: &str) -> Option<&'static str> {
    if matches!(name, "FORLOOP" | "TFORLOOP" | "TFORPREP" | "SETLIST" | "SETLISTO") {
        return None;
    }
    if name == "TEST" {
        return Some("TESTSET");
    }
    NAMES51.iter().find(|n| **n == name).copied()
}

pub fn shape50(name: &str) -> Shape {
    match name {
        "TEST" => Shape::Abc(Use::Yes, Use::Yes, Use::Yes),
        "SETLIST" | "SETLISTO" => Shape::Abx,
        _ => shape(name),
    }
}

/// A Lua 5.0 word as the Lua 5.1 word (in a maximal layout) it must become.
fn recode50(w: u64, from: &Consts, to: &Layout) -> Option<Recoded> {
    let l = &from.layout;
    let name = NAMES50[l.get(w, 'O') as usize];
    let image = simple50(name)?;
    let mut r = Recoded { must: vec![('O', op51(image) as i64)], refuse: false, may_refuse: false };
    let fits = |v: u64, n: u32| v < 1 << n;
    let a = l.get(w, 'A');
    if fits(a, to.field('A').1) {
        if shape50(name) != Shape::AsBx(false) {
            r.must.push(('A', a as i64));
        }
    } else if shape50(name) == Shape::AsBx(false) {
        r.may_refuse = true;
    } else {
        r.refuse = true;
    }
    match shape50(name) {
        Shape::Abx => {
            let v = l.get_bx(w);
            if fits(v, to.bx().1) {
                r.must.push(('X', v as i64));
            } else {
                r.refuse = true;
            }
        }
        Shape::AsBx(_) => {
            let v = l.get_bx(w) as i64 - l.bias();
            let raw = v + to.bias();
            if raw >= 0 && fits(raw as u64, to.bx().1) {
                r.must.push(('S', v));
            } else {
                r.refuse = true;
            }
        }
        Shape::Abc(_, ub, uc) => {
            for (which, u) in [('B', ub), ('C', uc)] {
                let v = l.get(w, which);
                let n = to.field(which).1;
                match u {
                    Use::RK => {
                        let (index, k) = if v >= from.stack_limit { (v - from.stack_limit, true) } else { (v, false) };
                        let raw = if k { index | to.bitrk() } else { index };
                        if index >= to.bitrk() || !fits(raw, n) {
                            r.refuse = true;
                        } else {
                            r.must.push((which, raw as i64));
                        }
                    }
                    Use::Yes => {
                        if fits(v, n) && (name != "TEST" || which != 'B' || v < to.bitrk()) {
                            r.must.push((which, v as i64));
                        } else {
                            r.refuse = true;
                        }
                    }
                    Use::No | Use::Hint => {
                        let index = if v >= from.stack_limit { v - from.stack_limit } else { v };
                        if !fits(v, n) || index >= to.bitrk() || name == "UNM" {
                            r.may_refuse = true;
                        }
                    }
                }
            }
        }
    }
    Some(r)
}

fn dedupe(v: &[i64]) -> Vec<i64> {
    let mut v = v.to_vec();
    v.dedup();
    v
}

impl<'a> Judge<'a> {
    /// Compares an input function with its image; Err says what was not carried over.
    pub fn func(&mut self, a: &Func, b: &Func, path: &str) -> Result<(), String> {
        self.functions += 1;
        let to = self.to;
        macro_rules! same {
            ($what:literal, $x:expr, $y:expr) => {
                if &$x != &$y {
                    return Err(format!("{path}: {}: {:?} became {:?}", $what, $x, $y));
                }
            };
        }
        same!("source name", a.source, b.source);
        same!("line defined", a.line_def, b.line_def);
        if self.ver == Ver::L51 {
            same!("last line defined", a.last_line, b.last_line);
            same!("variadic flags", a.vararg, b.vararg);
        } else {
            same!("variadic", (a.vararg != 0), (b.vararg & 2 != 0));
        }
        same!("upvalue count", a.nups, b.nups);
        same!("parameter count", a.params, b.params);
        same!("upvalue names", a.upnames, b.upnames);
        if self.ver == Ver::L51 && self.sets.lua51.fpf == self.sets.output.fpf {
            same!("local variables", a.locals, b.locals);
        } else {
            let names = |f: &Func| f.locals.iter().map(|l| l.0.clone()).collect::<Vec<_>>();
            same!("local variable names", names(a), names(b));
        }
        if b.maxstack < a.maxstack && (a.maxstack as u64) <= self.sets.output.stack_limit {
            return Err(format!("{path}: stack size shrank from {} to {}", a.maxstack, b.maxstack));
        }
        // Constants: the converter may add its own after the original ones.
        if b.consts.len() < a.consts.len() || (self.ver == Ver::L51 && b.consts.len() != a.consts.len()) {
            return Err(format!("{path}: {} constants became {}", a.consts.len(), b.consts.len()));
        }
        for (k, (x, y)) in a.consts.iter().zip(&b.consts).enumerate() {
            if !same_const(x, y, to) {
                return Err(format!("{path}: constant {k}: {x:?} became {y:?}"));
            }
        }
        self.code(a, b, path)?;
        same!("number of nested functions", a.protos.len(), b.protos.len());
        for (k, (x, y)) in a.protos.iter().zip(&b.protos).enumerate() {
            self.func(x, y, &format!("{path}.{k}"))?;
        }
        Ok(())
    }

    fn code(&mut self, a: &Func, b: &Func, path: &str) -> Result<(), String> {
        let from = match self.ver {
            Ver::L50 => &self.sets.lua50.layout,
            Ver::L51 => &self.sets.lua51.layout,
        };
        let ol = &self.sets.output.layout;
        let same_flush = self.sets.lua51.fpf == self.sets.output.fpf;
        let acode = instructions(&a.code, self.ver, from);
        let one_to_one = match self.ver {
            Ver::L51 => same_flush || !acode.iter().any(|(_, w)| from.get(*w, 'O') == op51("SETLIST")),
            Ver::L50 => a.vararg == 0 && a.code.iter().all(|w| simple50(NAMES50[from.get(*w, 'O') as usize]).is_some()),
        };
        let has_setlist = match self.ver {
            Ver::L51 => acode.iter().any(|(_, w)| from.get(*w, 'O') == op51("SETLIST")),
            Ver::L50 => a.code.iter().any(|w| matches!(NAMES50[from.get(*w, 'O') as usize], "SETLIST" | "SETLISTO")),
        };
        if one_to_one {
            self.code_compared += 1;
            if a.code.len() != b.code.len() {
                return Err(format!("{path}: {} instructions became {}", a.code.len(), b.code.len()));
            }
            let mut next = 0;
            for (pc, (&x, &y)) in a.code.iter().zip(&b.code).enumerate() {
                if acode.get(next).map(|i| i.0) != Some(pc) {
                    // The page word of a table assignment.
                    if x != y {
                        return Err(format!("{path}: page word {pc}: {x:#x} became {y:#x}"));
                    }
                    continue;
                }
                next += 1;
                let r = match self.ver {
                    Ver::L51 => recode51(x, from, ol),
                    Ver::L50 => recode50(x, &self.sets.lua50, ol).unwrap(),
                };
                let text = || match self.ver {
                    Ver::L51 => show51(x, from),
                    Ver::L50 => show50(x, from),
                };
                if r.refuse {
                    return Err(format!("{path}: instruction {pc} ({}) does not fit the output layout but became {}", text(), show51(y, ol)));
                }
                if !matches(y, ol, &r.must) {
                    return Err(format!("{path}: instruction {pc}: {} became {}", text(), show51(y, ol)));
                }
            }
            // A damaged line count (no machine loads such a file): only what both have.
            let n = if a.lines.is_empty() || a.lines.len() == a.code.len() { usize::MAX } else { a.lines.len().min(b.lines.len()).min(a.code.len()) };
            if a.lines[..n.min(a.lines.len())] != b.lines[..n.min(b.lines.len())] {
                return Err(format!("{path}: line information {:?} became {:?}", head(&a.lines), head(&b.lines)));
            }
        } else {
            if a.lines.is_empty() != b.lines.is_empty() && !a.code.is_empty() {
                return Err(format!("{path}: line information went from {} to {} entries", a.lines.len(), b.lines.len()));
            }
            if !b.lines.is_empty() && a.lines.len() == a.code.len() && b.lines.len() != b.code.len() {
                return Err(format!("{path}: {} line entries for {} instructions", b.lines.len(), b.code.len()));
            }
            if !has_setlist && a.lines.len() == a.code.len() && dedupe(&a.lines) != dedupe(&b.lines) {
                return Err(format!("{path}: line sequence {:?} became {:?}", head(&dedupe(&a.lines)), head(&dedupe(&b.lines))));
            }
            match self.ver {
                Ver::L50 => self.landmarks(a, b, path)?,
                Ver::L51 => self.regrouped(a, b, path)?,
            }
        }
        Ok(())
    }

    /// Lua 5.1 code whose table constructors were regrouped: everything but
    /// SETLIST and LOADNIL is still there, in order and on its line; registers
    /// and jumps may differ.
    fn regrouped(&mut self, a: &Func, b: &Func, path: &str) -> Result<(), String> {
        let from = &self.sets.lua51.layout;
        let ol = &self.sets.output.layout;
        let rest = |f: &Func, l: &Layout| -> Vec<(u64, i64)> {
            let line = |pc: usize| if f.lines.len() == f.code.len() { f.lines[pc] } else { 0 };
            let list = instructions(&f.code, Ver::L51, l).into_iter().map(|(pc, w)| (w, line(pc)));
            list.filter(|(w, _)| !matches!(NAMES51[l.get(*w, 'O') as usize], "SETLIST" | "LOADNIL")).collect()
        };
        let (x, y) = (rest(a, from), rest(b, ol));
        let lines = a.lines.len() == a.code.len();
        for k in 0..x.len().max(y.len()) {
            let (Some(&(v, from_line)), Some(&(w, to_line))) = (x.get(k), y.get(k)) else {
                return Err(format!("{path}: {} instructions that are not SETLIST or LOADNIL became {}", x.len(), y.len()));
            };
            let mut r = recode51(v, from, ol);
            r.must.retain(|(c, _)| matches!(c, 'O' | 'X'));
            if !matches(w, ol, &r.must) {
                return Err(format!("{path}: {} became {}", show51(v, from), show51(w, ol)));
            }
            if lines && from_line != to_line {
                return Err(format!("{path}: {} moved from line {from_line} to line {to_line}", show51(v, from)));
            }
        }
        Ok(())
    }

    /// Code that is not one to one: every instruction with an image of its own
    /// still appears, in order, among the output (jump targets excepted).
    fn landmarks(&mut self, a: &Func, b: &Func, path: &str) -> Result<(), String> {
        let from = &self.sets.lua50;
        if a.code.iter().any(|w| matches!(NAMES50[from.layout.get(*w, 'O') as usize], "SETLIST" | "SETLISTO")) {
            return Ok(());
        }
        let ol = &self.sets.output.layout;
        let mut k = 0;
        for (pc, &x) in a.code.iter().enumerate() {
            let Some(mut r) = recode50(x, from, ol) else { continue };
            r.must.retain(|(c, _)| *c != 'S');
            while k < b.code.len() && !matches(b.code[k], ol, &r.must) {
                k += 1;
            }
            if k == b.code.len() {
                return Err(format!("{path}: instruction {pc} ({}) is missing from the output", show50(x, &from.layout)));
            }
            k += 1;
        }
        Ok(())
    }
}

fn head(v: &[i64]) -> Vec<i64> {
    v.iter().take(40).copied().collect()
}

/// Must a conversion of this readable file succeed? None: cannot tell.
pub fn must_convert(d: &Decoded, sets: &Sets, to: &Fmt) -> bool {
    let Some(root) = &d.root else { return false };
    if d.bad.is_some() || d.negative || d.ambiguous || d.depth > 150 {
        return false;
    }
    let ver = d.ver.unwrap();
    let mut ok = true;
    root.walk(&mut |f| {
        if f.maxstack as u64 > sets.output.stack_limit {
            ok = false;
        }
        for k in &f.consts {
            if let K::Num(n) = k {
                if fits_num(*n, to) != Some(true) {
                    ok = false;
                }
            }
        }
        let big = |v: i64| to.int == 4 && v != v as i32 as i64;
        if big(f.line_def) || big(f.last_line) || f.lines.iter().any(|l| big(*l)) || f.locals.iter().any(|l| big(l.1) || big(l.2)) {
            ok = false;
        }
        if ver == Ver::L51 {
            let l = &sets.lua51.layout;
            let same = sets.lua51.fpf == sets.output.fpf;
            let list = instructions(&f.code, ver, l);
            if list.len() < f.code.len() && (!same || to.ins == 4) {
                ok = false;
            }
            for &(_, w) in &list {
                let r = recode51(w, l, &sets.output.layout);
                let name = NAMES51[l.get(w, 'O') as usize];
                if r.refuse || r.may_refuse || (!same && name == "SETLIST") {
                    ok = false;
                }
                // Without this the rebuilt function may be refused as needing
                // more stack, or as jumping out of its code.
                if !same && (l.get(w, 'A') + 8 > f.maxstack as u64 || matches!(name, "CALL" | "VARARG" | "TFORLOOP" | "LOADNIL" | "JMP" | "FORLOOP" | "FORPREP")) {
                    ok = false;
                }
            }
        } else {
            let c = &sets.lua50;
            // Collecting the arguments takes registers, even without any code.
            if f.vararg != 0 {
                ok = false;
            }
            for &w in &f.code {
                match recode50(w, c, &sets.output.layout) {
                    Some(r) if !r.refuse && !r.may_refuse => {}
                    _ => ok = false,
                }
                let name = NAMES50[c.layout.get(w, 'O') as usize];
                if c.layout.get(w, 'A') + 8 > sets.output.stack_limit || matches!(name, "CALL" | "LOADNIL" | "JMP") {
                    ok = false;
                }
            }
        }
    });
    ok
}
