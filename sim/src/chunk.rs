//! Independent model of Lua 5.0 and Lua 5.1 byte code files: encoder (with the
//! extent of every field, for aimed faults), decoder (with the first unusable
//! field) and what converting a file may and may not change.

use crate::json::{self, J};
use crate::rng::Rng;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ver {
    L50,
    L51,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Fmt {
    pub format: u8,
    pub big: bool,
    pub int: u8,
    pub size: u8,
    pub ins: u8,
    pub num: u8,
    pub integral: bool,
}

impl Fmt {
    pub const HOST: Fmt = Fmt { format: 0, big: false, int: 4, size: 8, ins: 4, num: 8, integral: false };

    pub fn random(rng: &mut Rng) -> Fmt {
        let w = |rng: &mut Rng| if rng.chance(1, 2) { 4 } else { 8 };
        Fmt {
            format: if rng.chance(3, 4) { 0 } else { rng.below(256) as u8 },
            big: rng.chance(1, 2),
            int: w(rng),
            size: w(rng),
            ins: if rng.chance(3, 4) { 4 } else { 8 },
            num: if rng.chance(3, 4) { 8 } else { 4 },
            integral: rng.chance(1, 6),
        }
    }

    pub fn lunify(&self) -> lunify::Format {
        let w = |x: u8| if x == 4 { lunify::BitWidth::Bit32 } else { lunify::BitWidth::Bit64 };
        lunify::Format {
            format: self.format,
            endianness: if self.big { lunify::Endianness::Big } else { lunify::Endianness::Little },
            integer_width: w(self.int),
            size_t_width: w(self.size),
            instruction_width: w(self.ins),
            number_width: w(self.num),
            is_number_integral: self.integral,
        }
    }

    pub fn json(&self) -> J {
        json::s(format!(
            "{}:{}:i{}s{}w{}n{}{}",
            self.format,
            if self.big { "be" } else { "le" },
            self.int,
            self.size,
            self.ins,
            self.num,
            if self.integral { "int" } else { "flt" }
        ))
    }

    pub fn parse(j: &J) -> Fmt {
        let t = j.str();
        let p: Vec<&str> = t.split(':').collect();
        let d = |k: usize| p[2].as_bytes()[k] - b'0';
        Fmt { format: p[0].parse().unwrap(), big: p[1] == "be", int: d(1), size: d(3), ins: d(5), num: d(7), integral: p[2].ends_with("int") }
    }
}

/// Operand order from the least significant bit.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Layout {
    pub order: [(char, u8); 4],
}

pub const LAYOUT50: Layout = Layout { order: [('O', 6), ('C', 9), ('B', 9), ('A', 8)] };
pub const LAYOUT51: Layout = Layout { order: [('O', 6), ('A', 8), ('C', 9), ('B', 9)] };

impl Layout {
    pub fn field(&self, which: char) -> (u32, u32) {
        let mut pos = 0;
        for &(c, n) in &self.order {
            if c == which {
                return (pos, n as u32);
            }
            pos += n as u32;
        }
        unreachable!()
    }
    pub fn total(&self) -> u32 {
        self.order.iter().map(|x| x.1 as u32).sum()
    }
    pub fn bx(&self) -> (u32, u32) {
        let (b, nb) = self.field('B');
        let (c, nc) = self.field('C');
        (b.min(c), nb + nc)
    }
    pub fn get(&self, word: u64, which: char) -> u64 {
        let (p, n) = self.field(which);
        word >> p & ((1u64 << n) - 1)
    }
    pub fn set(&self, word: u64, which: char, v: u64) -> u64 {
        let (pos, n) = self.field(which);
        word & !(((1u64 << n) - 1) << pos) | v << pos
    }
    pub fn get_bx(&self, word: u64) -> u64 {
        let (p, n) = self.bx();
        word >> p & (u64::MAX >> (64 - n))
    }
    pub fn set_bx(&self, word: u64, v: u64) -> u64 {
        let (p, n) = self.bx();
        word & !(u64::MAX >> (64 - n) << p) | v << p
    }
    pub fn bias(&self) -> i64 {
        ((1i64 << self.bx().1) - 1) >> 1
    }
    pub fn bitrk(&self) -> u64 {
        1 << (self.field('B').1 - 1)
    }
    pub fn abc(&self, o: u64, a: u64, b: u64, c: u64) -> u64 {
        o << self.field('O').0 | a << self.field('A').0 | b << self.field('B').0 | c << self.field('C').0
    }
    pub fn abx(&self, o: u64, a: u64, bx: u64) -> u64 {
        o << self.field('O').0 | a << self.field('A').0 | bx << self.bx().0
    }
    pub fn asbx(&self, o: u64, a: u64, sbx: i64) -> u64 {
        self.abx(o, a, (sbx + self.bias()) as u64)
    }

    pub fn lunify(&self) -> lunify::InstructionLayout {
        use lunify::OperandType as T;
        let t = |k: usize| {
            let (c, n) = self.order[k];
            let n = n as u64;
            match c {
                'O' => T::Opcode(n),
                'A' => T::A(n),
                'B' => T::B(n),
                _ => T::C(n),
            }
        };
        lunify::InstructionLayout::from_specification([t(0), t(1), t(2), t(3)]).expect("harness: layout")
    }

    pub fn json(&self) -> J {
        json::s(self.order.iter().map(|(c, n)| format!("{c}{n}")).collect::<Vec<_>>().join(" "))
    }
    pub fn parse(j: &J) -> Layout {
        let mut order = [('O', 0); 4];
        for (k, t) in j.str().split(' ').enumerate() {
            order[k] = (t.as_bytes()[0] as char, t[1..].parse().unwrap());
        }
        Layout { order }
    }

    /// A layout that fits a word of `bits` bits; `wide` leaves the standard sizes.
    pub fn random(rng: &mut Rng, bits: u32, wide: bool) -> Layout {
        loop {
            let (o, a, b, c) = if wide && bits == 64 && rng.chance(1, 3) {
                (6 + rng.below(26) as u8, 7 + rng.below(25) as u8, 8 + rng.below(24) as u8, 8 + rng.below(24) as u8)
            } else if wide {
                (6 + rng.below(3) as u8, 7 + rng.below(6) as u8, 8 + rng.below(7) as u8, 8 + rng.below(7) as u8)
            } else {
                (6, 8, 9, 9)
            };
            let (x, y) = if rng.chance(1, 2) { (('B', b), ('C', c)) } else { (('C', c), ('B', b)) };
            let mut rest = vec![vec![('O', o)], vec![('A', a)], vec![x, y]];
            let mut order = Vec::new();
            while !rest.is_empty() {
                let k = rng.usize(rest.len());
                order.extend(rest.remove(k));
            }
            let l = Layout { order: [order[0], order[1], order[2], order[3]] };
            if l.total() <= bits {
                return l;
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Consts {
    pub sig: String,
    pub stack_limit: u64,
    pub fpf: u64,
    pub layout: Layout,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Sets {
    pub lua50: Consts,
    pub lua51: Consts,
    pub output: Consts,
}

impl Consts {
    pub fn json(&self) -> J {
        json::obj(vec![
            ("sig", json::hex(self.sig.as_bytes())),
            ("stack_limit", json::i(self.stack_limit)),
            ("fields_per_flush", json::i(self.fpf)),
            ("layout", self.layout.json()),
        ])
    }
    pub fn parse(j: &J) -> Consts {
        Consts {
            sig: String::from_utf8(j.get("sig").bytes()).unwrap(),
            stack_limit: j.get("stack_limit").u64(),
            fpf: j.get("fields_per_flush").u64(),
            layout: Layout::parse(j.get("layout")),
        }
    }
}

impl Sets {
    pub fn default() -> Sets {
        Sets {
            lua50: Consts { sig: "\x1bLua".into(), stack_limit: 250, fpf: 32, layout: LAYOUT50 },
            lua51: Consts { sig: "\x1bLua".into(), stack_limit: 250, fpf: 50, layout: LAYOUT51 },
            output: Consts { sig: "\x1bLua".into(), stack_limit: 250, fpf: 50, layout: LAYOUT51 },
        }
    }
    pub fn json(&self) -> J {
        json::obj(vec![("lua50", self.lua50.json()), ("lua51", self.lua51.json()), ("output", self.output.json())])
    }
    pub fn parse(j: &J) -> Sets {
        Sets { lua50: Consts::parse(j.get("lua50")), lua51: Consts::parse(j.get("lua51")), output: Consts::parse(j.get("output")) }
    }
    pub fn lunify(&self) -> lunify::Settings<'_> {
        lunify::Settings {
            lua50: lunify::lua50::Settings {
                stack_limit: self.lua50.stack_limit,
                fields_per_flush: self.lua50.fpf,
                binary_signature: &self.lua50.sig,
                layout: self.lua50.layout.lunify(),
            },
            lua51: lunify::lua51::Settings {
                stack_limit: self.lua51.stack_limit,
                fields_per_flush: self.lua51.fpf,
                binary_signature: &self.lua51.sig,
                layout: self.lua51.layout.lunify(),
            },
            output: lunify::lua51::Settings {
                stack_limit: self.output.stack_limit,
                fields_per_flush: self.output.fpf,
                binary_signature: &self.output.sig,
                layout: self.output.layout.lunify(),
            },
        }
    }

    /// Legal settings. `in_ins`/`out_ins`: instruction widths of the two files.
    pub fn random(rng: &mut Rng, in_ins: u8, out_ins: u8) -> Sets {
        let mut s = Sets::default();
        if rng.chance(1, 3) {
            return s;
        }
        let sigs = ["\x1bLua", "\x1bLul", "\u{1b}LuaX", "L", "\x7fLUNIFY\0sig", "\u{1b}L\u{e9}a"];
        if rng.chance(1, 4) {
            s.lua50.sig = rng.pick(&sigs).to_string();
            s.lua51.sig = if rng.chance(1, 2) { s.lua50.sig.clone() } else { rng.pick(&sigs).to_string() };
            let (a, b) = (s.lua50.sig.as_bytes(), s.lua51.sig.as_bytes());
            if a != b && (a.starts_with(b) || b.starts_with(a)) {
                s.lua51.sig = s.lua50.sig.clone();
            }
            s.output.sig = rng.pick(&sigs).to_string();
        }
        let fpfs = [1, 2, 3, 4, 5, 8, 10, 20, 32, 50, 50, 64, 100];
        if rng.chance(1, 2) {
            s.lua50.fpf = *rng.pick(&fpfs);
            s.lua51.fpf = *rng.pick(&fpfs);
            s.output.fpf = if rng.chance(1, 2) { s.lua51.fpf } else { *rng.pick(&fpfs) };
        }
        if rng.chance(1, 4) {
            s.lua50.stack_limit = *rng.pick(&[250u64, 200, 100, 120, 64]);
            s.output.stack_limit = *rng.pick(&[250u64, 200, 100, 60, 20]);
        }
        if rng.chance(1, 2) {
            let wide = rng.chance(1, 2);
            s.lua50.layout = Layout::random(rng, in_ins as u32 * 8, wide);
            s.lua51.layout = Layout::random(rng, in_ins as u32 * 8, wide);
            s.output.layout = if rng.chance(1, 4) { s.lua51.layout } else { Layout::random(rng, out_ins as u32 * 8, wide) };
            if s.output.layout.total() > out_ins as u32 * 8 {
                s.output.layout = LAYOUT51;
            }
            // Lua 5.0 requires MAXSTACK < 2^SIZE_B
            let nb = s.lua50.layout.field('B').1.min(s.lua50.layout.field('C').1);
            s.lua50.stack_limit = s.lua50.stack_limit.min((1 << nb) - 1);
        }
        s
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Num {
    F(f64),
    I(i64),
}

#[derive(Clone, Debug, PartialEq)]
pub enum K {
    Nil,
    Bool(u8),
    Num(Num),
    Str(Vec<u8>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Func {
    pub source: Vec<u8>,
    pub line_def: i64,
    pub last_line: i64,
    pub nups: u8,
    pub params: u8,
    pub vararg: u8,
    pub maxstack: u8,
    pub code: Vec<u64>,
    pub consts: Vec<K>,
    pub protos: Vec<Func>,
    pub lines: Vec<i64>,
    pub locals: Vec<(Vec<u8>, i64, i64)>,
    pub upnames: Vec<Vec<u8>>,
}

impl Func {
    pub fn empty() -> Func {
        Func {
            source: vec![],
            line_def: 0,
            last_line: 0,
            nups: 0,
            params: 0,
            vararg: 0,
            maxstack: 2,
            code: vec![],
            consts: vec![],
            protos: vec![],
            lines: vec![],
            locals: vec![],
            upnames: vec![],
        }
    }
    pub fn depth(&self) -> usize {
        1 + self.protos.iter().map(|p| p.depth()).max().unwrap_or(0)
    }
    pub fn strip(&mut self) {
        self.lines.clear();
        self.locals.clear();
        self.upnames.clear();
        self.protos.iter_mut().for_each(|p| p.strip());
    }
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a Func)) {
        f(self);
        for p in &self.protos {
            p.walk(f);
        }
    }
    pub fn walk_mut(&mut self, f: &mut dyn FnMut(&mut Func)) {
        f(self);
        for p in &mut self.protos {
            p.walk_mut(f);
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Span {
    Signature,
    Version,
    FormatByte,
    Endian,
    WidthInt,
    WidthSize,
    WidthIns,
    InsFormat,
    WidthNum,
    Integral,
    TestNumber,
    StrLen,
    StrBody,
    LineDef,
    Nups,
    Params,
    Vararg,
    MaxStack,
    Count,
    Word,
    KTag,
    KBool,
    KNum,
    LineNo,
    LocalPc,
}

pub struct Encoder<'a> {
    pub out: Vec<u8>,
    pub spans: Vec<(usize, usize, Span)>,
    pub fmt: Fmt,
    pub ver: Ver,
    consts: &'a Consts,
    /// Set when something did not fit.
    pub clipped: bool,
}

impl<'a> Encoder<'a> {
    fn put(&mut self, bytes: &[u8], span: Span) {
        self.spans.push((self.out.len(), bytes.len(), span));
        self.out.extend_from_slice(bytes);
    }
    fn uint(&mut self, v: u64, width: u8, span: Span) {
        let mut b = v.to_le_bytes()[..width as usize].to_vec();
        if self.fmt.big {
            b.reverse();
        }
        self.put(&b, span);
    }
    fn int(&mut self, v: i64, span: Span) {
        if self.fmt.int == 4 && v != v as i32 as i64 {
            self.clipped = true;
        }
        self.uint(v as u64, self.fmt.int, span);
    }
    fn string(&mut self, s: &[u8]) {
        self.uint(s.len() as u64, self.fmt.size, Span::StrLen);
        self.put(s, Span::StrBody);
    }
    fn number(&mut self, n: Num, span: Span) {
        let bits = match (n, self.fmt.integral, self.fmt.num) {
            (Num::F(x), false, 8) => x.to_bits(),
            (Num::F(x), false, _) => (x as f32).to_bits() as u64,
            (Num::I(x), true, _) => x as u64,
            (Num::F(x), true, _) => x as i64 as u64,
            (Num::I(x), false, 8) => (x as f64).to_bits(),
            (Num::I(x), false, _) => (x as f32).to_bits() as u64,
        };
        self.uint(bits, self.fmt.num, span);
    }

    fn func(&mut self, f: &Func) {
        self.string(&f.source);
        self.int(f.line_def, Span::LineDef);
        if self.ver == Ver::L51 {
            self.int(f.last_line, Span::LineDef);
        }
        self.put(&[f.nups], Span::Nups);
        self.put(&[f.params], Span::Params);
        self.put(&[f.vararg], Span::Vararg);
        self.put(&[f.maxstack], Span::MaxStack);
        match self.ver {
            Ver::L50 => {
                self.debug(f);
                self.constants(f);
                self.protos(f);
                self.code(f);
            }
            Ver::L51 => {
                self.code(f);
                self.constants(f);
                self.protos(f);
                self.debug(f);
            }
        }
    }
    fn code(&mut self, f: &Func) {
        self.int(f.code.len() as i64, Span::Count);
        for &w in &f.code {
            if self.fmt.ins == 4 && w > u32::MAX as u64 {
                self.clipped = true;
            }
            self.uint(w, self.fmt.ins, Span::Word);
        }
    }
    fn constants(&mut self, f: &Func) {
        self.int(f.consts.len() as i64, Span::Count);
        for k in &f.consts {
            match k {
                K::Nil => self.put(&[0], Span::KTag),
                K::Bool(b) => {
                    self.put(&[1], Span::KTag);
                    self.put(&[*b], Span::KBool);
                }
                K::Num(n) => {
                    self.put(&[3], Span::KTag);
                    self.number(*n, Span::KNum);
                }
                K::Str(s) => {
                    self.put(&[4], Span::KTag);
                    self.string(s);
                }
            }
        }
    }
    fn protos(&mut self, f: &Func) {
        self.int(f.protos.len() as i64, Span::Count);
        for p in &f.protos {
            self.func(p);
        }
    }
    fn debug(&mut self, f: &Func) {
        self.int(f.lines.len() as i64, Span::Count);
        for &l in &f.lines {
            self.int(l, Span::LineNo);
        }
        self.int(f.locals.len() as i64, Span::Count);
        for (n, s, e) in &f.locals {
            self.string(n);
            self.int(*s, Span::LocalPc);
            self.int(*e, Span::LocalPc);
        }
        self.int(f.upnames.len() as i64, Span::Count);
        for n in &f.upnames {
            self.string(n);
        }
    }

    pub fn encode(ver: Ver, fmt: Fmt, consts: &'a Consts, f: &Func) -> Encoder<'a> {
        let mut e = Encoder { out: vec![], spans: vec![], fmt, ver, consts, clipped: false };
        e.put(e.consts.sig.as_bytes(), Span::Signature);
        match ver {
            Ver::L50 => {
                e.put(&[0x50], Span::Version);
                e.put(&[!fmt.big as u8], Span::Endian);
                e.put(&[fmt.int], Span::WidthInt);
                e.put(&[fmt.size], Span::WidthSize);
                e.put(&[fmt.ins], Span::WidthIns);
                for c in ['O', 'A', 'B', 'C'] {
                    let n = e.consts.layout.field(c).1 as u8;
                    e.put(&[n], Span::InsFormat);
                }
                e.put(&[fmt.num], Span::WidthNum);
                let test = if fmt.integral { Num::I(31415926) } else { Num::F(31415926.535897932) };
                e.number(test, Span::TestNumber);
            }
            Ver::L51 => {
                e.put(&[0x51], Span::Version);
                e.put(&[fmt.format], Span::FormatByte);
                e.put(&[!fmt.big as u8], Span::Endian);
                e.put(&[fmt.int], Span::WidthInt);
                e.put(&[fmt.size], Span::WidthSize);
                e.put(&[fmt.ins], Span::WidthIns);
                e.put(&[fmt.num], Span::WidthNum);
                e.put(&[fmt.integral as u8], Span::Integral);
            }
        }
        e.func(f);
        e
    }
}

pub fn encode(ver: Ver, fmt: Fmt, consts: &Consts, f: &Func) -> Vec<u8> {
    Encoder::encode(ver, fmt, consts, f).out
}

// ------------------------------------------------------------------ decoder

/// Why reading stopped.
#[derive(Clone, Debug, PartialEq)]
pub enum Bad {
    Signature,
    Version(u8),
    Endian(u8),
    WidthInt(u8),
    WidthSize(u8),
    WidthIns(u8),
    InsFormat([u8; 4]),
    WidthNum(u8),
    Opcode(u64),
    KTag(u8),
    Short,
    Long,
    /// Function nesting deeper than any Lua accepts (200 C levels).
    Deep,
}

#[derive(Clone, Debug)]
pub struct Decoded {
    pub ver: Option<Ver>,
    pub fmt: Fmt,
    pub root: Option<Func>,
    pub bad: Option<Bad>,
    /// Where the first unusable field starts.
    pub at: usize,
    /// A negative count or length precedes `bad` (it has no error of its own).
    pub negative: bool,
    /// Header values with no defined meaning (integral flag above 1, Lua 5.0
    /// test number that fits no interpretation).
    pub ambiguous: bool,
    /// Functions read completely before reading stopped.
    pub completed: Vec<Func>,
    /// Deepest nesting seen.
    pub depth: usize,
}

pub struct Decoder<'a> {
    d: &'a [u8],
    p: usize,
    fmt: Fmt,
    ver: Ver,
    nops: u64,
    layout: Layout,
    negative: bool,
    completed: Vec<Func>,
    at: usize,
    depth: usize,
    max_depth: usize,
}

type R<T> = Result<T, Bad>;

impl<'a> Decoder<'a> {
    fn bytes(&mut self, n: usize) -> R<&'a [u8]> {
        self.at = self.p;
        if n > self.d.len() - self.p {
            return Err(Bad::Short);
        }
        let r = &self.d[self.p..self.p + n];
        self.p += n;
        Ok(r)
    }
    fn byte(&mut self) -> R<u8> {
        Ok(self.bytes(1)?[0])
    }
    fn uint(&mut self, w: u8) -> R<u64> {
        let b = self.bytes(w as usize)?;
        let mut v = 0u64;
        for k in 0..w as usize {
            let byte = if self.fmt.big { b[k] } else { b[w as usize - 1 - k] };
            v = v << 8 | byte as u64;
        }
        Ok(v)
    }
    fn sint(&mut self, w: u8) -> R<i64> {
        let v = self.uint(w)?;
        Ok(if w == 4 { v as u32 as i32 as i64 } else { v as i64 })
    }
    fn int(&mut self) -> R<i64> {
        self.sint(self.fmt.int)
    }
    fn count(&mut self) -> R<u64> {
        let v = self.int()?;
        if v < 0 {
            self.negative = true;
        }
        Ok(v as u64)
    }
    fn string(&mut self) -> R<Vec<u8>> {
        let n = self.sint(self.fmt.size)?;
        if n < 0 || n as u64 > (self.d.len() - self.p) as u64 {
            return Err(Bad::Short);
        }
        Ok(self.bytes(n as usize)?.to_vec())
    }
    fn number(&mut self) -> R<Num> {
        let bits = self.uint(self.fmt.num)?;
        Ok(match (self.fmt.integral, self.fmt.num) {
            (true, 4) => Num::I(bits as u32 as i32 as i64),
            (true, _) => Num::I(bits as i64),
            (false, 4) => Num::F(f32::from_bits(bits as u32) as f64),
            (false, _) => Num::F(f64::from_bits(bits)),
        })
    }
    fn many<T>(&mut self, f: &mut dyn FnMut(&mut Self) -> R<T>) -> R<Vec<T>> {
        let n = self.count()?;
        let mut v = Vec::new();
        for _ in 0..n {
            v.push(f(self)?);
        }
        Ok(v)
    }
    fn code(&mut self) -> R<Vec<u64>> {
        let mut page_follows = false;
        self.many(&mut |d| {
            let w = d.uint(d.fmt.ins)?;
            if page_follows {
                page_follows = false;
                return Ok(w);
            }
            let op = d.layout.get(w, 'O');
            if op >= d.nops {
                return Err(Bad::Opcode(op));
            }
            page_follows = d.ver == Ver::L51 && has_page_word(w, &d.layout);
            Ok(w)
        })
    }
    fn consts(&mut self) -> R<Vec<K>> {
        self.many(&mut |d| {
            let tag = d.byte()?;
            Ok(match tag {
                0 => K::Nil,
                1 => K::Bool(d.byte()?),
                3 => K::Num(d.number()?),
                4 => K::Str(d.string()?),
                x => return Err(Bad::KTag(x)),
            })
        })
    }
    fn func(&mut self) -> R<Func> {
        self.depth += 1;
        self.max_depth = self.max_depth.max(self.depth);
        if self.depth > 1000 {
            return Err(Bad::Deep);
        }
        let mut f = Func::empty();
        f.source = self.string()?;
        f.line_def = self.int()?;
        f.last_line = if self.ver == Ver::L51 { self.int()? } else { f.line_def };
        f.nups = self.byte()?;
        f.params = self.byte()?;
        f.vararg = self.byte()?;
        f.maxstack = self.byte()?;
        if self.ver == Ver::L51 {
            f.code = self.code()?;
            f.consts = self.consts()?;
            f.protos = self.many(&mut |d| d.func())?;
        }
        f.lines = self.many(&mut |d| d.int())?;
        f.locals = self.many(&mut |d| Ok((d.string()?, d.int()?, d.int()?)))?;
        f.upnames = self.many(&mut |d| d.string())?;
        if self.ver == Ver::L50 {
            f.consts = self.consts()?;
            f.protos = self.many(&mut |d| d.func())?;
            f.code = self.code()?;
        }
        self.depth -= 1;
        self.completed.push(f.clone());
        Ok(f)
    }
}

fn width(b: u8, bad: fn(u8) -> Bad) -> R<u8> {
    match b {
        4 | 8 => Ok(b),
        x => Err(bad(x)),
    }
}

pub fn decode(data: &[u8], sets: &Sets) -> Decoded {
    let mut out = Decoded {
        ver: None,
        fmt: Fmt::HOST,
        root: None,
        bad: None,
        at: 0,
        negative: false,
        ambiguous: false,
        completed: vec![],
        depth: 0,
    };
    let sig = [&sets.lua50.sig, &sets.lua51.sig].into_iter().find(|s| data.len() > s.len() && data.starts_with(s.as_bytes()));
    let Some(sig) = sig else {
        out.bad = Some(Bad::Signature);
        return out;
    };
    let mut d = Decoder {
        d: data,
        p: sig.len(),
        fmt: Fmt::HOST,
        ver: Ver::L51,
        nops: 38,
        layout: sets.lua51.layout,
        negative: false,
        completed: vec![],
        at: 0,
        depth: 0,
        max_depth: 0,
    };
    let r = decode_all(&mut d, sets, &mut out);
    match r {
        Ok(f) => {
            if d.p < data.len() {
                out.bad = Some(Bad::Long);
                out.at = d.p;
            }
            out.root = Some(f);
        }
        Err(b) => {
            out.bad = Some(b);
            out.at = d.at;
        }
    }
    out.fmt = d.fmt;
    out.negative = d.negative;
    out.completed = d.completed;
    out.depth = d.max_depth;
    out
}

fn decode_all(d: &mut Decoder, sets: &Sets, out: &mut Decoded) -> R<Func> {
    match d.byte()? {
        0x50 => {
            d.ver = Ver::L50;
            d.nops = 35;
            d.layout = sets.lua50.layout;
        }
        0x51 => {}
        x => return Err(Bad::Version(x)),
    }
    out.ver = Some(d.ver);
    if d.ver == Ver::L51 {
        d.fmt.format = d.byte()?;
    }
    d.fmt.big = match d.byte()? {
        0 => true,
        1 => false,
        x => return Err(Bad::Endian(x)),
    };
    d.fmt.int = width(d.byte()?, Bad::WidthInt)?;
    d.fmt.size = width(d.byte()?, Bad::WidthSize)?;
    d.fmt.ins = width(d.byte()?, Bad::WidthIns)?;
    if d.ver == Ver::L50 {
        let f: [u8; 4] = d.bytes(4)?.try_into().unwrap();
        let l = &sets.lua50.layout;
        if f != ['O', 'A', 'B', 'C'].map(|c| l.field(c).1 as u8) {
            return Err(Bad::InsFormat(f));
        }
    }
    d.fmt.num = width(d.byte()?, Bad::WidthNum)?;
    match d.ver {
        Ver::L51 => {
            let b = d.byte()?;
            d.fmt.integral = b == 1;
            out.ambiguous = b > 1;
        }
        Ver::L50 => {
            let bits = d.uint(d.fmt.num)?;
            let (f, i) = if d.fmt.num == 4 { (f32::from_bits(bits as u32) as f64, bits) } else { (f64::from_bits(bits), bits) };
            let float = f.trunc() == 31415926.0;
            let exact = if d.fmt.num == 4 { f == 31415926.0 } else { (f - 31415926.535897932).abs() < 1e-6 };
            d.fmt.integral = !float;
            out.ambiguous = !(exact || i == 31415926);
        }
    }
    d.func()
}

// --------------------------------------------------------------- operands

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Use {
    /// Not read by any Lua machine.
    No,
    /// Register or plain number.
    Yes,
    /// Register or constant.
    RK,
    /// A hint that may be dropped.
    Hint,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Shape {
    Abc(Use, Use, Use),
    Abx,
    /// The flag: A is used.
    AsBx(bool),
}

pub const NAMES51: [&str; 38] = [
    "MOVE", "LOADK", "LOADBOOL", "LOADNIL", "GETUPVAL", "GETGLOBAL", "GETTABLE", "SETGLOBAL", "SETUPVAL", "SETTABLE", "NEWTABLE", "SELF",
    "ADD", "SUB", "MUL", "DIV", "MOD", "POW", "UNM", "NOT", "LEN", "CONCAT", "JMP", "EQ", "LT", "LE", "TEST", "TESTSET", "CALL",
    "TAILCALL", "RETURN", "FORLOOP", "FORPREP", "TFORLOOP", "SETLIST", "CLOSE", "CLOSURE", "VARARG",
];
pub const NAMES50: [&str; 35] = [
    "MOVE", "LOADK", "LOADBOOL", "LOADNIL", "GETUPVAL", "GETGLOBAL", "GETTABLE", "SETGLOBAL", "SETUPVAL", "SETTABLE", "NEWTABLE", "SELF",
    "ADD", "SUB", "MUL", "DIV", "POW", "UNM", "NOT", "CONCAT", "JMP", "EQ", "LT", "LE", "TEST", "CALL", "TAILCALL", "RETURN", "FORLOOP",
    "TFORLOOP", "TFORPREP", "SETLIST", "SETLISTO", "CLOSE", "CLOSURE",
];

pub fn op51(name: &str) -> u64 {
    NAMES51.iter().position(|n| *n == name).unwrap_or_else(|| panic!("harness: {name}")) as u64
}
pub fn op50(name: &str) -> u64 {
    NAMES50.iter().position(|n| *n == name).unwrap_or_else(|| panic!("harness: {name}")) as u64
}

pub fn shape(name: &str) -> Shape {
    use Shape::*;
    use Use::*;
    match name {
        "MOVE" | "LOADNIL" | "GETUPVAL" | "SETUPVAL" | "UNM" | "NOT" | "LEN" | "RETURN" | "VARARG" => Abc(Yes, Yes, No),
        "LOADK" | "GETGLOBAL" | "SETGLOBAL" | "CLOSURE" | "SETLISTO" => Abx,
        "LOADBOOL" | "CONCAT" | "CALL" | "TAILCALL" | "TESTSET" | "SETLIST" => Abc(Yes, Yes, Yes),
        "GETTABLE" | "SELF" => Abc(Yes, Yes, RK),
        "SETTABLE" | "ADD" | "SUB" | "MUL" | "DIV" | "MOD" | "POW" | "EQ" | "LT" | "LE" => Abc(Yes, RK, RK),
        "NEWTABLE" => Abc(Yes, Hint, Hint),
        "JMP" => AsBx(false),
        "FORLOOP" | "FORPREP" | "TFORPREP" => AsBx(true),
        "TEST" | "TFORLOOP" => Abc(Yes, No, Yes),
        "CLOSE" => Abc(Yes, No, No),
        _ => panic!("harness: {name}"),
    }
}

/// A Lua 5.1 SETLIST whose page is in the following word.
pub fn has_page_word(w: u64, l: &Layout) -> bool {
    l.get(w, 'O') == op51("SETLIST") && l.get(w, 'C') == 0
}

/// The instructions among the words, by index (page words are not).
pub fn instructions(code: &[u64], ver: Ver, l: &Layout) -> Vec<(usize, u64)> {
    let mut v = Vec::new();
    let mut pc = 0;
    while pc < code.len() {
        v.push((pc, code[pc]));
        pc += 1 + (ver == Ver::L51 && has_page_word(code[pc], l)) as usize;
    }
    v
}

/// Result of re-encoding one Lua 5.1 word.
pub struct Recoded {
    /// Operands as (which, value) that must be found in the output word.
    pub must: Vec<(char, i64)>,
    /// A used operand does not fit.
    pub refuse: bool,
    /// An operand that no machine reads does not fit: refusing is allowed.
    pub may_refuse: bool,
}

/// Operand value of an RK field: (index, is constant).
fn rk(v: u64, bit: u64) -> (u64, bool) {
    (v & !bit, v & bit != 0)
}

/// What the word `w` (Lua 5.1, layout `from`) must become in layout `to`.
pub fn recode51(w: u64, from: &Layout, to: &Layout) -> Recoded {
    let op = from.get(w, 'O');
    let name = NAMES51[op as usize];
    let mut r = Recoded { must: vec![('O', op as i64)], refuse: false, may_refuse: false };
    let fits = |v: u64, n: u32| n >= 64 || v < 1 << n;
    let a = from.get(w, 'A');
    let a_used = !matches!(shape(name), Shape::AsBx(false));
    if !fits(a, to.field('A').1) {
        if a_used {
            r.refuse = true
        } else {
            r.may_refuse = true
        }
    } else if a_used {
        r.must.push(('A', a as i64));
    }
    match shape(name) {
        Shape::Abx => {
            let v = from.get_bx(w);
            if fits(v, to.bx().1) {
                r.must.push(('X', v as i64));
            } else {
                r.refuse = true;
            }
        }
        Shape::AsBx(_) => {
            let v = from.get_bx(w) as i64 - from.bias();
            let raw = v + to.bias();
            if raw >= 0 && fits(raw as u64, to.bx().1) {
                r.must.push(('S', v));
            } else {
                r.refuse = true;
            }
        }
        Shape::Abc(_, ub, uc) => {
            for (which, u) in [('B', ub), ('C', uc)] {
                let v = from.get(w, which);
                let n = to.field(which).1;
                match u {
                    Use::RK => {
                        let (index, k) = rk(v, from.bitrk());
                        let raw = if k { index | to.bitrk() } else { index };
                        if index >= to.bitrk() || !fits(raw, n) {
                            r.refuse = true;
                        } else {
                            r.must.push((which, raw as i64));
                        }
                    }
                    // No machine has this many registers; read as a constant.
                    Use::Yes if name == "TESTSET" && which == 'B' && (v >= from.bitrk() || v >= to.bitrk()) => r.may_refuse = true,
                    Use::Yes => {
                        if fits(v, n) {
                            r.must.push((which, v as i64));
                        } else {
                            r.refuse = true;
                        }
                    }
                    Use::No | Use::Hint => {
                        let (index, k) = rk(v, from.bitrk());
                        let raw = if k { index | to.bitrk() } else { index };
                        if !fits(v, n) || !fits(raw, n) || index >= to.bitrk() {
                            r.may_refuse = true;
                        }
                    }
                }
            }
        }
    }
    r
}

pub fn matches(w: u64, to: &Layout, must: &[(char, i64)]) -> bool {
    must.iter().all(|&(c, v)| {
        v == match c {
            'X' => to.get_bx(w) as i64,
            'S' => to.get_bx(w) as i64 - to.bias(),
            c => to.get(w, c) as i64,
        }
    })
}

pub fn show51(w: u64, l: &Layout) -> String {
    let op = l.get(w, 'O') as usize;
    let Some(name) = NAMES51.get(op) else { return format!("op{op}") };
    show(name, w, l)
}

pub fn show50(w: u64, l: &Layout) -> String {
    let op = l.get(w, 'O') as usize;
    let Some(name) = NAMES50.get(op) else { return format!("op{op}") };
    if *name == "SETLIST" {
        return format!("SETLIST {} {}", l.get(w, 'A'), l.get_bx(w));
    }
    show(name, w, l)
}

fn show(name: &str, w: u64, l: &Layout) -> String {
    match shape(name) {
        Shape::Abc(..) => format!("{name} {} {} {}", l.get(w, 'A'), l.get(w, 'B'), l.get(w, 'C')),
        Shape::Abx => format!("{name} {} {}", l.get(w, 'A'), l.get_bx(w)),
        Shape::AsBx(_) => format!("{name} {} {}", l.get(w, 'A'), l.get_bx(w) as i64 - l.bias()),
    }
}
