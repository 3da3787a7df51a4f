//! Random Lua programs as source text. Everything a program does to the
//! outside goes through host functions (see vm/host.c). Programs of one run
//! share no state with each other: their global names differ.

use crate::rng::Rng;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ty {
    Num,
    Str,
    Tab,
    Fun,
    Any,
}
use Ty::*;

/// How a function gets at its additional arguments.
#[derive(Clone, Copy, PartialEq)]
enum Extra {
    No,
    Dots,
    Arg,
}

#[derive(Clone)]
struct Var {
    name: String,
    ty: Ty,
    /// Loop counters and limits are not assigned to.
    fixed: bool,
}

pub struct Options {
    pub v50: bool,
    /// Only whole, small, non-negative literals (integral number formats).
    pub integers: bool,
    /// Flush sizes whose multiples are interesting item counts.
    pub flush: Vec<u64>,
    pub prefix: char,
    pub tasks: bool,
    pub size: i32,
    /// A table of more batches than the operand of an instruction can count.
    pub vast: bool,
}

struct G<'a> {
    r: &'a mut Rng,
    o: &'a Options,
    out: String,
    indent: usize,
    vars: Vec<Var>,
    globals: Vec<Var>,
    next: usize,
    budget: i32,
    /// Enclosing functions: (additional arguments, innermost loop depth)
    functions: Vec<(Extra, u32)>,
    loops: u32,
    /// Number of large constructors still allowed.
    large: u32,
    /// One declaration of many locals and one of many constants are allowed.
    wide: bool,
    many: bool,
    huge: bool,
}

const FIELDS: [&str; 6] = ["x", "y", "n", "key", "f", "val"];

impl<'a> G<'a> {
    fn ch(&mut self, n: u64, d: u64) -> bool {
        self.r.chance(n, d)
    }

    fn line(&mut self, text: &str) {
        for _ in 0..self.indent {
            self.out.push(' ');
        }
        self.out.push_str(text);
        self.out.push('\n');
    }

    fn fresh(&mut self, base: &str) -> String {
        self.next += 1;
        format!("{base}{}", self.next)
    }

    /// Whether `arg` is the additional arguments of this function, or of the
    /// innermost one around it that has any.
    fn has_arg(&self) -> bool {
        matches!(self.functions.iter().rev().find(|f| f.0 != Extra::No), Some((Extra::Arg, _)))
    }

    fn has_dots(&self) -> bool {
        self.functions.last().unwrap().0 == Extra::Dots
    }

    fn var(&mut self, ty: Ty) -> Option<String> {
        let all: Vec<String> = self.vars.iter().rev().take(40).chain(self.globals.iter()).filter(|v| v.ty == ty).map(|v| v.name.clone()).collect();
        if all.is_empty() {
            return None;
        }
        // The most recent ones are the most interesting ones.
        let k = if self.ch(1, 2) { self.r.usize(all.len().min(4)) } else { self.r.usize(all.len()) };
        Some(all[k].clone())
    }

    // ------------------------------------------------------------ expressions

    fn literal_number(&mut self) -> String {
        let n = if self.ch(1, 10) { self.r.below(1000) } else { self.r.below(14) };
        if self.o.integers || self.ch(3, 4) {
            n.to_string()
        } else {
            format!("{n}.{}", ["25", "5", "75"][self.r.usize(3)])
        }
    }

    fn literal_string(&mut self) -> String {
        match self.r.below(24) {
            // What the conversion itself looks for and invents.
            4 => self.r.pick(&["'type'", "'type\\0'", "'next'", "'table'", "'table\\0'", "'Type'", "'TYPE'", "'NEXT'", "'Next'", "'Table'", "'typ'", "'nexts'", "'a long string constant, first'", "'a long string constant, fIrst'", "'a long string Constant, first'"]).to_string(),
            5 => format!("'__%lunify%__temp{}_{}'", self.r.below(12), self.r.below(2)),
            0 => "\"\"".into(),
            1 => "'\\0z'".into(),
            2 => "'\\200\\255'".into(),
            3 => "'it\\ns'".into(),
            _ => format!("'s{}'", self.r.below(300)),
        }
    }

    fn num(&mut self, d: u32) -> String {
        if d == 0 || self.ch(1, 4) {
            if self.ch(1, 2) {
                if let Some(v) = self.var(Num) {
                    return v;
                }
            }
            if self.has_arg() && self.ch(1, 8) {
                // Lua 5.0 counts them, the conversion doesn't (a known finding).
                return if self.o.v50 || self.ch(1, 2) { format!("N(arg[{}])", 1 + self.r.below(4)) } else { "arg.n".into() };
            }
            return self.literal_number();
        }
        match self.r.below(10) {
            0..=3 => {
                let ops: &[&str] = if self.o.v50 { &["+", "-", "*", "+"] } else { &["+", "-", "*", "%", "+"] };
                let op = self.r.pick(ops).to_string();
                let (a, b) = (self.num(d - 1), self.num(d - 1));
                if op == "%" && self.ch(1, 2) {
                    return if self.ch(1, 2) { format!("({a} % 7)") } else { format!("(7 % {b})") };
                }
                format!("({a} {op} {b})")
            }
            4 => format!("(-{})", self.num(d - 1)),
            5 if !self.o.integers => format!("({} / 4)", self.num(d - 1)),
            6 if !self.o.v50 => format!("#{}", self.paren_str(d - 1)),
            7 => format!("({} and {} or {})", self.boolean(d - 1), self.num(d - 1), self.num(d - 1)),
            _ => format!("N({})", self.any(d - 1)),
        }
    }

    fn paren_str(&mut self, d: u32) -> String {
        format!("({})", self.string(d))
    }

    fn string(&mut self, d: u32) -> String {
        if d == 0 || self.ch(1, 3) {
            if self.ch(1, 2) {
                if let Some(v) = self.var(Str) {
                    return v;
                }
            }
            return self.literal_string();
        }
        match self.r.below(5) {
            0 => {
                let mut t = self.string(d - 1);
                for _ in 0..1 + self.r.below(4) {
                    let x = if self.ch(1, 2) { self.string(d - 1) } else { self.num(d - 1) };
                    t = format!("{t} .. {x}");
                }
                format!("({t})")
            }
            1 => format!("type({})", self.any(d - 1)),
            2 => format!("({} and {} or {})", self.boolean(d - 1), self.string(d - 1), self.string(d - 1)),
            _ => format!("S({})", self.any(d - 1)),
        }
    }

    fn boolean(&mut self, d: u32) -> String {
        if d == 0 {
            return match self.r.below(4) {
                0 => "true".into(),
                1 => "false".into(),
                2 => format!("{} == {}", self.num(0), self.num(0)),
                _ => format!("{} < {}", self.num(0), self.num(0)),
            };
        }
        match self.r.below(9) {
            0 => "true".into(),
            1 => "false".into(),
            2 => format!("not {}", self.any(d - 1)),
            3 => format!("({} and {})", self.boolean(d - 1), self.boolean(d - 1)),
            4 => format!("({} or {})", self.boolean(d - 1), self.boolean(d - 1)),
            5 => {
                let op = *self.r.pick(&["<", "<=", ">", ">="]);
                format!("({} {op} {})", self.num(d - 1), self.num(d - 1))
            }
            6 => {
                let op = *self.r.pick(&["<", "<=", ">", ">="]);
                format!("({} {op} {})", self.string(d - 1), self.string(d - 1))
            }
            _ => {
                let op = *self.r.pick(&["==", "~="]);
                format!("({} {op} {})", self.any(d - 1), self.any(d - 1))
            }
        }
    }

    fn prefix(&mut self, d: u32) -> String {
        // something that can be indexed
        if let Some(v) = self.var(Tab) {
            return v;
        }
        format!("({})", self.tab(d.saturating_sub(1)))
    }

    fn args(&mut self, d: u32) -> String {
        let n = self.r.weighted(&[2, 4, 3, 2, 1]);
        let mut v: Vec<String> = (0..n).map(|_| self.any(d)).collect();
        if self.ch(1, 5) {
            v.push(self.open(d));
        }
        v.join(", ")
    }

    /// A call or vararg expression (any number of values).
    fn open(&mut self, d: u32) -> String {
        let d = d.saturating_sub(1);
        match self.r.below(10) {
            0 | 1 if self.has_dots() => "...".into(),
            0 | 1 if self.has_arg() => format!("unpack(arg, {})", self.r.below(5)),
            2 => {
                let most = if self.ch(1, 6) { 20 } else { 5 };
                let n = self.r.below(most);
                format!("unpack({}, {n})", self.prefix(d))
            }
            3 if self.o.tasks => format!("yield({})", self.args(d.min(1))),
            4 => match self.var(Fun) {
                Some(f) => format!("pcall({f}, {})", self.any(d)),
                None => format!("pcall(ask, {})", self.any(d)),
            },
            5 => match self.var(Fun) {
                Some(f) => format!("call({f}, {})", self.any(d)),
                None => format!("call(ask, {})", self.any(d)),
            },
            6 | 7 => match self.var(Fun) {
                Some(f) => format!("{f}({})", self.args(d)),
                None => format!("ask({})", self.args(d)),
            },
            _ => format!("ask({})", self.args(d)),
        }
    }

    fn any(&mut self, d: u32) -> String {
        if d == 0 {
            return match self.r.below(8) {
                0 => "nil".into(),
                1 => "true".into(),
                2 => "false".into(),
                3 => self.string(0),
                4 | 5 => self.num(0),
                _ => {
                    let ty = *self.r.pick(&[Num, Str, Any, Any, Tab]);
                    self.var(ty).unwrap_or_else(|| "nil".into())
                }
            };
        }
        match self.r.weighted(&[2, 5, 4, 3, 2, 3, 3, 3, 2, 2, 1]) {
            0 => "nil".into(),
            1 => self.num(d),
            2 => self.string(d),
            3 => self.boolean(d),
            4 => self.tab(d - 1),
            5 => {
                let ty = *self.r.pick(&[Num, Str, Any, Any, Tab, Fun]);
                self.var(ty).unwrap_or_else(|| "nil".into())
            }
            6 => self.open(d),
            7 => format!("({} and {})", self.any(d - 1), self.any(d - 1)),
            8 => format!("({} or {})", self.any(d - 1), self.any(d - 1)),
            9 => {
                let t = self.prefix(d);
                match self.r.below(3) {
                    0 => format!("{t}.{}", self.r.pick(&FIELDS)),
                    1 => format!("{t}[{}]", self.num(d - 1)),
                    _ => format!("{t}[{}]", self.string(d - 1)),
                }
            }
            _ => {
                if self.budget > 0 {
                    self.closure(d - 1)
                } else {
                    "nil".into()
                }
            }
        }
    }

    fn tab(&mut self, d: u32) -> String {
        if self.ch(1, 5) {
            if let Some(v) = self.var(Tab) {
                return v;
            }
        }
        if d > 0 && self.ch(1, 12) {
            return format!("({} and {} or {})", self.boolean(d - 1), self.tab(d - 1), self.tab(d - 1));
        }
        self.constructor(d)
    }

    /// A table constructor; item counts favour multiples of the flush sizes.
    fn constructor(&mut self, d: u32) -> String {
        let mut n = self.r.weighted(&[2, 3, 4, 3, 2, 1]) as u64;
        let mut boundary = 0;
        if self.large > 0 && self.ch(2, 3) {
            let f = *self.r.pick(&self.o.flush);
            let max = (140 / f).clamp(1, 6);
            n = f * (1 + self.r.below(max)) + self.r.below(4);
            n = n.saturating_sub(self.r.below(3));
            boundary = f;
            self.large -= 1;
        }
        if self.large > 0 && self.huge && self.ch(1, 150) {
            // More batches than an operand can count, if they are small.
            n = 480 + self.r.below(140);
            self.huge = false;
        } else if self.o.vast && self.huge && self.ch(1, 2) {
            // Around what the operand of the usual layout can count.
            let f = self.o.flush[0];
            n = f * (508 + self.r.below(6)) + self.r.below(2 * f + 1);
            self.huge = false;
        }
        let mut items = Vec::new();
        let split = self.ch(1, 3);
        for k in 0..n {
            let near = boundary > 0 && (k + 2) % boundary <= 3;
            let complex = d > 0 && if n > 12 { if near { self.ch(2, 5) } else { self.ch(1, 20) } } else { self.ch(1, 2) };
            let item = if complex {
                self.any(d - 1 + (d == 1 && self.large > 0) as u32)
            } else {
                match self.r.below(12) {
                    0 => "nil".into(),
                    1 if d > 0 => self.open(1),
                    2 => self.string(0),
                    3 => {
                        let ty = *self.r.pick(&[Num, Str, Any]);
                        self.var(ty).unwrap_or_else(|| "nil".into())
                    }
                    4 => "nil, nil, nil".into(),
                    // Filled after it was put on the stack.
                    5 if near || self.ch(1, 4) => format!("{{{}}}", self.keyed(0)),
                    _ => self.literal_number(),
                }
            };
            items.push(item);
            if near && d > 0 && self.ch(1, 6) {
                // A condition whose last jump passes the end of the item.
                let end = match self.r.below(3) {
                    0 => self.constructor(0),
                    1 => format!("ask({})", self.args(1)),
                    _ => self.any(1),
                };
                let (c, first) = (self.boolean(1), self.any(1));
                items.push(match self.r.below(3) {
                    0 => format!("{c} or {end}"),
                    1 => format!("{first} and {end}"),
                    _ => format!("{c} and {first} or {end}"),
                });
                let word = *self.r.pick(&["false and", "nil and", "true or", "nil or", "1 and"]);
                let rest = self.any(1);
                items.push(format!("{word} {rest}"));
            }
            if self.ch(1, if n > 12 { 25 } else { 6 }) {
                let item = self.keyed(d);
                items.push(item);
            }
        }
        if n == 0 && self.ch(2, 3) {
            for _ in 0..1 + self.r.below(3) {
                let item = self.keyed(d);
                items.push(item);
            }
        }
        if self.ch(1, 5) {
            items.push(self.open(d));
        }
        let mut t = String::from("{");
        for (k, item) in items.iter().enumerate() {
            if k > 0 {
                t.push_str(if split && self.ch(1, 5) { ",\n" } else { ", " });
            }
            t.push_str(item);
        }
        if !items.is_empty() && self.ch(1, 8) {
            t.push(';');
        }
        t.push('}');
        t
    }

    /// An item with a key that no item without one has.
    fn keyed(&mut self, d: u32) -> String {
        let e = if d > 0 { self.any(d - 1) } else { self.any(0) };
        let f = self.r.below(6);
        match self.r.below(3) {
            0 => format!("[{}] = {e}", 2000 + f),
            1 => format!("['k{f}'] = {e}"),
            _ => format!("{} = {e}", FIELDS[f as usize]),
        }
    }

    /// A function expression, `function(...) body end` on several lines.
    fn closure(&mut self, d: u32) -> String {
        let (head, body) = self.function_parts(d);
        format!("function{head}\n{body}end")
    }

    /// ("(a, b)", body text)
    fn function_parts(&mut self, _d: u32) -> (String, String) {
        let mut n = self.r.weighted(&[2, 3, 3, 1]) as u64;
        if self.ch(1, 60) {
            n = 10 + self.r.below(80);
        }
        let extra = match self.ch(1, 4) {
            false => Extra::No,
            true if self.o.v50 || self.ch(1, 5) => Extra::Arg,
            true => Extra::Dots,
        };
        let saved = self.vars.len();
        let mut params = Vec::new();
        for _ in 0..n {
            let p = self.fresh("p");
            params.push(p.clone());
            self.vars.push(Var { name: p, ty: Any, fixed: false });
        }
        if extra != Extra::No {
            params.push("...".into());
        }
        self.functions.push((extra, 0));
        let loops = self.loops;
        self.loops = loops.min(1);
        let text = std::mem::take(&mut self.out);
        self.indent += 1;
        let count = 1 + self.r.below(3);
        self.block_statements(count, true);
        self.indent -= 1;
        let body = std::mem::replace(&mut self.out, text);
        self.loops = loops;
        self.functions.pop();
        self.vars.truncate(saved);
        (format!("({})", params.join(", ")), body)
    }

    // ------------------------------------------------------------ statements

    fn block_statements(&mut self, count: u64, function: bool) {
        for _ in 0..count {
            self.statement();
        }
        if function && self.ch(3, 5) {
            let d = 2;
            let t = match self.r.below(5) {
                0 => "return".into(),
                1 | 2 => format!("return {}", self.any(d)),
                3 => format!("return {}", self.open(d)),
                _ => format!("return {}, {}", self.any(d), self.any(1)),
            };
            self.line(&t);
        }
    }

    fn block(&mut self, count: u64) {
        let saved = self.vars.len();
        self.indent += 1;
        self.block_statements(count, false);
        self.indent -= 1;
        self.vars.truncate(saved);
    }

    fn body_count(&mut self) -> u64 {
        1 + self.r.below(3)
    }

    fn loop_block(&mut self) {
        let count = self.body_count();
        self.loops += 1;
        self.functions.last_mut().unwrap().1 += 1;
        let saved = self.vars.len();
        self.indent += 1;
        self.block_statements(count, false);
        if self.ch(1, 5) {
            let c = self.boolean(1);
            self.line(&format!("if {c} then break end"));
        } else if self.ch(1, 10) {
            let c = self.boolean(1);
            let e = self.any(1);
            self.line(&format!("if {c} then return {e} end"));
        }
        self.indent -= 1;
        self.vars.truncate(saved);
        self.functions.last_mut().unwrap().1 -= 1;
        self.loops -= 1;
    }

    fn typed(&mut self, d: u32) -> (String, Ty) {
        match self.r.weighted(&[3, 2, 3, 2, 3]) {
            0 => (self.num(d), Num),
            1 => (self.string(d), Str),
            2 => (self.tab(d), Tab),
            3 if self.budget > 0 => (self.closure(d), Fun),
            _ => (self.any(d), Any),
        }
    }

    fn declare(&mut self, name: String, ty: Ty) {
        self.vars.push(Var { name, ty, fixed: false });
    }

    fn statement(&mut self) {
        self.budget -= 1;
        if self.budget < 0 {
            let e = self.any(1);
            self.line(&format!("emit({e})"));
            return;
        }
        let nested = self.loops < 2 && self.indent < 6;
        if self.ch(1, 40) {
            return self.unusual();
        }
        match self.r.weighted(&[9, 7, 4, 3, if nested { 8 } else { 0 }, 3, 3, 2, 2, if self.o.tasks { 2 } else { 0 }, 2]) {
            0 => {
                let mut v = vec![self.any(3)];
                if self.ch(1, 3) {
                    v.push(self.any(2));
                }
                if self.ch(1, 4) {
                    v.push(self.open(2));
                }
                let f = *self.r.pick(&["emit", "emit", "emit", "ask", "yield"]);
                let f = if f == "yield" && !self.o.tasks { "emit" } else { f };
                self.line(&format!("{f}({})", v.join(", ")));
            }
            1 => match self.r.below(6) {
                0 => {
                    // several at once, from one call
                    let (a, b, c) = (self.fresh("a"), self.fresh("a"), self.fresh("a"));
                    let e = self.open(2);
                    self.line(&format!("local {a}, {b}, {c} = {e}"));
                    for n in [a, b, c] {
                        self.declare(n, Any);
                    }
                }
                1 => {
                    let (a, b) = (self.fresh("u"), self.fresh("u"));
                    let n = *self.r.pick(&["", " = nil", " = nil, nil"]);
                    self.line(&format!("local {a}, {b}{n}"));
                    self.declare(a, Any);
                    self.declare(b, Any);
                }
                2 => {
                    let (e, t) = self.typed(3);
                    let (f, u) = self.typed(2);
                    let (a, b) = (self.fresh("v"), self.fresh("v"));
                    self.line(&format!("local {a}, {b} = {e}, {f}"));
                    self.declare(a, t);
                    self.declare(b, u);
                }
                _ => {
                    let (e, t) = self.typed(3);
                    let a = self.fresh("v");
                    self.line(&format!("local {a} = {e}"));
                    self.declare(a, t);
                }
            },
            2 => self.assignment(),
            3 => {
                // function definition
                let name = self.fresh("f");
                let kind = self.r.below(4);
                if kind == 0 {
                    let (head, body) = self.function_parts(2);
                    let g = format!("{}g{}", self.o.prefix.to_ascii_lowercase(), self.next);
                    self.line(&format!("function {g}{head}"));
                    self.out.push_str(&body);
                    self.line("end");
                    self.globals.push(Var { name: g, ty: Fun, fixed: false });
                } else if kind == 1 && self.var(Tab).is_some() {
                    let t = self.var(Tab).unwrap();
                    let (head, body) = self.function_parts(2);
                    self.line(&format!("function {t}:m{head}"));
                    self.out.push_str(&body);
                    self.line("end");
                    let a = self.args(1);
                    self.line(&format!("emit({t}:m({a}))"));
                } else {
                    let (head, body) = self.function_parts(2);
                    self.line(&format!("local function {name}{head}"));
                    self.out.push_str(&body);
                    self.line("end");
                    self.declare(name, Fun);
                }
            }
            4 => self.loop_statement(),
            5 => {
                let c = self.boolean(2);
                self.line(&format!("if {c} then"));
                let n = self.body_count();
                self.block(n);
                for _ in 0..self.r.below(2) {
                    let c = self.boolean(2);
                    self.line(&format!("elseif {c} then"));
                    let n = self.body_count();
                    self.block(n);
                }
                if self.ch(1, 2) {
                    self.line("else");
                    let n = self.body_count();
                    self.block(n);
                }
                self.line("end");
            }
            6 => match self.var(Fun) {
                Some(f) => {
                    let a = self.args(2);
                    let h = *self.r.pick(&["emit", "emit", "ask"]);
                    self.line(&format!("{h}({f}({a}))"));
                }
                None => {
                    let e = self.open(2);
                    self.line(&format!("emit({e})"));
                }
            },
            7 => {
                self.line("do");
                let n = self.body_count();
                self.block(n);
                self.line("end");
            }
            8 => {
                // errors, caught more often than not
                let e = self.any(2);
                let a = self.any(1);
                match self.r.below(6) {
                    0 if self.indent > 0 => {
                        let c = self.boolean(1);
                        self.line(&format!("if {c} then error({e}) end"));
                    }
                    1 => {
                        let c = self.any(2);
                        self.line(&format!("emit(pcall(function(q) local w = {e} return w + q, {c} end, {a}))"))
                    }
                    2 => self.line(&format!("emit(pcall(function(q) return q.x.y.z, {e} end, {a}))")),
                    3 => self.line(&format!("emit(pcall(function(q) return q .. {e} end, {a}))")),
                    4 => self.line(&format!("emit(pcall(function(q) return q < {e} end, {a}))")),
                    _ => self.line(&format!("emit(pcall(error, {e}))")),
                }
            }
            9 => {
                let f = match self.var(Fun) {
                    Some(f) if self.ch(1, 2) => f,
                    _ => self.closure(2),
                };
                let e = self.any(1);
                self.line(&format!("spawn({f}, {e})"));
            }
            _ => {
                // metatables
                let n = self.fresh("t");
                let which = *self.r.pick(&["__index", "__call", "__add", "__concat", "__lt", "__eq", "__unm", "__newindex"]);
                let f = if which == "__index" && self.ch(1, 2) { self.tab(1) } else { "function(p, q) emit('meta', type(p), type(q)) return N(q) end".into() };
                let e = self.tab(1);
                self.line(&format!("local {n} = setmetatable({{{e}}}, {{{which} = {f}}})"));
                let a = self.num(1);
                match which {
                    "__call" => self.line(&format!("emit({n}({a}))")),
                    "__add" => self.line(&format!("emit({n} + {a}, {a} + {n})")),
                    "__concat" => self.line(&format!("emit('c' .. {n}, {a} .. {n} .. 'd')")),
                    "__lt" => self.line(&format!("emit({n} < {n}, {n} >= {n})")),
                    "__eq" => self.line(&format!("emit({n} == {n}, {n} ~= {a})")),
                    "__unm" => self.line(&format!("emit(-{n})")),
                    "__newindex" => self.line(&format!("{n}.q = {a}")),
                    _ => self.line(&format!("emit({n}.val, {n}[{a}])")),
                }
            }
        }
    }

    /// What needs many registers, many constants or many frames.
    fn unusual(&mut self) {
        match self.r.below(5) {
            4 => self.captures(),
            0 if self.wide => {
                self.wide = false;
                let most = if self.ch(1, 3) { 120 } else { 40 };
                let n = 10 + self.r.below(most);
                let names: Vec<String> = (0..n).map(|_| self.fresh("w")).collect();
                let e = if self.ch(1, 2) { self.open(1) } else { (0..n).map(|_| self.any(0)).collect::<Vec<_>>().join(", ") };
                self.line(&format!("local {} = {e}", names.join(", ")));
                for name in names {
                    self.declare(name, Any);
                }
            }
            1 if self.many => {
                self.many = false;
                let most = if self.ch(1, 4) { 600 } else { 200 };
                let n = 100 + self.r.below(most);
                let at = self.r.below(n);
                for k in (0..n).step_by(20) {
                    let t: Vec<String> = (k..n.min(k + 20)).map(|k| format!("'q{k}'")).collect();
                    let open = if at / 20 == k / 20 { format!(", {}", self.open(1)) } else { String::new() };
                    self.line(&format!("ask({}{open})", t.join(", ")));
                }
            }
            2 => {
                // recursion, with and without tail calls
                let f = self.fresh("r");
                let depth = if self.ch(1, 10) { 40 + self.r.below(200) } else { 1 + self.r.below(6) };
                let e = self.any(1);
                let (params, rest) = if self.o.v50 { ("n, a", "a") } else { ("n, a, ...", "a, ...") };
                self.line(&format!("local function {f}({params})"));
                self.indent += 1;
                self.line(&format!("if n < 1 then return {rest} end"));
                match self.r.below(4) {
                    0 => self.line(&format!("return {f}(n - 1, {e})")),
                    1 => self.line(&format!("return n, {f}(n - 1, {rest})")),
                    2 => self.line(&format!("for i = 1, 2 do if i == 2 then return {f}(n - 1, {rest}) end end")),
                    _ => self.line(&format!("for k, v in next, {{n}} do return {f}(v - 1, k) end")),
                }
                self.indent -= 1;
                self.line("end");
                self.line(&format!("emit({f}({depth}, 1))"));
            }
            _ => {
                // deep nesting of blocks and conditions
                let n = 3 + self.r.below(8);
                let v = self.fresh("d");
                self.line(&format!("local {v} = 0"));
                for _ in 0..n {
                    let w = match self.r.below(3) {
                        0 => format!("if {} then", self.boolean(1)),
                        1 => "do".to_string(),
                        _ => format!("for i = {v}, {v} do"),
                    };
                    self.line(&w);
                    self.indent += 1;
                    let e = self.num(1);
                    self.line(&format!("{v} = {v} + 1 + {e} * 0"));
                }
                self.line(&format!("emit({v})"));
                for _ in 0..n {
                    self.indent -= 1;
                    self.line("end");
                }
            }
        }
    }

    /// Closures that keep the variables of a loop and are called after it.
    fn captures(&mut self) {
        let (f, keep, u) = (self.fresh("f"), self.fresh("h"), self.fresh("u"));
        let (e, e2) = (self.any(1), self.any(1));
        self.line(&format!("local {u} = {e}"));
        self.line(&format!("local function {f}(a, b)"));
        self.indent += 1;
        self.line(&format!("local c, {keep} = 0, {{}}"));
        let n = 1 + self.r.usize(3);
        let names: Vec<String> = (0..n).map(|_| self.fresh("k")).collect();
        let count = self.r.below(4);
        let head = match self.r.below(6) {
            0 => format!("for {} = 1, {count} do", names[0]),
            1 => format!("for {} in next, {{{e2}, a, x = b}} do", names.join(", ")),
            2 => format!("for {} in iter({count}), a, b do", names.join(", ")),
            3 => format!("local {0} = 0 while {0} < {count} do local {1} = {0} {0} = {0} + 1", names[0], names.last().unwrap().clone() + "x"),
            _ => format!("for {} in iter({count}) do", names.join(", ")),
        };
        let only_first = head.starts_with("local") || head.contains(" = 1, ");
        self.line(&head);
        self.indent += 1;
        let mut all: Vec<String> = vec![u.clone(), "a".into(), "b".into(), keep.clone()];
        all.extend(names.iter().take(if only_first { 1 } else { n }).cloned());
        let inner = self.fresh("m");
        self.line(&format!("local {inner} = b"));
        all.push(inner);
        for _ in 0..1 + self.r.below(2) {
            let used: Vec<String> = (0..1 + self.r.usize(4)).map(|_| self.r.pick(&all).clone()).collect();
            let change = if self.ch(1, 3) { format!("{} = x ", self.r.pick(&all[..3])) } else { String::new() };
            let show = used.iter().map(|v| if *v == keep { format!("type({v})") } else { v.clone() }).collect::<Vec<_>>().join(", ");
            let nested = if self.ch(1, 3) { format!("return (function(...) return {show} end)()") } else { format!("return {show}") };
            self.line(&format!("c = c + 1 {keep}[c] = function(x) {change}{nested} end"));
        }
        if self.ch(1, 2) {
            self.line(&format!("emit({keep}[1]({count}))"));
        }
        if self.ch(1, 6) {
            self.line("if b then break end");
        }
        self.indent -= 1;
        self.line("end");
        self.line(&format!("for i = 1, c do emit({keep}[i](i)) end"));
        self.line(&format!("return {keep}[1]"));
        self.indent -= 1;
        self.line("end");
        let (x, y) = (self.any(1), self.any(1));
        self.line(&format!("emit(({f}({x}, {y}) or ask)(2))"));
    }

    fn assignment(&mut self) {
        let targets: Vec<Var> = self.vars.iter().chain(self.globals.iter()).filter(|v| !v.fixed && v.ty != Fun).cloned().collect();
        let d = 3;
        if self.has_arg() && self.ch(1, 12) {
            let k = 1 + self.r.below(4);
            let e = self.any(2);
            let t = if self.ch(1, 4) { format!("arg = {{{e}}}") } else { format!("arg[{k}] = {e}") };
            return self.line(&t);
        }
        match self.r.below(5) {
            0 => {
                let g = format!("{}v{}", self.o.prefix.to_ascii_lowercase(), self.r.below(4));
                let (e, _) = self.typed(d);
                self.line(&format!("{g} = {e}"));
                if !self.globals.iter().any(|v| v.name == g) {
                    self.globals.push(Var { name: g, ty: Any, fixed: false });
                }
            }
            1 => {
                let t = self.prefix(1);
                if t.starts_with('(') {
                    return;
                }
                let e = self.any(d);
                let k = match self.r.below(3) {
                    0 => format!(".{}", self.r.pick(&FIELDS)),
                    1 => format!("[{}]", self.num(1)),
                    _ => format!("['a' .. {}]", self.string(1)),
                };
                self.line(&format!("{t}{k} = {e}"));
            }
            2 if targets.len() > 1 => {
                let (a, b) = (self.r.pick(&targets).clone(), self.r.pick(&targets).clone());
                let (e, f) = (self.of(a.ty, 2), self.of(b.ty, 2));
                if a.name == b.name {
                    return;
                }
                self.line(&format!("{}, {} = {e}, {f}", a.name, b.name));
            }
            _ if !targets.is_empty() => {
                let a = self.r.pick(&targets).clone();
                let e = self.of(a.ty, d);
                self.line(&format!("{} = {e}", a.name));
            }
            _ => {}
        }
    }

    fn of(&mut self, ty: Ty, d: u32) -> String {
        match ty {
            Num => self.num(d),
            Str => self.string(d),
            Tab => self.tab(d),
            _ => self.any(d),
        }
    }

    fn loop_statement(&mut self) {
        match self.r.below(8) {
            0 | 1 => {
                let i = self.fresh("i");
                let n = 1 + self.r.below(4);
                self.line(&format!("local {i} = 0"));
                self.vars.push(Var { name: i.clone(), ty: Num, fixed: true });
                if self.ch(1, 2) {
                    let c = self.any(1);
                    let c = if self.ch(1, 2) { format!("{i} < {n} and ({c} or true)") } else { format!("{i} < {n}") };
                    self.line(&format!("while {c} do {i} = {i} + 1"));
                    self.loop_block();
                    self.line("end");
                } else {
                    self.line(&format!("repeat {i} = {i} + 1"));
                    self.loop_block();
                    let c = self.boolean(1);
                    let c = if self.ch(1, 2) { format!("{i} >= {n} or {c}") } else { format!("{i} >= {n}") };
                    self.line(&format!("until {c}"));
                }
            }
            2..=4 => {
                let i = self.fresh("i");
                let (from, to, step) = match self.r.below(7) {
                    0 => ("1".to_string(), self.r.below(4).to_string(), "".to_string()),
                    1 => (self.r.below(5).to_string(), "1".into(), ", -1".into()),
                    2 if !self.o.integers => ("1".into(), "2.5".into(), ", 0.5".into()),
                    3 => {
                        let e = self.num(1);
                        (e.clone(), format!("{e} + 2"), "".into())
                    }
                    // Strings that are numbers, and values that are not.
                    4 => {
                        let s = self.r.pick(&["", ", '1'", ", 2", ", '2'"]).to_string();
                        let f = self.r.pick(&["1", "'1'", "2"]).to_string();
                        let t = self.r.pick(&["'3'", "'4'", "3"]).to_string();
                        (f, t, s)
                    }
                    5 if self.ch(1, 3) => {
                        let mut v = ["1".to_string(), "3".to_string(), "1".to_string()];
                        v[self.r.usize(3)] = self.any(1);
                        (v[0].clone(), v[1].clone(), format!(", {}", v[2]))
                    }
                    _ => ("1".into(), (1 + self.r.below(4)).to_string(), ", 2".into()),
                };
                self.line(&format!("for {i} = {from}, {to}{step} do"));
                // The loop variable itself may be changed by the body.
                let fixed = self.ch(2, 3);
                self.vars.push(Var { name: i.clone(), ty: Num, fixed: true });
                if !fixed {
                    let e = self.num(1);
                    self.indent += 1;
                    self.line(&format!("{i} = {i} * 1 + 0 * N({e})"));
                    self.indent -= 1;
                }
                self.loop_block();
                self.line("end");
                self.vars.pop();
            }
            _ => {
                let n = 1 + self.r.below(4) as usize;
                let names: Vec<String> = (0..n).map(|_| self.fresh("k")).collect();
                let e = match self.r.below(5) {
                    0 => format!("iter({})", self.r.below(5)),
                    1 => format!("iter({}), nil", self.r.below(5)),
                    2 if self.o.v50 => self.tab(1),
                    3 => {
                        let c = 1 + self.r.below(3);
                        format!("function(s, c) c = N(c) + 1 emit('step', s, c) if c <= s then return c, c * 2, s, nil, 'e' end end, {c}, 0")
                    }
                    _ => format!("next, {}", self.tab(1)),
                };
                // A called constructor is no table access.
                self.line(&format!("for {} in {e} do", names.join(", ")));
                for name in &names {
                    self.vars.push(Var { name: name.clone(), ty: Any, fixed: true });
                }
                self.loop_block();
                self.line("end");
                self.vars.truncate(self.vars.len() - n);
            }
        }
    }
}

/// One program.
pub fn program(r: &mut Rng, o: &Options) -> String {
    let large = 1 + r.below(3) as u32;
    let mut g = G {
        r,
        o,
        out: String::new(),
        indent: 0,
        vars: vec![],
        globals: vec![],
        next: 0,
        budget: o.size,
        functions: vec![(if o.v50 { Extra::No } else { Extra::Dots }, 0)],
        loops: 0,
        large,
        wide: true,
        many: true,
        huge: true,
    };
    g.line("local N = function(x) if type(x) == 'number' then return x end return 3 end");
    g.line("local S = function(x) if type(x) == 'string' then return x end return 'z' end");
    let n = 2 + g.r.below(o.size as u64 / 2 + 1);
    g.block_statements(n, true);
    g.out
}
