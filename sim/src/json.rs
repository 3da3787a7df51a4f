//! Minimal JSON (replay files, worker protocol, evidence).

use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Int(i128),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

pub fn s(x: impl Into<String>) -> J {
    J::Str(x.into())
}
pub fn i(x: impl Into<i128>) -> J {
    J::Int(x.into())
}
pub fn us(x: usize) -> J {
    J::Int(x as i128)
}
pub fn obj(items: Vec<(&str, J)>) -> J {
    J::Obj(items.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}
pub fn hex(b: &[u8]) -> J {
    let mut out = String::with_capacity(b.len() * 2);
    for x in b {
        write!(out, "{x:02x}").unwrap();
    }
    J::Str(out)
}

impl J {
    pub fn get(&self, key: &str) -> &J {
        match self {
            J::Obj(items) => items.iter().find(|(k, _)| k == key).map(|(_, v)| v).unwrap_or(&J::Null),
            _ => &J::Null,
        }
    }
    pub fn int(&self) -> i128 {
        match self {
            J::Int(x) => *x,
            J::Num(x) => *x as i128,
            J::Bool(b) => *b as i128,
            _ => panic!("harness: integer expected in replay file, got {self:?}"),
        }
    }
    pub fn usize(&self) -> usize {
        self.int() as usize
    }
    pub fn u64(&self) -> u64 {
        self.int() as u64
    }
    pub fn bool(&self) -> bool {
        matches!(self, J::Bool(true))
    }
    pub fn str(&self) -> &str {
        match self {
            J::Str(x) => x,
            _ => panic!("harness: string expected in replay file, got {self:?}"),
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(x) => x,
            J::Null => &[],
            _ => panic!("harness: array expected in replay file, got {self:?}"),
        }
    }
    pub fn is_null(&self) -> bool {
        matches!(self, J::Null)
    }
    pub fn bytes(&self) -> Vec<u8> {
        let t = self.str().as_bytes();
        (0..t.len() / 2).map(|k| u8::from_str_radix(std::str::from_utf8(&t[2 * k..2 * k + 2]).unwrap(), 16).unwrap()).collect()
    }

    pub fn dump(&self) -> String {
        let mut out = String::new();
        self.write(&mut out);
        out
    }

    fn write(&self, out: &mut String) {
        match self {
            J::Null => out.push_str("null"),
            J::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
            J::Int(x) => write!(out, "{x}").unwrap(),
            J::Num(x) => {
                if x.is_finite() {
                    let t = format!("{x}");
                    out.push_str(&t);
                } else {
                    out.push_str("null")
                }
            }
            J::Str(t) => {
                out.push('"');
                for c in t.chars() {
                    match c {
                        '"' => out.push_str("\\\""),
                        '\\' => out.push_str("\\\\"),
                        '\n' => out.push_str("\\n"),
                        c if (c as u32) < 0x20 || (c as u32) == 0x7f => write!(out, "\\u{:04x}", c as u32).unwrap(),
                        c => out.push(c),
                    }
                }
                out.push('"');
            }
            J::Arr(items) => {
                out.push('[');
                for (n, x) in items.iter().enumerate() {
                    if n > 0 {
                        out.push(',');
                    }
                    x.write(out);
                }
                out.push(']');
            }
            J::Obj(items) => {
                out.push('{');
                for (n, (k, x)) in items.iter().enumerate() {
                    if n > 0 {
                        out.push(',');
                    }
                    J::Str(k.clone()).write(out);
                    out.push(':');
                    x.write(out);
                }
                out.push('}');
            }
        }
    }

    pub fn parse(text: &str) -> J {
        let b = text.as_bytes();
        let mut p = 0;
        let v = parse_value(b, &mut p);
        v
    }
}

fn ws(b: &[u8], p: &mut usize) {
    while *p < b.len() && b[*p].is_ascii_whitespace() {
        *p += 1;
    }
}

fn parse_value(b: &[u8], p: &mut usize) -> J {
    ws(b, p);
    match b[*p] {
        b'n' => {
            *p += 4;
            J::Null
        }
        b't' => {
            *p += 4;
            J::Bool(true)
        }
        b'f' => {
            *p += 5;
            J::Bool(false)
        }
        b'"' => J::Str(parse_str(b, p)),
        b'[' => {
            *p += 1;
            let mut items = Vec::new();
            loop {
                ws(b, p);
                if b[*p] == b']' {
                    *p += 1;
                    return J::Arr(items);
                }
                items.push(parse_value(b, p));
                ws(b, p);
                if b[*p] == b',' {
                    *p += 1;
                }
            }
        }
        b'{' => {
            *p += 1;
            let mut items = Vec::new();
            loop {
                ws(b, p);
                if b[*p] == b'}' {
                    *p += 1;
                    return J::Obj(items);
                }
                let k = parse_str(b, p);
                ws(b, p);
                assert_eq!(b[*p], b':');
                *p += 1;
                let v = parse_value(b, p);
                items.push((k, v));
                ws(b, p);
                if b[*p] == b',' {
                    *p += 1;
                }
            }
        }
        _ => {
            let start = *p;
            while *p < b.len() && matches!(b[*p], b'0'..=b'9' | b'-' | b'+' | b'.' | b'e' | b'E') {
                *p += 1;
            }
            let t = std::str::from_utf8(&b[start..*p]).unwrap();
            match t.parse::<i128>() {
                Ok(x) => J::Int(x),
                Err(_) => J::Num(t.parse().unwrap_or_else(|_| panic!("harness: bad JSON at {start}"))),
            }
        }
    }
}

fn parse_str(b: &[u8], p: &mut usize) -> String {
    assert_eq!(b[*p], b'"');
    *p += 1;
    let mut out = Vec::new();
    loop {
        match b[*p] {
            b'"' => {
                *p += 1;
                return String::from_utf8(out).unwrap();
            }
            b'\\' => {
                *p += 1;
                match b[*p] {
                    b'n' => out.push(b'\n'),
                    b't' => out.push(b'\t'),
                    b'r' => out.push(b'\r'),
                    b'u' => {
                        let v = u32::from_str_radix(std::str::from_utf8(&b[*p + 1..*p + 5]).unwrap(), 16).unwrap();
                        let mut buf = [0; 4];
                        out.extend_from_slice(char::from_u32(v).unwrap_or('?').encode_utf8(&mut buf).as_bytes());
                        *p += 4;
                    }
                    c => out.push(c),
                }
                *p += 1;
            }
            c => {
                out.push(c);
                *p += 1;
            }
        }
    }
}
