//! A reference reader for JSON, written from RFC 8259 alone.

use std::fmt;

use crate::shape::{Key, Shape, Val};

/// A document.
#[derive(Clone, PartialEq, Debug)]
pub enum Json {
    Null,
    Bool(bool),
    /// The text of it.
    Num(String),
    Str(String),
    Arr(Vec<Json>),
    Obj(Vec<(String, Json)>),
}

/// What is wrong with a document, and where.
#[derive(Clone, PartialEq, Debug)]
pub struct Bad(pub usize, pub &'static str);

impl fmt::Display for Bad {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{} at byte {}", self.1, self.0)
    }
}

struct P<'a> {
    b: &'a [u8],
    at: usize,
    /// Commas are white space after the first element of a container.
    loose: bool,
}

/// Like [`json_prefix`], but with any number of commas, or none, where one is
/// allowed.
pub fn json_loose_prefix(b: &[u8]) -> Result<(Json, usize), Bad> {
    let mut p = P { b, at: 0, loose: true };
    p.ws();
    let v = p.value(0)?;
    Ok((v, p.at))
}

/// The tokens of a valid document.
pub fn json_tokens(b: &[u8]) -> Vec<std::ops::Range<usize>> {
    let mut out = Vec::new();
    let mut p = P { b, at: 0, loose: false };
    loop {
        p.ws();
        let start = p.at;
        match p.peek() {
            None => return out,
            Some(b'{' | b'}' | b'[' | b']' | b',' | b':') => p.at += 1,
            Some(_) => {
                p.value(0).expect("a valid document");
            }
        }
        out.push(start..p.at);
    }
}

/// The value at the start of the input after any whitespace, and how many
/// bytes it ends after.
pub fn json_prefix(b: &[u8]) -> Result<(Json, usize), Bad> {
    let mut p = P { b, at: 0, loose: false };
    p.ws();
    let v = p.value(0)?;
    Ok((v, p.at))
}

/// The document which makes up the input.
pub fn json(b: &[u8]) -> Result<Json, Bad> {
    let mut p = P { b, at: 0, loose: false };
    p.ws();
    let v = p.value(0)?;
    p.ws();
    if p.at != b.len() {
        return Err(Bad(p.at, "more than one value"));
    }
    Ok(v)
}

/// The string literal at the start of the input, and its length.
pub fn json_string(b: &[u8]) -> Result<(String, usize), Bad> {
    let mut p = P { b, at: 0, loose: false };
    let s = p.string()?;
    Ok((s, p.at))
}

impl P<'_> {
    fn peek(&self) -> Option<u8> {
        self.b.get(self.at).copied()
    }

    /// Whatever may be between the elements of a container. Is it a comma?
    fn comma(&mut self, end: u8) -> bool {
        self.ws();
        if self.loose {
            while self.peek() == Some(b',') {
                self.at += 1;
                self.ws();
            }
            return self.peek() != Some(end) && self.peek().is_some();
        }
        if self.peek() == Some(b',') {
            self.at += 1;
            return true;
        }
        false
    }

    fn bad<T>(&self, what: &'static str) -> Result<T, Bad> {
        Err(Bad(self.at, what))
    }

    fn ws(&mut self) {
        while let Some(b' ' | b'\t' | b'\n' | b'\r') = self.peek() {
            self.at += 1;
        }
    }

    fn word(&mut self, w: &str, v: Json) -> Result<Json, Bad> {
        if !self.b[self.at..].starts_with(w.as_bytes()) {
            return self.bad("not a literal");
        }
        self.at += w.len();
        Ok(v)
    }

    fn value(&mut self, depth: usize) -> Result<Json, Bad> {
        if depth > 200 {
            return self.bad("too deep");
        }
        match self.peek() {
            Some(b'n') => self.word("null", Json::Null),
            Some(b't') => self.word("true", Json::Bool(true)),
            Some(b'f') => self.word("false", Json::Bool(false)),
            Some(b'"') => Ok(Json::Str(self.string()?)),
            Some(b'-' | b'0'..=b'9') => self.number(),
            Some(b'[') => {
                self.at += 1;
                let mut v = Vec::new();
                self.ws();
                if self.peek() == Some(b']') {
                    self.at += 1;
                    return Ok(Json::Arr(v));
                }
                loop {
                    self.ws();
                    v.push(self.value(depth + 1)?);
                    if self.comma(b']') {
                        continue;
                    }
                    if self.peek() != Some(b']') {
                        return self.bad("neither , nor ]");
                    }
                    self.at += 1;
                    return Ok(Json::Arr(v));
                }
            }
            Some(b'{') => {
                self.at += 1;
                let mut v = Vec::new();
                self.ws();
                if self.peek() == Some(b'}') {
                    self.at += 1;
                    return Ok(Json::Obj(v));
                }
                loop {
                    self.ws();
                    if self.peek() != Some(b'"') {
                        return self.bad("no key");
                    }
                    let k = self.string()?;
                    self.ws();
                    if self.peek() != Some(b':') {
                        return self.bad("no :");
                    }
                    self.at += 1;
                    self.ws();
                    v.push((k, self.value(depth + 1)?));
                    if self.comma(b'}') {
                        continue;
                    }
                    if self.peek() != Some(b'}') {
                        return self.bad("neither , nor }");
                    }
                    self.at += 1;
                    return Ok(Json::Obj(v));
                }
            }
            _ => self.bad("no value"),
        }
    }

    fn digits(&mut self) -> Result<(), Bad> {
        if !matches!(self.peek(), Some(b'0'..=b'9')) {
            return self.bad("no digit");
        }
        while let Some(b'0'..=b'9') = self.peek() {
            self.at += 1;
        }
        Ok(())
    }

    fn number(&mut self) -> Result<Json, Bad> {
        let start = self.at;
        if self.peek() == Some(b'-') {
            self.at += 1;
        }
        if self.peek() == Some(b'0') {
            self.at += 1;
        } else {
            self.digits()?;
        }
        if self.peek() == Some(b'.') {
            self.at += 1;
            self.digits()?;
        }
        if let Some(b'e' | b'E') = self.peek() {
            self.at += 1;
            if let Some(b'+' | b'-') = self.peek() {
                self.at += 1;
            }
            self.digits()?;
        }
        Ok(Json::Num(String::from_utf8(self.b[start..self.at].to_vec()).unwrap()))
    }

    fn hex4(&mut self) -> Result<u32, Bad> {
        let mut n = 0;
        for _ in 0..4 {
            let d = match self.peek() {
                Some(c @ b'0'..=b'9') => c - b'0',
                Some(c @ b'a'..=b'f') => c - b'a' + 10,
                Some(c @ b'A'..=b'F') => c - b'A' + 10,
                _ => return self.bad("no hex digit"),
            };
            n = n * 16 + d as u32;
            self.at += 1;
        }
        Ok(n)
    }

    fn string(&mut self) -> Result<String, Bad> {
        if self.peek() != Some(b'"') {
            return self.bad("no string");
        }
        self.at += 1;
        let mut out = Vec::new();
        loop {
            let Some(c) = self.peek() else { return self.bad("unterminated") };
            match c {
                b'"' => {
                    self.at += 1;
                    return match String::from_utf8(out) {
                        Ok(s) => Ok(s),
                        Err(_) => self.bad("not UTF-8"),
                    };
                }
                0..=0x1f => return self.bad("control character"),
                b'\\' => {
                    self.at += 1;
                    let Some(c) = self.peek() else { return self.bad("unterminated") };
                    let c = match c {
                        b'"' => '"',
                        b'\\' => '\\',
                        b'/' => '/',
                        b'b' => '\u{8}',
                        b'f' => '\u{c}',
                        b'n' => '\n',
                        b'r' => '\r',
                        b't' => '\t',
                        b'u' => {
                            self.at += 1;
                            let a = self.hex4()?;
                            let c = match a {
                                0xd800..=0xdbff => {
                                    if !self.b[self.at..].starts_with(b"\\u") {
                                        return self.bad("lone surrogate");
                                    }
                                    self.at += 2;
                                    let b = self.hex4()?;
                                    if !(0xdc00..=0xdfff).contains(&b) {
                                        return self.bad("lone surrogate");
                                    }
                                    0x10000 + ((a - 0xd800) << 10) + (b - 0xdc00)
                                }
                                a => a,
                            };
                            self.at -= 1;
                            match char::from_u32(c) {
                                Some(c) => c,
                                None => return self.bad("lone surrogate"),
                            }
                        }
                        _ => return self.bad("unknown escape"),
                    };
                    self.at += 1;
                    out.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes());
                }
                c => {
                    out.push(c);
                    self.at += 1;
                }
            }
        }
    }
}

/// A decimal number: `digits * 10^exp`.
#[derive(Clone, PartialEq, Debug)]
pub struct Dec {
    pub neg: bool,
    /// Without leading or trailing zeros; empty when it is zero.
    pub digits: Vec<u8>,
    pub exp: i128,
}

impl Dec {
    /// What the text of a valid number denotes.
    pub fn new(text: &str) -> Dec {
        let (neg, rest) = match text.strip_prefix('-') {
            Some(r) => (true, r),
            None => (false, text),
        };
        let (mant, exp) = match rest.find(['e', 'E']) {
            Some(i) => (&rest[..i], &rest[i + 1..]),
            None => (rest, "0"),
        };
        // An exponent beyond all bounds is one.
        let big = 1i128 << 100;
        let exp: i128 = exp.parse().unwrap_or(if exp.starts_with('-') { -big } else { big });
        let exp = exp.clamp(-big, big);
        let (int, frac) = mant.split_once('.').unwrap_or((mant, ""));
        let mut digits: Vec<u8> = int.bytes().chain(frac.bytes()).map(|c| c - b'0').collect();
        let mut exp = exp - frac.len() as i128;
        while digits.last() == Some(&0) {
            digits.pop();
            exp += 1;
        }
        let zeros = digits.iter().take_while(|d| **d == 0).count();
        digits.drain(..zeros);
        if digits.is_empty() {
            exp = 0;
        }
        Dec { neg, digits, exp }
    }

    /// The integer it is: its sign and magnitude.
    pub fn integer(&self) -> Option<(bool, u128)> {
        if self.digits.is_empty() {
            return Some((false, 0));
        }
        if self.exp < 0 || self.exp > 40 {
            return None;
        }
        let mut n: u128 = 0;
        for d in self.digits.iter().copied().chain((0..self.exp).map(|_| 0)) {
            n = n.checked_mul(10)?.checked_add(d as u128)?;
        }
        Some((self.neg, n))
    }

    /// As an integer between two bounds.
    pub fn within(&self, min: i128, max: u128) -> Option<(bool, u128)> {
        let (neg, n) = self.integer()?;
        (if neg { n <= min.unsigned_abs() } else { n <= max }).then_some((neg, n))
    }
}

/// Why a document is not a value of a type.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum No {
    /// It is of another type.
    Wrong,
    /// Nothing says whether it is.
    Unclear,
}

/// The value of a type which a document denotes.
pub fn json_typed(s: &Shape, j: &Json) -> Result<Val, No> {
    use No::*;
    let int = |text: &str| -> Result<Val, No> {
        let d = Dec::new(text);
        if s.is_signed() {
            let max = if s.bits() == 128 { i128::MAX } else { (1 << (s.bits() - 1)) - 1 };
            let (neg, n) = d.within(-max - 1, max as u128).ok_or(Wrong)?;
            Ok(Val::I(if neg { (n as i128).wrapping_neg() } else { n as i128 }))
        } else {
            if d.neg && d.digits.is_empty() {
                return Err(Unclear);
            }
            let max = if s.bits() == 128 { u128::MAX } else { (1 << s.bits()) - 1 };
            let (neg, n) = d.within(0, max).ok_or(Wrong)?;
            assert!(!neg || n == 0);
            Ok(Val::U(n))
        }
    };
    let byte = |j: &Json| -> Result<u8, No> {
        match json_typed(&Shape::U8, j)? {
            Val::U(n) => Ok(n as u8),
            _ => unreachable!(),
        }
    };
    // All of them: if one is certainly wrong then so is the whole.
    fn all<T>(it: impl Iterator<Item = Result<T, No>>) -> Result<Vec<T>, No> {
        let mut unclear = false;
        let mut out = Vec::new();
        for v in it {
            match v {
                Ok(v) => out.push(v),
                Err(Wrong) => return Err(Wrong),
                Err(Unclear) => unclear = true,
            }
        }
        if unclear {
            Err(Unclear)
        } else {
            Ok(out)
        }
    }
    Ok(match (s, j) {
        (Shape::Unit, Json::Null) => Val::Unit,
        // Anything may be taken for it.
        (Shape::Unit, _) => return Err(Unclear),
        (Shape::Bool, Json::Bool(b)) => Val::Bool(*b),
        (Shape::Char, Json::Str(s)) => {
            let mut it = s.chars();
            match (it.next(), it.next()) {
                (Some(c), None) => Val::Char(c),
                _ => return Err(Wrong),
            }
        }
        (s, Json::Num(n)) if s.is_int() => int(n)?,
        (Shape::F32, Json::Num(n)) => Val::F32(n.parse::<f32>().unwrap().to_bits()),
        (Shape::F64, Json::Num(n)) => Val::F64(n.parse::<f64>().unwrap().to_bits()),
        (Shape::Str, Json::Str(s)) => Val::Str(s.clone()),
        (Shape::Bytes, Json::Arr(v)) => Val::Bytes(all(v.iter().map(byte))?),
        (Shape::Arr(n), Json::Arr(v)) => {
            let v = all(v.iter().map(byte))?;
            if v.len() != *n {
                return Err(Wrong);
            }
            Val::Bytes(v)
        }
        (Shape::Opt(_), Json::Null) => Val::Opt(None),
        (Shape::Opt(s), j) => Val::Opt(Some(Box::new(json_typed(s, j)?))),
        (Shape::Seq(s), Json::Arr(v)) => Val::Seq(all(v.iter().map(|j| json_typed(s, j)))?),
        (Shape::Pack(ss), Json::Arr(v)) => {
            if v.len() < ss.len() {
                return Err(Wrong);
            }
            let got = all(ss.iter().zip(v).map(|(s, j)| json_typed(s, j)))?;
            if v.len() > ss.len() {
                return Err(Unclear);
            }
            Val::Struct(got)
        }
        (Shape::Map(ks, vs), Json::Obj(v)) => Val::Map(all(v.iter().map(|(k, j)| {
            let k = json_key(ks, k);
            let j = json_typed(vs, j);
            match (k, j) {
                (Ok(k), Ok(j)) => Ok((k, j)),
                (Err(Wrong), _) | (_, Err(Wrong)) => Err(Wrong),
                _ => Err(Unclear),
            }
        }))?),
        (Shape::Struct(fs), Json::Obj(v)) => {
            let mut out = vec![None; fs.len()];
            let mut twice = false;
            let each = all(v.iter().map(|(k, j)| match position(fs, k)? {
                Some(i) => Ok(Some((i, json_typed(&fs[i].1, j)?))),
                None => Ok(None),
            }))?;
            for (i, v) in each.into_iter().flatten() {
                twice |= out[i].is_some();
                out[i] = Some(v);
            }
            let v = all(out.into_iter().zip(fs).map(|(v, (_, s))| match (v, s) {
                (Some(v), _) => Ok(v),
                (None, Shape::Opt(_)) => Ok(Val::Opt(None)),
                (None, _) => Err(Wrong),
            }))?;
            if twice {
                return Err(Unclear);
            }
            Val::Struct(v)
        }
        (Shape::Enum(vs), Json::Obj(v)) => match &v[..] {
            [(k, j)] => match position(vs, k)? {
                Some(i) => Val::Enum(i, Box::new(json_typed(&vs[i].1, j)?)),
                None => return Err(Wrong),
            },
            _ => return Err(Wrong),
        },
        _ => return Err(Wrong),
    })
}

/// The key of a type that the text of one denotes.
fn json_key(s: &Shape, k: &str) -> Result<Val, No> {
    if *s == Shape::Str {
        return Ok(Val::Str(k.to_string()));
    }
    assert!(s.is_int());
    // Only numbers as they are written are meant to be keys.
    match json(k.as_bytes()) {
        Ok(Json::Num(n)) => {
            let v = json_typed(s, &Json::Num(n))?;
            if v.to_string() == k {
                Ok(v)
            } else {
                Err(No::Unclear)
            }
        }
        // Numbers without digits behind their point or exponent are taken.
        _ => match json_loose_prefix(k.as_bytes()) {
            Ok((Json::Num(_), n)) if n == k.len() => Err(No::Unclear),
            _ => match k.strip_suffix(['.', 'e', 'E', '+', '-']).map(|k| json_key(s, k)) {
                Some(Ok(_) | Err(No::Unclear)) => Err(No::Unclear),
                _ => Err(No::Wrong),
            },
        },
    }
}

/// Which of the tags or fields is meant.
fn position(keys: &[(Key, Shape)], k: &str) -> Result<Option<usize>, No> {
    let s = match keys.first().map(|k| &k.0) {
        None | Some(Key::S(_)) => Shape::Str,
        Some(Key::U(_)) => Shape::Usize,
        Some(Key::I(_)) => Shape::I32,
    };
    let k = json_key(&s, k)?;
    Ok(keys.iter().position(|(n, _)| match (n, &k) {
        (Key::S(a), Val::Str(b)) => a == b,
        (Key::U(a), Val::U(b)) => *a as u128 == *b,
        (Key::I(a), Val::I(b)) => *a as i128 == *b,
        _ => unreachable!(),
    }))
}
