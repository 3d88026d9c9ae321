//! P10: JSON strings are encoded and decoded exactly as RFC 8259 says.

use std::borrow::Cow;
use std::collections::BTreeMap;
use std::fmt;

use eng::{json, json_string, Json};
use kit::*;
use musli::alloc::System;
use musli::de::{Decode, Decoder};
use musli::en::{Encode, Encoder};
use musli::mode::Text;
use musli::value::Value;

kit::global_allocator!();

/// Skips whatever there is.
struct Skip;
impl<'de, M: 'static, A: musli::Allocator> Decode<'de, M, A> for Skip {
    const IS_BITWISE_DECODE: bool = false;
    fn decode<D: Decoder<'de, Mode = M, Allocator = A>>(d: D) -> Result<Self, D::Error> {
        d.skip()?;
        Ok(Skip)
    }
}

/// Displays a string in pieces.
struct Pieces<'a>(&'a str);
impl fmt::Display for Pieces<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        use fmt::Write;
        for c in self.0.chars() {
            f.write_char(c)?;
        }
        Ok(())
    }
}
impl<M> Encode<M> for Pieces<'_> {
    const IS_BITWISE_ENCODE: bool = false;
    type Encode = Self;
    fn encode<E: Encoder<Mode = M>>(&self, e: E) -> Result<(), E::Error> {
        e.collect_string(self)
    }
    fn as_encode(&self) -> &Self {
        self
    }
}

#[derive(musli::Decode, Debug, PartialEq)]
struct Field {
    #[musli(Text, name = "a\u{e9}\u{1f600}\n")]
    #[musli(Binary, name = 0)]
    field: u8,
}

#[derive(musli::Decode, Debug, PartialEq)]
enum Name {
    #[musli(Text, name = "a\u{e9}\u{1f600}\n")]
    #[musli(Binary, name = 0)]
    It,
}

#[derive(musli::Decode, Debug, PartialEq)]
#[musli(Text, tag = "t")]
#[musli(Binary, tag = 0)]
enum Tagged {
    #[musli(Text, name = "x")]
    #[musli(Binary, name = 0)]
    X { v: String },
}

const SPECIAL: &str = "a\u{e9}\u{1f600}\n";

fn from<'de, T: Decode<'de, Text, System>>(b: &'de [u8]) -> Result<T, String> {
    musli::json::from_slice(b).map_err(|e: musli::json::Error| e.to_string())
}

fn from_mut<'de, T: Decode<'de, Text, System>>(b: &'de [u8]) -> Result<(T, usize), String> {
    let mut m = b;
    let v = musli::json::decode(&mut m).map_err(|e: musli::json::Error| e.to_string())?;
    Ok((v, b.len() - m.len()))
}

/// Is the text what the literal denotes, if it denotes any?
fn literal(lit: &[u8]) -> CaseResult {
    let want = json_string(lit);
    // Raw control characters may be let through, but not as something else.
    let control = matches!(want, Err(eng::Bad(_, "control character")));
    let raw = || -> Option<String> {
        // The literal with the control characters escaped.
        let mut out = Vec::new();
        for &c in lit {
            if c < 0x20 {
                out.extend_from_slice(format!("\\u{c:04x}").as_bytes());
            } else {
                out.push(c);
            }
        }
        json_string(&out).ok().map(|s| s.0)
    };
    let text = want.as_ref().ok().map(|w| w.0.clone());
    let judge = |what: &str, got: Result<String, String>| -> Result<(), Failure> {
        let got = got.ok();
        if got == text || control && (got.is_none() || got == raw()) {
            return Ok(());
        }
        fail!("{what} decodes {} as {got:?} instead of {want:?}", lit.escape_ascii());
    };
    judge("String", from::<String>(lit))?;
    judge("Cow", from::<Cow<'_, str>>(lit).map(Cow::into_owned))?;
    judge("Box<str>", from::<Box<str>>(lit).map(String::from))?;
    // Escapes cannot be borrowed.
    let b = from::<&str>(lit);
    if b.is_ok() || !lit.contains(&b'\\') {
        judge("&str", b.map(String::from))?;
    }
    let v = from::<Value<System>>(lit).and_then(|v| {
        musli::value::decode::<String>(&v).map_err(|e: musli::value::Error| e.to_string())
    });
    judge("Value", v)?;
    let r = from_mut::<String>(lit);
    if let (Ok(r), Ok(w)) = (&r, &want) {
        ensure!(r.1 == w.1, "decoding {} advances by {} instead of {}", lit.escape_ascii(), r.1, w.1);
    }
    judge("String from a mutable slice", r.map(|r| r.0))?;
    if let Ok(s) = std::str::from_utf8(lit) {
        let r = musli::json::from_str::<String>(s).map_err(|e: musli::json::Error| e.to_string());
        judge("String from a str", r)?;
    }
    // Skipping accepts the same.
    match (from_mut::<Skip>(lit), &want) {
        (Ok(n), Ok(w)) => ensure!(n.1 == w.1, "skipping {} advances by {} instead of {}", lit.escape_ascii(), n.1, w.1),
        (Err(e), Ok(_)) => fail!("skipping {} fails: {e}", lit.escape_ascii()),
        (Ok(_), Err(b)) if !control && b.1 != "not UTF-8" => {
            fail!("skipping {} succeeds, but {b}", lit.escape_ascii())
        }
        _ => {}
    }
    // One character.
    let c = from::<char>(lit);
    let one = text.as_ref().and_then(|t| {
        let mut it = t.chars();
        it.next().filter(|_| it.next().is_none())
    });
    ensure!(
        c.as_ref().ok() == one.as_ref() || control,
        "char decodes {} as {c:?} instead of {one:?}",
        lit.escape_ascii()
    );
    // As the key of a map, next to others.
    let lit_is_whole = want.as_ref().is_ok_and(|w| w.1 == lit.len());
    if lit_is_whole {
        let t = text.clone().unwrap_or_default();
        let doc = [b"{", lit, b":7,\"_other\":8}"].concat();
        let m = from::<BTreeMap<String, u8>>(&doc)?;
        let want: BTreeMap<String, u8> = [(t.clone(), 7), ("_other".to_owned(), 8)].into_iter().collect();
        ensure!(m == want, "as a key {} gives {m:?}", lit.escape_ascii());
        let f = from::<Field>(&doc);
        ensure!(f.is_ok() == (t == SPECIAL), "as the name of a field {} gives {f:?}", lit.escape_ascii());
        let n = from::<Name>(lit);
        ensure!(n.is_ok() == (t == SPECIAL), "as the name of a variant {} gives {n:?}", lit.escape_ascii());
        // Through a buffer.
        let doc = [b"{\"v\":", lit, b",\"t\":\"x\"}"].concat();
        let f = from::<Tagged>(&doc)?;
        ensure!(f == Tagged::X { v: t.clone() }, "through a buffer {} gives {f:?}", lit.escape_ascii());
        let doc = [b"[", lit, b",", lit, b"]"].concat();
        let f = from::<Vec<String>>(&doc)?;
        ensure!(f == [t.clone(), t], "in an array {} gives {f:?}", lit.escape_ascii());
    } else if want.is_err() && !control {
        let doc = [b"{", lit, b":7}"].concat();
        if eng::json(&doc).is_err() {
            let m = from::<BTreeMap<String, u8>>(&doc);
            ensure!(m.is_err(), "as a key {} gives {m:?}", lit.escape_ascii());
        }
    }
    Ok(match &text {
        Some(t) => Fp::new().str("ok").str(t).bytes(lit).done(),
        None => Fp::new().str("bad").bytes(lit).done(),
    })
}

/// Is a string encoded as a literal that denotes it?
fn string(s: &str) -> CaseResult {
    let is = |what: &str, b: &[u8]| -> Result<(), Failure> {
        match json(b) {
            Ok(Json::Str(t)) if t == s => Ok(()),
            got => fail!("{what} encodes {s:?} as {}, which is {got:?}", b.escape_ascii()),
        }
    };
    let to = |v: Result<Vec<u8>, musli::json::Error>| v.map_err(|e| Failure::from(e.to_string()));
    let b = to(musli::json::to_vec(s))?;
    is("str", &b)?;
    is("to_string", musli::json::to_string(s).map_err(|e| Failure::from(e.to_string()))?.as_bytes())?;
    is("collect_string", &to(musli::json::to_vec(&Pieces(s)))?)?;
    let back = from::<String>(&b)?;
    ensure!(back == s, "{s:?} comes back as {back:?}");
    let mut it = s.chars();
    if let (Some(c), None) = (it.next(), it.next()) {
        is("char", &to(musli::json::to_vec(&c))?)?;
        let back = from::<char>(&b)?;
        ensure!(back == c, "{c:?} comes back as {back:?}");
    }
    let m: BTreeMap<&str, &str> = [(s, s)].into_iter().collect();
    let b = to(musli::json::to_vec(&m))?;
    match json(&b) {
        Ok(Json::Obj(v)) if v.len() == 1 && v[0].0 == s && v[0].1 == Json::Str(s.to_owned()) => {}
        got => fail!("a map with {s:?} is encoded as {}, which is {got:?}", b.escape_ascii()),
    }
    let back = from::<BTreeMap<String, String>>(&b)?;
    ensure!(back.len() == 1 && back.get(s).is_some_and(|v| v == s), "a map with {s:?} comes back as {back:?}");
    Ok(Fp::new().str(s).done())
}

fn main() {
    let mut c = Check::new(
        "P10",
        Level::Exploration,
        "every char, every string of at most three (four) of the characters that matter, every \\u escape, every (boundary) pair of surrogates, every sequence of four (five) tokens of string syntax, every short sequence of UTF-8 byte classes; each goes through every type and place that takes a string, judged by a reader written from RFC 8259; a case is one string or literal, distinct by its text",
    );
    c.fam_sharded("encode/char", 16, |fam| {
        // Every one of them.
        for c in '\0'..=char::MAX {
            fam.case(|| format!("{c:?}"), || string(c.encode_utf8(&mut [0; 4])));
        }
    });
    c.fam_sharded("encode/short", 8, |fam| {
        let a = [
            "a", "\"", "\\", "/", "\u{8}", "\u{c}", "\n", "\r", "\t", "\0", "\u{1b}", "\u{1f}", "\u{7f}", "\u{80}", "\u{e9}",
            "\u{2028}", "\u{d7ff}", "\u{e000}", "\u{ffff}", "\u{10000}", "\u{10ffff}", "u",
        ];
        let n = fam.bound(3, 4);
        kit::rng::sequences(a.len(), n, |q| {
            let s: String = q.iter().map(|i| a[*i]).collect();
            fam.case(|| format!("{s:?}"), || string(&s));
        });
    });
    c.fam("encode/run", |fam| {
        // What needs an escape at each place of a run of what does not.
        let n = fam.bound(40, 300);
        for len in 0..n {
            for at in 0..=len {
                for e in ["\"", "\u{1}", "\u{10000}"] {
                    let s = format!("{}{e}{}", "x".repeat(at), "\u{e9}".repeat(len - at));
                    fam.case(|| format!("{s:?}"), || string(&s));
                }
            }
        }
    });
    c.fam_sharded("decode/tokens", 16, |fam| {
        let a: [&[u8]; 32] = [
            b"a", b"u", b"0", b"00", b"d83d", b"\xc3\xa9", b"\xf0\x9f\x98\x80", b"\"", b"\\", b"\\\"", b"\\\\", b"\\/",
            b"\\b", b"\\f", b"\\n", b"\\r", b"\\t", b"\\u", b"\\u0041", b"\\u00e9", b"\\u00E9", b"\\ud83d", b"\\ude00",
            b"\\uDBFF", b"\\uDFFF", b"\\ud800", b"\x1f", b"\n", b"\x80", b"\xc3", b"\xff", b"\x7f",
        ];
        let n = fam.bound(4, 5);
        kit::rng::sequences(a.len(), n, |q| {
            let mut lit = vec![b'"'];
            q.iter().for_each(|i| lit.extend_from_slice(a[*i]));
            fam.case(|| lit.escape_ascii().to_string(), || literal(&lit));
            lit.push(b'"');
            fam.case(|| lit.escape_ascii().to_string(), || literal(&lit));
        });
    });
    c.fam("decode/special", |fam| {
        // A name that is looked for, written in every way.
        let ways: [&[&str]; 4] = [
            &["a", "\\u0061"],
            &["\u{e9}", "\\u00e9", "\\u00E9", "e"],
            &["\u{1f600}", "\\ud83d\\ude00", "\\uD83D\\uDE00", "\\uD83d\\udE00", "\\uD83D\\uDE01"],
            &["\\n", "\\u000a", "\\u000A", "\\r"],
        ];
        kit::rng::product(&ways.map(|w| w.len()), |q| {
            let lit: String = q.iter().enumerate().map(|(i, j)| ways[i][*j]).collect();
            let lit = format!("\"{lit}\"");
            fam.case(|| lit.clone(), || literal(lit.as_bytes()));
        });
    });
    c.fam_sharded("decode/u", 8, |fam| {
        for n in 0..=0xffffu32 {
            for lit in [format!("\"\\u{n:04x}\""), format!("\"\\u{n:04X}\""), format!("\"x\\u{n:04x}\\n\"")] {
                fam.case(|| lit.clone(), || literal(lit.as_bytes()));
            }
        }
    });
    c.fam_sharded("decode/pair", 16, |fam| {
        let hi: Vec<u32> = if fam.thorough() {
            (0xd800..0xdc00).collect()
        } else {
            (0xd800..0xdc00).filter(|h| *h < 0xd804 || *h > 0xdbfb || h & 0x3f == 0x3d).collect()
        };
        for h in hi {
            for l in 0xd7f0..0xe010u32 {
                // All that are a pair, and those around them.
                if !fam.thorough() && l & 0xf != 0 && l & 0xf != 0xf && (0xd810..0xdff0).contains(&l) && h != 0xd83d {
                    continue;
                }
                let lit = format!("\"\\u{h:04x}\\u{l:04X}\"");
                fam.case(|| lit.clone(), || literal(lit.as_bytes()));
            }
        }
    });
    c.fam("decode/hex", |fam| {
        for at in 0..10 {
            for b in 0..=255u8 {
                let mut lit = b"\"\\ud83d\\ude00\"".to_vec();
                lit[at + 3] = b;
                fam.case(|| lit.escape_ascii().to_string(), || literal(&lit));
                let mut lit = b"\"\\u00e9\\n?\"".to_vec();
                if at + 2 < lit.len() {
                    lit[at + 2] = b;
                    fam.case(|| lit.escape_ascii().to_string(), || literal(&lit));
                }
            }
        }
        for b in 0..=255u8 {
            for tail in [&b""[..], b"\"", b"0041\"", b"x\""] {
                let lit = [b"\"\\", &[b][..], tail].concat();
                fam.case(|| lit.escape_ascii().to_string(), || literal(&lit));
            }
        }
    });
    c.fam("decode/cut", |fam| {
        let lit = b"\"a\\u00e9\\ud83d\\ude00\\n\xc3\xa9\xe6\xbc\xa2\xf0\x9f\x98\x80\\\\\"";
        for n in 1..=lit.len() {
            fam.case(|| lit[..n].escape_ascii().to_string(), || literal(&lit[..n]));
            for b in 0..=255 {
                let mut l = lit[..n].to_vec();
                l.push(b);
                fam.case(|| l.escape_ascii().to_string(), || literal(&l));
                l.push(b'"');
                fam.case(|| l.escape_ascii().to_string(), || literal(&l));
            }
        }
    });
    c.fam_sharded("decode/utf8", 16, |fam| {
        // One of each class of bytes of UTF-8, and its neighbours.
        let a = [
            0x7fu8, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0,
            0xf1, 0xf3, 0xf4, 0xf5, 0xff,
        ];
        let n = fam.bound(3, 4);
        kit::rng::sequences(a.len(), n, |q| {
            let raw: Vec<u8> = q.iter().map(|i| a[*i]).collect();
            for (pre, post) in [(&b"\""[..], &b"\""[..]), (b"\"\\n", b"\\n\""), (b"\"\xc3\xa9", b"x\"")] {
                let lit = [pre, &raw, post].concat();
                fam.case(|| lit.escape_ascii().to_string(), || literal(&lit));
            }
        });
        // All pairs, and the longer ones that are almost right.
        for x in 0..=255u8 {
            for y in 0..=255u8 {
                let lit = [b'"', x, y, b'"'];
                fam.case(|| lit.escape_ascii().to_string(), || literal(&lit));
                let lit = [b'"', 0xf0, x, y, 0x80, b'"'];
                fam.case(|| lit.escape_ascii().to_string(), || literal(&lit));
            }
        }
    });
    c.run()
}
