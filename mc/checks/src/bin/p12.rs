//! P12: JSON output is valid JSON and every valid JSON document is understood.

use eng::stds::prelude::*;
use eng::zoo::{Index, *};
use eng::*;
use kit::*;
use musli::alloc::System;
use musli::value::Value;
use musli::{Allocator, Decode, Decoder};

kit::global_allocator!();

/// Decodes by skipping.
#[derive(Debug)]
struct Skipped;

impl<'de, M: 'static, A: Allocator> Decode<'de, M, A> for Skipped {
    const IS_BITWISE_DECODE: bool = false;
    fn decode<D>(decoder: D) -> Result<Self, D::Error>
    where
        D: Decoder<'de, Mode = M, Allocator = A>,
    {
        decoder.skip()?;
        Ok(Skipped)
    }
}

/// Is every run of characters that begins like a number one? What the others
/// are is for P11.
fn numbers_fine(b: &[u8]) -> bool {
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'"' => {
                i += 1;
                while i < b.len() && b[i] != b'"' {
                    i += if b[i] == b'\\' { 2 } else { 1 };
                }
                i += 1;
            }
            b'-' | b'0'..=b'9' => {
                let start = i;
                while i < b.len() && matches!(b[i], b'0'..=b'9' | b'-' | b'+' | b'.' | b'e' | b'E') {
                    i += 1;
                }
                let Ok(Json::Num(n)) = json(&b[start..i]) else {
                    return false;
                };
                if !n.parse::<f64>().unwrap().is_finite() {
                    return false;
                }
            }
            _ => i += 1,
        }
    }
    true
}

/// What to decode documents as.
enum As<'a> {
    Any,
    Value,
    Skip,
    Shape(&'a Shape),
}

/// Decodes what is at the start of the input, and says how much is left.
fn decode<F: Format>(b: &[u8], what: &As<'_>) -> Result<(Option<Any>, Option<Val>, usize), String> {
    Ok(match what {
        As::Any => {
            let (t, r) = F::dec_rest::<Any>(b)?;
            (Some(t), None, r)
        }
        As::Value => {
            let (v, r) = F::dec_rest::<Value<System>>(b)?;
            (Some(Any::of(&v)?), None, r)
        }
        As::Skip => (None, None, F::dec_rest::<Skipped>(b)?.1),
        As::Shape(s) => {
            let (v, r) = with_shape(s, || F::dec_rest::<Out>(b))?;
            (None, Some(v.0), r)
        }
    })
}

/// Compare what is decoded with what the document denotes.
fn judge<F: Format>(b: &[u8], what: As<'_>) -> CaseResult {
    let strict = json_prefix(b);
    let loose = json_loose_prefix(b);
    let got = no_panic(|| decode::<F>(b, &what))?;
    if !numbers_fine(b) {
        return Ok(0);
    }
    match (&strict, &loose) {
        (Ok((j, n)), _) => {
            let want = match &what {
                As::Shape(s) => match json_typed(s, j) {
                    Ok(v) => Some(v),
                    Err(No::Wrong) => {
                        if let Ok(got) = got {
                            fail!("decoded {} as {}", String::from_utf8_lossy(b), got.1.unwrap());
                        }
                        return Ok(Fp::new().bytes(b).str("wrong").done());
                    }
                    Err(No::Unclear) => return Ok(0),
                },
                _ => None,
            };
            let (tree, val, rest) = got.map_err(|e| format!("{:?} was refused: {e}", String::from_utf8_lossy(b)))?;
            if let Some(t) = tree {
                ensure!(t.is(j), "decoded {t:?}, not {j:?}");
            }
            if let (Some(v), Some(w)) = (val, want) {
                ensure!(v == w, "decoded {v}, not {w}");
            }
            ensure!(
                rest == b.len() - n,
                "{rest} bytes were left of {:?}, not {}",
                String::from_utf8_lossy(b),
                b.len() - n
            );
            Ok(Fp::new().bytes(b).done())
        }
        // Commas are taken lightly.
        (Err(_), Ok(_)) => Ok(0),
        (Err(_), Err(e)) => {
            // The content of strings does not matter for skipping.
            if matches!(what, As::Skip) && in_string(e) {
                return Ok(0);
            }
            if let As::Shape(s) = &what {
                if in_string(e) || s.any(&|s| *s == Shape::Unit) {
                    return Ok(0);
                }
                // Neither is a number by RFC 8259, nor does it begin like one.
                let float = s.any(&|s| matches!(s, Shape::F32 | Shape::F64));
                if float && matches!(b.get(e.0), Some(b'+' | b'.' | b'i' | b'n' | b'I' | b'N')) {
                    return Ok(0);
                }
            }
            ensure!(got.is_err(), "{:?} was accepted although {e}", String::from_utf8_lossy(b));
            Ok(Fp::new().bytes(b).str("bad").done())
        }
    }
}

fn in_string(e: &Bad) -> bool {
    matches!(e.1, "lone surrogate" | "unknown escape" | "no hex digit" | "not UTF-8" | "control character")
}

/// Other documents that denote the same.
fn rewritten(b: &[u8], all_gaps: bool, each: &mut dyn FnMut(&str, &[u8]) -> Result<(), Failure>) -> Result<(), Failure> {
    let toks = json_tokens(b);
    let mut out = Vec::new();
    const WS: [&str; 2] = [" ", "\t\r\n "];
    for ws in WS {
        out.clear();
        for t in &toks {
            out.extend_from_slice(ws.as_bytes());
            out.extend_from_slice(&b[t.clone()]);
        }
        out.extend_from_slice(ws.as_bytes());
        each("white space everywhere", &out)?;
        for gap in 0..=toks.len() {
            if !(all_gaps || gap < 4 || gap + 2 > toks.len()) {
                continue;
            }
            out.clear();
            for (i, t) in toks.iter().enumerate() {
                if i == gap {
                    out.extend_from_slice(ws.as_bytes());
                }
                out.extend_from_slice(&b[t.clone()]);
            }
            if gap == toks.len() {
                out.extend_from_slice(ws.as_bytes());
            }
            each("white space in one place", &out)?;
        }
    }
    for upper in [false, true] {
        out.clear();
        for t in &toks {
            if b[t.start] != b'"' {
                out.extend_from_slice(&b[t.clone()]);
                continue;
            }
            let (s, _) = json_string(&b[t.clone()]).unwrap();
            out.push(b'"');
            for u in s.encode_utf16() {
                let e = if upper { format!("\\u{u:04X}") } else { format!("\\u{u:04x}") };
                out.extend_from_slice(e.as_bytes());
            }
            out.push(b'"');
        }
        each("escaped strings", &out)?;
    }
    for add in [".0", "e0", "0E-1", ".00e+0"] {
        out.clear();
        for t in &toks {
            out.extend_from_slice(&b[t.clone()]);
            let s = &b[t.clone()];
            if matches!(s[0], b'-' | b'0'..=b'9') && s.iter().all(|c| matches!(c, b'-' | b'0'..=b'9')) && s != b"0" {
                out.extend_from_slice(add.as_bytes());
            }
        }
        each("numbers as fractions and exponents", &out)?;
    }
    Ok(())
}

/// What is encoded is what it denotes, however it is written.
fn emitted<F: Format>(fam: &mut Fam<'_>, s: &Shape, v: &Val, all_gaps: bool) {
    if !supports(F::KIND, F::OPT, s) || v.non_finite() {
        return;
    }
    let mut n = 0;
    fam.case(
        || format!("{s} = {v}"),
        || {
            let b = F::enc(&Dyn(s, v))?;
            let j = json(&b).map_err(|e| format!("{:?}: {e}", String::from_utf8_lossy(&b)))?;
            // None and unit look the same.
            if v.null_in_some() {
                return Ok(0);
            }
            let w = json_typed(s, &j);
            ensure!(w.as_ref() == Ok(v), "encoded as {}", String::from_utf8_lossy(&b));
            rewritten(&b, all_gaps, &mut |how, b| {
                n += 1;
                let what = || format!("with {how}, {:?}", String::from_utf8_lossy(b));
                let got = with_shape(s, || F::dec::<Out>(b)).map_err(|e| format!("{}: {e}", what()))?.0;
                ensure!(got == *v, "{} decodes as {got}", what());
                let t = F::dec::<Any>(b).map_err(|e| format!("{}: {e}", what()))?;
                let j = json(b).unwrap();
                ensure!(t.is(&j), "{} is {t:?}", what());
                Ok(())
            })?;
            Ok(Fp::new().bytes(&b).done())
        },
    );
    fam.count_transitions(n);
}

fn typed<F: Format, T: InFormat<F>>(c: &mut Check) {
    if !T::WHERE.ok(F::KIND) {
        return;
    }
    c.fam(format!("emit/{}/{}", T::NAME, F::NAME), |fam| {
        let level = if fam.thorough() { 0 } else { 2 };
        for v in T::samples(level) {
            fam.case(
                || format!("{v:?}"),
                || {
                    let b = v.fenc()?;
                    let j = json(&b).map_err(|e| format!("{:?}: {e}", String::from_utf8_lossy(&b)))?;
                    let t = F::dec::<Any>(&b)?;
                    ensure!(t.is(&j), "{:?} is {t:?}", String::from_utf8_lossy(&b));
                    // Whether it roundtrips is for P02 and P19.
                    let Ok(x) = T::fdec(&b) else { return Ok(0) };
                    rewritten(&b, b.len() < 100, &mut |how, b| {
                        let what = || format!("with {how}, {:?}", String::from_utf8_lossy(b));
                        let got = T::fdec(b).map_err(|e| format!("{}: {e}", what()))?;
                        ensure!(got == x, "{} decodes as {got:?}", what());
                        Ok(())
                    })?;
                    Ok(Fp::new().bytes(&b).done())
                },
            );
        }
    });
}

macro_rules! types {
    ($c:ident $f:ident; $([$t:ty])*) => { $( typed::<$f, $t>(&mut $c); )* };
    ($c:ident $f:ident; $($t:ident)*) => { $( typed::<$f, $t>(&mut $c); )* };
}

/// Shapes that the documents of the grammar have.
fn shapes() -> Vec<Shape> {
    use Shape::*;
    let s = |s: &'static str| Key::S(s);
    vec![
        Bool,
        U8,
        I16,
        F64,
        Char,
        Str,
        Bytes,
        Arr(1),
        Shape::opt(U8),
        Shape::seq(U8),
        Shape::seq(Shape::opt(Bool)),
        Shape::seq(Shape::seq(Str)),
        Pack(vec![U8, Shape::opt(Str)]),
        Pack(vec![]),
        Shape::map(Str, U8),
        Shape::map(U8, Shape::opt(U8)),
        Shape::map(Str, Shape::seq(U8)),
        Struct(vec![(s("a"), U8), (s("b"), Shape::opt(Bool))]),
        Struct(vec![(Key::U(1), U8)]),
        Struct(vec![]),
        Enum(vec![(s("a"), U8), (s("b"), Shape::seq(Bool))]),
        Enum(vec![(Key::U(1), Shape::opt(U8))]),
        Shape::opt(Struct(vec![(s("a"), Shape::opt(U8))])),
        Shape::opt(Shape::seq(Enum(vec![(s("a"), U8)]))),
    ]
}

const DOCS: &[&str] = &[
    "null",
    "true",
    "false",
    "0",
    "1",
    "-1",
    "255",
    "256",
    "1.5",
    "-0",
    "1e2",
    r#""""#,
    r#""a""#,
    r#""1""#,
    r#""ab""#,
    r#""\u0061""#,
    r#""true""#,
    r#""null""#,
    "[]",
    "[1]",
    "[null]",
    "[true,false]",
    "[[]]",
    "[{}]",
    r#"["a"]"#,
    r#"[["a","b"],[]]"#,
    "[1,null]",
    r#"[1,"a"]"#,
    "[1,2,3]",
    r#"[{"a":1}]"#,
    "{}",
    r#"{"a":1}"#,
    r#"{"b":[true]}"#,
    r#"{"a":null}"#,
    r#"{"1":1}"#,
    r#"{"1":null,"2":2}"#,
    r#"{"256":1}"#,
    r#"{"":1}"#,
    r#"{"1x":1}"#,
    r#"{"a":1,"b":true}"#,
    r#"{"b":null,"a":2,"c":[{"d":{}}]}"#,
    r#"{"a":1,"c":"]}"}"#,
    r#"{"a":[1,2]}"#,
    r#"{"a":{"a":{"a":[]}}}"#,
    r#"[1.5e-1,"x\ny",{"k":false}]"#,
];

fn main() {
    let mut c = Check::new(
        "P12",
        Level::Exploration,
        "every shape and boundary value, derived and standard type encoded as JSON, read by an independent reader of RFC 8259, and decoded with white space in every gap, escaped strings and rewritten numbers; every sequence of tokens up to the length, every small edit of documents, and every pair of a document and a shape, decoded and compared with that reader; distinct by (document, verdict)",
    );
    c.assume("commas are not among what the property demands: documents with missing or extra commas may be accepted or refused");
    c.assume("text that begins like a number and is none is left to P11, and what is wrong inside of a string to P10 where it is skipped");
    c.assume("unit may be decoded from anything, a tuple may ignore further elements, and of a field that is there twice either may count");
    macro_rules! emits {
        ($f:ident) => {
            c.fam(format!("emit/leaf/{}", $f::NAME), |fam| {
                for s in leaves() {
                    for v in values(&s, if fam.thorough() { 0 } else { 1 }) {
                        emitted::<$f>(fam, &s, &v, fam.thorough());
                    }
                }
            });
            c.fam(format!("emit/container/{}", $f::NAME), |fam| {
                for s in containers(&leaves(), &[Shape::U8, Shape::Str]) {
                    for v in values(&s, if fam.thorough() { 1 } else { 2 }) {
                        emitted::<$f>(fam, &s, &v, fam.thorough());
                    }
                }
            });
            c.fam_sharded(format!("emit/nested/{}", $f::NAME), 8, |fam| {
                let base = if fam.thorough() { class_leaves() } else { tiny_leaves() };
                for s in nested(&base) {
                    for v in values(&s, if fam.thorough() { 2 } else { 3 }) {
                        emitted::<$f>(fam, &s, &v, true);
                    }
                }
            });
            each_zoo!(types c $f);
            each_std!(types c $f);
        };
    }
    emits!(JsonText);
    emits!(JsonBinary);
    c.fam_sharded("tokens", 32, |fam| {
        let a = ["{", "}", "[", "]", ",", ":", "\"a\"", "1", "null", "true"];
        let shapes = shapes();
        rng::sequences(a.len(), fam.bound(6, 7), |seq| {
            if !fam.peek_mine() {
                fam.case(String::new, || Ok(0));
                return;
            }
            let toks: Vec<&str> = seq.iter().map(|&i| a[i]).collect();
            let plain = toks.concat();
            let spaced = toks.join(" ");
            fam.case(
                || format!("{spaced:?}"),
                || {
                    let mut out = 0;
                    for b in [&plain, &spaced] {
                        let b = b.as_bytes();
                        out = judge::<JsonText>(b, As::Any)?;
                        judge::<JsonText>(b, As::Skip)?;
                        // Any prefix that is bad has been tried with every shape.
                        let bad = toks.len() > 1 && {
                            let shorter = toks[..toks.len() - 1].join(" ");
                            json_loose_prefix(shorter.as_bytes()).is_err_and(|e| e.0 < shorter.len())
                        };
                        if !bad {
                            for s in &shapes {
                                judge::<JsonText>(b, As::Shape(s)).map_err(|mut e| {
                                    e.msg = format!("as {s}: {}", e.msg);
                                    e
                                })?;
                            }
                        }
                    }
                    Ok(out)
                },
            );
        });
    });
    c.fam_sharded("grammar", 16, |fam| {
        let shapes = shapes();
        let max = fam.bound(9, 11);
        // The documents of each number of tokens, and the sequences of
        // elements and of entries, with the commas in front of them.
        let mut docs: Vec<Vec<String>> = vec![vec![]];
        let mut elems: Vec<Vec<String>> = vec![vec![String::new()]];
        let mut entries: Vec<Vec<String>> = vec![vec![String::new()]];
        for n in 1..=max {
            let mut d: Vec<String> = Vec::new();
            if n == 1 {
                d.extend(["null", "false", "1", "-2.5", "\"a\""].map(String::from));
            }
            if n >= 2 {
                // A comma less than there are elements.
                d.extend(elems[if n == 2 { 0 } else { n - 1 }].iter().map(|e| format!("[{}]", e.trim_start_matches(','))));
                d.extend(entries[if n == 2 { 0 } else { n - 1 }].iter().map(|e| format!("{{{}}}", e.trim_start_matches(','))));
            }
            docs.push(d);
            let mut el = Vec::new();
            let mut en = Vec::new();
            for k in 1..n {
                for last in &docs[k] {
                    for before in &elems[n - 1 - k] {
                        el.push(format!("{before},{last}"));
                    }
                    if n >= 3 + k {
                        for before in &entries[n - 3 - k] {
                            for key in ["\"a\"", "\"1\""] {
                                en.push(format!("{before},{key}:{last}"));
                            }
                        }
                    }
                }
            }
            elems.push(el);
            entries.push(en);
        }
        for doc in docs.iter().flatten() {
            fam.case(
                || doc.clone(),
                || {
                    let b = doc.as_bytes();
                    ensure!(json(b).is_ok(), "not a document");
                    let out = judge::<JsonText>(b, As::Any)?;
                    judge::<JsonText>(b, As::Value)?;
                    judge::<JsonText>(b, As::Skip)?;
                    for s in &shapes {
                        judge::<JsonText>(b, As::Shape(s)).map_err(|mut e| {
                            e.msg = format!("as {s}: {}", e.msg);
                            e
                        })?;
                    }
                    Ok(out)
                },
            );
        }
    });
    c.fam("types", |fam| {
        let mut all = shapes();
        all.extend(leaves());
        all.extend(containers(&tiny_leaves(), &[Shape::U8]));
        if fam.thorough() {
            all.extend(nested(&[Shape::U8, Shape::Str, Shape::Bool]));
        }
        for s in &all {
            if !supports(Kind::Json, JsonText::OPT, s) {
                continue;
            }
            for d in DOCS {
                for (pre, post) in [("", ""), (" ", ""), ("", " "), ("", ",0")] {
                    let b = format!("{pre}{d}{post}");
                    fam.case(|| format!("{s} from {b:?}"), || judge::<JsonText>(b.as_bytes(), As::Shape(s)));
                }
            }
        }
    });
    // Every byte replaced, removed and added, twice when thorough.
    c.fam_sharded("edits", 32, |fam| {
        let shapes = shapes();
        let bytes: Vec<u8> = b"{}[],:\"\\ \n01a-.entfu\x00\x1f\x80\xc3\xff".to_vec();
        let twice = fam.thorough();
        for d in DOCS {
            let fit: Vec<&Shape> = match json(d.as_bytes()) {
                Ok(j) => shapes.iter().filter(|s| json_typed(s, &j).is_ok()).collect(),
                Err(_) => continue,
            };
            let one = |fam: &mut Fam<'_>, b: &[u8]| {
                fam.case(
                    || format!("{:?}", String::from_utf8_lossy(b)),
                    || {
                        let out = judge::<JsonText>(b, As::Any)?;
                        judge::<JsonText>(b, As::Value)?;
                        judge::<JsonText>(b, As::Skip)?;
                        for s in &fit {
                            judge::<JsonText>(b, As::Shape(s)).map_err(|mut e| {
                                e.msg = format!("as {s}: {}", e.msg);
                                e
                            })?;
                        }
                        Ok(out)
                    },
                );
            };
            let edits = |b: &[u8], from: usize, all: bool, each: &mut dyn FnMut(&[u8], usize)| {
                for i in from..=b.len() {
                    let mut c = b.to_vec();
                    if i < b.len() {
                        c.remove(i);
                        each(&c, i);
                    }
                    for x in 0..=255u8 {
                        if !all && !bytes.contains(&x) {
                            continue;
                        }
                        let mut c = b.to_vec();
                        c.insert(i, x);
                        each(&c, i);
                        if i < b.len() && b[i] != x {
                            c.remove(i + 1);
                            each(&c, i);
                        }
                    }
                }
            };
            edits(d.as_bytes(), 0, true, &mut |b, i| {
                one(fam, b);
                if twice && d.len() < 14 && bytes.contains(&b[i.min(b.len() - 1)]) {
                    edits(b, i, false, &mut |b, _| one(fam, b));
                }
            });
        }
    });
    c.run()
}
