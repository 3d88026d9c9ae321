//! P11: JSON numbers decode to the number they denote.

use eng::{json, Dec, Json};
use kit::*;
use musli::alloc::System;
use musli::de::{Decode, Decoder};
use musli::en::Encode;
use musli::mode::Text;
use musli::value::Value;

kit::global_allocator!();

type E = musli::json::Error;

/// Skips whatever there is.
struct Skip;
impl<'de, M: 'static, A: musli::Allocator> Decode<'de, M, A> for Skip {
    const IS_BITWISE_DECODE: bool = false;
    fn decode<D: Decoder<'de, Mode = M, Allocator = A>>(d: D) -> Result<Self, D::Error> {
        d.skip()?;
        Ok(Skip)
    }
}

fn from<'de, T: Decode<'de, Text, System>>(b: &'de [u8]) -> Result<T, String> {
    musli::json::from_slice(b).map_err(|e: E| e.to_string())
}

fn from_mut<'de, T: Decode<'de, Text, System>>(b: &'de [u8]) -> Result<(T, &'de [u8]), String> {
    let mut m = b;
    let v = musli::json::decode(&mut m).map_err(|e: E| e.to_string())?;
    Ok((v, m))
}

trait Int: for<'de> Decode<'de, Text, System> + for<'de> Decode<'de, musli::mode::Binary, System> + Encode<Text> + Copy + PartialEq + std::fmt::Debug {
    const NAME: &'static str;
    const MIN: i128;
    const MAX: u128;
    /// The sign and the magnitude.
    fn parts(self) -> (bool, u128);
}

macro_rules! int {
    ($($t:ident)*) => { $(
        impl Int for $t {
            const NAME: &'static str = stringify!($t);
            const MIN: i128 = $t::MIN as i128;
            const MAX: u128 = $t::MAX as u128;
            #[allow(unused_comparisons)]
            fn parts(self) -> (bool, u128) {
                if self < 0 { (true, (self as i128).unsigned_abs()) } else { (false, self as u128) }
            }
        }
    )* };
}
int!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);

macro_rules! ints {
    ($f:ident($($a:expr),*)) => {{
        $f::<u8>($($a),*)?; $f::<u16>($($a),*)?; $f::<u32>($($a),*)?; $f::<u64>($($a),*)?; $f::<u128>($($a),*)?;
        $f::<usize>($($a),*)?; $f::<i8>($($a),*)?; $f::<i16>($($a),*)?; $f::<i32>($($a),*)?; $f::<i64>($($a),*)?;
        $f::<i128>($($a),*)?; $f::<isize>($($a),*)?;
    }};
}

/// What may be around a number.
const AROUND: [(&str, &str); 5] = [("", ""), (" ", " "), ("\t\r\n", "\n"), ("", ","), ("", "]")];

fn integer<T: Int>(text: &str, d: &Dec) -> Result<(), Failure> {
    let want = d.within(T::MIN, T::MAX);
    // Zero may be refused for its sign.
    let signed = T::MIN == 0 && d.neg;
    let judge = |what: &str, got: Result<T, String>| -> Result<(), Failure> {
        let p = got.as_ref().ok().map(|v| v.parts());
        ensure!(p == want || signed && p.is_none(), "{what} decodes {text} as {} {got:?} instead of {want:?}", T::NAME);
        Ok(())
    };
    judge("from_slice", from(text.as_bytes()))?;
    judge("from_str", musli::json::from_str(text).map_err(|e: E| e.to_string()))?;
    for (a, b) in &AROUND[1..] {
        let doc = format!("{a}{text}{b}");
        let r = from_mut::<T>(doc.as_bytes());
        if let Ok((_, rest)) = &r {
            let n = doc.len() - rest.len();
            ensure!(n == a.len() + text.len(), "decoding {doc:?} as {} advances by {n}", T::NAME);
        }
        judge("decode in the midst of other text", r.map(|r| r.0))?;
    }
    let doc = format!("[ {text} ,{text}\n]");
    let r = from::<[T; 2]>(doc.as_bytes());
    ensure!(r.as_ref().map_or(true, |r| r[0] == r[1]), "{doc} decodes as {r:?}");
    judge("an array", r.map(|r| r[1]))?;
    // Numbers are strings where they are keys.
    let doc = format!("{{\"{text}\":[]}}");
    let r = from::<Key<T>>(doc.as_bytes());
    judge("a key", r.map(|r| r.0))
}

/// A map with one entry.
struct Key<T>(T);
impl<'de, M: 'static, A: musli::Allocator, T: Decode<'de, M, A>> Decode<'de, M, A> for Key<T> {
    const IS_BITWISE_DECODE: bool = false;
    fn decode<D: Decoder<'de, Mode = M, Allocator = A>>(d: D) -> Result<Self, D::Error> {
        use musli::de::{EntryDecoder, MapDecoder};
        let cx = d.cx();
        d.decode_map(|m| {
            let Some(mut e) = m.decode_entry()? else {
                return Err(musli::Context::message(cx, "no entry"));
            };
            let k = e.decode_key()?.decode::<T>()?;
            e.decode_value()?.skip()?;
            Ok(Key(k))
        })
    }
}

/// Decoded through a value that holds any number.
fn dynamic<T: Int>(text: &str, d: &Dec) -> Result<(), Failure> {
    let v = from::<Value<System>>(text.as_bytes());
    let Ok(v) = v else {
        // A number that is beyond any type.
        return Ok(());
    };
    let got = musli::value::decode::<T>(&v).map_err(|e: musli::value::Error| e.to_string());
    // A value holds what is an integer as one.
    if d.within(i128::MIN, u128::MAX).is_some() && !(d.neg && d.digits.is_empty()) {
        let want = d.within(T::MIN, T::MAX);
        let p = got.as_ref().ok().map(|v| v.parts());
        ensure!(p == want, "{text} decodes through Value as {} {got:?} instead of {want:?}", T::NAME);
    } else if let Ok(v) = &got {
        // And all else as a float, which may be an integer.
        let p = v.parts();
        let f: f64 = text.parse().unwrap();
        let same = f.fract() == 0.0 && f.is_sign_negative() == (p.0 || f == 0.0 && d.neg) && p.1 as f64 == f.abs();
        let exact = f.abs() < 2f64.powi(128) && f.abs() as u128 == p.1;
        ensure!(same && exact, "{text} decodes through Value as {} {v:?}, but is {f:?}", T::NAME);
    }
    Ok(())
}

macro_rules! float {
    ($f:ident $t:ident) => {
        fn $f(text: &str) -> Result<u64, Failure> {
            let want: $t = text.parse().unwrap();
            let judge = |what: &str, got: Result<$t, String>| -> Result<(), Failure> {
                match &got {
                    Ok(g) if g.to_bits() == want.to_bits() => Ok(()),
                    _ => fail!("{what} decodes {text} as {} {got:?} instead of {want:?}", stringify!($t)),
                }
            };
            judge("from_slice", from(text.as_bytes()))?;
            for (a, b) in &AROUND[1..] {
                let doc = format!("{a}{text}{b}");
                let r = from_mut::<$t>(doc.as_bytes());
                if let Ok((_, rest)) = &r {
                    let n = doc.len() - rest.len();
                    ensure!(n == a.len() + text.len(), "decoding {doc:?} as {} advances by {n}", stringify!($t));
                }
                judge("decode in the midst of other text", r.map(|r| r.0))?;
            }
            let doc = format!("[ {text} ,{text}\n]");
            judge("an array", from::<[$t; 2]>(doc.as_bytes()).map(|r| r[1]))?;
            Ok(want.to_bits() as u64)
        }
    };
}
float!(float32 f32);
float!(float64 f64);

/// A valid number, as everything.
fn number(text: &str) -> CaseResult {
    let d = Dec::new(text);
    ints!(integer(text, &d));
    let a = float32(text)?;
    let b = float64(text)?;
    ints!(dynamic(text, &d));
    // Skipping it goes to its end.
    for (x, y) in AROUND {
        let doc = format!("{x}{text}{y}");
        let (_, rest) = from_mut::<Skip>(doc.as_bytes())?;
        ensure!(doc.len() - rest.len() == x.len() + text.len(), "skipping {doc:?} leaves {}", rest.len());
    }
    // Through a value, what is not an integer is a float.
    if d.integer().is_none() || d.neg && d.digits.is_empty() {
        let v = from::<Value<System>>(text.as_bytes())?;
        let f: f64 = musli::value::decode(&v).map_err(|e: musli::value::Error| Failure::from(e.to_string()))?;
        ensure!(f.to_bits() == b, "{text} decodes through Value as {f:?}");
    }
    Ok(Fp::new().u64(a).u64(b).str(&format!("{:?}", d.integer())).done())
}

/// Text that may or may not be a number.
fn maybe(text: &str) -> CaseResult {
    match json(text.as_bytes()) {
        Ok(Json::Num(t)) if t == text => number(text),
        _ => {
            // What is not a number may be accepted, but not as one that its
            // beginning does not denote.
            fn prefix<T: Int>(text: &str) -> Result<(), Failure> {
                let mut m = text.as_bytes();
                let Ok(v) = musli::json::decode::<_, T>(&mut m).map_err(|e: E| e.to_string()) else {
                    return Ok(());
                };
                let used = &text[..text.len() - m.len()];
                // A point without a fraction, an exponent without digits.
                let used = used.replace(".e", "e").replace(".E", "E");
                let used = used.trim_end_matches(['e', 'E', '+', '-']).trim_end_matches('.');
                let Ok(Json::Num(t)) = json(used.as_bytes()) else {
                    fail!("{text} decodes as {} {v:?}", T::NAME)
                };
                let want = Dec::new(&t).within(T::MIN, T::MAX);
                ensure!(Some(v.parts()) == want, "{text} decodes as {} {v:?} instead of {want:?}", T::NAME);
                Ok(())
            }
            ints!(prefix(text));
            let _ = from::<f64>(text.as_bytes());
            let _ = from::<f32>(text.as_bytes());
            Ok(1)
        }
    }
}

/// A float comes back from what it is encoded as.
fn bits32(bits: u32) -> CaseResult {
    let f = f32::from_bits(bits);
    let b = musli::json::to_vec(&f).map_err(|e: E| Failure::from(e.to_string()))?;
    let s = std::str::from_utf8(&b).unwrap_or("");
    ensure!(matches!(json(&b), Ok(Json::Num(_))), "{f:?} encodes as {}", b.escape_ascii());
    ensure!(s.parse::<f32>().is_ok_and(|g| g.to_bits() == bits), "{f:?} encodes as {s}");
    let g = from::<f32>(&b)?;
    ensure!(g.to_bits() == bits, "{f:?} encodes as {s} which decodes as {g:?}");
    Ok(Fp::new().u64(bits as u64).done())
}

fn bits64(bits: u64) -> CaseResult {
    let f = f64::from_bits(bits);
    let b = musli::json::to_vec(&f).map_err(|e: E| Failure::from(e.to_string()))?;
    let s = std::str::from_utf8(&b).unwrap_or("");
    ensure!(matches!(json(&b), Ok(Json::Num(_))), "{f:?} encodes as {}", b.escape_ascii());
    ensure!(s.parse::<f64>().is_ok_and(|g| g.to_bits() == bits), "{f:?} encodes as {s}");
    let g = from::<f64>(&b)?;
    ensure!(g.to_bits() == bits, "{f:?} encodes as {s} which decodes as {g:?}");
    let v = from::<Value<System>>(&b)?;
    let d = Dec::new(s);
    if d.integer().is_none() || bits == 1 << 63 {
        let g: f64 = musli::value::decode(&v).map_err(|e: musli::value::Error| Failure::from(e.to_string()))?;
        ensure!(g.to_bits() == bits, "{f:?} encodes as {s} which decodes through Value as {g:?}");
    }
    Ok(Fp::new().u64(bits).done())
}

/// The patterns of the low bits which matter.
fn mantissas(n: u32, few: u64) -> Vec<u64> {
    let max = (1u64 << n) - 1;
    let mut v: Vec<u64> = (0..few).chain((0..few).map(|i| max - i)).collect();
    for i in 0..n {
        for d in 0..=2 {
            v.push(((1u64 << i) + d).wrapping_sub(1) & max);
            v.push(max ^ (1 << i));
        }
    }
    for p in [0x5555_5555_5555_5555u64, 0x3333_3333_3333_3333, 0x0123_4567_89ab_cdef, 0x9249_2492_4924_9249] {
        v.push(p & max);
        v.push(!p & max);
    }
    v.sort_unstable();
    v.dedup();
    v
}

/// The decimal digits of an integer, most significant first.
struct Big(Vec<u32>);
impl Big {
    fn new(n: u64) -> Big {
        let mut b = Big(Vec::new());
        let mut n = n;
        while n > 0 {
            b.0.push((n % 1_000_000_000) as u32);
            n /= 1_000_000_000;
        }
        b
    }
    fn mul(&mut self, m: u32) {
        let mut carry = 0u64;
        for d in &mut self.0 {
            let x = *d as u64 * m as u64 + carry;
            *d = (x % 1_000_000_000) as u32;
            carry = x / 1_000_000_000;
        }
        if carry > 0 {
            self.0.push(carry as u32);
        }
    }
    fn text(&self) -> String {
        let mut s = String::new();
        for (i, d) in self.0.iter().rev().enumerate() {
            s += &if i == 0 { format!("{d}") } else { format!("{d:09}") };
        }
        s
    }
}

/// The text of `m * 2^e`, exactly: all of its digits, and its exponent.
fn exact(m: u64, e: i32) -> (String, i32) {
    let mut b = Big::new(m);
    if e >= 0 {
        (0..e).for_each(|_| b.mul(2));
        (b.text(), 0)
    } else {
        (0..-e).for_each(|_| b.mul(5));
        (b.text(), e)
    }
}

/// Numbers around halfway between a float and the next.
fn halfway(fam: &mut Fam<'_>, m: u64, e: i32) {
    fam.case(|| format!("between {m} * 2^{e} and {} * 2^{e}", m + 1), || between(m, e));
}

fn between(m: u64, e: i32) -> CaseResult {
    // Between m * 2^e and (m + 1) * 2^e.
    let (digits, exp) = exact(2 * m + 1, e - 1);
    let mut texts = vec![format!("{digits}e{exp}")];
    // One more and one less in the last digit, and far beyond it.
    texts.push(format!("{digits}{}1e{}", "0".repeat(30), exp - 31));
    let mut less = digits.clone().into_bytes();
    let last = less.iter().rposition(|c| *c != b'0').unwrap();
    less[last] -= 1;
    less[last + 1..].iter_mut().for_each(|c| *c = b'9');
    let less = String::from_utf8(less).unwrap();
    if !less.starts_with('0') {
        texts.push(format!("{less}{}e{}", "9".repeat(30), exp - 30));
    }
    // With a point in it.
    if digits.len() > 1 {
        texts.push(format!("{}.{}e{}", &digits[..1], &digits[1..], exp + digits.len() as i32 - 1));
    }
    // Cut to what a fast path takes.
    for n in [17, 19, 20] {
        if digits.len() > n {
            texts.push(format!("{}e{}", &digits[..n], exp + (digits.len() - n) as i32));
        }
    }
    let mut fp = Fp::new();
    for t in texts {
        float32(&t)?;
        fp = fp.u64(float64(&t)?).str(&t);
        let t = format!("-{t}");
        float32(&t)?;
        float64(&t)?;
    }
    Ok(fp.done())
}

fn main() {
    let mut c = Check::new(
        "P11",
        Level::Exploration,
        "every text of at most seven (eight) of the characters of numbers; for every integer type every number around its bounds and around powers of ten, written with every place of the point and exponent; floats of every exponent with every mantissa pattern that matters (all f32 in the thorough tier), and the exact decimal expansions of the points halfway between them; each decoded as every type and through Value, and compared with exact decimal arithmetic and with Rust's own parsing; a case is one text or float, distinct by what it denotes",
    );
    c.assume("text that is not a number by RFC 8259 (1., 1e) may be accepted, but then integers have to be what its beginning denotes");
    c.assume("-0 as an unsigned integer may be refused or be zero");
    c.fam_sharded("text", 16, |fam| {
        let a = ["0", "1", "2", "5", "9", "-", ".", "e", "E", "+"];
        let n = fam.bound(7, 8);
        kit::rng::sequences(a.len(), n, |q| {
            // E and + are to e and - what 2 is to 1, so they need fewer.
            if !fam.thorough() && q.len() == 7 && q.iter().any(|i| matches!(i, 2 | 8 | 9)) {
                return;
            }
            let text: String = q.iter().map(|i| a[*i]).collect();
            fam.case(|| text.clone(), || maybe(&text));
        });
    });
    c.fam_sharded("bounds", 16, |fam| {
        // Around every bound and power of ten, in every way to write it.
        let mut around: Vec<u128> = vec![0];
        for bits in [7u32, 8, 15, 16, 31, 32, 63, 64, 127] {
            around.push(1u128 << bits);
        }
        for n in [1, 2, 3, 9, 10, 18, 19, 20, 37, 38] {
            around.push(10u128.pow(n));
            around.push(3 * 10u128.pow(n));
        }
        let mut ns: Vec<String> = Vec::new();
        for n in &around {
            for d in 0..=3u128 {
                ns.push((n + d).to_string());
                if *n >= d {
                    ns.push((n - d).to_string());
                }
            }
            ns.push((n.saturating_mul(10)).to_string());
        }
        for d in 0..=3u128 {
            ns.push((u128::MAX - d).to_string());
        }
        // Beyond the largest.
        ns.push("340282366920938463463374607431768211456".into());
        ns.push("340282366920938463463374607431768211460".into());
        ns.push("3402823669209384634633746074317682114560".into());
        ns.push("9".repeat(39));
        ns.push("1".to_owned() + &"0".repeat(50));
        ns.sort();
        ns.dedup();
        for n in &ns {
            for zeros in [0usize, 1, 3, 20, 45] {
                for places in 0..=n.len() + zeros + 2 {
                    if places > 6 && places + 4 < n.len() && !fam.thorough() && places % 5 != 0 {
                        continue;
                    }
                    // All digits, with the point before the last few of them.
                    let mut digits = n.clone() + &"0".repeat(zeros);
                    if digits.len() <= places {
                        digits = "0".repeat(places + 1 - digits.len()) + &digits;
                    }
                    let (int, frac) = digits.split_at(digits.len() - places);
                    let int = int.trim_start_matches('0');
                    let int = if int.is_empty() { "0" } else { int };
                    let e = places as i32 - zeros as i32;
                    let mant = if frac.is_empty() { int.to_owned() } else { format!("{int}.{frac}") };
                    let mut ways = vec![];
                    if e == 0 {
                        ways.push(mant.clone());
                    }
                    ways.push(format!("{mant}e{e}"));
                    if e >= 0 {
                        ways.push(format!("{mant}E+{e:03}"));
                        // One less, which is a fraction or another number.
                        ways.push(format!("{mant}e{}", e - 1));
                    } else {
                        ways.push(format!("{mant}E-{:03}", -e));
                    }
                    for w in ways {
                        for sign in ["", "-"] {
                            let t = format!("{sign}{w}");
                            fam.case(|| t.clone(), || number(&t));
                        }
                    }
                }
            }
        }
    });
    c.fam("exponents", |fam| {
        // Exponents beyond all bounds.
        let mants = ["0", "-0", "0.0", "0.000", "1", "-1", "1.0", "1.5", "100", "0.001", "123456789012345678901234567890", "0.0000000000000000000000000000000000000001"];
        let mut exps: Vec<String> = (0..=400).map(|e| e.to_string()).collect();
        for e in [1u128 << 15, 1 << 16, 1 << 31, (1 << 31) - 1, 1 << 32, 1 << 63, 1 << 64, u128::MAX] {
            exps.push(e.to_string());
            exps.push((e - 1).to_string());
        }
        exps.push("9".repeat(60));
        exps.push("0".repeat(60));
        exps.push("0".repeat(60) + "1");
        for m in mants {
            for e in &exps {
                for s in ["", "-", "+"] {
                    let t = format!("{m}e{s}{e}");
                    fam.case(|| t.clone(), || number(&t));
                }
            }
        }
        // And fractions.
        for n in [1, 10, 39, 40, 100, 400, 1000] {
            for t in [
                format!("1.{}", "0".repeat(n)),
                format!("1.{}1", "0".repeat(n)),
                format!("1.{}1e{}", "0".repeat(n), n + 1),
                format!("0.{}1e{}", "0".repeat(n), n + 1),
                format!("0.{}12e{}", "0".repeat(n), n + 1),
                format!("1{}e-{n}", "0".repeat(n)),
                format!("1{}e-{}", "0".repeat(n), n + 1),
                format!("0.{}e5", "0".repeat(n)),
                format!("{}.5", "9".repeat(n)),
                format!("0.{}", "9".repeat(n)),
            ] {
                fam.case(|| t.clone(), || number(&t));
            }
        }
    });
    c.fam_sharded("f32", 16, |fam| {
        if fam.thorough() {
            // All of them.
            for hi in 0..1u32 << 16 {
                fam.case(
                    || format!("{:08x}..", hi << 16),
                    || {
                        let mut n = 0;
                        for lo in 0..1u32 << 16 {
                            let bits = hi << 16 | lo;
                            if f32::from_bits(bits).is_finite() {
                                n ^= bits32(bits)?;
                            }
                            if lo & 0xfff == 0 {
                                kit::progress();
                            }
                        }
                        Ok(Fp::new().u64(n).u64(hi as u64).done())
                    },
                );
            }
            return;
        }
        let ms = mantissas(23, 300);
        for e in 0..255u32 {
            for m in &ms {
                for s in [0, 1 << 31] {
                    let bits = s | e << 23 | *m as u32;
                    fam.case(|| format!("{bits:08x}"), || bits32(bits));
                }
            }
        }
    });
    c.fam_sharded("f64", 16, |fam| {
        let ms = mantissas(52, if fam.thorough() { 2000 } else { 100 });
        for e in 0..2047u64 {
            for m in &ms {
                for s in [0, 1 << 63] {
                    let bits = s | e << 52 | m;
                    fam.case(|| format!("{bits:016x}"), || bits64(bits));
                }
            }
        }
    });
    c.fam_sharded("halfway/f32", 16, |fam| {
        let ms = if fam.thorough() { mantissas(23, 20) } else { vec![0, 1, 2, (1 << 23) - 1, (1 << 23) - 2, 0x555555, 1 << 22] };
        for e in 0..255i32 {
            for m in &ms {
                let (m, e) = if e == 0 { (*m, -149) } else { (m | 1 << 23, e - 150) };
                halfway(fam, m, e);
            }
        }
    });
    c.fam_sharded("halfway/f64", 16, |fam| {
        let ms = if fam.thorough() { mantissas(52, 4) } else { vec![0, 1, (1 << 52) - 1, 0x5_5555_5555_5555] };
        let step = fam.bound(7, 1);
        for e in (0..2047i32).filter(|e| *e as usize % step == 0 || *e < 10 || *e > 2030 || (1000..1100).contains(e)) {
            for m in &ms {
                let (m, e) = if e == 0 { (*m, -1074) } else { (m | 1 << 52, e - 1075) };
                halfway(fam, m, e);
            }
        }
    });
    c.run()
}
