//! P05: decoding arbitrary bytes is safe, bounded and yields valid values.

use std::cell::RefCell;
use std::fmt::Debug;
use std::sync::atomic::AtomicBool;

use eng::stds::prelude::*;
use eng::zoo::{Index, *};
use eng::*;
use kit::guard::GuardBuf;
use kit::*;
use musli::alloc::System;
use musli::de::{Decode, Decoder};

kit::global_allocator!();

/// What a decode may use on top of a multiple of the size of its input. A
/// collection reserves at most one mebibyte up front, of which at most a few
/// are alive at the same time.
const MEMORY: usize = 8 << 20;
const PER_BYTE: usize = 1024;

thread_local! {
    static GUARD: RefCell<GuardBuf> = RefCell::new(GuardBuf::new(16 * 4096));
}

/// What a decoded value is checked for.
type Valid<'a> = &'a dyn Fn(&[u8]) -> Result<bool, String>;

/// Decode bytes which end where memory does.
fn attack(b: &[u8], valid: Valid<'_>) -> Result<bool, Failure> {
    GUARD.with(|g| {
        let mut g = g.borrow_mut();
        let input: &[u8] = g.at_end(b);
        let (r, used) = kit::alloc::measure(|| no_panic(|| valid(input)));
        ensure!(input == b, "modified its input {}", hex(b));
        ensure!(
            used.peak <= MEMORY + PER_BYTE * b.len(),
            "used {} bytes of memory (most {}) decoding {}",
            used.peak,
            used.max,
            hex(b)
        );
        match r {
            Err(p) => fail!("panicked decoding {}: {p}", hex(b)),
            Ok(Err(e)) => fail!("decoding {}: {e}", hex(b)),
            Ok(Ok(accepted)) => Ok(accepted),
        }
    })
}

/// The bytes which make a difference in a format.
fn alphabet(kind: Kind) -> &'static [u8] {
    match kind {
        Kind::Json => b" \"-+.0123456789:,[]{}aefnrtu\\b\x00\x7f\x80\xc3\xe2\xf0\xffIN",
        _ => &[
            0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x08, 0x10, 0x1f, 0x20, 0x21, 0x22, 0x3f, 0x40, 0x41, 0x42, 0x44, 0x48,
            0x5f, 0x60, 0x61, 0x62, 0x70, 0x7f, 0x80, 0x81, 0x82, 0x9f, 0xa0, 0xa1, 0xbf, 0xc0, 0xc1, 0xc3, 0xd8, 0xdf,
            0xe0, 0xe1, 0xe2, 0xed, 0xf0, 0xfe, 0xff,
        ],
    }
}

/// The few of them for the deeper enumerations.
fn few(kind: Kind) -> &'static [u8] {
    match kind {
        Kind::Json => b" \"-.019e:,[]{}nt\\u\xc3",
        _ => &[0x00, 0x01, 0x02, 0x08, 0x20, 0x22, 0x41, 0x48, 0x61, 0x7f, 0x80, 0x9f, 0xbf, 0xc3, 0xdf, 0xff],
    }
}

/// Claims about lengths and numbers which are not so.
fn claims(kind: Kind) -> Vec<Vec<u8>> {
    let mut v = Vec::new();
    if kind == Kind::Json {
        for s in [
            "[", "{", "\"", "[[[[[[[[", "{\"\":", "1e400", "-1e-400", "1e999999999999999999999", "0.0000000000000000000001",
            "99999999999999999999999999999999999999999", "\\ud800", "\\udc00\\ud800", "\\ud800\\udc00", "\\u", "NaN", "null",
            "Infinity", "-Infinity", "true", "\"\\", "1e", "1.", "-", "[1,", "{\"a\":1,", "\n\t\r ",
            "340282366920938463463374607431768211456", "-170141183460469231731687303715884105729",
        ] {
            v.push(s.as_bytes().to_vec());
        }
        return v;
    }
    // Variable length numbers.
    for bits in [6u32, 7, 13, 14, 20, 28, 31, 32, 33, 47, 62, 63, 64, 65, 127, 128, 140] {
        for low in [0u8, 0x7f] {
            let mut s = vec![0x80 | low; (bits / 7) as usize];
            s.push(1 << (bits % 7));
            v.push(s);
        }
    }
    v.push(vec![0xff; 9]);
    v.push([vec![0xff; 9], vec![0x01]].concat());
    v.push([vec![0xff; 18], vec![0x03]].concat());
    v.push([vec![0xff; 18], vec![0x7f]].concat());
    v.push(vec![0xff; 40]);
    // Fixed width numbers.
    for n in [
        u64::MAX,
        u64::MAX - 1,
        u64::MAX / 2,
        1 << 63,
        1 << 62,
        1 << 61,
        1 << 60,
        1 << 40,
        (1 << 32) + 1,
        1 << 32,
        u32::MAX as u64,
        1 << 31,
        1 << 24,
        1 << 16,
    ] {
        v.push(n.to_le_bytes().to_vec());
        v.push(n.to_be_bytes().to_vec());
        if let Ok(n) = u32::try_from(n) {
            v.push(n.to_le_bytes().to_vec());
            v.push(n.to_be_bytes().to_vec());
        }
    }
    // Lengths behind tags of the descriptive and wire formats.
    for tag in 0..8u8 {
        for n in [
            &[0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01][..],
            &[0xfe, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01],
            &[0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f],
            &[0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x01],
            &[0x80, 0x80, 0x80, 0x80, 0x10],
        ] {
            v.push([&[tag << 5 | 0x1f], n].concat());
        }
        v.push([&[tag << 5 | 0x1f][..], &u64::MAX.to_le_bytes()].concat());
    }
    v
}

/// Every string over the alphabet of this length.
fn each_string(alphabet: &[u8], n: usize, f: &mut dyn FnMut(&[u8]) -> Result<(), Failure>) -> Result<(), Failure> {
    let mut at = vec![0usize; n];
    let mut s = vec![alphabet[0]; n];
    loop {
        f(&s)?;
        let mut i = n;
        loop {
            if i == 0 {
                return Ok(());
            }
            i -= 1;
            at[i] += 1;
            if at[i] < alphabet.len() {
                s[i] = alphabet[at[i]];
                break;
            }
            at[i] = 0;
            s[i] = alphabet[0];
        }
    }
}

/// All short inputs, one case per leading byte.
fn short(fam: &mut Fam<'_>, what: &str, kind: Kind, depth: usize, few_depth: usize, full_depth: usize, valid: Valid<'_>) {
    let thorough = fam.thorough();
    for lead in 0..=255u8 {
        let mut total = 0u64;
        fam.case(
            || format!("{what} inputs starting with {lead:#04x}"),
            || {
                let mut accepted = 0u64;
                let mut one = |b: &[u8]| -> Result<(), Failure> {
                    total += 1;
                    accepted += attack(b, valid)? as u64;
                    Ok(())
                };
                if lead == 0 {
                    one(b"")?;
                }
                let mut under = |rest: &[u8]| one(&[&[lead], rest].concat());
                let all: Vec<u8> = (0..=255).collect();
                for n in 0..full_depth {
                    each_string(&all, n, &mut under)?;
                }
                for n in full_depth..depth {
                    each_string(alphabet(kind), n, &mut under)?;
                }
                if few(kind).contains(&lead) {
                    for n in depth.max(full_depth)..few_depth {
                        each_string(few(kind), n, &mut under)?;
                    }
                }
                let claims = if thorough || alphabet(kind).contains(&lead) { claims(kind) } else { vec![] };
                for c in claims {
                    under(&c)?;
                    if c.len() > 1 {
                        under(&[&c[..], &[0; 8]].concat())?;
                    }
                }
                Ok(Fp::new().str(what).u64(lead as u64).u64(accepted).done())
            },
        );
        fam.count_transitions(total);
    }
}

/// A message damaged in every way, one case per message.
fn mutate(
    fam: &mut Fam<'_>,
    what: impl Fn() -> String,
    kind: Kind,
    enc: impl Fn() -> Result<Vec<u8>, String>,
    pairs: usize,
    valid: Valid<'_>,
) {
    let mut total = 0u64;
    let thorough = fam.thorough();
    fam.case(&what, || {
        let b = match enc() {
            Ok(b) => b,
            // Judged by P01 and P02.
            Err(_) => return Ok(0),
        };
        if b.len() > if thorough { 512 } else { 160 } {
            return Ok(0);
        }
        let mut accepted = 0u64;
        let mut one = |b: &[u8]| -> Result<(), Failure> {
            total += 1;
            accepted += attack(b, valid)? as u64;
            kit::progress();
            Ok(())
        };
        let all: Vec<u8> = (0..=255).collect();
        let bytes: &[u8] = if thorough { &all } else { few(kind) };
        let claims = claims(kind);
        let mut m = b.clone();
        for i in 0..b.len() {
            for &x in bytes {
                m[i] = x;
                one(&m)?;
            }
            for flip in 0..8 {
                m[i] = b[i] ^ 1 << flip;
                one(&m)?;
            }
            m[i] = b[i].wrapping_add(1);
            one(&m)?;
            m[i] = b[i].wrapping_sub(1);
            one(&m)?;
            m[i] = b[i];
        }
        for i in 0..=b.len() {
            for &x in few(kind) {
                one(&[&b[..i], &[x], &b[i..]].concat())?;
            }
            if i < b.len() {
                one(&[&b[..i], &b[i + 1..]].concat())?;
            }
            // Duplicate what follows.
            one(&[&b[..i], &b[i..], &b[i..]].concat())?;
            for c in &claims {
                one(&[&b[..i], c, &b[(i + 1).min(b.len())..]].concat())?;
                one(&[&b[..i], c, &b[i..]].concat())?;
            }
        }
        if b.len() <= pairs {
            for i in 0..b.len() {
                for &x in few(kind) {
                    m[i] = x;
                    for j in i + 1..b.len() {
                        for &y in few(kind) {
                            m[j] = y;
                            one(&m)?;
                        }
                        m[j] = b[j];
                    }
                }
                m[i] = b[i];
            }
        }
        Ok(if b.is_empty() {
            0
        } else {
            Fp::new().str(&what()).bytes(&b).u64(accepted).done()
        })
    });
    fam.count_transitions(total);
}

/// Whatever was decoded is a value like any other.
fn value_ok<F: Format, T: InFormat<F>>(b: &[u8]) -> Result<bool, String> {
    let Ok(v) = T::fdec(b) else { return Ok(false) };
    // JSON has no infinite numbers, and takes those that are too large as such.
    if F::KIND == Kind::Json && format!("{v:?}").contains("inf") {
        return Ok(true);
    }
    let e = match v.fenc() {
        Ok(e) => e,
        Err(e) if e.contains("out of bounds") && pointer_width(F::OPT).is_some() => return Ok(true),
        Err(e) => return Err(format!("accepted as {v:?}, which does not encode: {e}")),
    };
    let w = T::fdec(&e).map_err(|e| format!("accepted as {v:?}, which does not decode again: {e}"))?;
    if v != w && format!("{v:?}") != format!("{w:?}") && !T::NAME.contains("SocketAddr") {
        return Err(format!("accepted as {v:?}, which roundtrips as {w:?}"));
    }
    Ok(true)
}

/// In which formats every element takes at least a byte, and the type is in it.
fn bounded<F: Format, T: InFormat<F>>() -> bool {
    T::WHERE.ok(F::KIND)
}

fn native<F: Format, T: InFormat<F>>(c: &mut Check) {
    if !bounded::<F, T>() {
        return;
    }
    let name = format!("{}/{}", T::NAME, F::NAME);
    c.fam(format!("short/{name}"), |fam| {
        let what = format!("{} {}", F::NAME, T::NAME);
        let (depth, few_depth, full) = if fam.thorough() { (3, 4, 2) } else { (2, 3, 1) };
        short(fam, &what, F::KIND, depth, few_depth, full, &value_ok::<F, T>);
    });
    c.fam(format!("mutate/{name}"), |fam| {
        let mut seen = std::collections::HashSet::new();
        for v in T::samples(2) {
            // One of each length and start.
            let Ok(Ok(b)) = no_panic(|| v.fenc()) else { continue };
            if !seen.insert((b.len(), b.first().copied())) {
                continue;
            }
            let pairs = if fam.thorough() { 12 } else { 6 };
            mutate(fam, || format!("{} {} {v:?}", F::NAME, T::NAME), F::KIND, || v.fenc(), pairs, &value_ok::<F, T>);
        }
    });
}

fn dynamic(c: &mut Check, f: &'static dyn DynFormat) {
    let ok = move |s: &Shape| {
        supports(f.kind(), f.opt(), s) && options_in(f.kind(), s) == Opts::Fine && !unbounded(f.kind(), s)
    };
    let valid = move |s: &Shape, b: &[u8]| -> Result<bool, String> {
        let Ok(v) = f.dec(s, b) else { return Ok(false) };
        // What JSON cannot express, see P01.
        if f.kind() == Kind::Json && (v.non_finite() || v.null_in_some()) {
            return Ok(true);
        }
        let e = match f.enc(s, &v) {
            Ok(e) => e,
            Err(e) if e.contains("out of bounds") && pointer_width(f.opt()).is_some() => return Ok(true),
            Err(e) => return Err(format!("accepted as {v}, which does not encode: {e}")),
        };
        let w = f.dec(s, &e).map_err(|e| format!("accepted as {v}, which does not decode again: {e}"))?;
        if v != w && v.to_string() != w.to_string() {
            return Err(format!("accepted as {v}, which roundtrips as {w}"));
        }
        Ok(true)
    };
    c.fam(format!("dyn-short/{}", f.name()), move |fam| {
        for s in leaves().into_iter().chain(containers(&tiny_leaves(), &[Shape::U8])) {
            if !ok(&s) {
                continue;
            }
            let (depth, few_depth, full) = if fam.thorough() { (2, 4, 2) } else { (2, 2, 1) };
            short(fam, &format!("{} {s}", f.name()), f.kind(), depth, few_depth, full, &|b| valid(&s, b));
        }
    });
    c.fam(format!("dyn-mutate/{}", f.name()), move |fam| {
        let base = if fam.thorough() { class_leaves() } else { tiny_leaves() };
        for s in containers(&base, &[Shape::U8, Shape::Str]) {
            if !ok(&s) {
                continue;
            }
            let mut seen = std::collections::HashSet::new();
            for v in values(&s, 2) {
                if !fits(f.opt(), &s, &v) {
                    continue;
                }
                let Ok(Ok(b)) = no_panic(|| f.enc(&s, &v)) else { continue };
                if !seen.insert((b.len(), b.first().copied())) {
                    continue;
                }
                let pairs = if fam.thorough() { 8 } else { 0 };
                mutate(fam, || format!("{} {s} = {v}", f.name()), f.kind(), || f.enc(&s, &v), pairs, &|b| valid(&s, b));
            }
        }
    });
}

/// Skips whatever there is.
#[derive(Debug)]
struct Skip;
impl<'de, M: 'static, A: musli::Allocator> Decode<'de, M, A> for Skip {
    fn decode<D: Decoder<'de, Mode = M, Allocator = A>>(d: D) -> Result<Self, D::Error> {
        d.skip()?;
        Ok(Skip)
    }
}

type Value = musli::value::Value<System>;

fn skipping<F: Format>(c: &mut Check)
where
    Value: for<'de> Decode<'de, F::Mode, System> + musli::Encode<F::Mode>,
{
    if !F::KIND.skips() {
        return;
    }
    let skip = |b: &[u8]| Ok(F::dec::<Skip>(b).is_ok());
    let value = |b: &[u8]| -> Result<bool, String> {
        let Ok(v) = F::dec::<Value>(b) else { return Ok(false) };
        // JSON has no infinite numbers, and takes those that are too large as such.
        if F::KIND == Kind::Json && format!("{v:?}").contains("inf") {
            return Ok(true);
        }
        let e = F::enc(&v).map_err(|e| format!("accepted as {v:?}, which does not encode: {e}"))?;
        let w = F::dec::<Value>(&e).map_err(|e| format!("accepted as {v:?}, which does not decode again: {e}"))?;
        // Numbers have no type in JSON.
        if F::KIND != Kind::Json && format!("{v:?}") != format!("{w:?}") {
            return Err(format!("accepted as {v:?}, which roundtrips as {w:?}"));
        }
        Ok(true)
    };
    let (mut all, mut names): (Vec<fn(&[u8]) -> Result<bool, String>>, Vec<&'static str>) = (vec![skip], vec!["skip"]);
    if F::KIND.self_descriptive() {
        all.push(value);
        names.push("value");
    }
    for (f, name) in all.into_iter().zip(names) {
        for lead in 0..4 {
            c.fam(format!("{name}-short/{}/{lead}", F::NAME), move |fam| {
                let (depth, few_depth, full) = if fam.thorough() { (3, 5, 2) } else { (2, 4, 1) };
                if lead == 0 {
                    short(fam, &format!("{} {name}", F::NAME), F::KIND, depth, few_depth, full, &f);
                } else if fam.thorough() && lead == 1 {
                    // Three arbitrary bytes.
                    for a in 0..=255u8 {
                        let mut total = 0;
                        fam.case(
                            || format!("{} {name} of three bytes starting with {a:#04x}", F::NAME),
                            || {
                                let mut accepted = 0u64;
                                for b in 0..=255 {
                                    for c in 0..=255 {
                                        total += 1;
                                        accepted += attack(&[a, b, c], &f)? as u64;
                                    }
                                }
                                Ok(Fp::new().str(name).str(F::NAME).u64(a as u64).u64(accepted).done())
                            },
                        );
                        fam.count_transitions(total);
                    }
                }
            });
        }
        c.fam(format!("{name}-mutate/{}", F::NAME), move |fam| {
            let base = if fam.thorough() { leaves() } else { tiny_leaves() };
            let nested = if fam.thorough() { nested(&tiny_leaves()) } else { vec![] };
            for s in containers(&base, &[Shape::U8, Shape::Str]).into_iter().chain(nested) {
                let fmts: Vec<Box<dyn DynFormat>> = each_format!(dyn_vec);
                let d = fmts.into_iter().find(|f| f.name() == F::NAME).unwrap();
                if !supports(F::KIND, F::OPT, &s) {
                    continue;
                }
                let mut seen = std::collections::HashSet::new();
                for v in values(&s, 2) {
                    if !fits(F::OPT, &s, &v) {
                        continue;
                    }
                    let Ok(Ok(b)) = no_panic(|| d.enc(&s, &v)) else { continue };
                    if !seen.insert((b.len(), b.first().copied())) {
                        continue;
                    }
                    let pairs = if fam.thorough() { 16 } else { 4 };
                    mutate(fam, || format!("{} {name} {s} = {v}", F::NAME), F::KIND, || d.enc(&s, &v), pairs, &f);
                }
            }
        });
    }
}

/// Types whose representation has an invariant of its own, inspected as bytes.
trait Raw {
    fn raw(&self) -> Result<(), String>;
}
macro_rules! raw_byte {
    ($($t:ty, $ok:expr;)*) => { $(
        impl Raw for $t {
            fn raw(&self) -> Result<(), String> {
                // SAFETY: any byte of these types is initialized.
                let b = unsafe { std::ptr::read_volatile((self as *const $t).cast::<u8>()) };
                let ok: fn(u8) -> bool = $ok;
                if ok(b) { Ok(()) } else { Err(format!("{} made from the byte {b}", stringify!($t))) }
            }
        }
    )* };
}
raw_byte! {
    bool, |b| b <= 1;
    AtomicBool, |b| b <= 1;
    NonZeroU8, |b| b != 0;
    NonZeroI8, |b| b != 0;
}
impl Raw for char {
    fn raw(&self) -> Result<(), String> {
        let c = unsafe { std::ptr::read_volatile((self as *const char).cast::<u32>()) };
        char::from_u32(c).map(|_| ()).ok_or_else(|| format!("char made from {c:#x}"))
    }
}
impl Raw for NonZeroU32 {
    fn raw(&self) -> Result<(), String> {
        let c = unsafe { std::ptr::read_volatile((self as *const NonZeroU32).cast::<u32>()) };
        if c == 0 { Err("zero".into()) } else { Ok(()) }
    }
}
impl Raw for u8 {
    fn raw(&self) -> Result<(), String> {
        Ok(())
    }
}
impl Raw for String {
    fn raw(&self) -> Result<(), String> {
        std::str::from_utf8(self.as_bytes()).map(|_| ()).map_err(|e| e.to_string())
    }
}
impl Raw for CString {
    fn raw(&self) -> Result<(), String> {
        if self.as_bytes().contains(&0) { Err("nul inside of a C string".into()) } else { Ok(()) }
    }
}
impl<T: Raw> Raw for Vec<T> {
    fn raw(&self) -> Result<(), String> {
        self.iter().try_for_each(|v| v.raw())
    }
}
impl<T: Raw> Raw for Box<[T]> {
    fn raw(&self) -> Result<(), String> {
        self.iter().try_for_each(|v| v.raw())
    }
}
impl<T: Raw, const N: usize> Raw for [T; N] {
    fn raw(&self) -> Result<(), String> {
        self.iter().try_for_each(|v| v.raw())
    }
}
impl<A: Raw, B: Raw> Raw for (A, B) {
    fn raw(&self) -> Result<(), String> {
        self.0.raw()?;
        self.1.raw()
    }
}
macro_rules! raw_struct {
    ($($(#[$m:meta])* $n:ident { $($f:ident: $t:ty),* })*) => { $(
        #[derive(Debug, musli::Encode, musli::Decode)]
        $(#[$m])*
        struct $n { $($f: $t),* }
        impl Raw for $n {
            fn raw(&self) -> Result<(), String> {
                $(self.$f.raw()?;)*
                Ok(())
            }
        }
    )* };
}
raw_struct! {
    PlainBool { a: bool, b: u8 }
    #[musli(packed)] PackBool { a: bool, b: bool }
    #[musli(packed)] #[repr(C)] PackCBool { a: u8, b: bool }
    #[musli(packed)] #[repr(C)] PackCNonZero { a: u8, b: NonZeroU8 }
    #[musli(packed)] #[repr(C)] PackCChar { a: char, b: char }
    #[musli(packed)] #[repr(C)] PackCArr { a: [u8; 2], b: [bool; 2] }
    #[musli(packed)] #[repr(C)] PackCNested { a: u8, b: PackCBool }
    #[musli(transparent)] #[repr(transparent)] TransBool { a: bool }
    #[musli(transparent)] #[repr(transparent)] TransNonZero { a: NonZeroU32 }
}
macro_rules! raw_atomics {
    ($($n:ident $f:ident $t:ty;)*) => { $(
        #[derive(Debug, musli::Decode)]
        #[musli(packed)]
        #[repr(C)]
        struct $n { a: u8, $f: $t }
        impl Raw for $n {
            fn raw(&self) -> Result<(), String> {
                self.$f.raw()
            }
        }
    )* };
}
raw_atomics! {
    PackAtomic b AtomicBool;
    PackAtomics b [AtomicBool; 2];
}

fn raw_one<F: Format, T>(c: &mut Check, name: &'static str)
where
    T: Raw + for<'de> Decode<'de, F::Mode, System>,
{
    c.fam(format!("raw/{name}/{}", F::NAME), move |fam| {
        let valid = |b: &[u8]| -> Result<bool, String> {
            match F::dec::<T>(b) {
                Ok(v) => v.raw().map(|_| true),
                Err(_) => Ok(false),
            }
        };
        let (depth, few_depth, full) = if fam.thorough() { (4, 5, 2) } else { (2, 3, 2) };
        short(fam, &format!("{} {name}", F::NAME), F::KIND, depth, few_depth, full, &valid);
        let thorough = fam.thorough();
        for lead in few(F::KIND) {
            // Every fourth byte of wider types.
            for n in [4, 8] {
                let mut total = 0;
                fam.case(
                    || format!("{} {name} of {n} bytes starting with {lead:#04x}", F::NAME),
                    || {
                        let mut accepted = 0;
                        each_string(&[0x00, 0x01, 0x02, 0x11, 0xd8, 0xff], if thorough { n.min(5) } else { 3 }, &mut |s| {
                            total += 1;
                            let mut b = vec![*lead];
                            b.extend_from_slice(s);
                            b.resize(n.max(4) + 4, 0);
                            for m in [n - 1, n, n + 1] {
                                accepted += attack(&b[..m], &valid)? as u64;
                            }
                            Ok(())
                        })?;
                        Ok(Fp::new().str(F::NAME).str(name).u64(n as u64).u64(accepted).u64(*lead as u64).done())
                    },
                );
                fam.count_transitions(total);
            }
        }
    });
}

macro_rules! types {
    ($c:ident $f:ident; $([$t:ty])*) => { $( native::<$f, $t>(&mut $c); )* };
    ($c:ident $f:ident; $($t:ident)*) => { $( native::<$f, $t>(&mut $c); )* };
}
macro_rules! raws {
    ($c:ident $($f:ident)*; $types:tt) => { $( raws!(@ $c $f $types); )* };
    (@ $c:ident $f:ident ($($t:ty;)*)) => { $( raw_one::<$f, $t>(&mut $c, stringify!($t)); )* };
}

fn main() {
    let mut c = Check::new(
        "P05",
        Level::FaultEnumeration,
        "every short input (all bytes to the stated depth, the bytes that matter to a greater one, false claims of lengths) and every damaged message (each position replaced, flipped, inserted, removed, repeated, or given a false length; pairs of positions in short ones), decoded as every type in every format from memory that ends where the input does; a case is one leading byte or one message, distinct by (what is decoded, number of inputs accepted)",
    );
    c.assume("nesting is no deeper than the inputs are long, which is within the stack");
    c.assume("sequences and maps whose elements take up no bytes have nothing that bounds their length and are excluded");
    c.assume("memory is bounded by 8 MiB and 1 KiB for every byte of input, which is what the capped reservations allow");
    let fmts: Vec<Box<dyn DynFormat>> = each_format!(dyn_vec);
    for f in fmts {
        dynamic(&mut c, Box::leak(f));
    }
    macro_rules! each {
        ($($f:ident)*) => { $( skipping::<$f>(&mut c); )* };
    }
    each! { WireVar WireFix WireFixU8 WireVarU16 WireFixVarL DescVar DescFix DescFixU8 DescVarU16 DescFixVarL JsonText JsonBinary }
    each_std!(types c StorageVar);
    each_std!(types c StorageFix);
    each_std!(types c WireVar);
    each_std!(types c WireFixU8);
    each_std!(types c DescVar);
    each_std!(types c DescFix);
    each_std!(types c PackedDef);
    each_std!(types c JsonText);
    each_zoo!(types c StorageVar);
    each_zoo!(types c StorageFix);
    each_zoo!(types c WireVar);
    each_zoo!(types c WireFixU8);
    each_zoo!(types c DescVar);
    each_zoo!(types c DescFix);
    each_zoo!(types c PackedDef);
    each_zoo!(types c JsonText);
    raws!(c StorageVar StorageFix WireVar WireFixU8 DescVar DescFix PackedDef PackedVar JsonText; (
        bool; [bool; 3]; Vec<bool>; Box<[bool]>; (bool, u8); char; [char; 2]; Vec<char>; NonZeroU8; [NonZeroU8; 2]; Vec<NonZeroI8>; NonZeroU32;
        [NonZeroU32; 1]; Vec<NonZeroU32>; String; CString; AtomicBool; [AtomicBool; 2]; Vec<AtomicBool>;
        PlainBool; PackBool; PackCBool; PackCNonZero; PackCChar; PackCArr; PackCNested; TransBool; TransNonZero;
        PackAtomic; PackAtomics; Vec<PackCBool>; [PackCBool; 2]; Vec<PackCNested>; Vec<TransBool>; [TransNonZero; 1];
    ));
    c.run()
}
