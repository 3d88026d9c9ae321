//! P26: all entry points of an encoding agree.

use std::borrow::Cow;
use std::collections::BTreeMap;
use std::fmt::Debug;

use eng::*;
use kit::*;
use musli::alloc::System;
use musli::context;
use musli::de::Decode;
use musli::en::{Encode, Encoder};
use musli::writer::BufWriter;
use musli::{Context, FixedBytes};

kit::global_allocator!();

const ROOM: usize = 256;

/// Everything that encodes gives the same bytes.
fn encoding<F: Bare, T: ?Sized + Encode<F::Mode>>(v: &T, used: impl Context) -> Result<Option<Vec<u8>>, Failure> {
    let cx = context::new().with_error::<String>();
    let base = F::enc(v).ok();
    let same = |what: &str, got: Option<&[u8]>| -> Result<(), Failure> {
        ensure!(
            got == base.as_deref(),
            "{what} gives {:?} but to_vec {:?}",
            got.map(hex),
            base.as_deref().map(hex)
        );
        Ok(())
    };
    same("to_vec_with", F::enc_with(&cx, v).ok().as_deref())?;
    same("to_vec_with a used context", F::enc_with(used, v).ok().as_deref())?;
    let mut out = Vec::new();
    let r = F::enc_vec(&mut out, v);
    same("encode into a vector", r.ok().map(|()| &out[..]))?;
    let mut out = Vec::new();
    let r = F::to_writer(&mut out, v);
    same("to_writer", r.ok().map(|()| &out[..]))?;
    let mut out = Vec::new();
    let r = F::enc_into_with(used, musli::wrap::wrap(&mut out), v);
    same("encode_with into a wrapped writer", r.ok().map(|()| &out[..]))?;
    let mut out = BufWriter::new(System::new());
    let r = F::enc_into_with(used, &mut out, v);
    let out = out.into_inner();
    same("encode_with into a buffer", r.ok().map(|()| &out[..]))?;
    if let Some(r) = F::bare_vec(v) {
        same("to_vec of the module", r.ok().as_deref())?;
        let mut out = Vec::new();
        let r = F::bare_enc(&mut out, v);
        same("encode of the module", r.ok().map(|()| &out[..]))?;
        let mut out = Vec::new();
        let r = F::bare_writer(&mut out, v);
        same("to_writer of the module", r.ok().map(|()| &out[..]))?;
    }
    for (what, r) in F::strings(used, v) {
        same(what, r.ok().as_ref().map(|s| s.as_bytes()))?;
    }
    let n = base.as_ref().map_or(0, Vec::len);
    let mut out = vec![0xa5; n];
    let r = F::to_slice(&mut out, v);
    same("to_slice", r.ok().map(|n| &out[..n]))?;
    let mut out = vec![0xa5; n];
    let r = F::enc_slice_with(used, &mut out, v);
    same("to_slice_with", r.ok().map(|n| &out[..n]))?;
    let mut out = vec![0xa5; n + 3];
    let r = F::enc_mut_slice(&mut out, v);
    same("encode into a slice", r.ok().map(|rest| &out[..n + 3 - rest]))?;
    if n <= ROOM {
        same("to_fixed_bytes", F::to_fixed::<ROOM, T>(v).ok().as_deref())?;
        let mut out = FixedBytes::<ROOM>::new();
        let r = F::enc_into_with(used, &mut out, v);
        same("encode_with into a fixed buffer", r.ok().map(|()| out.as_slice()))?;
    }
    if n <= ROOM {
        let mut out = vec![0xa5; ROOM];
        if let Some(r) = F::bare_slice(&mut out, v) {
            same("to_slice of the module", r.ok().map(|n| &out[..n]))?;
        }
        if let Some(r) = F::bare_fixed(v) {
            same("to_fixed_bytes of the module", r.ok().as_deref())?;
        }
    }
    Ok(base)
}

/// Does all that decodes give the same?
fn decoding<'de, F: Bare, T, C>(b: &'de [u8], used: C) -> CaseResult
where
    C: Context<Allocator = System>,
    T: Debug + PartialEq + Decode<'de, F::Mode, System>,
{
    let base: Result<T, String> = F::dec(b);
    let same = |what: &str, got: Option<T>| -> Result<(), Failure> {
        ensure!(
            got.as_ref() == base.as_ref().ok() || format!("{got:?}") == format!("{:?}", base.as_ref().ok()),
            "{what} gives {got:?} but from_slice {base:?} from {}",
            hex(b)
        );
        Ok(())
    };
    let cx = context::new().with_error::<String>();
    same("from_slice_with", F::dec_with(&cx, b).ok())?;
    same("from_slice_with a used context", F::dec_with(used, b).ok())?;
    if let Some(r) = F::bare_dec(b) {
        same("from_slice of the module", r.ok())?;
    }
    let mut m = b;
    let r = F::dec_mut_with(used, &mut m);
    ensure!(m.as_ptr_range().end == b.as_ptr_range().end && m.len() <= b.len(), "the slice is left with something else");
    let rest = m.len();
    let ok = r.is_ok();
    same("decode_with of a mutable slice", r.ok())?;
    let r: Result<(T, usize), String> = F::dec_rest(b);
    if let Ok((_, n)) = &r {
        ensure!(*n == rest, "decode leaves {n} of a mutable slice, but decode_with {rest}");
    }
    same("decode of a mutable slice", r.ok().map(|v| v.0))?;
    let mut bad = None;
    F::dec_readers(used, b, |what, r: Result<T, C::Error>, left| {
        let ok = r.is_ok();
        let e = same(what, r.ok()).err().or_else(|| match left {
            Some(n) if ok && n != rest => Some(format!("{what} leaves {n} bytes instead of {rest} of {}", hex(b)).into()),
            _ => None,
        });
        if bad.is_none() {
            bad = e;
        }
    });
    if let Some(e) = bad {
        return Err(e);
    }
    if ok {
        // What was advanced over is the message.
        let only = &b[..b.len() - rest];
        let got: Result<T, String> = F::dec(only);
        ensure!(
            got.as_ref().ok() == base.as_ref().ok() || format!("{got:?}") == format!("{base:?}"),
            "advances over {} which gives {got:?} instead of {base:?}",
            hex(only)
        );
    }
    let mut fp = Fp::new().str(F::NAME).bytes(b);
    if let Ok(v) = &base {
        fp = fp.str(&format!("{v:?}"));
    }
    Ok(fp.done())
}

fn damage(b: &[u8], every: usize) -> Vec<Vec<u8>> {
    let mut v = vec![b.to_vec()];
    for (i, x) in [0x01, 0x80, 0x41, 0xff, 0x20, 0x02, 0x10].iter().enumerate() {
        for at in 0..b.len() {
            if every > 1 && (at + i) % every != 0 {
                continue;
            }
            let mut c = b.to_vec();
            c[at] ^= x;
            v.push(c);
        }
    }
    for at in 0..b.len() {
        v.push(b[..at].to_vec());
    }
    for more in [&b"\0"[..], b" ", b",1", b"\xff", b"\xc3\xa9"] {
        let mut c = b.to_vec();
        c.extend_from_slice(more);
        v.push(c);
    }
    v
}

/// Text with something wide at or over each byte of it.
fn wide(b: &[u8], every: usize) -> Vec<Vec<u8>> {
    let mut v = Vec::new();
    for (i, c) in ["\u{e9}", "\u{6f22}", "\u{1f600}"].iter().enumerate() {
        for over in 0..=c.len() {
            for at in 0..b.len() {
                if at + over > b.len() || every > 1 && over > 0 && (at + i + over) % every != 0 {
                    continue;
                }
                v.push([&b[..at], c.as_bytes(), &b[at + over..]].concat());
            }
        }
    }
    v
}

fn both<F: Bare, T: PartialEq, C>(fam: &mut Fam<'_>, descr: impl Fn() -> String, v: &T, used: C, every: usize)
where
    C: Context<Allocator = System>,
    T: Debug + Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
{
    let Ok(b) = F::enc(v) else {
        fam.case(&descr, || encoding::<F, T>(v, used).map(|_| 0));
        return;
    };
    fam.case(&descr, || encoding::<F, T>(v, used).map(|_| Fp::new().str(F::NAME).bytes(&b).done()));
    if b.len() > 300 {
        return;
    }
    // One in so many of the edits to what is long.
    let every = if fam.quick() { every + b.len() / 20 } else { every };
    let more = if F::KIND == Kind::Json { wide(&b, every) } else { Vec::new() };
    for d in damage(&b, every).into_iter().chain(more) {
        fam.case(|| format!("{} as {}", descr(), hex(&d)), || decoding::<F, T, C>(&d, used));
    }
}

fn zoo<F: Bare, T: eng::zoo::Zoo + Encode<F::Mode>>(c: &mut Check)
where
    T: for<'de> Decode<'de, F::Mode, System>,
{
    if !T::WHERE.ok(F::KIND) {
        return;
    }
    // The nested untagged enums have the most to try.
    let shards = if T::NAME.contains("Untagged") { 8 } else { 1 };
    c.fam_sharded(format!("zoo/{}/{}", T::NAME, F::NAME), shards, |fam| {
        let used = context::new().with_trace().with_capture::<String>();
        let every = fam.bound(5, 1);
        for v in T::samples(fam.bound(3, 2)) {
            both::<F, T, _>(fam, || format!("{v:?}"), &v, &used, every);
        }
    });
}

macro_rules! types {
    ($c:ident $f:ident; $($t:ident)*) => { $( zoo::<$f, $t>(&mut $c); )* };
}

// ---- dynamic shapes

fn shape<F: Bare>(fam: &mut Fam<'_>, s: &Shape, v: &Val, used: impl Context<Allocator = System>) {
    if !supports(F::KIND, F::OPT, s) {
        return;
    }
    fam.case(|| format!("{s} = {v}"), || encoding::<F, _>(&Dyn(s, v), used).map(|b| fp(&b.unwrap_or_default())));
    let Ok(b) = F::enc(&Dyn(s, v)) else { return };
    if b.len() > 100 || unbounded(F::KIND, s) || options_in(F::KIND, s) != Opts::Fine {
        return;
    }
    let every = fam.bound(4, 1);
    let more = if F::KIND == Kind::Json { wide(&b, every) } else { Vec::new() };
    for d in damage(&b, every).into_iter().chain(more) {
        fam.case(|| format!("{s} = {v} as {}", hex(&d)), || with_shape(s, || decoding::<F, Out, _>(&d, used)));
    }
}

fn shapes<F: Bare>(c: &mut Check) {
    c.fam(format!("shape/{}", F::NAME), |fam| {
        let used = context::new().with_trace().with_capture::<String>();
        for s in leaves() {
            for v in values(&s, fam.bound(2, 1)) {
                shape::<F>(fam, &s, &v, &used);
            }
        }
        for s in containers(&leaves(), &[Shape::U8, Shape::Str]) {
            for v in values(&s, 3) {
                shape::<F>(fam, &s, &v, &used);
            }
        }
        for s in nested(if fam.thorough() { &[Shape::U8, Shape::Str, Shape::Bool] } else { &[Shape::U8] }) {
            for v in values(&s, 3) {
                shape::<F>(fam, &s, &v, &used);
            }
        }
    });
}

// ---- the functions of the modules, where the options are the default

pub trait Bare: Format {
    fn bare_vec<T: ?Sized + Encode<Self::Mode>>(_: &T) -> Option<Result<Vec<u8>, String>> {
        None
    }
    fn bare_enc<T: ?Sized + Encode<Self::Mode>>(_: &mut Vec<u8>, _: &T) -> Result<(), String> {
        Ok(())
    }
    fn bare_writer<T: ?Sized + Encode<Self::Mode>>(_: &mut Vec<u8>, _: &T) -> Result<(), String> {
        Ok(())
    }
    fn bare_slice<T: ?Sized + Encode<Self::Mode>>(_: &mut [u8], _: &T) -> Option<Result<usize, String>> {
        None
    }
    fn bare_fixed<T: ?Sized + Encode<Self::Mode>>(_: &T) -> Option<Result<Vec<u8>, String>> {
        None
    }
    fn bare_dec<'de, T: Decode<'de, Self::Mode, System>>(_: &'de [u8]) -> Option<Result<T, String>> {
        None
    }
    /// Encode into a string.
    fn strings<T: ?Sized + Encode<Self::Mode>>(_: impl Context, _: &T) -> Vec<(&'static str, Result<String, ()>)> {
        Vec::new()
    }
}

macro_rules! bare {
    ($($f:ident $module:ident),*) => { $(
        impl Bare for $f {
            bare!(@all $module);
            bare!(@str $module);
        }
    )* };
    (@all $module:ident) => {
        fn bare_vec<T: ?Sized + Encode<Self::Mode>>(v: &T) -> Option<Result<Vec<u8>, String>> {
            Some(musli::$module::to_vec(v).map_err(|e| e.to_string()))
        }
        fn bare_enc<T: ?Sized + Encode<Self::Mode>>(out: &mut Vec<u8>, v: &T) -> Result<(), String> {
            musli::$module::encode(out, v).map_err(|e| e.to_string())
        }
        fn bare_writer<T: ?Sized + Encode<Self::Mode>>(out: &mut Vec<u8>, v: &T) -> Result<(), String> {
            musli::$module::to_writer(out, v).map_err(|e| e.to_string())
        }
        fn bare_slice<T: ?Sized + Encode<Self::Mode>>(out: &mut [u8], v: &T) -> Option<Result<usize, String>> {
            Some(musli::$module::to_slice(out, v).map_err(|e| e.to_string()))
        }
        fn bare_fixed<T: ?Sized + Encode<Self::Mode>>(v: &T) -> Option<Result<Vec<u8>, String>> {
            Some(musli::$module::to_fixed_bytes::<ROOM, T>(v).map(|b| b.to_vec()).map_err(|e| e.to_string()))
        }
        fn bare_dec<'de, T: Decode<'de, Self::Mode, System>>(b: &'de [u8]) -> Option<Result<T, String>> {
            let mut m = b;
            let whole = musli::$module::from_slice(b).map_err(|e| e.to_string());
            let plain: Result<T, _> = musli::$module::decode(b);
            let moved: Result<T, _> = musli::$module::decode(&mut m);
            if whole.is_ok() != plain.is_ok() || whole.is_ok() != moved.is_ok() {
                panic!("from_slice of the module succeeds: {}, decode of a slice: {}, of a mutable one: {}", whole.is_ok(), plain.is_ok(), moved.is_ok());
            }
            Some(whole)
        }
    };
    (@str json) => {
        fn strings<T: ?Sized + Encode<Self::Mode>>(cx: impl Context, v: &T) -> Vec<(&'static str, Result<String, ()>)> {
            vec![
                ("to_string of the module", musli::json::to_string(v).map_err(|_| ())),
                ("to_string", musli::json::Encoding::new().to_string(v).map_err(|_| ())),
                ("to_string_with", musli::json::Encoding::new().to_string_with(cx, v).map_err(|_| ())),
            ]
        }
    };
    (@str $module:ident) => {};
}
bare!(StorageVar storage, WireVar wire, DescVar descriptive, PackedDef packed, JsonText json);
macro_rules! others {
    ($($f:ident)*) => { $( impl Bare for $f {} )* };
}
others!(StorageFix StorageFixBe StorageFixU8 StorageVarU16 StorageVarU32Be WireFix WireFixBe WireVarU16 DescFix DescFixBe DescVarU16 PackedVar PackedFixBe);
impl Bare for JsonBinary {
    fn strings<T: ?Sized + Encode<Self::Mode>>(cx: impl Context, v: &T) -> Vec<(&'static str, Result<String, ()>)> {
        let e = musli::json::Encoding::new().with_mode::<musli::mode::Binary>();
        vec![
            ("to_string", e.to_string(v).map_err(|_| ())),
            ("to_string_with", e.to_string_with(cx, v).map_err(|_| ())),
        ]
    }
}

// ---- what is borrowed

#[derive(Debug, PartialEq, Encode, Decode)]
struct Strs<'de> {
    a: &'de str,
    b: Option<&'de str>,
    c: Vec<&'de str>,
    d: (&'de str, u8),
}
#[derive(Debug, PartialEq, Encode, Decode)]
struct StrsOwned {
    a: String,
    b: Option<String>,
    c: Vec<String>,
    d: (String, u8),
}
#[derive(Debug, PartialEq, Encode, Decode)]
struct Keys<'de> {
    a: BTreeMap<&'de str, &'de str>,
}
#[derive(Debug, PartialEq, Encode, Decode)]
struct KeysOwned {
    a: BTreeMap<String, String>,
}
#[derive(Debug, PartialEq, Encode, Decode)]
struct Cows<'de> {
    a: Cow<'de, str>,
    b: Vec<Cow<'de, str>>,
}
#[derive(Debug, PartialEq, Encode, Decode)]
struct CowsOwned {
    a: String,
    b: Vec<String>,
}
#[derive(Debug, PartialEq, Encode, Decode)]
struct Blobs<'de> {
    #[musli(bytes)]
    a: &'de [u8],
    #[musli(bytes)]
    b: Cow<'de, [u8]>,
    c: &'de std::ffi::CStr,
}
#[derive(Debug, PartialEq, Encode, Decode)]
struct BlobsOwned {
    #[musli(bytes)]
    a: Vec<u8>,
    #[musli(bytes)]
    b: Vec<u8>,
    c: std::ffi::CString,
}
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(packed)]
struct PackedStrs<'de> {
    a: &'de str,
    b: u8,
    c: &'de str,
}
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(packed)]
struct PackedStrsOwned {
    a: String,
    b: u8,
    c: String,
}
#[derive(Debug, PartialEq, Encode, Decode)]
enum Choice<'de> {
    A { x: &'de str },
    B(Cow<'de, str>, &'de str),
    #[musli(transparent)]
    C(&'de str),
}
#[derive(Debug, PartialEq, Encode, Decode)]
enum ChoiceOwned {
    A { x: String },
    B(String, String),
    #[musli(transparent)]
    C(String),
}

/// A type that borrows: its twin, and the ranges it borrows.
trait Borrows<'de>: Debug {
    type Owned: Debug + PartialEq;
    fn own(&self) -> Self::Owned;
    fn ranges(&self) -> Vec<&[u8]>;
    /// Those that are owned if they have to be.
    fn cows(&self) -> Vec<&Cow<'de, str>> {
        Vec::new()
    }
}

impl<'de> Borrows<'de> for Strs<'de> {
    type Owned = StrsOwned;
    fn own(&self) -> StrsOwned {
        StrsOwned {
            a: self.a.into(),
            b: self.b.map(Into::into),
            c: self.c.iter().map(|s| s.to_string()).collect(),
            d: (self.d.0.into(), self.d.1),
        }
    }
    fn ranges(&self) -> Vec<&[u8]> {
        let mut v = vec![self.a, self.d.0];
        v.extend(self.b);
        v.extend(&self.c);
        v.into_iter().map(str::as_bytes).collect()
    }
}
impl<'de> Borrows<'de> for Keys<'de> {
    type Owned = KeysOwned;
    fn own(&self) -> KeysOwned {
        KeysOwned { a: self.a.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect() }
    }
    fn ranges(&self) -> Vec<&[u8]> {
        self.a.iter().flat_map(|(k, v)| [k.as_bytes(), v.as_bytes()]).collect()
    }
}
impl<'de> Borrows<'de> for Cows<'de> {
    type Owned = CowsOwned;
    fn own(&self) -> CowsOwned {
        CowsOwned { a: self.a.to_string(), b: self.b.iter().map(|s| s.to_string()).collect() }
    }
    fn ranges(&self) -> Vec<&[u8]> {
        Vec::new()
    }
    fn cows(&self) -> Vec<&Cow<'de, str>> {
        self.b.iter().chain([&self.a]).collect()
    }
}
impl<'de> Borrows<'de> for Blobs<'de> {
    type Owned = BlobsOwned;
    fn own(&self) -> BlobsOwned {
        BlobsOwned { a: self.a.into(), b: self.b.to_vec(), c: self.c.into() }
    }
    fn ranges(&self) -> Vec<&[u8]> {
        let mut v = vec![self.a, self.c.to_bytes_with_nul()];
        if let Cow::Borrowed(b) = self.b {
            v.push(b);
        } else if !self.b.is_empty() {
            // Nothing keeps bytes from being borrowed.
            v.push(&self.b);
        }
        v
    }
}
impl<'de> Borrows<'de> for PackedStrs<'de> {
    type Owned = PackedStrsOwned;
    fn own(&self) -> PackedStrsOwned {
        PackedStrsOwned { a: self.a.into(), b: self.b, c: self.c.into() }
    }
    fn ranges(&self) -> Vec<&[u8]> {
        vec![self.a.as_bytes(), self.c.as_bytes()]
    }
}
impl<'de> Borrows<'de> for Choice<'de> {
    type Owned = ChoiceOwned;
    fn own(&self) -> ChoiceOwned {
        match self {
            Choice::A { x } => ChoiceOwned::A { x: x.to_string() },
            Choice::B(x, y) => ChoiceOwned::B(x.to_string(), y.to_string()),
            Choice::C(x) => ChoiceOwned::C(x.to_string()),
        }
    }
    fn ranges(&self) -> Vec<&[u8]> {
        match self {
            Choice::A { x } | Choice::C(x) | Choice::B(_, x) => vec![x.as_bytes()],
        }
    }
    fn cows(&self) -> Vec<&Cow<'de, str>> {
        match self {
            Choice::B(x, _) => vec![x],
            _ => Vec::new(),
        }
    }
}

/// Borrowed from a slice and from a mutable reference to one.
fn borrowed<'de, F: Bare, B>(v: &B, b: &'de [u8], escaped: bool) -> CaseResult
where
    B: Borrows<'de> + Encode<F::Mode> + Decode<'de, F::Mode, System>,
    B::Owned: Encode<F::Mode> + for<'a> Decode<'a, F::Mode, System>,
{
    let own = v.own();
    let other = F::enc(&own)?;
    ensure!(other == b, "{own:?} encodes as {} and {v:?} as {}", hex(&other), hex(b));
    let got: Result<B::Owned, String> = F::dec(b);
    ensure!(got.as_ref().ok() == Some(&own), "decodes as {got:?} instead of {own:?}");
    let mut m = b;
    let cx = context::new();
    let found: [(&str, Option<B>); 3] = [
        ("from_slice", F::dec(b).ok()),
        ("decode_with of a mutable slice", F::dec_mut_with(&cx, &mut m).ok()),
        ("from_str_with", match std::str::from_utf8(b) {
            Ok(_) => {
                let mut out = None;
                let mut bad = None;
                F::dec_readers(&cx, b, |what, r: Result<B, _>, _| {
                    if what == "from_str_with" {
                        out = r.ok();
                    } else if let Ok(v) = r {
                        if v.own() != own {
                            bad = Some(format!("{what} gives {v:?}"));
                        }
                    }
                });
                if let Some(e) = bad {
                    return Err(e.into());
                }
                out
            }
            Err(_) => F::dec(b).ok(),
        }),
    ];
    for (what, r) in found {
        match r {
            Some(r) => {
                ensure!(r.own() == own, "{what} gives {r:?} instead of {v:?}");
                for s in r.ranges() {
                    let (outer, inner) = (b.as_ptr_range(), s.as_ptr_range());
                    ensure!(s.is_empty() || outer.start <= inner.start && inner.end <= outer.end, "{what} gives {r:?} where {s:?} is not borrowed from the input");
                }
                for s in r.cows() {
                    match s {
                        Cow::Borrowed(s) => {
                            let (outer, inner) = (b.as_ptr_range(), s.as_bytes().as_ptr_range());
                            ensure!(s.is_empty() || outer.start <= inner.start && inner.end <= outer.end, "{what} gives {r:?} where {s:?} is not borrowed from the input");
                        }
                        Cow::Owned(s) => ensure!(escaped, "{what} gives {r:?} where {s:?} could have been borrowed"),
                    }
                }
            }
            None => ensure!(escaped, "{what} fails to borrow {v:?} from {}", hex(b)),
        }
    }
    Ok(Fp::new().str(F::NAME).bytes(b).done())
}

fn borrows<F: Bare>(c: &mut Check)
where
    for<'a> Strs<'a>: Encode<F::Mode> + Decode<'a, F::Mode, System>,
    for<'a> Keys<'a>: Encode<F::Mode> + Decode<'a, F::Mode, System>,
    for<'a> Cows<'a>: Encode<F::Mode> + Decode<'a, F::Mode, System>,
    for<'a> Blobs<'a>: Encode<F::Mode> + Decode<'a, F::Mode, System>,
    for<'a> PackedStrs<'a>: Encode<F::Mode> + Decode<'a, F::Mode, System>,
    for<'a> Choice<'a>: Encode<F::Mode> + Decode<'a, F::Mode, System>,
    StrsOwned: Encode<F::Mode> + for<'a> Decode<'a, F::Mode, System>,
    KeysOwned: Encode<F::Mode> + for<'a> Decode<'a, F::Mode, System>,
    CowsOwned: Encode<F::Mode> + for<'a> Decode<'a, F::Mode, System>,
    BlobsOwned: Encode<F::Mode> + for<'a> Decode<'a, F::Mode, System>,
    PackedStrsOwned: Encode<F::Mode> + for<'a> Decode<'a, F::Mode, System>,
    ChoiceOwned: Encode<F::Mode> + for<'a> Decode<'a, F::Mode, System>,
{
    c.fam(format!("borrow/{}", F::NAME), |fam| {
        let all = strings(1);
        let few = ["", "a", "\u{e9}\"", "plain text"];
        for s in &all {
            for t in few {
                // A literal with escapes can not be borrowed.
                let escaped = F::KIND == Kind::Json && [s.as_str(), t].iter().any(|s| s.chars().any(|c| c < ' ' || c == '"' || c == '\\' || c == '\u{7f}'));
                macro_rules! go {
                    ($t:ty, $v:expr) => {{
                        let v: $t = $v;
                        if let Ok(b) = F::enc(&v) {
                            fam.case(|| format!("{v:?}"), || borrowed::<F, $t>(&v, &b, escaped));
                        }
                    }};
                }
                go!(Strs<'_>, Strs { a: s, b: Some(t), c: vec![t, s, t], d: (s, 9) });
                go!(Keys<'_>, Keys { a: [(s.as_str(), t), ("k", s)].into() });
                go!(Cows<'_>, Cows { a: Cow::Borrowed(s), b: vec![Cow::Borrowed(t), Cow::Owned(s.clone())] });
                go!(Choice<'_>, Choice::A { x: s });
                go!(Choice<'_>, Choice::B(Cow::Borrowed(t), s));
                go!(Choice<'_>, Choice::C(s));
                go!(PackedStrs<'_>, PackedStrs { a: s, b: 3, c: t });
                if F::KIND != Kind::Json {
                    let c = std::ffi::CString::new(t).unwrap();
                    go!(Blobs<'_>, Blobs { a: s.as_bytes(), b: Cow::Borrowed(t.as_bytes()), c: &c });
                }
            }
        }
    });
}

// ---- what is reported

/// Fails to encode or decode.
#[derive(Debug, Clone, Copy, PartialEq)]
struct Leaf(u32);
const BAD: u32 = 77777;

impl<M> Encode<M> for Leaf {
    const IS_BITWISE_ENCODE: bool = false;
    type Encode = Self;
    fn encode<E: Encoder<Mode = M>>(&self, e: E) -> Result<(), E::Error> {
        if self.0 == BAD {
            return Err(e.cx().message("bad leaf"));
        }
        e.encode_u32(self.0)
    }
    fn as_encode(&self) -> &Self {
        self
    }
}
impl<'de, M, A: musli::Allocator> Decode<'de, M, A> for Leaf {
    const IS_BITWISE_DECODE: bool = false;
    fn decode<D: musli::Decoder<'de, Mode = M, Allocator = A>>(d: D) -> Result<Self, D::Error> {
        let cx = d.cx();
        match d.decode_u32()? {
            BAD => Err(cx.message("bad leaf")),
            n => Ok(Leaf(n)),
        }
    }
}

#[derive(Debug, Clone, PartialEq, Encode, Decode)]
struct Doc {
    a: Leaf,
    b: String,
    c: Vec<Leaf>,
    d: BTreeMap<String, Leaf>,
    #[musli(packed)]
    e: (Leaf, Leaf),
    f: Option<Leaf>,
    g: Pick,
}
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
enum Pick {
    A { x: Leaf },
    B(Leaf, Vec<Leaf>),
}

fn doc(bad: usize, with: u32, pick: bool) -> Doc {
    let mut n = 0;
    let mut leaf = || {
        n += 1;
        Leaf(if n == bad { with } else { n as u32 })
    };
    Doc {
        a: leaf(),
        b: "text".into(),
        c: vec![leaf(), leaf(), leaf()],
        d: [("k".to_string(), leaf()), ("l".to_string(), leaf())].into(),
        e: (leaf(), leaf()),
        f: Some(leaf()),
        g: if pick { Pick::A { x: leaf() } } else { Pick::B(leaf(), vec![leaf(), leaf()]) },
    }
}

/// Without the byte position.
fn nowhere(s: &str) -> String {
    s.lines().map(|l| l.split(" (at byte").next().unwrap_or_default()).collect::<Vec<_>>().join("\n")
}

fn reports<F: Bare>(c: &mut Check)
where
    Doc: Encode<F::Mode> + for<'a> Decode<'a, F::Mode, System>,
{
    c.fam(format!("report/{}", F::NAME), |fam| {
        for pick in [false, true] {
            for bad in 0..=13 {
                let v = doc(bad, BAD, pick);
                fam.case(
                    || format!("encode {v:?}"),
                    || {
                        let cx = context::new().with_trace().with_type();
                        let ok = F::enc_with(&cx, &v).is_ok();
                        let base = cx.report().to_string();
                        macro_rules! same {
                            ($what:literal, $r:expr) => {{
                                let r = $r.is_ok();
                                let got = cx.report().to_string();
                                ensure!(r == ok && got == base, "{} reports {got:?} instead of {base:?}", $what);
                            }};
                        }
                        let mut out = vec![0; 1 << 10];
                        same!("to_slice_with", F::enc_slice_with(&cx, &mut out, &v));
                        same!("encode_with into a slice", F::enc_into_with(&cx, &mut out[..], &v));
                        let mut out = FixedBytes::<1024>::new();
                        same!("encode_with into a fixed buffer", F::enc_into_with(&cx, &mut out, &v));
                        let mut out = BufWriter::new(System::new());
                        // It buffers what something else advances over, so it does not advance.
                        let r = F::enc_into_with(&cx, &mut out, &v).is_ok();
                        let (got, want) = (nowhere(&cx.report().to_string()), nowhere(&base));
                        ensure!(r == ok && got == want, "encode_with into a buffer reports {got:?} instead of {base:?}");
                        same!("encode_with into a wrapped writer", F::enc_into_with(&cx, musli::wrap::wrap(Vec::new()), &v));
                        Ok(Fp::new().str(&base).u64(bad as u64).u64(pick as u64).done())
                    },
                );
                let Ok(b) = F::enc(&doc(bad, BAD - 1, pick)) else { continue };
                let Ok(mut d) = F::enc(&doc(bad, BAD - 1, pick)) else { continue };
                // The leaf that is one less is made the bad one.
                let (x, y) = (F::enc(&Leaf(BAD - 1)).unwrap(), F::enc(&Dyn(&Shape::U32, &Val::U(BAD as u128))).unwrap());
                if x.len() == y.len() {
                    if let Some(at) = d.windows(x.len()).position(|w| w == x) {
                        d[at..at + x.len()].copy_from_slice(&y);
                    }
                }
                for d in damage(&d, fam.bound(2, 1)).into_iter().chain([b]) {
                    fam.case(
                        || format!("decode {}", hex(&d)),
                        || {
                            let cx = context::new().with_trace().with_type();
                            let ok = F::dec_with::<_, Doc>(&cx, &d).is_ok();
                            let base = cx.report().to_string();
                            let mut m = &d[..];
                            let r: Result<Doc, _> = F::dec_mut_with(&cx, &mut m);
                            let got = cx.report().to_string();
                            ensure!(r.is_ok() == ok && got == base, "a mutable slice reports {got:?} instead of {base:?}");
                            let mut bad = None;
                            F::dec_readers(&cx, &d, |what, r: Result<Doc, _>, _| {
                                // The words differ, where it is does not.
                                let got = cx.report().to_string();
                                if bad.is_none() && r.is_ok() != ok {
                                    bad = Some(format!("{what} reports {got:?} instead of {base:?}"));
                                }
                            });
                            if let Some(e) = bad {
                                return Err(e.into());
                            }
                            Ok(Fp::new().str(&base).bytes(&d).done())
                        },
                    );
                }
            }
        }
    });
}

fn main() {
    let mut c = Check::new(
        "P26",
        Level::Exploration,
        "every entry point that encodes, for every value of every shape and derived type; every entry point and reader that decodes, for every message and every damage to it; a case is one value or message, distinct by (format, bytes, result)",
    );
    c.assume("the words of an error may depend on the kind of reader, whether there is one may not");
    {
        use eng::zoo::{Index, *};
        each_zoo!(types c StorageVar);
        each_zoo!(types c WireVar);
        each_zoo!(types c DescVar);
        each_zoo!(types c PackedDef);
        each_zoo!(types c JsonText);
    }
    macro_rules! all {
        ($($f:ident)*) => { $( shapes::<$f>(&mut c); )* };
    }
    all!(StorageVar StorageFix StorageFixBe StorageFixU8 StorageVarU16 StorageVarU32Be WireVar WireFix WireFixBe WireVarU16 DescVar DescFix DescFixBe DescVarU16
        PackedDef PackedVar PackedFixBe JsonText JsonBinary);
    macro_rules! some {
        ($($f:ident)*) => { $( borrows::<$f>(&mut c); reports::<$f>(&mut c); )* };
    }
    some!(StorageVar StorageFix WireVar WireFix DescVar DescFix PackedDef JsonText);
    c.run()
}
