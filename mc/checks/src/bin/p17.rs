//! P17: errors are reported once, at the right path, and contexts are reusable.

use std::collections::{BTreeMap, HashMap, VecDeque};
use std::fmt::Debug;
use std::marker::PhantomData;

use eng::*;
use kit::*;
use musli::alloc::System;
use musli::context::{self, DefaultContext, Trace};
use musli::de::{Decode, Decoder};
use musli::en::{Encode, Encoder};
use musli::value::Value;
use musli::{Allocator, Context};

kit::global_allocator!();

// ---- documents with one bad leaf

/// Fails to encode.
const NO_ENC: u32 = 1111110;
/// Encodes as a string, and so fails to decode.
const STR: u32 = 1111112;
/// Fails to decode once it was.
const NO_DEC: u32 = 1111111;
/// Like `NO_DEC` but decodes, and is as long.
const OK_DEC: u32 = 1999998;

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
struct Leaf(u32);

impl<M> Encode<M> for Leaf {
    const IS_BITWISE_ENCODE: bool = false;
    type Encode = Self;

    fn encode<E: Encoder<Mode = M>>(&self, e: E) -> Result<(), E::Error> {
        match self.0 {
            NO_ENC => Err(e.cx().message("bad leaf")),
            STR => e.encode_string("bad"),
            n => e.encode_u32(n),
        }
    }

    fn as_encode(&self) -> &Self {
        self
    }
}

impl<'de, M, A: Allocator> Decode<'de, M, A> for Leaf {
    const IS_BITWISE_DECODE: bool = false;

    fn decode<D: Decoder<'de, Mode = M, Allocator = A>>(d: D) -> Result<Self, D::Error> {
        let cx = d.cx();
        match d.decode_u32()? {
            NO_DEC => Err(cx.message("bad leaf")),
            n => Ok(Leaf(n)),
        }
    }
}

#[derive(Debug, Clone, PartialEq)]
struct Tok {
    text: String,
    dec: bool,
    enc: bool,
    /// Only there when types are included.
    typed: bool,
}

/// Which document is built: every choice made in it, and the leaf which is bad.
struct Plan {
    choices: Vec<(usize, usize)>,
    at: usize,
    leaves: usize,
    target: usize,
    bad: u32,
    path: Vec<Tok>,
    found: Option<Found>,
    /// Inside of something that is buffered while decoding, packed or tried.
    buffered: usize,
    packed: usize,
    tried: usize,
    /// Inside of what bulk does not step through.
    most: usize,
}

#[derive(Debug, Clone)]
struct Found {
    path: Vec<Tok>,
    buffered: bool,
    packed: bool,
    tried: bool,
}

impl Plan {
    fn choose(&mut self, n: usize) -> usize {
        if self.at == self.choices.len() {
            self.choices.push((0, n));
        }
        let c = self.choices[self.at].0;
        self.at += 1;
        c
    }

    fn next(&mut self) -> bool {
        while let Some((c, n)) = self.choices.pop() {
            if c + 1 < n {
                self.choices.push((c + 1, n));
                return true;
            }
        }
        false
    }

    fn step<T>(&mut self, text: impl Into<String>, f: impl FnOnce(&mut Self) -> T) -> T {
        self.tok(text, true, true, false, f)
    }

    fn tok<T>(&mut self, text: impl Into<String>, dec: bool, enc: bool, typed: bool, f: impl FnOnce(&mut Self) -> T) -> T {
        self.path.push(Tok { text: text.into(), dec, enc, typed });
        let r = f(self);
        self.path.pop();
        r
    }

    fn typed<T>(&mut self, text: &str, f: impl FnOnce(&mut Self) -> T) -> T {
        self.tok(text, true, true, true, f)
    }

    fn field<T: Tree>(&mut self, name: &str) -> T {
        self.step(format!(".{name}"), |p| T::build(p))
    }

    fn packed<T>(&mut self, f: impl FnOnce(&mut Self) -> T) -> T {
        self.packed += 1;
        let r = f(self);
        self.packed -= 1;
        r
    }

    fn buffered<T>(&mut self, f: impl FnOnce(&mut Self) -> T) -> T {
        self.buffered += 1;
        let r = f(self);
        self.buffered -= 1;
        r
    }
}

trait Tree: Sized + Clone + Debug + PartialEq + 'static {
    fn build(p: &mut Plan) -> Self;
}

impl Tree for Leaf {
    fn build(p: &mut Plan) -> Self {
        let n = p.leaves;
        p.leaves += 1;
        if n == p.target {
            let path = p.path.iter().filter(|t| t.enc || t.dec).cloned().collect();
            p.found = Some(Found { path, buffered: p.buffered > 0, packed: p.packed > 0, tried: p.tried > 0 });
            return Leaf(p.bad);
        }
        Leaf(200 + n as u32)
    }
}

macro_rules! seqs {
    ($($t:ident)*) => { $(
        impl<T: Tree> Tree for $t<T> {
            fn build(p: &mut Plan) -> Self {
                let n = p.choose(p.most);
                (0..n).map(|i| p.step(format!("[{i}]"), |p| T::build(p))).collect()
            }
        }
    )* };
}
seqs!(Vec VecDeque);

impl<T: Tree> Tree for BTreeMap<String, T> {
    fn build(p: &mut Plan) -> Self {
        let n = p.choose(p.most);
        (0..n).map(|i| (format!("k{i}"), T::build(p))).collect()
    }
}
impl<T: Tree> Tree for Option<T> {
    fn build(p: &mut Plan) -> Self {
        (p.choose(2) == 1).then(|| T::build(p))
    }
}
impl<T: Tree> Tree for Box<T> {
    fn build(p: &mut Plan) -> Self {
        Box::new(T::build(p))
    }
}
impl<T: Tree, U: Tree> Tree for (T, U) {
    fn build(p: &mut Plan) -> Self {
        (T::build(p), U::build(p))
    }
}
impl<T: Tree> Tree for [T; 2] {
    fn build(p: &mut Plan) -> Self {
        let mut item = |i| p.tok(format!("[{i}]"), false, true, false, |p| T::build(p));
        [item(0), item(1)]
    }
}
impl<T: Tree, U: Tree> Tree for Result<T, U> {
    fn build(p: &mut Plan) -> Self {
        if p.choose(2) == 0 {
            Ok(T::build(p))
        } else {
            Err(U::build(p))
        }
    }
}
impl<T: Tree> Tree for std::ops::Range<T> {
    fn build(p: &mut Plan) -> Self {
        T::build(p)..T::build(p)
    }
}

/// Two of the same: the path to the second must not hold that of the first.
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
struct Root<T> {
    first: T,
    #[musli(Binary, name = 2)]
    second: T,
    #[musli(Binary, name = 4)]
    last: Leaf,
}
/// The same with other fields in between, which are skipped.
#[derive(Encode)]
struct Noisy<'a, T> {
    first: &'a T,
    noise: Noise,
    second: &'a T,
    more_noise: Noise,
    last: Leaf,
}
#[derive(Encode, Clone, Copy)]
struct Noise {
    short: &'static str,
    long: &'static str,
    #[musli(bytes)]
    bytes: &'static [u8],
    small: u8,
    big: u64,
    huge: u128,
    negative: i32,
    float: f64,
    flag: bool,
    letter: char,
    none: Option<u8>,
    some: Option<&'static str>,
    list: [u16; 3],
    nested: ((), (u8, &'static str)),
    variant: Quiet,
}
#[derive(Encode, Clone, Copy)]
enum Quiet {
    Nested { a: &'static [Quiet], b: u8 },
    Unit,
}
const NOISE: Noise = Noise {
    short: "s\n",
    long: "a string which is longer than those with a short length: \u{e9}\u{1f600}\"\\, and that is all, one more time: longer than those with a short length.",
    bytes: b"\x00\xff\x80",
    small: 7,
    big: u64::MAX,
    huge: 1 << 100,
    negative: -70_000,
    float: 1.5e-7,
    flag: true,
    letter: '\u{1f600}',
    none: None,
    some: Some("x"),
    list: [1, 300, 65535],
    nested: ((), (1, "n")),
    variant: Quiet::Nested { a: &[Quiet::Unit, Quiet::Nested { a: &[], b: 200 }], b: 1 },
};
fn with_noise<F: Format, T: Encode<F::Mode>>(r: &Root<T>) -> Result<Vec<u8>, String>
where
    for<'a> Noisy<'a, T>: Encode<F::Mode>,
{
    F::enc(&Noisy { first: &r.first, noise: NOISE, second: &r.second, more_noise: NOISE, last: r.last })
}
impl<T: Tree> Tree for Root<T> {
    fn build(p: &mut Plan) -> Self {
        p.typed("Root", |p| Root { first: p.field("first"), second: p.field("second"), last: p.field("last") })
    }
}

#[derive(Debug, Clone, PartialEq, Encode, Decode)]
struct Named {
    a: Leaf,
    #[musli(Text, name = "other")]
    b: Vec<Leaf>,
}
impl Tree for Named {
    fn build(p: &mut Plan) -> Self {
        p.typed("Named", |p| Named { a: p.field("a"), b: p.field("b") })
    }
}
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
struct Tuple(Leaf, Vec<Named>);
impl Tree for Tuple {
    fn build(p: &mut Plan) -> Self {
        p.typed("Tuple", |p| Tuple(p.field("0"), p.field("1")))
    }
}
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(transparent)]
struct Transparent {
    inner: Named,
}
impl Tree for Transparent {
    fn build(p: &mut Plan) -> Self {
        p.typed("Transparent", |p| Transparent { inner: Tree::build(p) })
    }
}
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(packed)]
struct Packed {
    x: Leaf,
    y: Leaf,
    z: Vec<Leaf>,
}
impl Tree for Packed {
    fn build(p: &mut Plan) -> Self {
        p.packed(|p| p.typed("Packed", |p| Packed { x: p.field("x"), y: p.field("y"), z: p.field("z") }))
    }
}
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(packed)]
struct PackedTuple(Leaf, Leaf);
impl Tree for PackedTuple {
    fn build(p: &mut Plan) -> Self {
        p.packed(|p| p.typed("PackedTuple", |p| PackedTuple(p.field("0"), p.field("1"))))
    }
}
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
struct Maps {
    #[musli(trace)]
    tree: BTreeMap<String, Leaf>,
    #[musli(trace)]
    hash: HashMap<u32, Vec<Leaf>>,
    plain: BTreeMap<String, Leaf>,
}
impl Tree for Maps {
    fn build(p: &mut Plan) -> Self {
        p.typed("Maps", |p| {
            let tree = p.step(".tree", |p| {
                let n = p.choose(p.most);
                (0..n).map(|i| (format!("k{i}"), p.step(format!("[k{i}]"), |p| Leaf::build(p)))).collect()
            });
            let hash = p.step(".hash", |p| {
                let n = p.choose(2);
                (0..n).map(|i| (7 + i as u32, p.step(format!("[{}]", 7 + i), |p| Tree::build(p)))).collect()
            });
            Maps { tree, hash, plain: p.field("plain") }
        })
    }
}


#[derive(Debug, Clone, PartialEq, Encode, Decode)]
enum Ext {
    Unit,
    Tup(Leaf, Leaf),
    #[musli(Text, name = "renamed")]
    Nam { a: Leaf, b: Vec<Leaf> },
    #[musli(transparent)]
    Tra(Leaf),
    #[musli(packed)]
    Pac(Leaf, Leaf),
}
impl Tree for Ext {
    fn build(p: &mut Plan) -> Self {
        p.tok("Ext::", true, false, true, |p| match p.choose(5) {
            0 => Ext::Unit,
            1 => p.step("Tup", |p| Ext::Tup(p.field("0"), p.field("1"))),
            2 => p.step("Nam", |p| Ext::Nam { a: p.field("a"), b: p.field("b") }),
            3 => p.step("Tra", |p| Ext::Tra(Tree::build(p))),
            _ => p.step("Pac", |p| p.packed(|p| Ext::Pac(p.field("0"), p.field("1")))),
        })
    }
}

#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(tag = "type", name(type = str))]
enum Int {
    Unit,
    #[musli(name(type = str))]
    Nam { a: Leaf, b: Vec<Leaf> },
}
impl Tree for Int {
    fn build(p: &mut Plan) -> Self {
        p.buffered(|p| {
            p.tok("Int::", true, false, true, |p| match p.choose(2) {
                0 => Int::Unit,
                _ => p.step("Nam", |p| Int::Nam { a: p.field("a"), b: p.field("b") }),
            })
        })
    }
}

#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(tag = "type", content = "data")]
enum Adj {
    Unit,
    Tup(Leaf, Leaf),
    Nam { a: Leaf, b: Vec<Leaf> },
    #[musli(transparent)]
    Tra(Leaf),
}
impl Tree for Adj {
    fn build(p: &mut Plan) -> Self {
        p.tok("Adj::", true, false, true, |p| match p.choose(4) {
            0 => Adj::Unit,
            1 => p.step("Tup", |p| Adj::Tup(p.field("0"), p.field("1"))),
            2 => p.step("Nam", |p| Adj::Nam { a: p.field("a"), b: p.field("b") }),
            _ => p.step("Tra", |p| Adj::Tra(Tree::build(p))),
        })
    }
}

/// None of the variants matches if a leaf is bad, so that the enum is.
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(untagged)]
enum Unt {
    First { only: Leaf, other: Leaf },
    #[musli(transparent)]
    Second(Vec<Leaf>),
}
impl Tree for Unt {
    fn build(p: &mut Plan) -> Self {
        p.tried += 1;
        let v = p.tok("Unt::", true, false, true, |p| match p.choose(2) {
            0 => p.tok("First", false, true, false, |p| Unt::First {
                only: p.tok(".only", false, true, false, |p| Tree::build(p)),
                other: p.tok(".other", false, true, false, |p| Tree::build(p)),
            }),
            _ => p.tok("Second", false, true, false, |p| {
                let n = p.choose(p.most);
                Unt::Second((0..n).map(|i| p.tok(format!("[{i}]"), false, true, false, |p| Tree::build(p))).collect())
            }),
        });
        p.tried -= 1;
        v
    }
}

// ---- what is reported

#[derive(Debug, Clone, PartialEq)]
struct Entry {
    path: String,
    message: String,
    range: (usize, usize),
}

/// The path without what separates its steps.
fn squeeze(s: &str) -> String {
    s.replace(" { ", "").replace(" }", "").replace(" = ", "").replace(' ', "")
}

fn parse(line: &str) -> Result<Entry, Failure> {
    // The name of an enum ends with two colons.
    let b = line.as_bytes();
    let end = (0..b.len()).find(|&i| b[i..].starts_with(b": ") && (!b[..i].ends_with(b":") || b[..i].ends_with(b"::") && !b[i..].starts_with(b": }")));
    let Some(end) = end.map(|i| if b[i..].starts_with(b":: ") { i + 1 } else { i }) else { fail!("odd report {line:?}") };
    let (path, rest) = (&line[..end], &line[end + 2..]);
    let num = |s: &str| s.parse::<usize>().map_err(|_| Failure::from(format!("odd range in {line:?}")));
    let (message, range) = if let Some((m, n)) = rest.rsplit_once(" (at byte ") {
        let n = num(n.trim_end_matches(')'))?;
        (m, (n, n))
    } else if let Some((m, n)) = rest.rsplit_once(" (at bytes ") {
        let Some((a, b)) = n.trim_end_matches(')').split_once('-') else { fail!("odd report {line:?}") };
        (m, (num(a)?, num(b)?))
    } else {
        (rest, (0, 0))
    };
    Ok(Entry { path: squeeze(path), message: message.to_string(), range })
}

fn entries<A: Allocator, C>(cx: &DefaultContext<A, Trace, C>) -> Result<Vec<Entry>, Failure> {
    let all: Vec<String> = cx.errors().map(|e| e.to_string()).collect();
    let report = cx.report().to_string();
    ensure!(report == all.iter().map(|l| format!("{l}\n")).collect::<String>(), "the report {report:?} is not that of the errors {all:?}");
    all.iter().map(|l| parse(l)).collect()
}

fn one(entries: Vec<Entry>) -> Result<Entry, Failure> {
    ensure!(entries.len() == 1, "{} errors are reported: {entries:?}", entries.len());
    Ok(entries.into_iter().next().unwrap())
}

fn expected(found: &Found, typed: bool, dec: bool) -> String {
    found.path.iter().filter(|t| (!t.typed || typed) && if dec { t.dec } else { t.enc }).map(|t| t.text.as_str()).collect()
}

macro_rules! contexts {
    ($typed:expr, |$cx:ident| $body:expr) => {
        if $typed {
            let $cx = context::new().with_trace().with_type();
            let r: CaseResult = (|| $body)();
            r
        } else {
            let $cx = context::new().with_trace();
            let r: CaseResult = (|| $body)();
            r
        }
    };
}

fn paths<F: Format, T>(c: &mut Check, name: &str)
where
    T: Tree + Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    Root<T>: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    for<'a> Noisy<'a, T>: Encode<F::Mode>,
    Leaf: Encode<F::Mode>,
{
    c.fam(format!("path/{name}/{}", F::NAME), |fam| {
        let most = fam.bound(3, 4);
        for bad in [NO_DEC, STR, NO_ENC] {
            let mut target = 0;
            let mut any = true;
            // Until no document has a leaf at this index.
            while any {
                any = false;
                let mut p = Plan { choices: Vec::new(), at: 0, leaves: 0, target, bad, path: Vec::new(), found: None, buffered: 0, packed: 0, tried: 0, most };
                loop {
                    p.at = 0;
                    p.leaves = 0;
                    p.found = None;
                    p.bad = bad;
                    let root = Root::<T>::build(&mut p);
                    if let Some(found) = p.found.take() {
                        any = true;
                        p.at = 0;
                        p.leaves = 0;
                        p.bad = OK_DEC;
                        let good = Root::<T>::build(&mut p);
                        for typed in [false, true] {
                            let mut n = 0;
                            fam.case(
                                || format!("{root:?}{}", if typed { " with types" } else { "" }),
                                || {
                                    n += 1;
                                    path_case::<F, T>(&root, &good, &found, bad, typed, &|r| F::enc(r))
                                },
                            );
                            fam.count_traces(n);
                        }
                        if F::KIND.skips() && bad != NO_ENC {
                            fam.case(
                                || format!("{root:?} among fields that are skipped"),
                                || path_case::<F, T>(&root, &good, &found, bad, false, &with_noise::<F, T>),
                            );
                        }
                    }
                    if fam.stopped() || !p.next() {
                        break;
                    }
                }
                target += 1;
                if fam.stopped() {
                    return;
                }
            }
        }
    });
}

fn path_case<F: Format, T>(root: &Root<T>, good: &Root<T>, found: &Found, bad: u32, typed: bool, enc: &dyn Fn(&Root<T>) -> Result<Vec<u8>, String>) -> CaseResult
where
    T: Tree,
    Root<T>: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    Leaf: Encode<F::Mode>,
{
    let intact = enc(good).map_err(|e| Failure::from(format!("does not encode: {e}")))?;
    if bad == NO_ENC {
        let want = expected(found, typed, false);
        return contexts!(typed, |cx| {
            ensure!(F::enc_with(&cx, root).is_err(), "encodes");
            let e = one(entries(&cx)?)?;
            ensure!(e.message == "bad leaf", "reported {e:?}");
            ensure!(e.path == want, "at {} instead of {want}", e.path);
            ensure!(e.range.0 <= e.range.1 && e.range.1 <= intact.len(), "range of {e:?}");
            let again = F::enc_with(&cx, good);
            ensure!(again.is_ok_and(|b| b == intact), "the context then fails to encode");
            let left = entries(&cx)?;
            ensure!(left.is_empty(), "then reports {left:?}");
            Ok(Fp::new().str(&e.path).u64(e.range.0 as u64).str(&format!("{root:?}")).done())
        });
    }
    if bad == STR && found.packed {
        // What is packed is not tagged with what it is.
        return Ok(0);
    }
    let b = enc(root).map_err(|e| Failure::from(format!("does not encode: {e}")))?;
    let want = expected(found, typed, true);
    contexts!(typed, |cx| {
        let r: Result<Root<T>, _> = F::dec_with(&cx, &b);
        if r.is_ok() && bad == STR && F::KIND == Kind::Storage {
            return Ok(0);
        }
        ensure!(r.is_err(), "decodes");
        let e = one(entries(&cx)?)?;
        ensure!(e.range.0 <= e.range.1 && e.range.1 <= b.len(), "range of {e:?} in {} bytes", b.len());
        if bad == STR && F::KIND == Kind::Storage {
            // Some later byte may be what does not fit.
            return Ok(Fp::new().str(&e.path).done());
        }
        ensure!(e.path == want, "at {} instead of {want}: {}", e.path, e.message);
        if !found.tried {
            ensure!(bad == STR || e.message == "bad leaf", "reported {e:?}");
        }
        if !found.tried && !found.buffered {
            // Where the leaf is.
            let at = b.iter().zip(&intact).position(|(a, b)| a != b).unwrap();
            if bad == NO_DEC {
                let (x, y) = if found.packed && F::KIND != Kind::Json && F::KIND != Kind::Storage {
                    (StorageVar::enc(&PackedLeaf(NO_DEC)), StorageVar::enc(&PackedLeaf(OK_DEC)))
                } else {
                    (F::enc(&Leaf(NO_DEC)), F::enc(&Leaf(OK_DEC)))
                };
                let (x, y) = (x.unwrap(), y.unwrap());
                let skip = x.iter().zip(&y).position(|(a, b)| a != b).unwrap();
                let (start, end) = (at - skip, at - skip + x.len());
                ensure!(e.range == (end, end), "range {:?} instead of the end of the leaf {start}-{end} in {}", e.range, hex(&b));
            } else {
                let len = F::enc(&Leaf(STR)).unwrap().len();
                ensure!(e.range.0 <= at + 1 && e.range.1 >= at && e.range.1 <= at + len, "range {:?} does not cover the leaf {at}-{} in {}", e.range, at + len, hex(&b));
            }
        }
        let again: Result<Root<T>, _> = F::dec_with(&cx, &intact);
        ensure!(again.is_ok_and(|r| r == *good), "the context then fails to decode");
        let left = entries(&cx)?;
        ensure!(left.is_empty(), "then reports {left:?}");
        Ok(Fp::new().str(&e.path).str(&e.message).u64(e.range.0 as u64).bytes(&b).done())
    })
}

#[derive(Encode)]
#[musli(transparent)]
struct PackedLeaf(u32);

// ---- damaged messages

fn damage(b: &[u8], many: bool) -> Vec<Vec<u8>> {
    let mut v = Vec::new();
    for i in 0..b.len() {
        v.push(b[..i].to_vec());
        for x in [0x01, 0x80, 0x41, 0xff, 0x20, 0x02, 0x10] {
            let mut c = b.to_vec();
            c[i] ^= x;
            v.push(c);
            if !many && i % 3 != 0 {
                break;
            }
        }
    }
    v
}

fn damaged<F: Format, T>(c: &mut Check)
where
    T: eng::zoo::Zoo + Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
{
    if !T::WHERE.ok(F::KIND) {
        return;
    }
    c.fam(format!("damage/{}/{}", T::NAME, F::NAME), |fam| {
        let plain = context::new().with_trace();
        let typed = context::new().with_trace().with_type();
        let captured = context::new().with_trace().with_capture::<String>();
        let only = context::new().with_capture::<String>();
        let emitted = context::new().with_trace().with_error::<String>();
        for v in T::samples(fam.bound(3, 1)) {
            let Ok(b) = F::enc(&v) else { continue };
            if b.len() > 400 {
                continue;
            }
            for d in damage(&b, fam.thorough()) {
                fam.case(
                    || format!("{v:?} as {}", hex(&d)),
                    || {
                        let alone = F::dec::<T>(&d);
                        let mut acc = Fp::new().bytes(&d);
                        macro_rules! judge {
                            ($cx:expr, $traced:expr) => {{
                                let r: Result<T, _> = F::dec_with(&$cx, &d);
                                ensure!(r.is_ok() == alone.is_ok(), "{:?} but {:?} with a default context", r.is_ok(), alone);
                                let e = entries(&$cx)?;
                                if r.is_ok() {
                                    ensure!(e.is_empty(), "succeeds but reports {e:?}");
                                } else {
                                    let e = one(e)?;
                                    ensure!(e.range.0 <= e.range.1 && e.range.1 <= d.len(), "range of {e:?} in {} bytes", d.len());
                                    acc = acc.str(&e.path).str(&e.message);
                                }
                                r
                            }};
                        }
                        let _ = judge!(plain, true);
                        let _ = judge!(typed, true);
                        let r = judge!(captured, true);
                        match (r.is_ok(), captured.result()) {
                            (true, Ok(())) => {}
                            (false, Err(m)) => {
                                let e = one(entries(&captured)?)?;
                                ensure!(m == e.message, "captured {m:?} but reports {e:?}");
                            }
                            (ok, r) => fail!("result is {ok} but captured {r:?}"),
                        }
                        let r: Result<T, _> = F::dec_with(&only, &d);
                        ensure!(r.is_ok() == alone.is_ok() && only.result().is_ok() == r.is_ok(), "capturing gives another result");
                        if let Err(m) = judge!(emitted, true) {
                            let e = one(entries(&emitted)?)?;
                            ensure!(m == e.message, "failed with {m:?} but reports {e:?}");
                        }
                        Ok(acc.done())
                    },
                );
                fam.count_traces(5);
            }
        }
    });
}

macro_rules! zoos {
    ($c:ident; $($t:ident)*) => { $(
        damaged::<StorageVar, $t>(&mut $c);
        damaged::<WireVar, $t>(&mut $c);
        damaged::<DescVar, $t>(&mut $c);
        damaged::<JsonText, $t>(&mut $c);
        damaged::<WireFix, $t>(&mut $c);
    )* };
}

// ---- histories on one context

type Outcome = (Result<String, ()>, Vec<Entry>);

trait Op<C> {
    fn run(&self, cx: C) -> Result<String, ()>;
}

struct D<F, T>(Vec<u8>, PhantomData<(F, T)>);
impl<C: Context, F: Format, T: Debug + for<'de> Decode<'de, F::Mode, C::Allocator>> Op<C> for D<F, T> {
    fn run(&self, cx: C) -> Result<String, ()> {
        F::dec_with::<C, T>(cx, &self.0).map(|v| format!("{v:?}")).map_err(|_| ())
    }
}
struct En<F, T>(T, PhantomData<F>);
impl<C: Context, F: Format, T: Encode<F::Mode>> Op<C> for En<F, T> {
    fn run(&self, cx: C) -> Result<String, ()> {
        F::enc_with::<C, T>(cx, &self.0).map(|b| hex(&b)).map_err(|_| ())
    }
}
/// Encodes into a slice which is too small.
struct Small<F, T>(T, PhantomData<F>);
impl<C: Context, F: Format, T: Encode<F::Mode>> Op<C> for Small<F, T> {
    fn run(&self, cx: C) -> Result<String, ()> {
        let mut out = [0; 5];
        F::enc_slice_with::<C, T>(cx, &mut out, &self.0).map(|n| n.to_string()).map_err(|_| ())
    }
}

/// A leaf in every kind of step.
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
struct Deep {
    a: Vec<Named>,
    b: Option<Packed>,
    c: Ext,
    d: Maps,
}

fn deep(bad: usize, with: u32) -> Deep {
    let mut n = 0;
    let mut leaf = || {
        n += 1;
        if n - 1 == bad {
            Leaf(with)
        } else {
            Leaf(n as u32)
        }
    };
    Deep {
        a: vec![Named { a: leaf(), b: vec![leaf()] }, Named { a: leaf(), b: vec![leaf(), leaf()] }],
        b: Some(Packed { x: leaf(), y: leaf(), z: vec![leaf()] }),
        c: Ext::Nam { a: leaf(), b: vec![leaf()] },
        d: Maps { tree: [("x".to_string(), leaf())].into(), hash: [(5, vec![leaf()])].into(), plain: [("y".to_string(), leaf())].into() },
    }
}

fn ops<F: Format, C: Context>() -> Vec<(String, Box<dyn Op<C>>)>
where
    F::Mode: 'static,
    Deep: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, C::Allocator>,
    Unt: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, C::Allocator>,
    Value<System>: Encode<F::Mode>,
{
    let mut v: Vec<(String, Box<dyn Op<C>>)> = Vec::new();
    for bad in [usize::MAX, 0, 4, 6, 9, 11] {
        v.push((format!("decode/{}", bad as isize), Box::new(D::<F, Deep>(F::enc(&deep(bad, NO_DEC)).unwrap(), PhantomData))));
    }
    for bad in [usize::MAX, 4, 7, 10] {
        v.push((format!("encode/{}", bad as isize), Box::new(En::<F, Deep>(deep(bad, NO_ENC), PhantomData))));
    }
    let full = F::enc(&deep(usize::MAX, 0)).unwrap();
    v.push(("truncated".into(), Box::new(D::<F, Deep>(full[..full.len() / 2].to_vec(), PhantomData))));
    v.push(("too small".into(), Box::new(Small::<F, Deep>(deep(usize::MAX, 0), PhantomData))));
    let unt = |l: Vec<Leaf>| F::enc(&Unt::Second(l)).unwrap();
    v.push(("second variant".into(), Box::new(D::<F, Unt>(unt(vec![Leaf(1), Leaf(2)]), PhantomData))));
    v.push(("no variant".into(), Box::new(D::<F, Unt>(unt(vec![Leaf(1), Leaf(NO_DEC)]), PhantomData))));
    v
}

fn histories<F: Format>(c: &mut Check)
where
    Deep: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    Unt: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    Value<System>: Encode<F::Mode>,
{
    macro_rules! family {
        ($name:expr, $make:expr, |$cx:ident, $r:ident| $report:expr) => {
            c.fam(format!("history/{}/{}", $name, F::NAME), |fam| {
                let depth = fam.bound(3, 4);
                let fresh = |i: usize| -> Outcome {
                    let $cx = $make;
                    let $r = ops::<F, _>()[i].1.run(&$cx);
                    let entries = $report;
                    ($r, entries)
                };
                const N: usize = 14;
                let base: Vec<Outcome> = (0..N).map(fresh).collect();
                let $cx = $make;
                let all = ops::<F, _>();
                assert_eq!(all.len(), N);
                kit::rng::sequences(N, depth, |seq| {
                    let mut states = 0;
                    fam.case(
                        || seq.iter().map(|&i| all[i].0.as_str()).collect::<Vec<_>>().join(", "),
                        || {
                            let mut acc = Fp::new();
                            for (at, &i) in seq.iter().enumerate() {
                                let $r = all[i].1.run(&$cx);
                                let entries: Vec<Entry> = $report;
                                states += 1;
                                ensure!(
                                    ($r.clone(), entries.clone()) == base[i],
                                    "step {at} gives {:?} {entries:?} instead of {:?}",
                                    $r,
                                    base[i]
                                );
                                acc = acc.u64(i as u64);
                            }
                            Ok(acc.done())
                        },
                    );
                    fam.count_transitions(states);
                });
            });
        };
    }
    family!("trace", context::new().with_trace(), |cx, r| entries(&cx).unwrap());
    family!("types", context::new().with_trace().with_type(), |cx, r| entries(&cx).unwrap());
    family!("capture", context::new().with_capture::<String>(), |cx, r| match cx.result() {
        Ok(()) => Vec::new(),
        Err(message) => vec![Entry { path: String::new(), message, range: (0, 0) }],
    });
    family!("trace and capture", context::new().with_trace().with_capture::<String>(), |cx, r| {
        let mut e = entries(&cx).unwrap();
        if let Err(message) = cx.result() {
            e.push(Entry { path: String::new(), message, range: (0, 0) });
        }
        e
    });
}

fn main() {
    let mut c = Check::new(
        "P17",
        Level::Exploration,
        "documents of every nesting of the steps a path has, each leaf bad in turn; damaged messages of each derived type; sequences of operations on one context; a case is a document, message or sequence",
    );
    c.assume("tuples, arrays and maps without #[musli(trace)] are not steps of a path, by design");
    macro_rules! all_paths {
        ($f:ident; $($t:ty),*) => { $( paths::<$f, $t>(&mut c, &stringify!($t).replace(' ', "")); )* };
    }
    macro_rules! some {
        ($($f:ident)*) => { $(
            all_paths!($f; Leaf, Named, Tuple, Transparent, Packed, PackedTuple, Maps, Ext, Vec<Leaf>, VecDeque<Leaf>, Vec<Vec<Leaf>>,
                Option<Leaf>, Box<Named>, (Leaf, Named), [Leaf; 2], BTreeMap<String, Leaf>, Result<Leaf, Named>, std::ops::Range<Leaf>,
                Vec<Named>, Vec<Ext>, Option<Vec<Ext>>);
        )* };
    }
    some!(StorageVar WireVar DescVar JsonText StorageFix);
    macro_rules! tagged {
        ($($f:ident)*) => { $( all_paths!($f; Int, Adj, Vec<Int>, Vec<Adj>, Unt, Vec<Unt>); )* };
    }
    tagged!(DescVar JsonText);
    {
        use eng::zoo::{Index, *};
        each_zoo!(zoos c);
    }
    histories::<StorageVar>(&mut c);
    histories::<WireVar>(&mut c);
    histories::<DescVar>(&mut c);
    histories::<JsonText>(&mut c);
    c.run()
}
