//! P25: corrupted zero-copy archives yield errors, not panics or invalid data.
//!
//! Archives holding every kind of reference, map and trie are corrupted in
//! every way of a stated family (bytes, words, pairs of words, truncations)
//! and then queried through everything the safe API offers. What comes back
//! has to lie inside of the archive and be valid for its type.

use std::cell::{Cell, RefCell};
use std::fmt::{self, Debug, Write};
use std::num::NonZeroU32;

use kit::guard::GuardBuf;
use kit::*;
use musli_zerocopy::buf::{Load, Padder, Validator, Visit};
use musli_zerocopy::endian::{Big, Endian, Little};
use musli_zerocopy::slice::{self, Packed, Slice};
use musli_zerocopy::trie::{self, DefaultFlavor, Flavor, TrieRef};
use musli_zerocopy::{phf, swiss};
use musli_zerocopy::{Buf, ByteOrder, Error, OwnedBuf, Ref, Size, ZeroCopy};

kit::global_allocator!();

type Check_ = Result<(), Failure>;

const ROOM: usize = 8192;

/// Nothing yields more than this.
const MANY: usize = 20_000;

thread_local! {
    static GUARD: RefCell<GuardBuf> = RefCell::new(GuardBuf::new(ROOM));
}

trait Bo: ByteOrder {
    const NAME: &'static str;
}
impl Bo for Little {
    const NAME: &'static str = "Little";
}
impl Bo for Big {
    const NAME: &'static str = "Big";
}
trait Sz: Size + TryFrom<usize> + Eq + std::hash::Hash {
    const NAME: &'static str;
    const BYTES: usize;
}
impl Sz for u8 {
    const NAME: &'static str = "u8";
    const BYTES: usize = 1;
}
impl Sz for u16 {
    const NAME: &'static str = "u16";
    const BYTES: usize = 2;
}
impl Sz for u32 {
    const NAME: &'static str = "u32";
    const BYTES: usize = 4;
}
impl Sz for u64 {
    const NAME: &'static str = "u64";
    const BYTES: usize = 8;
}
impl Sz for usize {
    const NAME: &'static str = "usize";
    const BYTES: usize = 8;
}

// ---------------------------------------------------------------------------
// What makes bytes valid

trait Valid {
    fn valid(bytes: &[u8]) -> bool;
}

macro_rules! any_bits {
    ($($t:ty),*) => {$(
        impl Valid for $t {
            fn valid(bytes: &[u8]) -> bool {
                bytes.len() == std::mem::size_of::<$t>()
            }
        }
    )*};
}
any_bits!(u8, u16, u32, u64, i16);

impl<T: ?Sized + musli_zerocopy::pointer::Pointee, E: ByteOrder, O: Size> Valid for Ref<T, E, O> {
    fn valid(_: &[u8]) -> bool {
        true
    }
}
impl Valid for bool {
    fn valid(bytes: &[u8]) -> bool {
        bytes == [0] || bytes == [1]
    }
}
impl Valid for char {
    fn valid(bytes: &[u8]) -> bool {
        bytes
            .try_into()
            .is_ok_and(|b| char::from_u32(u32::from_ne_bytes(b)).is_some())
    }
}
impl Valid for NonZeroU32 {
    fn valid(bytes: &[u8]) -> bool {
        bytes.len() == 4 && bytes != [0; 4]
    }
}
impl Valid for str {
    fn valid(bytes: &[u8]) -> bool {
        std::str::from_utf8(bytes).is_ok()
    }
}
impl<T: Valid> Valid for [T] {
    fn valid(bytes: &[u8]) -> bool {
        match std::mem::size_of::<T>() {
            0 => bytes.is_empty(),
            n => bytes.len() % n == 0 && bytes.chunks(n).all(T::valid),
        }
    }
}
impl<T: Valid, const N: usize> Valid for [T; N] {
    fn valid(bytes: &[u8]) -> bool {
        bytes.len() == std::mem::size_of::<Self>() && <[T]>::valid(bytes)
    }
}

#[derive(ZeroCopy, Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(u16)]
enum Kind {
    One = 1,
    Two = 0x202,
    Data(bool, u8) = 7,
}

impl Valid for Kind {
    fn valid(b: &[u8]) -> bool {
        match u16::from_ne_bytes([b[0], b[1]]) {
            1 | 0x202 => true,
            7 => b[2] < 2,
            _ => false,
        }
    }
}

#[derive(ZeroCopy, Clone, Copy, Debug, PartialEq)]
#[repr(C)]
struct Pair {
    a: NonZeroU32,
    b: bool,
    #[zero_copy(ignore)]
    _none: std::marker::PhantomData<()>,
    c: u16,
}

impl Valid for Pair {
    fn valid(b: &[u8]) -> bool {
        NonZeroU32::valid(&b[..4]) && bool::valid(&b[4..5])
    }
}

// ---------------------------------------------------------------------------
// Asking questions

/// Where answers come together.
struct Asker<'b> {
    buf: &'b Buf,
    log: Fp,
    bad: Option<Failure>,
}

impl<'b> Asker<'b> {
    fn new(buf: &'b Buf) -> Self {
        Self {
            buf,
            log: Fp::new(),
            bad: None,
        }
    }

    fn wrong(&mut self, what: String) {
        self.bad.get_or_insert(what.into());
    }

    fn note(&mut self, n: u64) {
        let log = std::mem::replace(&mut self.log, Fp::new());
        self.log = log.u64(n);
    }

    fn text(&mut self, s: &str) {
        let log = std::mem::replace(&mut self.log, Fp::new());
        self.log = log.str(s);
    }

    fn error(&mut self, what: &str, e: Error) {
        let s = e.to_string();
        if s.is_empty() {
            self.wrong(format!("{what}: an error without a message"));
        }
        // Errors may speak about addresses, which depend on where the archive
        // is.
        self.note(0xe44);
    }

    /// Something that came out of the archive.
    fn seen<T: ?Sized + Valid>(&mut self, what: &str, value: &T) {
        let at = value as *const T as *const u8 as usize;
        let n = std::mem::size_of_val(value);
        let align = std::mem::align_of_val(value);
        let from = self.buf[..].as_ptr() as usize;
        if at % align != 0 {
            self.wrong(format!(
                "{what}: a reference which is not aligned by {align}"
            ));
            return;
        }
        if n == 0 {
            self.note(0);
            return;
        }
        if at < from || n > self.buf.len() || at - from > self.buf.len() - n {
            self.wrong(format!(
                "{what}: {n} bytes at {} of an archive of {}",
                at.wrapping_sub(from),
                self.buf.len()
            ));
            return;
        }
        let bytes = &self.buf[at - from..at - from + n];
        if !T::valid(bytes) {
            self.wrong(format!(
                "{what}: {} is not a valid {}",
                hex(bytes),
                std::any::type_name::<T>()
            ));
        }
        self.note((at - from) as u64 ^ (n as u64) << 32);
    }

    fn ask<'x, T: ?Sized + Valid>(&mut self, what: &str, r: Result<&'x T, Error>) -> Option<&'x T> {
        match r {
            Ok(v) => {
                self.seen(what, v);
                // What is not valid may not be looked at.
                self.bad.is_none().then_some(v)
            }
            Err(e) => {
                self.error(what, e);
                None
            }
        }
    }

    fn maybe<'x, T: ?Sized + Valid>(
        &mut self,
        what: &str,
        r: Result<Option<&'x T>, Error>,
    ) -> Option<&'x T> {
        match r {
            Ok(None) => {
                self.note(1);
                None
            }
            Ok(Some(v)) => self.ask(what, Ok(v)),
            Err(e) => {
                self.error(what, e);
                None
            }
        }
    }

    fn flag(&mut self, what: &str, r: Result<bool, Error>) -> Option<bool> {
        match r {
            Ok(v) => {
                self.note(2 + v as u64);
                Some(v)
            }
            Err(e) => {
                self.error(what, e);
                None
            }
        }
    }

    fn load<R>(&mut self, what: &str, r: R) -> Option<&'b R::Target>
    where
        R: Load,
        R::Target: Valid + 'b,
    {
        self.ask(what, self.buf.load(r))
    }

    /// Everything one can do with a reference to a slice.
    fn slice<S>(&mut self, what: &str, s: S)
    where
        S: Slice,
        S::Item: Valid + ZeroCopy + 'b,
    {
        let whole = self.load(what, s).map(|s| s.len());
        let n = s.len();
        self.note(n as u64);
        if s.is_empty() != (n == 0) {
            self.wrong(format!("{what}: is_empty with {n} elements"));
        }
        if whole.is_some_and(|w| w != n) {
            self.wrong(format!("{what}: {whole:?} elements instead of {n}"));
        }
        for i in around(n) {
            match s.get(i) {
                Some(r) => {
                    if i >= n {
                        self.wrong(format!("{what}: element {i} of {n}"));
                    }
                    let got = self.load(what, r).is_some();
                    if whole.is_some() && !got {
                        self.wrong(format!("{what}: element {i} could not be loaded"));
                    }
                }
                None => {
                    if i < n && whole.is_some() {
                        self.wrong(format!("{what}: no element {i} of {n}"));
                    }
                    self.note(9);
                }
            }
            let r = s.get_unchecked(i);
            self.load(what, r);
        }
        self.note(s.offset() as u64);
    }

    fn refs<T, E: Bo, O: Sz>(&mut self, what: &str, r: Ref<[T], E, O>)
    where
        T: Valid + ZeroCopy + 'b,
    {
        self.slice(what, r);
        let n = r.len();
        let whole = self.buf.load(r).is_ok();
        let ahead: Vec<_> = r.iter().take(8).collect();
        let back: Vec<_> = r.iter().rev().take(8).collect();
        if whole && (ahead.len() != n.min(8) || back.len() != n.min(8)) {
            self.wrong(format!("{what}: an iterator over {n} elements ended"));
        }
        for r in ahead.into_iter().chain(back) {
            let got = self.load(what, r).is_some();
            if whole && !got {
                self.wrong(format!("{what}: an element could not be loaded"));
            }
        }
        let e = r.to_endian::<Big>().to_le().to_be().to_ne();
        if (e.offset(), e.len()) != (r.offset(), r.len()) {
            self.wrong(format!("{what}: another reference in another byte order"));
        }
        let _ = format!("{r:?}");
    }

    fn search<S, Q>(&mut self, what: &str, s: S, x: &Q)
    where
        S: Slice,
        S::Item: ZeroCopy + Ord,
        Q: Visit<Target = S::Item>,
    {
        match slice::binary_search(self.buf, s, x) {
            Ok(slice::BinarySearch::Found(n)) if n < s.len() => self.note(n as u64),
            Ok(slice::BinarySearch::Missing(n)) if n <= s.len() => self.note(n as u64),
            Ok(r) => self.wrong(format!("{what}: {r:?} in {} elements", s.len())),
            Err(e) => self.error(what, e),
        }
    }

    /// Iterate to the end or the first error.
    fn each<T>(
        &mut self,
        what: &str,
        mut it: impl Iterator<Item = Result<T, Error>>,
        mut each: impl FnMut(&mut Self, T),
    ) {
        for n in 0.. {
            if n > MANY {
                self.wrong(format!("{what}: more than {MANY} elements"));
                return;
            }
            match it.next() {
                None => {
                    self.note(n as u64);
                    break;
                }
                Some(Ok(v)) => each(self, v),
                Some(Err(e)) => {
                    self.error(what, e);
                    // It may go on, but not for nothing.
                    for _ in 0..3 {
                        let _ = it.next();
                    }
                    break;
                }
            }
        }
    }

    fn shown(&mut self, what: &str, v: impl Debug) {
        struct Limited(usize);
        impl Write for Limited {
            fn write_str(&mut self, s: &str) -> fmt::Result {
                self.0 += s.len();
                if self.0 > 1 << 20 {
                    return Err(fmt::Error);
                }
                Ok(())
            }
        }
        let mut out = Limited(0);
        let r = write!(out, "{v:?}");
        if out.0 > 1 << 20 {
            self.wrong(format!("{what}: no end of debug output"));
        }
        self.note(r.is_ok() as u64);
    }
}

/// Indexes worth asking for in something of a length.
fn around(n: usize) -> Vec<usize> {
    let mut all = vec![0, 1, 2, n / 2, usize::MAX, usize::MAX / 2 + 1, 255, 65535];
    for d in 0..3 {
        all.push(n.saturating_add(d));
        all.push(n.saturating_sub(d));
    }
    all.sort();
    all.dedup();
    all
}

// ---------------------------------------------------------------------------
// Archives

trait Archive: 'static {
    const NAME: &'static str;
    type Root<E: Bo, O: Sz>: ZeroCopy;

    fn build<E: Bo, O: Sz>(buf: &mut OwnedBuf<E, O>) -> Result<Self::Root<E, O>, Error>;

    fn ask<E: Bo, O: Sz>(a: &mut Asker<'_>, root: &Self::Root<E, O>);

    fn change<E: Bo, O: Sz>(buf: &mut Buf, root: Ref<Self::Root<E, O>, E, O>) -> Check_ {
        let _ = (buf, root);
        Ok(())
    }
}

/// Everything the bytes of a value have to be.
fn sound<T: ?Sized + Valid>(what: &str, v: &T) -> Check_ {
    // Safety: none of these have padding.
    let bytes =
        unsafe { std::slice::from_raw_parts(v as *const T as *const u8, std::mem::size_of_val(v)) };
    ensure!(T::valid(bytes), "{what}: {} is not valid", hex(bytes));
    Ok(())
}

struct Values;

#[derive(ZeroCopy)]
#[repr(C)]
struct ValuesRoot {
    flag: bool,
    kind: Kind,
    letter: char,
    number: NonZeroU32,
    flags: [bool; 3],
    none: [bool; 0],
    pair: Pair,
    order: Endian<u32, Big>,
}

impl Archive for Values {
    const NAME: &'static str = "values";
    type Root<E: Bo, O: Sz> = ValuesRoot;

    fn build<E: Bo, O: Sz>(_: &mut OwnedBuf<E, O>) -> Result<ValuesRoot, Error> {
        Ok(ValuesRoot {
            flag: true,
            kind: Kind::Data(true, 3),
            letter: 'ä',
            number: NonZeroU32::MIN,
            flags: [true, false, true],
            none: [],
            pair: pair(1),
            order: Endian::new(7),
        })
    }

    fn ask<E: Bo, O: Sz>(a: &mut Asker<'_>, r: &ValuesRoot) {
        a.seen("bool", &r.flag);
        a.seen("char", &r.letter);
        a.seen("NonZeroU32", &r.number);
        a.seen("[bool; 3]", &r.flags);
        a.seen("[bool; 0]", &r.none);
        a.seen("Kind", &r.kind);
        a.seen("Pair", &r.pair);
        a.note(r.order.to_ne() as u64);
    }

    fn change<E: Bo, O: Sz>(buf: &mut Buf, root: Ref<ValuesRoot, E, O>) -> Check_ {
        if let Ok(r) = buf.load_mut(root) {
            sound("bool", &r.flag)?;
            sound("char", &r.letter)?;
            sound("NonZeroU32", &r.number)?;
            sound("[bool; 3]", &r.flags)?;
            r.flag = !r.flag;
            r.kind = Kind::Two;
        }
        Ok(())
    }
}

fn pair(n: u32) -> Pair {
    Pair {
        a: NonZeroU32::new(n).unwrap(),
        b: n % 2 == 1,
        _none: std::marker::PhantomData,
        c: n as u16,
    }
}

struct Refs;

#[derive(ZeroCopy)]
#[repr(C)]
struct RefsRoot<E: ByteOrder, O: Size> {
    one: Ref<u32, E, O>,
    text: Ref<str, E, O>,
    bytes: Ref<[u8], E, O>,
    many: Ref<[u16], E, O>,
    flags: Ref<[bool], E, O>,
    letters: Ref<[char], E, O>,
}

impl Archive for Refs {
    const NAME: &'static str = "refs";
    type Root<E: Bo, O: Sz> = RefsRoot<E, O>;

    fn build<E: Bo, O: Sz>(buf: &mut OwnedBuf<E, O>) -> Result<RefsRoot<E, O>, Error> {
        Ok(RefsRoot {
            one: buf.store(&0x0102_0304),
            text: buf.store_unsized("käse€"),
            bytes: buf.store_slice(&[1, 2, 3, 4, 5]),
            many: buf.store_slice(&[10, 20, 30]),
            flags: buf.store_slice(&[true, false, true, true]),
            letters: buf.store_slice(&['a', 'ß']),
        })
    }

    fn ask<E: Bo, O: Sz>(a: &mut Asker<'_>, r: &RefsRoot<E, O>) {
        a.load("Ref<u32>", r.one);
        a.note(r.text.len() as u64);
        let _ = r.text.is_empty();
        if let Some(t) = a.load("Ref<str>", r.text) {
            a.text(t);
        }
        a.refs("Ref<[u8]>", r.bytes);
        a.refs("Ref<[u16]>", r.many);
        a.refs("Ref<[bool]>", r.flags);
        a.refs("Ref<[char]>", r.letters);
        for x in [0u16, 10, 11, 30, 65535] {
            a.search("search in [u16]", r.many, &&x);
        }
        a.search("search in [bool]", r.flags, &&true);
        a.search("search in [char]", r.letters, &&'b');
        // As something else.
        a.load("[u16] as [u8]", r.many.coerce::<[u8]>());
        if let Some(r) = r.many.try_coerce::<[u8]>() {
            a.refs("[u16] as [u8]", r);
        }
        a.load("u32 as [u8]", r.one.coerce::<[u8]>());
        if let Some(r) = r.one.try_coerce::<[u16]>() {
            a.refs("u32 as [u16]", r);
        }
        a.load("[u16] as [i16]", r.many.coerce::<[i16]>());
        match r.text.visit(a.buf, |s| s.as_bytes().to_vec()) {
            Ok(s) => {
                if !str::valid(&s) {
                    a.wrong(format!("visited {} as a string", hex(&s)));
                }
            }
            Err(e) => a.error("visit", e),
        }
        match r
            .flags
            .visit(a.buf, |s| s.as_ptr() as usize - a.buf[..].as_ptr() as usize)
        {
            Ok(n) => a.note(n as u64),
            Err(e) => a.error("visit", e),
        }
    }

    fn change<E: Bo, O: Sz>(buf: &mut Buf, root: Ref<RefsRoot<E, O>, E, O>) -> Check_ {
        let Ok(&RefsRoot {
            one,
            text,
            bytes,
            many,
            flags,
            letters,
        }) = buf.load(root)
        else {
            return Ok(());
        };
        if let Ok(t) = buf.load_mut(text) {
            sound("str", t)?;
            t.make_ascii_uppercase();
        }
        if let Ok(t) = buf.load_mut(flags) {
            sound("[bool]", t)?;
            t.reverse();
        }
        if let Ok(t) = buf.load_mut(letters) {
            sound("[char]", t)?;
            t.reverse();
        }
        if let (Some(x), Some(y)) = (letters.get(0), letters.get(1)) {
            let _ = buf.swap(x, y);
        }
        if let (Some(x), Some(y)) = (many.get(0), many.get(many.len().saturating_sub(1))) {
            let _ = buf.swap(x, y);
        }
        if let Ok(t) = buf.load_mut(one) {
            *t = u32::MAX;
        }
        if let Ok(t) = buf.load_mut(many) {
            t.fill(0xffff);
        }
        if let Ok(t) = buf.load_mut(bytes) {
            t.fill(0xff);
        }
        Ok(())
    }
}

thread_local! {
    /// How often a [`Counted`] may be validated.
    static COUNTED: Cell<usize> = const { Cell::new(0) };
}

/// Nothing, in a way that tells how often it is validated.
struct Counted;

unsafe impl ZeroCopy for Counted {
    const ANY_BITS: bool = false;
    const PADDED: bool = false;
    const CAN_SWAP_BYTES: bool = true;

    unsafe fn pad(_: &mut Padder<'_, Self>) {}

    unsafe fn validate(_: &mut Validator<'_, Self>) -> Result<(), Error> {
        COUNTED.with(|c| {
            let Some(n) = c.get().checked_sub(1) else {
                panic!("nothing is validated again and again");
            };
            c.set(n);
        });
        Ok(())
    }

    fn swap_bytes<E: ByteOrder>(self) -> Self {
        self
    }
}

impl Valid for Counted {
    fn valid(bytes: &[u8]) -> bool {
        bytes.is_empty()
    }
}

struct NestedRefs;

#[derive(ZeroCopy)]
#[repr(C)]
struct NestedRoot<E: ByteOrder, O: Size> {
    counted: Ref<[Counted], E, O>,
    texts: Ref<[Ref<str, E, O>], E, O>,
    kinds: Ref<[Kind], E, O>,
    array: Ref<[u16; 3], E, O>,
    nothing: Ref<[[bool; 0]], E, O>,
    units: Ref<[[u8; 0]], E, O>,
    pairs: Ref<[Pair], E, O>,
    far: Ref<Ref<Ref<bool, E, O>, E, O>, E, O>,
    grid: Ref<[[bool; 2]], E, O>,
}

impl Archive for NestedRefs {
    const NAME: &'static str = "nested";
    type Root<E: Bo, O: Sz> = NestedRoot<E, O>;

    fn build<E: Bo, O: Sz>(buf: &mut OwnedBuf<E, O>) -> Result<NestedRoot<E, O>, Error> {
        let a = buf.store_unsized("ab");
        let b = buf.store_unsized("é");
        let t = buf.store(&true);
        let t = buf.store(&t);
        Ok(NestedRoot {
            texts: buf.store_slice(&[a, b]),
            kinds: buf.store_slice(&[Kind::One, Kind::Data(false, 9), Kind::Two]),
            array: buf.store(&[1, 2, 3]),
            counted: buf.store_slice(&[Counted, Counted]),
            nothing: buf.store_slice(&[[]; 3]),
            units: buf.store_slice(&[[]; 3]),
            pairs: buf.store_slice(&[pair(1), pair(2)]),
            far: buf.store(&t),
            grid: buf.store_slice(&[[true, false], [false, true]]),
        })
    }

    fn ask<E: Bo, O: Sz>(a: &mut Asker<'_>, r: &NestedRoot<E, O>) {
        a.refs("Ref<[Ref<str>]>", r.texts);
        if let Some(t) = a.load("Ref<[Ref<str>]>", r.texts) {
            for t in t {
                if let Some(t) = a.load("Ref<str>", *t) {
                    a.text(t);
                }
            }
        }
        a.refs("Ref<[Kind]>", r.kinds);
        a.search("search in [Kind]", r.kinds, &&Kind::Two);
        a.load("Ref<[u16; 3]>", r.array);
        a.refs("array as slice", r.array.array_into_slice());
        a.load("array as slice", r.array.coerce::<[u16]>());
        a.refs("Ref<[[bool; 0]]>", r.nothing);
        a.refs("Ref<[[u8; 0]]>", r.units);
        COUNTED.with(|c| c.set(1 << 20));
        a.refs("Ref<[Counted]>", r.counted);
        a.refs("Ref<[Pair]>", r.pairs);
        a.refs("Ref<[[bool; 2]]>", r.grid);
        if let Some(s) = a.load("Ref<Ref<Ref>>", r.far) {
            if let Some(s) = a.load("Ref<Ref>", *s) {
                a.load("Ref", *s);
            }
        }
    }

    fn change<E: Bo, O: Sz>(buf: &mut Buf, root: Ref<NestedRoot<E, O>, E, O>) -> Check_ {
        let Ok(&NestedRoot {
            kinds,
            nothing,
            grid,
            ..
        }) = buf.load(root)
        else {
            return Ok(());
        };
        if let Ok(t) = buf.load_mut(kinds) {
            for t in &*t {
                ensure!(
                    matches!(t, Kind::One | Kind::Two | Kind::Data(..)),
                    "not a Kind"
                );
            }
            t.reverse();
        }
        if let Ok(t) = buf.load_mut(grid) {
            sound("[[bool; 2]]", t)?;
            t.reverse();
        }
        if let Ok(t) = buf.load_mut(nothing) {
            t.reverse();
        }
        if let (Some(x), Some(y)) = (kinds.get(1), kinds.get(2)) {
            let _ = buf.swap(x, y);
        }
        Ok(())
    }
}

struct Tight;

#[derive(ZeroCopy)]
#[repr(C)]
struct TightRoot<E: ByteOrder, O: Size> {
    many: Packed<[u16], O, u8, E>,
    flags: Packed<[bool], u32, O, E>,
    kinds: Packed<[Kind], usize, usize, E>,
    bytes: Packed<[u8], O, O, E>,
    none: Packed<[[bool; 0]], O, usize, E>,
}

impl Archive for Tight {
    const NAME: &'static str = "packed";
    type Root<E: Bo, O: Sz> = TightRoot<E, O>;

    fn build<E: Bo, O: Sz>(buf: &mut OwnedBuf<E, O>) -> Result<TightRoot<E, O>, Error> {
        Ok(TightRoot {
            many: Packed::from_ref(buf.store_slice(&[10, 20, 30, 40])),
            flags: Packed::from_ref(buf.store_slice(&[true, false])),
            kinds: Packed::from_ref(buf.store_slice(&[Kind::One, Kind::Data(true, 1)])),
            bytes: Packed::from_ref(buf.store_slice(&[1, 2, 3])),
            none: Packed::from_ref(buf.store_slice(&[[]; 3])),
        })
    }

    fn ask<E: Bo, O: Sz>(a: &mut Asker<'_>, r: &TightRoot<E, O>) {
        a.slice("Packed<[u16]>", r.many);
        a.slice("Packed<[bool]>", r.flags);
        a.slice("Packed<[Kind]>", r.kinds);
        a.slice("Packed<[u8]>", r.bytes);
        a.slice("Packed<[[bool; 0]]>", r.none);
        for x in [0u16, 10, 25, 40, 65535] {
            a.search("search in packed [u16]", r.many, &&x);
        }
        a.search("search in packed [u8]", r.bytes, &&2);
        a.search("search in packed [Kind]", r.kinds, &&Kind::Two);
        for (offset, len) in [
            (r.many.offset(), r.many.len()),
            (r.kinds.offset(), r.kinds.len()),
        ] {
            // To others.
            if let Ok(p) = Packed::<[u8], u16, u16, Big>::try_from_raw_parts(offset, len) {
                a.slice("try_from_raw_parts", p);
            }
            match Ref::<[u16], E, O>::try_with_metadata(offset, len) {
                Ok(r) => a.refs("try_with_metadata", r),
                Err(e) => a.error("try_with_metadata", e),
            }
        }
    }
}

struct Phf;

#[derive(ZeroCopy)]
#[repr(C)]
struct PhfRoot<E: ByteOrder, O: Size> {
    words: phf::MapRef<Ref<str, E, O>, u32, E, O>,
    numbers: phf::MapRef<u64, Ref<str, E, O>, E, O>,
    set: phf::SetRef<u16, E, O>,
    flags: phf::MapRef<bool, bool, E, O>,
    empty: phf::MapRef<u16, bool, E, O>,
    key: Ref<str, E, O>,
}

const WORDS: [&str; 5] = ["", "a", "b", "käse", "long word"];

impl Archive for Phf {
    const NAME: &'static str = "phf";
    type Root<E: Bo, O: Sz> = PhfRoot<E, O>;

    fn build<E: Bo, O: Sz>(buf: &mut OwnedBuf<E, O>) -> Result<PhfRoot<E, O>, Error> {
        let words = WORDS.map(|w| buf.store_unsized(w));
        Ok(PhfRoot {
            words: phf::store_map(buf, words[..4].iter().zip([1u32, 2, 3, 4]).map(|(w, n)| (*w, n)))?,
            numbers: phf::store_map(buf, [(1u64, words[0]), (7, words[1]), (9, words[3])])?,
            set: phf::store_set(buf, [1u16, 500, 4000])?,
            flags: phf::store_map(buf, [(true, false), (false, true)])?,
            empty: phf::store_map(buf, [(0u16, false); 0])?,
            key: words[3],
        })
    }

    fn ask<E: Bo, O: Sz>(a: &mut Asker<'_>, r: &PhfRoot<E, O>) {
        let buf = a.buf;
        for w in WORDS {
            a.maybe("phf get", r.words.get(buf, w));
            a.flag("phf contains_key", r.words.contains_key(buf, w));
            match r.words.get_entry(buf, w) {
                Ok(Some((k, v))) => {
                    a.seen("phf value", v);
                    if a.load("phf key", *k).is_some_and(|k| k != w) {
                        a.wrong(format!("phf: the entry of another key for {w:?}"));
                    }
                }
                Ok(None) => a.note(3),
                Err(e) => a.error("phf get_entry", e),
            }
        }
        a.maybe("phf get of a reference", r.words.get(buf, &r.key));
        for n in [0u64, 1, 7, 9, u64::MAX] {
            if let Some(t) = a.maybe("phf get", r.numbers.get(buf, &n)) {
                a.load("phf value", *t);
            }
        }
        for n in [0u16, 1, 500, 4000, 65535] {
            a.flag("phf contains", r.set.contains(buf, &n));
            a.maybe("phf get", r.empty.get(buf, &n));
        }
        for b in [false, true] {
            a.maybe("phf get", r.flags.get(buf, &b));
            match r.flags.get_entry(buf, &b) {
                Ok(Some((k, v))) => {
                    a.seen("phf key", k);
                    a.seen("phf value", v);
                }
                Ok(None) => a.note(3),
                Err(e) => a.error("phf get_entry", e),
            }
        }
        match buf.bind(r.words) {
            Ok(m) => {
                for w in WORDS {
                    a.maybe("bound phf get", m.get(w));
                    a.flag("bound phf contains_key", m.contains_key(w));
                    match m.get_entry(w) {
                        Ok(Some((_, v))) => a.seen("bound phf value", v),
                        Ok(None) => a.note(3),
                        Err(e) => a.error("bound phf get_entry", e),
                    }
                }
                a.maybe("bound phf get of a reference", m.get(&r.key));
            }
            Err(e) => a.error("bind", e),
        }
        match buf.bind(r.flags) {
            Ok(m) => {
                for b in [false, true] {
                    a.maybe("bound phf get", m.get(&b));
                }
            }
            Err(e) => a.error("bind", e),
        }
    }
}

struct Swiss;

#[derive(ZeroCopy)]
#[repr(C)]
struct SwissRoot<E: ByteOrder, O: Size> {
    words: swiss::MapRef<Ref<str, E, O>, u32, E, O>,
    numbers: swiss::MapRef<u64, Ref<str, E, O>, E, O>,
    set: swiss::SetRef<u16, E, O>,
    flags: swiss::MapRef<bool, bool, E, O>,
    empty: swiss::MapRef<u16, bool, E, O>,
    key: Ref<str, E, O>,
}

impl Archive for Swiss {
    const NAME: &'static str = "swiss";
    type Root<E: Bo, O: Sz> = SwissRoot<E, O>;

    fn build<E: Bo, O: Sz>(buf: &mut OwnedBuf<E, O>) -> Result<SwissRoot<E, O>, Error> {
        let words = WORDS.map(|w| buf.store_unsized(w));
        Ok(SwissRoot {
            words: swiss::store_map(buf, words[..4].iter().zip([1u32, 2, 3, 4]).map(|(w, n)| (*w, n)))?,
            numbers: swiss::store_map(buf, (0..20u32).map(|n| (n as u64 * 7, words[n as usize % 5])))?,
            set: swiss::store_set(buf, [1u16, 500, 4000])?,
            flags: swiss::store_map(buf, [(true, false), (false, true)])?,
            empty: swiss::store_map(buf, [(0u16, false); 0])?,
            key: words[3],
        })
    }

    fn ask<E: Bo, O: Sz>(a: &mut Asker<'_>, r: &SwissRoot<E, O>) {
        let buf = a.buf;
        for w in WORDS {
            a.maybe("swiss get", r.words.get(buf, w));
            a.flag("swiss contains_key", r.words.contains_key(buf, w));
        }
        a.note(r.words.len() as u64);
        let _ = r.words.is_empty();
        a.maybe("swiss get of a reference", r.words.get(buf, &r.key));
        for n in [0u64, 1, 7, 70, 133, u64::MAX] {
            if let Some(t) = a.maybe("swiss get", r.numbers.get(buf, &n)) {
                a.load("swiss value", *t);
            }
        }
        for n in [0u16, 1, 500, 4000, 65535] {
            a.flag("swiss contains", r.set.contains(buf, &n));
            a.maybe("swiss get", r.empty.get(buf, &n));
        }
        for b in [false, true] {
            a.maybe("swiss get", r.flags.get(buf, &b));
        }
        match buf.bind(r.words) {
            Ok(m) => {
                a.note(m.len() as u64);
                let _ = m.is_empty();
                for w in WORDS {
                    a.maybe("bound swiss get", m.get(w));
                    a.flag("bound swiss contains_key", m.contains_key(w));
                }
                a.maybe("bound swiss get of a reference", m.get(&r.key));
            }
            Err(e) => a.error("bind", e),
        }
        match buf.bind(r.flags) {
            Ok(m) => {
                for b in [false, true] {
                    a.maybe("bound swiss get", m.get(&b));
                }
            }
            Err(e) => a.error("bind", e),
        }
        match buf.bind(r.numbers) {
            Ok(m) => {
                for n in [0u64, 1, 7, 70, 133, u64::MAX] {
                    a.maybe("bound swiss get", m.get(&n));
                }
            }
            Err(e) => a.error("bind", e),
        }
    }
}

/// Which parts of a trie come in which flavor.
struct TightFlavor<E, O>(std::marker::PhantomData<(E, O)>);

impl<E: ByteOrder, O: Size> Flavor for TightFlavor<E, O> {
    type String = Packed<[u8], O, u8, E>;
    type Values<T>
        = Packed<[T], O, u16, E>
    where
        T: ZeroCopy;
    type Children<T>
        = Packed<[T], O, O, E>
    where
        T: ZeroCopy;
}

struct Trie;
struct TightTrie;
struct FlagTrie;

const KEYS: [&str; 9] = ["", "a", "ab", "abc", "abd", "b", "bcdefgh", "bcdx", "käse"];

fn trie<T: ZeroCopy + Copy + Valid + Debug, F: Flavor, O: Sz>(
    a: &mut Asker<'_>,
    t: &TrieRef<T, F>,
) {
    let buf = a.buf;
    for k in KEYS.iter().chain(&["abcd", "bcd", "c", "k"]) {
        a.maybe("trie get", t.get(buf, k));
    }
    a.maybe("trie get", t.get(buf, &b"\xff\x00"[..]));
    let entry = |what: &'static str| {
        move |a: &mut Asker<'_>, (k, v): (&[u8], &T)| {
            a.seen(what, k);
            a.seen(what, v);
        }
    };
    a.each("trie iter", t.iter(buf), entry("trie iter"));
    a.each("trie values", t.values(buf), |a, v| a.seen("values", v));
    for p in ["", "a", "ab", "abcd", "b", "bcd", "bcdefghi", "k", "x"] {
        a.each("trie iter_in", t.iter_in(buf, p), entry("iter_in"));
        a.each("trie values_in", t.values_in(buf, p), |a, v| {
            a.seen("values_in", v)
        });
        a.each(
            "trie iter_in_fixed",
            t.iter_in_fixed::<3, _>(buf, p),
            entry("iter_in_fixed"),
        );
        a.each(
            "trie values_in_fixed",
            t.values_in_fixed::<2, _>(buf, p),
            |a, v| a.seen("values_in_fixed", v),
        );
    }
    a.each(
        "trie iter_fixed",
        t.iter_fixed::<32>(buf),
        entry("iter_fixed"),
    );
    a.each(
        "trie iter_fixed",
        t.iter_fixed::<1>(buf),
        entry("iter_fixed"),
    );
    a.each("trie values_fixed", t.values_fixed::<16>(buf), |a, v| {
        a.seen("values_fixed", v)
    });
    a.shown("trie debug", t.debug(buf));
    a.shown("trie debug_fixed", t.debug_fixed::<8>(buf));
}

fn plant<T: ZeroCopy, F: Flavor, E: Bo, O: Sz>(
    buf: &mut OwnedBuf<E, O>,
    value: impl Fn(usize) -> T,
) -> Result<TrieRef<T, F>, Error> {
    let mut t = trie::Builder::<T, F>::with_flavor();
    for (n, k) in KEYS.iter().enumerate() {
        let k = buf.store_unsized(*k);
        t.insert(buf, k, value(n))?;
        if n % 3 == 1 {
            t.insert(buf, k, value(n + 20))?;
        }
    }
    t.build(buf)
}

impl Archive for Trie {
    const NAME: &'static str = "trie";
    type Root<E: Bo, O: Sz> = TrieRef<u32, DefaultFlavor<E, O>>;

    fn build<E: Bo, O: Sz>(buf: &mut OwnedBuf<E, O>) -> Result<Self::Root<E, O>, Error> {
        plant(buf, |n| n as u32)
    }

    fn ask<E: Bo, O: Sz>(a: &mut Asker<'_>, root: &Self::Root<E, O>) {
        trie::<_, _, O>(a, root);
    }
}

impl Archive for TightTrie {
    const NAME: &'static str = "packed trie";
    type Root<E: Bo, O: Sz> = TrieRef<u16, TightFlavor<E, O>>;

    fn build<E: Bo, O: Sz>(buf: &mut OwnedBuf<E, O>) -> Result<Self::Root<E, O>, Error> {
        plant(buf, |n| n as u16)
    }

    fn ask<E: Bo, O: Sz>(a: &mut Asker<'_>, root: &Self::Root<E, O>) {
        trie::<_, _, O>(a, root);
    }
}

impl Archive for FlagTrie {
    const NAME: &'static str = "trie of flags";
    type Root<E: Bo, O: Sz> = TrieRef<bool, DefaultFlavor<E, O>>;

    fn build<E: Bo, O: Sz>(buf: &mut OwnedBuf<E, O>) -> Result<Self::Root<E, O>, Error> {
        plant(buf, |n| n % 2 == 0)
    }

    fn ask<E: Bo, O: Sz>(a: &mut Asker<'_>, root: &Self::Root<E, O>) {
        trie::<_, _, O>(a, root);
    }
}

// ---------------------------------------------------------------------------
// Corruption

/// An archive and where its root is.
struct Built {
    bytes: Vec<u8>,
    root: usize,
}

fn built<A: Archive, E: Bo, O: Sz>() -> Result<Built, Failure> {
    let mut buf = OwnedBuf::new().with_byte_order::<E>().with_size::<O>();
    let root = A::build(&mut buf).map_err(|e| e.to_string())?;
    let root = buf.store(&root).offset();
    buf.align_in_place();
    let mut bytes = buf.as_slice().to_vec();
    while bytes.len() % 16 != 0 {
        bytes.push(0x5a);
    }
    Ok(Built { bytes, root })
}

/// Query what is there, returning what one gets to see.
fn query<A: Archive, E: Bo, O: Sz>(bytes: &[u8], root: usize) -> Result<u64, Failure> {
    let r = no_panic(|| {
        let (r, m) = alloc::measure(|| {
            let buf = Buf::new(bytes);
            let mut a = Asker::new(buf);
            let root = Ref::<A::Root<E, O>, E, O>::new(root);
            match buf.load(root) {
                Ok(root) => A::ask(&mut a, root),
                Err(e) => a.error("root", e),
            }
            match a.bad {
                Some(bad) => Err(bad),
                None => Ok(a.log.done()),
            }
        });
        ensure!(
            m.max < 1 << 20,
            "{} bytes were allocated at once for an archive of {}",
            m.max,
            bytes.len()
        );
        r
    });
    r.map_err(|p| Failure::from(format!("panicked: {p}")))?
}

/// Change what is there.
fn change<A: Archive, E: Bo, O: Sz>(bytes: &mut [u8], root: usize) -> Check_ {
    no_panic(|| A::change::<E, O>(Buf::new_mut(bytes), Ref::new(root)))
        .map_err(|p| Failure::from(format!("panicked when changed: {p}")))?
}

/// Query an archive which ends where nothing may be read.
fn judge<A: Archive, E: Bo, O: Sz>(bytes: &[u8], root: usize) -> Result<u64, Failure> {
    GUARD.with(|g| {
        let mut g = g.borrow_mut();
        let at = g.at_end(bytes);
        let n = query::<A, E, O>(at, root)?;
        ensure!(at == bytes, "queries changed the archive");
        change::<A, E, O>(at, root)?;
        Ok(n)
    })
}

fn intact<A: Archive, E: Bo, O: Sz>(fam: &mut Fam) {
    fam.case(
        || format!("{} {} {}", A::NAME, E::NAME, O::NAME),
        || {
            let b = built::<A, E, O>()?;
            let n = judge::<A, E, O>(&b.bytes, b.root)?;
            // Nothing depends on where it is.
            let m = GUARD.with(|g| query::<A, E, O>(g.borrow_mut().at_start(&b.bytes), b.root))?;
            ensure!(n == m, "queries depend on where the archive is");
            Ok(fp(&b.bytes))
        },
    );
}

fn bytes<A: Archive, E: Bo, O: Sz>(fam: &mut Fam) {
    let Ok(b) = built::<A, E, O>() else { return };
    for at in 0..b.bytes.len() {
        let old = b.bytes[at];
        let mut values: Vec<u8> = if fam.quick() {
            vec![
                0,
                1,
                2,
                4,
                8,
                0x10,
                0x20,
                0x41,
                0x7f,
                0x80,
                0xc3,
                0xff,
                old ^ 1,
                old ^ 0x80,
                old.wrapping_add(1),
                old.wrapping_sub(1),
                old.wrapping_add(16),
                old.wrapping_sub(16),
            ]
        } else {
            (0..=255).collect()
        };
        values.sort();
        values.dedup();
        values.retain(|v| *v != old);
        for v in values {
            fam.case(
                || format!("{} {} {} byte {at} = {v}", A::NAME, E::NAME, O::NAME),
                || {
                    let mut bytes = b.bytes.clone();
                    bytes[at] = v;
                    judge::<A, E, O>(&bytes, b.root)?;
                    Ok(fp(&bytes))
                },
            );
        }
    }
}

fn put(bytes: &mut [u8], at: usize, width: usize, big: bool, v: u64) {
    let mut le = v.to_le_bytes()[..width].to_vec();
    if big {
        le.reverse();
    }
    bytes[at..at + width].copy_from_slice(&le);
}

fn take(bytes: &[u8], at: usize, width: usize, big: bool) -> u64 {
    let mut le = bytes[at..at + width].to_vec();
    if big {
        le.reverse();
    }
    le.resize(8, 0);
    u64::from_le_bytes(le.try_into().unwrap())
}

/// Values of a width at which something may happen.
fn alphabet(width: usize, len: usize, old: u64) -> Vec<u64> {
    let max = u64::MAX >> (64 - 8 * width);
    let len = len as u64;
    let mut all = vec![
        0,
        1,
        2,
        3,
        len,
        len - 1,
        len + 1,
        len - 16,
        len / 2,
        max,
        max - 1,
        max - 2,
        max - 7,
        max - 15,
        max - len,
        max / 2,
        max / 2 + 1,
        max / 4,
        max / 4 + 1,
        max / 8 + 1,
        max / 16 + 1,
        old.wrapping_add(1),
        old.wrapping_sub(1),
        old.wrapping_mul(2),
        old / 2,
    ];
    all.iter_mut().for_each(|v| *v &= max);
    all.sort();
    all.dedup();
    all.retain(|v| *v != old);
    all
}

fn words<A: Archive, E: Bo, O: Sz>(fam: &mut Fam) {
    let Ok(b) = built::<A, E, O>() else { return };
    let native = E::NAME == "Big";
    for width in [2, 4, 8] {
        for big in [native, !native] {
            if big != native && fam.quick() {
                continue;
            }
            let step = if fam.quick() { 2 } else { 1 };
            for at in (0..=b.bytes.len() - width).step_by(step) {
                let old = take(&b.bytes, at, width, big);
                for v in alphabet(width, b.bytes.len(), old) {
                    fam.case(
                        || {
                            format!(
                                "{} {} {} {width} bytes at {at} = {v:#x}{}",
                                A::NAME,
                                E::NAME,
                                O::NAME,
                                if big { " big" } else { "" }
                            )
                        },
                        || {
                            let mut bytes = b.bytes.clone();
                            put(&mut bytes, at, width, big, v);
                            judge::<A, E, O>(&bytes, b.root)?;
                            Ok(fp(&bytes))
                        },
                    );
                }
            }
        }
    }
}

/// Two words which are wrong at once.
fn pairs<A: Archive, E: Bo, O: Sz>(fam: &mut Fam) {
    let Ok(b) = built::<A, E, O>() else { return };
    let big = E::NAME == "Big";
    let n = O::BYTES;
    let len = b.bytes.len();
    let max = u64::MAX >> (64 - 8 * n);
    let values: &[u64] = if fam.quick() {
        &[0, max, max / 2 + 1, len as u64]
    } else {
        &[
            0,
            1,
            max,
            max - 15,
            max / 2 + 1,
            max / 4 + 1,
            len as u64,
            16,
        ]
    };
    // What is queried first is last.
    let from = if fam.quick() { b.root } else { 0 };
    let places: Vec<usize> = (0..=len - n).step_by(n).collect();
    for (i, &p) in places.iter().enumerate() {
        if p < from {
            continue;
        }
        for &q in &places[..i] {
            for &v in values {
                for &w in values {
                    fam.case(
                        || {
                            format!(
                                "{} {} {} at {q} = {w:#x} and at {p} = {v:#x}",
                                A::NAME,
                                E::NAME,
                                O::NAME
                            )
                        },
                        || {
                            let mut bytes = b.bytes.clone();
                            put(&mut bytes, p, n, big, v & max);
                            put(&mut bytes, q, n, big, w & max);
                            judge::<A, E, O>(&bytes, b.root)?;
                            Ok(fp(&bytes))
                        },
                    );
                }
            }
        }
    }
}

/// Parts of an archive in place of others of its parts, such that what refers
/// to something comes to refer to something else, or itself.
fn copies<A: Archive, E: Bo, O: Sz>(fam: &mut Fam) {
    let Ok(b) = built::<A, E, O>() else { return };
    let n = O::BYTES;
    let len = b.bytes.len();
    for words in 1..=fam.bound(2, 6) {
        let size = words * n;
        if size > len {
            continue;
        }
        for p in (0..=len - size).step_by(n) {
            for q in (0..=len - size).step_by(n) {
                if p == q {
                    continue;
                }
                for swap in [false, true] {
                    if swap && q < p {
                        continue;
                    }
                    fam.case(
                        || {
                            format!(
                                "{} {} {} {size} bytes at {p} {} those at {q}",
                                A::NAME,
                                E::NAME,
                                O::NAME,
                                if swap { "swapped with" } else { "replaced by" }
                            )
                        },
                        || {
                            let mut bytes = b.bytes.clone();
                            let was = bytes[p..p + size].to_vec();
                            bytes.copy_within(q..q + size, p);
                            if swap {
                                bytes[q..q + size].copy_from_slice(&was);
                            }
                            judge::<A, E, O>(&bytes, b.root)?;
                            Ok(fp(&bytes))
                        },
                    );
                }
            }
        }
    }
}

/// References to references to themselves: every offset the root has in turn
/// refers to every place there is.
fn redirected<A: Archive, E: Bo, O: Sz>(fam: &mut Fam) {
    let Ok(b) = built::<A, E, O>() else { return };
    let big = E::NAME == "Big";
    let n = O::BYTES;
    let len = b.bytes.len();
    for p in (0..=len - n).step_by(if fam.quick() { n } else { 1 }) {
        for v in 0..=len as u64 {
            if v >> (8 * n - 1) > 1 {
                continue;
            }
            fam.case(
                || format!("{} {} {} at {p} = {v}", A::NAME, E::NAME, O::NAME),
                || {
                    let mut bytes = b.bytes.clone();
                    put(&mut bytes, p, n, big, v);
                    judge::<A, E, O>(&bytes, b.root)?;
                    Ok(fp(&bytes))
                },
            );
        }
    }
}

fn truncated<A: Archive, E: Bo, O: Sz>(fam: &mut Fam) {
    let Ok(b) = built::<A, E, O>() else { return };
    for n in 0..b.bytes.len() {
        for flip in [0, 0xff] {
            fam.case(
                || {
                    format!(
                        "{} {} {} truncated to {n}, beginning with {flip:#x}",
                        A::NAME,
                        E::NAME,
                        O::NAME
                    )
                },
                || {
                    let mut bytes = b.bytes.clone();
                    bytes[0] ^= flip;
                    bytes.truncate(n);
                    // Nothing is after it.
                    judge::<A, E, O>(&bytes, b.root)?;
                    // What is after it does not matter.
                    let mut all = Vec::new();
                    for fill in [0, 1, 0xff] {
                        all.push(GUARD.with(|g| {
                            let mut g = g.borrow_mut();
                            g.whole().fill(fill);
                            let at = g.at_start(&bytes);
                            query::<A, E, O>(at, b.root)
                        })?);
                    }
                    ensure!(
                        all[0] == all[1] && all[0] == all[2],
                        "what is seen depends on what is after the archive"
                    );
                    Ok(fp(&bytes))
                },
            );
        }
    }
}

/// An archive in memory which is not aligned.
fn moved<A: Archive, E: Bo, O: Sz>(fam: &mut Fam) {
    let Ok(b) = built::<A, E, O>() else { return };
    for n in 0..16 {
        for byte in [0, 1, 0x80, 0xff] {
            fam.case(
                || {
                    format!(
                        "{} {} {} moved by {n} bytes of {byte}",
                        A::NAME,
                        E::NAME,
                        O::NAME
                    )
                },
                || {
                    let mut bytes = vec![byte; n];
                    bytes.extend(&b.bytes);
                    judge::<A, E, O>(&bytes, b.root)?;
                    judge::<A, E, O>(&bytes, b.root + n)?;
                    judge::<A, E, O>(&bytes[n..], b.root)?;
                    Ok(fp(&bytes))
                },
            );
        }
    }
}

/// For all archives, in all byte orders and sizes they fit in.
macro_rules! every {
    ($c:expr, $name:literal, $n:expr, $f:ident) => {
        $c.fam_sharded($name, $n, |fam| {
            every!(@ fam $f Values Refs NestedRefs Tight: u8 u16 u32 u64 usize);
            every!(@ fam $f Phf Swiss Trie TightTrie FlagTrie: u16 u32 u64 usize);
        });
    };
    (@ $fam:ident $f:ident $($a:ident)*: $($o:ident)*) => {
        every!(@@ $fam $f ($($a)*) ($($o)*));
    };
    (@@ $fam:ident $f:ident ($($a:ident)*) $os:tt) => {$(
        every!(@@@ $fam $f $a $os);
    )*};
    (@@@ $fam:ident $f:ident $a:ident ($($o:ident)*)) => {$(
        $f::<$a, Little, $o>($fam);
        $f::<$a, Big, $o>($fam);
    )*};
}

/// For all archives in some byte orders and sizes.
macro_rules! some {
    ($c:expr, $name:literal, $n:expr, $f:ident) => {
        $c.fam_sharded($name, $n, |fam| {
            some!(@ fam $f Values Refs NestedRefs Tight Phf Swiss Trie TightTrie FlagTrie);
        });
    };
    (@ $fam:ident $f:ident $($a:ident)*) => {$(
        $f::<$a, Little, u32>($fam);
        $f::<$a, Big, u16>($fam);
        if $fam.thorough() {
            $f::<$a, Little, usize>($fam);
        }
    )*};
}

fn main() {
    let mut c = Check::new(
        "P25",
        Level::FaultEnumeration,
        "Archives which were altered are queried without a panic, reads outside of them or invalid data, in a number of steps bounded by their size.",
    );
    c.assume("`split_at` is documented to panic when out of bounds, and is not part of querying.");
    c.assume("Archives have up to about a kilobyte.");
    every!(c, "intact", 1, intact);
    every!(c, "truncated", 8, truncated);
    every!(c, "moved", 2, moved);
    every!(c, "bytes", 8, bytes);
    every!(c, "words", 16, words);
    some!(c, "redirected", 16, redirected);
    some!(c, "copies", 16, copies);
    some!(c, "pairs", 16, pairs);
    c.run();
}
