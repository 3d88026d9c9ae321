//! P22: byte order and offset size are honoured everywhere in zero-copy data.
//!
//! Values, references and packed slices are made for every byte order and
//! size and compared with bytes computed independently; every operation on
//! slice references is compared with the same operation on the slice.

use std::cmp::Ordering;
use std::fmt::Debug;
use std::num::Wrapping;

use kit::*;
use musli_zerocopy::buf::StoreBuf;
use musli_zerocopy::endian::{self, Big, Endian, Little, Native};
use musli_zerocopy::mem::MaybeUninit;
use musli_zerocopy::pointer::Coerce;
use musli_zerocopy::slice::{self, BinarySearch, Packed, Slice};
use musli_zerocopy::{Buf, ByteOrder, OwnedBuf, Ref, Size, SliceMut, ZeroCopy};

kit::global_allocator!();

type Check_ = Result<(), Failure>;

trait Bo: ByteOrder {
    const NAME: &'static str;
    fn order(le: &[u8]) -> Vec<u8>;
}
impl Bo for Little {
    const NAME: &'static str = "Little";
    fn order(le: &[u8]) -> Vec<u8> {
        le.to_vec()
    }
}
impl Bo for Big {
    const NAME: &'static str = "Big";
    fn order(le: &[u8]) -> Vec<u8> {
        le.iter().rev().copied().collect()
    }
}

trait Sz: Size + TryFrom<usize> + Eq + std::hash::Hash {
    const NAME: &'static str;
    const BYTES: usize;
    fn fits(n: usize) -> bool {
        Self::BYTES == 8 || n >> (8 * Self::BYTES) == 0
    }
    fn bytes<E: Bo>(n: usize) -> Vec<u8> {
        E::order(&(n as u64).to_le_bytes()[..Self::BYTES])
    }
}
macro_rules! sz {
    ($($t:ident $n:expr;)*) => {$(
        impl Sz for $t {
            const NAME: &'static str = stringify!($t);
            const BYTES: usize = $n;
        }
    )*};
}
sz! { u8 1; u16 2; u32 4; u64 8; usize 8; }

/// Call a function for all byte orders and sizes.
macro_rules! all {
    ($f:ident($($a:expr),*)) => {{
        all!(@ Little $f($($a),*));
        all!(@ Big $f($($a),*));
    }};
    (@ $e:ident $f:ident($($a:expr),*)) => {{
        $f::<$e, u8>($($a),*);
        $f::<$e, u16>($($a),*);
        $f::<$e, u32>($($a),*);
        $f::<$e, u64>($($a),*);
        $f::<$e, usize>($($a),*);
    }};
}

/// Call a function for a byte order and all pairs of sizes.
macro_rules! pairs {
    ($f:ident($($a:expr),*)) => {{
        pairs!(@ Little $f($($a),*));
        pairs!(@ Big $f($($a),*));
    }};
    (@ $e:ident $f:ident($($a:expr),*)) => {{
        pairs!(@ $e u8 $f($($a),*));
        pairs!(@ $e u16 $f($($a),*));
        pairs!(@ $e u32 $f($($a),*));
        pairs!(@ $e u64 $f($($a),*));
        pairs!(@ $e usize $f($($a),*));
    }};
    (@ $e:ident $o:ident $f:ident($($a:expr),*)) => {{
        $f::<$e, $o, u8>($($a),*);
        $f::<$e, $o, u16>($($a),*);
        $f::<$e, $o, u32>($($a),*);
        $f::<$e, $o, u64>($($a),*);
        $f::<$e, $o, usize>($($a),*);
    }};
}

fn raw<T: ZeroCopy>(mut v: T) -> Vec<u8> {
    v.to_bytes().to_vec()
}

// ---------------------------------------------------------------------------
// Values

/// A value which can change its byte order.
trait Num: ZeroCopy + Copy + PartialEq + Debug + 'static {
    const NAME: &'static str;
    /// Sizes of the consecutive numbers it is made of.
    const PARTS: &'static [usize];
    /// Make it from the bytes in native order.
    fn of(le: &[u8]) -> Self;
    /// The same bits, for floats.
    fn same(self, other: Self) -> bool {
        raw(self) == raw(other)
    }
}

macro_rules! num {
    ($($t:ty),*) => {$(
        impl Num for $t {
            const NAME: &'static str = stringify!($t);
            const PARTS: &'static [usize] = &[std::mem::size_of::<$t>()];
            fn of(le: &[u8]) -> Self {
                <$t>::from_le_bytes(le.try_into().unwrap())
            }
        }
    )*};
}
num!(u8, i8, u16, i16, u32, i32, u64, i64, u128, i128, usize, isize, f32, f64);

impl Num for Wrapping<u32> {
    const NAME: &'static str = "Wrapping<u32>";
    const PARTS: &'static [usize] = &[4];
    fn of(le: &[u8]) -> Self {
        Wrapping(u32::of(le))
    }
}

impl Num for [u16; 3] {
    const NAME: &'static str = "[u16; 3]";
    const PARTS: &'static [usize] = &[2, 2, 2];
    fn of(le: &[u8]) -> Self {
        [u16::of(&le[..2]), u16::of(&le[2..4]), u16::of(&le[4..])]
    }
}

impl Num for [[u8; 2]; 2] {
    const NAME: &'static str = "[[u8; 2]; 2]";
    const PARTS: &'static [usize] = &[1, 1, 1, 1];
    fn of(le: &[u8]) -> Self {
        [[le[0], le[1]], [le[2], le[3]]]
    }
}

#[derive(ZeroCopy, Clone, Copy, PartialEq, Debug)]
#[repr(C)]
struct Fields {
    a: u32,
    b: u16,
    c: [u8; 2],
    d: i64,
}

impl Num for Fields {
    const NAME: &'static str = "Fields";
    const PARTS: &'static [usize] = &[4, 2, 1, 1, 8];
    fn of(le: &[u8]) -> Self {
        Self {
            a: u32::of(&le[..4]),
            b: u16::of(&le[4..6]),
            c: [le[6], le[7]],
            d: i64::of(&le[8..]),
        }
    }
}

#[derive(ZeroCopy, Clone, Copy, PartialEq, Debug)]
#[repr(C, packed)]
struct Tight(u8, u32, u16);

impl Num for Tight {
    const NAME: &'static str = "Tight";
    const PARTS: &'static [usize] = &[1, 4, 2];
    fn of(le: &[u8]) -> Self {
        Self(le[0], u32::of(&le[1..5]), u16::of(&le[5..]))
    }
}

#[derive(ZeroCopy, Clone, Copy, PartialEq, Debug)]
#[repr(transparent)]
struct Thin {
    a: u64,
}

impl Num for Thin {
    const NAME: &'static str = "Thin";
    const PARTS: &'static [usize] = &[8];
    fn of(le: &[u8]) -> Self {
        Self { a: u64::of(le) }
    }
}

#[derive(ZeroCopy, Clone, Copy, PartialEq, Debug)]
#[repr(C)]
struct Nested {
    a: [Thin; 2],
    b: f64,
    c: Fields,
}

impl Num for Nested {
    const NAME: &'static str = "Nested";
    const PARTS: &'static [usize] = &[8, 8, 8, 4, 2, 1, 1, 8];
    fn of(le: &[u8]) -> Self {
        Self {
            a: [Thin::of(&le[..8]), Thin::of(&le[8..16])],
            b: f64::of(&le[16..24]),
            c: Fields::of(&le[24..]),
        }
    }
}

fn expected<E: Bo, T: Num>(le: &[u8]) -> Vec<u8> {
    let mut out = Vec::new();
    let mut at = 0;
    for &n in T::PARTS {
        out.extend(E::order(&le[at..at + n]));
        at += n;
    }
    out
}

/// Whether an integer can stand in the way of a byte order being seen.
fn value<E: Bo, T: Num>(le: &[u8]) -> Check_ {
    let v = T::of(le);
    let want = expected::<E, T>(le);
    let swapped: Vec<u8> = expected::<Big, T>(le);

    let e = Endian::<T, E>::new(v);
    ensure!(e.to_ne().same(v), "{v:?} became {:?}", e.to_ne());
    ensure!(
        raw(e) == want,
        "{v:?} is {} instead of {}",
        hex(&raw(e)),
        hex(&want)
    );
    ensure!(
        raw(e.to_raw()) == want,
        "to_raw of {v:?} is {}",
        hex(&raw(e.to_raw()))
    );

    // Through a buffer, aligned or not.
    let mut buf = OwnedBuf::with_capacity_and_alignment::<u128>(64);
    buf.extend_from_slice(&[0xff]);
    let r = buf.store(&e);
    let at = r.offset();
    ensure!(
        buf.as_slice()[at..].eq(&want[..]),
        "{v:?} is stored as {}",
        hex(&buf[at..])
    );
    buf.align_in_place();
    let back = buf.load(r).map_err(|e| e.to_string())?;
    ensure!(
        back.to_ne().same(v),
        "{v:?} was loaded as {:?}",
        back.to_ne()
    );

    // The trait methods.
    let s = v.swap_bytes::<E>();
    ensure!(raw(s) == want, "swap_bytes of {v:?} is {}", hex(&raw(s)));
    ensure!(
        s.swap_bytes::<E>().same(v),
        "swapping {v:?} twice is {:?}",
        s.swap_bytes::<E>()
    );
    ensure!(
        raw(v.swap_bytes::<Native>()) == raw(v),
        "swapping {v:?} to native changes it"
    );

    // from_* read bytes of that order.
    let f = endian::from_endian::<T, E>(T::of_raw(&want));
    ensure!(f.same(v), "from_endian of {} is {f:?}", hex(&want));
    let f = endian::from_be(T::of_raw(&swapped));
    ensure!(f.same(v), "from_be of {} is {f:?}", hex(&swapped));
    let f = endian::from_le(T::of_raw(le));
    ensure!(f.same(v), "from_le of {} is {f:?}", hex(le));

    // Once more around.
    let ee = Endian::<Endian<T, E>, Big>::new(e);
    ensure!(
        raw(ee) == want,
        "an order within an order changes {v:?} to {}",
        hex(&raw(ee))
    );
    Ok(())
}

trait OfRaw: Num {
    fn of_raw(b: &[u8]) -> Self;
}
impl<T: Num> OfRaw for T {
    fn of_raw(b: &[u8]) -> Self {
        // The native order of this machine.
        assert!(cfg!(target_endian = "little"));
        Self::of(b)
    }
}

fn values<T: Num>(fam: &mut Fam) {
    let n: usize = T::PARTS.iter().sum();
    let mut all = Vec::new();
    if n <= 2 {
        for v in 0..1u32 << (8 * n) {
            all.push(v.to_le_bytes()[..n].to_vec());
        }
    } else {
        let mut push = |b: Vec<u8>| {
            if !all.contains(&b) {
                all.push(b)
            }
        };
        push((1..=n as u8).collect());
        push((0..n as u8).map(|i| 0xf0 - i).collect());
        for fill in [0x00u8, 0xff, 0x80] {
            for i in 0..n {
                for v in [0x00, 0x01, 0x7f, 0x80, 0xff] {
                    let mut b = vec![fill; n];
                    b[i] = v;
                    push(b);
                }
            }
        }
        // Every single bit.
        for i in 0..8 * n {
            let mut b = vec![0; n];
            b[i / 8] = 1 << (i % 8);
            push(b);
        }
        // Every pair of boundary bytes at neighbouring positions.
        if fam.thorough() {
            for i in 1..n {
                for x in [0x00, 0x01, 0x7f, 0x80, 0xff] {
                    for y in [0x00, 0x01, 0x7f, 0x80, 0xff] {
                        for fill in [0x00u8, 0xff, 0x55] {
                            let mut b = vec![fill; n];
                            b[i - 1] = x;
                            b[i] = y;
                            push(b);
                        }
                    }
                }
            }
        }
    }
    for le in all {
        fam.case(
            || format!("{} from {}", T::NAME, hex(&le)),
            || {
                value::<Little, T>(&le)?;
                value::<Big, T>(&le)?;
                Ok(Fp::new().str(T::NAME).bytes(&le).done())
            },
        );
    }
}

// ---------------------------------------------------------------------------
// References

fn numbers(all: bool) -> Vec<usize> {
    let mut v = vec![
        0,
        1,
        2,
        3,
        0x12,
        0x1234,
        0x123456,
        0x12345678,
        0x1234_5678_9abc_def0,
    ];
    for bits in [7, 8, 15, 16, 31, 32, 63] {
        let n = 1usize << bits;
        v.extend([n - 1, n, n + 1, n + 2]);
    }
    if all {
        // Every single bit, every byte, and the numbers below and above them.
        for bits in 0..64 {
            let n = 1usize << bits;
            v.extend([n - 1, n, n + 1]);
        }
        for byte in 0..8 {
            v.extend([0x7f, 0x81, 0xfe, 0xff].map(|n: usize| n << (8 * byte)));
        }
    }
    v.extend([usize::MAX - 1, usize::MAX]);
    v.sort();
    v.dedup();
    v
}

trait Kind: musli_zerocopy::pointer::Pointee {
    const NAME: &'static str;
    const SIZED: bool;
    fn metadata(n: usize) -> Self::Metadata;
    fn len<E: Bo, O: Sz>(r: Ref<Self, E, O>) -> (usize, bool);
}
impl Kind for u32 {
    const NAME: &'static str = "u32";
    const SIZED: bool = true;
    fn metadata(_: usize) {}
    fn len<E: Bo, O: Sz>(_: Ref<Self, E, O>) -> (usize, bool) {
        (0, true)
    }
}
impl Kind for [u32] {
    const NAME: &'static str = "[u32]";
    const SIZED: bool = false;
    fn metadata(n: usize) -> usize {
        n
    }
    fn len<E: Bo, O: Sz>(r: Ref<Self, E, O>) -> (usize, bool) {
        (r.len(), r.is_empty())
    }
}
impl Kind for str {
    const NAME: &'static str = "str";
    const SIZED: bool = false;
    fn metadata(n: usize) -> usize {
        n
    }
    fn len<E: Bo, O: Sz>(r: Ref<Self, E, O>) -> (usize, bool) {
        (r.len(), r.is_empty())
    }
}

/// Check what a reference says about itself.
fn says<K: Kind + ?Sized, E: Bo, O: Sz>(r: Ref<K, E, O>, offset: usize, len: usize) -> Check_ {
    let mut want = O::bytes::<E>(offset);
    if !K::SIZED {
        want.extend(O::bytes::<E>(len));
    }
    ensure!(
        r.offset() == offset,
        "the offset {offset} became {}",
        r.offset()
    );
    if !K::SIZED {
        let (l, e) = K::len(r);
        ensure!(
            l == len && e == (len == 0),
            "the length {len} became {l} (empty {e})"
        );
    }
    ensure!(
        raw(r) == want,
        "offset {offset} and length {len} are {} in memory instead of {}",
        hex(&raw(r)),
        hex(&want)
    );
    Ok(())
}

fn reference<K: Kind + ?Sized, E: Bo, O: Sz>(offset: usize, len: usize) -> Check_ {
    let fits = O::fits(offset) && (K::SIZED || O::fits(len));
    let r = Ref::<K, E, O>::try_with_metadata(offset, K::metadata(len));
    let made = no_panic(|| Ref::<K, E, O>::with_metadata(offset, K::metadata(len)));
    ensure!(
        r.is_ok() == fits && made.is_ok() == fits,
        "fits is {fits}, but try_with_metadata is ok: {}, with_metadata: {}",
        r.is_ok(),
        made.is_ok()
    );
    let (Ok(r), Ok(made)) = (r, made) else {
        return Ok(());
    };
    says(r, offset, len)?;
    says(made, offset, len)?;
    says(r.to_be(), offset, len)?;
    says(r.to_le(), offset, len)?;
    says(r.to_ne(), offset, len)?;
    says(r.to_endian::<E>(), offset, len)?;
    says(r.to_be().to_le().to_endian::<E>(), offset, len)?;
    // A reference has its order already: it does not change in another one.
    let e = Endian::<_, Big>::new(r);
    ensure!(
        raw(e) == raw(r),
        "a reference in a big endian value is {}",
        hex(&raw(e))
    );
    let s = r.swap_bytes::<Big>();
    ensure!(raw(s) == raw(r), "a swapped reference is {}", hex(&raw(s)));
    Ok(())
}

fn refs<E: Bo, O: Sz>(fam: &mut Fam) {
    for offset in numbers(fam.thorough()) {
        for len in numbers(fam.thorough()) {
            fam.case(
                || format!("{} {} offset {offset:#x} length {len:#x}", E::NAME, O::NAME),
                || {
                    reference::<u32, E, O>(offset, len)?;
                    reference::<[u32], E, O>(offset, len)?;
                    reference::<str, E, O>(offset, len)?;
                    let new = no_panic(|| Ref::<u64, E, O>::new(offset));
                    ensure!(new.is_ok() == O::fits(offset), "new is ok: {}", new.is_ok());
                    if let Ok(r) = new {
                        ensure!(r.offset() == offset, "new has the offset {}", r.offset());
                        ensure!(raw(r) == O::bytes::<E>(offset), "new is {}", hex(&raw(r)));
                    }
                    ensure!(
                        O::try_from_usize(offset).is_some() == O::fits(offset),
                        "try_from_usize({offset})"
                    );
                    if let Some(o) = O::try_from_usize(offset) {
                        ensure!(
                            raw(o) == O::bytes::<Native>(offset),
                            "try_from_usize({offset})"
                        );
                        let s = o.swap_bytes::<E>();
                        ensure!(
                            s.as_usize::<E>() == offset,
                            "as_usize is {}",
                            s.as_usize::<E>()
                        );
                        ensure!(s.is_zero() == (offset == 0), "is_zero");
                    }
                    let z = Ref::<u32, E, O>::zero();
                    ensure!(z.offset() == 0, "zero has the offset {}", z.offset());
                    Ok(Fp::new()
                        .str(E::NAME)
                        .str(O::NAME)
                        .u64(offset as u64)
                        .u64(len as u64)
                        .done())
                },
            );
        }
    }
}

fn packs<E: Bo, O: Sz, L: Sz>(fam: &mut Fam) {
    type P<E, O, L> = Packed<[u16], O, L, E>;
    for offset in numbers(fam.thorough()) {
        for len in numbers(fam.thorough()) {
            fam.case(
                || {
                    format!(
                        "{} {}/{} offset {offset:#x} length {len:#x}",
                        E::NAME,
                        O::NAME,
                        L::NAME
                    )
                },
                || {
                    let fits = O::fits(offset) && L::fits(len);
                    let wide = Ref::<[u16], E, usize>::try_with_metadata(offset, len)
                        .map_err(|e| e.to_string())?;
                    let other = Ref::<[u16], Big, u64>::with_metadata(offset, len);
                    let all: [(&str, Option<P<E, O, L>>); 9] = [
                        (
                            "from_raw_parts",
                            no_panic(|| P::from_raw_parts(offset, len)).ok(),
                        ),
                        (
                            "try_from_raw_parts",
                            P::try_from_raw_parts(offset, len).ok(),
                        ),
                        ("from_ref", no_panic(|| P::from_ref(wide)).ok()),
                        (
                            "from_ref of another order",
                            no_panic(|| P::from_ref(other)).ok(),
                        ),
                        (
                            "Slice::from_ref",
                            no_panic(|| <P<E, O, L> as Slice>::from_ref(wide)).ok(),
                        ),
                        ("Slice::try_from_ref", P::try_from_ref(wide).ok()),
                        (
                            "Slice::try_from_ref of another order",
                            P::try_from_ref(other).ok(),
                        ),
                        (
                            "with_metadata",
                            no_panic(|| P::with_metadata(offset, len)).ok(),
                        ),
                        ("try_with_metadata", P::try_with_metadata(offset, len).ok()),
                    ];
                    for (what, p) in all {
                        ensure!(p.is_some() == fits, "{what} is ok: {}", p.is_some());
                        let Some(p) = p else { continue };
                        let (o, l, e) = (p.offset(), p.len(), p.is_empty());
                        ensure!(
                            (o, l, e) == (offset, len, len == 0),
                            "{what}: offset {o:#x}, length {l:#x}, empty {e}"
                        );
                        let want = [O::bytes::<E>(offset), L::bytes::<E>(len)].concat();
                        ensure!(raw(p) == want, "{what}: {} in memory", hex(&raw(p)));
                        let (o, l) = (Slice::offset(p), Slice::len(p));
                        ensure!(
                            (o, l) == (offset, len),
                            "{what}: Slice offset {o:#x} length {l:#x}"
                        );
                    }
                    // The same for references through the trait.
                    let fits = O::fits(offset) && O::fits(len);
                    let all: [(&str, Option<Ref<[u16], E, O>>); 5] = [
                        ("Ref from_ref", no_panic(|| Slice::from_ref(wide)).ok()),
                        (
                            "Ref from_ref of another",
                            no_panic(|| Slice::from_ref(other)).ok(),
                        ),
                        ("Ref try_from_ref", Slice::try_from_ref(wide).ok()),
                        (
                            "Ref try_from_ref of another",
                            Slice::try_from_ref(other).ok(),
                        ),
                        (
                            "Ref try_with_metadata",
                            Slice::try_with_metadata(offset, len).ok(),
                        ),
                    ];
                    for (what, r) in all {
                        ensure!(r.is_some() == fits, "{what} is ok: {}", r.is_some());
                        let Some(r) = r else { continue };
                        ensure!(
                            r.offset() == offset && r.len() == len,
                            "{what}: offset {:#x}, length {:#x}",
                            r.offset(),
                            r.len()
                        );
                        let want = [O::bytes::<E>(offset), O::bytes::<E>(len)].concat();
                        ensure!(raw(r) == want, "{what}: {} in memory", hex(&raw(r)));
                    }
                    Ok(Fp::new()
                        .str(E::NAME)
                        .str(O::NAME)
                        .str(L::NAME)
                        .u64(offset as u64)
                        .u64(len as u64)
                        .done())
                },
            );
        }
    }
}

// ---------------------------------------------------------------------------
// Slices

trait Item: ZeroCopy + Copy + PartialEq + Debug + 'static {
    const NAME: &'static str;
    fn nth(n: usize) -> Self;
}
impl Item for u8 {
    const NAME: &'static str = "u8";
    fn nth(n: usize) -> Self {
        n as u8 + 0x41
    }
}
impl Item for u16 {
    const NAME: &'static str = "u16";
    fn nth(n: usize) -> Self {
        n as u16 * 0x101 + 1
    }
}
impl Item for u128 {
    const NAME: &'static str = "u128";
    fn nth(n: usize) -> Self {
        (n as u128) << 100 | 3
    }
}
impl Item for () {
    const NAME: &'static str = "()";
    fn nth(_: usize) -> Self {}
}
impl Item for [u8; 3] {
    const NAME: &'static str = "[u8; 3]";
    fn nth(n: usize) -> Self {
        [n as u8; 3]
    }
}
impl Item for Fields {
    const NAME: &'static str = "Fields";
    fn nth(n: usize) -> Self {
        Fields {
            a: n as u32,
            b: 7,
            c: [n as u8, 1],
            d: -(n as i64),
        }
    }
}

/// The reference refers to these elements, at this offset.
fn refers<T: Item, E: Bo, O: Sz>(
    what: &str,
    buf: &Buf,
    r: Ref<[T], E, O>,
    at: usize,
    want: &[T],
) -> Check_ {
    let got = buf.load(r).map_err(|e| format!("{what}: {e}"))?;
    ensure!(
        got == want && r.len() == want.len() && r.is_empty() == want.is_empty() && r.offset() == at,
        "{what}: {got:?} at {} with the length {} instead of {want:?} at {at}",
        r.offset(),
        r.len()
    );
    Ok(())
}

fn slice_ops<S, T: Item>(what: &str, buf: &Buf, s: S, at: usize, want: &[T]) -> Check_
where
    S: Slice<Item = T>,
{
    let size = std::mem::size_of::<T>();
    let n = want.len();
    ensure!(
        s.len() == n && s.is_empty() == (n == 0) && s.offset() == at,
        "{what}: len, is_empty, offset"
    );
    let all = buf.load(s).map_err(|e| format!("{what}: load: {e}"))?;
    ensure!(all == want, "{what}: loads {all:?} instead of {want:?}");
    for i in 0..n + 2 {
        let r = s.get(i);
        ensure!(
            r.is_some() == (i < n),
            "{what}: get({i}) is some: {}",
            r.is_some()
        );
        if let Some(r) = r {
            let got = buf.load(r).map_err(|e| format!("{what}: get({i}): {e}"))?;
            ensure!(*got == want[i], "{what}: get({i}) is {got:?}");
            let got = buf
                .load(s.get_unchecked(i))
                .map_err(|e| format!("{what}: get_unchecked({i}): {e}"))?;
            ensure!(*got == want[i], "{what}: get_unchecked({i}) is {got:?}");
        }
        let split = no_panic(|| s.split_at(i));
        ensure!(
            split.is_ok() == (i <= n),
            "{what}: split_at({i}) is ok: {}",
            split.is_ok()
        );
        if let Ok((a, b)) = split {
            ensure!(
                a.offset() == at && a.len() == i && b.offset() == at + i * size && b.len() == n - i,
                "{what}: split_at({i}) gives {}+{} and {}+{}",
                a.offset(),
                a.len(),
                b.offset(),
                b.len()
            );
            let (x, y) = want.split_at(i);
            let got = buf
                .load(a)
                .map_err(|e| format!("{what}: split_at({i}).0: {e}"))?;
            ensure!(got == x, "{what}: split_at({i}).0 is {got:?}");
            let got = buf
                .load(b)
                .map_err(|e| format!("{what}: split_at({i}).1: {e}"))?;
            ensure!(got == y, "{what}: split_at({i}).1 is {got:?}");
        }
    }
    Ok(())
}

fn slices<T: Item, E: Bo, O: Sz>(fam: &mut Fam) {
    let most = fam.bound(5, 11);
    for n in 0..=most {
        for before in [0usize, 1, 3, 40] {
            fam.case(
                || format!("{} {} [{}; {n}] after {before} bytes", E::NAME, O::NAME, T::NAME),
                || {
                    let want: Vec<T> = (0..n).map(T::nth).collect();
                    let mut buf = OwnedBuf::new().with_byte_order::<E>().with_size::<O>();
                    buf.extend_from_slice(&vec![0x7f; before]);
                    let r: Ref<[T], E, O> = buf.store_slice(&want);
                    buf.extend_from_slice(&[0x7f; 16]);
                    buf.align_in_place();
                    let at = r.offset();
                    refers("stored", &buf, r, at, &want)?;
                    slice_ops("Ref", &buf, r, at, &want)?;
                    slice_ops("Packed", &buf, Packed::<[T], O, O, E>::from_ref(r), at, &want)?;
                    slice_ops("Packed u8", &buf, Packed::<[T], u32, u8, Big>::from_ref(r), at, &want)?;

                    // The methods of the reference itself.
                    for i in 0..n + 2 {
                        let got = r.get(i);
                        ensure!(got.is_some() == (i < n), "Ref::get({i})");
                        if let Some(e) = got {
                            ensure!(e.offset() == at + i * std::mem::size_of::<T>(), "Ref::get({i})");
                        }
                    }
                    for i in 0..=n {
                        let (a, b) = r.split_at(i);
                        let mid = at + i * std::mem::size_of::<T>();
                        refers("split_at.0", &buf, a, at, &want[..i])?;
                        refers("split_at.1", &buf, b, mid, &want[i..])?;
                        // Splitting once more.
                        for j in 0..=n - i {
                            let (c, d) = b.split_at(j);
                            refers("split twice.0", &buf, c, mid, &want[i..i + j])?;
                            let end = mid + j * std::mem::size_of::<T>();
                            refers("split twice.1", &buf, d, end, &want[i + j..])?;
                        }
                    }
                    refers("to_endian", &buf, r.to_endian::<Big>(), at, &want)?;
                    refers("to_endian", &buf, r.to_endian::<Little>(), at, &want)?;

                    // All ways to take elements from both ends.
                    let mut steps = 0u64;
                    for pattern in 0..1u32 << (n + 1) {
                        let mut it = r.iter();
                        let mut left = want.iter();
                        for step in 0..=n {
                            let back = pattern >> step & 1 == 1;
                            let (got, want) = match back {
                                true => (it.next_back(), left.next_back()),
                                false => (it.next(), left.next()),
                            };
                            let got = match got {
                                None => None,
                                Some(r) => Some(buf.load(r).map_err(|e| format!("iter: {e}"))?),
                            };
                            steps += 1;
                            ensure!(
                                got == want,
                                "step {step} of the iteration {pattern:b} gives {got:?} instead of {want:?}"
                            );
                        }
                    }
                    Ok(Fp::new().str(E::NAME).str(O::NAME).str(T::NAME).u64(steps).bytes(buf.as_slice()).done())
                },
            );
        }
    }
}

fn arrays<E: Bo, O: Sz>(fam: &mut Fam) {
    fn one<T: Item, E: Bo, O: Sz, const N: usize>(fam: &mut Fam) {
        for before in [0usize, 5] {
            fam.case(
                || {
                    format!(
                        "{} {} [{}; {N}] after {before} bytes",
                        E::NAME,
                        O::NAME,
                        T::NAME
                    )
                },
                || {
                    let want: [T; N] = std::array::from_fn(T::nth);
                    let mut buf = OwnedBuf::new().with_byte_order::<E>().with_size::<O>();
                    buf.extend_from_slice(&vec![0x7f; before]);
                    let r: Ref<[T; N], E, O> = buf.store(&want);
                    let u: Ref<MaybeUninit<[T; N]>, E, O> = buf.store_uninit();
                    buf.load_uninit_mut(u).write(&want);
                    buf.align_in_place();
                    let got = buf.load(r).map_err(|e| e.to_string())?;
                    ensure!(*got == want, "the array is {got:?}");
                    refers(
                        "array_into_slice",
                        &buf,
                        r.array_into_slice(),
                        r.offset(),
                        &want,
                    )?;
                    let i = u.assume_init();
                    ensure!(
                        i.offset() == u.offset(),
                        "assume_init moves it to {}",
                        i.offset()
                    );
                    let got = buf.load(i).map_err(|e| e.to_string())?;
                    ensure!(*got == want, "the array written later is {got:?}");
                    refers(
                        "array_into_slice",
                        &buf,
                        i.array_into_slice(),
                        i.offset(),
                        &want,
                    )?;
                    Ok(fp(buf.as_slice()) ^ O::BYTES as u64)
                },
            );
        }
    }
    one::<u8, E, O, 0>(fam);
    one::<u8, E, O, 1>(fam);
    one::<u16, E, O, 3>(fam);
    one::<u128, E, O, 2>(fam);
    one::<(), E, O, 4>(fam);
    one::<Fields, E, O, 2>(fam);
    one::<[u8; 3], E, O, 5>(fam);
}

// ---------------------------------------------------------------------------
// Searching

fn searches<E: Bo, O: Sz>(fam: &mut Fam) {
    let (most, top) = (fam.bound(4, 7), 4);
    {
        rng::sequences(top, most, |seq| {
            if seq.windows(2).any(|w| w[0] > w[1]) {
                return;
            }
            fam.case(
                || format!("{} {} {seq:?}", E::NAME, O::NAME),
                || {
                    let want: Vec<u16> = seq.iter().map(|&n| n as u16 * 2 + 1).collect();
                    let mut buf = OwnedBuf::new().with_byte_order::<E>().with_size::<O>();
                    buf.extend_from_slice(&[0; 3]);
                    let r = buf.store_slice(&want);
                    buf.align_in_place();
                    let p = Packed::<[u16], O, u8, E>::from_ref(r);
                    for x in 0..=2 * top as u16 {
                        let got = [
                            slice::binary_search(&buf, r, &x),
                            slice::binary_search(&buf, p, &x),
                            slice::binary_search_by(&buf, r, |v| Ok(v.cmp(&x))),
                            slice::binary_search_by(&buf, p, |v| Ok(v.cmp(&x))),
                        ];
                        for (i, got) in got.into_iter().enumerate() {
                            let got = got.map_err(|e| e.to_string())?;
                            let fine = match got {
                                BinarySearch::Found(at) => want.get(at) == Some(&x),
                                BinarySearch::Missing(at) => {
                                    !want.contains(&x)
                                        && at == want.iter().filter(|&&v| v < x).count()
                                }
                            };
                            ensure!(fine, "searching {x} in {want:?} (way {i}) gives {got:?}");
                        }
                        // By a predicate: the first element which is not less.
                        let got = slice::binary_search_by(&buf, r, |v| {
                            Ok(if *v < x {
                                Ordering::Less
                            } else {
                                Ordering::Greater
                            })
                        })
                        .map_err(|e| e.to_string())?;
                        let point = want.partition_point(|&v| v < x);
                        ensure!(
                            got == BinarySearch::Missing(point),
                            "partition of {want:?} at {x}: {got:?}"
                        );
                    }
                    Ok(Fp::new()
                        .str(E::NAME)
                        .str(O::NAME)
                        .bytes(buf.as_slice())
                        .done())
                },
            );
        });
    }
}

// ---------------------------------------------------------------------------
// Coercions

/// Coercing `T` to `U`, of the same size.
fn same<T, U, E: Bo, O: Sz>(fam: &mut Fam, names: (&str, &str))
where
    T: Num + Coerce<U, Metadata = (), Stored<O> = ()>,
    U: ZeroCopy + 'static,
{
    fam.case(
        || format!("{} {} {} to {}", E::NAME, O::NAME, names.0, names.1),
        || {
            let n = std::mem::size_of::<T>();
            ensure!(
                std::mem::size_of::<U>() == n,
                "{} and {n} bytes",
                std::mem::size_of::<U>()
            );
            let mut buf = OwnedBuf::new().with_byte_order::<E>().with_size::<O>();
            buf.extend_from_slice(&[0; 3]);
            let v = T::of(&(1..=n as u8).collect::<Vec<_>>());
            let r = buf.store(&v);
            buf.align_in_place();
            for c in [
                r.coerce::<U>(),
                r.try_coerce::<U>().ok_or("try_coerce is none")?,
            ] {
                ensure!(
                    c.offset() == r.offset(),
                    "the offset {} became {}",
                    r.offset(),
                    c.offset()
                );
                buf.load(c).map_err(|e| e.to_string())?;
            }
            Ok(Fp::new()
                .str(E::NAME)
                .str(O::NAME)
                .str(names.0)
                .str(names.1)
                .done())
        },
    );
}

/// Coercing `[T]`, `T` and `[T; N]` to `[U]`, which are `FACTOR` times as many.
fn slices_to<T, U, E: Bo, O: Sz>(fam: &mut Fam, names: (&str, &str))
where
    T: Num + Coerce<[U], Metadata = (), Stored<O> = ()>,
    U: ZeroCopy + 'static,
    [T]: Coerce<[U], Metadata = usize, Stored<O> = O>,
    [T; 0]: Coerce<[U], Metadata = (), Stored<O> = ()>,
    [T; 1]: Coerce<[U], Metadata = (), Stored<O> = ()>,
    [T; 3]: Coerce<[U], Metadata = (), Stored<O> = ()>,
    [T; 300]: Coerce<[U], Metadata = (), Stored<O> = ()>,
{
    let size = std::mem::size_of::<T>();
    let factor = size / std::mem::size_of::<U>();
    let name = || format!("{} {} {} to {}", E::NAME, O::NAME, names.0, names.1);
    let key = || {
        Fp::new()
            .str(E::NAME)
            .str(O::NAME)
            .str(names.0)
            .str(names.1)
    };
    // Loading what is coerced.
    fam.case(
        || format!("{} loaded", name()),
        || {
            let mut buf = OwnedBuf::new().with_byte_order::<E>().with_size::<O>();
            buf.extend_from_slice(&[0; 3]);
            let bytes: Vec<u8> = (0..3 * size as u8).collect();
            let all: [T; 3] = std::array::from_fn(|i| T::of(&bytes[i * size..(i + 1) * size]));
            let one = buf.store(&all[0]);
            let arr = buf.store(&all);
            let many = buf.store_slice(&all);
            let none = buf.store(&[] as &[T; 0]);
            buf.align_in_place();
            let check = |what: &str, r: Ref<[U], E, O>, at: usize, n: usize| -> Check_ {
                let got = buf.load(r).map_err(|e| format!("{what}: {e}"))?;
                ensure!(
                    got.len() == n * factor,
                    "{what}: {} elements instead of {n} * {factor}",
                    got.len()
                );
                ensure!(
                    r.offset() == at,
                    "{what}: offset {} instead of {at}",
                    r.offset()
                );
                // Safety: these are numbers.
                let p = unsafe { std::slice::from_raw_parts(got.as_ptr().cast::<u8>(), n * size) };
                ensure!(
                    p == &bytes[..n * size],
                    "{what}: {} instead of {}",
                    hex(p),
                    hex(&bytes)
                );
                Ok(())
            };
            let no = || Failure::from("try_coerce is none".to_string());
            check("slice", many.coerce(), many.offset(), 3)?;
            check("slice", many.try_coerce().ok_or_else(no)?, many.offset(), 3)?;
            check("one", one.coerce(), one.offset(), 1)?;
            check("one", one.try_coerce().ok_or_else(no)?, one.offset(), 1)?;
            check("array", arr.coerce(), arr.offset(), 3)?;
            check("array", arr.try_coerce().ok_or_else(no)?, arr.offset(), 3)?;
            check("no array", none.coerce(), none.offset(), 0)?;
            check(
                "no array",
                none.try_coerce().ok_or_else(no)?,
                none.offset(),
                0,
            )?;
            Ok(key().done())
        },
    );
    // Lengths which might not fit.
    let mut lens = numbers(fam.thorough());
    for n in numbers(fam.thorough()) {
        let n = n / factor;
        lens.extend([n.saturating_sub(1), n, n.saturating_add(1)]);
    }
    lens.sort();
    lens.dedup();
    for len in lens {
        if !O::fits(len) {
            continue;
        }
        fam.case(
            || format!("{} length {len:#x}", name()),
            || {
                let r = Ref::<[T], E, O>::with_metadata(0x12usize, len);
                let want = len.checked_mul(factor).filter(|&n| O::fits(n));
                let got = r.try_coerce::<[U]>();
                ensure!(
                    got.map(|r| (r.offset(), r.len())) == want.map(|n| (0x12, n)),
                    "{:x?} instead of {want:x?}",
                    got.map(|r| (r.offset(), r.len()))
                );
                let wraps = len.wrapping_mul(factor) & (usize::MAX >> (64 - 8 * O::BYTES));
                let got = r.coerce::<[U]>();
                ensure!(
                    (got.offset(), got.len()) == (0x12, wraps),
                    "coerce gives {:#x} instead of {wraps:#x}",
                    got.len()
                );
                Ok(key().u64(len as u64).done())
            },
        );
    }
    // Arrays of more elements than fit.
    fam.case(
        || format!("{} array", name()),
        || {
            fn one<T, U, E: Bo, O: Sz, const N: usize>(factor: usize) -> Check_
            where
                T: Num,
                [T; N]: Coerce<[U], Metadata = (), Stored<O> = ()>,
                U: ZeroCopy + 'static,
            {
                let r = Ref::<[T; N], E, O>::new(0x34usize);
                let want = Some(N * factor).filter(|&n| O::fits(n));
                let got = r.try_coerce::<[U]>().map(|r| r.len());
                ensure!(
                    got == want,
                    "[{}; {N}]: {got:?} instead of {want:?}",
                    T::NAME
                );
                if let Some(want) = want {
                    ensure!(r.coerce::<[U]>().len() == want, "coerce");
                    ensure!(r.coerce::<[U]>().offset() == 0x34, "coerce");
                }
                Ok(())
            }
            one::<T, U, E, O, 0>(factor)?;
            one::<T, U, E, O, 1>(factor)?;
            one::<T, U, E, O, 3>(factor)?;
            one::<T, U, E, O, 300>(factor)?;
            Ok(key().u64(1 << 20).done())
        },
    );
}

fn coercions<E: Bo, O: Sz>(fam: &mut Fam) {
    macro_rules! to {
        (same $($from:ty),* => $to:tt) => { $( to!(@ same $from => $to); )* };
        (slices_to $($from:ty),* => $to:tt) => { $( to!(@ slices_to $from => $to); )* };
        (@ $f:ident $from:ty => [$($to:ty),*]) => {
            $( $f::<$from, $to, E, O>(fam, (stringify!($from), stringify!($to))); )*
        };
    }
    to!(same u8, i8 => [u8, i8]);
    to!(same u16, i16 => [u16, i16, [u8; 2], [i8; 2]]);
    to!(same u32, i32 => [u32, i32, [u16; 2], [i16; 2], [u8; 4], [i8; 4]]);
    to!(same u64, i64 => [u64, i64, [u32; 2], [i32; 2], [u16; 4], [i16; 4], [u8; 8], [i8; 8]]);
    to!(same u128, i128 => [u128, i128, [u64; 2], [i64; 2], [u32; 4], [i32; 4], [u16; 8], [i16; 8], [u8; 16], [i8; 16]]);
    to!(same Wrapping<u32> => [u32, [u8; 4], [u16; 2]]);

    to!(slices_to u8, i8 => [u8, i8]);
    to!(slices_to u16, i16 => [u8, i8, u16, i16, [u8; 2], [i8; 2]]);
    to!(slices_to u32, i32 => [u8, i8, u16, i16, [u8; 2], [i8; 2], u32, i32, [u16; 2], [i16; 2], [u8; 4], [i8; 4]]);
    to!(slices_to u64, i64 => [u8, i8, u16, i16, [u8; 2], [i8; 2], u32, i32, [u16; 2], [i16; 2], [u8; 4], [i8; 4],
        u64, i64, [u32; 2], [i32; 2], [u16; 4], [i16; 4], [u8; 8], [i8; 8]]);
    to!(slices_to u128, i128 => [u8, i8, u16, i16, [u8; 2], [i8; 2], u32, i32, [u16; 2], [i16; 2], [u8; 4], [i8; 4],
        u64, i64, [u32; 2], [i32; 2], [u16; 4], [i16; 4], [u8; 8], [i8; 8],
        u128, i128, [u64; 2], [i64; 2], [u32; 4], [i32; 4], [u16; 8], [i16; 8], [u8; 16], [i8; 16]]);

    // Strings.
    for n in 0..=fam.bound(40, 255) {
        fam.case(
            || format!("{} {} str of {n} bytes", E::NAME, O::NAME),
            || {
                let text: String = (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect();
                let mut buf = OwnedBuf::new().with_byte_order::<E>().with_size::<O>();
                let r = buf.store_unsized(&text[..]);
                refers::<u8, E, O>(
                    "str to bytes",
                    &buf,
                    r.coerce(),
                    r.offset(),
                    text.as_bytes(),
                )?;
                let b = r.try_coerce::<[u8]>().ok_or("none")?;
                refers::<u8, E, O>("str to bytes", &buf, b, r.offset(), text.as_bytes())?;
                for back in [b.coerce::<str>(), b.try_coerce::<str>().ok_or("none")?] {
                    let got = buf.load(back).map_err(|e| e.to_string())?;
                    ensure!(got == text, "bytes to str: {got:?}");
                }
                Ok(Fp::new().str(E::NAME).str(O::NAME).u64(n as u64).done())
            },
        );
    }
    // Wide characters coerced to a string are as long as their bytes.
    for len in numbers(fam.thorough()) {
        if !O::fits(len) {
            continue;
        }
        fam.case(
            || format!("{} {} [u32] of {len:#x} to str", E::NAME, O::NAME),
            || {
                let r = Ref::<[u32], E, O>::with_metadata(4usize, len);
                let want = len.checked_mul(4).filter(|&n| O::fits(n));
                let got = r.try_coerce::<str>().map(|r| r.len());
                ensure!(got == want, "{got:x?} instead of {want:x?}");
                Ok(Fp::new()
                    .str(E::NAME)
                    .str(O::NAME)
                    .u64(len as u64)
                    .str("str")
                    .done())
            },
        );
    }
}

// ---------------------------------------------------------------------------
// References within stored data

#[derive(ZeroCopy)]
#[repr(C)]
struct Holder<E: ByteOrder, O: Size> {
    one: Ref<u32, E, O>,
    text: Ref<str, E, O>,
    many: Ref<[u16], E, O>,
    next: Ref<[Ref<str, E, O>], E, O>,
    tight: Packed<[u16], O, u8, E>,
    number: Endian<u16, E>,
}

fn holders<E: Bo, O: Sz>(fam: &mut Fam) {
    fn fill<E: Bo, O: Sz, B: StoreBuf<ByteOrder = E, Size = O>>(
        buf: &mut B,
        n: usize,
    ) -> Result<Ref<Holder<E, O>, E, O>, Failure> {
        buf.fill(0x7f, n);
        let one = buf.store(&0x0102_0304u32);
        let text = buf.store_unsized("käse");
        let many = buf.store_unsized(&[1u16, 2, 3][..]);
        let a = buf.store_unsized("a");
        let b = buf.store_unsized("");
        let next = buf.store_unsized(&[a, b, text][..]);
        let tight = Packed::from_ref(many.split_at(1).1);
        let number = Endian::new(0x1234);
        Ok(buf.store(&Holder {
            one,
            text,
            many,
            next,
            tight,
            number,
        }))
    }
    fn judge<E: Bo, O: Sz>(buf: &Buf, r: Ref<Holder<E, O>, E, O>) -> Check_ {
        let e = |e: musli_zerocopy::Error| Failure::from(e.to_string());
        let h = buf.load(r).map_err(e)?;
        ensure!(*buf.load(h.one).map_err(e)? == 0x0102_0304, "one");
        ensure!(buf.load(h.text).map_err(e)? == "käse", "text");
        ensure!(buf.load(h.many).map_err(e)? == [1, 2, 3], "many");
        let texts = buf.load(h.next).map_err(e)?;
        let texts: Vec<&str> = texts.iter().map(|r| buf.load(*r).unwrap_or("?")).collect();
        ensure!(texts == ["a", "", "käse"], "next is {texts:?}");
        ensure!(buf.load(h.tight).map_err(e)? == [2, 3], "tight");
        ensure!(h.number.to_ne() == 0x1234, "number");
        // What is in memory.
        let at = r.offset();
        let mut want = Vec::new();
        want.extend(O::bytes::<E>(h.one.offset()));
        for (o, n) in [
            (h.text.offset(), 5),
            (h.many.offset(), 3),
            (h.next.offset(), 3),
        ] {
            want.extend(O::bytes::<E>(o));
            want.extend(O::bytes::<E>(n));
        }
        want.extend(O::bytes::<E>(h.many.offset() + 2));
        want.push(2);
        while want.len() % 2 != 0 {
            want.push(0);
        }
        want.extend(u16::bytes::<E>(0x1234));
        ensure!(
            buf[at..at + want.len()] == want[..],
            "{} is stored instead of {}",
            hex(&buf[at..at + want.len()]),
            hex(&want)
        );
        Ok(())
    }
    for n in 0..=fam.bound(40, 120) {
        fam.case(
            || format!("{} {} after {n} bytes", E::NAME, O::NAME),
            || {
                let mut buf = OwnedBuf::new().with_byte_order::<E>().with_size::<O>();
                let r = fill::<E, O, _>(&mut buf, n)?;
                buf.align_in_place();
                judge(&buf, r)?;
                let mut room = vec![0u128; 64];
                // Safety: these are numbers.
                let room: &mut [u8] =
                    unsafe { std::slice::from_raw_parts_mut(room.as_mut_ptr().cast(), 1024) };
                let mut other = SliceMut::new(room).with_byte_order::<E>().with_size::<O>();
                let r2 = fill::<E, O, _>(&mut other, n)?;
                ensure!(
                    r2.offset() == r.offset(),
                    "the offset in a SliceMut is {}",
                    r2.offset()
                );
                judge(&other, r2)?;
                ensure!(other.as_slice() == buf.as_slice(), "the buffers differ");
                Ok(Fp::new()
                    .str(E::NAME)
                    .str(O::NAME)
                    .bytes(buf.as_slice())
                    .done())
            },
        );
    }
    // Offsets are in range or rejected.
    let spans: Vec<usize> = match O::BYTES {
        1 => (250..=260).collect(),
        2 => (65530..=65540).collect(),
        _ => vec![250, 300, 65530, 65540, 70000],
    };
    for n in spans {
        fam.case(
            || format!("{} {} stores after {n} bytes", E::NAME, O::NAME),
            || {
                let mut buf = OwnedBuf::new().with_byte_order::<E>().with_size::<O>();
                buf.extend_from_slice(&vec![0x7f; n]);
                let r = no_panic(|| buf.store(&0x55u8));
                ensure!(r.is_ok() == O::fits(n), "store is ok: {}", r.is_ok());
                if let Ok(r) = r {
                    ensure!(r.offset() == n, "stored at {}", r.offset());
                    let got = *buf.load(r).map_err(|e| e.to_string())?;
                    ensure!(got == 0x55, "loaded {got}");
                }
                let mut buf = OwnedBuf::new().with_byte_order::<E>().with_size::<O>();
                let r = no_panic(|| buf.store_slice(&vec![1u8; n]));
                ensure!(r.is_ok() == O::fits(n), "store_slice is ok: {}", r.is_ok());
                if let Ok(r) = r {
                    let got = buf.load(r).map_err(|e| e.to_string())?;
                    ensure!(got.len() == n, "{} instead of {n} elements", got.len());
                }
                let mut buf = OwnedBuf::new().with_byte_order::<E>().with_size::<O>();
                let r = no_panic(|| buf.store_unsized(&"a".repeat(n)[..]));
                ensure!(
                    r.is_ok() == O::fits(n),
                    "store_unsized is ok: {}",
                    r.is_ok()
                );
                Ok(Fp::new().str(E::NAME).str(O::NAME).u64(n as u64).done())
            },
        );
    }
}

fn main() {
    let mut c = Check::new(
        "P22",
        Level::Exploration,
        "distinct (byte order, size, value) tuples",
    );
    c.assume("this machine is little endian, so Big is the foreign byte order");
    c.assume("coerce wraps lengths which do not fit, as documented");

    c.fam("values/small", |fam| {
        values::<u8>(fam);
        values::<i8>(fam);
    });
    c.fam_sharded("values/u16", 4, values::<u16>);
    c.fam_sharded("values/i16", 4, values::<i16>);
    c.fam_sharded("values/wide", 4, |fam| {
        values::<u32>(fam);
        values::<i32>(fam);
        values::<u64>(fam);
        values::<i64>(fam);
        values::<u128>(fam);
        values::<i128>(fam);
        values::<usize>(fam);
        values::<isize>(fam);
        values::<f32>(fam);
        values::<f64>(fam);
        values::<Wrapping<u32>>(fam);
    });
    c.fam_sharded("values/compound", 4, |fam| {
        values::<[u16; 3]>(fam);
        values::<[[u8; 2]; 2]>(fam);
        values::<Fields>(fam);
        values::<Tight>(fam);
        values::<Thin>(fam);
        values::<Nested>(fam);
    });
    c.fam_sharded("references", 8, |fam| all!(refs(fam)));
    c.fam_sharded("packed", 8, |fam| pairs!(packs(fam)));

    fn sl<T: Item>(c: &mut Check, name: &'static str) {
        fn one<T: Item>(fam: &mut Fam) {
            macro_rules! go { ($($o:ident)*) => {$( slices::<T, Little, $o>(fam); slices::<T, Big, $o>(fam); )*} }
            go!(u8 u16 u32 u64 usize);
        }
        c.fam_sharded(name, 4, one::<T>);
    }
    sl::<u8>(&mut c, "slices/u8");
    sl::<u16>(&mut c, "slices/u16");
    sl::<u128>(&mut c, "slices/u128");
    sl::<()>(&mut c, "slices/unit");
    sl::<[u8; 3]>(&mut c, "slices/array");
    sl::<Fields>(&mut c, "slices/struct");
    c.fam("arrays", |fam| all!(arrays(fam)));
    c.fam_sharded("searches", 8, |fam| all!(searches(fam)));
    c.fam_sharded("coercions", 8, |fam| all!(coercions(fam)));
    c.fam_sharded("holders", 8, |fam| all!(holders(fam)));
    c.run();
}
