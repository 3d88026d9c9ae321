//! P21: zero-copy loads accept exactly the valid, in-bounds, aligned bytes.
//!
//! The oracle knows where the compiler puts the fields of each type (from
//! `offset_of!` and from the addresses of the fields of real values) and which
//! bytes are valid for each of them. Every byte of valid images is replaced by
//! every value and loaded in every way.

use std::marker::PhantomData;
use std::mem::{align_of, size_of};
use std::num::*;

use kit::guard::GuardBuf;
use kit::*;
use musli_zerocopy::endian::{Big, Endian, Little, Native};
use musli_zerocopy::mem::MaybeUninit;
use musli_zerocopy::slice::Packed;
use musli_zerocopy::{Buf, OwnedBuf, Ref, SliceMut, ZeroCopy};

kit::global_allocator!();

type Check_ = Result<(), Failure>;

trait Ty: ZeroCopy + Copy + 'static {
    const NAME: &'static str;
    /// How many values `make` can make.
    const SEEDS: usize;
    fn make(seed: usize) -> Self;
    /// Whether these bytes are a value.
    fn valid(b: &[u8]) -> bool;
    /// Whether the value is the one these bytes hold.
    fn same(&self, b: &[u8]) -> bool;
    /// Write the bytes of the value, and leave the padding alone.
    fn put(&self, b: &mut [u8]);
}

fn part<T>(b: &[u8], at: usize) -> &[u8] {
    &b[at..at + size_of::<T>()]
}
fn part_mut<T>(b: &mut [u8], at: usize) -> &mut [u8] {
    &mut b[at..at + size_of::<T>()]
}

macro_rules! num {
    ($($t:ident),*) => {$(
        impl Ty for $t {
            const NAME: &'static str = stringify!($t);
            const SEEDS: usize = 3;
            fn make(seed: usize) -> Self {
                let mut b = [0u8; size_of::<$t>()];
                for (i, b) in b.iter_mut().enumerate() {
                    *b = match seed % 3 {
                        0 => i as u8 + 1,
                        1 => 0,
                        _ => 0xf0 - i as u8,
                    };
                }
                <$t>::from_ne_bytes(b)
            }
            fn valid(_: &[u8]) -> bool { true }
            fn same(&self, b: &[u8]) -> bool { self.to_ne_bytes() == b }
            fn put(&self, b: &mut [u8]) { b.copy_from_slice(&self.to_ne_bytes()) }
        }
    )*};
}
num!(u8, i8, u16, i16, u32, i32, u64, i64, u128, i128, usize, isize, f32, f64);

macro_rules! nonzero {
    ($($t:ident $inner:ident),*) => {$(
        impl Ty for $t {
            const NAME: &'static str = stringify!($t);
            const SEEDS: usize = 2;
            fn make(seed: usize) -> Self { $t::new($inner::make(seed % 2 * 2)).unwrap() }
            fn valid(b: &[u8]) -> bool { b.iter().any(|&b| b != 0) }
            fn same(&self, b: &[u8]) -> bool { self.get().same(b) }
            fn put(&self, b: &mut [u8]) { self.get().put(b) }
        }
        impl Ty for Option<$t> {
            const NAME: &'static str = concat!("Option<", stringify!($t), ">");
            const SEEDS: usize = 3;
            fn make(seed: usize) -> Self { $t::new($inner::make(seed)) }
            fn valid(_: &[u8]) -> bool { true }
            fn same(&self, b: &[u8]) -> bool { self.map_or(0, |n| n.get()).same(b) }
            fn put(&self, b: &mut [u8]) { self.map_or(0, |n| n.get()).put(b) }
        }
    )*};
}
nonzero!(NonZeroU8 u8, NonZeroI8 i8, NonZeroU16 u16, NonZeroI16 i16, NonZeroU32 u32, NonZeroI32 i32,
    NonZeroU64 u64, NonZeroI64 i64, NonZeroU128 u128, NonZeroI128 i128, NonZeroUsize usize, NonZeroIsize isize);

impl Ty for bool {
    const NAME: &'static str = "bool";
    const SEEDS: usize = 2;
    fn make(seed: usize) -> Self {
        seed % 2 == 0
    }
    fn valid(b: &[u8]) -> bool {
        b[0] < 2
    }
    fn same(&self, b: &[u8]) -> bool {
        *self == (b[0] == 1)
    }
    fn put(&self, b: &mut [u8]) {
        b[0] = *self as u8
    }
}

impl Ty for char {
    const NAME: &'static str = "char";
    const SEEDS: usize = 5;
    fn make(seed: usize) -> Self {
        ['a', '\u{d7ff}', '\u{10ffff}', '\0', '\u{e000}'][seed % 5]
    }
    fn valid(b: &[u8]) -> bool {
        let n = u32::from_ne_bytes(b.try_into().unwrap());
        n < 0xd800 || (0xe000..0x110000).contains(&n)
    }
    fn same(&self, b: &[u8]) -> bool {
        (*self as u32).same(b)
    }
    fn put(&self, b: &mut [u8]) {
        (*self as u32).put(b)
    }
}

macro_rules! zst {
    ($($t:ty, $e:expr;)*) => {$(
        impl Ty for $t {
            const NAME: &'static str = stringify!($t);
            const SEEDS: usize = 1;
            fn make(_: usize) -> Self { $e }
            fn valid(_: &[u8]) -> bool { true }
            fn same(&self, _: &[u8]) -> bool { true }
            fn put(&self, _: &mut [u8]) {}
        }
    )*};
}
zst! {
    (), ();
    PhantomData<u64>, PhantomData;
}

impl<T: Ty> Ty for Wrapping<T> {
    const NAME: &'static str = T::NAME;
    const SEEDS: usize = T::SEEDS;
    fn make(seed: usize) -> Self {
        Wrapping(T::make(seed))
    }
    fn valid(b: &[u8]) -> bool {
        T::valid(b)
    }
    fn same(&self, b: &[u8]) -> bool {
        self.0.same(b)
    }
    fn put(&self, b: &mut [u8]) {
        self.0.put(b)
    }
}

impl<T: Ty, const N: usize> Ty for [T; N] {
    const NAME: &'static str = T::NAME;
    const SEEDS: usize = T::SEEDS;
    fn make(seed: usize) -> Self {
        std::array::from_fn(|i| T::make(seed + i))
    }
    fn valid(b: &[u8]) -> bool {
        (0..N).all(|i| T::valid(part::<T>(b, i * size_of::<T>())))
    }
    fn same(&self, b: &[u8]) -> bool {
        (0..N).all(|i| self[i].same(part::<T>(b, i * size_of::<T>())))
    }
    fn put(&self, b: &mut [u8]) {
        for i in 0..N {
            self[i].put(part_mut::<T>(b, i * size_of::<T>()))
        }
    }
}

macro_rules! endian {
    ($($t:ty, $e:ident;)*) => {$(
        impl Ty for Endian<$t, $e> {
            const NAME: &'static str = stringify!(Endian<$t, $e>);
            const SEEDS: usize = <$t>::SEEDS;
            fn make(seed: usize) -> Self { Endian::new(<$t>::make(seed)) }
            fn valid(b: &[u8]) -> bool { <$t>::valid(b) }
            fn same(&self, b: &[u8]) -> bool { self.to_raw().same(b) }
            fn put(&self, b: &mut [u8]) { self.to_raw().put(b) }
        }
    )*};
}
endian! {
    u32, Big;
    NonZeroU16, Big;
    NonZeroU64, Little;
    bool, Big;
}

impl Ty for Ref<u32, Big, u16> {
    const NAME: &'static str = "Ref<u32>";
    const SEEDS: usize = 2;
    fn make(seed: usize) -> Self {
        Ref::new(seed * 1000)
    }
    fn valid(_: &[u8]) -> bool {
        true
    }
    fn same(&self, b: &[u8]) -> bool {
        self.offset() == u16::from_be_bytes(b.try_into().unwrap()) as usize
    }
    fn put(&self, b: &mut [u8]) {
        b.copy_from_slice(&(self.offset() as u16).to_be_bytes())
    }
}

impl Ty for Ref<str, Native, u32> {
    const NAME: &'static str = "Ref<str>";
    const SEEDS: usize = 2;
    fn make(seed: usize) -> Self {
        Ref::with_metadata(seed * 70000, 5)
    }
    fn valid(_: &[u8]) -> bool {
        true
    }
    fn same(&self, b: &[u8]) -> bool {
        (self.offset() as u32).same(&b[..4]) && (self.len() as u32).same(&b[4..])
    }
    fn put(&self, b: &mut [u8]) {
        (self.offset() as u32).put(&mut b[..4]);
        (self.len() as u32).put(&mut b[4..]);
    }
}

impl Ty for Packed<[u64], u32, u8> {
    const NAME: &'static str = "Packed";
    const SEEDS: usize = 2;
    fn make(seed: usize) -> Self {
        Packed::from_raw_parts(seed * 70000, 5)
    }
    fn valid(_: &[u8]) -> bool {
        true
    }
    fn same(&self, b: &[u8]) -> bool {
        (self.offset() as u32).same(&b[..4]) && (self.len() as u8).same(&b[4..])
    }
    fn put(&self, b: &mut [u8]) {
        (self.offset() as u32).put(&mut b[..4]);
        (self.len() as u8).put(&mut b[4..]);
    }
}

// ---------------------------------------------------------------------------
// Structs

/// Describe a struct: its fields, and the values of the ignored ones.
macro_rules! describe {
    ($name:ty { $($field:tt : $ty:ty),* $(,)? } $(ignored { $($ig:tt = $ie:expr),* })?) => {
        impl Ty for $name {
            const NAME: &'static str = stringify!($name);
            const SEEDS: usize = { let mut n = 2; $( if <$ty as Ty>::SEEDS > n { n = <$ty as Ty>::SEEDS; } )* n };
            #[allow(unused_variables, unused_mut, unused_assignments)]
            fn make(seed: usize) -> Self {
                let mut n = seed;
                Self {
                    $( $field: { let v = <$ty as Ty>::make(n); n += 1; v }, )*
                    $( $( $ig: $ie, )* )?
                }
            }
            #[allow(unused_variables)]
            fn valid(b: &[u8]) -> bool {
                true $( && <$ty as Ty>::valid(part::<$ty>(b, std::mem::offset_of!($name, $field))) )*
            }
            #[allow(unused_variables)]
            fn same(&self, b: &[u8]) -> bool {
                true $( && { let v: $ty = self.$field; v.same(part::<$ty>(b, std::mem::offset_of!($name, $field))) } )*
            }
            #[allow(unused_variables)]
            fn put(&self, b: &mut [u8]) {
                $( { let v: $ty = self.$field; v.put(part_mut::<$ty>(b, std::mem::offset_of!($name, $field))) } )*
            }
        }
    };
}

macro_rules! structs {
    ($( $(#[$m:meta])* struct $name:ident { $( $(#[$fm:meta])* $field:ident : $ty:ty),* $(,)? } )*) => {$(
        #[derive(ZeroCopy, Clone, Copy)]
        $(#[$m])*
        struct $name { $( $(#[$fm])* $field: $ty ),* }
        describe!($name { $($field : $ty),* });
    )*};
}

structs! {
    #[repr(C)] struct Empty {}
    #[repr(C)] struct Flag { a: bool }
    #[repr(C)] struct Simple { a: u8, b: bool, c: char }
    #[repr(C)] struct Holes { a: bool, b: u64, c: u16, d: char, e: NonZeroU8 }
    #[repr(C)] struct Tail { a: NonZeroU32, b: bool }
    #[repr(C)] struct NoHoles { a: u32, b: u16, c: bool, d: u8 }
    #[repr(C)] struct Wide { a: bool, b: u128, c: bool }
    #[repr(C)] struct Nested { a: bool, b: Tail, c: u8, d: Holes, e: Flag }
    #[repr(C)] struct Arrays { a: [bool; 3], b: [char; 2], c: [Tail; 2], d: [u8; 3], e: [u64; 0], f: bool }
    #[repr(C)] struct Zsts { a: bool, b: (), c: [u32; 0], d: bool, e: PhantomData<u64>, f: Empty, g: NonZeroU8 }
    #[repr(C)] struct Options { a: Option<NonZeroU8>, b: Option<NonZeroU32>, c: NonZeroU16, d: Wrapping<bool> }
    #[repr(C)] struct Holder { a: bool, b: Ref<u32, Big, u16>, c: bool, d: Ref<str, Native, u32>, e: Packed<[u64], u32, u8>, f: bool }
    #[repr(C)] struct Orders { a: bool, b: Endian<u32, Big>, c: Endian<NonZeroU16, Big>, d: bool }
    #[repr(C, align(16))] struct Aligned16 { a: bool, b: u16 }
    #[repr(align(8), C)] struct Aligned8 { a: NonZeroU8 }
    #[repr(C)] #[repr(align(4))] struct Aligned4 { a: u8, b: bool }
    #[repr(C, align(2))] struct AlignedLess { a: u32, b: bool }
    #[repr(C, align(8))] struct EmptyAligned {}
    #[repr(C)] struct HasAligned { a: bool, b: Aligned8, c: bool, d: Aligned16, e: EmptyAligned, f: bool }

    #[repr(C, packed)] struct Packed1 { a: bool, b: char, c: bool, d: NonZeroU32, e: u16, f: bool }
    #[repr(packed, C)] struct PackedNested { a: bool, b: Tail, c: bool, d: Holes, e: [Simple; 2] }
    #[repr(C, packed(1))] struct PackedOne { a: bool, b: NonZeroU64, c: bool }
    #[repr(C, packed(2))] struct Packed2 { a: bool, b: char, c: bool, d: bool, e: u16, f: NonZeroU64, g: bool }
    #[repr(C, packed(2))] struct PackedBytes { a: bool, b: bool, c: NonZeroU8 }
    #[repr(C, packed(4))] struct Packed4 { a: bool, b: NonZeroU64, c: bool, d: NonZeroU16, e: bool, f: char }
    #[repr(C, packed(4))] struct PackedNested4 { a: bool, b: Holes, c: bool, d: Simple, e: [bool; 2], f: Packed2 }
    #[repr(C, packed(8))] struct Packed8 { a: bool, b: NonZeroU128, c: bool, d: char, e: NonZeroU64 }
    #[repr(C, packed(16))] struct PackedNot { a: bool, b: char, c: NonZeroU64, d: bool }
    #[repr(C)] struct HasPacked { a: bool, b: Packed1, c: bool, d: Packed2, e: Packed4, f: bool, g: PackedEnum }

    #[repr(transparent)] struct Thin { a: bool }
    #[repr(transparent)] struct ThinNested { a: Holes }
    #[repr(C)] struct HasThin { a: u8, b: Thin, c: ThinNested, d: Thin }

    #[repr(C)] struct HasEnums { a: bool, b: Fields, c: Unit, d: Sparse, e: bool, f: [Fields; 2] }
    #[repr(C, packed)] struct PackedEnum { a: bool, b: Sparse, c: Fields, d: bool }
    #[repr(C, packed(2))] struct PackedEnum2 { a: bool, b: Fields, c: Signed32, d: bool }
}

#[derive(ZeroCopy, Clone, Copy)]
#[repr(C)]
struct UnitStruct;
describe!(UnitStruct {});

#[derive(ZeroCopy, Clone, Copy)]
#[repr(C)]
struct Tuple(bool, u32, NonZeroU16, bool);
describe!(Tuple {
    0: bool,
    1: u32,
    2: NonZeroU16,
    3: bool
});

#[derive(ZeroCopy, Clone, Copy)]
#[repr(transparent)]
struct ThinTuple(NonZeroU32);
describe!(ThinTuple { 0: NonZeroU32 });

#[derive(ZeroCopy, Clone, Copy)]
#[repr(transparent)]
struct ThinMarked<T> {
    #[zero_copy(ignore)]
    x: PhantomData<T>,
    a: char,
    #[zero_copy(ignore)]
    y: (),
}
describe!(ThinMarked<u64> { a: char } ignored { x = PhantomData, y = () });

#[derive(ZeroCopy, Clone, Copy)]
#[repr(C)]
struct Marked<T> {
    a: bool,
    #[zero_copy(ignore)]
    x: PhantomData<T>,
    b: u32,
    #[zero_copy(ignore)]
    y: UnitStruct,
    c: bool,
}
describe!(Marked<u64> { a: bool, b: u32, c: bool } ignored { x = PhantomData, y = UnitStruct });

// An ignored field still aligns what follows it.
#[derive(ZeroCopy, Clone, Copy)]
#[repr(C)]
struct MarkedAligned {
    a: bool,
    #[zero_copy(ignore)]
    x: [u64; 0],
    b: bool,
    c: u16,
    #[zero_copy(ignore)]
    y: EmptyAligned,
    d: bool,
}
describe!(MarkedAligned { a: bool, b: bool, c: u16, d: bool } ignored { x = [], y = EmptyAligned {} });

#[derive(ZeroCopy, Clone, Copy)]
#[repr(C, packed(2))]
struct MarkedPacked {
    a: bool,
    #[zero_copy(ignore)]
    x: [u64; 0],
    b: bool,
    c: char,
}
describe!(MarkedPacked { a: bool, b: bool, c: char } ignored { x = [] });

#[derive(ZeroCopy, Clone, Copy)]
#[repr(C)]
#[zero_copy(bounds = {T: ZeroCopy})]
struct Generic<T> {
    a: u8,
    b: T,
    c: bool,
}
describe!(Generic<bool> { a: u8, b: bool, c: bool });
describe!(Generic<char> { a: u8, b: char, c: bool });
describe!(Generic<[Tail; 2]> { a: u8, b: [Tail; 2], c: bool });
describe!(Generic<Generic<NonZeroU64>> { a: u8, b: Generic<NonZeroU64>, c: bool });
describe!(Generic<NonZeroU64> { a: u8, b: NonZeroU64, c: bool });

#[derive(ZeroCopy, Clone, Copy)]
#[repr(C)]
struct Sized_<const N: usize> {
    a: bool,
    b: [NonZeroU16; N],
    c: bool,
}
describe!(Sized_<0> { a: bool, b: [NonZeroU16; 0], c: bool });
describe!(Sized_<3> { a: bool, b: [NonZeroU16; 3], c: bool });

// ---------------------------------------------------------------------------
// Enums

/// Describe an enum: its variants, with a name for each field.
macro_rules! enums {
    ($name:ty, $tag:ty { $( $v:ident { $($field:tt $var:ident : $ty:ty),* $(,)? } ),* $(,)? }) => {
        impl $name {
            /// One value of each variant.
            #[allow(unused_variables, unused_mut, unused_assignments)]
            fn all(seed: usize) -> Vec<Self> {
                vec![$( {
                    let mut n = seed;
                    Self::$v { $( $field: { let v = <$ty as Ty>::make(n); n += 1; v } ),* }
                } ),*]
            }
            /// The discriminant in memory.
            fn tag(&self) -> &[u8] {
                // Safety: the tag is at the start of the enum.
                unsafe { std::slice::from_raw_parts((self as *const Self).cast::<u8>(), size_of::<$tag>()) }
            }
        }
        impl Ty for $name {
            const NAME: &'static str = stringify!($name);
            const SEEDS: usize = 2 * [$( stringify!($v) ),*].len();
            fn make(seed: usize) -> Self {
                let n = Self::all(0).len();
                Self::all(seed / n)[seed % n]
            }
            fn valid(b: &[u8]) -> bool {
                // A value with this tag tells where the fields are.
                let all = Self::all(0);
                let Some(v) = all.iter().find(|v| v.tag() == &b[..size_of::<$tag>()]) else {
                    return false;
                };
                v.fields(b, &mut |ok, _, _| ok)
            }
            fn same(&self, b: &[u8]) -> bool {
                self.tag() == &b[..size_of::<$tag>()] && self.fields(b, &mut |_, same, _| same)
            }
            fn put(&self, b: &mut [u8]) {
                b[..size_of::<$tag>()].copy_from_slice(self.tag());
                let copy = b.to_vec();
                let mut parts = Vec::new();
                self.fields(&copy, &mut |_, _, p| { parts.push(p); true });
                for (at, bytes) in parts {
                    for (at, byte) in (at..).zip(bytes) {
                        if let Some(byte) = byte {
                            b[at] = byte;
                        }
                    }
                }
            }
        }
        impl $name {
            /// For each field whether the bytes are valid for it, whether they
            /// are the same, and what to put where.
            #[allow(unused_variables)]
            fn fields(&self, b: &[u8], f: &mut dyn FnMut(bool, bool, (usize, Vec<Option<u8>>)) -> bool) -> bool {
                let base = self as *const Self as usize;
                match self {
                    $( Self::$v { $($field: $var),* } => {
                        $(
                            let at = $var as *const $ty as usize - base;
                            let p = part::<$ty>(b, at);
                            let (mut x, mut y) = (vec![0x00; size_of::<$ty>()], vec![0xff; size_of::<$ty>()]);
                            $var.put(&mut x);
                            $var.put(&mut y);
                            let data = x.iter().zip(&y).map(|(x, y)| (x == y).then_some(*x)).collect();
                            if !f(<$ty as Ty>::valid(p), $var.same(p), (at, data)) {
                                return false;
                            }
                        )*
                        true
                    } )*
                }
            }
        }
    };
}

#[derive(ZeroCopy, Clone, Copy)]
#[repr(u8)]
enum Unit {
    A,
    B,
    C,
}
enums!(Unit, u8 { A {}, B {}, C {} });

#[derive(ZeroCopy, Clone, Copy)]
#[repr(u8)]
enum One {
    A(bool),
}
enums!(One, u8 { A { 0 a: bool } });

#[derive(ZeroCopy, Clone, Copy)]
#[repr(u8)]
enum Fields {
    A,
    B(bool),
    C { x: u32, y: bool },
    D(NonZeroU16, char, u8),
    E(()),
}
enums!(Fields, u8 {
    A {}, B { 0 a: bool }, C { x x: u32, y y: bool }, D { 0 a: NonZeroU16, 1 b: char, 2 c: u8 }, E { 0 a: () },
});

#[derive(ZeroCopy, Clone, Copy)]
#[repr(u16)]
enum Sparse {
    A = 7,
    B,
    C(bool) = 0x100,
    D,
    E = 0xffff,
}
enums!(Sparse, u16 { A {}, B {}, C { 0 a: bool }, D {}, E {} });

#[derive(ZeroCopy, Clone, Copy)]
#[repr(i8)]
enum Signed {
    A = -3,
    B,
    C,
    D,
    E,
    F = -128,
    G,
    H = 127,
}
enums!(Signed, i8 { A {}, B {}, C {}, D {}, E {}, F {}, G {}, H {} });

#[derive(ZeroCopy, Clone, Copy)]
#[repr(i16)]
enum Signed16 {
    A(NonZeroU64) = -1,
    B(bool),
    C = i16::MAX,
    D = i16::MIN,
    E,
}
enums!(Signed16, i16 { A { 0 a: NonZeroU64 }, B { 0 a: bool }, C {}, D {}, E {} });

#[derive(ZeroCopy, Clone, Copy)]
#[repr(i32)]
enum Signed32 {
    A = -0x8000_0000,
    B,
    C(char) = 0,
    D { a: bool, b: [bool; 3] },
}
enums!(Signed32, i32 { A {}, B {}, C { 0 a: char }, D { a a: bool, b b: [bool; 3] } });

const TWO: u32 = 2;

#[derive(ZeroCopy, Clone, Copy)]
#[repr(u32)]
enum Expressions {
    A = 1 << 4,
    B,
    C = TWO,
    D,
    E = 8 | 1,
    F,
    G = (5),
    H,
    I = 0b11_0000,
    J,
    K = { 6 * 7 },
    L,
    M = 100 - 1,
    N,
    O = !0 - 1,
    P,
    Q = 7 ^ 0xf00,
    R,
    S = b'a' as u32,
    T,
    U = 1_000u32,
    V,
}
enums!(Expressions, u32 {
    A {}, B {}, C {}, D {}, E {}, F {}, G {}, H {}, I {}, J {}, K {}, L {}, M {}, N {}, O {}, P {}, Q {}, R {}, S {}, T {}, U {}, V {},
});

#[derive(ZeroCopy, Clone, Copy)]
#[repr(i64)]
enum NegativeExpressions {
    A = -(5),
    B,
    C = -1 - 1,
    D,
    E = --7,
    F,
    G = i64::MIN,
    H,
    I = -0x10,
    J,
    K = 5 * -4,
    L,
}
enums!(NegativeExpressions, i64 { A {}, B {}, C {}, D {}, E {}, F {}, G {}, H {}, I {}, J {}, K {}, L {} });

#[derive(ZeroCopy, Clone, Copy)]
#[repr(usize)]
enum PtrUnsigned {
    A = usize::MAX,
    B = 0,
    C(bool),
    D { a: u8, b: NonZeroU64 },
}
enums!(PtrUnsigned, usize { A {}, B {}, C { 0 a: bool }, D { a a: u8, b b: NonZeroU64 } });

#[derive(ZeroCopy, Clone, Copy)]
#[repr(isize)]
enum PtrSigned {
    A = isize::MIN,
    B = -1,
    C(bool),
    D { a: u8, b: u128 },
}
enums!(PtrSigned, isize { A {}, B {}, C { 0 a: bool }, D { a a: u8, b b: u128 } });

#[derive(ZeroCopy, Clone, Copy)]
#[repr(u8)]
enum ByteLit {
    A = b'x',
    B,
    C(u8) = b'\0',
    D,
}
enums!(ByteLit, u8 { A {}, B {}, C { 0 a: u8 }, D {} });

#[derive(ZeroCopy, Clone, Copy)]
#[repr(u64)]
enum Wide64 {
    A(u8) = u64::MAX,
    B(bool) = 0x1_0000_0000,
    C,
}
enums!(Wide64, u64 { A { 0 a: u8 }, B { 0 a: bool }, C {} });

#[derive(ZeroCopy, Clone, Copy)]
#[repr(isize)]
enum Pointer {
    A = -2,
    B(bool),
    C,
    D(char),
}
enums!(Pointer, isize { A {}, B { 0 a: bool }, C {}, D { 0 a: char } });

#[derive(ZeroCopy, Clone, Copy)]
#[repr(u8)]
enum Inner {
    A(Fields),
    B(Sparse, bool),
    C([Unit; 3]),
    D { a: Holes, b: bool },
    E(Packed2, NonZeroU16),
}
enums!(Inner, u8 {
    A { 0 a: Fields }, B { 0 a: Sparse, 1 b: bool }, C { 0 a: [Unit; 3] }, D { a a: Holes, b b: bool }, E { 0 a: Packed2, 1 b: NonZeroU16 },
});

#[derive(ZeroCopy, Clone, Copy)]
#[repr(u16)]
#[zero_copy(bounds = {T: ZeroCopy})]
enum GenericEnum<T> {
    A(T),
    B {
        a: u8,
        b: T,
        #[zero_copy(ignore)]
        c: PhantomData<T>,
    },
    C,
}
type GenericChar = GenericEnum<char>;
impl GenericChar {
    fn b(a: u8, b: char) -> Self {
        GenericEnum::B {
            a,
            b,
            c: PhantomData,
        }
    }
}
impl Ty for GenericChar {
    const NAME: &'static str = "GenericEnum<char>";
    const SEEDS: usize = 6;
    fn make(seed: usize) -> Self {
        match seed % 3 {
            0 => GenericEnum::A(char::make(seed)),
            1 => Self::b(seed as u8, char::make(seed)),
            _ => GenericEnum::C,
        }
    }
    fn valid(b: &[u8]) -> bool {
        match u16::from_ne_bytes([b[0], b[1]]) {
            0 => char::valid(&b[4..8]),
            1 => char::valid(&b[4..8]),
            n => n == 2,
        }
    }
    fn same(&self, b: &[u8]) -> bool {
        match (self, u16::from_ne_bytes([b[0], b[1]])) {
            (GenericEnum::A(v), 0) => v.same(&b[4..8]),
            (GenericEnum::B { a, b: v, .. }, 1) => *a == b[2] && v.same(&b[4..8]),
            (GenericEnum::C, 2) => true,
            _ => false,
        }
    }
    fn put(&self, b: &mut [u8]) {
        let tag = match self {
            GenericEnum::A(v) => {
                v.put(&mut b[4..8]);
                0u16
            }
            GenericEnum::B { a, b: v, .. } => {
                b[2] = *a;
                v.put(&mut b[4..8]);
                1
            }
            GenericEnum::C => 2,
        };
        tag.put(&mut b[..2]);
    }
}

#[derive(ZeroCopy, Clone, Copy)]
#[repr(u8, align(8))]
enum AlignedEnum {
    A,
    B(bool),
    C(char),
}
enums!(AlignedEnum, u8 { A {}, B { 0 a: bool }, C { 0 a: char } });

#[derive(ZeroCopy, Clone, Copy)]
#[repr(u8)]
enum MarkedEnum {
    A {
        a: bool,
        #[zero_copy(ignore)]
        x: [u32; 0],
        b: bool,
    },
    B(#[zero_copy(ignore)] EmptyAligned, bool),
}
impl Ty for MarkedEnum {
    const NAME: &'static str = "MarkedEnum";
    const SEEDS: usize = 4;
    fn make(seed: usize) -> Self {
        match seed % 2 {
            0 => MarkedEnum::A {
                a: bool::make(seed / 2),
                x: [],
                b: bool::make(seed / 2 + 1),
            },
            _ => MarkedEnum::B(EmptyAligned {}, bool::make(seed / 2)),
        }
    }
    // As laid out by the compiler, which is asserted.
    fn valid(b: &[u8]) -> bool {
        match b[0] {
            0 => b[1] < 2 && b[4] < 2,
            1 => b[8] < 2,
            _ => false,
        }
    }
    fn same(&self, bytes: &[u8]) -> bool {
        let at = |p: *const bool| p as usize - self as *const Self as usize;
        match self {
            MarkedEnum::A { a, b, .. } => {
                assert_eq!((at(a), at(b)), (1, 4));
                bytes[0] == 0 && a.same(&bytes[1..]) && b.same(&bytes[4..])
            }
            MarkedEnum::B(_, a) => {
                assert_eq!(at(a), 8);
                bytes[0] == 1 && a.same(&bytes[8..])
            }
        }
    }
    fn put(&self, bytes: &mut [u8]) {
        match self {
            MarkedEnum::A { a, b, .. } => {
                bytes[0] = 0;
                a.put(&mut bytes[1..]);
                b.put(&mut bytes[4..]);
            }
            MarkedEnum::B(_, a) => {
                bytes[0] = 1;
                a.put(&mut bytes[8..]);
            }
        }
    }
}

// ---------------------------------------------------------------------------
// Loading

/// The most bytes of a value times two and some more.
const ROOM: usize = 1024;

#[repr(C, align(64))]
struct Memory([u8; ROOM]);

/// The bytes of a value, with this in the padding.
fn image<T: Ty>(v: &T, padding: u8) -> Vec<u8> {
    let mut b = vec![padding; size_of::<T>()];
    v.put(&mut b);
    b
}

fn judge<T: Ty>(what: &str, want: &[u8], got: Result<&T, String>) -> Check_ {
    judge_as(what, want, T::valid(want), got)
}

fn judge_as<T: Ty>(what: &str, want: &[u8], valid: bool, got: Result<&T, String>) -> Check_ {
    match got {
        Ok(v) => {
            ensure!(valid, "{what} accepts {}", hex(want));
            ensure!(
                v.same(want),
                "{what} of {} is another value: {}",
                hex(want),
                hex(&image(v, 0))
            );
        }
        Err(e) => ensure!(!valid, "{what} rejects {}: {e}", hex(want)),
    }
    Ok(())
}

fn str_err<T>(r: Result<T, musli_zerocopy::Error>) -> Result<T, String> {
    r.map_err(|e| e.to_string())
}

/// Load these bytes in every way, and at every alignment.
fn load_all<T: Ty>(mem: &mut Memory, bytes: &[u8]) -> Check_ {
    let (size, align) = (size_of::<T>(), align_of::<T>());
    assert_eq!(size, bytes.len());
    let at = align * 2;
    mem.0[at..at + size].copy_from_slice(bytes);
    let end = at + size + 3;
    {
        let buf = Buf::new(&mem.0[..end]);
        judge("load_at", bytes, str_err(buf.load_at::<T>(at)))?;
        judge(
            "load",
            bytes,
            str_err(buf.load(Ref::<T, Big, u16>::new(at))),
        )?;
        judge(
            "load_at_unaligned",
            bytes,
            str_err(buf.load_at_unaligned::<T>(at))
                .as_ref()
                .map_err(|e| e.clone()),
        )?;
        judge(
            "from_bytes",
            bytes,
            str_err(T::from_bytes(&mem.0[at..at + size])),
        )?;
    }
    {
        let buf = Buf::new_mut(&mut mem.0[..end]);
        judge(
            "load_at_mut",
            bytes,
            str_err(buf.load_at_mut::<T>(at).map(|v| &*v)),
        )?;
        judge(
            "load_mut",
            bytes,
            str_err(buf.load_mut(Ref::<T>::new(at)).map(|v| &*v)),
        )?;
        judge(
            "from_bytes_mut",
            bytes,
            str_err(T::from_bytes_mut(&mut mem.0[at..at + size]).map(|v| &*v)),
        )?;
    }
    ensure!(
        mem.0[at..at + size].eq(bytes),
        "loading changed {} to {}",
        hex(bytes),
        hex(&mem.0[at..at + size])
    );
    // Elsewhere.
    for d in 1..align {
        mem.0[at + d..at + d + size].copy_from_slice(bytes);
        let buf = Buf::new(&mem.0[..end + align]);
        let got = str_err(buf.load_at_unaligned::<T>(at + d));
        judge(
            "load_at_unaligned of a misaligned offset",
            bytes,
            got.as_ref().map_err(|e| e.clone()),
        )?;
        let off = Buf::new(&mem.0[d..end + align]);
        let got = str_err(off.load_at_unaligned::<T>(at));
        judge(
            "load_at_unaligned in a misaligned buffer",
            bytes,
            got.as_ref().map_err(|e| e.clone()),
        )?;
        for got in [
            buf.load_at::<T>(at + d),
            buf.load(Ref::<T>::new(at + d)),
            off.load_at::<T>(at),
            off.load(Ref::<T>::new(at)),
            T::from_bytes(&mem.0[at + d..at + d + size]),
        ] {
            ensure!(
                got.is_err(),
                "a value {d} bytes off its alignment {align} was loaded"
            );
        }
        let buf = Buf::new_mut(&mut mem.0[..end + align]);
        ensure!(
            buf.load_at_mut::<T>(at + d).is_err(),
            "load_at_mut {d} bytes off its alignment {align}"
        );
        ensure!(
            buf.load_mut(Ref::<T>::new(at + d)).is_err(),
            "load_mut {d} bytes off its alignment {align}"
        );
    }
    Ok(())
}

/// Every byte at every position, and pairs of them.
fn bytes<T: Ty>(fam: &mut Fam) {
    let name = std::any::type_name::<T>().replace("p21::", "");
    let size = size_of::<T>();
    let seeds = match fam.thorough() {
        true => T::SEEDS * 2,
        false => T::SEEDS,
    };
    let mut images: Vec<Vec<u8>> = Vec::new();
    for seed in 0..seeds {
        for padding in [0, 0xaa] {
            let i = image(&T::make(seed), padding);
            if !images.contains(&i) {
                images.push(i);
            }
        }
    }
    for img in &images {
        fam.case(
            || format!("{name} {}", hex(img)),
            || {
                let mut mem = Memory([0x77; ROOM]);
                ensure!(T::valid(img), "the image is not valid");
                load_all::<T>(&mut mem, img)?;
                Ok(Fp::new().str(&name).bytes(img).done())
            },
        );
        for at in 0..size {
            fam.case(
                || format!("{name} {} all bytes at {at}", hex(img)),
                || {
                    let mut mem = Memory([0x77; ROOM]);
                    let mut b = img.clone();
                    for v in 0..=255 {
                        b[at] = v;
                        load_all::<T>(&mut mem, &b)?;
                    }
                    progress();
                    Ok(Fp::new().str(&name).bytes(img).u64(at as u64).done())
                },
            );
        }
        // Two positions at once.
        let edge = [0u8, 1, 2, 3, 0x7f, 0x80, 0xd8, 0xdf, 0xe0, 0xff];
        let near = fam.bound(1, 9);
        for at in 0..size {
            for other in at + 1..size.min(at + 1 + near) {
                fam.case(
                    || format!("{name} {} bytes at {at} and {other}", hex(img)),
                    || {
                        let mut mem = Memory([0x77; ROOM]);
                        let mut b = img.clone();
                        for x in edge {
                            for y in edge {
                                (b[at], b[other]) = (x, y);
                                load_all::<T>(&mut mem, &b)?;
                            }
                        }
                        progress();
                        Ok(Fp::new()
                            .str(&name)
                            .bytes(img)
                            .u64(at as u64)
                            .u64(other as u64)
                            .done())
                    },
                );
            }
        }
    }
    // Bytes which are all the same.
    fam.case(
        || format!("{name} repeated bytes"),
        || {
            let mut mem = Memory([0x77; ROOM]);
            for v in 0..=255 {
                load_all::<T>(&mut mem, &vec![v; size])?;
            }
            Ok(Fp::new().str(&name).str("repeated").done())
        },
    );
}

/// The window of memory has the value at every offset and is of every length.
fn bounds<T: Ty>(fam: &mut Fam) {
    let name = std::any::type_name::<T>().replace("p21::", "");
    let (size, align) = (size_of::<T>(), align_of::<T>());
    let more = fam.bound(2, 17);
    for len in 0..=size + align + more {
        fam.case(
            || format!("{name} in a buffer of {len} bytes"),
            || {
                let mut guard = GuardBuf::new(len + 64);
                let v = T::make(0);
                let img = image(&v, 0);
                // At the very end of the readable memory, so that the start is
                // off by all amounts.
                for shift in [0, 1, 2, 4, 8] {
                    for off in (0..=len + 2).chain([
                        usize::MAX,
                        usize::MAX - 1,
                        usize::MAX - size,
                        size.wrapping_neg(),
                        isize::MAX as usize,
                    ]) {
                        let window = guard.window_end(len + shift);
                        window.fill(0x01);
                        let window = &mut window[..len];
                        let inside = off.checked_add(size).is_some_and(|end| end <= len);
                        let aligned = (window.as_ptr() as usize).wrapping_add(off) % align == 0;
                        if inside {
                            window[off..off + size].copy_from_slice(&img);
                        }
                        let what = |how: &str| {
                            format!("{how} at {off} (inside: {inside}, aligned: {aligned})")
                        };
                        let ok = inside && aligned;
                        let buf = Buf::new(window);
                        let r = Ref::<T, Native, usize>::new(off);
                        let all = [
                            ("load_at", no_panic(|| buf.load_at::<T>(off).is_ok())?, ok),
                            ("load", no_panic(|| buf.load(r).is_ok())?, ok),
                            (
                                "load_at_unaligned",
                                no_panic(|| buf.load_at_unaligned::<T>(off).is_ok())?,
                                inside,
                            ),
                        ];
                        for (how, got, ok) in all {
                            ensure!(got == ok, "{} is ok: {got}", what(how));
                        }
                        if off == 0 {
                            let all = [
                                ("is_compatible_with", buf.is_compatible_with::<T>()),
                                (
                                    "ensure_compatible_with",
                                    buf.ensure_compatible_with::<T>().is_ok(),
                                ),
                                ("validate_struct", buf.validate_struct::<T>().is_ok()),
                                ("from_bytes", T::from_bytes(window).is_ok()),
                                ("from_bytes_mut", T::from_bytes_mut(window).is_ok()),
                            ];
                            for (how, got) in all {
                                ensure!(got == ok, "{} is ok: {got}", what(how));
                            }
                        }
                        let buf = Buf::new_mut(window);
                        let all = [
                            (
                                "load_at_mut",
                                no_panic(|| buf.load_at_mut::<T>(off).is_ok())?,
                                ok,
                            ),
                            ("load_mut", no_panic(|| buf.load_mut(r).is_ok())?, ok),
                        ];
                        for (how, got, ok) in all {
                            ensure!(got == ok, "{} is ok: {got}", what(how));
                        }
                    }
                }
                Ok(Fp::new().str(&name).u64(len as u64).done())
            },
        );
    }
}

fn slices<T: Ty>(fam: &mut Fam) {
    let name = std::any::type_name::<T>().replace("p21::", "");
    let (size, align) = (size_of::<T>(), align_of::<T>());
    // Bounds and alignment.
    for n in 0..=fam.bound(3, 5) {
        fam.case(
            || format!("{name} bounds of slices of {n}"),
            || {
                let room = n * size + 2 * align + 2;
                let mut guard = GuardBuf::new(room + 64);
                for len in (n * size).saturating_sub(2)..=room {
                    for shift in 0..align.min(4) {
                        for off in (0..=len + 1).chain([usize::MAX, usize::MAX - n * size, (n * size).wrapping_neg()]) {
                            let window = guard.window_end(len + shift);
                            window.fill(0x01);
                            let window = &mut window[..len];
                            let inside = off.checked_add(n * size).is_some_and(|end| end <= len) && off <= len;
                            let aligned = (window.as_ptr() as usize).wrapping_add(off) % align == 0;
                            if inside {
                                for i in 0..n {
                                    let img = image(&T::make(i), 0);
                                    window[off + i * size..][..size].copy_from_slice(&img);
                                }
                            }
                            let r = Ref::<[T], Native, usize>::with_metadata(off, n);
                            let p = Packed::<[T], u64, u8, Big>::from_raw_parts(off, n);
                            let buf = Buf::new_mut(window);
                            let got = [
                                no_panic(|| buf.load(r).map(|s| s.len()).ok())?,
                                no_panic(|| buf.load(p).map(|s| s.len()).ok())?,
                                no_panic(|| buf.load_mut(r).map(|s| s.len()).ok())?,
                            ];
                            let want = (inside && aligned).then_some(n);
                            ensure!(
                                got == [want; 3],
                                "{n} at {off} in {len} bytes: load, of a Packed, load_mut are {got:?} instead of {want:?}"
                            );
                        }
                    }
                }
                Ok(Fp::new().str(&name).u64(n as u64).done())
            },
        );
    }
    // More elements than there are addresses.
    fam.case(
        || format!("{name} huge slices"),
        || {
            let mem = Memory([1; ROOM]);
            let buf = Buf::new(&mem.0);
            for n in [
                usize::MAX,
                usize::MAX / 2,
                usize::MAX / 2 + 1,
                usize::MAX / 4 + 1,
                usize::MAX / 16 + 1,
                1 << 63,
            ] {
                if size == 0 {
                    continue;
                }
                for off in [0, 16, ROOM, usize::MAX] {
                    let r = Ref::<[T], Big, u64>::with_metadata(off, n);
                    let got = no_panic(|| buf.load(r).is_ok())?;
                    ensure!(!got, "{n} elements were loaded at {off}");
                }
            }
            Ok(Fp::new().str(&name).str("huge").done())
        },
    );
    // Each byte of each element.
    for n in 1..=fam.bound(2, 3) {
        for at in 0..n * size {
            fam.case(
                || format!("{name} slice of {n} all bytes at {at}"),
                || {
                    let mut mem = Memory([0x77; ROOM]);
                    let start = 2 * align;
                    for seed in 0..T::SEEDS {
                        let mut b: Vec<u8> =
                            (0..n).flat_map(|i| image(&T::make(seed + i), 0)).collect();
                        for v in 0..=255 {
                            b[at] = v;
                            mem.0[start..start + b.len()].copy_from_slice(&b);
                            let valid = (0..n).all(|i| T::valid(part::<T>(&b, i * size)));
                            let buf = Buf::new(&mem.0);
                            let r = Ref::<[T], Big, u16>::with_metadata(start, n);
                            let p = Packed::<[T], u32, u8>::from_raw_parts(start, n);
                            for got in [buf.load(r), buf.load(p)] {
                                match got {
                                    Ok(s) => {
                                        ensure!(valid, "the slice {} was accepted", hex(&b));
                                        ensure!(s.len() == n, "{} elements", s.len());
                                        for i in 0..n {
                                            ensure!(
                                                s[i].same(part::<T>(&b, i * size)),
                                                "element {i} of {}",
                                                hex(&b)
                                            );
                                        }
                                    }
                                    Err(e) => {
                                        ensure!(!valid, "the slice {} was rejected: {e}", hex(&b))
                                    }
                                }
                            }
                            let got = Buf::new_mut(&mut mem.0).load_mut(r).is_ok();
                            ensure!(
                                got == valid,
                                "load_mut of the slice {} is ok: {got}",
                                hex(&b)
                            );
                        }
                    }
                    Ok(Fp::new()
                        .str(&name)
                        .u64(n as u64)
                        .u64(at as u64)
                        .str("bytes")
                        .done())
                },
            );
        }
    }
}

/// What is stored has zeroes in its padding and is loaded back.
fn stores<T: Ty>(fam: &mut Fam) {
    let name = std::any::type_name::<T>().replace("p21::", "");
    let (size, align) = (size_of::<T>(), align_of::<T>());
    for seed in 0..T::SEEDS * 2 {
        fam.case(
            || format!("{name} value {seed} stored"),
            || {
                let v = T::make(seed);
                let want = image(&v, 0);
                ensure!(v.same(&want), "the oracle contradicts itself");
                // A value with garbage in its padding.
                let mut mem = Memory([0xaa; ROOM]);
                v.put(&mut mem.0[..size]);
                // Safety: these are the bytes of a value.
                let dirty: &mut T = unsafe { &mut *mem.0.as_mut_ptr().cast() };
                let check = |what: &str, got: &[u8]| -> Check_ {
                    ensure!(
                        got == want,
                        "{what}: {} instead of {}",
                        hex(got),
                        hex(&want)
                    );
                    Ok(())
                };
                for before in [0usize, 1, align, align + 1] {
                    let mut buf = OwnedBuf::new();
                    buf.extend_from_slice(&vec![0x55; before]);
                    let r = buf.store(dirty);
                    let at = r.offset();
                    ensure!(at % align == 0, "stored at {at} with the alignment {align}");
                    check("store", &buf.as_slice()[at..])?;
                    let u = buf.store_uninit::<T>();
                    check("MaybeUninit::write", buf.load_uninit_mut(u).write(dirty))?;
                    let s = buf.store_slice(std::slice::from_ref(dirty));
                    check("store_slice", &buf.as_slice()[s.offset()..])?;
                    let a = buf.store(&[v, v]);
                    check("array", &buf.as_slice()[a.offset()..a.offset() + size])?;
                    check("array", &buf.as_slice()[a.offset() + size..])?;
                    buf.align_in_place();
                    judge("store", &want, str_err(buf.load(r)))?;
                    judge("store_uninit", &want, str_err(buf.load(u.assume_init())))?;
                    let got = buf.load(s).map_err(|e| e.to_string())?;
                    ensure!(
                        got.len() == 1 && got[0].same(&want),
                        "store_slice loads another value"
                    );
                    let got = buf.load(a).map_err(|e| e.to_string())?;
                    ensure!(
                        got[0].same(&want) && got[1].same(&want),
                        "the array loads another value"
                    );

                    let mut room = Memory([0x33; ROOM]);
                    let mut buf = SliceMut::new(&mut room.0);
                    buf.extend_from_slice(&vec![0x55; before]);
                    let r = buf.store(dirty);
                    let at = r.offset();
                    ensure!(at % align == 0, "stored at {at} with the alignment {align}");
                    check("SliceMut store", &buf.as_slice()[at..])?;
                    judge("SliceMut store", &want, str_err(buf.load(r)))?;
                    let s = buf.store_slice(std::slice::from_ref(dirty));
                    check("SliceMut store_slice", &buf.as_slice()[s.offset()..])?;
                    let u = buf.store_uninit::<T>();
                    check(
                        "SliceMut MaybeUninit::write",
                        buf.load_uninit_mut(u).write(dirty),
                    )?;
                }
                let mut u = MaybeUninit::<T>::uninit();
                check("MaybeUninit::write", u.write(dirty))?;
                check("to_bytes", dirty.to_bytes())?;
                check("memory after to_bytes", &mem.0[..size])?;
                let mut again = Memory([0xbb; ROOM]);
                v.put(&mut again.0[..size]);
                // Safety: as above.
                let dirty: &mut T = unsafe { &mut *again.0.as_mut_ptr().cast() };
                dirty.initialize_padding();
                check("initialize_padding", &again.0[..size])?;
                ensure!(
                    again.0[size..].iter().all(|&b| b == 0xbb),
                    "initialize_padding wrote past the value"
                );
                // Types without padding say so or not, but never the opposite.
                if !T::PADDED {
                    ensure!(
                        image(&v, 0) == image(&v, 0xff),
                        "a type with padding is not PADDED"
                    );
                }
                if T::ANY_BITS {
                    for byte in 0..=255 {
                        ensure!(
                            T::valid(&vec![byte; size]),
                            "a type with invalid bytes is ANY_BITS"
                        );
                    }
                }
                Ok(Fp::new().str(&name).bytes(&want).done())
            },
        );
    }
}

fn strings(fam: &mut Fam, most: usize) {
    let alphabet = [
        0x00u8, b'a', 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1,
        0xed, 0xef, 0xf0, 0xf1, 0xf4, 0xf5, 0xff,
    ];
    {
        rng::sequences(alphabet.len(), most - 1, |seq| {
            let n = seq.len() + 1;
            // One case for all last bytes.
            fam.case(
                || format!("{n} bytes {seq:?}"),
                || {
                    let mut guard = GuardBuf::new(n);
                    ensure!(
                        Buf::new(&[])
                            .load(Ref::<str>::with_metadata(0, 0))
                            .is_ok_and(str::is_empty),
                        "no bytes"
                    );
                    for last in alphabet {
                        let mut b: Vec<u8> = seq.iter().map(|&i| alphabet[i]).collect();
                        b.push(last);
                        let window = guard.window_end(n);
                        window.copy_from_slice(&b);
                        let want = std::str::from_utf8(&b).ok();
                        let r = Ref::<str, Big, u16>::with_metadata(0u16, n);
                        let buf = Buf::new_mut(window);
                        let got = buf.load(r).ok();
                        ensure!(got == want, "{} loads as {got:?}", hex(&b));
                        let got = buf.load_mut(r).ok();
                        ensure!(
                            got.as_deref() == want,
                            "{} loads mutably as {got:?}",
                            hex(&b)
                        );
                        // Parts of it.
                        for at in 0..=n {
                            for len in 0..=n + 1 - at {
                                let want = b
                                    .get(at..at + len)
                                    .and_then(|b| std::str::from_utf8(b).ok());
                                let got = buf.load(Ref::<str>::with_metadata(at, len)).ok();
                                ensure!(
                                    got == want,
                                    "{len} bytes at {at} of {} load as {got:?}",
                                    hex(&b)
                                );
                            }
                        }
                        ensure!(
                            buf.load(Ref::<str>::with_metadata(n + 1, 0)).is_err(),
                            "loads behind the end"
                        );
                        ensure!(
                            buf.load(Ref::<str>::with_metadata(0, usize::MAX >> 32))
                                .is_err(),
                            "a huge string"
                        );
                    }
                    Ok(Fp::new()
                        .u64(n as u64)
                        .bytes(&seq.iter().map(|&i| i as u8).collect::<Vec<_>>())
                        .done())
                },
            );
        });
    }
}

/// All numbers of 32 bits.
fn all_words<T: Ty>(fam: &mut Fam) {
    let (blocks, shift) = match fam.thorough() {
        true => (1u64 << 12, 20),
        // The numbers which can be characters and some more.
        false => (0x240, 11),
    };
    for block in 0..blocks {
        fam.case(
            || format!("{} from {:#x}", T::NAME, block << shift),
            || {
                let mut mem = Memory([0; ROOM]);
                for n in block << shift..(block + 1) << shift {
                    let b = (n as u32).to_ne_bytes();
                    mem.0[..4].copy_from_slice(&b);
                    let got = T::from_bytes(&mem.0[..4]);
                    ensure!(got.is_ok() == T::valid(&b), "{n:#x} is ok: {}", got.is_ok());
                    if let Ok(v) = got {
                        ensure!(v.same(&b), "{n:#x} is another value");
                    }
                }
                progress();
                Ok(Fp::new().str(T::NAME).u64(block).done())
            },
        );
    }
}

macro_rules! types {
    ($fam:ident $f:ident: $($t:ty),* $(,)?) => {{ $( $f::<$t>($fam); )* }};
}

macro_rules! primitives {
    ($fam:ident $f:ident) => {
        types!($fam $f: u8, i8, u16, i16, u32, u64, u128, i128, usize, f32, f64, bool, char, (), PhantomData<u64>,
            NonZeroU8, NonZeroI8, NonZeroU16, NonZeroI16, NonZeroU32, NonZeroI32, NonZeroU64, NonZeroI64, NonZeroU128,
            NonZeroI128, NonZeroUsize, NonZeroIsize, Option<NonZeroU8>, Option<NonZeroI16>, Option<NonZeroU32>,
            Option<NonZeroI64>, Option<NonZeroU128>, Option<NonZeroUsize>, Wrapping<bool>, Wrapping<char>, Wrapping<u16>,
            [bool; 3], [char; 2], [u16; 0], [bool; 0], [NonZeroU16; 2], [[bool; 2]; 2], Endian<u32, Big>,
            Endian<NonZeroU16, Big>, Endian<NonZeroU64, Little>, Endian<bool, Big>, Ref<u32, Big, u16>,
            Ref<str, Native, u32>, Packed<[u64], u32, u8>)
    };
}
macro_rules! structs_ {
    ($fam:ident $f:ident) => {
        types!($fam $f: Empty, Flag, Simple, Holes, Tail, NoHoles, Wide, Nested, Arrays, Zsts, Options, Holder, Orders,
            Aligned16, Aligned8, Aligned4, AlignedLess, EmptyAligned, HasAligned, Thin, ThinNested, HasThin, UnitStruct,
            Tuple, ThinTuple, ThinMarked<u64>, Marked<u64>, MarkedAligned, Generic<bool>, Generic<char>,
            Generic<[Tail; 2]>, Generic<Generic<NonZeroU64>>, Sized_<0>, Sized_<3>, [Holes; 2], [Tuple; 3])
    };
}
macro_rules! packed {
    ($fam:ident $f:ident) => {
        types!($fam $f: Packed1, PackedNested, PackedOne, Packed2, PackedBytes, Packed4, PackedNested4, Packed8, PackedNot,
            HasPacked, PackedEnum, PackedEnum2, MarkedPacked, [Packed2; 2])
    };
}
macro_rules! enums_ {
    ($fam:ident $f:ident) => {
        types!($fam $f: Unit, One, Fields, Sparse, Signed, Signed16, Signed32, Expressions, NegativeExpressions, PtrUnsigned, PtrSigned, ByteLit,
            Wide64, Pointer, Inner, GenericChar, AlignedEnum, MarkedEnum, HasEnums, [Fields; 2], Generic<bool>)
    };
}

fn main() {
    let mut c = Check::new(
        "P21",
        Level::Exploration,
        "distinct (type, bytes) pairs and buffer windows",
    );
    c.assume("padding bytes may hold anything when a value is loaded");
    c.assume("the layout of the types is what the compiler of this machine makes it");

    c.fam_sharded("bytes/primitives", 8, |fam| primitives!(fam bytes));
    c.fam_sharded("bytes/structs", 8, |fam| structs_!(fam bytes));
    c.fam_sharded("bytes/packed", 8, |fam| packed!(fam bytes));
    c.fam_sharded("bytes/enums", 8, |fam| enums_!(fam bytes));
    c.fam_sharded("stores", 4, |fam| {
        primitives!(fam stores);
        structs_!(fam stores);
        packed!(fam stores);
        enums_!(fam stores);
    });
    c.fam_sharded("bounds", 8, |fam| {
        primitives!(fam bounds);
        structs_!(fam bounds);
        packed!(fam bounds);
        enums_!(fam bounds);
    });
    c.fam_sharded("slices", 8, |fam| {
        primitives!(fam slices);
        structs_!(fam slices);
        packed!(fam slices);
        enums_!(fam slices);
    });
    c.fam_sharded("strings", 8, |fam| {
        let most = fam.bound(4, 5);
        strings(fam, most)
    });
    c.fam_sharded("words/char", 8, all_words::<char>);
    c.fam_sharded("words/nonzero", 8, |fam| {
        all_words::<NonZeroU32>(fam);
        all_words::<NonZeroI32>(fam);
    });
    c.run();
}
