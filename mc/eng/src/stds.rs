//! Standard library types.

use std::borrow::Cow;
use std::collections::*;
use std::ffi::{CStr, CString, OsStr, OsString};
use std::marker::PhantomData;
use std::net::*;
use std::num::*;
use std::ops::*;
use std::path::{Path, PathBuf};
use std::rc::Rc;
use std::sync::Arc;

use musli::compat;

use crate::sample;
use crate::zoo::{Named2, Option1, PackedBitwise, Where, Zoo};
use crate::Sample;

macro_rules! non_zero {
    ($($n:ident $t:ident)*) => { $(
        impl Sample for $n {
            fn samples(level: usize) -> Vec<Self> {
                let mut v: Vec<_> = $t::samples(level).into_iter().filter_map($n::new).collect();
                if level < 3 {
                    v.push($n::MIN);
                    v.push($n::MAX);
                }
                v
            }
        }
    )* };
}
non_zero! {
    NonZeroU8 u8 NonZeroU16 u16 NonZeroU64 u64 NonZeroU128 u128 NonZeroUsize usize
    NonZeroI8 i8 NonZeroI16 i16 NonZeroI32 i32 NonZeroI64 i64 NonZeroI128 i128 NonZeroIsize isize
}

impl<T: Sample> Sample for Wrapping<T> {
    fn samples(level: usize) -> Vec<Self> {
        T::samples(level).into_iter().map(Wrapping).collect()
    }
}

fn raw_strings(level: usize) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![b"".to_vec(), b"a".to_vec(), b"\xff\xfe\x80".to_vec()];
    if level < 2 {
        v.extend([b"x/\"y".to_vec(), b"ab\xc3\xa9".to_vec(), vec![b'q'; 31], vec![b'q'; 300]]);
    }
    if level == 0 {
        v.extend((1..=255u8).map(|b| vec![b]));
        v.extend((0..40).map(|n| vec![0x80 + n as u8; n]));
    }
    v
}
impl Sample for CString {
    fn samples(level: usize) -> Vec<Self> {
        raw_strings(level).into_iter().map(|v| CString::new(v).unwrap()).collect()
    }
}
impl Sample for OsString {
    fn samples(level: usize) -> Vec<Self> {
        use std::os::unix::ffi::OsStringExt;
        raw_strings(level).into_iter().map(OsString::from_vec).collect()
    }
}
impl Sample for PathBuf {
    fn samples(level: usize) -> Vec<Self> {
        OsString::samples(level).into_iter().map(PathBuf::from).collect()
    }
}
macro_rules! from {
    ($($t:ty = $f:ty;)*) => { $(
        impl Sample for $t {
            fn samples(level: usize) -> Vec<Self> {
                <$f>::samples(level).into_iter().map(Into::into).collect()
            }
        }
    )* };
}
from! {
    Box<CStr> = CString; Rc<CStr> = CString; Arc<CStr> = CString; Cow<'static, CStr> = CString;
    Box<OsStr> = OsString; Rc<OsStr> = OsString; Arc<OsStr> = OsString;
    Box<Path> = PathBuf; Rc<Path> = PathBuf; Arc<Path> = PathBuf;
}

impl Sample for Ipv4Addr {
    fn samples(level: usize) -> Vec<Self> {
        u32::samples(level).into_iter().map(Ipv4Addr::from).collect()
    }
}
impl Sample for Ipv6Addr {
    fn samples(level: usize) -> Vec<Self> {
        let mut v: Vec<_> = u128::samples(level).into_iter().map(Ipv6Addr::from).collect();
        v.push(Ipv4Addr::new(1, 2, 3, 4).to_ipv6_mapped());
        v.push(Ipv6Addr::new(1, 0, 0, 2, 0, 0, 0, 3));
        v
    }
}
impl Sample for IpAddr {
    fn samples(level: usize) -> Vec<Self> {
        let a = Ipv4Addr::samples(level).into_iter().map(IpAddr::V4);
        a.chain(Ipv6Addr::samples(level).into_iter().map(IpAddr::V6)).collect()
    }
}
impl Sample for SocketAddrV4 {
    fn samples(level: usize) -> Vec<Self> {
        let mut v = Vec::new();
        for a in Ipv4Addr::samples(level + 1) {
            for p in u16::samples(level) {
                v.push(SocketAddrV4::new(a, p));
            }
        }
        v
    }
}
impl Sample for SocketAddrV6 {
    fn samples(level: usize) -> Vec<Self> {
        let mut v = Vec::new();
        for a in Ipv6Addr::samples(level + 1) {
            for p in u16::samples(level + 1) {
                for s in u32::samples(level + 1) {
                    for f in u32::samples(level + 1) {
                        v.push(SocketAddrV6::new(a, p, f, s));
                    }
                }
            }
        }
        v
    }
}
impl Sample for SocketAddr {
    fn samples(level: usize) -> Vec<Self> {
        let a = SocketAddrV4::samples(level).into_iter().map(SocketAddr::V4);
        a.chain(SocketAddrV6::samples(level + 1).into_iter().map(SocketAddr::V6)).collect()
    }
}

macro_rules! range {
    ($($n:ident($($f:ident)*) $e:expr;)*) => { $(
        impl<T: Sample> Sample for $n<T> {
            fn samples(level: usize) -> Vec<Self> {
                let mut v = Vec::new();
                for start in T::samples(level + 1) {
                    for end in T::samples(level + 1) {
                        let ($($f,)* ) = range!(@ start end $($f)*);
                        v.push($e);
                    }
                }
                v
            }
        }
    )* };
    (@ $s:ident $e:ident $a:ident $b:ident) => { ($s.clone(), $e.clone()) };
    (@ $s:ident $e:ident $a:ident) => { ({ let _ = &$s; $e.clone() },) };
}
range! {
    Range(a b) a..b;
    RangeInclusive(a b) a..=b;
    RangeFrom(a) a..;
    RangeTo(a) ..a;
    RangeToInclusive(a) ..=a;
}
impl Sample for RangeFull {
    fn samples(_: usize) -> Vec<Self> {
        vec![..]
    }
}

macro_rules! stds {
    ($($t:ty, $w:ident;)*) => { $(
        impl Zoo for $t {
            const NAME: &'static str = stringify!($t);
            const WHERE: Where = Where::$w;
        }
    )* };
}

stds! {
    u8, Any; u16, Any; u32, Any; u64, Any; u128, Any; usize, Any;
    i8, Any; i16, Any; i32, Any; i64, Any; i128, Any; isize, Any;
    f32, Any; f64, Any; bool, Any; char, Any; (), Any;
    NonZeroU8, Any; NonZeroU16, Any; NonZeroU32, Any; NonZeroU64, Any; NonZeroU128, Any; NonZeroUsize, Any;
    NonZeroI8, Any; NonZeroI16, Any; NonZeroI32, Any; NonZeroI64, Any; NonZeroI128, Any; NonZeroIsize, Any;
    Wrapping<u32>, Any; Wrapping<i8>, Any;
    String, Any; Box<str>, Any; Cow<'static, str>, Any;
    CString, Any; Box<CStr>, Any; Rc<CStr>, Any; Arc<CStr>, Any;
    OsString, Any; PathBuf, Any; Box<Path>, Any; Arc<OsStr>, Any;
    Box<u64>, Any; Rc<String>, Any; Arc<Vec<u8>>, Any; Box<[u16]>, Any;
    PhantomData<String>, Any;
    [u8; 0], Any; [u8; 1], Any; [u32; 3], Any; [String; 2], Any; [[u8; 2]; 3], Any; [Option<u8>; 2], NotPacked;
    Vec<u8>, Any; Vec<u64>, Any; Vec<String>, Any; Vec<bool>, Any; Vec<Vec<u16>>, Any; Vec<Option<u32>>, NotPacked;
    Vec<(u8, String)>, Any; Vec<PackedBitwise>, Any; Vec<char>, Any; Vec<i128>, Any; Vec<f32>, Any;
    VecDeque<u32>, Any; VecDeque<String>, Any; LinkedListless, Any;
    BTreeSet<u32>, Any; BTreeSet<String>, Any; HashSet<u64>, Any; HashSet<String>, Any;
    BTreeMap<String, u32>, Any; BTreeMap<u8, Vec<u8>>, Any; BTreeMap<i64, bool>, Any; HashMap<u32, String>, Any;
    HashMap<String, HashMap<String, u8>>, Any; BTreeMap<char, u8>, NotJson; BTreeMap<bool, u8>, NotJson;
    BTreeMap<u128, i128>, Any;
    Option<u8>, NotPacked; Option<String>, NotPacked; Option<Vec<u8>>, NotPacked; Option<(u8, u8)>, NotPacked;
    Option<Named2>, NotPacked; Option<Box<Option1>>, NotPacked;
    Result<u8, String>, Any; Result<(), Vec<u8>>, Any; Result<Result<u8, i8>, ()>, Any;
    (u8,), Any; (u8, u16), Any; (String, i8, bool), Any; (u8, u16, u32, u64), Any; ((u8, u16), (String, f64)), Any;
    (u8, u16, u8, u32, u8, u64, u8, i8, i16, i32, i64, bool), Any;
    Range<u32>, Any; RangeInclusive<i8>, Any; RangeFrom<u64>, Any; RangeTo<u16>, Any; RangeToInclusive<String>, Any;
    RangeFull, Any;
    Ipv4Addr, Any; Ipv6Addr, Any; IpAddr, Any; SocketAddrV4, Any; SocketAddrV6, Any; SocketAddr, Any;
}

/// Compares what it holds as a sequence, which heaps do not.
#[derive(Clone, musli::Encode, musli::Decode)]
#[musli(transparent)]
pub struct Heap(pub BinaryHeap<u32>);
impl std::fmt::Debug for Heap {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.clone().into_sorted_vec().fmt(f)
    }
}
impl PartialEq for Heap {
    fn eq(&self, o: &Self) -> bool {
        self.0.clone().into_sorted_vec() == o.0.clone().into_sorted_vec()
    }
}
impl Sample for Heap {
    fn samples(level: usize) -> Vec<Self> {
        Vec::<u32>::samples(level).into_iter().map(|v| Heap(v.into())).collect()
    }
}

impl<T: Sample> Sample for compat::Bytes<T> {
    fn samples(level: usize) -> Vec<Self> {
        T::samples(level).into_iter().map(compat::Bytes).collect()
    }
}
impl Sample for compat::Sequence<()> {
    fn samples(_: usize) -> Vec<Self> {
        vec![compat::Sequence(())]
    }
}

/// [`compat::Packed`] has none of the traits which are needed here.
#[derive(Debug, Clone, PartialEq)]
pub struct Pack<T>(pub T);
impl<T: Sample> Sample for Pack<T> {
    fn samples(level: usize) -> Vec<Self> {
        T::samples(level).into_iter().map(Pack).collect()
    }
}
impl<T, M> musli::Encode<M> for Pack<T>
where
    T: Clone,
    compat::Packed<T>: musli::Encode<M>,
{
    type Encode = Self;
    const IS_BITWISE_ENCODE: bool = false;
    fn encode<E: musli::Encoder<Mode = M>>(&self, encoder: E) -> Result<(), E::Error> {
        compat::Packed(self.0.clone()).encode(encoder)
    }
    fn as_encode(&self) -> &Self {
        self
    }
}
impl<'de, T, M, A> musli::Decode<'de, M, A> for Pack<T>
where
    A: musli::Allocator,
    compat::Packed<T>: musli::Decode<'de, M, A>,
{
    const IS_BITWISE_DECODE: bool = false;
    fn decode<D>(decoder: D) -> Result<Self, D::Error>
    where
        D: musli::Decoder<'de, Mode = M, Allocator = A>,
    {
        compat::Packed::decode(decoder).map(|compat::Packed(v)| Pack(v))
    }
}

stds! {
    Heap, Any; compat::Sequence<()>, Any;
    compat::Bytes<Vec<u8>>, Any; compat::Bytes<Box<[u8]>>, Any; compat::Bytes<VecDeque<u8>>, Any; compat::Bytes<[u8; 4]>, Any; compat::Bytes<[u8; 0]>, Any;
    Pack<(u8, u32)>, Any; Pack<[u16; 3]>, Any; Pack<(String, Vec<u8>)>, Any; Pack<(i8, f64, char, bool)>, Any; Pack<(u64,)>, Any;
    Pack<[(u8, u16); 2]>, Any; Pack<((u8, String), i128)>, Any;
    Rc<Path>, Any; Arc<Path>, Any; Box<OsStr>, Any; Rc<OsStr>, Any; Box<[u8]>, Any; Box<[String]>, Any; Arc<String>, Any; Rc<u8>, Any; Box<Box<i16>>, Any;
    HashMap<i128, u8>, Any; BTreeMap<String, ()>, Any; Vec<()>, Any; Vec<Ipv6Addr>, Any; Vec<Wrapping<u32>>, Any; Vec<NonZeroU16>, Any; Vec<SocketAddrV4>, Any;
    Range<char>, Any; RangeInclusive<u64>, Any; Range<(u8, u8)>, Any; Option<()>, NotJson; Result<(), ()>, Any; Wrapping<i128>, Any;
}
/// More standard types, which only P19 looks at.
#[macro_export]
macro_rules! each_more {
    ($m:ident $($args:tt)*) => {
        $m! { $($args)*;
            [Heap] [compat::Sequence<()>]
            [compat::Bytes<Vec<u8>>] [compat::Bytes<Box<[u8]>>] [compat::Bytes<VecDeque<u8>>] [compat::Bytes<[u8; 4]>] [compat::Bytes<[u8; 0]>]
            [Pack<(u8, u32)>] [Pack<[u16; 3]>] [Pack<(String, Vec<u8>)>] [Pack<(i8, f64, char, bool)>] [Pack<(u64,)>]
            [Pack<[(u8, u16); 2]>] [Pack<((u8, String), i128)>]
            [Rc<Path>] [Arc<Path>] [Box<OsStr>] [Rc<OsStr>] [Box<[u8]>] [Box<[String]>] [Arc<String>] [Rc<u8>] [Box<Box<i16>>]
            [HashMap<i128, u8>] [BTreeMap<String, ()>] [Vec<()>] [Vec<Ipv6Addr>] [Vec<Wrapping<u32>>] [Vec<NonZeroU16>] [Vec<SocketAddrV4>]
            [Range<char>] [RangeInclusive<u64>] [Range<(u8, u8)>] [Option<()>] [Result<(), ()>] [Wrapping<i128>]
        }
    };
}

/// Keeps the list of sequences honest: a type that is only a sequence.
#[derive(Debug, Clone, PartialEq, musli::Encode, musli::Decode)]
#[musli(transparent)]
pub struct LinkedListless(pub VecDeque<(u8, Vec<u16>)>);
sample!(LinkedListless { 0: VecDeque<(u8, Vec<u16>)> });

pub type WrapU32 = Wrapping<u32>;
pub type WrapI8 = Wrapping<i8>;
pub type BoxStr = Box<str>;
pub type CowStr = Cow<'static, str>;

/// Calls the macro with every standard type in brackets.
#[macro_export]
macro_rules! each_std {
    ($m:ident $($args:tt)*) => {
        $m! { $($args)*;
            [u8] [u16] [u32] [u64] [u128] [usize] [i8] [i16] [i32] [i64] [i128] [isize] [f32] [f64] [bool] [char] [()]
            [NonZeroU8] [NonZeroU16] [NonZeroU32] [NonZeroU64] [NonZeroU128] [NonZeroUsize]
            [NonZeroI8] [NonZeroI16] [NonZeroI32] [NonZeroI64] [NonZeroI128] [NonZeroIsize]
            [Wrapping<u32>] [Wrapping<i8>]
            [String] [Box<str>] [CString] [Box<CStr>] [Rc<CStr>] [Arc<CStr>]
            [OsString] [PathBuf] [Box<Path>] [Arc<OsStr>]
            [Box<u64>] [Rc<String>] [Arc<Vec<u8>>] [Box<[u16]>] [PhantomData<String>]
            [[u8; 0]] [[u8; 1]] [[u32; 3]] [[String; 2]] [[[u8; 2]; 3]] [[Option<u8>; 2]]
            [Vec<u8>] [Vec<u64>] [Vec<String>] [Vec<bool>] [Vec<Vec<u16>>] [Vec<Option<u32>>]
            [Vec<(u8, String)>] [Vec<PackedBitwise>] [Vec<char>] [Vec<i128>] [Vec<f32>]
            [VecDeque<u32>] [VecDeque<String>] [LinkedListless]
            [BTreeSet<u32>] [BTreeSet<String>] [HashSet<u64>] [HashSet<String>]
            [BTreeMap<String, u32>] [BTreeMap<u8, Vec<u8>>] [BTreeMap<i64, bool>] [HashMap<u32, String>]
            [HashMap<String, HashMap<String, u8>>] [BTreeMap<char, u8>] [BTreeMap<bool, u8>] [BTreeMap<u128, i128>]
            [Option<u8>] [Option<String>] [Option<Vec<u8>>] [Option<(u8, u8)>] [Option<Named2>] [Option<Box<Option1>>]
            [Result<u8, String>] [Result<(), Vec<u8>>] [Result<Result<u8, i8>, ()>]
            [(u8,)] [(u8, u16)] [(String, i8, bool)] [(u8, u16, u32, u64)] [((u8, u16), (String, f64))]
            [(u8, u16, u8, u32, u8, u64, u8, i8, i16, i32, i64, bool)]
            [Range<u32>] [RangeInclusive<i8>] [RangeFrom<u64>] [RangeTo<u16>] [RangeToInclusive<String>] [RangeFull]
            [Ipv4Addr] [Ipv6Addr] [IpAddr] [SocketAddrV4] [SocketAddrV6] [SocketAddr]
        }
    };
}
/// What the types of [`each_std`] need to have in scope.
pub mod prelude {
    pub use super::{Heap, LinkedListless, Pack};
    pub use musli::compat;
    pub use crate::zoo::{Named2, Option1, PackedBitwise};
    pub use std::borrow::Cow;
    pub use std::collections::*;
    pub use std::ffi::{CStr, CString, OsStr, OsString};
    pub use std::marker::PhantomData;
    pub use std::net::*;
    pub use std::num::*;
    pub use std::ops::*;
    pub use std::path::{Path, PathBuf};
    pub use std::rc::Rc;
    pub use std::sync::Arc;
}
