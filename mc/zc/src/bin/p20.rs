//! P20: whatever is done to a buffer, what was stored is found where its
//! reference says, aligned and padded with zeros; the buffer which grows and
//! the one which doesn't hold the same bytes.
//!
//! Every sequence of operations up to a length is run on the real buffers and
//! on a model holding the bytes expected. The global allocator gives out
//! memory which is aligned as asked for and never any better, filled with
//! rubbish, moves whatever is reallocated, and verifies that everything is
//! given back as it was taken.

use std::alloc::{GlobalAlloc, Layout, System};
use std::borrow::Cow;
use std::cell::Cell;
use std::marker::PhantomData;
use std::mem::{align_of, size_of, MaybeUninit};
use std::num::NonZeroU32;

use kit::{ensure, fail, Fp, hex, no_panic, rng, CaseResult, Check, Failure, Fam, Level};
use musli_zerocopy::buf::{aligned_buf, aligned_buf_with, StoreBuf};
use musli_zerocopy::endian::{Big, Little};
use musli_zerocopy::{Buf, ByteOrder, OwnedBuf, Ref, Size, SliceMut, ZeroCopy};

// --- The allocator ---

struct Worst;

thread_local! {
    static WRONG: Cell<Option<&'static str>> = const { Cell::new(None) };
    static LIVE: Cell<isize> = const { Cell::new(0) };
}

const MAGIC: usize = 0x5bd1_e995_97f4_a7c1;

fn wrong(what: &'static str) {
    let _ = WRONG.try_with(|w| w.set(w.get().or(Some(what))));
}

unsafe impl GlobalAlloc for Worst {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() == 0 {
            wrong("an allocation of no bytes was requested");
        }
        if !l.align().is_power_of_two() || l.size() > 1 << 32 {
            wrong("an allocation which can't be satisfied was requested");
            return std::ptr::null_mut();
        }
        let a = l.align();
        let total = l.size() + 2 * a + 32;
        let base = System.alloc(Layout::from_size_align_unchecked(total, 16));
        if base.is_null() {
            return base;
        }
        let mut at = (base as usize + 32).next_multiple_of(a);
        if at % (2 * a) == 0 {
            at += a;
        }
        let p = base.add(at - base as usize);
        p.write_bytes(0xa5, l.size());
        let head = p.sub(32).cast::<usize>();
        head.write_unaligned(l.size());
        head.add(1).write_unaligned(a);
        head.add(2).write_unaligned(base as usize);
        head.add(3).write_unaligned(MAGIC ^ p as usize);
        let _ = LIVE.try_with(|n| n.set(n.get() + 1));
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if (p as usize) < 4096 {
            wrong("memory which was never allocated was freed");
            return;
        }
        let head = p.sub(32).cast::<usize>();
        if head.add(3).read_unaligned() != MAGIC ^ p as usize {
            wrong("something which is no allocation was freed");
            return;
        }
        if head.read_unaligned() != l.size() || head.add(1).read_unaligned() != l.align() {
            wrong("memory was freed with another layout than it was allocated with");
        }
        let size = head.read_unaligned();
        let a = head.add(1).read_unaligned();
        let base = head.add(2).read_unaligned() as *mut u8;
        head.add(3).write_unaligned(0);
        p.write_bytes(0x5a, size);
        let _ = LIVE.try_with(|n| n.set(n.get() - 1));
        System.dealloc(base, Layout::from_size_align_unchecked(size + 2 * a + 32, 16));
    }
}

#[global_allocator]
static WORST: Worst = Worst;

/// The memory taken in `f` is given back as it was taken.
fn accounted<T>(f: impl FnOnce() -> Result<T, Failure>) -> Result<T, Failure> {
    WRONG.with(|w| w.set(None));
    let live = LIVE.with(|n| n.get());
    let out = f()?;
    if let Some(what) = WRONG.with(|w| w.take()) {
        fail!("{what}");
    }
    let now = LIVE.with(|n| n.get());
    ensure!(now == live, "{} allocations were not given back", now - live);
    Ok(out)
}

// --- Byte orders and sizes ---

trait Bo: ByteOrder {
    const NAME: &'static str;
    fn order(le: &[u8]) -> Vec<u8>;
}
impl Bo for Little {
    const NAME: &'static str = "Little";
    fn order(le: &[u8]) -> Vec<u8> {
        le.to_vec()
    }
}
impl Bo for Big {
    const NAME: &'static str = "Big";
    fn order(le: &[u8]) -> Vec<u8> {
        le.iter().rev().copied().collect()
    }
}

trait Sz: Size {
    const NAME: &'static str;
    const BYTES: usize;
}
macro_rules! sz {
    ($($t:ident $n:expr;)*) => {$(
        impl Sz for $t {
            const NAME: &'static str = stringify!($t);
            const BYTES: usize = $n;
        }
    )*};
}
sz!(u8 1; u16 2; u32 4; u64 8; usize 8;);

// --- Values ---

/// A value and the bytes it is stored as, determined by a seed.
trait Val: ZeroCopy {
    fn bytes(k: u8) -> Vec<u8>;
    /// Is this the value of the seed?
    fn is(&self, k: u8) -> bool;
    /// Have the value, with rubbish for its padding.
    fn with<R>(k: u8, f: impl FnOnce(&Self) -> R) -> R;
}

fn mix(k: u8, n: usize) -> Vec<u8> {
    (0..n).map(|i| k.wrapping_mul(29).wrapping_add((i as u8).wrapping_mul(7)) | 1).collect()
}

macro_rules! num {
    ($($t:ty),*) => {$(
        impl Val for $t {
            fn bytes(k: u8) -> Vec<u8> { mix(k, size_of::<$t>()) }
            fn is(&self, k: u8) -> bool { self.to_ne_bytes()[..] == Self::bytes(k)[..] }
            fn with<R>(k: u8, f: impl FnOnce(&Self) -> R) -> R {
                f(&<$t>::from_ne_bytes(Self::bytes(k).try_into().unwrap()))
            }
        }
    )*};
}
num!(u8, u16, u32, u64, u128);

impl Val for () {
    fn bytes(_: u8) -> Vec<u8> {
        Vec::new()
    }
    fn is(&self, _: u8) -> bool {
        true
    }
    fn with<R>(_: u8, f: impl FnOnce(&Self) -> R) -> R {
        f(&())
    }
}

impl<T: Val + Copy, const N: usize> Val for [T; N] {
    fn bytes(k: u8) -> Vec<u8> {
        (0..N).flat_map(|i| T::bytes(k.wrapping_add(i as u8))).collect()
    }
    fn is(&self, k: u8) -> bool {
        self.iter().enumerate().all(|(i, v)| v.is(k.wrapping_add(i as u8)))
    }
    fn with<R>(k: u8, f: impl FnOnce(&Self) -> R) -> R {
        let v = many::<T>(k, N);
        f(unsafe { &*v.as_ptr().cast::<[T; N]>() })
    }
}

/// Values side by side, their padding being rubbish.
fn many<T: Val>(k: u8, n: usize) -> Vec<MaybeUninit<T>> {
    let mut out: Vec<MaybeUninit<T>> = Vec::with_capacity(n);
    for i in 0..n {
        T::with(k.wrapping_add(i as u8), |v| unsafe {
            let at = out.as_mut_ptr().add(i);
            at.cast::<u8>().copy_from_nonoverlapping((v as *const T).cast(), size_of::<T>());
            out.set_len(i + 1);
        });
    }
    out
}

macro_rules! dirty {
    ($t:ty, $k:expr, $f:expr, $($field:ident = $v:expr),*) => {{
        let mut m = MaybeUninit::<$t>::uninit();
        unsafe {
            m.as_mut_ptr().cast::<u8>().write_bytes(0xee, size_of::<$t>());
            $( std::ptr::addr_of_mut!((*m.as_mut_ptr()).$field).write_unaligned($v); )*
            $f(&*m.as_ptr())
        }
    }};
}

fn n<T: Val + Copy>(k: u8) -> T {
    T::with(k, |v| *v)
}

/// Padding in between.
#[derive(ZeroCopy, Clone, Copy)]
#[repr(C)]
struct Gap {
    a: u8,
    b: u32,
}
impl Val for Gap {
    fn bytes(k: u8) -> Vec<u8> {
        let mut out = u8::bytes(k);
        out.extend([0; 3]);
        out.extend(u32::bytes(k));
        out
    }
    fn is(&self, k: u8) -> bool {
        self.a.is(k) && self.b.is(k)
    }
    fn with<R>(k: u8, f: impl FnOnce(&Self) -> R) -> R {
        dirty!(Gap, k, f, a = n(k), b = n(k))
    }
}

/// Padding in between and at the end, and in a field.
#[derive(ZeroCopy, Clone, Copy)]
#[repr(C)]
struct Tail {
    a: u8,
    b: u128,
    c: Gap,
    d: u16,
}
impl Val for Tail {
    fn bytes(k: u8) -> Vec<u8> {
        let mut out = u8::bytes(k);
        out.extend([0; 15]);
        out.extend(u128::bytes(k));
        out.extend(Gap::bytes(k));
        out.extend(u16::bytes(k));
        out.extend([0; 6]);
        out
    }
    fn is(&self, k: u8) -> bool {
        self.a.is(k) && self.b.is(k) && self.c.is(k) && self.d.is(k)
    }
    fn with<R>(k: u8, f: impl FnOnce(&Self) -> R) -> R {
        Gap::with(k, |g| {
            let mut m = MaybeUninit::<Tail>::uninit();
            unsafe {
                m.as_mut_ptr().cast::<u8>().write_bytes(0xee, size_of::<Tail>());
                let p = m.as_mut_ptr();
                std::ptr::addr_of_mut!((*p).a).write(n(k));
                std::ptr::addr_of_mut!((*p).b).write(n(k));
                let c = std::ptr::addr_of_mut!((*p).c).cast::<u8>();
                c.copy_from_nonoverlapping((g as *const Gap).cast(), size_of::<Gap>());
                std::ptr::addr_of_mut!((*p).d).write(n(k));
                f(&*m.as_ptr())
            }
        })
    }
}

/// Aligned by less than its fields.
#[derive(ZeroCopy, Clone, Copy)]
#[repr(C, packed(2))]
struct Pack {
    a: u8,
    b: u64,
    c: u8,
}
impl Val for Pack {
    fn bytes(k: u8) -> Vec<u8> {
        let mut out = u8::bytes(k);
        out.push(0);
        out.extend(u64::bytes(k));
        out.extend(u8::bytes(k));
        out.push(0);
        out
    }
    fn is(&self, k: u8) -> bool {
        let b = self.b;
        self.a.is(k) && b.is(k) && self.c.is(k)
    }
    fn with<R>(k: u8, f: impl FnOnce(&Self) -> R) -> R {
        dirty!(Pack, k, f, a = n(k), b = n(k), c = n(k))
    }
}

/// Padding depends on the variant.
#[derive(ZeroCopy, Clone, Copy)]
#[repr(u8)]
enum Var {
    Empty,
    Some(NonZeroU32),
    Both { a: u8, b: u64 },
}
#[repr(C)]
struct VarSome {
    tag: u8,
    a: NonZeroU32,
}
#[repr(C)]
struct VarBoth {
    tag: u8,
    a: u8,
    b: u64,
}
impl Val for Var {
    fn bytes(k: u8) -> Vec<u8> {
        let mut out = vec![k % 3, 0, 0, 0];
        match k % 3 {
            0 => out.extend([0; 12]),
            1 => {
                out.extend(u32::bytes(k));
                out.extend([0; 8]);
            }
            _ => {
                out[1] = u8::bytes(k)[0];
                out.extend([0; 4]);
                out.extend(u64::bytes(k));
            }
        }
        out
    }
    fn is(&self, k: u8) -> bool {
        match self {
            Var::Empty => k % 3 == 0,
            Var::Some(a) => k % 3 == 1 && a.get().is(k),
            Var::Both { a, b } => k % 3 == 2 && a.is(k) && b.is(k),
        }
    }
    fn with<R>(k: u8, f: impl FnOnce(&Self) -> R) -> R {
        let mut m = MaybeUninit::<Var>::uninit();
        unsafe {
            let p = m.as_mut_ptr().cast::<u8>();
            p.write_bytes(0xee, size_of::<Var>());
            p.write(k % 3);
            match k % 3 {
                0 => {}
                1 => std::ptr::addr_of_mut!((*p.cast::<VarSome>()).a).write(NonZeroU32::new(n(k)).unwrap()),
                _ => {
                    std::ptr::addr_of_mut!((*p.cast::<VarBoth>()).a).write(n(k));
                    std::ptr::addr_of_mut!((*p.cast::<VarBoth>()).b).write(n(k));
                }
            }
            f(&*m.as_ptr())
        }
    }
}

/// A reference as a value.
impl<E: Bo, O: Sz> Val for Ref<u32, E, O> {
    fn bytes(k: u8) -> Vec<u8> {
        E::order(&(k as u64 % 251).to_le_bytes()[..O::BYTES])
    }
    fn is(&self, k: u8) -> bool {
        self.offset() == k as usize % 251
    }
    fn with<R>(k: u8, f: impl FnOnce(&Self) -> R) -> R {
        f(&Ref::new(k as usize % 251))
    }
}

// --- Buffers ---

trait Kind: StoreBuf {
    fn extend(&mut self, bytes: &[u8]);
    fn more(&mut self, n: usize);
    fn request<T: ZeroCopy>(&mut self);
    fn next<T: ZeroCopy>(&mut self) -> usize;
    fn wipe(&mut self);
    fn room(&self) -> usize;
    fn requested_(&self) -> usize;
    fn is_empty_(&self) -> bool;
    fn all(&self) -> &[u8];
    fn all_mut(&mut self) -> &mut [u8];
    fn put<T: ZeroCopy>(&mut self, v: &T) -> usize;
    fn put_slice<T: ZeroCopy>(&mut self, v: &[T]) -> (usize, usize);
    fn put_str(&mut self, v: &str) -> (usize, usize);
    fn put_uninit<T: ZeroCopy>(&mut self) -> usize;
    fn init<T: Val>(&mut self, at: usize, k: u8) -> Result<(), Failure>;
    fn realign(&mut self);
    /// Continue with a clone.
    fn swap_clone(&mut self) -> Result<(), Failure>;
    /// Clone, alter the clone and drop it.
    fn lose_clone(&mut self) -> Result<(), Failure>;
    fn write(&mut self, bytes: &[u8]) -> Result<(), Failure>;
}

macro_rules! common {
    ($t:ident) => {
        fn extend(&mut self, bytes: &[u8]) {
            self.extend_from_slice(bytes)
        }
        fn more(&mut self, n: usize) {
            self.reserve(n)
        }
        fn request<T: ZeroCopy>(&mut self) {
            self.request_align::<T>()
        }
        fn next<T: ZeroCopy>(&mut self) -> usize {
            $t::next_offset::<T>(self)
        }
        fn wipe(&mut self) {
            self.clear()
        }
        fn room(&self) -> usize {
            self.capacity()
        }
        fn requested_(&self) -> usize {
            self.requested()
        }
        fn is_empty_(&self) -> bool {
            self.is_empty()
        }
        fn all(&self) -> &[u8] {
            self.as_slice()
        }
        fn all_mut(&mut self) -> &mut [u8] {
            self.as_mut_slice()
        }
        fn put<T: ZeroCopy>(&mut self, v: &T) -> usize {
            $t::store(self, v).offset()
        }
        fn put_slice<T: ZeroCopy>(&mut self, v: &[T]) -> (usize, usize) {
            let r = self.store_slice(v);
            (r.offset(), r.len())
        }
        fn put_str(&mut self, v: &str) -> (usize, usize) {
            let r = $t::store_unsized(self, v);
            (r.offset(), r.len())
        }
        fn put_uninit<T: ZeroCopy>(&mut self) -> usize {
            self.store_uninit::<T>().offset()
        }
        fn init<T: Val>(&mut self, at: usize, k: u8) -> Result<(), Failure> {
            let r = Ref::<musli_zerocopy::mem::MaybeUninit<T>, E, O>::new(at);
            let m = self.load_uninit_mut(r);
            let written = T::with(k, |v| m.write(v).to_vec());
            ensure!(written == T::bytes(k), "initializing wrote {} instead of {}", hex(&written), hex(&T::bytes(k)));
            ensure!(r.assume_init().offset() == at, "the offset changed when assumed initialized");
            Ok(())
        }
    };
}

impl<E: Bo, O: Sz> Kind for OwnedBuf<E, O> {
    common!(OwnedBuf);
    fn realign(&mut self) {
        OwnedBuf::align_in_place(self)
    }
    fn swap_clone(&mut self) -> Result<(), Failure> {
        let mut clone = self.clone();
        std::mem::swap(self, &mut clone);
        ensure!(self.as_slice() == clone.as_slice(), "the clone differs: {}", hex(self.as_slice()));
        ensure!(self.requested() == clone.requested(), "the clone requests another alignment");
        Ok(())
    }
    fn lose_clone(&mut self) -> Result<(), Failure> {
        let before = self.as_slice().to_vec();
        let mut clone = self.clone();
        for b in clone.as_mut_slice() {
            *b ^= 0xff;
        }
        clone.store(&0x55aa_u16);
        clone.align_in_place();
        ensure!(self.as_slice() == before, "altering a clone altered what was cloned");
        Ok(())
    }
    fn write(&mut self, bytes: &[u8]) -> Result<(), Failure> {
        self.extend_from_slice(bytes);
        Ok(())
    }
}

impl<E: Bo, O: Sz> Kind for SliceMut<'_, E, O> {
    common!(SliceMut);
    fn realign(&mut self) {}
    fn swap_clone(&mut self) -> Result<(), Failure> {
        Ok(())
    }
    fn lose_clone(&mut self) -> Result<(), Failure> {
        Ok(())
    }
    fn write(&mut self, bytes: &[u8]) -> Result<(), Failure> {
        self.extend_from_slice(bytes);
        Ok(())
    }
}

// --- The model ---

struct Item<E: Bo, O: Sz> {
    at: usize,
    k: u8,
    n: usize,
    size: usize,
    check: fn(&Buf, &Item<E, O>) -> Result<(), Failure>,
    of: PhantomData<(E, O)>,
}

struct Pending<B> {
    at: usize,
    k: u8,
    size: usize,
    init: fn(&mut B, usize, u8) -> Result<(), Failure>,
    bytes: fn(u8) -> Vec<u8>,
    item: usize,
}

/// What a buffer is expected to hold.
struct Model<B, E: Bo, O: Sz> {
    bytes: Vec<u8>,
    requested: usize,
    /// How much was ever needed.
    need: usize,
    items: Vec<Item<E, O>>,
    pending: Vec<Pending<B>>,
    later: Vec<Item<E, O>>,
}

impl<B, E: Bo, O: Sz> Model<B, E, O> {
    fn new(requested: usize) -> Self {
        Model { bytes: Vec::new(), requested, need: 0, items: Vec::new(), pending: Vec::new(), later: Vec::new() }
    }
    fn align(&mut self, align: usize, size: usize) {
        self.requested = self.requested.max(align);
        while self.bytes.len() % align != 0 {
            self.bytes.push(0);
        }
        self.need = self.need.max(self.bytes.len() + size);
    }
    fn place(&mut self, align: usize, bytes: &[u8]) -> usize {
        self.align(align, bytes.len());
        let at = self.bytes.len();
        self.bytes.extend_from_slice(bytes);
        at
    }
    fn cut(&mut self, len: usize) {
        self.bytes.truncate(len);
        self.items.retain(|i| i.at + i.size <= len);
        self.pending.retain(|i| i.at + i.size <= len);
    }
}

fn aligned<T>(buf: &Buf, at: usize) -> bool {
    let start = buf.get(..).unwrap().as_ptr() as usize;
    (start + at) % align_of::<T>() == 0
}

fn check_value<T: Val, E: Bo, O: Sz>(buf: &Buf, i: &Item<E, O>) -> Result<(), Failure> {
    let Item { at, k, .. } = *i;
    ensure!(at % align_of::<T>() == 0, "the value at {at} is not aligned");
    let fits = aligned::<T>(buf, at);
    match buf.load(Ref::<T, E, O>::new(at)) {
        Ok(v) => {
            ensure!(fits, "a reference to {at} was loaded although it isn't aligned");
            ensure!(v.is(k), "the value at {at} is not what was stored");
        }
        Err(e) => ensure!(!fits, "the value at {at} could not be loaded: {e}"),
    }
    match buf.load_at_unaligned::<T>(at) {
        Ok(v) => ensure!(v.is(k), "the value at {at} loaded unaligned is not what was stored"),
        Err(e) => fail!("the value at {at} could not be loaded unaligned: {e}"),
    }
    Ok(())
}

fn check_slice<T: Val, E: Bo, O: Sz>(buf: &Buf, i: &Item<E, O>) -> Result<(), Failure> {
    let Item { at, k, n, .. } = *i;
    ensure!(at % align_of::<T>() == 0, "the slice at {at} is not aligned");
    let fits = aligned::<T>(buf, at);
    match buf.load(Ref::<[T], E, O>::with_metadata(at, n)) {
        Ok(v) => {
            ensure!(fits, "a slice at {at} was loaded although it isn't aligned");
            ensure!(v.len() == n, "the slice at {at} has the length {} instead of {n}", v.len());
            for (j, v) in v.iter().enumerate() {
                ensure!(v.is(k.wrapping_add(j as u8)), "element {j} of the slice at {at} is not what was stored");
            }
        }
        Err(e) => ensure!(!fits, "the slice at {at} could not be loaded: {e}"),
    }
    Ok(())
}

const TEXT: &str = "aé日😀z";

fn check_str<E: Bo, O: Sz>(buf: &Buf, i: &Item<E, O>) -> Result<(), Failure> {
    match buf.load(Ref::<str, E, O>::with_metadata(i.at, i.n)) {
        Ok(v) => ensure!(v == &TEXT[..i.n], "the string at {} is {v:?}", i.at),
        Err(e) => fail!("the string at {} could not be loaded: {e}", i.at),
    }
    Ok(())
}

// --- Operations ---

type Op<B, E, O> = (&'static str, fn(&mut B, &mut Model<B, E, O>, u8) -> Result<(), Failure>);

fn store<T: Val, B: Kind, E: Bo, O: Sz>(b: &mut B, m: &mut Model<B, E, O>, k: u8) -> Result<(), Failure> {
    let bytes = T::bytes(k);
    let at = m.place(align_of::<T>(), &bytes);
    let got = T::with(k, |v| b.put(v));
    ensure!(got == at, "stored at {got} instead of {at}");
    m.items.push(Item { at, k, n: 0, size: bytes.len(), check: check_value::<T, E, O>, of: PhantomData });
    Ok(())
}

fn slice<T: Val, const N: usize, B: Kind, E: Bo, O: Sz>(
    b: &mut B,
    m: &mut Model<B, E, O>,
    k: u8,
) -> Result<(), Failure> {
    let bytes: Vec<u8> = (0..N).flat_map(|i| T::bytes(k.wrapping_add(i as u8))).collect();
    let at = m.place(align_of::<T>(), &bytes);
    let v = many::<T>(k, N);
    let got = b.put_slice(unsafe { std::slice::from_raw_parts(v.as_ptr().cast::<T>(), N) });
    ensure!(got == (at, N), "stored at {got:?} instead of {at} with {N} elements");
    m.items.push(Item { at, k, n: N, size: bytes.len(), check: check_slice::<T, E, O>, of: PhantomData });
    Ok(())
}

fn text<const N: usize, B: Kind, E: Bo, O: Sz>(b: &mut B, m: &mut Model<B, E, O>, k: u8) -> Result<(), Failure> {
    let at = m.place(1, TEXT[..N].as_bytes());
    let got = b.put_str(&TEXT[..N]);
    ensure!(got == (at, N), "stored at {got:?} instead of {at} with {N} bytes");
    m.items.push(Item { at, k, n: N, size: N, check: check_str::<E, O>, of: PhantomData });
    Ok(())
}

fn generic<T: Val, B: Kind, E: Bo, O: Sz>(b: &mut B, m: &mut Model<B, E, O>, k: u8) -> Result<(), Failure> {
    let bytes = T::bytes(k);
    let at = m.place(align_of::<T>(), &bytes);
    let got = T::with(k, |v| StoreBuf::store(b, v).offset());
    ensure!(got == at, "stored at {got} instead of {at} by the trait");
    m.items.push(Item { at, k, n: 0, size: bytes.len(), check: check_value::<T, E, O>, of: PhantomData });
    Ok(())
}

fn extend<const N: usize, B: Kind, E: Bo, O: Sz>(b: &mut B, m: &mut Model<B, E, O>, k: u8) -> Result<(), Failure> {
    let bytes = mix(k, N);
    m.place(1, &bytes);
    if k % 2 == 0 {
        b.extend(&bytes);
    } else {
        b.write(&bytes)?;
    }
    Ok(())
}

fn fill<const N: usize, B: Kind, E: Bo, O: Sz>(b: &mut B, m: &mut Model<B, E, O>, k: u8) -> Result<(), Failure> {
    m.place(1, &[k; N]);
    b.fill(k, N);
    Ok(())
}

fn reserve<const N: usize, B: Kind, E: Bo, O: Sz>(b: &mut B, m: &mut Model<B, E, O>, _: u8) -> Result<(), Failure> {
    m.need = m.need.max(m.bytes.len() + N);
    b.more(N);
    ensure!(b.room() >= m.bytes.len() + N, "no room for {N} more bytes after reserving it");
    Ok(())
}

fn request<T: Val, B: Kind, E: Bo, O: Sz>(b: &mut B, m: &mut Model<B, E, O>, _: u8) -> Result<(), Failure> {
    m.align(align_of::<T>(), size_of::<T>());
    b.request::<T>();
    Ok(())
}

fn next<T: Val, B: Kind, E: Bo, O: Sz>(b: &mut B, m: &mut Model<B, E, O>, k: u8) -> Result<(), Failure> {
    m.align(align_of::<T>(), size_of::<T>());
    let got = if k % 2 == 0 { b.next::<T>() } else { StoreBuf::next_offset::<T>(b) };
    ensure!(got == m.bytes.len(), "the next offset is {got} instead of {}", m.bytes.len());
    ensure!(b.room() >= got + size_of::<T>(), "no room for the value at the next offset");
    Ok(())
}

fn uninit<T: Val, B: Kind, E: Bo, O: Sz>(b: &mut B, m: &mut Model<B, E, O>, k: u8) -> Result<(), Failure> {
    let size = size_of::<T>();
    let at = m.place(align_of::<T>(), &vec![0; size]);
    let got = b.put_uninit::<T>();
    ensure!(got == at, "stored at {got} instead of {at} uninitialized");
    let item = m.later.len();
    m.later.push(Item { at, k, n: 0, size, check: check_value::<T, E, O>, of: PhantomData });
    m.pending.push(Pending { at, k, size, init: B::init::<T>, bytes: T::bytes, item });
    Ok(())
}

fn init<B: Kind, E: Bo, O: Sz>(b: &mut B, m: &mut Model<B, E, O>, k: u8) -> Result<(), Failure> {
    while let Some(p) = m.pending.pop() {
        (p.init)(b, p.at, p.k)?;
        m.bytes[p.at..][..p.size].copy_from_slice(&(p.bytes)(p.k));
        let l = &m.later[p.item];
        m.items.push(Item { at: l.at, k: l.k, n: 0, size: l.size, check: l.check, of: PhantomData });
        if k % 2 == 0 {
            break;
        }
    }
    Ok(())
}

fn clear<B: Kind, E: Bo, O: Sz>(b: &mut B, m: &mut Model<B, E, O>, _: u8) -> Result<(), Failure> {
    m.cut(0);
    b.wipe();
    Ok(())
}

fn truncate<const N: usize, B: Kind, E: Bo, O: Sz>(
    b: &mut B,
    m: &mut Model<B, E, O>,
    _: u8,
) -> Result<(), Failure> {
    let len = m.bytes.len().saturating_sub(N);
    // Nothing happens if it is shorter already.
    b.truncate(len + N + 1);
    ensure!(b.len() == m.bytes.len(), "truncating to more than there is changed the length to {}", b.len());
    m.cut(len);
    b.truncate(len);
    Ok(())
}

fn align<B: Kind, E: Bo, O: Sz>(b: &mut B, _: &mut Model<B, E, O>, _: u8) -> Result<(), Failure> {
    b.realign();
    Ok(())
}

fn clone<B: Kind, E: Bo, O: Sz>(b: &mut B, _: &mut Model<B, E, O>, _: u8) -> Result<(), Failure> {
    b.swap_clone()
}

fn lost<B: Kind, E: Bo, O: Sz>(b: &mut B, _: &mut Model<B, E, O>, _: u8) -> Result<(), Failure> {
    b.lose_clone()
}

/// Exchange the first and last value of a type.
fn swap<T: Val, B: Kind, E: Bo, O: Sz>(b: &mut B, m: &mut Model<B, E, O>, _: u8) -> Result<(), Failure>
where
    B: StoreBuf<ByteOrder = E, Size = O>,
{
    let of = check_value::<T, E, O> as fn(&Buf, &Item<E, O>) -> Result<(), Failure>;
    let at: Vec<usize> = (0..m.items.len()).filter(|i| std::ptr::fn_addr_eq(m.items[*i].check, of)).collect();
    let (Some(x), Some(y)) = (at.first(), at.last()) else {
        return Ok(());
    };
    let (p, q, size) = (m.items[*x].at, m.items[*y].at, size_of::<T>());
    if let Err(e) = StoreBuf::swap(b, Ref::<T, E, O>::new(p), Ref::<T, E, O>::new(q)) {
        fail!("exchanging {p} and {q} failed: {e}");
    }
    if x != y {
        let old = m.bytes[p..][..size].to_vec();
        m.bytes.copy_within(q..q + size, p);
        m.bytes[q..][..size].copy_from_slice(&old);
        let k = m.items[*x].k;
        m.items[*x].k = m.items[*y].k;
        m.items[*y].k = k;
    }
    // Beyond the end.
    let len = m.bytes.len();
    for at in [len + 1 - size.min(len + 1), len, usize::MAX >> (64 - 8 * O::BYTES)] {
        if at.saturating_add(size) > len {
            ensure!(
                StoreBuf::swap(b, Ref::<T, E, O>::new(p), Ref::<T, E, O>::new(at)).is_err(),
                "exchanged {p} with {at} in {len} bytes"
            );
        }
    }
    Ok(())
}

/// Change the last value of a type in place.
fn change<T: Val + Copy, B: Kind, E: Bo, O: Sz>(b: &mut B, m: &mut Model<B, E, O>, k: u8) -> Result<(), Failure> {
    let of = check_value::<T, E, O> as fn(&Buf, &Item<E, O>) -> Result<(), Failure>;
    let Some(i) = (0..m.items.len()).rev().find(|i| std::ptr::fn_addr_eq(m.items[*i].check, of)) else {
        return Ok(());
    };
    let at = m.items[i].at;
    let fits = aligned::<T>(b.as_buf(), at);
    match b.as_mut_buf().load_mut(Ref::<T, E, O>::new(at)) {
        Ok(v) => {
            ensure!(fits, "loaded {at} mutably although it isn't aligned");
            *v = n(k);
            m.bytes[at..][..size_of::<T>()].copy_from_slice(&T::bytes(k));
            m.items[i].k = k;
        }
        Err(e) => ensure!(!fits, "could not load {at} mutably: {e}"),
    }
    Ok(())
}

/// Bytes are changed in place.
fn poke<B: Kind, E: Bo, O: Sz>(b: &mut B, m: &mut Model<B, E, O>, k: u8) -> Result<(), Failure> {
    // Only where no value is.
    let len = m.bytes.len();
    let at = (0..len).rev().find(|at| {
        !m.items.iter().any(|i| (i.at..i.at + i.size).contains(at))
            && !m.pending.iter().any(|i| (i.at..i.at + i.size).contains(at))
    });
    if let Some(at) = at {
        m.bytes[at] = k;
        b.all_mut()[at] = k;
    }
    Ok(())
}

/// The operations, the more important ones first.
fn ops<B: Kind, E: Bo, O: Sz>() -> Vec<Op<B, E, O>>
where
    B: StoreBuf<ByteOrder = E, Size = O>,
{
    vec![
        ("u8", store::<u8, B, E, O>),
        ("u128", store::<u128, B, E, O>),
        ("Gap", store::<Gap, B, E, O>),
        ("[u16; 3]", slice::<u16, 3, B, E, O>),
        ("extend 1", extend::<1, B, E, O>),
        ("align_in_place", align::<B, E, O>),
        ("clear", clear::<B, E, O>),
        ("clone", clone::<B, E, O>),
        ("u64", store::<u64, B, E, O>),
        ("reserve 100", reserve::<100, B, E, O>),
        ("Tail", store::<Tail, B, E, O>),
        ("uninit Gap", uninit::<Gap, B, E, O>),
        ("init", init::<B, E, O>),
        ("swap Gap", swap::<Gap, B, E, O>),
        ("request u64", request::<u64, B, E, O>),
        // From here on only in shorter histories.
        ("u16", store::<u16, B, E, O>),
        ("u32", store::<u32, B, E, O>),
        ("()", store::<(), B, E, O>),
        ("[u64; 0]", store::<[u64; 0], B, E, O>),
        ("[u8; 33]", store::<[u8; 33], B, E, O>),
        ("[Gap; 2]", store::<[Gap; 2], B, E, O>),
        ("Pack", store::<Pack, B, E, O>),
        ("Var", store::<Var, B, E, O>),
        ("Ref", store::<Ref<u32, E, O>, B, E, O>),
        ("trait u32", generic::<u32, B, E, O>),
        ("trait Tail", generic::<Tail, B, E, O>),
        ("slice of no u128", slice::<u128, 0, B, E, O>),
        ("slice of one u128", slice::<u128, 1, B, E, O>),
        ("slice of Gap", slice::<Gap, 2, B, E, O>),
        ("slice of Tail", slice::<Tail, 2, B, E, O>),
        ("slice of Pack", slice::<Pack, 3, B, E, O>),
        ("slice of Var", slice::<Var, 3, B, E, O>),
        ("slice of ()", slice::<(), 3, B, E, O>),
        ("str", text::<11, B, E, O>),
        ("no str", text::<0, B, E, O>),
        ("extend 0", extend::<0, B, E, O>),
        ("extend 9", extend::<9, B, E, O>),
        ("fill", fill::<3, B, E, O>),
        ("reserve 0", reserve::<0, B, E, O>),
        ("reserve 1", reserve::<1, B, E, O>),
        ("request u8", request::<u8, B, E, O>),
        ("request Tail", request::<Tail, B, E, O>),
        ("next u16", next::<u16, B, E, O>),
        ("next u128", next::<u128, B, E, O>),
        ("uninit Var", uninit::<Var, B, E, O>),
        ("uninit u128", uninit::<u128, B, E, O>),
        ("truncate 1", truncate::<1, B, E, O>),
        ("truncate 8", truncate::<8, B, E, O>),
        ("lost clone", lost::<B, E, O>),
        ("swap u16", swap::<u16, B, E, O>),
        ("swap Tail", swap::<Tail, B, E, O>),
        ("change u64", change::<u64, B, E, O>),
        ("poke", poke::<B, E, O>),
    ]
}

const SHORT: usize = 15;

fn same<B: Kind, E: Bo, O: Sz>(b: &B, m: &Model<B, E, O>) -> Result<(), Failure> {
    ensure!(b.all() == m.bytes, "the buffer holds\n{}\ninstead of\n{}", hex(b.all()), hex(&m.bytes));
    ensure!(b.len() == m.bytes.len(), "the length is {} instead of {}", b.len(), m.bytes.len());
    ensure!(b.is_empty_() == m.bytes.is_empty(), "empty: {}", b.is_empty_());
    ensure!(b.room() >= b.len(), "the capacity of {} is less than the length of {}", b.room(), b.len());
    ensure!(b.requested_() == m.requested, "the alignment requested is {} instead of {}", b.requested_(), m.requested);
    ensure!(b.as_buf().get(..) == Some(&m.bytes[..]), "the buffer seen by the trait differs");
    for i in &m.items {
        (i.check)(b.as_buf(), i)?;
    }
    Ok(())
}

// --- Histories of the buffer which grows ---

type Start = (&'static str, usize, fn() -> OwnedBuf);

fn starts() -> Vec<Start> {
    vec![
        ("new", align_of::<usize>(), OwnedBuf::new),
        ("capacity 3", align_of::<usize>(), || OwnedBuf::with_capacity(3)),
        ("capacity 64", align_of::<usize>(), || OwnedBuf::with_capacity(64)),
        ("capacity 0", align_of::<usize>(), || OwnedBuf::with_capacity(0)),
        ("alignment 1", 1, OwnedBuf::with_alignment::<()>),
        ("alignment 2", 2, OwnedBuf::with_alignment::<u16>),
        ("alignment 16", 16, OwnedBuf::with_alignment::<u128>),
        ("alignment 1, capacity 5", 1, || OwnedBuf::with_capacity_and_alignment::<u8>(5)),
        ("alignment 1, capacity 48", 1, || OwnedBuf::with_capacity_and_alignment::<u8>(48)),
        ("alignment 16, capacity 5", 16, || OwnedBuf::with_capacity_and_alignment::<u128>(5)),
    ]
}

fn owned_case<E: Bo, O: Sz>(start: &Start, ops: &[Op<OwnedBuf<E, O>, E, O>], seq: &[usize]) -> CaseResult {
    accounted(|| {
        let mut b = start.2().with_byte_order::<E>().with_size::<O>();
        let mut m = Model::<_, E, O>::new(start.1);
        ensure!(b.requested() == start.1 && b.is_empty(), "the buffer begins with {} requested", b.requested());
        for (i, op) in seq.iter().enumerate() {
            (ops[*op].1)(&mut b, &mut m, i as u8 + 1)?;
        }
        same(&b, &m)?;
        b.align_in_place();
        let at = b.as_slice().as_ptr() as usize;
        ensure!(at % m.requested == 0, "after aligning in place, {at:#x} isn't aligned by {}", m.requested);
        same(&b, &m)?;
        for i in &m.items {
            ensure!((at + i.at) % 16 == i.at % 16 || m.requested < 16, "the value at {} isn't aligned", i.at);
        }
        let power = b.alignment();
        ensure!(power.is_power_of_two() && at % power == 0 && at % (power * 2) != 0, "the alignment is {power}");
        ensure!(b.is_aligned_with(m.requested), "not aligned with what was requested");
        let mut h = Fp::new().bytes(b.as_slice()).u64(m.requested as u64);
        for i in &m.items {
            h = h.u64(i.at as u64).u64(i.k as u64);
        }
        Ok(h.done())
    })
}

fn named<B, E: Bo, O: Sz>(ops: &[Op<B, E, O>], seq: &[usize]) -> String {
    seq.iter().map(|i| ops[*i].0).collect::<Vec<_>>().join(", ")
}

fn owned<E: Bo, O: Sz>(fam: &mut Fam, depth: usize, short: bool) {
    let mut ops = ops::<OwnedBuf<E, O>, E, O>();
    if short {
        ops.truncate(SHORT);
    }
    for start in &starts() {
        rng::sequences(ops.len(), depth, |seq| {
            if fam.stopped() {
                return;
            }
            if fam.peek_mine() {
                fam.count_transitions(seq.len() as u64);
            }
            fam.case(
                || format!("{} {} {}: {}", E::NAME, O::NAME, start.0, named(&ops, seq)),
                || owned_case(start, &ops, seq),
            );
        });
    }
}

// --- Histories of the buffer which doesn't grow ---

const FENCE: usize = 64;

fn slice_case<E: Bo, O: Sz>(
    requested: usize,
    skew: usize,
    ops: &[Op<SliceMut<'static, E, O>, E, O>],
    seq: &[usize],
) -> CaseResult {
    // How much is needed is known once it is done with enough room.
    let open = |memory: &mut [u8]| -> SliceMut<'static, E, O> {
        // The memory outlives every use of the buffer below.
        let memory: &'static mut [u8] = unsafe { std::slice::from_raw_parts_mut(memory.as_mut_ptr(), memory.len()) };
        let s = match requested {
            1 => SliceMut::with_alignment::<u8>(memory),
            8 => SliceMut::new(memory),
            _ => SliceMut::with_alignment::<u128>(memory),
        };
        s.with_byte_order::<E>().with_size::<O>()
    };
    #[repr(align(16))]
    struct Memory([u8; 1024]);
    accounted(|| {
        let mut needs = Vec::new();
        let mut states = vec![Vec::new()];
        let mut memory = Box::new(Memory([0xc3; 1024]));
        let mut m;
        {
            let mut b = open(&mut memory.0[FENCE + skew..][..800]);
            m = Model::<_, E, O>::new(requested);
            for (i, op) in seq.iter().enumerate() {
                (ops[*op].1)(&mut b, &mut m, i as u8 + 1)?;
                needs.push(m.need);
                states.push(m.bytes.clone());
            }
            same(&b, &m)?;
            ensure!(b.capacity() == 800, "the capacity changed to {}", b.capacity());
            let again = b.to_requested();
            ensure!(again.is_aligned_with(m.requested), "to_requested did not align");
            ensure!(again.get(..) == Some(&m.bytes[..]), "to_requested differs");
        }
        let need = m.need;
        // Exactly enough.
        memory.0.fill(0xc3);
        {
            let mut b = open(&mut memory.0[FENCE + skew..][..need]);
            let mut m = Model::<_, E, O>::new(requested);
            for (i, op) in seq.iter().enumerate() {
                match no_panic(|| (ops[*op].1)(&mut b, &mut m, i as u8 + 1)) {
                    Ok(r) => r?,
                    Err(e) => fail!("{} panicked with the {need} bytes needed: {e}", ops[*op].0),
                }
            }
            same(&b, &m)?;
        }
        let outside = |memory: &Memory, room: usize| {
            memory.0[..FENCE + skew].iter().chain(&memory.0[FENCE + skew + room..]).all(|b| *b == 0xc3)
        };
        ensure!(outside(&memory, need), "written outside of the slice");
        // One less.
        if need > 0 {
            memory.0.fill(0xc3);
            let first = needs.iter().position(|n| *n == need).unwrap();
            let mut b = open(&mut memory.0[FENCE + skew..][..need - 1]);
            let mut m = Model::<_, E, O>::new(requested);
            for (i, op) in seq[..first].iter().enumerate() {
                (ops[*op].1)(&mut b, &mut m, i as u8 + 1)?;
            }
            let out = no_panic(|| (ops[seq[first]].1)(&mut b, &mut m, first as u8 + 1));
            ensure!(out.is_err(), "{} did not panic with one byte less than needed", ops[seq[first]].0);
            let before = &states[first];
            ensure!(
                b.as_slice().starts_with(before) && b.as_slice()[before.len()..].iter().all(|b| *b == 0),
                "{} left {} instead of {}",
                ops[seq[first]].0,
                hex(b.as_slice()),
                hex(before)
            );
            ensure!(b.len() < need, "the buffer claims more than it has");
            drop(b);
            ensure!(outside(&memory, need - 1), "written outside of the slice when there is too little room");
        }
        Ok(Fp::new().bytes(&m.bytes).u64(m.requested as u64).u64(skew as u64).u64(seq.len() as u64).done())
    })
}

fn slices<E: Bo, O: Sz>(fam: &mut Fam, depth: usize, skews: &[usize], short: bool) {
    let mut ops = ops::<SliceMut<'static, E, O>, E, O>();
    if short {
        ops.truncate(SHORT);
    }
    // What a slice doesn't do.
    ops.retain(|(name, _)| !["align_in_place", "clone", "lost clone"].contains(name));
    for requested in [1, 8, 16] {
        for skew in skews {
            rng::sequences(ops.len(), depth, |seq| {
                if fam.stopped() {
                    return;
                }
                if fam.peek_mine() {
                    fam.count_transitions(seq.len() as u64);
                }
                fam.case(
                    || {
                        let (e, o) = (E::NAME, O::NAME);
                        format!("{e} {o} alignment {requested} at {skew}: {}", named(&ops, seq))
                    },
                    || slice_case(requested, *skew, &ops, seq),
                );
            });
        }
    }
}

// --- Copies ---

fn copies(fam: &mut Fam) {
    #[repr(align(64))]
    struct Memory([u8; 256]);
    for skew in 0..64usize {
        for len in (0..=20).chain([31, 32, 33, 64, 65]) {
            for align in [1, 2, 4, 8, 16, 32, 64, 128, 4096] {
                fam.case(
                    || format!("{len} bytes at {skew} aligned by {align}"),
                    || {
                        let mut memory = Box::new(Memory([0; 256]));
                        for (i, b) in memory.0.iter_mut().enumerate() {
                            *b = i as u8 ^ 0x6d;
                        }
                        let bytes = &memory.0[skew..][..len];
                        let at = bytes.as_ptr() as usize;
                        accounted(|| {
                            let buf = Buf::new(bytes);
                            let fits = at % align == 0;
                            ensure!(buf.is_aligned_with(align) == fits, "aligned: {}", !fits);
                            for copy in [buf.to_aligned_with(align), aligned_buf_with(bytes, align)] {
                                ensure!(
                                    matches!(copy, Cow::Borrowed(_)) == fits,
                                    "copied although aligned, or the reverse"
                                );
                                ensure!(copy.is_aligned_with(align), "the copy isn't aligned");
                                ensure!(copy.get(..) == Some(bytes), "the copy differs");
                                let own = copy.into_owned();
                                ensure!(own.as_slice() == bytes, "the owned copy differs");
                            }
                            macro_rules! of {
                                ($($t:ty)*) => {$(
                                    if align == align_of::<$t>() {
                                        ensure!(buf.is_aligned::<$t>() == fits, "aligned for the type: {}", !fits);
                                        for copy in [buf.to_aligned::<$t>(), aligned_buf::<$t>(bytes)] {
                                            ensure!(matches!(copy, Cow::Borrowed(_)) == fits, "copied by type although aligned, or the reverse");
                                            ensure!(copy.is_aligned::<$t>() && copy.get(..) == Some(bytes), "the copy by type differs");
                                        }
                                        let both = fits && len >= size_of::<$t>();
                                        ensure!(buf.is_compatible_with::<$t>() == both, "compatible: {}", !both);
                                        ensure!(buf.ensure_compatible_with::<$t>().is_ok() == both, "compatible: {}", !both);
                                        ensure!(buf.validate_struct::<$t>().is_ok() == both, "validates: {}", !both);
                                    }
                                )*};
                            }
                            of!(u8 u16 u32 u64 u128 Gap Tail Pack Var [u8; 9]);
                            let own = buf.to_owned();
                            ensure!(own.as_slice() == bytes, "to_owned differs");
                            ensure!(
                                own.is_aligned_with(buf.alignment().min(4096)),
                                "to_owned isn't aligned like what is copied"
                            );
                            ensure!(buf.len() == len && buf.is_empty() == (len == 0), "the length differs");
                            Ok(Fp::new().bytes(bytes).u64(align as u64).u64(fits as u64).u64(skew as u64).done())
                        })
                    },
                );
            }
        }
    }
}

// --- Growth ---

/// A buffer growing far keeps its contents, and takes few steps to do so.
fn growth(fam: &mut Fam) {
    for (start, step) in [(0usize, 1usize), (0, 3), (0, 7), (1, 16), (5, 1), (100, 33), (0, 1000)] {
        for align in [1usize, 16] {
            let total = fam.bound(20_000, 400_000);
            fam.case(
                || format!("from {start} by {step} aligned by {align}"),
                || {
                    accounted(|| {
                        let mut b = match align {
                            1 => OwnedBuf::with_capacity_and_alignment::<u8>(start),
                            _ => OwnedBuf::with_capacity_and_alignment::<u128>(start),
                        };
                        let mut expected: Vec<u8> = Vec::new();
                        let mut moves = 0;
                        let mut last = b.capacity();
                        let mut k = 0u8;
                        while expected.len() < total {
                            k = k.wrapping_add(1);
                            let bytes = mix(k, step);
                            b.extend_from_slice(&bytes);
                            expected.extend_from_slice(&bytes);
                            ensure!(b.capacity() >= b.len(), "less capacity than length");
                            if b.capacity() != last {
                                ensure!(b.capacity() > last, "the capacity shrank");
                                last = b.capacity();
                                moves += 1;
                                ensure!(b.as_slice() == expected, "contents changed when growing to {last}");
                            }
                        }
                        ensure!(b.as_slice() == expected, "contents changed");
                        ensure!(moves < 60, "{moves} reallocations");
                        b.align_in_place();
                        ensure!(b.as_slice() == expected, "contents changed when aligned");
                        Ok(Fp::new().u64(moves).u64(expected.len() as u64).u64(step as u64).u64(align as u64).done())
                    })
                },
            );
        }
    }
}

macro_rules! every {
    ($f:ident($($a:expr),*)) => {{
        every!(@ Little $f($($a),*));
        every!(@ Big $f($($a),*));
    }};
    (@ $e:ident $f:ident($($a:expr),*)) => {{
        $f::<$e, u8>($($a),*);
        $f::<$e, u16>($($a),*);
        $f::<$e, u32>($($a),*);
        $f::<$e, u64>($($a),*);
        $f::<$e, usize>($($a),*);
    }};
}

fn main() {
    let mut c = Check::new(
        "P20",
        Level::Exploration,
        "distinct by the bytes, alignments and values left by the history",
    );
    c.assume("the global allocator of the check gives out memory aligned as requested and no better");
    c.assume("histories keep offsets below 256, so that they fit every size of references");
    c.fam_sharded("owned", 16, |fam| {
        let depth = fam.bound(3, 4);
        owned::<Little, u32>(fam, depth, false);
    });
    c.fam_sharded("owned/deep", 16, |fam| {
        let depth = fam.bound(5, 6);
        owned::<Big, usize>(fam, depth, true);
    });
    c.fam_sharded("owned/orders", 8, |fam| {
        let depth = fam.bound(2, 3);
        every!(owned(fam, depth, false));
    });
    c.fam_sharded("slice", 16, |fam| {
        let depth = fam.bound(2, 3);
        let skews: &[usize] = if fam.quick() { &[0, 1, 8] } else { &[0, 1, 2, 4, 7, 8, 15] };
        slices::<Little, u32>(fam, depth, skews, false);
    });
    c.fam_sharded("slice/deep", 16, |fam| {
        let depth = fam.bound(3, 4);
        slices::<Big, u16>(fam, depth, &[0, 1], true);
    });
    c.fam_sharded("slice/orders", 8, |fam| {
        let depth = fam.bound(1, 2);
        every!(slices(fam, depth, &[0, 3], false));
    });
    c.fam("copies", copies);
    c.fam("growth", growth);
    c.run();
}
