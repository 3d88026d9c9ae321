//! P15: Vec, String and Box on any allocator behave like those of std.
//!
//! Every sequence of operations up to a depth is played on the musli types and
//! on those of std, with a ledger of every element ever made.

use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::fmt::Write as _;

use kit::guard::GuardBuf;
use kit::*;
use musli::alloc::{Alloc, AllocError, Allocator, Box as MBox, Disabled, Slice, String as MString, System, Vec as MVec};
use musli::{Decode, Encode};

kit::global_allocator!();

// Ledger of elements.

const IDS: usize = 512;

thread_local! {
    static NEXT: Cell<usize> = const { Cell::new(0) };
    /// How often each was dropped.
    static DROPPED: RefCell<[u8; IDS]> = const { RefCell::new([0; IDS]) };
    static ALIVE: Cell<isize> = const { Cell::new(0) };
    static BAD: Cell<Option<&'static str>> = const { Cell::new(None) };
    /// The element which panics when it is dropped.
    static PANIC: Cell<usize> = const { Cell::new(usize::MAX) };
}

fn ledger_reset() {
    NEXT.set(0);
    ALIVE.set(0);
    BAD.set(None);
    PANIC.set(usize::MAX);
    DROPPED.with_borrow_mut(|d| d.fill(0));
}

fn made() -> usize {
    let id = NEXT.get();
    NEXT.set(id + 1);
    ALIVE.set(ALIVE.get() + 1);
    id
}

fn dropped(id: usize) {
    ALIVE.set(ALIVE.get() - 1);
    let n = DROPPED.with_borrow_mut(|d| {
        d[id % IDS] += 1;
        d[id % IDS]
    });
    if id >= NEXT.get() {
        BAD.set(Some("dropped an element that was never made"));
    } else if n != 1 {
        BAD.set(Some("dropped an element twice"));
    }
    if PANIC.get() == id {
        PANIC.set(usize::MAX);
        panic!("dropped");
    }
}

fn ledger(alive: usize) -> Result<(), Failure> {
    if let Some(b) = BAD.get() {
        fail!("{b}");
    }
    ensure!(ALIVE.get() == alive as isize, "{} elements are alive which should be {alive}", ALIVE.get());
    Ok(())
}

/// An element, which is identified.
trait Elem: Sized + Ord + std::fmt::Debug + 'static {
    /// Can it tell which it is.
    const TELLS: bool;
    const TRACKED: bool;
    fn make() -> Self;
    fn id(&self) -> usize;
    fn extend_from_slice<A: Allocator>(_: &mut MVec<Self, A>, _: &[Self]) -> Option<Result<(), AllocError>> {
        None
    }
    fn extend<A: Allocator>(_: &mut MVec<Self, A>, v: MVec<Self, A>) -> Result<Result<(), AllocError>, MVec<Self, A>> {
        Err(v)
    }
}

macro_rules! by_id {
    ($t:ty) => {
        impl PartialEq for $t {
            fn eq(&self, o: &Self) -> bool { self.id() == o.id() }
        }
        impl Eq for $t {}
        impl PartialOrd for $t {
            fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) }
        }
        impl Ord for $t {
            fn cmp(&self, o: &Self) -> Ordering { self.id().cmp(&o.id()) }
        }
        impl std::fmt::Debug for $t {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "#{}", self.id()) }
        }
    };
}

macro_rules! tracked {
    ($(#[$m:meta])* $t:ident $body:tt $make:expr, $id:expr) => {
        $(#[$m])*
        struct $t $body
        by_id!($t);
        impl Drop for $t {
            fn drop(&mut self) { let id: fn(&$t) -> usize = $id; dropped(id(self)); }
        }
        impl Elem for $t {
            const TELLS: bool = true;
            const TRACKED: bool = true;
            fn make() -> Self { let m: fn(usize) -> $t = $make; m(made()) }
            fn id(&self) -> usize { let id: fn(&$t) -> usize = $id; id(self) }
        }
    };
}

tracked!(Small { id: u8 } |id| Small { id: id as u8 }, |v| v.id as usize);
tracked!(Large { id: u64, not: u64, more: [u8; 9] } |id| Large { id: id as u64, not: !(id as u64), more: [id as u8; 9] },
    |v| if v.not == !v.id && v.more == [v.id as u8; 9] { v.id as usize } else { usize::MAX });
tracked!(#[repr(align(64))] Wide { id: u8 } |id| Wide { id: id as u8 }, |v| v.id as usize);

macro_rules! zero {
    ($(#[$m:meta])* $t:ident) => {
        $(#[$m])*
        struct $t;
        impl PartialEq for $t { fn eq(&self, _: &Self) -> bool { true } }
        impl Eq for $t {}
        impl PartialOrd for $t { fn partial_cmp(&self, _: &Self) -> Option<Ordering> { Some(Ordering::Equal) } }
        impl Ord for $t { fn cmp(&self, _: &Self) -> Ordering { Ordering::Equal } }
        impl std::fmt::Debug for $t {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("#0") }
        }
        impl Drop for $t {
            fn drop(&mut self) {
                if (self as *const Self) as usize % align_of::<Self>() != 0 { BAD.set(Some("not aligned")); }
                ALIVE.set(ALIVE.get() - 1);
            }
        }
        impl Elem for $t {
            const TELLS: bool = false;
            const TRACKED: bool = true;
            fn make() -> Self { made(); $t }
            fn id(&self) -> usize { 0 }
        }
    };
}
zero!(Zero);
zero!(#[repr(align(32))] ZeroWide);

macro_rules! copied {
    ($t:ty, $tells:expr, $make:expr, $id:expr) => {
        impl Elem for $t {
            const TELLS: bool = $tells;
            const TRACKED: bool = false;
            fn make() -> Self { let m: fn(usize) -> $t = $make; let id = NEXT.get(); NEXT.set(id + 1); m(id) }
            fn id(&self) -> usize { let id: fn(&$t) -> usize = $id; id(self) }
            fn extend_from_slice<A: Allocator>(v: &mut MVec<Self, A>, s: &[Self]) -> Option<Result<(), AllocError>> { Some(v.extend_from_slice(s)) }
            fn extend<A: Allocator>(v: &mut MVec<Self, A>, o: MVec<Self, A>) -> Result<Result<(), AllocError>, MVec<Self, A>> { Ok(v.extend(o)) }
        }
    };
}
#[derive(Clone, Copy)]
#[repr(C, align(16))]
struct Quad([u8; 16]);
by_id!(Quad);
copied!(u8, true, |id| id as u8, |v| *v as usize);
copied!(u32, true, |id| id as u32, |v| *v as usize);
copied!((), false, |_| (), |_| 0);
copied!(Quad, true, |id| Quad([id as u8; 16]), |v| if v.0 == [v.0[0]; 16] { v.0[0] as usize } else { usize::MAX });

/// What only applies to some of the allocators.
trait Alc: Allocator + 'static {
    /// May requests fail.
    const FAILS: bool;
    /// Nothing can be allocated at all.
    const NEVER: bool = false;
    fn from_std<T>(v: Vec<T>) -> Result<MVec<T, Self>, Vec<T>> {
        Err(v)
    }
}
impl Alc for System {
    const FAILS: bool = false;
    fn from_std<T>(v: Vec<T>) -> Result<MVec<T, Self>, Vec<T>> {
        Ok(v.into())
    }
}
impl Alc for &'static Slice<'static> {
    const FAILS: bool = true;
}
impl Alc for Disabled {
    const FAILS: bool = true;
    const NEVER: bool = true;
}

/// An allocator that forwards to the system allocator, which never merges
/// and knows nothing of the system, and which keeps count.
#[derive(Clone, Copy)]
struct Plain;

thread_local! {
    static HANDLES: Cell<isize> = const { Cell::new(0) };
}

struct PlainAlloc<T>(<System as Allocator>::Alloc<T>);
impl<T> Drop for PlainAlloc<T> {
    fn drop(&mut self) {
        HANDLES.set(HANDLES.get() - 1);
    }
}
impl<T> Alloc<T> for PlainAlloc<T> {
    fn as_ptr(&self) -> *const T {
        self.0.as_ptr()
    }
    fn as_mut_ptr(&mut self) -> *mut T {
        self.0.as_mut_ptr()
    }
    fn capacity(&self) -> usize {
        self.0.capacity()
    }
    fn resize(&mut self, len: usize, additional: usize) -> Result<(), AllocError> {
        self.0.resize(len, additional)
    }
    fn try_merge<B: Alloc<T>>(&mut self, _: usize, other: B, _: usize) -> Result<(), B> {
        Err(other)
    }
}
unsafe impl Allocator for Plain {
    const IS_SYSTEM: bool = false;
    type Alloc<T> = PlainAlloc<T>;
    fn alloc<T>(self, value: T) -> Result<Self::Alloc<T>, AllocError> {
        let a = System::new().alloc(value)?;
        HANDLES.set(HANDLES.get() + 1);
        Ok(PlainAlloc(a))
    }
    fn alloc_empty<T>(self) -> Self::Alloc<T> {
        HANDLES.set(HANDLES.get() + 1);
        PlainAlloc(System::new().alloc_empty())
    }
}
impl Alc for Plain {
    const FAILS: bool = true;
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Push(usize),
    Pop(usize),
    Clear(usize),
    Reserve(usize, usize),
    Huge(usize),
    New(usize),
    WithCapacity(usize, usize),
    Raw(usize),
    Std(usize),
    FromStd(usize),
    Reverse(usize),
    Extend(usize),
    ExtendSlice(usize, usize),
    Box,
    Unbox,
    Replace,
}

fn ops(copy: bool, both: bool) -> Vec<Op> {
    use Op::*;
    let mut v = Vec::new();
    for i in 0..1 + usize::from(both) {
        v.extend([Push(i), Pop(i), Clear(i), Reserve(i, 1), Reserve(i, 6), Huge(i), New(i), WithCapacity(i, 3), Raw(i), Std(i), FromStd(i), Reverse(i)]);
        if copy {
            v.extend([ExtendSlice(i, 0), ExtendSlice(i, 1), ExtendSlice(i, 5)]);
            if both {
                v.push(Extend(i));
            }
        }
    }
    v.extend([Box, Unbox, Replace]);
    v
}

struct World<T: Elem, A: Alc> {
    a: A,
    vecs: [MVec<T, A>; 2],
    models: [Vec<usize>; 2],
    boxed: Option<MBox<T, A>>,
    box_model: Option<usize>,
}

impl<T: Elem, A: Alc> World<T, A> {
    fn new(a: A) -> Self {
        World { a, vecs: [MVec::new_in(a), MVec::new_in(a)], models: [vec![], vec![]], boxed: None, box_model: None }
    }

    fn may_fail(&self, injected: bool) -> bool {
        (A::FAILS || injected) && (A::NEVER || size_of::<T>() != 0)
    }

    /// Apply an operation; whether it succeeded.
    fn apply(&mut self, op: Op, injected: bool) -> Result<bool, Failure> {
        use kit::alloc::armed;
        let a = self.a;
        let mut ok = true;
        // An operation which may only fail for lack of memory.
        let mut outcome = |this: &Self, r: Result<(), AllocError>| -> Result<bool, Failure> {
            ok = r.is_ok();
            ensure!(ok || this.may_fail(injected), "failed");
            Ok(ok)
        };
        match op {
            Op::Push(i) => {
                let v = T::make();
                let id = v.id();
                let r = armed(|| self.vecs[i].push(v));
                if outcome(self, r)? {
                    self.models[i].push(id);
                }
            }
            Op::Pop(i) => {
                let r = self.vecs[i].pop();
                let m = self.models[i].pop();
                ensure!(r.as_ref().map(T::id) == m, "popped {r:?} instead of {m:?}");
            }
            Op::Clear(i) => {
                let c = self.vecs[i].capacity();
                self.vecs[i].clear();
                self.models[i].clear();
                ensure!(self.vecs[i].capacity() == c, "clear changed the capacity");
            }
            Op::Reserve(i, n) => {
                let r = armed(|| self.vecs[i].reserve(n));
                if outcome(self, r)? {
                    let (c, l) = (self.vecs[i].capacity(), self.models[i].len());
                    ensure!(c >= l + n, "capacity is {c} after reserving {n} with length {l}");
                }
            }
            Op::Huge(i) => {
                let (c, l) = (self.vecs[i].capacity(), self.models[i].len());
                let most = if size_of::<T>() == 0 { usize::MAX } else { usize::MAX / size_of::<T>() };
                for n in [usize::MAX, usize::MAX - l, most, most / 2, (most / 2).saturating_add(1), most - l] {
                    // Nothing is allocated for what takes up no room.
                    let r = armed(|| self.vecs[i].reserve(n));
                    ensure!(r.is_err() || size_of::<T>() == 0, "room for {n} more was reserved");
                    let r = armed(|| MVec::<T, A>::with_capacity_in(n, a));
                    ensure!(r.is_err() || size_of::<T>() == 0, "room for {n} was reserved");
                }
                ensure!(self.vecs[i].capacity() >= c.min(l), "the capacity shrank");
            }
            Op::New(i) => {
                self.vecs[i] = MVec::new_in(a);
                self.models[i].clear();
            }
            Op::WithCapacity(i, n) => match armed(|| MVec::with_capacity_in(n, a)) {
                Ok(v) => {
                    ensure!(v.capacity() >= n && v.is_empty(), "capacity {} and length {} instead of capacity {n}", v.capacity(), v.len());
                    self.vecs[i] = v;
                    self.models[i].clear();
                }
                Err(e) => drop(outcome(self, Err(e))?),
            },
            Op::Raw(i) => {
                let v = std::mem::replace(&mut self.vecs[i], MVec::new_in(a));
                let (buf, len) = v.into_raw_parts();
                ensure!(buf.capacity() >= len && len == self.models[i].len(), "length {len} of {} in raw parts", buf.capacity());
                self.vecs[i] = MVec::from_raw_parts(buf, len);
            }
            Op::Std(i) => {
                let v = std::mem::replace(&mut self.vecs[i], MVec::new_in(a));
                match v.into_std() {
                    Ok(mut v) => {
                        ensure!(A::IS_SYSTEM, "became a vector of std");
                        ensure!(v.iter().map(T::id).eq(self.models[i].iter().copied()), "became {v:?}");
                        // It must be one that std can work with.
                        v.push(T::make());
                        self.models[i].push(v.last().unwrap().id());
                        v.shrink_to_fit();
                        match A::from_std(v) {
                            Ok(v) => self.vecs[i] = v,
                            Err(v) => {
                                drop(v);
                                self.models[i].clear();
                            }
                        }
                    }
                    Err(v) => {
                        ensure!(!A::IS_SYSTEM, "did not become a vector of std");
                        self.vecs[i] = v;
                    }
                }
            }
            Op::FromStd(i) => {
                if A::IS_SYSTEM {
                    let mut v = Vec::with_capacity(2);
                    v.push(T::make());
                    let ids = v.iter().map(T::id).collect();
                    if let Ok(v) = A::from_std(v) {
                        self.vecs[i] = v;
                        self.models[i] = ids;
                    }
                }
            }
            Op::Reverse(i) => {
                self.vecs[i].as_slice_mut().reverse();
                self.models[i].reverse();
                self.vecs[i].as_mut().reverse();
                self.vecs[i].reverse();
            }
            Op::Extend(i) => {
                let o = std::mem::replace(&mut self.vecs[1 - i], MVec::new_in(a));
                match armed(|| T::extend(&mut self.vecs[i], o)) {
                    Ok(r) => {
                        let m = std::mem::take(&mut self.models[1 - i]);
                        if outcome(self, r)? {
                            self.models[i].extend(m);
                        }
                    }
                    Err(o) => self.vecs[1 - i] = o,
                }
            }
            Op::ExtendSlice(i, n) => {
                let items: Vec<T> = (0..n).map(|_| T::make()).collect();
                if let Some(r) = armed(|| T::extend_from_slice(&mut self.vecs[i], &items)) {
                    if outcome(self, r)? {
                        self.models[i].extend(items.iter().map(T::id));
                    }
                }
            }
            Op::Box => {
                let v = T::make();
                let id = v.id();
                match armed(|| MBox::new_in(v, a)) {
                    Ok(b) => {
                        self.boxed = Some(b);
                        self.box_model = Some(id);
                    }
                    Err(e) => drop(outcome(self, Err(e))?),
                }
            }
            Op::Unbox => {
                self.boxed = None;
                self.box_model = None;
            }
            Op::Replace => {
                if let Some(b) = &mut self.boxed {
                    **b = T::make();
                    self.box_model = Some(b.id());
                }
            }
        }
        self.check()?;
        Ok(ok)
    }

    fn check(&self) -> Result<(), Failure> {
        for (i, (v, m)) in self.vecs.iter().zip(&self.models).enumerate() {
            ensure!(v.len() == m.len() && v.is_empty() == m.is_empty(), "vector {i} has length {} instead of {}", v.len(), m.len());
            ensure!(v.capacity() >= v.len(), "vector {i} has capacity {} and length {}", v.capacity(), v.len());
            ensure!(v.as_slice().as_ptr() as usize % align_of::<T>() == 0, "vector {i} is not aligned");
            ensure!(v.iter().map(T::id).eq(m.iter().copied()), "vector {i} is {v:?} instead of {m:?}");
        }
        let (x, y) = (&self.vecs[0], &self.vecs[1]);
        let (p, q) = (&self.models[0], &self.models[1]);
        ensure!((x == y) == (p == q) && (x.as_slice() == *y) == (p == q) && (*x == y.as_slice()) == (p == q), "{x:?} == {y:?}");
        ensure!(x.cmp(y) == p.cmp(q) && x.partial_cmp(y) == Some(p.cmp(q)), "order of {x:?} and {y:?}");
        ensure!(self.boxed.as_ref().map(|b| b.id()) == self.box_model, "the box holds {:?} instead of {:?}", self.boxed, self.box_model);
        if let Some(b) = &self.boxed {
            ensure!(&**b as *const T as usize % align_of::<T>() == 0, "the box is not aligned");
        }
        if T::TRACKED {
            ledger(self.models[0].len() + self.models[1].len() + usize::from(self.boxed.is_some()))?;
        }
        Ok(())
    }

    /// The final comparisons, which are costly.
    fn finish(self) -> Result<(), Failure> {
        let d: Vec<String> = self.models[0].iter().map(|id| format!("#{id}")).collect();
        let s = format!("{:?}", self.vecs[0]);
        if T::TRACKED {
            ensure!(s == format!("[{}]", d.join(", ")), "debug is {s}");
        }
        drop(self);
        if T::TRACKED {
            ledger(0)?;
        }
        Ok(())
    }
}

/// Play a history.
fn play<T: Elem, A: Alc>(a: A, hist: &[Op], injected: bool) -> Result<u64, Failure> {
    ledger_reset();
    HANDLES.set(0);
    let mut w = World::<T, A>::new(a);
    let mut acc = Fp::new();
    for op in hist {
        let ok = w.apply(*op, injected).map_err(|f| Failure { msg: format!("{op:?}: {}", f.msg), ..f })?;
        acc = acc.u64(ok as u64);
    }
    for m in &w.models {
        acc = acc.u64(m.len() as u64);
    }
    w.finish()?;
    ensure!(HANDLES.get() == 0, "{} allocations are left", HANDLES.get());
    Ok(acc.done())
}

fn histories(ops: &[Op], depth: usize, mut f: impl FnMut(&[Op])) {
    let mut h = Vec::new();
    fn go(ops: &[Op], depth: usize, h: &mut Vec<Op>, f: &mut dyn FnMut(&[Op])) {
        if h.len() == depth {
            f(h);
            return;
        }
        for o in ops {
            h.push(*o);
            go(ops, depth, h, f);
            h.pop();
        }
    }
    go(ops, depth, &mut h, &mut f);
}

fn on_slice<R>(guard: &mut GuardBuf, size: usize, skew: usize, f: impl FnOnce(&'static Slice<'static>) -> R) -> R {
    let w = guard.window_end(size + skew);
    // SAFETY: everything in it is gone before the guard.
    let buf: &'static mut [u8] = unsafe { std::slice::from_raw_parts_mut(w.as_mut_ptr(), size) };
    let slice = Slice::new(buf);
    f(unsafe { &*(&slice as *const Slice<'_>).cast::<Slice<'static>>() })
}

/// Whether everything is clean again after a panic or failure is not looked at.
fn run<T: Elem, A: Alc>(a: A, hist: &[Op], injected: bool) -> Result<u64, Failure> {
    no_panic(|| play::<T, A>(a, hist, injected)).map_err(|p| format!("panicked: {p}"))?
}

fn vecs<T: Elem>(c: &mut Check, name: &'static str, copy: bool) {
    for both in [true, false] {
        let label = if both { "two" } else { "one" };
        c.fam_sharded(format!("vec/{name}/{label}"), 4, move |fam| {
            let ops = ops(copy, both);
            let depth = if both { fam.bound(3, 4) } else { fam.bound(4, 5) };
            let mut guard = GuardBuf::new(4096);
            histories(&ops, depth, |h| {
                if fam.stopped() {
                    return;
                }
                let mut traces = 0;
                fam.case(
                    || format!("{h:?}"),
                    || {
                        let with = |what: String| move |f: Failure| Failure { msg: format!("{what}: {}", f.msg), ..f };
                        let live = kit::alloc::live();
                        let mut acc = Fp::new();
                        acc = acc.u64(run::<T, System>(System::new(), h, false).map_err(with("system".into()))?);
                        acc = acc.u64(run::<T, Disabled>(Disabled::new(), h, false).map_err(with("disabled".into()))?);
                        traces += 2;
                        for (size, skew) in [(0, 0), (40, 1), (96, 0), (256, 7), (1024, 3)] {
                            on_slice(&mut guard, size, skew, |a| {
                                acc = acc.u64(run::<T, _>(a, h, false).map_err(with(format!("slice of {size}")))?);
                                Ok::<_, Failure>(())
                            })?;
                            traces += 1;
                        }
                        // Every request in turn fails.
                        for rest in [false, true] {
                            for n in 0.. {
                                kit::alloc::fail_at(n, rest);
                                let r = run::<T, Plain>(Plain, h, true);
                                let left = u32::MAX - kit::alloc::fail_never();
                                acc = acc.u64(r.map_err(with(format!("failing request {n}")))?);
                                kit::alloc::fail_at(n, rest);
                                let r = run::<T, System>(System::new(), h, true);
                                kit::alloc::fail_never();
                                acc = acc.u64(r.map_err(with(format!("system failing request {n}")))?);
                                traces += 2;
                                // It was not reached.
                                if left != u32::MAX && left > 0 {
                                    break;
                                }
                            }
                        }
                        let leaked = kit::alloc::live() - live;
                        ensure!(leaked == 0, "{leaked} bytes are left allocated");
                        Ok(acc.str(&format!("{h:?}")).done())
                    },
                );
                fam.count_traces(traces);
                fam.count_transitions(traces * h.len() as u64);
            });
        });
    }
}

// Strings.

#[derive(Clone, Copy, Debug, PartialEq)]
enum SOp {
    Char(usize, char),
    Str(usize, &'static str),
    Write(usize),
    WriteChar(usize, char),
    Bytes(usize),
    Invalid(usize, &'static [u8]),
    Std(usize),
    New(usize),
    WithCapacity(usize),
}

fn sops() -> Vec<SOp> {
    use SOp::*;
    vec![
        Char(0, 'a'), Char(0, 'é'), Char(0, '€'), Char(0, '😀'), Str(0, ""), Str(0, "\"\n x"), Str(0, "ab€defghijk"),
        Write(0), WriteChar(0, 'ß'), Bytes(0), Invalid(0, b"\xff"), Invalid(0, b"\xe2\x82"), Invalid(0, b"\xed\xa0\x80"), Std(0), New(0), WithCapacity(0),
        Char(1, 'a'), Str(1, "ab€defghijk"), New(1),
    ]
}

fn splay<A: Alc>(a: A, hist: &[SOp], injected: bool) -> Result<u64, Failure> {
    use kit::alloc::armed;
    HANDLES.set(0);
    let mut s = [MString::new_in(a), MString::new_in(a)];
    let mut m = [String::new(), String::new()];
    let mut acc = Fp::new();
    for op in hist {
        let may = A::FAILS || injected;
        let mut what = |r: bool| -> Result<bool, Failure> {
            ensure!(r || may, "{op:?} failed");
            acc = acc.u64(r as u64);
            Ok(r)
        };
        match *op {
            SOp::Char(i, c) => {
                if what(armed(|| s[i].push(c)).is_ok())? {
                    m[i].push(c);
                }
            }
            SOp::Str(i, t) => {
                if what(armed(|| s[i].push_str(t)).is_ok())? {
                    m[i].push_str(t);
                }
            }
            SOp::Write(i) => {
                // What was written before it failed stays.
                let r = armed(|| write!(s[i], "{:>4}|{:?}", 1u8, "x"));
                let mut t = String::new();
                write!(t, "{:>4}|{:?}", 1u8, "x").unwrap();
                if what(r.is_ok())? {
                    m[i].push_str(&t);
                } else {
                    let got = s[i].as_str().strip_prefix(m[i].as_str());
                    ensure!(got.is_some_and(|g| t.starts_with(g)), "{:?} after a failure to write", s[i].as_str());
                    m[i] = s[i].as_str().to_string();
                }
            }
            SOp::WriteChar(i, c) => {
                if what(armed(|| s[i].write_char(c)).is_ok())? {
                    m[i].push(c);
                }
            }
            SOp::Bytes(i) => {
                let v = std::mem::replace(&mut s[i], MString::new_in(a)).into_bytes();
                ensure!(v.as_slice() == m[i].as_bytes(), "bytes {v:?}");
                s[i] = MString::from_utf8(v).map_err(|e| format!("no longer UTF-8: {e}"))?;
            }
            SOp::Invalid(i, b) => {
                let mut v = std::mem::replace(&mut s[i], MString::new_in(a)).into_bytes();
                let n = v.len();
                if what(armed(|| v.extend_from_slice(b)).is_ok())? {
                    let e = match MString::from_utf8(v) {
                        Ok(s) => fail!("{:?} from what is not UTF-8", s.as_bytes()),
                        Err(e) => e,
                    };
                    let want = [m[i].as_bytes(), b].concat();
                    let std = String::from_utf8(want.clone()).unwrap_err();
                    ensure!(e.as_bytes() == want && e.utf8_error() == std.utf8_error() && e.to_string() == std.to_string(), "{e}");
                    v = e.into_bytes();
                    ensure!(v.as_slice() == want, "bytes of the error");
                }
                while v.len() > n {
                    v.pop();
                }
                s[i] = MString::from_utf8(v).map_err(|e| format!("no longer UTF-8: {e}"))?;
            }
            SOp::Std(i) => {
                let v = std::mem::replace(&mut s[i], MString::new_in(a));
                match v.into_std() {
                    Ok(mut v) => {
                        ensure!(A::IS_SYSTEM && v == m[i], "became {v:?}");
                        v.push('z');
                        m[i].push('z');
                        match A::from_std(v.into_bytes()) {
                            Ok(v) => s[i] = MString::from_utf8(v).map_err(|e| e.to_string())?,
                            Err(_) => m[i].clear(),
                        }
                    }
                    Err(v) => {
                        ensure!(!A::IS_SYSTEM, "did not become a string of std");
                        s[i] = v;
                    }
                }
            }
            SOp::New(i) => {
                s[i] = MString::new_in(a);
                m[i].clear();
            }
            SOp::WithCapacity(i) => match armed(|| MString::with_capacity_in(5, a)) {
                Ok(v) => {
                    ensure!(v.capacity() >= 5 && v.is_empty(), "capacity {}", v.capacity());
                    s[i] = v;
                    m[i].clear();
                }
                Err(_) => drop(what(false)?),
            },
        }
        for (s, m) in s.iter().zip(&m) {
            ensure!(s.as_str() == m && s.len() == m.len() && s.is_empty() == m.is_empty() && s.capacity() >= m.len(), "{s:?} instead of {m:?}");
            ensure!(*s == m.as_str() && m.as_str() == *s && *s == **m && **m == *s, "{s:?} is not equal to {m:?}");
        }
        ensure!((s[0] == s[1]) == (m[0] == m[1]), "{:?} == {:?}", m[0], m[1]);
        ensure!(s[0].cmp(&s[1]) == m[0].cmp(&m[1]) && s[0].partial_cmp(&s[1]) == m[0].partial_cmp(&m[1]), "order of {m:?}");
    }
    let (s, m) = (&s[0], &m[0]);
    for (x, y) in [
        (format!("{s}"), format!("{m}")),
        (format!("{s:?}"), format!("{m:?}")),
        (format!("{s:>12}"), format!("{m:>12}")),
        (format!("{s:.2}"), format!("{m:.2}")),
    ] {
        ensure!(x == y, "formatted as {x} instead of {y}");
    }
    Ok(acc.done())
}

// Elements that panic.

fn panics<T: Elem>(fam: &mut Fam<'_>) {
    for n in 0..5usize {
        for at in 0..n {
            for how in ["clear", "drop", "clear and drop", "new"] {
                fam.case(
                    || format!("{how} with element {at} of {n} panicking"),
                    || {
                        ledger_reset();
                        let mut v = MVec::<T, System>::new_in(System::new());
                        for _ in 0..n {
                            v.push(T::make()).map_err(|_| "push")?;
                        }
                        PANIC.set(at);
                        let r = no_panic(|| match how {
                            "clear" => {
                                v.clear();
                            }
                            "drop" => drop(v),
                            "clear and drop" => {
                                v.clear();
                                drop(v);
                            }
                            _ => v = MVec::new_in(System::new()),
                        });
                        ensure!(r.is_err(), "did not panic");
                        ledger(0)?;
                        Ok(Fp::new().str(how).u64(n as u64).u64(at as u64).done())
                    },
                );
            }
        }
    }
}

// Elements that are decoded until decoding fails.

/// Refuses to be 7.
struct Fussy(Small, u8);

impl<M> Encode<M> for Fussy {
    type Encode = Self;
    const IS_BITWISE_ENCODE: bool = false;
    fn encode<E: musli::Encoder<Mode = M>>(&self, e: E) -> Result<(), E::Error> {
        e.encode_u8(self.1)
    }
    fn as_encode(&self) -> &Self {
        self
    }
}

impl<'de, M, A: Allocator> Decode<'de, M, A> for Fussy {
    const IS_BITWISE_DECODE: bool = false;
    fn decode<D: musli::Decoder<'de, Mode = M, Allocator = A>>(d: D) -> Result<Self, D::Error> {
        use musli::Context;
        let cx = d.cx();
        let v = Fussy(Small::make(), d.decode_u8()?);
        if v.1 == 7 {
            return Err(cx.message("seven"));
        }
        Ok(v)
    }
}
impl PartialEq for Fussy {
    fn eq(&self, o: &Self) -> bool {
        self.1 == o.1
    }
}
impl Eq for Fussy {}
impl PartialOrd for Fussy {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Fussy {
    fn cmp(&self, o: &Self) -> Ordering {
        self.1.cmp(&o.1)
    }
}
impl std::hash::Hash for Fussy {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.1.hash(h)
    }
}

#[derive(Encode, Decode)]
struct Named {
    a: Fussy,
    b: Fussy,
    c: Option<Fussy>,
}

fn decodes<T>(fam: &mut Fam<'_>, what: &str, len: usize, count: fn(&T) -> usize, bytes: impl Fn(&[u8]) -> Vec<(&'static str, Vec<u8>)>)
where
    T: for<'de> Decode<'de, musli::mode::Binary, System> + for<'de> Decode<'de, musli::mode::Text, System>,
{
    // Each element in turn, and none, is refused.
    for bad in 0..=len {
        let values: Vec<u8> = (0..len).map(|i| if i == bad { 7 } else { 10 + i as u8 }).collect();
        for (format, b) in bytes(&values) {
            for cut in 0..=b.len() {
                fam.case(
                    || format!("{what} {values:?} in {format} cut to {cut} of {}", b.len()),
                    || {
                        ledger_reset();
                        let live = kit::alloc::live();
                        let b = &b[..cut];
                        let n = no_panic(|| -> Result<Option<usize>, Failure> {
                            let v: Option<T> = match format {
                                "storage" => musli::storage::from_slice(b).ok(),
                                "wire" => musli::wire::from_slice(b).ok(),
                                "descriptive" => musli::descriptive::from_slice(b).ok(),
                                _ => musli::json::from_slice(b).ok(),
                            };
                            if let Some(v) = &v {
                                ledger(count(v))?;
                            }
                            Ok(v.as_ref().map(count))
                        })
                        .map_err(|p| format!("panicked: {p}"))??;
                        ledger(0)?;
                        let leaked = kit::alloc::live() - live;
                        ensure!(leaked == 0, "{leaked} bytes are left allocated");
                        ensure!(n.is_none() || bad == len, "decoded what was refused");
                        Ok(Fp::new().str(what).str(format).bytes(&values).u64(cut as u64).done())
                    },
                );
            }
        }
    }
}

fn encodings<T>(v: &T) -> Vec<(&'static str, Vec<u8>)>
where
    T: Encode<musli::mode::Binary> + Encode<musli::mode::Text>,
{
    vec![
        ("storage", musli::storage::to_vec(v).unwrap()),
        ("wire", musli::wire::to_vec(v).unwrap()),
        ("descriptive", musli::descriptive::to_vec(v).unwrap()),
        ("json", musli::json::to_vec(v).unwrap()),
    ]
}

fn main() {
    let mut c = Check::new(
        "P15",
        Level::Exploration,
        "every sequence of operations up to a depth on two vectors and a box (or two strings), for each element type, on each allocator, and again with each request failing in turn; every decoding of a collection with each element refused in turn and cut at each byte; a case is a history",
    );
    vecs::<u8>(&mut c, "u8", true);
    vecs::<u32>(&mut c, "u32", true);
    vecs::<Quad>(&mut c, "quad", true);
    vecs::<()>(&mut c, "unit", true);
    vecs::<Small>(&mut c, "small", false);
    vecs::<Large>(&mut c, "large", false);
    vecs::<Wide>(&mut c, "wide", false);
    vecs::<Zero>(&mut c, "zero", false);
    vecs::<ZeroWide>(&mut c, "zerowide", false);
    c.fam_sharded("string", 8, |fam| {
        let ops = sops();
        let depth = fam.bound(4, 5);
        let mut guard = GuardBuf::new(4096);
        let mut go = Vec::new();
        fn all(ops: &[SOp], depth: usize, h: &mut Vec<SOp>, f: &mut dyn FnMut(&[SOp])) {
            if h.len() == depth {
                return f(h);
            }
            for o in ops {
                h.push(*o);
                all(ops, depth, h, f);
                h.pop();
            }
        }
        all(&ops, depth, &mut go, &mut |h| {
            if fam.stopped() {
                return;
            }
            let mut traces = 0;
            fam.case(
                || format!("{h:?}"),
                || {
                    let live = kit::alloc::live();
                    let mut acc = Fp::new().str(&format!("{h:?}"));
                    let on = |what: String, r: Result<Result<u64, Failure>, String>| match r {
                        Ok(Ok(v)) => Ok(v),
                        Ok(Err(f)) => Err(Failure { msg: format!("{what}: {}", f.msg), ..f }),
                        Err(p) => Err(Failure::from(format!("{what}: panicked: {p}"))),
                    };
                    acc = acc.u64(on("system".into(), no_panic(|| splay(System::new(), h, false)))?);
                    acc = acc.u64(on("disabled".into(), no_panic(|| splay(Disabled::new(), h, false)))?);
                    traces += 2;
                    for (size, skew) in [(0, 0), (40, 1), (64, 0), (128, 7), (512, 3)] {
                        acc = acc.u64(on_slice(&mut guard, size, skew, |a| on(format!("slice of {size}"), no_panic(|| splay(a, h, false))))?);
                        traces += 1;
                    }
                    for n in 0.. {
                        kit::alloc::fail_at(n, false);
                        let r = no_panic(|| splay(Plain, h, true));
                        let left = u32::MAX - kit::alloc::fail_never();
                        acc = acc.u64(on(format!("failing request {n}"), r)?);
                        ensure!(HANDLES.get() == 0, "{} allocations are left", HANDLES.get());
                        traces += 1;
                        if left != u32::MAX {
                            break;
                        }
                    }
                    let leaked = kit::alloc::live() - live;
                    ensure!(leaked == 0, "{leaked} bytes are left allocated");
                    Ok(acc.done())
                },
            );
            fam.count_traces(traces);
            fam.count_transitions(traces * h.len() as u64);
        });
    });
    c.fam("panics", |fam| {
        panics::<Small>(fam);
        panics::<Large>(fam);
    });
    c.fam("decode", |fam| {
        use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
        fn f(v: u8) -> Fussy {
            ledger_reset();
            Fussy(Small { id: 0 }, v)
        }
        let seq = |v: &[u8]| encodings(&v.iter().map(|v| f(*v)).collect::<Vec<_>>());
        decodes::<Vec<Fussy>>(fam, "Vec", 4, |v| v.len(), seq);
        decodes::<VecDeque<Fussy>>(fam, "VecDeque", 4, |v| v.len(), seq);
        decodes::<BTreeSet<Fussy>>(fam, "BTreeSet", 4, |v| v.len(), seq);
        decodes::<Box<[Fussy]>>(fam, "Box", 4, |v| v.len(), seq);
        decodes::<MVec<Fussy, System>>(fam, "musli Vec", 4, |v| v.len(), seq);
        decodes::<[Fussy; 1]>(fam, "array", 1, |_| 1, |v| encodings(&[f(v[0])]));
        decodes::<[Fussy; 4]>(fam, "array", 4, |_| 4, |v| encodings(&[f(v[0]), f(v[1]), f(v[2]), f(v[3])]));
        decodes::<[Option<Fussy>; 3]>(fam, "array of options", 3, |_| 3, |v| encodings(&[Some(f(v[0])), Some(f(v[1])), Some(f(v[2]))]));
        decodes::<[[Fussy; 2]; 2]>(fam, "nested array", 4, |_| 4, |v| encodings(&[[f(v[0]), f(v[1])], [f(v[2]), f(v[3])]]));
        decodes::<(Fussy, Fussy, Fussy)>(fam, "tuple", 3, |_| 3, |v| encodings(&(f(v[0]), f(v[1]), f(v[2]))));
        decodes::<BTreeMap<u8, Fussy>>(fam, "BTreeMap", 3, |v| v.len(), |v| encodings(&v.iter().enumerate().map(|(i, v)| (i as u8, f(*v))).collect::<BTreeMap<_, _>>()));
        decodes::<HashMap<u8, Fussy>>(fam, "HashMap", 1, |v| v.len(), |v| encodings(&v.iter().enumerate().map(|(i, v)| (i as u8, f(*v))).collect::<HashMap<_, _>>()));
        decodes::<Named>(fam, "struct", 3, |_| 3, |v| encodings(&Named { a: f(v[0]), b: f(v[1]), c: Some(f(v[2])) }));
        decodes::<Result<Fussy, u8>>(fam, "result", 1, |_| 1, |v| encodings(&Ok::<_, u8>(f(v[0]))));
        decodes::<Box<Fussy>>(fam, "boxed", 1, |_| 1, |v| encodings(&Box::new(f(v[0]))));
        decodes::<std::sync::Arc<Fussy>>(fam, "arc", 1, |_| 1, |v| encodings(&std::sync::Arc::new(f(v[0]))));
    });
    c.run()
}
