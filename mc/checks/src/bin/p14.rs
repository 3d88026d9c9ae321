//! P14: the slice allocator never overlaps, corrupts or loses memory.
//!
//! The states of the real allocator are explored breadth first. A state is the
//! memory of the allocator, of the buffer it manages and of the handles it has
//! given out, which is put back in place (at the same addresses) before each
//! operation that is tried in it.

use std::collections::HashSet;
use std::mem::{size_of, ManuallyDrop, MaybeUninit};

use kit::guard::GuardBuf;
use kit::*;
use musli::alloc::{Alloc, Allocator, Slice};

kit::global_allocator!();

#[derive(Clone, Copy, Debug, PartialEq)]
#[repr(C)]
struct Three([u8; 3]);
#[derive(Clone, Copy, Debug, PartialEq)]
#[repr(C, align(16))]
struct Wide([u8; 16]);

type A<T> = <&'static Slice<'static> as Allocator>::Alloc<T>;

macro_rules! kinds {
    ($($v:ident $t:ty;)*) => {
        /// A handle, its type is known by the slot it is in.
        enum Handle { $($v(A<$t>)),* }
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        enum Ty { $($v),* }
        impl Ty {
            fn size(self) -> usize { match self { $(Ty::$v => size_of::<$t>()),* } }
            fn align(self) -> usize { match self { $(Ty::$v => align_of::<$t>()),* } }
            fn empty(self, a: &'static Slice<'static>) -> Handle {
                match self { $(Ty::$v => Handle::$v(a.alloc_empty::<$t>())),* }
            }
            fn value(self, a: &'static Slice<'static>, b: u8) -> Option<Handle> {
                match self { $(Ty::$v => {
                    let mut v = MaybeUninit::<$t>::uninit();
                    // SAFETY: all of the types are valid for any bytes.
                    let v = unsafe { v.as_mut_ptr().cast::<u8>().write_bytes(b, size_of::<$t>()); v.assume_init() };
                    a.alloc(v).ok().map(Handle::$v)
                }),* }
            }
        }
        impl Handle {
            fn ptr(&mut self) -> *mut u8 { match self { $(Handle::$v(h) => { let p = h.as_mut_ptr().cast::<u8>(); assert_eq!(p.cast_const(), h.as_ptr().cast()); p }),* } }
            /// The bytes of the handle which are not padding: its two words and
            /// the two bytes behind them. Were it laid out differently, then
            /// states would be told apart less or more than need be.
            fn image(&self) -> &[u8] {
                match self { $(Handle::$v(h) => unsafe {
                    let n = size_of::<A<$t>>();
                    std::slice::from_raw_parts((h as *const A<$t>).cast::<u8>(), if n == 24 { 18 } else { n })
                }),* }
            }
            fn capacity(&self) -> usize { match self { $(Handle::$v(h) => h.capacity()),* } }
            fn resize(&mut self, len: usize, add: usize) -> bool { match self { $(Handle::$v(h) => h.resize(len, add).is_ok()),* } }
            fn merge(&mut self, len: usize, other: Handle, other_len: usize) -> Result<(), Handle> {
                match (self, other) {
                    $((Handle::$v(h), Handle::$v(o)) => h.try_merge(len, o, other_len).map_err(Handle::$v),)*
                    (_, other) => Err(other),
                }
            }
        }
    };
}
kinds! { B u8; T Three; W u32; Q u64; V Wide; }

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    /// Allocate without room.
    Empty(Ty),
    /// Allocate a value.
    Value(Ty),
    /// Make room for more and use it.
    Push(usize, usize),
    /// Make room for more.
    Reserve(usize, usize),
    /// More than there will ever be.
    Huge(usize),
    Free(usize),
    /// Append one to the other.
    Merge(usize, usize),
}

struct Slot {
    ty: Ty,
    len: usize,
    handle: ManuallyDrop<Handle>,
    /// What it holds.
    ghost: Vec<u8>,
    /// The memory it said it has.
    at: usize,
    cap: usize,
}

/// The system: the allocator in place, the buffer and the slots.
struct Sys {
    buf: &'static mut [u8],
    slice: *mut Slice<'static>,
    slots: Vec<Slot>,
    tag: u8,
    /// The largest number of allocations alive at the same time.
    most: usize,
}

#[derive(Clone)]
struct Image {
    buf: Box<[u8]>,
    slice: Box<[MaybeUninit<u8>]>,
    slots: Vec<(Ty, usize, Box<[MaybeUninit<u8>]>, Vec<u8>)>,
    tag: u8,
    most: usize,
    path: Vec<Op>,
}

fn raw<T>(v: *const T) -> Box<[MaybeUninit<u8>]> {
    // SAFETY: bytes that may not be initialized.
    unsafe { std::slice::from_raw_parts(v.cast::<MaybeUninit<u8>>(), size_of::<T>()).into() }
}

impl Sys {
    fn new(buf: &'static mut [u8]) -> Self {
        let mut s = Sys {
            buf,
            slice: Box::into_raw(Box::<MaybeUninit<Slice<'static>>>::new_zeroed()).cast(),
            slots: Vec::new(),
            tag: 0,
            most: 0,
        };
        s.fresh();
        s
    }

    fn fresh(&mut self) {
        self.buf.fill(0);
        self.slots.clear();
        self.tag = 0;
        self.most = 0;
        // SAFETY: nothing else uses the buffer, which lives on.
        unsafe {
            let b: &'static mut [u8] = std::slice::from_raw_parts_mut(self.buf.as_mut_ptr(), self.buf.len());
            self.slice.write(Slice::new(b));
        }
    }

    fn alloc(&self) -> &'static Slice<'static> {
        // SAFETY: initialized and never freed while used.
        unsafe { &*self.slice }
    }

    fn save(&self, path: &[Op]) -> Image {
        Image {
            buf: self.buf.to_vec().into(),
            slice: raw(self.slice),
            slots: self.slots.iter().map(|s| (s.ty, s.len, raw(&*s.handle), s.ghost.clone())).collect(),
            tag: self.tag,
            most: self.most,
            path: path.to_vec(),
        }
    }

    fn load(&mut self, i: &Image) {
        self.buf.copy_from_slice(&i.buf);
        self.tag = i.tag;
        self.most = i.most;
        // SAFETY: everything goes back to where it was.
        unsafe {
            std::ptr::copy_nonoverlapping(i.slice.as_ptr(), self.slice.cast(), i.slice.len());
        }
        self.slots.clear();
        for (ty, len, bytes, ghost) in &i.slots {
            let mut h = MaybeUninit::<ManuallyDrop<Handle>>::uninit();
            let mut handle = unsafe {
                std::ptr::copy_nonoverlapping(bytes.as_ptr(), h.as_mut_ptr().cast(), bytes.len());
                h.assume_init()
            };
            let (at, cap) = (handle.ptr() as usize, handle.capacity());
            self.slots.push(Slot { ty: *ty, len: *len, handle, ghost: ghost.clone(), at, cap });
        }
    }

    /// A fingerprint of everything that decides what happens next: not the
    /// contents of the allocations.
    fn key(&mut self) -> u64 {
        let base = self.buf.as_ptr() as usize;
        let mut top = 0;
        let mut fp = Fp::new();
        for s in &mut self.slots {
            let at = s.handle.ptr() as usize;
            if s.cap > 0 {
                top = top.max(at + s.cap * s.ty.size() - base);
            }
            fp = fp.u64(s.ty as u64).u64(s.len as u64).u64(at.wrapping_sub(base) as u64).u64(s.cap as u64);
            fp = fp.bytes(s.handle.image());
        }
        let r = raw(self.slice);
        fp = fp.bytes(unsafe { std::slice::from_raw_parts(r.as_ptr().cast(), r.len()) });
        fp.u64(self.most as u64).bytes(&self.buf[top.min(self.buf.len())..]).done()
    }

    fn fill(&mut self, i: usize, from: usize) {
        let s = &mut self.slots[i];
        for at in from..s.len * s.ty.size() {
            self.tag = self.tag.wrapping_add(1).max(1);
            // SAFETY: within the room it has.
            unsafe { s.handle.ptr().add(at).write(self.tag) };
            s.ghost.push(self.tag);
        }
    }

    /// Apply an operation, `None` if it does not apply, whether it succeeded.
    fn apply(&mut self, op: Op) -> Option<Result<bool, Failure>> {
        let a = self.alloc();
        let ok = match op {
            Op::Empty(ty) => {
                let handle = ty.empty(a);
                self.slots.push(Slot { ty, len: 0, handle: ManuallyDrop::new(handle), ghost: vec![], at: 0, cap: 0 });
                true
            }
            Op::Value(ty) => match ty.value(a, 0xee) {
                Some(handle) => {
                    let mut s = Slot { ty, len: 1, handle: ManuallyDrop::new(handle), ghost: vec![0xee; ty.size()], at: 0, cap: 0 };
                    if s.handle.capacity() < 1 {
                        return Some(Err("no capacity for the value that was allocated".to_string().into()));
                    }
                    s.at = s.handle.ptr() as usize;
                    self.slots.push(s);
                    true
                }
                None => false,
            },
            Op::Push(i, n) | Op::Reserve(i, n) => {
                let s = self.slots.get_mut(i)?;
                let (old_at, old_cap) = (s.at, s.cap);
                // What is not used is not kept.
                unsafe { s.handle.ptr().add(s.ghost.len()).write_bytes(0, s.cap * s.ty.size() - s.ghost.len()) };
                let ok = s.handle.resize(s.len, n);
                if ok {
                    if s.handle.capacity() < s.len + n {
                        return Some(Err(format!("capacity {} after making room for {} and {n}", s.handle.capacity(), s.len).into()));
                    }
                    let from = s.ghost.len();
                    let now = s.handle.ptr() as usize;
                    let (len, size) = (s.len, s.ty.size());
                    if matches!(op, Op::Push(..)) {
                        s.len = len + n;
                    }
                    if let Err(e) = self.inside(i) {
                        return Some(Err(e));
                    }
                    // What was moved away from is not kept.
                    if now != old_at {
                        self.scrub(old_at, old_cap * size);
                    }
                    if let Err(e) = self.check() {
                        return Some(Err(e));
                    }
                    self.fill(i, from);
                }
                ok
            }
            Op::Huge(i) => {
                let s = self.slots.get_mut(i)?;
                for n in [usize::MAX, usize::MAX - s.len, usize::MAX / s.ty.size(), 1 << 62, 1 << 31, (1 << 31) - 1, self.buf.len() + 1] {
                    if s.handle.resize(s.len, n) {
                        return Some(Err(format!("made room for {n} in {} bytes", self.buf.len()).into()));
                    }
                }
                false
            }
            Op::Free(i) => {
                if i >= self.slots.len() {
                    return None;
                }
                let mut s = self.slots.remove(i);
                unsafe {
                    s.handle.ptr().write_bytes(0, s.cap * s.ty.size());
                    ManuallyDrop::drop(&mut s.handle);
                }
                true
            }
            Op::Merge(i, j) => {
                if i == j || i >= self.slots.len() || j >= self.slots.len() || self.slots[i].ty != self.slots[j].ty {
                    return None;
                }
                let other = self.slots.remove(j);
                let i = if j < i { i - 1 } else { i };
                let s = &mut self.slots[i];
                match s.handle.merge(s.len, ManuallyDrop::into_inner(other.handle), other.len) {
                    Ok(()) => {
                        if s.handle.capacity() < s.len + other.len {
                            return Some(Err("no room for what was merged".to_string().into()));
                        }
                        s.len += other.len;
                        s.ghost.extend_from_slice(&other.ghost);
                        true
                    }
                    Err(handle) => {
                        self.slots.insert(j, Slot { handle: ManuallyDrop::new(handle), ..other });
                        false
                    }
                }
            }
        };
        self.most = self.most.max(self.slots.len());
        Some(self.check().map(|_| ok))
    }

    /// Clear memory that is not part of any allocation.
    fn scrub(&mut self, at: usize, n: usize) {
        let live: Vec<(usize, usize)> = self.slots.iter_mut().map(|s| {
            let p = s.handle.ptr() as usize;
            (p, p + s.handle.capacity() * s.ty.size())
        }).collect();
        for p in at..at + n {
            if !live.iter().any(|(a, b)| (*a..*b).contains(&p)) {
                let base = self.buf.as_ptr() as usize;
                self.buf[p - base] = 0;
            }
        }
    }

    fn inside(&mut self, i: usize) -> Result<(), Failure> {
        let (start, end) = (self.buf.as_ptr() as usize, self.buf.as_ptr() as usize + self.buf.len());
        let s = &mut self.slots[i];
        let cap = s.handle.capacity();
        if cap == 0 {
            s.cap = 0;
            return Ok(());
        }
        let p = s.handle.ptr() as usize;
        ensure!(p % s.ty.align() == 0, "{:?} at {p:#x} is not aligned", s.ty);
        let n = cap.checked_mul(s.ty.size());
        ensure!(
            p >= start && n.is_some_and(|n| n <= end - start && p + n <= end),
            "{cap} of {:?} at {} reach outside of the {} bytes",
            s.ty,
            p.wrapping_sub(start),
            end - start
        );
        s.at = p;
        s.cap = cap;
        Ok(())
    }

    /// Everything alive is where it may be and holds what it should.
    fn check(&mut self) -> Result<(), Failure> {
        for i in 0..self.slots.len() {
            self.inside(i)?;
        }
        for (i, s) in self.slots.iter().enumerate() {
            ensure!(s.len <= s.cap, "capacity {} for {}", s.cap, s.len);
            for t in &self.slots[i + 1..] {
                let (a, b) = (s.at..s.at + s.cap * s.ty.size(), t.at..t.at + t.cap * t.ty.size());
                ensure!(
                    a.is_empty() || b.is_empty() || a.end <= b.start || b.end <= a.start,
                    "allocations overlap"
                );
            }
        }
        for (i, s) in self.slots.iter_mut().enumerate() {
            let got = unsafe { std::slice::from_raw_parts(s.handle.ptr(), s.ghost.len()) };
            ensure!(got == s.ghost, "allocation {i} holds {} instead of {}", hex(got), hex(&s.ghost));
        }
        Ok(())
    }

    /// The room an empty allocator offers to a single allocation.
    fn largest(&mut self) -> usize {
        let mut h = Ty::B.empty(self.alloc());
        let (mut lo, mut hi) = (0, self.buf.len() + 1);
        while lo + 1 < hi {
            let mid = (lo + hi) / 2;
            if h.resize(0, mid) {
                lo = mid;
            } else {
                hi = mid;
            }
        }
        drop(h);
        lo
    }
}

/// A buffer that ends at an inaccessible page, and how it is used.
#[derive(Clone, Copy)]
struct Config {
    size: usize,
    /// Distance of the end from the page.
    skew: usize,
    types: &'static [Ty],
    slots: usize,
    pushes: &'static [usize],
}

fn ops(c: &Config, live: usize, types: &[Ty]) -> Vec<Op> {
    let mut v = Vec::new();
    if live < c.slots {
        for &t in types {
            v.push(Op::Empty(t));
            v.push(Op::Value(t));
        }
    }
    for i in 0..live {
        for &n in c.pushes {
            v.push(Op::Push(i, n));
        }
        v.push(Op::Reserve(i, 2));
        v.push(Op::Huge(i));
        v.push(Op::Free(i));
        for j in 0..live {
            if i != j {
                v.push(Op::Merge(i, j));
            }
        }
    }
    v
}

/// The orders in which everything is freed.
fn drains(n: usize) -> Vec<Vec<Op>> {
    let mut v = vec![vec![Op::Free(0); n]];
    if n > 1 {
        v.push((0..n).rev().map(Op::Free).collect());
    }
    if n > 2 {
        // From the middle out.
        v.push((0..n).rev().map(|k| Op::Free(k / 2)).collect());
    }
    v
}

/// Repeat a history which frees everything until the allocator is in a state
/// it has been in before: then nothing is lost however often it is repeated.
fn cycle(sys: &mut Sys, path: &[Op], room: &[usize]) -> Result<u64, Failure> {
    sys.fresh();
    let mut seen = HashSet::new();
    let mut steps = 0;
    let mut first: Option<Vec<bool>> = None;
    for round in 0.. {
        if !seen.insert(sys.key()) {
            break;
        }
        sys.tag = 0;
        ensure!(round < 64, "a history repeated {round} times never returns to the same state: {path:?}");
        let mut results = Vec::new();
        for op in path {
            steps += 1;
            match sys.apply(*op) {
                Some(r) => results.push(r?),
                // It applied to an allocation which could not be made.
                None => results.push(false),
            }
        }
        while !sys.slots.is_empty() {
            if let Some(r) = sys.apply(Op::Free(0)) {
                r?;
            }
        }
        // What is kept to manage the most that ever was alive, the copy of one
        // that grows and the gap in front is all that may be missing.
        let most = sys.most + 2;
        let before = sys.save(&[]);
        let largest = sys.largest();
        sys.load(&before);
        let expect = room[most.min(room.len() - 1)];
        ensure!(
            largest >= expect,
            "with nothing alive only {largest} bytes can be allocated, not {expect}, after {} rounds of {path:?}",
            round + 1
        );
        if round == 1 {
            first = Some(results);
        } else if let Some(first) = &first {
            ensure!(*first == results, "round {round} had different results: {path:?}");
        }
    }
    Ok(steps)
}

fn explore(fam: &mut Fam<'_>, c: Config, depth: usize, types: &[Ty], limit: usize) {
    let mut guard = GuardBuf::new(c.size + c.skew);
    let w = guard.window_end(c.size + c.skew);
    let ptr = w.as_mut_ptr();
    // SAFETY: the guard outlives the exploration.
    let buf: &'static mut [u8] = unsafe { std::slice::from_raw_parts_mut(ptr, c.size) };
    let mut sys = Sys::new(buf);

    // The room that is left once so many were alive at the same time.
    let mut room = Vec::new();
    for n in 0..c.slots + 3 {
        sys.fresh();
        let mut v: Vec<Handle> = (0..n).map(|_| Ty::B.empty(sys.alloc())).collect();
        while let Some(h) = v.pop() {
            drop(h);
        }
        // Somewhat less if the start has to be aligned.
        let r = sys.largest();
        let slack = types.iter().map(|t| t.align()).max().unwrap() - 1;
        room.push(r.saturating_sub(slack));
    }
    if c.size >= 128 {
        fam.case(
            || format!("the room of an empty buffer of {} bytes, {} before a page", c.size, c.skew),
            || {
                ensure!(room[0] >= c.size / 2, "only {} of {} bytes can be allocated", room[0], c.size);
                Ok(room[0] as u64)
            },
        );
    }
    sys.fresh();
    let mut visited = HashSet::new();
    visited.insert(sys.key());
    let mut frontier = vec![sys.save(&[])];
    for d in 0..depth {
        let mut next: Vec<Image> = Vec::new();
        let mut dropped = 0;
        for state in &frontier {
            if fam.stopped() {
                return;
            }
            let mut found = Vec::new();
            let mut transitions = 0;
            let what = || format!("buffer of {} bytes, {} before a page, after {:?}", c.size, c.skew, state.path);
            let sys = &mut sys;
            let visited = &mut visited;
            fam.case(what, || {
                let mut acc = Fp::new();
                for op in ops(&c, state.slots.len(), types) {
                    sys.load(state);
                    let Some(r) = no_panic(|| sys.apply(op)).map_err(|p| format!("{op:?} panicked: {p}"))? else { continue };
                    transitions += 1;
                    if let Err(f) = &r {
                        fail!("{op:?}: {}", f.msg);
                    }
                    let key = sys.key();
                    if visited.insert(key) {
                        // Keep within memory.
                        if next.len() + found.len() >= limit {
                            dropped += 1;
                            continue;
                        }
                        acc = acc.u64(key);
                        let mut path = state.path.clone();
                        path.push(op);
                        found.push(sys.save(&path));
                    }
                }
                for drain in drains(state.slots.len()) {
                    let mut path = state.path.clone();
                    path.extend(drain);
                    transitions += no_panic(|| cycle(sys, &path, &room)).map_err(|p| format!("repeating {path:?} panicked: {p}"))??;
                }
                Ok(acc.u64(state.path.len() as u64).bytes(&state.buf).done())
            });
            fam.count_transitions(transitions);
            fam.count_states(found.len() as u64);
            next.extend(found);
        }
        fam.label(&format!("states at depth {}", d + 1), next.len() as u64);
        if dropped > 0 {
            fam.label(&format!("states at depth {} not explored further for lack of memory", d + 1), dropped);
        }
        frontier = next;
    }
    // The image of each of the last states is what its history leads to when
    // it is played from the start without any images.
    for state in frontier.iter().step_by(frontier.len() / 2000 + 1) {
        let sys = &mut sys;
        fam.case(
            || format!("{} bytes, {} before a page, replay of {:?}", c.size, c.skew, state.path),
            || {
                sys.load(state);
                let want = sys.key();
                sys.fresh();
                for op in &state.path {
                    if let Some(r) = sys.apply(*op) {
                        r?;
                    }
                }
                ensure!(sys.key() == want, "the history leads to another state");
                Ok(want)
            },
        );
        fam.count_traces(1);
    }
}

fn main() {
    let mut c = Check::new(
        "P14",
        Level::ModelChecking,
        "breadth first over the states of the real allocator (its memory, the buffer and the handles) under every operation, and every history repeated with all of its allocations freed in three orders until a state repeats; a case is a state, distinct by its image",
    );
    c.assume("handles are used as Vec and Box use them: lengths never exceed capacities, and are merged within one type");
    use Ty::*;
    let mut all = Vec::new();
    for size in [24, 49, 64, 80, 100, 128, 160, 200, 256] {
        for skew in [0, 1, 4, 7] {
            for types in [&[B][..], &[B, Q], &[W, T], &[B, V], &[B, W, Q]] {
                all.push(Config { size, skew, types, slots: 3, pushes: &[1, 5] });
            }
        }
    }
    for size in [160, 256] {
        for skew in [0, 3] {
            all.push(Config { size, skew, types: &[B], slots: 4, pushes: &[1, 3] });
            all.push(Config { size, skew, types: &[Q, B], slots: 5, pushes: &[1] });
        }
    }
    for cfg in all {
        let name = format!("{}+{}/{:?}/{}", cfg.size, cfg.skew, cfg.types, cfg.slots);
        c.fam(name, move |fam| {
            let wide = cfg.types.len() > 2 || cfg.slots > 3;
            let depth = if fam.thorough() { if wide { 6 } else { 8 } } else if wide { 5 } else { 6 };
            explore(fam, cfg, depth, cfg.types, 200_000);
        });
    }
    c.run()
}
