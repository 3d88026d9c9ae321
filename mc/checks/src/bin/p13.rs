//! P13: writers deliver every byte or report an error.

use std::cell::RefCell;
use std::io;

use eng::*;
use kit::guard::GuardBuf;
use kit::*;
use musli::alloc::{ArrayBuffer, Disabled, Slice};
use musli::en::Encode;
use musli::writer::BufWriter;
use musli::{context, Context, FixedBytes, Writer};

kit::global_allocator!();

// ---- an io::Write which does what the schedule says

#[derive(Debug, Clone, Copy, PartialEq)]
enum Act {
    All,
    One,
    Half,
    Interrupted,
    Zero,
    Fail,
}
use Act::*;
const ACTS: [Act; 6] = [All, One, Half, Interrupted, Zero, Fail];

struct Sched<'a> {
    first: &'a [Act],
    rest: Act,
    calls: usize,
    out: Vec<u8>,
    failed: bool,
    after: bool,
}

impl<'a> Sched<'a> {
    fn new(first: &'a [Act], rest: Act) -> Self {
        Sched { first, rest, calls: 0, out: Vec::new(), failed: false, after: false }
    }
}

impl io::Write for Sched<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        self.after |= self.failed;
        let act = self.first.get(self.calls).copied().unwrap_or(self.rest);
        self.calls += 1;
        let n = match act {
            All => b.len(),
            One => 1,
            Half => b.len().div_ceil(2),
            Interrupted => return Err(io::ErrorKind::Interrupted.into()),
            Zero => 0,
            Fail => {
                self.failed = true;
                return Err(io::Error::other("scheduled"));
            }
        };
        self.failed |= n == 0;
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// A writer of which the nth call fails.
struct Nth {
    n: usize,
    calls: usize,
    out: Vec<u8>,
    finished: bool,
}

impl Nth {
    fn hit<C: Context>(&mut self, cx: C) -> Result<(), C::Error> {
        self.calls += 1;
        if self.calls > self.n {
            return Err(cx.message("scheduled"));
        }
        Ok(())
    }
}

impl Writer for Nth {
    type Ok = usize;
    type Mut<'this> = &'this mut Nth;

    fn finish<C: Context>(&mut self, cx: C) -> Result<usize, C::Error> {
        self.hit(cx)?;
        self.finished = true;
        Ok(self.out.len())
    }
    fn borrow_mut(&mut self) -> Self::Mut<'_> {
        self
    }
    fn extend<C: Context>(&mut self, cx: C, b: musli::alloc::Vec<u8, C::Allocator>) -> Result<(), C::Error> {
        self.write_bytes(cx, b.as_slice())
    }
    fn write_bytes<C: Context>(&mut self, cx: C, b: &[u8]) -> Result<(), C::Error> {
        self.hit(cx)?;
        self.out.extend_from_slice(b);
        Ok(())
    }
}

thread_local! {
    static GUARD: RefCell<GuardBuf> = RefCell::new(GuardBuf::new(1 << 18));
}

/// Every size up to `n`, or for long messages those at either end and around
/// powers of two.
fn sizes(n: usize) -> impl Iterator<Item = usize> {
    (0..n).filter(move |&k| n <= 512 || k < 40 || k + 40 > n || (k + 1) & k <= 1)
}

/// Everything but the schedules.
fn deliver<F: Format, T: ?Sized + Encode<F::Mode>>(v: &T, traces: &mut u64) -> CaseResult {
    let whole = F::enc(v);
    let b: &[u8] = match &whole {
        Ok(b) => b,
        Err(_) => {
            // What can not be encoded can not be encoded into anything.
            let mut out = vec![0; 1 << 12];
            ensure!(F::to_slice(&mut out, v).is_err(), "encodes into a slice only");
            ensure!(F::enc_vec(&mut out, v).is_err(), "encodes into a vector only");
            ensure!(F::to_writer(io::sink(), v).is_err(), "encodes into a writer only");
            ensure!(F::to_fixed::<4096, T>(v).is_err(), "encodes into a fixed buffer only");
            return Ok(0);
        }
    };
    let n = b.len();

    // Slices.
    GUARD.with_borrow_mut(|g| -> Result<(), Failure> {
        for extra in [0, 1, 9] {
            let out = g.window_end(n + extra);
            out.fill(0xa5);
            let r = F::to_slice(out, v);
            ensure!(r == Ok(n), "a slice with room for {extra} more: {r:?} instead of {n}");
            ensure!(out[..n] == *b, "a slice with room for {extra} more holds {} instead of {}", hex(&out[..n]), hex(b));
            ensure!(out[n..].iter().all(|b| *b == 0xa5), "wrote past the message in a slice with room for {extra} more");
            out.fill(0xa5);
            let r = F::enc_mut_slice(out, v);
            ensure!(r == Ok(extra), "as a writer, a slice with room for {extra} more: {r:?} remains");
            ensure!(out[..n] == *b && out[n..].iter().all(|b| *b == 0xa5), "as a writer, a slice with room for {extra} more holds {}", hex(out));
            let cx = context::new().with_trace();
            out.fill(0xa5);
            let r = F::enc_slice_with(&cx, out, v);
            ensure!(r.ok() == Some(n) && out[..n] == *b && cx.errors().count() == 0, "with a context, a slice with room for {extra} more");
            *traces += 3;
        }
        for k in sizes(n) {
            // The page in front of it can not be written either.
            for start in [false, true] {
                let out: &mut [u8] = if start { &mut g.whole()[..k] } else { g.window_end(k) };
                out.fill(0xa5);
                let r = F::to_slice(out, v);
                ensure!(r.is_err(), "{k} of {n} bytes fit a slice: {r:?}");
                let same = out.iter().zip(b).take_while(|(a, b)| a == b).count();
                ensure!(out[same..].iter().all(|b| *b == 0xa5), "a slice of {k} bytes holds {} of {}", hex(out), hex(b));
                *traces += 1;
            }
            let cx = context::new().with_trace();
            let r = F::enc_slice_with(&cx, g.window_end(k), v);
            let e = cx.errors().count();
            ensure!(r.is_err() && e == 1, "with a context, a slice of {k} of {n} bytes reports {e} errors");
        }
        Ok(())
    })?;

    // Vectors, after what they hold.
    for before in [&[][..], &[0xee], &[7; 33]] {
        for cap in [0, 1, n, n + before.len()] {
            let mut out = Vec::with_capacity(cap);
            out.extend_from_slice(before);
            let r = F::enc_vec(&mut out, v);
            ensure!(r.is_ok() && out[..before.len()] == *before && out[before.len()..] == *b, "a vector after {} bytes: {r:?} {}", before.len(), hex(&out));
            *traces += 1;
        }
    }

    // Fixed buffers.
    macro_rules! fixed {
        ($($n:literal)*) => { $( {
            let r = F::to_fixed::<$n, T>(v);
            match &r {
                Ok(out) => ensure!(n <= $n && out == b, "{n} bytes in a buffer of {}: {}", $n, hex(out)),
                Err(_) => ensure!(n > $n, "{n} bytes do not fit a buffer of {}: {r:?}", $n),
            }
            *traces += 1;
        } )* };
    }
    fixed!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 16 17 24 31 32 33 64 128);
    for at in 0..=8 {
        let mut out = FixedBytes::<8>::new();
        ensure!(out.extend_from_slice(&[0xe0; 8][..at]), "a buffer of 8 does not take {at}");
        let r = F::enc_into(&mut out, v);
        ensure!(r.is_ok() == (at + n <= 8), "{n} bytes after {at} in a buffer of 8: {r:?}");
        let want: Vec<u8> = [0xe0; 8][..at].iter().chain(b).copied().collect();
        ensure!(want.starts_with(&out), "{n} bytes after {at} in a buffer of 8: {}", hex(&out));
        ensure!(r.is_err() || out.len() == want.len(), "{n} bytes after {at} in a buffer of 8: {}", hex(&out));
        ensure!(out.remaining() == 8 - out.len(), "remaining {} after {}", out.remaining(), out.len());
        *traces += 1;
    }

    // Buffers of an allocator which may run out.
    macro_rules! buffered {
        ($($n:literal)*) => { $( {
            let mut buf = ArrayBuffer::<$n>::with_size();
            let alloc = Slice::new(&mut buf);
            let mut out = BufWriter::new(&alloc);
            let r = F::enc_into(&mut out, v);
            let out = out.into_inner();
            ensure!(b.starts_with(&out), "a vector in {} bytes: {r:?} {}", $n, hex(&out));
            ensure!(r.is_err() || out.len() == n, "a vector in {} bytes holds {} of {n} bytes", $n, out.len());
            *traces += 1;
        } )* };
    }
    buffered!(16 32 64 256);
    let mut out = BufWriter::new(Disabled::new());
    let r = F::enc_into(&mut out, v);
    ensure!(r.is_err() || n == 0, "{n} bytes without an allocator: {r:?}");

    // Each call of a writer failing in turn.
    let mut full = Nth { n: usize::MAX, calls: 0, out: Vec::new(), finished: false };
    let r = F::enc_into(&mut full, v);
    ensure!(r == Ok(n) && full.out == b && full.finished, "a writer got {} and {r:?}", hex(&full.out));
    for at in sizes(full.calls) {
        let mut w = Nth { n: at, calls: 0, out: Vec::new(), finished: false };
        let cx = context::new().with_trace();
        let r = F::enc_into_with(&cx, &mut w, v);
        ensure!(r.is_err(), "call {at} of {} to the writer fails, but {r:?}", full.calls);
        ensure!(w.calls == at + 1 && b.starts_with(&w.out), "call {at} of {} to the writer fails, it then got {} and was called {} times", full.calls, hex(&w.out), w.calls);
        let e = cx.errors().count();
        ensure!(e == 1, "call {at} of {} to the writer fails with {e} errors", full.calls);
        *traces += 1;
    }

    // Each call of an io::Write doing something odd in turn.
    let mut full = Sched::new(&[], All);
    let r = F::to_writer(&mut full, v);
    ensure!(r.is_ok() && full.out == b, "an io::Write got {} and {r:?}", hex(&full.out));
    let calls = full.calls;
    for rest in [One, Half] {
        let mut w = Sched::new(&[], rest);
        let r = F::to_writer(&mut w, v);
        ensure!(r.is_ok() && w.out == b, "an io::Write doing {rest:?} got {} and {r:?}", hex(&w.out));
    }
    let mut plan = vec![All; calls];
    for at in sizes(calls) {
        for act in &ACTS[1..] {
            plan[at] = *act;
            schedule::<F, T>(v, b, &plan)?;
            *traces += 1;
        }
        plan[at] = All;
    }
    Ok(if n == 0 { 0 } else { Fp::new().str(F::NAME).bytes(b).done() })
}

fn schedule<F: Format, T: ?Sized + Encode<F::Mode>>(v: &T, b: &[u8], plan: &[Act]) -> Result<bool, Failure> {
    let mut w = Sched::new(plan, All);
    let r = F::enc_into(musli::wrap::wrap(&mut w), v);
    ensure!(r.is_ok() != w.failed, "an io::Write doing {plan:?} gives {r:?}");
    ensure!(b.starts_with(&w.out) && (r.is_err() || w.out.len() == b.len()), "an io::Write doing {plan:?} got {} instead of {}", hex(&w.out), hex(b));
    ensure!(!w.after, "an io::Write doing {plan:?} was written to after it failed");
    Ok(w.calls >= plan.len())
}

/// The operations a writer is driven with, erased.
trait Subject {
    fn name(&self) -> &'static str;
    fn deliver(&self, s: &Shape, v: &Val, traces: &mut u64) -> CaseResult;
    fn schedule(&self, s: &Shape, v: &Val, b: &[u8], plan: &[Act]) -> Result<bool, Failure>;
    fn enc(&self, s: &Shape, v: &Val) -> Result<Vec<u8>, String>;
    fn kind(&self) -> Kind;
    fn opt(&self) -> musli::options::Options;
}
impl<F: Format> Subject for Of<F> {
    fn name(&self) -> &'static str {
        F::NAME
    }
    fn deliver(&self, s: &Shape, v: &Val, traces: &mut u64) -> CaseResult {
        deliver::<F, Dyn<'_>>(&Dyn(s, v), traces)
    }
    fn schedule(&self, s: &Shape, v: &Val, b: &[u8], plan: &[Act]) -> Result<bool, Failure> {
        schedule::<F, Dyn<'_>>(&Dyn(s, v), b, plan)
    }
    fn enc(&self, s: &Shape, v: &Val) -> Result<Vec<u8>, String> {
        F::enc(&Dyn(s, v))
    }
    fn kind(&self) -> Kind {
        F::KIND
    }
    fn opt(&self) -> musli::options::Options {
        F::OPT
    }
}

macro_rules! subjects {
    ($($t:ident)*) => { vec![$( &*Box::leak(Box::new(Of($t))) as &(dyn Subject + Send + Sync) ),*] };
}

fn one(fam: &mut Fam<'_>, f: &(dyn Subject + Send + Sync), s: &Shape, v: &Val) {
    if !supports(f.kind(), f.opt(), s) {
        return;
    }
    let mut n = 0;
    fam.case(|| format!("{} {s} = {v}", f.name()), || f.deliver(s, v, &mut n));
    fam.count_traces(n);
}

/// Every schedule of up to this many calls.
fn schedules(fam: &mut Fam<'_>, f: &(dyn Subject + Send + Sync), s: &Shape, v: &Val, depth: usize) {
    if !supports(f.kind(), f.opt(), s) {
        return;
    }
    let mut n = 0;
    fam.case(
        || format!("schedules of {} {s} = {v}", f.name()),
        || {
            let Ok(b) = f.enc(s, v) else { return Ok(0) };
            let mut bad = None;
            rng::sequences(ACTS.len(), depth, |seq| {
                // Nothing follows a failure.
                let Some((_, init)) = seq.split_last() else { return };
                let plan: Vec<Act> = seq.iter().map(|&i| ACTS[i]).collect();
                if bad.is_some() || plan[..init.len()].iter().any(|a| matches!(a, Zero | Fail)) {
                    return;
                }
                n += 1;
                bad = f.schedule(s, v, &b, &plan).err();
            });
            if let Some(e) = bad {
                return Err(e);
            }
            Ok(Fp::new().str(f.name()).bytes(&b).done())
        },
    );
    fam.count_traces(n);
}

fn zoo<F: Format, T: eng::zoo::Zoo + Encode<F::Mode>>(c: &mut Check) {
    if !T::WHERE.ok(F::KIND) {
        return;
    }
    c.fam(format!("zoo/{}/{}", T::NAME, F::NAME), |fam| {
        for v in T::samples(fam.bound(2, 0)) {
            let mut n = 0;
            fam.case(|| format!("{v:?}"), || deliver::<F, T>(&v, &mut n));
            fam.count_traces(n);
        }
    });
}

macro_rules! types {
    ($c:ident $f:ident; $($t:ident)*) => { $( zoo::<$f, $t>(&mut $c); )* };
}

// ---- the fixed buffer itself

fn histories<const N: usize>(c: &mut Check) {
    c.fam(format!("fixed/{N}"), |fam| {
        let depth = fam.bound(5, 7);
        // push, extend by 0..=N + 1, write 0..=N + 1, clear.
        let ops = 2 + 2 * (N + 2);
        rng::sequences(ops, depth, |seq| {
            fam.case(
                || format!("{seq:?}"),
                || {
                    let cx = context::new().with_trace();
                    let mut b = FixedBytes::<N>::new();
                    let mut m: Vec<u8> = Vec::new();
                    for (i, &op) in seq.iter().enumerate() {
                        let x = 1 + i as u8;
                        let data: Vec<u8> = (0..N as u8 + 1).map(|j| x * 16 + j).collect();
                        match op {
                            0 => {
                                let fits = m.len() < N;
                                ensure!(b.push(x) == fits, "push at {}", m.len());
                                if fits {
                                    m.push(x);
                                }
                            }
                            1 => {
                                b.clear();
                                m.clear();
                            }
                            _ => {
                                let k = (op - 2) / 2;
                                let fits = m.len() + k <= N;
                                let ok = if op % 2 == 0 { b.extend_from_slice(&data[..k]) } else { b.write_bytes(&cx, &data[..k]).is_ok() };
                                ensure!(ok == fits, "{k} bytes at {}", m.len());
                                if fits {
                                    m.extend_from_slice(&data[..k]);
                                }
                            }
                        }
                        ensure!(*b == m[..] && b.as_slice() == m && b.as_mut_slice() == m, "holds {} instead of {}", hex(&b), hex(&m));
                        ensure!(b.len() == m.len() && b.is_empty() == m.is_empty() && b.remaining() == N - m.len(), "len {} remaining {}", b.len(), b.remaining());
                    }
                    let whole = b.into_bytes();
                    ensure!(whole.map(|b| b.to_vec()) == (m.len() == N).then(|| m.clone()), "{whole:?} from {}", hex(&m));
                    Ok(Fp::new().u64(N as u64).bytes(&m).u64(seq.len() as u64).done())
                },
            );
            fam.count_transitions(seq.len() as u64);
        });
        fam.case(
            || "with_capacity".to_string(),
            || {
                for cap in 0..=N + 1 {
                    let r = no_panic(|| FixedBytes::<N>::with_capacity(cap).len());
                    ensure!(r.is_ok() == (cap <= N), "capacity {cap} of {N}: {r:?}");
                }
                Ok(1)
            },
        );
    });
}

fn main() {
    let mut c = Check::new(
        "P13",
        Level::FaultEnumeration,
        "every destination (slices of every size, vectors, fixed buffers, allocated buffers, io::Write) and every fault of it for every value of every shape and derived type in every format; every schedule of the first calls of an io::Write; every history of operations on the fixed buffer; a case is a value, non-trivial when its message is not empty, distinct by (format, bytes)",
    );
    c.assume("an io::Write follows its contract: it reports no more than it was given, and writes nothing when it fails");
    c.assume("messages of more than 512 bytes are cut at 80 places at either end and around powers of two");
    for f in each_format!(subjects) {
        c.fam(format!("leaf/{}", f.name()), move |fam| {
            for s in leaves() {
                for v in values(&s, fam.bound(1, 0)) {
                    one(fam, f, &s, &v);
                }
            }
        });
        c.fam(format!("container/{}", f.name()), move |fam| {
            for s in containers(&leaves(), &[Shape::U8, Shape::Str]) {
                for v in values(&s, fam.bound(2, 1)) {
                    one(fam, f, &s, &v);
                }
            }
        });
        c.fam(format!("nested/{}", f.name()), move |fam| {
            let base = if fam.thorough() { leaves() } else { class_leaves() };
            for s in nested(&base) {
                for v in values(&s, fam.bound(3, 2)) {
                    one(fam, f, &s, &v);
                }
            }
        });
        c.fam(format!("schedule/{}", f.name()), move |fam| {
            for s in nested(&[Shape::U8, Shape::Str]) {
                for v in values(&s, 3).into_iter().take(2) {
                    let depth = fam.bound(4, 6);
                    schedules(fam, f, &s, &v, depth);
                }
            }
        });
    }
    {
        use eng::zoo::{Index, *};
        each_zoo!(types c StorageVar);
        each_zoo!(types c WireVar);
        each_zoo!(types c DescVar);
        each_zoo!(types c PackedDef);
        each_zoo!(types c JsonText);
    }
    histories::<0>(&mut c);
    histories::<1>(&mut c);
    histories::<2>(&mut c);
    histories::<3>(&mut c);
    c.run()
}
