//! P16: running out of allocator memory is an error, never a wrong result.

use std::cell::Cell;
use std::fmt::Debug;

use eng::*;
use kit::guard::GuardBuf;
use kit::*;
use musli::alloc::{Alloc, AllocError, Allocator, Slice, String as MString, System, Vec as MVec};
use musli::context::{self, DefaultContext, Trace};
use musli::value::Value;
use musli::{Context, Decode, Encode};

kit::global_allocator!();

/// An allocator each request of which may be made to fail.
#[derive(Clone, Copy, Debug)]
struct Failing;

thread_local! {
    /// How many requests are left until one fails, whether all after it do.
    static LEFT: Cell<(u32, bool)> = const { Cell::new((u32::MAX, false)) };
    static FAILED: Cell<bool> = const { Cell::new(false) };
    static MADE: Cell<u32> = const { Cell::new(0) };
    static HANDLES: Cell<isize> = const { Cell::new(0) };
}

fn request() -> Result<(), AllocError> {
    MADE.set(MADE.get() + 1);
    let (n, rest) = LEFT.get();
    if n == 0 {
        FAILED.set(true);
        if !rest {
            LEFT.set((u32::MAX, false));
        }
        return Err(AllocError);
    }
    LEFT.set((n - 1, rest));
    Ok(())
}

struct Handle<T>(<System as Allocator>::Alloc<T>);

impl<T> Drop for Handle<T> {
    fn drop(&mut self) {
        HANDLES.set(HANDLES.get() - 1);
    }
}

impl<T> Alloc<T> for Handle<T> {
    fn as_ptr(&self) -> *const T {
        self.0.as_ptr()
    }
    fn as_mut_ptr(&mut self) -> *mut T {
        self.0.as_mut_ptr()
    }
    fn capacity(&self) -> usize {
        self.0.capacity()
    }
    fn resize(&mut self, len: usize, additional: usize) -> Result<(), AllocError> {
        if len.checked_add(additional).is_none_or(|n| n > self.0.capacity()) {
            request()?;
        }
        self.0.resize(len, additional)
    }
    fn try_merge<B: Alloc<T>>(&mut self, _: usize, other: B, _: usize) -> Result<(), B> {
        Err(other)
    }
}

unsafe impl Allocator for Failing {
    const IS_SYSTEM: bool = false;
    type Alloc<T> = Handle<T>;
    fn alloc<T>(self, value: T) -> Result<Handle<T>, AllocError> {
        request()?;
        let a = System::new().alloc(value)?;
        HANDLES.set(HANDLES.get() + 1);
        Ok(Handle(a))
    }
    fn alloc_empty<T>(self) -> Handle<T> {
        HANDLES.set(HANDLES.get() + 1);
        Handle(System::new().alloc_empty())
    }
}

/// Something to do with a context, with a result that can be compared.
trait Job<A: Allocator> {
    fn run<C: Context<Allocator = A>>(&self, cx: C) -> Result<String, C::Error>;
}

/// One way to set up a context.
trait Setup<A: Allocator> {
    const NAME: &'static str;
    /// Run the job any number of times on one context, with what the context
    /// then says of errors.
    fn session(a: A, f: &mut dyn FnMut(&mut dyn FnMut() -> (Result<String, String>, String)), job: &impl Job<A>);
}

macro_rules! setup {
    ($name:ident, $text:expr, $make:expr, |$cx:ident, $r:ident| $report:expr) => {
        struct $name;
        impl<A: Allocator> Setup<A> for $name {
            const NAME: &'static str = $text;
            fn session(a: A, f: &mut dyn FnMut(&mut dyn FnMut() -> (Result<String, String>, String)), job: &impl Job<A>) {
                let $cx = $make(a);
                f(&mut || {
                    let $r = job.run(&$cx);
                    let report = $report;
                    ($r.map_err(|_| String::new()), report)
                })
            }
        }
    };
}
setup!(Plain, "plain", context::new_in, |cx, r| String::new());
setup!(Traced, "trace", |a| context::new_in(a).with_trace(), |cx, r| report(&cx));
setup!(Typed, "trace with types", |a| context::new_in(a).with_trace().with_type(), |cx, r| report(&cx));
setup!(Captured, "capture", |a| context::new_in(a).with_capture::<String>(), |cx, r| match (&r, cx.result()) {
    (Err(_), Err(e)) => {
        assert!(!e.is_empty(), "no message");
        e
    }
    (Ok(_), Ok(())) => String::new(),
    (r, c) => panic!("the result is {} and captured {c:?}", r.is_ok()),
});
setup!(Emitted, "error", |a| context::new_in(a).with_error::<String>(), |cx, r| match &r {
    Err(e) => {
        assert!(!e.is_empty(), "no message");
        e.clone()
    }
    Ok(_) => String::new(),
});

fn report<A: Allocator, C>(cx: &DefaultContext<A, Trace, C>) -> String {
    for e in cx.errors() {
        assert!(!e.to_string().is_empty());
    }
    cx.report().to_string()
}

type Outcome = (Result<String, String>, String);

/// Everything that can go wrong when one request fails.
fn judge(base: &Outcome, got: &Outcome) -> Result<(), Failure> {
    match (&base.0, &got.0) {
        (_, Err(_)) => Ok(()),
        (Ok(a), Ok(b)) if a == b => Ok(()),
        (Ok(a), Ok(b)) => fail!("{b} instead of {a}"),
        (Err(_), Ok(b)) => fail!("{b} instead of an error"),
    }
}

fn failing<S: Setup<Failing>>(job: &impl Job<Failing>, acc: &mut Fp, runs: &mut u64) -> Result<(), Failure> {
    let with = |what: String, f: Failure| Failure { msg: format!("{} context, {what}: {}", <S as Setup<Failing>>::NAME, f.msg), ..f };
    let live = kit::alloc::live();
    HANDLES.set(0);
    let mut run = |fail: (u32, bool), again: bool| -> Result<(Vec<Outcome>, bool), Failure> {
        let mut out = Vec::new();
        let mut reached = false;
        no_panic(|| {
            S::session(
                Failing,
                &mut |go| {
                    FAILED.set(false);
                    LEFT.set(fail);
                    out.push(go());
                    reached = FAILED.get();
                    LEFT.set((u32::MAX, false));
                    if again {
                        out.push(go());
                    }
                },
                job,
            )
        })
        .map_err(|p| format!("panicked: {p}"))?;
        *runs += 1;
        ensure!(HANDLES.get() == 0, "{} allocations are left", HANDLES.get());
        Ok((out, reached))
    };
    MADE.set(0);
    let (out, _) = run((u32::MAX, false), false).map_err(|f| with("no failures".into(), f))?;
    let made = MADE.get();
    let base = &out[0];
    *acc = acc.str(&format!("{base:?}")).u64(made as u64);
    for n in 0..made {
        for rest in [false, true] {
            let r = run((n, rest), true).and_then(|(out, reached)| {
                ensure!(reached, "was not reached");
                judge(base, &out[0])?;
                ensure!(out[1] == *base, "the context then gives {:?} instead of {:?}", out[1], base);
                Ok(())
            });
            r.map_err(|f| with(format!("request {n} of {made} failing{}", if rest { " with all that follow" } else { "" }), f))?;
        }
    }
    drop(out);
    let leaked = kit::alloc::live() - live;
    ensure!(leaked == 0, "{leaked} bytes are left allocated in a {} context", <S as Setup<Failing>>::NAME);
    Ok(())
}

fn sliced<S: Setup<&'static Slice<'static>>>(guard: &mut GuardBuf, sizes: &[usize], base: &Outcome, job: &impl Job<&'static Slice<'static>>, runs: &mut u64) -> Result<(), Failure> {
    for &size in sizes {
        for skew in [0, 3] {
            let w = guard.window_end(size + skew);
            // SAFETY: everything in it is gone before the guard.
            let buf: &'static mut [u8] = unsafe { std::slice::from_raw_parts_mut(w.as_mut_ptr(), size) };
            let slice = Slice::new(buf);
            let a: &'static Slice<'static> = unsafe { &*(&slice as *const Slice<'_>).cast::<Slice<'static>>() };
            let mut out = Vec::new();
            let r = no_panic(|| {
                // Two contexts one after the other in the same memory, each
                // used twice.
                for _ in 0..2 {
                    S::session(
                        a,
                        &mut |go| {
                            out.push(go());
                            out.push(go());
                        },
                        job,
                    )
                }
            });
            *runs += 4;
            let what = || format!("{} context on a slice of {size}, {skew} before a page", <S as Setup<&'static Slice<'static>>>::NAME);
            if let Err(p) = r {
                fail!("{} panicked: {p}", what());
            }
            for (i, o) in out.iter().enumerate() {
                if let Err(f) = judge(base, o) {
                    fail!("{}: run {i}: {}", what(), f.msg);
                }
            }
        }
    }
    Ok(())
}

fn all<J: Job<Failing> + Job<&'static Slice<'static>>>(fam: &mut Fam<'_>, descr: &dyn Fn() -> String, guard: &mut GuardBuf, sizes: &[usize], job: &J) {
    let mut runs = 0;
    fam.case(descr, || {
        let mut acc = Fp::new().str(&descr());
        failing::<Plain>(job, &mut acc, &mut runs)?;
        failing::<Traced>(job, &mut acc, &mut runs)?;
        failing::<Typed>(job, &mut acc, &mut runs)?;
        failing::<Captured>(job, &mut acc, &mut runs)?;
        failing::<Emitted>(job, &mut acc, &mut runs)?;
        let mut base = (Err(String::new()), String::new());
        <Traced as Setup<Failing>>::session(Failing, &mut |go| base = go(), job);
        sliced::<Plain>(guard, sizes, &base, job, &mut runs)?;
        sliced::<Typed>(guard, sizes, &base, job, &mut runs)?;
        Ok(acc.done())
    });
    fam.count_traces(runs);
}

struct Dec<'a, F, T>(&'a [u8], std::marker::PhantomData<(F, T)>);

impl<A: Allocator, F: Format, T> Job<A> for Dec<'_, F, T>
where
    T: for<'de> Decode<'de, F::Mode, A> + Debug,
{
    fn run<C: Context<Allocator = A>>(&self, cx: C) -> Result<String, C::Error> {
        let v: T = F::dec_with(cx, self.0)?;
        Ok(format!("{v:?}"))
    }
}

struct Enc<'a, F, T>(&'a T, std::marker::PhantomData<F>);

impl<A: Allocator, F: Format, T: Encode<F::Mode>> Job<A> for Enc<'_, F, T> {
    fn run<C: Context<Allocator = A>>(&self, cx: C) -> Result<String, C::Error> {
        Ok(hex(&F::enc_with(cx, self.0)?))
    }
}

/// A value in this allocator, decoded and encoded again.
struct ViaValue<'a, F>(&'a [u8], std::marker::PhantomData<F>);

impl<A: Allocator, F: Format> Job<A> for ViaValue<'_, F> {
    fn run<C: Context<Allocator = A>>(&self, cx: C) -> Result<String, C::Error> {
        let v: Value<A> = F::dec_with(cx, self.0)?;
        let b = F::enc_with(cx, &v)?;
        Ok(format!("{v:?} {}", hex(&b)))
    }
}

/// What holds memory of the allocator itself.
#[derive(Decode)]
#[musli(decode_bound = {A: Allocator})]
struct Owned<A: Allocator> {
    s: MString<A>,
    v: MVec<u32, A>,
    #[musli(bytes)]
    b: MVec<u8, A>,
    n: MVec<MString<A>, A>,
    o: Option<MString<A>>,
}

#[derive(Encode)]
struct Source {
    s: String,
    v: Vec<u32>,
    #[musli(bytes)]
    b: Vec<u8>,
    n: Vec<String>,
    o: Option<String>,
}

struct ViaOwned<'a, F>(&'a [u8], std::marker::PhantomData<F>);

impl<A: Allocator, F: Format> Job<A> for ViaOwned<'_, F>
where
    Owned<A>: for<'de> Decode<'de, F::Mode, A>,
    MVec<MString<A>, A>: Encode<F::Mode>,
{
    fn run<C: Context<Allocator = A>>(&self, cx: C) -> Result<String, C::Error> {
        let v: Owned<A> = F::dec_with(cx, self.0)?;
        let b = F::enc_with(cx, &v.n)?;
        Ok(format!("{} {:?} {:?} {:?} {:?} {}", v.s, v.v, v.b, v.n, v.o, hex(&b)))
    }
}

/// Positions to damage a message at.
fn damage(b: &[u8], many: bool) -> Vec<Vec<u8>> {
    let mut v = Vec::new();
    let step = if many { b.len() / 16 + 1 } else { b.len() / 3 + 1 };
    for i in (0..b.len()).step_by(step) {
        v.push(b[..i].to_vec());
        let mut c = b.to_vec();
        c[i] ^= 0x41;
        v.push(c);
    }
    v
}

fn zoo<F: Format, T>(c: &mut Check)
where
    T: Zoo + InFormat<F> + Encode<F::Mode> + for<'de> Decode<'de, F::Mode, Failing> + for<'de> Decode<'de, F::Mode, &'static Slice<'static>>,
{
    if !T::WHERE.ok(F::KIND) {
        return;
    }
    c.fam(format!("{}/{}", T::NAME, F::NAME), |fam| {
        let mut guard = GuardBuf::new(8192);
        let sizes = sizes(fam);
        let samples = T::samples(if fam.thorough() { 2 } else { 3 });
        let most = fam.bound(16, 60);
        let step = samples.len().div_ceil(most).max(1);
        for v in samples.iter().step_by(step) {
            let Ok(b) = v.fenc() else { continue };
            let ph = std::marker::PhantomData;
            all(fam, &|| format!("encode {v:?}"), &mut guard, &sizes, &Enc::<F, T>(v, ph));
            all(fam, &|| format!("decode {v:?}"), &mut guard, &sizes, &Dec::<F, T>(&b, std::marker::PhantomData));
            if F::KIND.self_descriptive() {
                all(fam, &|| format!("buffer {v:?}"), &mut guard, &sizes, &ViaValue::<F>(&b, std::marker::PhantomData));
            }
            for d in damage(&b, true) {
                all(fam, &|| format!("decode {} of {v:?}", hex(&d)), &mut guard, &sizes, &Dec::<F, T>(&d, std::marker::PhantomData));
            }
        }
    });
}

fn sizes(fam: &Fam<'_>) -> Vec<usize> {
    if fam.thorough() {
        (0..400).step_by(3).chain((400..4096).step_by(97)).collect()
    } else {
        vec![0, 16, 40, 72, 101, 160, 256, 400, 800, 2000]
    }
}

macro_rules! zoos {
    ($c:ident; $($t:ident)*) => { $(
        zoo::<StorageVar, $t>(&mut $c);
        zoo::<WireVar, $t>(&mut $c);
        zoo::<DescVar, $t>(&mut $c);
        zoo::<JsonText, $t>(&mut $c);
    )* };
}

fn owned<F: Format>(c: &mut Check)
where
    Source: Encode<F::Mode>,
    Owned<Failing>: for<'de> Decode<'de, F::Mode, Failing>,
    MVec<MString<Failing>, Failing>: Encode<F::Mode>,
    Owned<&'static Slice<'static>>: for<'de> Decode<'de, F::Mode, &'static Slice<'static>>,
    MVec<MString<&'static Slice<'static>>, &'static Slice<'static>>: Encode<F::Mode>,
{
    c.fam(format!("owned/{}", F::NAME), |fam| {
        let mut guard = GuardBuf::new(8192);
        let sizes = sizes(fam);
        let texts = ["", "plain", "with \"escapes\" \n\u{1}", "\u{1f600} and \t much more text that needs to grow"];
        for s in texts {
            for t in texts {
                for n in [0, 1, 3, 20] {
                    let o = Source {
                        s: s.to_string(),
                        v: (0..n).map(|i| i * 1000).collect(),
                        b: (0..n).map(|i| i as u8).collect(),
                        n: (0..n).map(|_| t.to_string()).collect(),
                        o: (n % 2 == 1).then(|| t.to_string()),
                    };
                    let b = F::enc(&o).unwrap();
                    all(fam, &|| format!("{s:?} {t:?} {n}"), &mut guard, &sizes, &ViaOwned::<F>(&b, std::marker::PhantomData));
                    for d in damage(&b, true) {
                        all(fam, &|| format!("{s:?} {t:?} {n} as {}", hex(&d)), &mut guard, &sizes, &ViaOwned::<F>(&d, std::marker::PhantomData));
                    }
                }
            }
        }
    });
}

fn main() {
    let mut c = Check::new(
        "P16",
        Level::FaultEnumeration,
        "for each encoding, decoding or buffering of an enumerated message, intact or damaged, in each kind of context: every allocation request failing in turn, alone and with all that follow, and slices of each size; a case is a message and what is done with it",
    );
    c.assume("the global allocator does not fail");
    use eng::zoo::{Index, *};
    each_zoo!(zoos c);
    owned::<StorageVar>(&mut c);
    owned::<WireVar>(&mut c);
    owned::<DescVar>(&mut c);
    owned::<JsonText>(&mut c);
    c.run()
}
