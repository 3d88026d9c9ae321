//! Counting and limiting global allocator. Counters are per thread.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static MAX: Cell<usize> = const { Cell::new(0) };
    static TOTAL: Cell<usize> = const { Cell::new(0) };
}

thread_local! {
    /// Requests of this thread left until one fails, with what happens then.
    static FAIL: Cell<(u32, bool)> = const { Cell::new((u32::MAX, false)) };
    static ARMED: Cell<bool> = const { Cell::new(false) };
}

/// The request `n` (from zero) made under [`armed`] fails, and if `rest` all
/// those after it do as well.
pub fn fail_at(n: u32, rest: bool) {
    FAIL.with(|f| f.set((n, rest)));
}

/// No request fails. Returns how many were made under [`armed`] if none did.
pub fn fail_never() -> u32 {
    FAIL.with(|f| u32::MAX - f.replace((u32::MAX, false)).0)
}

/// Requests in here are those that may be made to fail.
pub fn armed<T>(f: impl FnOnce() -> T) -> T {
    struct Disarm(bool);
    impl Drop for Disarm {
        fn drop(&mut self) {
            ARMED.with(|a| a.set(self.0));
        }
    }
    let _d = Disarm(ARMED.with(|a| a.replace(true)));
    f()
}

#[inline]
fn fails() -> bool {
    if !ARMED.try_with(|a| a.get()).unwrap_or(false) {
        return false;
    }
    FAIL.with(|f| {
        let (n, rest) = f.get();
        if n == 0 {
            if !rest {
                f.set((u32::MAX, false));
            }
            true
        } else {
            f.set((n - 1, rest));
            false
        }
    })
}

/// No single request above this is ever satisfied.
pub const HARD_LIMIT: usize = 1 << 30;

#[inline]
fn on_alloc(n: usize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get().saturating_add(n as isize);
        l.set(v);
        PEAK.with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
        MAX.with(|m| {
            if n > m.get() {
                m.set(n)
            }
        });
        TOTAL.with(|t| t.set(t.get().wrapping_add(n)));
    });
}

/// What was asked for is remembered even if it is not given.
#[inline]
fn refused(n: usize) {
    let _ = MAX.try_with(|m| m.set(m.get().max(n)));
    let live = LIVE.try_with(|l| l.get()).unwrap_or(0).saturating_add_unsigned(n);
    let _ = PEAK.try_with(|p| p.set(p.get().max(live)));
}

#[inline]
fn on_free(n: usize) {
    let _ = LIVE.try_with(|l| l.set(l.get() - n as isize));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > HARD_LIMIT || fails() {
            refused(l.size());
            return std::ptr::null_mut();
        }
        on_alloc(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        on_free(l.size());
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > HARD_LIMIT || fails() {
            refused(l.size());
            return std::ptr::null_mut();
        }
        on_alloc(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if new > HARD_LIMIT || fails() {
            refused(new);
            return std::ptr::null_mut();
        }
        on_alloc(new);
        let q = System.realloc(p, l, new);
        if q.is_null() {
            on_free(new);
        } else {
            on_free(l.size());
        }
        q
    }
}

#[derive(Debug, Clone, Copy, Default)]
pub struct Usage {
    /// Peak of live bytes above the start.
    pub peak: usize,
    /// Largest single request.
    pub max: usize,
    /// Sum of all requests.
    pub total: usize,
    /// Bytes still live.
    pub leaked: isize,
}

/// Measure what `f` requests from the global allocator on this thread.
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Usage) {
    let live = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(live));
    MAX.with(|m| m.set(0));
    TOTAL.with(|t| t.set(0));
    let out = f();
    let u = Usage {
        peak: (PEAK.with(|p| p.get()) - live).max(0) as usize,
        max: MAX.with(|m| m.get()),
        total: TOTAL.with(|t| t.get()),
        leaked: LIVE.with(|l| l.get()) - live,
    };
    (out, u)
}

pub fn live() -> isize {
    LIVE.with(|l| l.get())
}

#[macro_export]
macro_rules! global_allocator {
    () => {
        #[global_allocator]
        static GLOBAL: $crate::alloc::Counting = $crate::alloc::Counting;
    };
}
