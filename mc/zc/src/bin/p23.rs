//! P23: stored phf and swiss maps and sets answer exactly like the data they
//! store.
//!
//! All subsets of a small universe, all orders of small sets, and key sets of
//! every size up to a bound are stored, and every key of the universe is
//! queried through the stored reference and through the bound map, by value
//! and by stored key.

use std::fmt::Debug;
use std::hash::Hash;

use kit::*;
use musli_zerocopy::buf::StoreBuf;
use musli_zerocopy::endian::{Big, Little, Native};
use musli_zerocopy::{phf, swiss, Buf, ByteOrder, OwnedBuf, Ref, Size, SliceMut, Visit, ZeroCopy};

kit::global_allocator!();

/// A kind of key.
trait Key<E: ByteOrder, O: Size>: 'static {
    const NAME: &'static str;
    type K: ZeroCopy + Visit<Target = <Self::Q as Visit>::Target>;
    type Q: ?Sized + Visit<Target: Hash + Eq>;
    fn put(buf: &mut OwnedBuf<E, O>, n: u64) -> Self::K;
    fn with<R>(n: u64, f: impl FnOnce(&Self::Q) -> R) -> R;
}

macro_rules! int_key {
    ($($name:ident $ty:ty, $f:expr;)*) => {$(
        struct $name;
        impl<E: ByteOrder, O: Size> Key<E, O> for $name {
            const NAME: &'static str = stringify!($name);
            type K = $ty;
            type Q = $ty;
            fn put(_: &mut OwnedBuf<E, O>, n: u64) -> $ty {
                let f: fn(u64) -> $ty = $f;
                f(n)
            }
            fn with<R>(n: u64, g: impl FnOnce(&$ty) -> R) -> R {
                let f: fn(u64) -> $ty = $f;
                g(&f(n))
            }
        }
    )*};
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, ZeroCopy, Visit)]
#[repr(C)]
struct Pair {
    a: u8,
    b: u32,
}

int_key! {
    U8 u8, |n| n as u8;
    U32 u32, |n| n as u32;
    // Far apart, with all bits in use.
    Spread u64, |n| n.wrapping_mul(0x9e37_79b9_7f4a_7c15);
    I16 i16, |n| (n as i16).wrapping_sub(300);
    Char char, |n| char::from_u32(if n < 0xd000 { n as u32 } else { n as u32 + 0x1000 }).unwrap();
    Wide u128, |n| (n as u128) << 64 | 7;
    Struct Pair, |n| Pair { a: n as u8, b: (n >> 4) as u32 };
}

fn text(n: u64) -> String {
    match n {
        0 => String::new(),
        n if n % 3 == 0 => "k".repeat(n as usize % 40) + &n.to_string(),
        n if n % 3 == 1 => format!("é{n}"),
        n => n.to_string(),
    }
}

struct Str;
impl<E: ByteOrder, O: Size> Key<E, O> for Str {
    const NAME: &'static str = "Str";
    type K = Ref<str, E, O>;
    type Q = str;
    fn put(buf: &mut OwnedBuf<E, O>, n: u64) -> Self::K {
        buf.store_unsized(&text(n)[..])
    }
    fn with<R>(n: u64, f: impl FnOnce(&str) -> R) -> R {
        f(&text(n))
    }
}

struct Bytes;
impl<E: ByteOrder, O: Size> Key<E, O> for Bytes {
    const NAME: &'static str = "Bytes";
    type K = Ref<[u8], E, O>;
    type Q = [u8];
    fn put(buf: &mut OwnedBuf<E, O>, n: u64) -> Self::K {
        buf.store_slice(text(n).as_bytes())
    }
    fn with<R>(n: u64, f: impl FnOnce(&[u8]) -> R) -> R {
        f(text(n).as_bytes())
    }
}

/// A reference to a number.
struct Indirect;
impl<E: ByteOrder, O: Size> Key<E, O> for Indirect {
    const NAME: &'static str = "Indirect";
    type K = Ref<u32, E, O>;
    type Q = u32;
    fn put(buf: &mut OwnedBuf<E, O>, n: u64) -> Self::K {
        buf.store(&(n as u32))
    }
    fn with<R>(n: u64, f: impl FnOnce(&u32) -> R) -> R {
        f(&(n as u32))
    }
}

trait Value: ZeroCopy + PartialEq + Debug + 'static {
    fn of(n: u64) -> Self;
}
impl Value for u32 {
    fn of(n: u64) -> Self {
        n as u32 ^ 0x55aa
    }
}
impl Value for u8 {
    fn of(n: u64) -> Self {
        n as u8 ^ 0x5a
    }
}
impl Value for [u64; 3] {
    fn of(n: u64) -> Self {
        [n, !n, n << 7]
    }
}
impl Value for () {
    fn of(_: u64) -> Self {}
}

#[derive(Clone, Copy, PartialEq)]
enum What {
    PhfMap,
    PhfSet,
    SwissMap,
    SwissSet,
}

/// What is in the buffer around the map.
#[derive(Clone, Copy)]
struct Around {
    before: usize,
    after: usize,
}

const PLAIN: Around = Around {
    before: 0,
    after: 0,
};

fn err<T>(what: &str, r: Result<T, musli_zerocopy::Error>) -> Result<T, Failure> {
    r.map_err(|e| Failure::from(format!("{what}: {e}")))
}

/// A key which has been put into the archive which is queried.
struct Stored<K> {
    n: u64,
    key: K,
}

fn case<E: ByteOrder, O: Size, K: Key<E, O>, V: Value>(
    what: What,
    keys: &[u64],
    queries: &[u64],
    around: Around,
) -> CaseResult {
    let mut buf = OwnedBuf::new().with_byte_order::<E>().with_size::<O>();
    buf.extend_from_slice(&vec![0xa5u8; around.before]);
    // What absent keys are stored as has to precede the map, too: it would
    // otherwise not be there when the map is queried by it.
    let stored: Vec<_> = keys
        .iter()
        .map(|&n| Stored {
            n,
            key: K::put(&mut buf, n),
        })
        .collect();
    let absent: Vec<_> = queries
        .iter()
        .filter(|n| !keys.contains(n))
        .take(4)
        .map(|&n| Stored {
            n,
            key: K::put(&mut buf, n),
        })
        .collect();
    let by_key: Vec<&Stored<K::K>> = stored.iter().chain(&absent).collect();

    macro_rules! moved {
        ($r:ident, $copy:ident, $loaded:ident) => {
            let at = buf.store(&$r);
            for n in 0..around.after {
                buf.store(&(n as u16));
            }
            let $copy = buf.clone();
            drop(buf);
            let $loaded = err("loading the reference", $copy.load(at))?;
        };
    }

    let copies = match what {
        What::PhfMap => {
            let items: Vec<_> = stored
                .iter()
                .map(|s| (copied(&s.key), V::of(s.n)))
                .collect();
            let r = err("storing", phf::store_map(&mut buf, items))?;
            moved!(r, copy, loaded);
            let bound = err("binding", copy.bind(copied(loaded)))?;
            for &q in queries {
                let want = keys.contains(&q).then(|| V::of(q));
                let (a, b, c, d, e, f) = K::with(q, |k| {
                    (
                        loaded.get(&copy, k),
                        bound.get(k),
                        loaded.contains_key(&copy, k),
                        bound.contains_key(k),
                        loaded.get_entry(&copy, k).map(|e| e.map(|e| e.1)),
                        bound.get_entry(k).map(|e| e.map(|e| e.1)),
                    )
                });
                same("get", q, err("get", a)?, &want)?;
                same("bound get", q, err("bound get", b)?, &want)?;
                flag("contains_key", q, err("contains_key", c)?, want.is_some())?;
                flag(
                    "bound contains_key",
                    q,
                    err("contains_key", d)?,
                    want.is_some(),
                )?;
                same("get_entry", q, err("get_entry", e)?, &want)?;
                same("bound get_entry", q, err("bound get_entry", f)?, &want)?;
            }
            for s in by_key {
                let want = keys.contains(&s.n).then(|| V::of(s.n));
                same(
                    "get by stored key",
                    s.n,
                    err("get", loaded.get(&copy, &s.key))?,
                    &want,
                )?;
                same(
                    "bound get by stored key",
                    s.n,
                    err("get", bound.get(&s.key))?,
                    &want,
                )?;
            }
            copy
        }
        What::SwissMap => {
            let items: Vec<_> = stored
                .iter()
                .map(|s| (copied(&s.key), V::of(s.n)))
                .collect();
            let r = err("storing", swiss::store_map(&mut buf, items))?;
            moved!(r, copy, loaded);
            let bound = err("binding", copy.bind(copied(loaded)))?;
            let n = keys.len();
            ensure!(
                loaded.len() == n,
                "len() = {} for {n} entries",
                loaded.len()
            );
            ensure!(
                bound.len() == n,
                "bound len() = {} for {n} entries",
                bound.len()
            );
            ensure!(loaded.is_empty() == (n == 0), "is_empty() for {n} entries");
            ensure!(
                bound.is_empty() == (n == 0),
                "bound is_empty() for {n} entries"
            );
            for &q in queries {
                let want = keys.contains(&q).then(|| V::of(q));
                let (a, b, c, d) = K::with(q, |k| {
                    (
                        loaded.get(&copy, k),
                        bound.get(k),
                        loaded.contains_key(&copy, k),
                        bound.contains_key(k),
                    )
                });
                same("get", q, err("get", a)?, &want)?;
                same("bound get", q, err("bound get", b)?, &want)?;
                flag("contains_key", q, err("contains_key", c)?, want.is_some())?;
                flag(
                    "bound contains_key",
                    q,
                    err("contains_key", d)?,
                    want.is_some(),
                )?;
            }
            for s in by_key {
                let want = keys.contains(&s.n).then(|| V::of(s.n));
                same(
                    "get by stored key",
                    s.n,
                    err("get", loaded.get(&copy, &s.key))?,
                    &want,
                )?;
                same(
                    "bound get by stored key",
                    s.n,
                    err("get", bound.get(&s.key))?,
                    &want,
                )?;
            }
            copy
        }
        What::PhfSet => {
            let items: Vec<_> = stored.iter().map(|s| copied(&s.key)).collect();
            let r = err("storing", phf::store_set(&mut buf, items))?;
            moved!(r, copy, loaded);
            let bound = err("binding", copy.bind(copied(loaded)))?;
            for &q in queries {
                let want = keys.contains(&q);
                let (a, b) = K::with(q, |k| (loaded.contains(&copy, k), bound.contains(k)));
                flag("contains", q, err("contains", a)?, want)?;
                flag("bound contains", q, err("contains", b)?, want)?;
            }
            for s in by_key {
                let want = keys.contains(&s.n);
                flag(
                    "contains by stored key",
                    s.n,
                    err("contains", loaded.contains(&copy, &s.key))?,
                    want,
                )?;
                flag(
                    "bound contains by stored key",
                    s.n,
                    err("contains", bound.contains(&s.key))?,
                    want,
                )?;
            }
            copy
        }
        What::SwissSet => {
            let items: Vec<_> = stored.iter().map(|s| copied(&s.key)).collect();
            let r = err("storing", swiss::store_set(&mut buf, items))?;
            moved!(r, copy, loaded);
            let bound = err("binding", copy.bind(copied(loaded)))?;
            for &q in queries {
                let want = keys.contains(&q);
                let (a, b) = K::with(q, |k| (loaded.contains(&copy, k), bound.contains(k)));
                flag("contains", q, err("contains", a)?, want)?;
                flag("bound contains", q, err("contains", b)?, want)?;
            }
            for s in by_key {
                let want = keys.contains(&s.n);
                flag(
                    "contains by stored key",
                    s.n,
                    err("contains", loaded.contains(&copy, &s.key))?,
                    want,
                )?;
                flag(
                    "bound contains by stored key",
                    s.n,
                    err("contains", bound.contains(&s.key))?,
                    want,
                )?;
            }
            copy
        }
    };
    ensure!(
        copies.as_slice()[..around.before]
            .iter()
            .all(|&b| b == 0xa5),
        "data before the map changed"
    );
    // And what follows is as it was stored.
    let end = copies.as_slice();
    for n in 0..around.after {
        let at = end.len() - 2 * (around.after - n);
        ensure!(
            end[at..at + 2] == (n as u16).to_ne_bytes(),
            "data after the map changed"
        );
    }
    kit::progress();
    Ok(Fp::new().bytes(copies.as_slice()).done())
}

fn copied<K: ZeroCopy>(k: &K) -> K {
    // SAFETY: every type of key here is Copy.
    unsafe { std::ptr::read(k) }
}

fn same<V: PartialEq + Debug>(
    what: &str,
    q: u64,
    got: Option<&V>,
    want: &Option<V>,
) -> Result<(), Failure> {
    ensure!(
        got == want.as_ref(),
        "{what}({q}) = {got:?} instead of {want:?}"
    );
    Ok(())
}

fn flag(what: &str, q: u64, got: bool, want: bool) -> Result<(), Failure> {
    ensure!(got == want, "{what}({q}) = {got}");
    Ok(())
}

const ALL: [(What, &str); 4] = [
    (What::PhfMap, "phf map"),
    (What::PhfSet, "phf set"),
    (What::SwissMap, "swiss map"),
    (What::SwissSet, "swiss set"),
];

fn subsets<E: ByteOrder, O: Size, K: Key<E, O>, V: Value>(
    c: &mut Check,
    family: &'static str,
    q: usize,
    t: usize,
) {
    c.fam_sharded(family, 8, move |fam| {
        let n = fam.bound(q, t) as u64;
        let queries: Vec<u64> = (0..n + 4).collect();
        for (what, name) in ALL {
            for set in 0..1u64 << n {
                let keys: Vec<u64> = (0..n).filter(|i| set >> i & 1 == 1).collect();
                let before = set as usize % 17;
                fam.case(
                    || format!("{name} {} {keys:?} after {before} bytes", K::NAME),
                    || case::<E, O, K, V>(what, &keys, &queries, Around { before, after: 1 }),
                );
            }
        }
    });
}

fn sizes<E: ByteOrder, O: Size, K: Key<E, O>, V: Value>(
    c: &mut Check,
    family: &'static str,
    most: u64,
    q: usize,
    t: usize,
) {
    c.fam_sharded(family, 8, move |fam| {
        let most = most.min(fam.bound(q, t) as u64);
        for (what, name) in ALL {
            for n in 0..=most {
                let before = n as usize % 9;
                fam.case(
                    || format!("{name} {} 0..{n} after {before} bytes", K::NAME),
                    || {
                        let keys: Vec<u64> = (0..n).collect();
                        let extra = if most == 256 { 256 } else { n + 40 };
                        let queries: Vec<u64> = (0..extra.max(n)).collect();
                        case::<E, O, K, V>(what, &keys, &queries, Around { before, after: 3 })
                    },
                );
            }
        }
    });
}

fn orders<K: Key<Native, u32>>(c: &mut Check, family: &'static str, q: usize, t: usize) {
    c.fam_sharded(family, 8, move |fam| {
        let n = fam.bound(q, t);
        let queries: Vec<u64> = (0..n as u64 * 3 + 2).collect();
        for (what, name) in ALL {
            rng::permutations(n, |p| {
                let keys: Vec<u64> = p.iter().map(|&i| i as u64 * 3).collect();
                fam.case(
                    || format!("{name} {} {keys:?}", K::NAME),
                    || case::<Native, u32, K, u32>(what, &keys, &queries, PLAIN),
                );
            });
        }
    });
}

/// What comes before, for each number of bytes and each kind.
fn placed<E: ByteOrder, O: Size, K: Key<E, O>, V: Value>(c: &mut Check, family: &'static str) {
    c.fam_sharded(family, 8, move |fam| {
        let most = fam.bound(70, 300);
        for (what, name) in ALL {
            for n in [0u64, 1, 3, 5, 7, 8, 13, 14, 15, 28, 29] {
                for before in 0..most {
                    fam.case(
                        || format!("{name} {} 0..{n} after {before} bytes", K::NAME),
                        || {
                            let keys: Vec<u64> = (0..n).collect();
                            let queries: Vec<u64> = (0..n + 4).collect();
                            case::<E, O, K, V>(
                                what,
                                &keys,
                                &queries,
                                Around {
                                    before,
                                    after: before % 3,
                                },
                            )
                        },
                    );
                }
            }
        }
    });
}

/// Store into a fixed slice.
fn in_slice(c: &mut Check) {
    #[repr(align(64))]
    struct Aligned([u8; 16384]);

    fn go<E: ByteOrder>(what: What, keys: &[u64], before: usize, shift: usize) -> CaseResult {
        let queries: Vec<u64> = (0..keys.len() as u64 + 5).collect();
        let mut backing = Box::new(Aligned([0x77; 16384]));
        let mut buf = SliceMut::new(&mut backing.0[shift..])
            .with_byte_order::<E>()
            .with_size::<u16>();
        buf.extend_from_slice(&vec![0xa5; before]);
        let bytes;
        macro_rules! finish {
            ($r:expr) => {{
                let r = $r;
                let mut end: SliceMut<'_, E, u16> = buf;
                let at = end.store(&r);
                bytes = end.as_slice().to_vec();
                at.offset()
            }};
        }
        fn finish(bytes: &[u8]) -> OwnedBuf {
            let mut out = OwnedBuf::with_capacity_and_alignment::<u128>(bytes.len());
            out.extend_from_slice(bytes);
            out
        }
        match what {
            What::PhfMap => {
                let r = err(
                    "storing",
                    phf::store_map(
                        &mut buf,
                        keys.iter()
                            .map(|&n| (n as u32, n as u64))
                            .collect::<Vec<_>>(),
                    ),
                )?;
                let at = finish!(r);
                let copy = finish(&bytes);
                let r = Ref::<phf::MapRef<u32, u64, E, u16>>::new(at);
                let r = err("loading", copy.load(r))?;
                for q in queries {
                    let got = err("get", r.get(&copy, &(q as u32)))?;
                    same("get", q, got, &keys.contains(&q).then_some(q))?;
                }
            }
            What::PhfSet => {
                let r = err(
                    "storing",
                    phf::store_set(&mut buf, keys.iter().map(|&n| n as u32).collect::<Vec<_>>()),
                )?;
                let at = finish!(r);
                let copy = finish(&bytes);
                let r = Ref::<phf::SetRef<u32, E, u16>>::new(at);
                let r = err("loading", copy.load(r))?;
                for q in queries {
                    flag(
                        "contains",
                        q,
                        err("contains", r.contains(&copy, &(q as u32)))?,
                        keys.contains(&q),
                    )?;
                }
            }
            _ => {
                let r = err(
                    "storing",
                    swiss::store_set(&mut buf, keys.iter().map(|&n| n as u32).collect::<Vec<_>>()),
                )?;
                let at = finish!(r);
                let copy = finish(&bytes);
                let r = Ref::<swiss::SetRef<u32, E, u16>>::new(at);
                let r = err("loading", copy.load(r))?;
                for q in queries {
                    flag(
                        "contains",
                        q,
                        err("contains", r.contains(&copy, &(q as u32)))?,
                        keys.contains(&q),
                    )?;
                }
            }
        }
        ensure!(
            bytes[..before].iter().all(|&b| b == 0xa5),
            "data before the map changed"
        );
        let _: &Buf = Buf::new(&bytes);
        Ok(fp(&bytes))
    }

    c.fam_sharded("slice", 8, |fam| {
        for (what, name) in [ALL[0], ALL[1], ALL[3]] {
            for n in 0..fam.bound(40, 200) as u64 {
                for before in [0usize, 1, 4, 9, 16] {
                    // Where the memory itself begins: loads of the builder
                    // need it to be aligned, so only by multiples of 16.
                    for shift in [0usize, 16, 48] {
                        fam.case(
                            || {
                                format!(
                                    "{name} of 0..{n} after {before} bytes in a slice at {shift}"
                                )
                            },
                            || {
                                let keys: Vec<u64> = (0..n).collect();
                                go::<Native>(what, &keys, before, shift)?;
                                go::<Big>(what, &keys, before, shift)
                            },
                        );
                    }
                }
            }
        }
    });
    let _ = |b: &mut dyn Fn(&mut SliceMut<'_>)| {
        fn is<S: StoreBuf>(_: &S) {}
        let _ = b;
        let mut x = [0u8; 1];
        is(&SliceMut::new(&mut x));
    };
}

fn main() {
    let mut c = Check::new(
        "P23",
        Level::Exploration,
        "distinct contents of the buffer holding the map",
    );
    c.assume("the keys stored are distinct (duplicates are documented to be the caller's problem)");

    subsets::<Native, u32, U8, u32>(&mut c, "subsets/u8", 11, 15);
    subsets::<Big, u32, U32, u8>(&mut c, "subsets/u32/big", 11, 15);
    subsets::<Little, u64, Str, u32>(&mut c, "subsets/str", 10, 14);
    subsets::<Big, u16, Bytes, [u64; 3]>(&mut c, "subsets/bytes/big", 10, 14);
    subsets::<Native, usize, Char, ()>(&mut c, "subsets/char", 10, 13);
    subsets::<Native, u32, Struct, u32>(&mut c, "subsets/struct", 10, 13);
    subsets::<Big, u32, Indirect, u32>(&mut c, "subsets/indirect", 10, 13);

    orders::<U32>(&mut c, "orders/u32", 7, 9);
    orders::<Str>(&mut c, "orders/str", 6, 8);

    sizes::<Native, u32, U8, u32>(&mut c, "sizes/u8", 256, 256, 256);
    sizes::<Native, u32, U32, u32>(&mut c, "sizes/u32", u64::MAX, 600, 3000);
    sizes::<Big, u32, Spread, u8>(&mut c, "sizes/spread/big", u64::MAX, 500, 3000);
    sizes::<Little, u32, I16, [u64; 3]>(&mut c, "sizes/i16", u64::MAX, 400, 2000);
    sizes::<Native, u64, Wide, u32>(&mut c, "sizes/u128", u64::MAX, 300, 1500);
    sizes::<Native, u32, Str, u32>(&mut c, "sizes/str", u64::MAX, 300, 1500);
    sizes::<Big, u32, Bytes, ()>(&mut c, "sizes/bytes/big", u64::MAX, 300, 1500);
    sizes::<Native, u32, Struct, u8>(&mut c, "sizes/struct", u64::MAX, 300, 1500);

    placed::<Native, u32, U32, u32>(&mut c, "placed/u32");
    placed::<Big, u16, Str, u8>(&mut c, "placed/str/big");
    placed::<Little, u64, Spread, [u64; 3]>(&mut c, "placed/spread");

    in_slice(&mut c);
    c.run();
}
