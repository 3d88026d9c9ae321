//! P24: a stored trie is an exact multimap with prefix iteration.
//!
//! Every sequence of insertions up to a length over a universe of keys is
//! built and then queried exhaustively: every key and every prefix of the
//! universe (and keys outside of it), with every iterator. The oracle is a
//! multimap.

use std::collections::BTreeMap;
use std::fmt::Debug;

use kit::*;
use musli_zerocopy::endian::{Big, Little, Native};
use musli_zerocopy::slice::Packed;
use musli_zerocopy::trie::{self, Builder, DefaultFlavor, Flavor, TrieRef};
use musli_zerocopy::{ByteOrder, OwnedBuf, Ref, Size, ZeroCopy};

kit::global_allocator!();

struct PackedFlavor;

impl Flavor for PackedFlavor {
    type String = Packed<[u8], u32, u8>;
    type Values<T>
        = Packed<[T], u32, u16>
    where
        T: ZeroCopy;
    type Children<T>
        = Packed<[T], u32, u8>
    where
        T: ZeroCopy;
}

struct PackedBig;

impl Flavor for PackedBig {
    type String = Packed<[u8], u16, u16, Big>;
    type Values<T>
        = Packed<[T], u16, u8, Big>
    where
        T: ZeroCopy;
    type Children<T>
        = Ref<[T], Little, u16>
    where
        T: ZeroCopy;
}

/// What values look like.
trait Value: ZeroCopy + Copy + Ord + Debug + 'static {
    fn make(n: usize) -> Self;
}

impl Value for u32 {
    fn make(n: usize) -> Self {
        n as u32 + 1
    }
}
impl Value for u8 {
    fn make(n: usize) -> Self {
        n as u8 + 1
    }
}
impl Value for u64 {
    fn make(n: usize) -> Self {
        (n as u64 + 1) << 40 | n as u64
    }
}

struct Setup {
    universe: Vec<Vec<u8>>,
    /// Queried besides the universe.
    extra: Vec<Vec<u8>>,
}

impl Setup {
    fn new(universe: Vec<Vec<u8>>) -> Self {
        let mut extra = Vec::new();
        for k in &universe {
            for b in [0u8, b'a', b'b', b'c', 255] {
                let mut k = k.clone();
                k.push(b);
                extra.push(k);
            }
            for n in 0..k.len() {
                extra.push(k[..n].to_vec());
            }
        }
        extra.push(vec![]);
        extra.push(vec![b'c', b'a']);
        extra.sort();
        extra.dedup();
        extra.retain(|k| !universe.contains(k));
        Self { universe, extra }
    }

    fn over(alphabet: &[u8], max: usize) -> Self {
        let mut all = vec![vec![]];
        let mut last = all.clone();
        for _ in 0..max {
            let mut next = Vec::new();
            for k in &last {
                for &b in alphabet {
                    let mut k: Vec<u8> = k.clone();
                    k.push(b);
                    next.push(k);
                }
            }
            all.extend(next.iter().cloned());
            last = next;
        }
        Self::new(all)
    }

    fn words(words: &[&[u8]]) -> Self {
        Self::new(words.iter().map(|w| w.to_vec()).collect())
    }

    fn queries(&self) -> impl Iterator<Item = &Vec<u8>> {
        self.universe.iter().chain(&self.extra)
    }
}

fn show(k: &[u8]) -> String {
    k.escape_ascii().to_string()
}

/// Collect all that is yielded, up to and including the first error.
fn drain<T>(
    it: impl Iterator<Item = Result<T, musli_zerocopy::Error>>,
    most: usize,
) -> Result<(Vec<T>, Option<String>), String> {
    let mut out = Vec::new();
    for r in it {
        match r {
            Ok(v) => out.push(v),
            Err(e) => return Ok((out, Some(e.to_string()))),
        }
        if out.len() > most {
            return Err(format!("yields more than the {most} entries there are"));
        }
    }
    Ok((out, None))
}

fn all<T>(
    it: impl Iterator<Item = Result<T, musli_zerocopy::Error>>,
    most: usize,
) -> Result<Vec<T>, String> {
    match drain(it, most)? {
        (v, None) => Ok(v),
        (_, Some(e)) => Err(format!("fails: {e}")),
    }
}

fn build<E: ByteOrder, O: Size, F: Flavor, T: Value>(
    setup: &Setup,
    seq: &[usize],
) -> Result<(OwnedBuf<E, O>, TrieRef<T, F>), String> {
    let mut buf = OwnedBuf::new().with_byte_order::<E>().with_size::<O>();
    // Every insertion stores its own key, alternating between strings and
    // bytes.
    let mut trie = Builder::<T, F>::with_flavor();
    for (n, &i) in seq.iter().enumerate() {
        let key = &setup.universe[i];
        let r = match std::str::from_utf8(key) {
            Ok(s) if n % 2 == 0 => {
                let r = buf.store_unsized(s);
                trie.insert(&buf, r, T::make(n))
            }
            _ => {
                let r = buf.store_slice(key);
                trie.insert(&buf, r, T::make(n))
            }
        };
        r.map_err(|e| format!("inserting {}: {e}", show(key)))?;
    }
    let t = trie.build(&mut buf).map_err(|e| format!("building: {e}"))?;
    Ok((buf, t))
}

fn judge<E: ByteOrder, O: Size, F: Flavor, T: Value>(
    setup: &Setup,
    seq: &[usize],
    buf: &OwnedBuf<E, O>,
    t: &TrieRef<T, F>,
) -> Result<u64, Failure> {
    let mut model = BTreeMap::<&[u8], Vec<T>>::new();
    for (n, &i) in seq.iter().enumerate() {
        model
            .entry(&setup.universe[i])
            .or_default()
            .push(T::make(n));
    }
    let n = seq.len();
    let mut calls = 0u64;

    for q in setup.queries() {
        let want = model.get(&q[..]).map(|v| &v[..]).unwrap_or(&[]);
        let got = t
            .get(buf, q)
            .map_err(|e| format!("get({:?}) fails: {e}", show(q)))?;
        calls += 1;
        ensure!(
            got.unwrap_or(&[]) == want,
            "get({:?}) = {got:?} but {want:?} was inserted",
            show(q)
        );
        ensure!(
            want.is_empty() || got.is_some(),
            "get({:?}) = None but {want:?} was inserted",
            show(q)
        );
    }

    let want_all = pairs(&model, &[]);
    same_pairs("iter", all(t.iter(buf), n), &want_all)?;
    same_values("values", all(t.values(buf), n), &want_all)?;
    same_pairs(
        "iter_fixed::<40>",
        all(t.iter_fixed::<40>(buf), n),
        &want_all,
    )?;
    same_values(
        "values_fixed::<40>",
        all(t.values_fixed::<40>(buf), n),
        &want_all,
    )?;

    for q in setup.queries() {
        let want = pairs(&model, q);
        let at = |what: &str| format!("{what}({:?})", show(q));
        same_pairs(&at("iter_in"), all(t.iter_in(buf, q), n), &want)?;
        same_values(&at("values_in"), all(t.values_in(buf, q), n), &want)?;
        same_pairs(
            &at("iter_in_fixed::<40>"),
            all(t.iter_in_fixed::<40, _>(buf, q), n),
            &want,
        )?;
        same_values(
            &at("values_in_fixed::<40>"),
            all(t.values_in_fixed::<40, _>(buf, q), n),
            &want,
        )?;
        calls += 4;
    }

    // Small stacks: the same, or an overflow.
    let free = all(t.iter(buf), n).map_err(Failure::from)?;
    macro_rules! fixed {
        ($($n:literal)*) => {$(
            let (got, e) = drain(t.iter_fixed::<$n>(buf), n)?;
            short(concat!("iter_fixed::<", $n, ">"), got, e, &free)?;
            for q in setup.queries() {
                let free = all(t.iter_in(buf, q), n).map_err(Failure::from)?;
                let (got, e) = drain(t.iter_in_fixed::<$n, _>(buf, q), n)?;
                short(concat!("iter_in_fixed::<", $n, ">"), got, e, &free)?;
                calls += 1;
            }
        )*};
    }
    fixed!(0 1 2 3);
    kit::progress();
    Ok(calls)
}

fn short<T: PartialEq + Debug>(
    what: &str,
    got: Vec<(&[u8], &T)>,
    e: Option<String>,
    free: &[(&[u8], &T)],
) -> Result<(), Failure> {
    match e {
        None => ensure!(got == free, "{what}: yields {got:?} but iter {free:?}"),
        Some(e) => {
            ensure!(
                e.contains("tack"),
                "{what}: fails with something else than an overflow: {e}"
            );
            ensure!(
                free.starts_with(&got),
                "{what}: yields {got:?} before it overflows but iter {free:?}"
            );
        }
    }
    Ok(())
}

fn pairs<'a, T: Copy + Ord>(
    model: &BTreeMap<&'a [u8], Vec<T>>,
    prefix: &[u8],
) -> Vec<(&'a [u8], T)> {
    let mut out: Vec<_> = model
        .iter()
        .filter(|(k, _)| k.starts_with(prefix))
        .flat_map(|(k, v)| v.iter().map(|v| (*k, *v)))
        .collect();
    out.sort();
    out
}

fn same_pairs<T: Copy + Ord + Debug>(
    what: &str,
    got: Result<Vec<(&[u8], &T)>, String>,
    want: &[(&[u8], T)],
) -> Result<(), Failure> {
    let got = got.map_err(|e| format!("{what} {e}"))?;
    let mut got: Vec<_> = got.into_iter().map(|(k, v)| (k, *v)).collect();
    got.sort();
    ensure!(got == want, "{what} yields {got:?} instead of {want:?}");
    Ok(())
}

fn same_values<T: Copy + Ord + Debug>(
    what: &str,
    got: Result<Vec<&T>, String>,
    want: &[(&[u8], T)],
) -> Result<(), Failure> {
    let got = got.map_err(|e| format!("{what} {e}"))?;
    let mut got: Vec<_> = got.into_iter().copied().collect();
    got.sort();
    let mut want: Vec<_> = want.iter().map(|v| v.1).collect();
    want.sort();
    ensure!(got == want, "{what} yields {got:?} instead of {want:?}");
    Ok(())
}

fn one<E: ByteOrder, O: Size, F: Flavor, T: Value>(
    setup: &Setup,
    seq: &[usize],
    must_build: bool,
) -> CaseResult {
    let built = no_panic(|| build::<E, O, F, T>(setup, seq))?;
    let (mut buf, t) = match built {
        Ok(v) => v,
        Err(_) if !must_build => return Ok(0),
        Err(e) => fail!("{e}"),
    };
    judge(setup, seq, &buf, &t)?;
    // And when the trie is part of the archive, which is moved elsewhere.
    let r = buf.store(&t);
    let copy = buf.clone();
    drop(buf);
    let t = copy
        .load(r)
        .map_err(|e| format!("the stored trie does not load: {e}"))?;
    let n = judge(setup, seq, &copy, t)?;
    Ok(Fp::new().bytes(copy.as_slice()).u64(n).done())
}

fn name(setup: &Setup, seq: &[usize]) -> String {
    let keys: Vec<_> = seq.iter().map(|&i| show(&setup.universe[i])).collect();
    format!("insert {keys:?}")
}

fn seqs<E: ByteOrder, O: Size, F: Flavor + 'static, T: Value>(
    c: &mut Check,
    family: &'static str,
    setup: fn() -> Setup,
    q: usize,
    t: usize,
) {
    c.fam_sharded(family, 8, move |fam| {
        let setup = setup();
        let most = fam.bound(q, t);
        {
            rng::sequences(setup.universe.len(), most, |seq| {
                fam.case(
                    || name(&setup, seq),
                    || one::<E, O, F, T>(&setup, seq, true),
                );
                fam.count_transitions(1);
            });
        }
    });
}

fn perms<F: Flavor + 'static>(
    c: &mut Check,
    family: &'static str,
    setup: fn() -> Setup,
    must_build: bool,
) {
    c.fam_sharded(family, 8, move |fam| {
        let setup = setup();
        rng::permutations(setup.universe.len(), |p| {
            fam.case(
                || name(&setup, p),
                || one::<Native, u32, F, u32>(&setup, p, must_build),
            );
        });
    });
}

fn binary() -> Setup {
    Setup::over(b"ab", 3)
}
fn unary() -> Setup {
    Setup::over(b"a", 6)
}
fn ternary() -> Setup {
    Setup::over(&[0, b'a', 255], 2)
}
fn working() -> Setup {
    Setup::words(&[
        b"work",
        b"worker",
        b"workers",
        b"working",
        b"working man",
        b"run",
        b"running",
    ])
}
fn ladder() -> Setup {
    Setup::words(&[b"", b"r", b"ro", b"rom", b"roman", b"romane", b"romanus"])
}
fn radix() -> Setup {
    Setup::words(&[
        b"ruber",
        b"rubens",
        b"rubicon",
        b"rubicundus",
        b"romulus",
        b"rub",
        b"x",
    ])
}
fn unicode() -> Setup {
    Setup::words(&[
        "食べる".as_bytes(),
        "食べない".as_bytes(),
        "食".as_bytes(),
        "飲む".as_bytes(),
        "\u{e9}".as_bytes(),
        "\u{ea}".as_bytes(),
        b"\xe9\xa3",
    ])
}

fn main() {
    let mut c = Check::new(
        "P24",
        Level::Exploration,
        "distinct contents of the buffer holding the trie",
    );
    c.assume("Some(&[]) and None both mean that there is no value for a key");
    c.assume("the order in which entries are iterated is unspecified, as documented");

    seqs::<Native, u32, DefaultFlavor, u32>(&mut c, "sequences/binary/default", binary, 4, 5);
    seqs::<Big, u16, DefaultFlavor<Big, u16>, u64>(&mut c, "sequences/binary/big", binary, 3, 4);
    seqs::<Native, u32, PackedFlavor, u8>(&mut c, "sequences/binary/packed", binary, 3, 5);
    seqs::<Little, u64, PackedBig, u32>(&mut c, "sequences/binary/mixed", binary, 3, 4);
    seqs::<Native, usize, DefaultFlavor<Native, usize>, u32>(
        &mut c,
        "sequences/unary/default",
        unary,
        4,
        6,
    );
    seqs::<Native, u32, PackedFlavor, u32>(&mut c, "sequences/unary/packed", unary, 4, 5);
    seqs::<Native, u32, DefaultFlavor, u32>(&mut c, "sequences/ternary/default", ternary, 3, 5);

    perms::<DefaultFlavor>(&mut c, "orders/working", working, true);
    perms::<DefaultFlavor<Big, u32>>(&mut c, "orders/ladder", ladder, true);
    perms::<PackedFlavor>(&mut c, "orders/radix", radix, true);
    perms::<DefaultFlavor>(&mut c, "orders/unicode", unicode, true);

    // As many children and as long strings as the flavor allows, and more.
    fn wide<F: Flavor + 'static>(c: &mut Check, family: &'static str, limit: usize) {
        c.fam_sharded(family, 8, move |fam| {
            let step = fam.bound(5, 1);
            for n in (0..=256).step_by(step).chain([254, 255, 256]) {
                for stride in [1usize, 255, 77, 129] {
                    for pre in [&b""[..], b"p", b"pre"] {
                        fam.case(
                            || format!("{n} keys {:?} and a byte, stride {stride}", show(pre)),
                            || {
                                let setup = Setup {
                                    universe: (0..n)
                                        .map(|i| {
                                            let mut k = pre.to_vec();
                                            k.push((i * stride) as u8);
                                            k
                                        })
                                        .collect(),
                                    extra: vec![
                                        vec![],
                                        b"p".to_vec(),
                                        b"pre\0\0".to_vec(),
                                        b"pre".to_vec(),
                                    ],
                                };
                                let seq: Vec<_> = (0..n).collect();
                                one::<Native, u32, F, u32>(&setup, &seq, n <= limit)
                            },
                        );
                    }
                }
            }
        });
    }
    wide::<DefaultFlavor>(&mut c, "wide/default", usize::MAX);
    wide::<PackedFlavor>(&mut c, "wide/packed", 255);

    fn long<F: Flavor + 'static>(c: &mut Check, family: &'static str, limit: usize) {
        c.fam_sharded(family, 8, move |fam| {
            let lens = [0usize, 1, 2, 127, 128, 254, 255, 256, 257, 300];
            for a in lens {
                for b in lens {
                    for common in lens {
                        if common > a || common > b {
                            continue;
                        }
                        fam.case(
                            || format!("keys of {a} and {b} bytes which have {common} in common"),
                            || {
                                let key = |n: usize, x: u8| {
                                    (0..n)
                                        .map(|i| if i < common { b'c' } else { x })
                                        .collect::<Vec<_>>()
                                };
                                let mut universe = vec![key(a, b'a'), key(b, b'b')];
                                universe.dedup();
                                let extra =
                                    vec![key(common, 0), key(common + 1, b'x'), key(common / 2, 0)]
                                        .into_iter()
                                        .filter(|k| !universe.contains(k))
                                        .collect();
                                let setup = Setup { universe, extra };
                                let seq: Vec<_> = (0..setup.universe.len()).collect();
                                one::<Native, u32, F, u32>(&setup, &seq, a.max(b) <= limit)
                            },
                        );
                    }
                }
            }
        });
    }
    long::<DefaultFlavor>(&mut c, "long/default", usize::MAX);
    long::<PackedFlavor>(&mut c, "long/packed", 255);

    // Many values for one key.
    c.fam("values", |fam| {
        for n in [
            0usize, 1, 2, 127, 128, 255, 256, 257, 1000, 65535, 65536, 70000,
        ] {
            fam.case(
                || format!("{n} values for one of two keys"),
                || {
                    let setup = Setup::words(&[b"key", b"keys"]);
                    let mut seq = vec![0; n];
                    seq.push(1);
                    one::<Native, u32, DefaultFlavor, u32>(&setup, &seq, true)?;
                    one::<Native, u32, PackedFlavor, u32>(&setup, &seq, n <= 65535)
                },
            );
        }
    });

    // trie::store does the same as the builder.
    c.fam_sharded("store", 8, |fam| {
        let setup = binary();
        let most = fam.bound(2, 3);
        {
            rng::sequences(setup.universe.len(), most, |seq| {
                fam.case(
                    || name(&setup, seq),
                    || {
                        let mut buf = OwnedBuf::new();
                        let items: Vec<_> = seq
                            .iter()
                            .enumerate()
                            .map(|(n, &i)| (buf.store_slice(&setup.universe[i]), u32::make(n)))
                            .collect();
                        let t = trie::store(&mut buf, items).map_err(|e| e.to_string())?;
                        judge(&setup, seq, &buf, &t)?;
                        let shown = format!("{:?}", t.debug(&buf));
                        let fixed = format!("{:?}", t.debug_fixed::<40>(&buf));
                        ensure!(
                            shown == fixed,
                            "debug shows {shown} but debug_fixed {fixed}"
                        );
                        let colons = shown.matches(": ").count();
                        ensure!(colons == seq.len(), "debug shows {shown}");
                        Ok(fp(buf.as_slice()))
                    },
                );
            });
        }
    });
    c.run();
}
