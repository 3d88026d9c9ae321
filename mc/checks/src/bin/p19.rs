//! P19: implementations for standard library types roundtrip.

use eng::stds::prelude::*;
use eng::*;
use kit::*;
use musli::alloc::System;
use musli::{Decode, Encode};

kit::global_allocator!();

/// A standard type in a format.
trait Std<F: Format>: InFormat<F> {
    fn same_but_flowinfo(a: &Self, b: &Self) -> bool {
        let flow = |v: &Self| {
            let v: &dyn std::any::Any = v;
            match v.downcast_ref::<SocketAddrV6>() {
                Some(v) => Some(*v),
                None => match v.downcast_ref::<SocketAddr>() {
                    Some(SocketAddr::V6(v)) => Some(*v),
                    _ => None,
                },
            }
        };
        match (flow(a), flow(b)) {
            (Some(mut a), Some(b)) => {
                a.set_flowinfo(b.flowinfo());
                a == b
            }
            _ => false,
        }
    }
}
impl<F: Format, T: InFormat<F>> Std<F> for T {}

fn fam<F: Format, T: Std<F>>(c: &mut Check) {
    if !T::WHERE.ok(F::KIND) {
        return;
    }
    c.fam(format!("{}/{}", T::NAME, F::NAME), |fam| {
        for v in T::samples(if fam.thorough() { 0 } else { 1 }) {
            one::<F, T>(fam, &v);
        }
    });
}

fn one<F: Format, T: Std<F>>(fam: &mut Fam<'_>, v: &T) {
    fam.case(
        || format!("{} {} {v:?}", F::NAME, T::NAME),
        || {
            let b = match v.fenc() {
                Ok(b) => b,
                // The only documented reason not to encode.
                Err(e) if e.contains("out of bounds") && pointer_width(F::OPT).is_some() => {
                    return Ok(0)
                }
                Err(e) => fail!("encoding failed: {e}"),
            };
            let got = T::fdec(&b)?;
            if got != *v && T::same_but_flowinfo(&got, v) && text::<F>() {
                return Err(classified("flowinfo", format!("decoded {got:?} with another flowinfo")));
            }
            ensure!(got == *v, "decoded {got:?} from {}", hex(&b));
            let mut with = b.clone();
            let suffix: &[u8] = if F::KIND == Kind::Json {
                b",7"
            } else {
                b"\x01\xff\x00"
            };
            with.extend_from_slice(suffix);
            let (got, rest) = T::fdec_rest(&with)?;
            ensure!(got == *v, "decoded {got:?} in front of a suffix");
            ensure!(rest == suffix.len(), "left {rest} bytes, not {}", suffix.len());
            Ok(if b.is_empty() {
                0
            } else {
                Fp::new().str(F::NAME).str(T::NAME).bytes(&b).done()
            })
        },
    );
}

/// The type as a field and as an element.
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
struct Around<T> {
    a: u8,
    one: T,
    many: Vec<T>,
    pair: (T, u16),
    z: u16,
}

fn around<F: Format, T>(c: &mut Check)
where
    T: Std<F>,
    Around<T>: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
{
    if !T::WHERE.ok(F::KIND) {
        return;
    }
    c.fam(format!("around/{}/{}", T::NAME, F::NAME), |fam| {
        // Values which do not roundtrip on their own are reported there.
        let mut all = T::samples(if fam.thorough() { 1 } else { 2 });
        all.retain(|v| {
            no_panic(|| v.fenc().and_then(|b| T::fdec(&b)))
                .map_or(true, |r| r.map_or(true, |w| !T::same_but_flowinfo(v, &w)))
        });
        for (i, v) in all.iter().enumerate() {
            let other = &all[(i + 1) % all.len()];
            let w = Around {
                a: 9,
                one: v.clone(),
                many: vec![v.clone(), other.clone(), v.clone()],
                pair: (other.clone(), 0xfedc),
                z: 0x1234,
            };
            fam.case(
                || format!("{} {} {w:?}", F::NAME, T::NAME),
                || {
                    let b = match F::enc(&w) {
                        Ok(b) => b,
                        Err(e) if e.contains("out of bounds") && pointer_width(F::OPT).is_some() => {
                            return Ok(0)
                        }
                        Err(e) => fail!("encoding failed: {e}"),
                    };
                    let got: Around<T> = F::dec(&b)?;
                    ensure!(got == w, "decoded {got:?} from {}", hex(&b));
                    Ok(Fp::new().str(F::NAME).str(T::NAME).bytes(&b).done())
                },
            );
        }
    });
}

/// Whatever the value of `A`, decoding it as `B` gives exactly what `f` says.
fn convert<F: Format, A, B>(
    c: &mut Check,
    name: &'static str,
    values: Vec<A>,
    f: impl Fn(&A) -> Option<B> + Send + Sync + Copy + 'static,
) where
    A: std::fmt::Debug + Send + Sync + 'static + Encode<F::Mode>,
    B: std::fmt::Debug + PartialEq + for<'de> Decode<'de, F::Mode, System>,
{
    c.fam(format!("invariant/{name}/{}", F::NAME), move |fam| {
        for v in &values {
            fam.case(
                || format!("{} {name} {v:?}", F::NAME),
                || {
                    let b = match F::enc(v) {
                        Err(e) if e.contains("out of bounds") && pointer_width(F::OPT).is_some() => {
                            return Ok(0)
                        }
                        r => r?,
                    };
                    let got = F::dec::<B>(&b);
                    let want = f(v);
                    match (&got, &want) {
                        (Ok(a), Some(b)) if a == b => {}
                        (Err(_), None) => {}
                        _ => fail!("decoded {got:?}, expected {want:?} from {}", hex(&b)),
                    }
                    Ok(Fp::new().str(F::NAME).str(name).bytes(&b).done())
                },
            );
        }
    });
}

fn text<F: Format>() -> bool {
    std::any::TypeId::of::<F::Mode>() == std::any::TypeId::of::<musli::mode::Text>()
}

/// Types which borrow from the message, or may.
fn lent<F: Format>(c: &mut Check)
where
    str: Encode<F::Mode>,
    [u8]: Encode<F::Mode>,
    CStr: Encode<F::Mode>,
    for<'de> &'de str: Encode<F::Mode> + Decode<'de, F::Mode, System>,
    for<'de> &'de [u8]: Encode<F::Mode> + Decode<'de, F::Mode, System>,
    for<'de> &'de CStr: Encode<F::Mode> + Decode<'de, F::Mode, System>,
    for<'de> Cow<'de, str>: Encode<F::Mode> + Decode<'de, F::Mode, System>,
    for<'de> Cow<'de, CStr>: Encode<F::Mode> + Decode<'de, F::Mode, System>,
    for<'de> compat::Bytes<&'de [u8]>: Encode<F::Mode> + Decode<'de, F::Mode, System>,
    for<'de> compat::Bytes<Cow<'de, [u8]>>: Encode<F::Mode> + Decode<'de, F::Mode, System>,
    for<'de> Vec<&'de str>: Encode<F::Mode> + Decode<'de, F::Mode, System>,
    for<'de> Vec<Cow<'de, str>>: Encode<F::Mode> + Decode<'de, F::Mode, System>,
    for<'de> Option<&'de str>: Encode<F::Mode> + Decode<'de, F::Mode, System>,
    for<'de> (&'de str, Cow<'de, str>, u16): Encode<F::Mode> + Decode<'de, F::Mode, System>,
    for<'de> BTreeMap<&'de str, Cow<'de, str>>: Encode<F::Mode> + Decode<'de, F::Mode, System>,
    for<'de> HashMap<Cow<'de, str>, &'de str>: Encode<F::Mode> + Decode<'de, F::Mode, System>,
    for<'de> Result<&'de str, Cow<'de, str>>: Encode<F::Mode> + Decode<'de, F::Mode, System>,
{
    let json = F::KIND == Kind::Json;
    // What is escaped in JSON cannot be borrowed.
    let plain = move |s: &str| !json || !s.bytes().any(|b| b < 0x20 || b == b'"' || b == b'\\' || b == 0x7f);
    macro_rules! lent {
        ($name:literal, $v:ident in $from:expr, $t:ty, $e:expr) => {
            lent!($name, $v in $from, $t, $e, |e| e.into());
        };
        ($name:literal, $v:ident in $from:expr, $t:ty, $e:expr, $map:expr) => {
            c.fam(format!("lent/{}/{}", $name, F::NAME), move |fam| {
                for $v in $from {
                    let map: fn(String) -> Failure = $map;
                    fam.case(
                        || {
                            let v: $t = $e;
                            format!("{} {} {v:?}", F::NAME, $name)
                        },
                        || {
                            let v: $t = $e;
                            let b = match F::enc(&v) {
                                Err(e) if e.contains("out of bounds") && pointer_width(F::OPT).is_some() => {
                                    return Ok(0)
                                }
                                b => b?,
                            };
                            let got: $t = F::dec(&b).map_err(map)?;
                            ensure!(got == v, "decoded {got:?} from {}", hex(&b));
                            let mut with = b.clone();
                            with.extend_from_slice(if json { b",7" } else { b"\x01\xff" });
                            // An option is told apart by the end of packed data.
                            if !(F::KIND == Kind::Packed && $name.starts_with("Option")) {
                                let (got, rest): ($t, usize) = F::dec_rest(&with)?;
                                ensure!(got == v, "decoded {got:?} in front of a suffix");
                                ensure!(rest == 2, "left {rest} bytes");
                            }
                            Ok(Fp::new().str(F::NAME).str($name).bytes(&b).done())
                        },
                    );
                }
            });
        };
    }
    let strs = move || String::samples(0);
    let plains = move || String::samples(0).into_iter().filter(|s| plain(s)).collect::<Vec<_>>();
    let bytes = || strings(&[0, b'a', 0x7f, 0xff], 4);
    lent!("&str", v in plains(), &str, v.as_str());
    lent!("Cow<str>", v in strs(), Cow<'_, str>, Cow::Borrowed(v.as_str()));
    lent!("Vec<Cow<str>>", v in strs(), Vec<Cow<'_, str>>, vec![Cow::Borrowed(v.as_str()), Cow::Borrowed("x"), Cow::Owned(v.clone())]);
    lent!("Vec<&str>", v in plains(), Vec<&str>, vec![v.as_str(), "", v.as_str()]);
    lent!("Option<&str>", v in plains(), Option<&str>, Some(v.as_str()));
    lent!("tuple", v in plains(), (&str, Cow<'_, str>, u16), (v.as_str(), Cow::Borrowed(v.as_str()), 0xfe01));
    lent!("BTreeMap<&str, Cow<str>>", v in plains(), BTreeMap<&str, Cow<'_, str>>, [(v.as_str(), Cow::Borrowed(v.as_str())), ("k", Cow::Borrowed(""))].into());
    lent!("HashMap<Cow<str>, &str>", v in plains(), HashMap<Cow<'_, str>, &str>, HashMap::from_iter([(Cow::Borrowed(v.as_str()), v.as_str()), (Cow::Borrowed("k"), "")]));
    lent!("Result ok", v in plains(), Result<&str, Cow<'_, str>>, Ok(v.as_str()));
    lent!("Result err", v in strs(), Result<&str, Cow<'_, str>>, Err(Cow::Borrowed(v.as_str())));
    lent!("Bytes<Cow<[u8]>>", v in bytes(), compat::Bytes<Cow<'_, [u8]>>, compat::Bytes(Cow::Borrowed(&v[..])));
    let cstrs = || CString::samples(0);
    lent!("Cow<CStr>", v in cstrs(), Cow<'_, CStr>, Cow::Borrowed(v.as_c_str()));
    // There is nothing to borrow bytes from in JSON, which spells them.
    if !json {
        lent!("Bytes<&[u8]>", v in bytes(), compat::Bytes<&[u8]>, compat::Bytes(&v[..]));
        lent!("&CStr", v in cstrs(), &CStr, v.as_c_str());
        lent!("&[u8]", v in bytes(), &[u8], &v[..], |e| match F::KIND {
            Kind::Wire | Kind::Descriptive => classified("byte-slice", e),
            _ => e.into(),
        });
    }
}

/// Bytes are encoded with `#[musli(bytes)]`.
#[derive(Debug, Encode)]
#[musli(transparent)]
struct AsBytes(#[musli(bytes)] Vec<u8>);

/// The largest tuple.
type T16 = (u8, i8, u16, i16, u32, i32, u64, i64, u8, String, u8, bool, char, f32, u128, i128);
#[derive(Encode, Decode)]
#[musli(transparent)]
struct Big(T16);
impl std::fmt::Debug for Big {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let (a, b, c, d, e, g, h, i, j, k, l, m, n, o, p, q) = &self.0;
        write!(f, "{:?}", ((a, b, c, d, e, g, h, i), (j, k, l, m, n, o, p, q)))
    }
}
impl PartialEq for Big {
    fn eq(&self, o: &Self) -> bool {
        format!("{self:?}") == format!("{o:?}")
    }
}

/// All byte strings over the alphabet up to a length.
fn strings(alphabet: &[u8], n: usize) -> Vec<Vec<u8>> {
    let mut out = vec![vec![]];
    let mut last = out.clone();
    for _ in 0..n {
        let mut next = Vec::new();
        for s in &last {
            for &b in alphabet {
                let mut s = s.clone();
                s.push(b);
                next.push(s);
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}

fn invariants<F: Format>(c: &mut Check)
where
    F::Mode: 'static,
    String: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    CString: for<'de> Decode<'de, F::Mode, System>,
    Box<CStr>: for<'de> Decode<'de, F::Mode, System>,
    AsBytes: Encode<F::Mode>,
    Big: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
{
    macro_rules! non_zero {
        ($($n:ident $t:ident)*) => { $(
            convert::<F, $t, $n>(c, stringify!($n), vec![0, 1, $t::MIN, $t::MAX], |v| $n::new(*v));
            convert::<F, [$t; 3], [$n; 3]>(
                c,
                concat!("array of ", stringify!($n)),
                vec![[1, 0, 1], [1, 1, $t::MAX], [0, 1, 1], [1, 1, 0]],
                |v| Some([$n::new(v[0])?, $n::new(v[1])?, $n::new(v[2])?]),
            );
            convert::<F, Vec<$t>, Vec<$n>>(
                c,
                concat!("vec of ", stringify!($n)),
                vec![vec![], vec![0], vec![1, 0, 1], vec![1, 1, $t::MAX], vec![1, 1, 0]],
                |v| v.iter().map(|v| $n::new(*v)).collect(),
            );
        )* };
    }
    non_zero! {
        NonZeroU8 u8 NonZeroU16 u16 NonZeroU32 u32 NonZeroU64 u64 NonZeroU128 u128 NonZeroUsize usize
        NonZeroI8 i8 NonZeroI16 i16 NonZeroI32 i32 NonZeroI64 i64 NonZeroI128 i128 NonZeroIsize isize
    }
    let b = || strings(&[0, b'a', 0xff], 4).into_iter().map(AsBytes).collect::<Vec<_>>();
    convert::<F, AsBytes, CString>(c, "CString", b(), |v| CString::from_vec_with_nul(v.0.clone()).ok());
    convert::<F, AsBytes, Box<CStr>>(c, "Box<CStr>", b(), |v| {
        CString::from_vec_with_nul(v.0.clone()).ok().map(Into::into)
    });
    // Sequences of the wrong length, in the formats that mark their end.
    let lens = || (0..6u8).map(|n| (0..n).map(u16::from).collect::<Vec<u16>>()).collect::<Vec<_>>();
    convert::<F, Vec<u16>, [u16; 3]>(c, "[u16; 3]", if F::KIND == Kind::Packed { vec![] } else { lens() }, |v| {
        v.as_slice().try_into().ok()
    });
    let big = |n: u8| {
        Big((
            n, n as i8, 300 + n as u16, -300, 70000, -70000, 1 << 40, -(1 << 40), 0, "x".repeat(n as usize), n, n > 3,
            'q', 1.5, 1 << 100, -(1 << 100),
        ))
    };
    convert::<F, Big, Big>(c, "16-tuple", vec![big(0), big(5), big(255)], move |v| Some(big(v.0 .0)));
}

macro_rules! types {
    ($c:ident $f:ident; $([$t:ty])*) => { $( fam::<$f, $t>(&mut $c); around::<$f, $t>(&mut $c); )* };
}

fn main() {
    let mut c = Check::new(
        "P19",
        Level::Exploration,
        "every standard type x boundary values (all values of 8 bit types) x formats, alone, in front of a suffix, and as field, element and tuple member; every value of a wider type decoded as a type with an invariant; distinct by (format, type, bytes)",
    );
    c.assume("the atomic types have no Encode and are covered by P27");
    macro_rules! formats {
        ($($f:ident)*) => { $(
            each_std!(types c $f);
            each_more!(types c $f);
            invariants::<$f>(&mut c);
            lent::<$f>(&mut c);
        )* };
    }
    formats! {
        StorageVar StorageFix StorageText WireVar WireFixU8 WireText DescVar DescFix DescText PackedDef PackedText JsonText JsonBinary
    }
    c.run()
}
