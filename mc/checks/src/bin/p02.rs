//! P02: derived implementations roundtrip under every attribute.

use eng::*;
use kit::*;
use musli::{Decode, Encode};

kit::global_allocator!();

fn fam<F: Format, T: InFormat<F>>(c: &mut Check) {
    if !T::WHERE.ok(F::KIND) {
        return;
    }
    c.fam(format!("{}/{}", T::NAME, F::NAME), |fam| {
        let level = if fam.thorough() { 0 } else { 1 };
        for v in T::samples(level) {
            one::<F, T>(fam, &v);
        }
    });
}

fn one<F: Format, T: InFormat<F>>(fam: &mut Fam<'_>, v: &T) {
    fam.case(
        || format!("{} {} {v:?}", F::NAME, T::NAME),
        || {
            let b = match v.fenc() {
                Ok(b) => b,
                // The only documented reason not to encode.
                Err(e) if e.contains("out of bounds") && pointer_width(F::OPT).is_some() => {
                    return Ok(0)
                }
                Err(e) => fail!("encoding failed: {e}"),
            };
            let want = v.expected();
            let got = match T::fdec(&b) {
                Ok(got) => got,
                Err(e) => return Err(known::<F, T>(e)),
            };
            ensure!(got == want, "decoded {got:?}, not {want:?} from {}", hex(&b));
            let mut with = b.clone();
            let suffix: &[u8] = if F::KIND == Kind::Json {
                b",7"
            } else {
                b"\x01\xff\x00"
            };
            with.extend_from_slice(suffix);
            // Untagged enums clone the decoder, which `&mut &[u8]` documents
            // it cannot do.
            if T::WHERE != Where::Clone {
                let (got, rest) = T::fdec_rest(&with)?;
                ensure!(got == want, "decoded {got:?} in front of a suffix");
                ensure!(rest == suffix.len(), "left {rest} bytes, not {}", suffix.len());
            }
            Ok(if b.is_empty() {
                0
            } else {
                Fp::new().str(F::NAME).str(T::NAME).bytes(&b).done()
            })
        },
    );
}

/// The failures which the known findings describe.
fn known<F: Format, T: InFormat<F>>(e: String) -> Failure {
    let class = match (T::NAME, F::KIND) {
        // Only encoded differently from how they are decoded, not misread.
        ("RenamedBytes", Kind::Wire) if e == "Expected prefix, but got Sequence" => "byte-names",
        ("RenamedBytes", Kind::Descriptive)
            if e.starts_with("Expected Bytes but was Tag { kind: Sequence") =>
        {
            "byte-names"
        }
        ("InternalMixed", Kind::Descriptive)
            if e == "Value buffer expected usize, but found string with 4 items" =>
        {
            "string-tag-among-numbers"
        }
        ("InternalNum", Kind::Descriptive) if e == "Value buffer expected string, but found u64" => {
            "number-tag-among-strings"
        }
        ("InternalMixed", Kind::Json) if e == "Value buffer expected string containing number" => {
            "string-tag-among-numbers"
        }
        _ => return e.into(),
    };
    classified(class, e)
}

/// Enums with unknown tags, with and without a default variant.
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(name(type = u32))]
enum NewTags {
    #[musli(name = 0)]
    A,
    #[musli(name = 1)]
    B { x: u8 },
    #[musli(name = 77)]
    C { x: u32, y: String },
    #[musli(name = 78)]
    D(Vec<u16>),
    #[musli(name = 79)]
    E,
}
sample!(NewTags: A {}, B { x: u8 }, C { x: u32, y: String }, D { 0: Vec<u16> }, E {});

#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(name(type = u32))]
enum OldDefault {
    #[musli(name = 0)]
    A,
    #[musli(name = 1)]
    B { x: u8 },
    #[musli(name = 2, default)]
    Other,
}

#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(name(type = u32))]
enum OldStrict {
    #[musli(name = 0)]
    A,
    #[musli(name = 1)]
    B { x: u8 },
}

#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(name(type = str))]
enum NewStr {
    A,
    B { x: u8 },
    C { x: u32, y: String },
    D(Vec<u16>),
    Aa,
}
sample!(NewStr: A {}, B { x: u8 }, C { x: u32, y: String }, D { 0: Vec<u16> }, Aa {});

#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(name(type = str))]
enum OldStrDefault {
    A,
    B { x: u8 },
    #[musli(default)]
    Other,
}

#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(name(type = str))]
enum OldStrStrict {
    A,
    B { x: u8 },
}

#[derive(Debug, Clone, PartialEq, Encode, Decode)]
struct Around<T> {
    a: u8,
    e: T,
    v: Vec<T>,
    z: u16,
}

macro_rules! unknown {
    ($c:ident $f:ident $new:ident $default:ident $strict:ident) => {
        $c.fam(
            format!("unknown-variant/{}/{}", stringify!($new), $f::NAME),
            |fam| {
                for v in $new::samples(0) {
                    fam.case(
                        || format!("{} {} {v:?}", $f::NAME, stringify!($new)),
                        || {
                            let (d, s) = match &v {
                                $new::A => ($default::A, Some($strict::A)),
                                $new::B { x } => ($default::B { x: *x }, Some($strict::B { x: *x })),
                                _ => ($default::Other, None),
                            };
                            let w = Around { a: 9, e: v.clone(), v: vec![v.clone(), v.clone()], z: 0x1234 };
                            let b = <$f as Format>::enc(&w)?;
                            let strict = <$f as Format>::dec::<Around<$strict>>(&b);
                            match (&strict, s) {
                                (Ok(got), Some(s)) => {
                                    let want = Around { a: 9, e: s.clone(), v: vec![s.clone(), s], z: 0x1234 };
                                    ensure!(*got == want, "decoded {got:?}");
                                }
                                (Err(_), None) => {}
                                (got, s) => fail!("without a default variant: {got:?}, expected {s:?}"),
                            }
                            let known = d != $default::Other;
                            let got = <$f as Format>::dec::<Around<$default>>(&b);
                            let want = Around { a: 9, e: d.clone(), v: vec![d.clone(), d], z: 0x1234 };
                            match got {
                                Ok(got) => ensure!(got == want, "decoded {got:?}, not {want:?}"),
                                // An unknown variant has to be skipped to find
                                // what follows.
                                Err(e) => ensure!(!known && !$f::KIND.skips(), "failed: {e}"),
                            }
                            Ok(fp(&b))
                        },
                    );
                }
            },
        );
    };
}

macro_rules! all_unknown {
    ($c:ident; $($f:ident)*) => { $(
        unknown!($c $f NewTags OldDefault OldStrict);
        unknown!($c $f NewStr OldStrDefault OldStrStrict);
    )* };
}

macro_rules! types {
    ($c:ident $f:ident; $($t:ident)*) => { $( fam::<$f, $t>(&mut $c); )* };
}

fn main() {
    let mut c = Check::new(
        "P02",
        Level::Exploration,
        "every zoo type (one per derive attribute and combination of interest) x every combination of boundary field values x formats; non-trivial when the encoding is not empty; distinct by (format, type, bytes)",
    );
    c.assume("packed data holds options only at its end, so types with options are left out there; tagged representations are documented for self-descriptive formats only");
    each_zoo!(types c StorageVar);
    each_zoo!(types c StorageFix);
    each_zoo!(types c WireVar);
    each_zoo!(types c WireFixU8);
    each_zoo!(types c WireFixBe);
    each_zoo!(types c DescVar);
    each_zoo!(types c DescFix);
    each_zoo!(types c PackedDef);
    each_zoo!(types c JsonText);
    each_zoo!(types c JsonBinary);
    each_zoo!(types c StorageText);
    each_zoo!(types c WireText);
    each_zoo!(types c DescText);
    each_zoo!(types c PackedText);
    all_unknown!(c; StorageVar StorageFix StorageText WireVar WireFixU8 WireText DescVar DescFix DescText JsonText JsonBinary);
    c.run()
}
