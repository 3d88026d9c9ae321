//! P09: Value stores any value and any self-descriptive message losslessly.

use eng::stds::prelude::*;
use eng::zoo::{Index, *};
use eng::*;
use kit::*;
use musli::alloc::System;
use musli::mode::Binary;
use musli::value::Value;
use musli::{Decode, Encode};

kit::global_allocator!();

fn err(e: impl std::fmt::Display) -> String {
    e.to_string()
}

/// What is packed are bytes of a certain encoding, and nothing says which.
fn directly<F: Format>(a: &Any) -> bool {
    F::KIND == Kind::Descriptive && (F::NAME == DescVar::NAME || !a.has(&|a| matches!(a, Any::Bytes(_))))
}

/// Into a value and back.
fn stored(fam: &mut Fam<'_>, s: &Shape, v: &Val, style: Style) {
    // Packs are the same as in any other self-descriptive format.
    if options_in(Kind::Descriptive, s) == Opts::No {
        return;
    }
    fam.case(
        || {
            if style == Style::default() {
                format!("{s} = {v}")
            } else {
                format!("{s} = {v} with {style:?}")
            }
        },
        || {
            with_style(style, || {
                let x = to_value(s, v)?;
                let got = with_shape(s, || musli::value::decode::<Out>(&x)).map_err(err)?.0;
                ensure!(got == *v, "decoded {got} from {:?}", Any::of(&x));
                // What it says it is, is what it holds.
                let a = Any::of(&x)?;
                let b: Any = musli::value::decode(&x).map_err(err)?;
                ensure!(a == b, "holds {a:?} but decodes as {b:?}");
                let y: Value<System> = musli::value::decode(&x).map_err(err)?;
                let c = Any::of(&y)?;
                ensure!(a == c, "holds {a:?} but decodes as the value {c:?}");
                Ok(Fp::new().str(&format!("{a:?}")).done())
            })
        },
    );
}

/// A message to a value, and that to a message again.
fn message<F: Format>(fam: &mut Fam<'_>, s: &Shape, v: &Val) {
    if !supports(F::KIND, F::OPT, s) || !fits(F::OPT, s, v) || options_in(F::KIND, s) == Opts::No {
        return;
    }
    if F::KIND == Kind::Json && (v.non_finite() || v.null_in_some()) {
        return;
    }
    fam.case(
        || format!("{s} = {v}"),
        || {
            let b = F::enc(&Dyn(s, v))?;
            let (x, rest) = F::dec_rest::<Value<System>>(&b)?;
            ensure!(rest == 0, "{rest} bytes of {} are left", hex(&b));
            let again = F::enc(&x)?;
            let got = with_shape(s, || F::dec::<Out>(&again))
                .map_err(|e| format!("{e} from {}, first {}", hex(&again), hex(&b)))?
                .0;
            ensure!(got == *v, "decoded {got} from {}, first {}", hex(&again), hex(&b));
            let y = F::dec::<Value<System>>(&again)?;
            let (a, c) = (Any::of(&x)?, Any::of(&y)?);
            ensure!(a == c, "{a:?} turned into {c:?}");
            let d = F::dec::<Any>(&b)?;
            ensure!(a == d, "{a:?} is told to be {d:?}");
            if directly::<F>(&a) {
                let got = with_shape(s, || musli::value::decode::<Out>(&x)).map_err(err)?.0;
                ensure!(got == *v, "decoded {got} from {a:?}");
            }
            Ok(Fp::new().str(F::NAME).bytes(&b).done())
        },
    );
}

fn typed_stored<T>(c: &mut Check)
where
    T: Zoo + Encode<Binary>,
    T: for<'de> Decode<'de, Binary, System>,
{
    c.fam(format!("value/{}", T::NAME), |fam| {
        for v in T::samples(if fam.thorough() { 0 } else { 1 }) {
            fam.case(
                || format!("{v:?}"),
                || {
                    let x = musli::value::encode(&v).map_err(err)?;
                    let a = Any::of(&x)?;
                    let got: T = musli::value::decode(&x).map_err(|e| format!("{e} from {a:?}"))?;
                    ensure!(got == v.expected(), "decoded {got:?} from {a:?}");
                    let b: Any = musli::value::decode(&x).map_err(err)?;
                    ensure!(a == b, "holds {a:?} but decodes as {b:?}");
                    Ok(Fp::new().str(T::NAME).str(&format!("{a:?}")).done())
                },
            );
        }
    });
}

fn typed_message<F: Format, T: InFormat<F>>(c: &mut Check, value: fn(&Value<System>) -> Result<T, String>) {
    if !T::WHERE.ok(F::KIND) {
        return;
    }
    c.fam(format!("{}/{}", F::NAME, T::NAME), move |fam| {
        for v in T::samples(if fam.thorough() { 0 } else { 1 }) {
            fam.case(
                || format!("{v:?}"),
                || {
                    if F::KIND == Kind::Json && !v.json() {
                        return Ok(0);
                    }
                    let Ok(b) = v.fenc() else { return Ok(0) };
                    // Whether it roundtrips is for P02 and P19.
                    let Ok(want) = T::fdec(&b) else { return Ok(0) };
                    let x = F::dec::<Value<System>>(&b)?;
                    let again = F::enc(&x)?;
                    let a = Any::of(&x)?;
                    let got = T::fdec(&again).map_err(|e| format!("{e} from {}, first {}", hex(&again), hex(&b)))?;
                    ensure!(got == want, "decoded {got:?} by way of {a:?}");
                    if directly::<F>(&a) {
                        let got = value(&x).map_err(|e| format!("{e} from {a:?}"))?;
                        ensure!(got == want, "decoded {got:?} from {a:?}");
                    }
                    Ok(Fp::new().str(F::NAME).bytes(&b).done())
                },
            );
        }
    });
}

fn from<T: for<'de> Decode<'de, Binary, System>>(x: &Value<System>) -> Result<T, String> {
    musli::value::decode(x).map_err(err)
}

macro_rules! types {
    (@ $c:ident Tree) => { types!(@@ $c Tree); };
    // Its fields refuse its tag everywhere, a known finding of P02.
    (@ $c:ident InternalMixed) => { types!(@@ $c InternalMixed); };
    (@ $c:ident $t:ident) => { typed_stored::<$t>(&mut $c); types!(@@ $c $t); };
    (@@ $c:ident $t:ty) => {
        typed_message::<DescVar, $t>(&mut $c, from);
        typed_message::<DescFixU8, $t>(&mut $c, from);
        typed_message::<JsonText, $t>(&mut $c, |_| Err("not asked for".into()));
        typed_message::<JsonBinary, $t>(&mut $c, |_| Err("not asked for".into()));
    };
    ($c:ident; $([$t:ty])*) => { $( typed_stored::<$t>(&mut $c); types!(@@ $c $t); )* };
    ($c:ident; $($t:ident)*) => { $( types!(@ $c $t); )* };
}

fn main() {
    let mut c = Check::new(
        "P09",
        Level::Exploration,
        "every shape and boundary value, derived and standard type stored in a Value and taken out of it, and every self-descriptive message of them decoded as a Value and encoded again; distinct by (format, what the value holds or the message)",
    );
    c.assume("types whose encoder would be infinitely large in a value (recursive ones) do not compile");
    c.fam("value/leaf", |fam| {
        for s in leaves() {
            for v in values(&s, 0) {
                stored(fam, &s, &v, Style::default());
            }
        }
    });
    c.fam("value/container", |fam| {
        for s in containers(&leaves(), &[Shape::U8, Shape::Str]) {
            for v in values(&s, if fam.thorough() { 0 } else { 1 }) {
                stored(fam, &s, &v, Style::default());
            }
        }
    });
    c.fam_sharded("value/nested", 8, |fam| {
        let base = if fam.thorough() { leaves() } else { class_leaves() };
        for s in nested(&base) {
            for v in values(&s, if fam.thorough() { 1 } else { 2 }) {
                stored(fam, &s, &v, Style::default());
            }
        }
    });
    c.fam_sharded("value/deep", 8, |fam| {
        for e in nested(if fam.thorough() { &[Shape::U8, Shape::Unit, Shape::Bytes] } else { &[Shape::U8] }) {
            let shapes = [
                Shape::opt(e.clone()),
                Shape::seq(e.clone()),
                Shape::Pack(vec![e.clone(), Shape::Bool]),
                Shape::map(Shape::Str, e.clone()),
                Shape::map(e.clone(), Shape::U8),
                Shape::Enum(vec![(Key::S("v"), e.clone()), (Key::S("w"), Shape::Bool)]),
            ];
            for s in shapes {
                for v in values(&s, 2) {
                    stored(fam, &s, &v, Style::default());
                }
            }
        }
    });
    c.fam("value/styles", |fam| {
        let mut shapes = containers(&[Shape::U8, Shape::Str, Shape::Bytes], &[Shape::U16]);
        shapes.push(Shape::Bytes);
        shapes.extend(nested(&[Shape::U8, Shape::Unit]));
        for s in shapes {
            for v in values(&s, 3) {
                rng::product(&[4, 3, 2, 2, 3], |i| {
                    let style = Style {
                        map_enc: i[0] as u8,
                        map_dec: i[1] as u8,
                        seq_enc: i[2] as u8,
                        seq_dec: i[3] as u8,
                        var_enc: i[4] as u8,
                    };
                    stored(fam, &s, &v, style);
                });
            }
        }
    });
    macro_rules! messages {
        ($($f:ident)*) => { $(
            c.fam(format!("{}/leaf", $f::NAME), |fam| {
                for s in leaves() {
                    for v in values(&s, 0) {
                        message::<$f>(fam, &s, &v);
                    }
                }
            });
            c.fam(format!("{}/container", $f::NAME), |fam| {
                for s in containers(&leaves(), &[Shape::U8, Shape::Str]) {
                    for v in values(&s, if fam.thorough() { 0 } else { 2 }) {
                        message::<$f>(fam, &s, &v);
                    }
                }
            });
            c.fam_sharded(format!("{}/nested", $f::NAME), 4, |fam| {
                let base = if fam.thorough() { leaves() } else { tiny_leaves() };
                for s in nested(&base) {
                    for v in values(&s, if fam.thorough() { 1 } else { 2 }) {
                        message::<$f>(fam, &s, &v);
                    }
                }
            });
        )* };
    }
    messages!(DescVar DescFix DescFixBe DescFixU8 DescVarU16 DescFixVarL JsonText JsonBinary);
    each_zoo!(types c);
    each_std!(types c);
    c.run()
}
