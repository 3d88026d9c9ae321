//! P08: self-descriptive numbers convert exactly or fail.

use eng::*;
use kit::*;
use musli::alloc::System;
use musli::value::Value;

kit::global_allocator!();

/// How a number is written, and how it is read.
#[derive(Clone, Copy)]
struct Through {
    name: &'static str,
    json: bool,
    run: fn(&Shape, &Val, &Shape) -> Result<Val, String>,
    any: fn(&Shape, &Val) -> Result<(Any, Option<Any>), String>,
    /// Any value: the type of it is kept.
    exact: bool,
    opt: musli::options::Options,
}

fn message<F: Format>(s: &Shape, v: &Val, t: &Shape) -> Result<Val, String> {
    let b = F::enc(&Dyn(s, v))?;
    let (a, rest) = with_shape(t, || F::dec_rest::<Out>(&b))?;
    if rest != 0 {
        return Err(format!("LEFT {rest} bytes"));
    }
    Ok(a.0)
}

fn message_any<F: Format>(s: &Shape, v: &Val) -> Result<(Any, Option<Any>), String> {
    let b = F::enc(&Dyn(s, v))?;
    Ok((F::dec::<Any>(&b)?, Some(F::dec::<AnyNumber>(&b)?.0)))
}

fn value(s: &Shape, v: &Val, t: &Shape) -> Result<Val, String> {
    let b = to_value(s, v)?;
    with_shape(t, || musli::value::decode::<Out>(&b)).map(|o| o.0).map_err(|e| e.to_string())
}

fn value_any(s: &Shape, v: &Val) -> Result<(Any, Option<Any>), String> {
    let b = to_value(s, v)?;
    // Which does not support `decode_number`.
    Ok((musli::value::decode(&b).map_err(|e| e.to_string())?, None))
}

/// A message decoded as a value of any type, and that as one of this.
fn buffered<F: Format>(s: &Shape, v: &Val, t: &Shape) -> Result<Val, String> {
    let b = F::enc(&Dyn(s, v))?;
    let x: Value<System> = F::dec(&b)?;
    with_shape(t, || musli::value::decode::<Out>(&x)).map(|o| o.0).map_err(|e| e.to_string())
}

fn buffered_any<F: Format>(s: &Shape, v: &Val) -> Result<(Any, Option<Any>), String> {
    let b = F::enc(&Dyn(s, v))?;
    let x: Value<System> = F::dec(&b)?;
    Ok((musli::value::decode(&x).map_err(|e| e.to_string())?, None))
}

const INTS: [Shape; 12] = [
    Shape::U8,
    Shape::U16,
    Shape::U32,
    Shape::U64,
    Shape::U128,
    Shape::Usize,
    Shape::I8,
    Shape::I16,
    Shape::I32,
    Shape::I64,
    Shape::I128,
    Shape::Isize,
];

/// The sign and magnitude.
fn parts(v: &Val) -> (bool, u128) {
    match v {
        Val::U(n) => (false, *n),
        Val::I(n) => (*n < 0, n.unsigned_abs()),
        _ => panic!("not an integer"),
    }
}

fn fit(t: &Shape, (neg, n): (bool, u128)) -> Option<Val> {
    let bits = t.bits();
    if t.is_signed() {
        let half = 1u128 << (bits - 1);
        if neg {
            (n <= half).then(|| Val::I((n as i128).wrapping_neg()))
        } else {
            (n < half).then_some(Val::I(n as i128))
        }
    } else {
        (!neg && (bits == 128 || n < 1u128 << bits)).then_some(Val::U(n))
    }
}

/// Where in a message the number is.
const PLACES: [&str; 9] =
    ["alone", "element", "field", "some", "variant", "element of an option", "key", "map value", "deep"];

fn place(i: usize, s: Shape, v: Val) -> (Shape, Val) {
    match i {
        0 => (s, v),
        1 => (Shape::seq(s), Val::Seq(vec![v.clone(), v])),
        2 => (
            Shape::Struct(vec![(Key::S("x"), s), (Key::S("y"), Shape::Bool)]),
            Val::Struct(vec![v, Val::Bool(true)]),
        ),
        3 => (Shape::opt(s), Val::Opt(Some(Box::new(v)))),
        4 => (
            Shape::Enum(vec![(Key::S("p"), Shape::Unit), (Key::S("q"), s)]),
            Val::Enum(1, Box::new(v)),
        ),
        5 => (
            Shape::opt(Shape::seq(s)),
            Val::Opt(Some(Box::new(Val::Seq(vec![v.clone(), v])))),
        ),
        6 => (Shape::map(s, Shape::Bool), Val::Map(vec![(v, Val::Bool(true))])),
        7 => (Shape::map(Shape::Str, s), Val::Map(vec![(Val::Str("k".into()), v)])),
        8 => {
            let (s, v) = place(1, s, v);
            let (s, v) = place(7, s, v);
            place(2, s, v)
        }
        _ => unreachable!(),
    }
}

fn pair(fam: &mut Fam<'_>, th: &Through, at: usize, s: &Shape, v: &Val, t: &Shape) {
    let want = fit(t, parts(v));
    fam.case(
        || format!("{v} as {s} to {t}, {}", PLACES[at]),
        || {
            let (ss, sv) = place(at, s.clone(), v.clone());
            if !fits(th.opt, &ss, &sv) {
                return Ok(0);
            }
            let (ts, _) = place(at, t.clone(), v.clone());
            let got = no_panic(|| (th.run)(&ss, &sv, &ts))?;
            let id = Fp::new().str(th.name).u64(at as u64).str(&format!("{s}{t}{v}"));
            match (got, &want) {
                (Ok(got), Some(w)) => {
                    let (_, w) = place(at, t.clone(), w.clone());
                    ensure!(got == w, "decoded {got}");
                    Ok(id.str("ok").done())
                }
                (Ok(got), None) => fail!("decoded {got} from what does not fit"),
                (Err(e), Some(_)) => fail!("{e}"),
                (Err(e), None) => {
                    ensure!(!e.starts_with("LEFT"), "{e}");
                    Ok(id.str("no").done())
                }
            }
        },
    );
}

/// The values of one type to convert to the others.
fn numbers(s: &Shape, fam: &Fam<'_>) -> Vec<Val> {
    let mut v: Vec<Val> = if s.is_signed() {
        signed(s.bits()).into_iter().map(Val::I).collect()
    } else {
        unsigned(s.bits()).into_iter().map(Val::U).collect()
    };
    let all = match s.bits() {
        8 => true,
        16 => fam.thorough(),
        _ => false,
    };
    if all {
        v = (0..1u32 << s.bits())
            .map(|n| match (s.is_signed(), s.bits()) {
                (false, _) => Val::U(n as u128),
                (true, 8) => Val::I(n as u8 as i8 as i128),
                (true, _) => Val::I(n as u16 as i16 as i128),
            })
            .collect();
    }
    v
}

fn floats(s: &Shape) -> Vec<Val> {
    values(s, 0)
}

fn main() {
    let mut c = Check::new(
        "P08",
        Level::Exploration,
        "every ordered pair of the twelve integer types x every boundary value (every power of two, its neighbours and complements; all values of the 8 bit types, thorough: of the 16 bit ones) x places in a message x formats, and every pair with a float; distinct by (format, place, pair, value)",
    );
    c.assume("a float decoded as another type, and an integer decoded as a float, may be refused, but otherwise has to be the same number");
    macro_rules! th {
        ($f:ident) => {
            [
                Through {
                    name: $f::NAME,
                    json: $f::KIND == Kind::Json,
                    run: message::<$f>,
                    any: message_any::<$f>,
                    exact: false,
                    opt: $f::OPT,
                },
                Through {
                    name: concat!(stringify!($f), " to value"),
                    json: $f::KIND == Kind::Json,
                    run: buffered::<$f>,
                    any: buffered_any::<$f>,
                    exact: false,
                    opt: $f::OPT,
                },
            ]
        };
    }
    let mut ths = Vec::new();
    ths.extend(th!(DescVar));
    ths.extend(th!(DescFix));
    ths.extend(th!(DescFixBe));
    ths.extend(th!(DescFixU8));
    ths.extend(th!(DescVarU16));
    ths.extend(th!(DescFixVarL));
    ths.extend(th!(JsonText));
    ths.extend(th!(JsonBinary));
    ths.push(Through {
        name: "value",
        json: false,
        run: value,
        any: value_any,
        exact: true,
        opt: JsonText::OPT,
    });
    for th in ths {
        c.fam_sharded(format!("ints/{}", th.name), 4, move |fam| {
            for s in &INTS {
                for v in numbers(s, fam) {
                    for t in &INTS {
                        for at in 0..PLACES.len() {
                            // Only JSON lets text stand for numbers, and only
                            // where it is known to be a key.
                            if at == 6 && th.json && th.name.ends_with("value") {
                                continue;
                            }
                            if at > 0 && numbers_deep(s, fam) && !few(&v) {
                                continue;
                            }
                            pair(fam, &th, at, s, &v, t);
                        }
                    }
                }
            }
        });
        c.fam(format!("any/{}", th.name), move |fam| {
            for s in &INTS {
                for v in numbers(s, fam) {
                    fam.case(
                        || format!("{v} as {s}"),
                        || {
                            if !fits(th.opt, s, &v) {
                                return Ok(0);
                            }
                            let (a, b) = (th.any)(s, &v)?;
                            let id = Fp::new().str(th.name).str(&format!("{s}{v}"));
                            for x in [Some(a), b].into_iter().flatten() {
                                let Any::Int(ty, neg, n) = x else { fail!("{x:?}") };
                                ensure!((neg, n) == parts(&v), "decoded as {ty} of magnitude {n}");
                                if th.exact {
                                    ensure!(ty == s.to_string().to_lowercase(), "decoded as {ty}");
                                }
                            }
                            Ok(id.done())
                        },
                    );
                }
            }
            for s in [Shape::F32, Shape::F64] {
                for v in floats(&s) {
                    if th.json {
                        continue;
                    }
                    fam.case(
                        || format!("{v} as {s}"),
                        || {
                            let (a, b) = (th.any)(&s, &v)?;
                            for x in [Some(a), b].into_iter().flatten() {
                                let same = match (&x, &v) {
                                    (Any::F32(a), Val::F32(b)) => a == b,
                                    (Any::F64(a), Val::F64(b)) => a == b,
                                    _ => false,
                                };
                                ensure!(same, "{x:?}");
                            }
                            Ok(Fp::new().str(th.name).str(&format!("{s}{v}")).done())
                        },
                    );
                }
            }
        });
        c.fam(format!("floats/{}", th.name), move |fam| {
            // What the value is, exactly.
            let exact = |v: &Val| -> Option<(bool, u128)> {
                let f = match v {
                    Val::F32(b) => f32::from_bits(*b) as f64,
                    Val::F64(b) => f64::from_bits(*b),
                    v => return Some(parts(v)),
                };
                (f.fract() == 0.0 && f.abs() < 128f64.exp2()).then(|| (f < 0.0, f.abs() as u128))
            };
            let mut from: Vec<(Shape, Val)> = Vec::new();
            for s in [Shape::F32, Shape::F64] {
                let mut fs = floats(&s);
                for e in 0..128 {
                    let p = (e as f64).exp2();
                    for x in [p, p - 1.0, p + 1.0, p * 1.5, p + 0.5] {
                        for x in [x, -x] {
                            fs.push(match s {
                                Shape::F32 => Val::F32((x as f32).to_bits()),
                                _ => Val::F64(x.to_bits()),
                            });
                        }
                    }
                }
                from.extend(fs.into_iter().map(|v| (s.clone(), v)));
            }
            for s in &INTS {
                from.extend(numbers(s, fam).into_iter().map(|v| (s.clone(), v)));
            }
            for (s, v) in &from {
                if th.json && v.non_finite() {
                    continue;
                }
                for t in INTS.iter().chain(&[Shape::F32, Shape::F64]) {
                    let float = |s: &Shape| matches!(s, Shape::F32 | Shape::F64);
                    if !float(s) && !float(t) {
                        continue;
                    }
                    fam.case(
                        || format!("{v} as {s} to {t}"),
                        || {
                            if !fits(th.opt, s, v) {
                                return Ok(0);
                            }
                            let got = no_panic(|| (th.run)(s, v, t))?;
                            let id = Fp::new().str(th.name).str(&format!("{s}{t}{v}"));
                            if s == t && !th.json {
                                let got = got?;
                                ensure!(got == *v, "decoded {got}");
                                return Ok(id.done());
                            }
                            if s == t && !th.name.ends_with("value") {
                                let got = got?;
                                ensure!(got == *v, "decoded {got}");
                                return Ok(id.done());
                            }
                            let Ok(got) = got else { return Ok(id.str("no").done()) };
                            if th.json && float(t) {
                                // The nearest number to what is written, see P11.
                                return Ok(0);
                            }
                            // Another float of the same value, or the nearest.
                            let as64 = |v: &Val| match v {
                                Val::F32(b) => Some(f32::from_bits(*b) as f64),
                                Val::F64(b) => Some(f64::from_bits(*b)),
                                _ => None,
                            };
                            if let (Some(a), Some(b)) = (as64(v), as64(&got)) {
                                let nearest = *t == Shape::F32 && a as f32 as f64 == b;
                                ensure!(a == b || nearest || a.is_nan() && b.is_nan(), "decoded {got}");
                                return Ok(id.done());
                            }
                            // To or from text, or the nearest there is.
                            let (int, f) = if float(t) { (v, &got) } else { (&got, v) };
                            if th.json || float(t) {
                                let (neg, n) = parts(int);
                                let same = match f {
                                    Val::F32(b) => {
                                        let x = n as f32;
                                        f32::from_bits(*b) == if neg { -x } else { x }
                                    }
                                    Val::F64(b) => {
                                        let x = n as f64;
                                        f64::from_bits(*b) == if neg { -x } else { x }
                                    }
                                    _ => false,
                                };
                                ensure!(same, "decoded {got}");
                                return Ok(id.done());
                            }
                            let (a, b) = (exact(v), exact(&got));
                            ensure!(a.is_some() && a == b, "decoded {got}");
                            Ok(id.done())
                        },
                    );
                }
            }
        });
    }
    c.run()
}

/// Too many to try in every place.
fn numbers_deep(s: &Shape, fam: &Fam<'_>) -> bool {
    s.bits() == 16 && fam.thorough()
}

fn few(v: &Val) -> bool {
    let (_, n) = parts(v);
    n.count_ones() < 2 || (n + 1).count_ones() < 2
}
