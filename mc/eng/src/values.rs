//! Enumeration of shapes and of the values of a shape.

use crate::shape::{Key, Shape, Val};

pub fn leaves() -> Vec<Shape> {
    use Shape::*;
    vec![
        Unit, Bool, Char, U8, U16, U32, U64, U128, Usize, I8, I16, I32, I64, I128, Isize, F32, F64,
        Str, Bytes, Arr(0), Arr(1), Arr(4), Arr(40), Arr(200),
    ]
}

/// A leaf of every behaviourally different class.
pub fn class_leaves() -> Vec<Shape> {
    use Shape::*;
    vec![
        Unit, Bool, Char, U8, U32, U128, Usize, I8, I64, Isize, F32, F64, Str, Bytes, Arr(4),
    ]
}

pub fn tiny_leaves() -> Vec<Shape> {
    use Shape::*;
    vec![Unit, U8, U64, I16, F64, Str, Bytes, Usize]
}

pub fn key_leaves() -> Vec<Shape> {
    use Shape::*;
    vec![
        Str, U8, U16, U32, U64, U128, Usize, I8, I16, I32, I64, I128, Isize,
    ]
}

/// All containers over the given element shapes: each container kind with every
/// element, plus two-element combinations for heterogenous containers.
pub fn containers(elems: &[Shape], pairs: &[Shape]) -> Vec<Shape> {
    let mut out = Vec::new();
    for e in elems {
        out.push(Shape::opt(e.clone()));
        out.push(Shape::seq(e.clone()));
        out.push(Shape::Pack(vec![e.clone()]));
        out.push(Shape::map(Shape::Str, e.clone()));
        out.push(Shape::map(Shape::U32, e.clone()));
        out.push(Shape::Struct(vec![(Key::S("a"), e.clone())]));
        out.push(Shape::Struct(vec![(Key::U(0), e.clone())]));
        out.push(Shape::Enum(vec![
            (Key::S("A"), e.clone()),
            (Key::S("B"), Shape::Unit),
        ]));
        out.push(Shape::Enum(vec![
            (Key::U(0), Shape::U8),
            (Key::U(300), e.clone()),
        ]));
        for p in pairs {
            out.push(Shape::Pack(vec![e.clone(), p.clone()]));
            out.push(Shape::Struct(vec![
                (Key::S("first"), e.clone()),
                (Key::S("b"), p.clone()),
            ]));
            out.push(Shape::Struct(vec![
                (Key::U(1), p.clone()),
                (Key::U(70000), e.clone()),
            ]));
        }
    }
    out.push(Shape::Pack(vec![]));
    out.push(Shape::Struct(vec![]));
    for k in key_leaves() {
        out.push(Shape::map(k.clone(), Shape::U8));
    }
    out
}

/// Shapes of depth two and more that combine containers.
pub fn nested(tiny: &[Shape]) -> Vec<Shape> {
    let inner = containers(tiny, &[Shape::U16]);
    let mut out = Vec::new();
    for e in &inner {
        out.push(Shape::opt(e.clone()));
        out.push(Shape::seq(e.clone()));
        out.push(Shape::Pack(vec![e.clone(), Shape::U8]));
        out.push(Shape::map(Shape::Str, e.clone()));
        out.push(Shape::Struct(vec![
            (Key::S("x"), e.clone()),
            (Key::S("y"), Shape::U8),
        ]));
        out.push(Shape::Enum(vec![
            (Key::U(1), Shape::Unit),
            (Key::U(2), e.clone()),
        ]));
    }
    out
}

/// Every boundary of an unsigned type of this width.
pub fn unsigned(bits: u32) -> Vec<u128> {
    let max = if bits == 128 {
        u128::MAX
    } else {
        (1u128 << bits) - 1
    };
    let mut v = vec![0, 1, max, max - 1];
    for k in 0..bits {
        let p = 1u128 << k;
        v.push(p);
        v.push(p - 1);
        v.push((p + 1).min(max));
        // All-ones run ending at k, alternating patterns.
        v.push(max ^ p);
    }
    v.push(0x5555_5555_5555_5555_5555_5555_5555_5555 & max);
    v.push(0xaaaa_aaaa_aaaa_aaaa_aaaa_aaaa_aaaa_aaaa & max);
    v.push(0x0123_4567_89ab_cdef_0123_4567_89ab_cdef & max);
    v.sort();
    v.dedup();
    v
}

pub fn signed(bits: u32) -> Vec<i128> {
    let max: i128 = if bits == 128 {
        i128::MAX
    } else {
        (1i128 << (bits - 1)) - 1
    };
    let min = -max - 1;
    let mut v = vec![0, 1, -1, max, min, max - 1, min + 1];
    for k in 0..bits - 1 {
        let p = 1i128 << k;
        for x in [p, p - 1, p + 1, -p, -p - 1, -p + 1] {
            if x >= min && x <= max {
                v.push(x);
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

pub fn chars() -> Vec<char> {
    let mut v: Vec<char> = (0..0x100u32).filter_map(char::from_u32).collect();
    for c in [
        0x7ffu32, 0x800, 0x801, 0xfff, 0x1000, 0x2028, 0x2029, 0xd7ff, 0xe000, 0xfeff, 0xfffd,
        0xfffe, 0xffff, 0x10000, 0x10001, 0x1f600, 0xfffff, 0x100000, 0x10fffe, 0x10ffff,
    ] {
        v.push(char::from_u32(c).unwrap());
    }
    v
}

pub fn f32s() -> Vec<u32> {
    let mut v = vec![
        0.0f32.to_bits(),
        (-0.0f32).to_bits(),
        1,
        0x8000_0001,
        0x007f_ffff,
        0x0080_0000,
        f32::MAX.to_bits(),
        f32::MIN.to_bits(),
        f32::INFINITY.to_bits(),
        f32::NEG_INFINITY.to_bits(),
        0x7fc0_0000,
        0xffc0_0000,
        0x7f80_0001,
        0x7fff_ffff,
        0xff80_0001,
        f32::EPSILON.to_bits(),
        0.1f32.to_bits(),
        1.5f32.to_bits(),
        16777216.0f32.to_bits(),
        16777217.0f32.to_bits(),
        1e10f32.to_bits(),
        1e21f32.to_bits(),
        1e-7f32.to_bits(),
        255.0f32.to_bits(),
        256.0f32.to_bits(),
    ];
    for e in 0..=255u32 {
        v.push(e << 23);
        v.push((e << 23) | 1);
    }
    v.sort();
    v.dedup();
    v
}

pub fn f64s() -> Vec<u64> {
    let mut v = vec![
        0.0f64.to_bits(),
        (-0.0f64).to_bits(),
        1,
        0x8000_0000_0000_0001,
        0x000f_ffff_ffff_ffff,
        0x0010_0000_0000_0000,
        f64::MAX.to_bits(),
        f64::MIN.to_bits(),
        f64::INFINITY.to_bits(),
        f64::NEG_INFINITY.to_bits(),
        0x7ff8_0000_0000_0000,
        0xfff8_0000_0000_0000,
        0x7ff0_0000_0000_0001,
        0x7fff_ffff_ffff_ffff,
        f64::EPSILON.to_bits(),
        0.1f64.to_bits(),
        0.3f64.to_bits(),
        1.5f64.to_bits(),
        9007199254740992.0f64.to_bits(),
        9007199254740993.0f64.to_bits(),
        1e15f64.to_bits(),
        1e16f64.to_bits(),
        1e17f64.to_bits(),
        1e21f64.to_bits(),
        1e22f64.to_bits(),
        1e23f64.to_bits(),
        1e-5f64.to_bits(),
        1e-6f64.to_bits(),
        1e-7f64.to_bits(),
        123456789.125f64.to_bits(),
        5e-324f64.to_bits(),
        2.2250738585072011e-308f64.to_bits(),
        1.7976931348623157e308f64.to_bits(),
        255.0f64.to_bits(),
        256.0f64.to_bits(),
        65536.0f64.to_bits(),
    ];
    for e in (0..=2047u64).step_by(7) {
        v.push(e << 52);
        v.push((e << 52) | 1);
    }
    v.sort();
    v.dedup();
    v
}

/// Lengths around every boundary of the length encodings.
pub fn lengths() -> Vec<usize> {
    let mut v: Vec<usize> = (0..=70).collect();
    v.extend([
        126, 127, 128, 129, 254, 255, 256, 257, 511, 512, 1023, 1024, 16383, 16384, 16385, 32767,
        32768, 65534, 65535, 65536,
    ]);
    v
}

pub fn text(n: usize) -> String {
    const A: &[u8] = b"abcdefghijklmnopqrstuvwxyz0123456789";
    (0..n).map(|i| A[i % A.len()] as char).collect()
}

pub fn blob(n: usize) -> Vec<u8> {
    (0..n).map(|i| (i * 7 + 3 + (i >> 8) * 11) as u8).collect()
}

/// Values which are large as a whole: many elements, or long strings inside of
/// every kind of container.
pub fn large(thorough: bool) -> Vec<(Shape, Val)> {
    let mut out = Vec::new();
    let many: &[usize] = if thorough {
        &[1000, 4095, 4096, 4097, 8191, 8192, 16383, 16384, 16385, 32767, 32768, 65535, 65536, 70000]
    } else {
        &[4097, 16384, 65536]
    };
    for &n in many {
        let seq = |s: Shape, f: &dyn Fn(usize) -> Val| (Shape::seq(s), Val::Seq((0..n).map(f).collect()));
        out.push(seq(Shape::U8, &|i| Val::U((i * 7 + (i >> 8)) as u8 as u128)));
        out.push(seq(Shape::Unit, &|_| Val::Unit));
        out.push(seq(Shape::U32, &|i| Val::U(i as u128 * 5)));
        out.push(seq(Shape::Str, &|i| Val::Str(text(i % 5))));
        out.push((
            Shape::map(Shape::U32, Shape::U8),
            Val::Map((0..n).map(|i| (Val::U(i as u128 * 3), Val::U(i as u128 & 0xff))).collect()),
        ));
        out.push((
            Shape::map(Shape::Str, Shape::opt(Shape::Bool)),
            Val::Map((0..n / 8).map(|i| (Val::Str(format!("{i}")), Val::Opt(Some(Box::new(Val::Bool(i % 3 == 0)))))).collect()),
        ));
    }
    for n in lengths().into_iter().filter(|n| *n > 40) {
        for (s, v) in [(Shape::Bytes, Val::Bytes(blob(n))), (Shape::Str, Val::Str(text(n)))] {
            out.push((Shape::Pack(vec![s.clone(), Shape::U8]), Val::Struct(vec![v.clone(), Val::U(9)])));
            out.push((
                Shape::Pack(vec![s.clone(), Shape::U16, s.clone()]),
                Val::Struct(vec![v.clone(), Val::U(0x1234), v.clone()]),
            ));
            out.push((Shape::opt(s.clone()), Val::Opt(Some(Box::new(v.clone())))));
            out.push((Shape::seq(s.clone()), Val::Seq(vec![v.clone(), v.clone()])));
            out.push((Shape::map(Shape::Str, s.clone()), Val::Map(vec![(Val::Str(text(n)), v.clone())])));
            out.push((
                Shape::Struct(vec![(Key::U(1), s.clone()), (Key::U(2), Shape::U8)]),
                Val::Struct(vec![v.clone(), Val::U(7)]),
            ));
            out.push((Shape::Enum(vec![(Key::S("v"), s.clone())]), Val::Enum(0, Box::new(v.clone()))));
            let inner = Shape::Pack(vec![Shape::U8, s.clone()]);
            out.push((
                Shape::Pack(vec![inner.clone(), Shape::U8]),
                Val::Struct(vec![Val::Struct(vec![Val::U(1), v]), Val::U(2)]),
            ));
        }
    }
    out
}

pub fn strings(level: usize) -> Vec<String> {
    let mut v: Vec<String> = vec![String::new(), "a".into()];
    if level >= 2 {
        v.push("h\"\\\u{1}é\u{10ffff}".into());
        return v;
    }
    v.push("h\"\\\u{1}é\u{10ffff}".into());
    v.push(text(70));
    if level == 1 {
        return v;
    }
    for n in lengths() {
        v.push(text(n));
    }
    for c in chars() {
        v.push(c.to_string());
        v.push(format!("x{c}y"));
    }
    v.push("null".into());
    v.push("true".into());
    v.push("123".into());
    v
}

/// The values of a shape. Level 0 is every boundary, higher levels are fewer.
pub fn values(s: &Shape, level: usize) -> Vec<Val> {
    let pick_u = |bits: u32| -> Vec<Val> {
        let max = if bits == 128 {
            u128::MAX
        } else {
            (1u128 << bits) - 1
        };
        match level {
            0 => unsigned(bits).into_iter().map(Val::U).collect(),
            1 => {
                let mut v = vec![0, 1, 63, 64, 127, 128, 200, 255, max / 3, max / 2 + 1, max];
                if bits > 8 {
                    v.extend([256, 16384, 0x1234]);
                }
                v.sort();
                v.dedup();
                v.into_iter().map(Val::U).collect()
            }
            2 => vec![Val::U(0), Val::U(max / 3 * 2), Val::U(max)],
            _ => vec![Val::U(max / 3 * 2)],
        }
    };
    let pick_i = |bits: u32| -> Vec<Val> {
        let max: i128 = if bits == 128 {
            i128::MAX
        } else {
            (1i128 << (bits - 1)) - 1
        };
        match level {
            0 => signed(bits).into_iter().map(Val::I).collect(),
            1 => {
                let mut v = vec![0, 1, -1, 63, -64, 64, -65, 100, max, -max - 1, max / 3];
                if bits > 8 {
                    v.extend([-129, 8191, -8193, 0x1234]);
                }
                v.sort();
                v.dedup();
                v.into_iter().map(Val::I).collect()
            }
            2 => vec![Val::I(0), Val::I(-1), Val::I(max), Val::I(-max - 1)],
            _ => vec![Val::I(-max / 3)],
        }
    };
    match s {
        Shape::Unit => vec![Val::Unit],
        Shape::Bool => vec![Val::Bool(false), Val::Bool(true)],
        Shape::Char => match level {
            0 => chars().into_iter().map(Val::Char).collect(),
            1 => "a\u{7f}\u{80}\u{7ff}\u{800}\u{ffff}\u{10ffff}\0\"\\"
                .chars()
                .map(Val::Char)
                .collect(),
            2 => vec![Val::Char('a'), Val::Char('\u{10ffff}')],
            _ => vec![Val::Char('\u{e9}')],
        },
        Shape::U8 => {
            if level == 0 {
                (0..=255u128).map(Val::U).collect()
            } else {
                pick_u(8)
            }
        }
        Shape::I8 => {
            if level == 0 {
                (-128..=127i128).map(Val::I).collect()
            } else {
                pick_i(8)
            }
        }
        Shape::U16 => pick_u(16),
        Shape::U32 => pick_u(32),
        Shape::U64 | Shape::Usize => pick_u(64),
        Shape::U128 => pick_u(128),
        Shape::I16 => pick_i(16),
        Shape::I32 => pick_i(32),
        Shape::I64 | Shape::Isize => pick_i(64),
        Shape::I128 => pick_i(128),
        Shape::F32 => match level {
            0 => f32s().into_iter().map(Val::F32).collect(),
            1 => [0.0f32, -0.0, 1.0, -1.5, 0.1, 1e30, f32::MAX, f32::INFINITY, f32::NAN]
                .iter()
                .map(|f| Val::F32(f.to_bits()))
                .collect(),
            2 => vec![Val::F32((-0.1f32).to_bits()), Val::F32(0)],
            _ => vec![Val::F32(0.1f32.to_bits())],
        },
        Shape::F64 => match level {
            0 => f64s().into_iter().map(Val::F64).collect(),
            1 => [0.0f64, -0.0, 1.0, -1.5, 0.1, 1e300, f64::MAX, f64::INFINITY, f64::NAN]
                .iter()
                .map(|f| Val::F64(f.to_bits()))
                .collect(),
            2 => vec![Val::F64((-0.1f64).to_bits()), Val::F64(0)],
            _ => vec![Val::F64(0.1f64.to_bits())],
        },
        Shape::Str => match level {
            0..=2 => strings(level).into_iter().map(Val::Str).collect(),
            _ => vec![Val::Str("hé".into())],
        },
        Shape::Bytes => match level {
            0 => {
                let mut v: Vec<Val> = lengths().into_iter().map(|n| Val::Bytes(blob(n))).collect();
                v.extend((0..=255u8).map(|b| Val::Bytes(vec![b])));
                v
            }
            1 => vec![
                Val::Bytes(vec![]),
                Val::Bytes(vec![0]),
                Val::Bytes(vec![1, 2, 255]),
                Val::Bytes(blob(70)),
            ],
            2 => vec![Val::Bytes(vec![]), Val::Bytes(vec![0xff, 0, 1])],
            _ => vec![Val::Bytes(vec![1, 0xfe])],
        },
        Shape::Arr(n) => vec![Val::Bytes(blob(*n)), Val::Bytes(vec![0xff; *n])],
        Shape::Opt(s) => {
            let mut out = vec![Val::Opt(None)];
            out.extend(
                values(s, level.max(1))
                    .into_iter()
                    .map(|v| Val::Opt(Some(Box::new(v)))),
            );
            out
        }
        Shape::Seq(s) => {
            let vs = values(s, level.max(1) + 1);
            let mut out = vec![Val::Seq(vec![])];
            for v in &vs {
                out.push(Val::Seq(vec![v.clone()]));
            }
            out.push(Val::Seq(vs.clone()));
            if level == 0 {
                for n in [2usize, 3, 31, 32, 63, 64, 65, 127, 128, 255, 256, 300] {
                    out.push(Val::Seq((0..n).map(|i| vs[i % vs.len()].clone()).collect()));
                }
            }
            out
        }
        Shape::Pack(ss) => product(&ss.iter().collect::<Vec<_>>(), level)
            .into_iter()
            .map(Val::Struct)
            .collect(),
        Shape::Struct(fs) => product(&fs.iter().map(|f| &f.1).collect::<Vec<_>>(), level)
            .into_iter()
            .map(Val::Struct)
            .collect(),
        Shape::Map(k, v) => {
            let ks = distinct(values(k, 1));
            let vs = values(v, level.max(1) + 1);
            let mut out = vec![Val::Map(vec![])];
            for k in ks.iter().take(if level == 0 { usize::MAX } else { 3 }) {
                out.push(Val::Map(vec![(k.clone(), vs[0].clone())]));
            }
            for v in &vs {
                out.push(Val::Map(vec![(ks[ks.len() - 1].clone(), v.clone())]));
            }
            out.push(Val::Map(
                ks.iter()
                    .enumerate()
                    .map(|(i, k)| (k.clone(), vs[i % vs.len()].clone()))
                    .collect(),
            ));
            if level == 0 && matches!(**k, Shape::U32) {
                for n in [31usize, 32, 63, 64, 128, 300] {
                    out.push(Val::Map(
                        (0..n)
                            .map(|i| (Val::U(i as u128 * 3), vs[i % vs.len()].clone()))
                            .collect(),
                    ));
                }
            }
            out
        }
        Shape::Enum(vs) => {
            let mut out = Vec::new();
            for (i, (_, s)) in vs.iter().enumerate() {
                for v in values(s, level.max(1)) {
                    out.push(Val::Enum(i, Box::new(v)));
                }
            }
            out
        }
    }
}

fn distinct(mut v: Vec<Val>) -> Vec<Val> {
    let mut out: Vec<Val> = Vec::new();
    for x in v.drain(..) {
        if !out.contains(&x) {
            out.push(x);
        }
    }
    out
}

fn product(ss: &[&Shape], level: usize) -> Vec<Vec<Val>> {
    if ss.is_empty() {
        return vec![vec![]];
    }
    if ss.len() == 1 {
        return values(ss[0], level.max(1))
            .into_iter()
            .map(|v| vec![v])
            .collect();
    }
    // Every value of each component next to the first values of the others,
    // and the full product of the coarse values for two components.
    let coarse: Vec<Vec<Val>> = ss
        .iter()
        .map(|s| values(s, if level <= 1 { 2 } else { 3 }))
        .collect();
    let mut out: Vec<Vec<Val>> = vec![vec![]];
    for c in &coarse {
        let mut next = Vec::new();
        for o in &out {
            for v in c {
                let mut o = o.clone();
                o.push(v.clone());
                next.push(o);
            }
        }
        out = next;
    }
    if level <= 1 {
        for (i, s) in ss.iter().enumerate() {
            for v in values(s, 1) {
                let mut o: Vec<Val> = coarse.iter().map(|c| c[c.len() - 1].clone()).collect();
                o[i] = v;
                out.push(o);
            }
        }
    }
    out
}
