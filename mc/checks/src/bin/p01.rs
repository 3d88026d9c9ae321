//! P01: every value of the data model survives a roundtrip in every format.

use eng::*;
use kit::*;

kit::global_allocator!();

fn main() {
    let mut c = Check::new(
        "P01",
        Level::Exploration,
        "every shape up to the depth bound x every boundary value x every format and option set x every API style; a case is non-trivial when the encoding is not empty; distinct by (format, encoded bytes)",
    );
    c.assume("lengths and pointer-sized values that the configured pointer width cannot represent are left to P07");
    c.assume("options inside of untagged packed data are only used where the documentation supports them, at its end");
    let mut fmts: Vec<Box<dyn DynFormat>> = each_format!(dyn_vec);
    let named = fmts.len();
    // Every combination of the options.
    macro_rules! each_of {
        ($o:tt) => {
            fmts.extend::<Vec<Box<dyn DynFormat>>>(vec![
                Box::new(Of(StorageOf::<$o>)),
                Box::new(Of(WireOf::<$o>)),
                Box::new(Of(DescOf::<$o>)),
                Box::new(Of(PackedOf::<$o>)),
            ]);
        };
    }
    each_option!(each_of);
    for (index, f) in fmts.into_iter().enumerate() {
        let of = index >= named;
        let f: &'static dyn DynFormat = Box::leak(f);
        c.fam(format!("leaf/{}", f.name()), move |fam| {
            for s in leaves() {
                for v in values(&s, 0) {
                    roundtrip(fam, f, &s, &v, Style::default());
                }
            }
            if fam.thorough() {
                for n in 0..=u16::MAX {
                    roundtrip(fam, f, &Shape::U16, &Val::U(n as u128), Style::default());
                    roundtrip(fam, f, &Shape::I16, &Val::I(n as i16 as i128), Style::default());
                    let u = Val::U((n as u128) << 16 | 0xff);
                    roundtrip(fam, f, &Shape::U32, &u, Style::default());
                    let i = Val::I(n as i128 - 0x8000);
                    roundtrip(fam, f, &Shape::I128, &i, Style::default());
                }
                for n in (0..=0x10ffffu32).filter_map(char::from_u32) {
                    roundtrip(fam, f, &Shape::Char, &Val::Char(n), Style::default());
                }
            }
        });
        // Bytes and strings written in parts.
        c.fam(format!("parts/{}", f.name()), move |fam| {
            for s in [Shape::Str, Shape::Bytes] {
                for v in values(&s, 0) {
                    for seq_enc in 1..=4 {
                        roundtrip(fam, f, &s, &v, Style { seq_enc, ..Style::default() });
                    }
                }
            }
        });
        c.fam(format!("container/{}", f.name()), move |fam| {
            for s in containers(&leaves(), &[Shape::U8, Shape::Str]) {
                for v in values(&s, 0) {
                    roundtrip(fam, f, &s, &v, Style::default());
                }
            }
        });
        c.fam(format!("nested/{}", f.name()), move |fam| {
            let base = if fam.thorough() { leaves() } else { class_leaves() };
            for s in nested(&base) {
                for v in values(&s, if fam.thorough() { 1 } else { 2 }) {
                    roundtrip(fam, f, &s, &v, Style::default());
                }
            }
        });
        if f.name().contains("-float") {
            continue;
        }
        // Large values, in the named formats in a quick run.
        c.fam(format!("large/{}", f.name()), move |fam| {
            if of && !fam.thorough() {
                return;
            }
            for (s, v) in large(fam.thorough() && !of) {
                roundtrip(fam, f, &s, &v, Style::default());
            }
        });
        // Three levels of containers.
        c.fam(format!("deep/{}", f.name()), move |fam| {
            let base: &[Shape] = if fam.thorough() {
                &[Shape::U8, Shape::Str, Shape::Unit, Shape::I32]
            } else {
                &[Shape::U8]
            };
            let inner = nested(base);
            for e in inner {
                let shapes = [
                    Shape::opt(e.clone()),
                    Shape::seq(e.clone()),
                    Shape::Pack(vec![e.clone(), Shape::Bool]),
                    Shape::map(Shape::Str, e.clone()),
                    Shape::Struct(vec![(Key::U(3), Shape::Bool), (Key::U(4), e.clone())]),
                    Shape::Enum(vec![(Key::S("v"), e.clone()), (Key::S("w"), Shape::Bool)]),
                ];
                for s in shapes {
                    for v in values(&s, 2) {
                        roundtrip(fam, f, &s, &v, Style::default());
                    }
                }
            }
        });
        // Every equivalent way of driving the encoder and the decoder.
        c.fam(format!("styles/{}", f.name()), move |fam| {
            let mut shapes = containers(&[Shape::U8, Shape::Str, Shape::Bytes], &[Shape::U16]);
            shapes.push(Shape::Bytes);
            shapes.extend(nested(if fam.thorough() {
                &[Shape::U8, Shape::Bytes, Shape::Char]
            } else {
                &[Shape::U8]
            }));
            for s in shapes {
                for v in values(&s, 2) {
                    rng::product(&[4, 3, 2, 2, 3], |i| {
                        let style = Style {
                            map_enc: i[0] as u8,
                            map_dec: i[1] as u8,
                            seq_enc: i[2] as u8,
                            seq_dec: i[3] as u8,
                            var_enc: i[4] as u8,
                        };
                        let used = relevant(&s, style);
                        if used == style {
                            roundtrip(fam, f, &s, &v, style);
                        }
                    });
                }
            }
        });
    }
    c.run()
}

/// Zero the style components that the shape does not use.
fn relevant(s: &Shape, mut st: Style) -> Style {
    if !s.any(&|s| matches!(s, Shape::Map(..))) {
        st.map_enc = 0;
        st.map_dec = 0;
    }
    if !s.any(&|s| matches!(s, Shape::Seq(..))) {
        st.seq_dec = 0;
        if !s.any(&|s| matches!(s, Shape::Bytes)) {
            st.seq_enc = 0;
        }
    }
    if !s.any(&|s| matches!(s, Shape::Enum(..))) {
        st.var_enc = 0;
    }
    st
}

fn roundtrip(fam: &mut Fam<'_>, f: &'static dyn DynFormat, s: &Shape, v: &Val, style: Style) {
    if !supports(f.kind(), f.opt(), s) || !fits(f.opt(), s, v) {
        return;
    }
    if f.kind() == Kind::Json && (v.non_finite() || v.null_in_some()) {
        return;
    }
    let opts = options_in(f.kind(), s);
    if opts == Opts::No {
        return;
    }
    fam.case(
        || {
            if style == Style::default() {
                format!("{} {s} = {v}", f.name())
            } else {
                format!("{} {s} = {v} with {style:?}", f.name())
            }
        },
        || {
            with_style(style, || {
                let b = f.enc(s, v)?;
                let got = f.dec(s, &b)?;
                ensure!(got == *v, "decoded {got} from {}", hex(&b));
                if opts == Opts::AtEof {
                    return Ok(Fp::new().str(f.name()).bytes(&b).done());
                }
                let mut with = b.clone();
                let suffix: &[u8] = if f.kind() == Kind::Json {
                    b",7"
                } else {
                    b"\x01\xff\x00"
                };
                with.extend_from_slice(suffix);
                let (got, rest) = f.dec_rest(s, &with)?;
                ensure!(got == *v, "decoded {got} in front of a suffix");
                ensure!(
                    rest == suffix.len(),
                    "left {rest} bytes, not {}",
                    suffix.len()
                );
                Ok(if b.is_empty() {
                    0
                } else {
                    Fp::new().str(f.name()).bytes(&b).done()
                })
            })
        },
    );
}
