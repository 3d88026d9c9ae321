//! Encoding and decoding of dynamic values through the public traits.

use std::cell::Cell;
use std::fmt;
use std::ptr;

use musli::alloc::Allocator;
use musli::de::{
    Decode, Decoder, EntriesDecoder, EntryDecoder, MapDecoder, SequenceDecoder, VariantDecoder,
};
use musli::en::{
    Encode, Encoder, EntriesEncoder, EntryEncoder, MapEncoder, SequenceEncoder, VariantEncoder,
};
use musli::Context;

use crate::shape::{Key, Shape, Val};

/// Which of the equivalent API styles to drive encoders and decoders with.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct Style {
    /// 0: encode_map + insert_entry, 1: encode_map_entries, 2: encode_map_fn + encode_entry_fn,
    /// 3: encode_map + encode_entry
    pub map_enc: u8,
    /// 0: decode_map + decode_entry, 1: decode_map_entries, 2: decode_map, first entry by
    /// decode_entry, the others by decode_remaining_entries
    pub map_dec: u8,
    /// 0: encode_sequence_fn + push, 1: encode_sequence + encode_next + finish. For bytes and
    /// strings, see `blob` and `pieces`.
    pub seq_enc: u8,
    /// 0: try_decode_next, 1: size hint + decode_next where exact
    pub seq_dec: u8,
    /// 0: encode_variant_fn, 1: encode_variant + insert_variant,
    /// 2: encode_unit_variant / encode_sequence_variant / encode_map_variant where the data fits
    pub var_enc: u8,
}

/// Displays a string character by character.
struct Chars<'a>(&'a str);

impl fmt::Display for Chars<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        use fmt::Write;
        self.0.chars().try_for_each(|c| f.write_char(c))
    }
}

thread_local! {
    static CUR: Cell<*const Shape> = const { Cell::new(ptr::null()) };
    static STYLE: Cell<Style> = const { Cell::new(Style { map_enc: 0, map_dec: 0, seq_enc: 0, seq_dec: 0, var_enc: 0 }) };
}

pub fn with_style<T>(s: Style, f: impl FnOnce() -> T) -> T {
    let old = STYLE.with(|c| c.replace(s));
    let out = f();
    STYLE.with(|c| c.set(old));
    out
}

fn style() -> Style {
    STYLE.with(|c| c.get())
}

/// Decode within `f` produces values of this shape.
pub fn with_shape<T>(s: &Shape, f: impl FnOnce() -> T) -> T {
    struct Restore(*const Shape);
    impl Drop for Restore {
        fn drop(&mut self) {
            CUR.with(|c| c.set(self.0));
        }
    }
    let _r = Restore(CUR.with(|c| c.replace(s)));
    f()
}

/// A value to encode.
#[derive(Clone, Copy)]
pub struct Dyn<'a>(pub &'a Shape, pub &'a Val);

impl<M: 'static> Encode<M> for Dyn<'_> {
    type Encode = Self;
    fn encode<E>(&self, encoder: E) -> Result<(), E::Error>
    where
        E: Encoder<Mode = M>,
    {
        enc::<Endless, M, E>(self.0, self.1, encoder)
    }
    fn as_encode(&self) -> &Self {
        self
    }
}

/// How deep values may be nested: the encoder for `Value` has a type of its
/// own at every depth, so there has to be an end to it.
pub trait Depth: Copy {
    const NEW: Self;
    fn enc<M: 'static, E: Encoder<Mode = M>>(s: &Shape, v: &Val, e: E) -> Result<(), E::Error>;
}

#[derive(Clone, Copy)]
pub struct Endless;

impl Depth for Endless {
    const NEW: Self = Endless;
    fn enc<M: 'static, E: Encoder<Mode = M>>(s: &Shape, v: &Val, e: E) -> Result<(), E::Error> {
        // Not the function itself, whose type would grow without end.
        e.encode(Dyn(s, v))
    }
}

macro_rules! depths {
    ($($n:ident $inner:ident)*) => { $(
        #[derive(Clone, Copy)]
        pub struct $n;
        impl Depth for $n {
            const NEW: Self = $n;
            fn enc<M: 'static, E: Encoder<Mode = M>>(s: &Shape, v: &Val, e: E) -> Result<(), E::Error> {
                enc::<$inner, M, E>(s, v, e)
            }
        }
    )* };
}
depths! { Depth4 Depth3 Depth3 Depth2 Depth2 Depth1 Depth1 Depth0 }

#[derive(Clone, Copy)]
pub struct Depth0;

impl Depth for Depth0 {
    const NEW: Self = Depth0;
    fn enc<M: 'static, E: Encoder<Mode = M>>(s: &Shape, v: &Val, e: E) -> Result<(), E::Error> {
        leaf(s, v, e)
    }
}

/// A value to encode that is nested up to some depth.
#[derive(Clone, Copy)]
pub struct Within<'a, D>(pub &'a Shape, pub &'a Val, pub D);

impl<M: 'static, D: Depth> Encode<M> for Within<'_, D> {
    type Encode = Self;
    fn encode<E>(&self, encoder: E) -> Result<(), E::Error>
    where
        E: Encoder<Mode = M>,
    {
        D::enc::<M, E>(self.0, self.1, encoder)
    }
    fn as_encode(&self) -> &Self {
        self
    }
}

/// Encode into a value: containers of up to four levels.
pub fn to_value(s: &Shape, v: &Val) -> Result<musli::value::Value<musli::alloc::System>, String> {
    musli::value::encode(Within(s, v, Depth4)).map_err(|e| e.to_string())
}

impl<M: 'static> Encode<M> for Key {
    type Encode = Self;
    fn encode<E>(&self, encoder: E) -> Result<(), E::Error>
    where
        E: Encoder<Mode = M>,
    {
        match self {
            Key::S(s) => encoder.encode_string(s),
            Key::U(n) => encoder.encode_usize(*n),
            Key::I(n) => encoder.encode_i32(*n),
        }
    }
    fn as_encode(&self) -> &Self {
        self
    }
}

fn leaf<M: 'static, E: Encoder<Mode = M>>(s: &Shape, v: &Val, e: E) -> Result<(), E::Error> {
    match (s, v) {
        (Shape::Unit, _) => e.encode_empty(),
        (Shape::Bool, Val::Bool(v)) => e.encode_bool(*v),
        (Shape::Char, Val::Char(v)) => e.encode_char(*v),
        (Shape::U8, Val::U(v)) => e.encode_u8(*v as u8),
        (Shape::U16, Val::U(v)) => e.encode_u16(*v as u16),
        (Shape::U32, Val::U(v)) => e.encode_u32(*v as u32),
        (Shape::U64, Val::U(v)) => e.encode_u64(*v as u64),
        (Shape::U128, Val::U(v)) => e.encode_u128(*v),
        (Shape::Usize, Val::U(v)) => e.encode_usize(*v as usize),
        (Shape::I8, Val::I(v)) => e.encode_i8(*v as i8),
        (Shape::I16, Val::I(v)) => e.encode_i16(*v as i16),
        (Shape::I32, Val::I(v)) => e.encode_i32(*v as i32),
        (Shape::I64, Val::I(v)) => e.encode_i64(*v as i64),
        (Shape::I128, Val::I(v)) => e.encode_i128(*v),
        (Shape::Isize, Val::I(v)) => e.encode_isize(*v as isize),
        (Shape::F32, Val::F32(v)) => e.encode_f32(f32::from_bits(*v)),
        (Shape::F64, Val::F64(v)) => e.encode_f64(f64::from_bits(*v)),
        (Shape::Str, Val::Str(v)) => {
            // In one go, or collected: at once, in two halves, character by character.
            let mut at = v.len() / 2;
            while !v.is_char_boundary(at) {
                at += 1;
            }
            match style().seq_enc {
                0 => e.encode_string(v),
                1 => e.collect_string(v.as_str()),
                2 | 3 => e.collect_string(&format_args!("{}{}", &v[..at], &v[at..])),
                _ => e.collect_string(&Chars(v)),
            }
        }
        (Shape::Bytes, Val::Bytes(v)) => {
            // In one go, or vectored: in two halves, with empty parts and single bytes, as one
            // part, every byte on its own.
            let (a, b) = v.split_at(v.len() / 2);
            match style().seq_enc {
                0 => e.encode_bytes(v),
                1 => e.encode_bytes_vectored(v.len(), [a, b]),
                2 => {
                    let (x, b) = b.split_at(b.len().min(1));
                    e.encode_bytes_vectored(v.len(), [&[], a, x, &[], b, &[]])
                }
                3 => e.encode_bytes_vectored(v.len(), [v]),
                _ => e.encode_bytes_vectored(v.len(), v.chunks(1)),
            }
        }
        (Shape::Arr(n), Val::Bytes(v)) => match n {
            0 => e.encode_array::<0>(v.as_slice().try_into().unwrap()),
            1 => e.encode_array::<1>(v.as_slice().try_into().unwrap()),
            4 => e.encode_array::<4>(v.as_slice().try_into().unwrap()),
            40 => e.encode_array::<40>(v.as_slice().try_into().unwrap()),
            200 => e.encode_array::<200>(v.as_slice().try_into().unwrap()),
            _ => unreachable!(),
        },
        (Shape::Opt(_), Val::Opt(None)) => e.encode_none(),
        (s, v) => unreachable!("{v} of shape {s} is too deep"),
    }
}

fn enc<D: Depth, M: 'static, E: Encoder<Mode = M>>(
    s: &Shape,
    v: &Val,
    e: E,
) -> Result<(), E::Error> {
    match (s, v) {
        (Shape::Opt(s), Val::Opt(Some(v))) => e.encode_some()?.encode(Within(s, v, D::NEW)),
        (Shape::Seq(s), Val::Seq(v) | Val::Struct(v)) => {
            if style().seq_enc == 1 {
                let mut q = e.encode_sequence(v.len())?;
                for v in v {
                    q.encode_next()?.encode(Within(s, v, D::NEW))?;
                }
                q.finish_sequence()
            } else {
                e.encode_sequence_fn(v.len(), |q| {
                    for v in v {
                        q.push(Within(s, v, D::NEW))?;
                    }
                    Ok(())
                })
            }
        }
        (Shape::Pack(s), Val::Struct(v)) => e.encode_pack_fn(|p| {
            for (s, v) in s.iter().zip(v) {
                p.push(Within(s, v, D::NEW))?;
            }
            Ok(())
        }),
        (Shape::Map(ks, vs), Val::Map(v)) => match style().map_enc {
            1 => {
                let mut m = e.encode_map_entries(v.len())?;
                for (k, v) in v {
                    m.encode_entry_key()?.encode(Within(ks, k, D::NEW))?;
                    m.encode_entry_value()?.encode(Within(vs, v, D::NEW))?;
                }
                m.finish_entries()
            }
            2 => e.encode_map_fn(v.len(), |m| {
                for (k, v) in v {
                    m.encode_entry_fn(|e| {
                        e.encode_key()?.encode(Within(ks, k, D::NEW))?;
                        e.encode_value()?.encode(Within(vs, v, D::NEW))
                    })?;
                }
                Ok(())
            }),
            3 => {
                let mut m = e.encode_map(v.len())?;
                for (k, v) in v {
                    let mut e = m.encode_entry()?;
                    e.encode_key()?.encode(Within(ks, k, D::NEW))?;
                    e.encode_value()?.encode(Within(vs, v, D::NEW))?;
                    e.finish_entry()?;
                }
                m.finish_map()
            }
            _ => {
                let mut m = e.encode_map(v.len())?;
                for (k, v) in v {
                    m.insert_entry(Within(ks, k, D::NEW), Within(vs, v, D::NEW))?;
                }
                m.finish_map()
            }
        },
        (Shape::Struct(fs), Val::Struct(v)) => e.encode_map_fn(fs.len(), |m| {
            for ((k, s), v) in fs.iter().zip(v) {
                m.encode_entry_fn(|e| {
                    e.encode_key()?.encode(k)?;
                    e.encode_value()?.encode(Within(s, v, D::NEW))
                })?;
            }
            Ok(())
        }),
        (Shape::Enum(vs), Val::Enum(i, v)) => {
            let (tag, s) = &vs[*i];
            match (style().var_enc, s, &**v) {
                (2, Shape::Unit, Val::Unit) => e.encode_unit_variant(tag),
                (2, Shape::Seq(s), Val::Seq(v)) => {
                    let mut q = e.encode_sequence_variant(tag, v.len())?;
                    for v in v {
                        q.encode_next()?.encode(Within(s, v, D::NEW))?;
                    }
                    q.finish_sequence()
                }
                (2, Shape::Map(ks, vs), Val::Map(v)) => {
                    let mut m = e.encode_map_variant(tag, v.len())?;
                    for (k, v) in v {
                        m.insert_entry(Within(ks, k, D::NEW), Within(vs, v, D::NEW))?;
                    }
                    m.finish_map()
                }
                (2, Shape::Struct(fs), Val::Struct(v)) => {
                    let mut m = e.encode_map_variant(tag, v.len())?;
                    for ((k, s), v) in fs.iter().zip(v) {
                        m.insert_entry(k, Within(s, v, D::NEW))?;
                    }
                    m.finish_map()
                }
                (1, _, _) => e.encode_variant()?.insert_variant(tag, Within(s, v, D::NEW)),
                _ => e.encode_variant_fn(|e| {
                    e.encode_tag()?.encode(tag)?;
                    e.encode_data()?.encode(Within(s, v, D::NEW))
                }),
            }
        }
        (s, v) => leaf(s, v, e),
    }
}

/// A decoded value of the shape set by [`with_shape`].
#[derive(Debug, PartialEq)]
pub struct Out(pub Val);

impl<'de, M: 'static, A: Allocator> Decode<'de, M, A> for Out {
    fn decode<D>(decoder: D) -> Result<Self, D::Error>
    where
        D: Decoder<'de, Mode = M, Allocator = A>,
    {
        let s = CUR.with(|c| c.get());
        assert!(!s.is_null());
        // SAFETY: with_shape keeps the shape alive while it is set.
        Ok(Out(dec(unsafe { &*s }, decoder)?))
    }
}

fn sub<'de, D: Decoder<'de>>(s: &Shape, d: D) -> Result<Val, D::Error> {
    with_shape(s, || d.decode::<Out>()).map(|o| o.0)
}

fn bad<'de, D: Decoder<'de>>(d: D, m: &str) -> D::Error {
    d.cx().message(m)
}

/// What kind of key is among the tags?
fn key_of<'de, D: Decoder<'de>>(keys: &[(Key, Shape)], d: D) -> Result<Option<usize>, D::Error> {
    match keys.first().map(|k| &k.0) {
        None | Some(Key::S(_)) => d.decode_unsized(|s: &str| {
            Ok(keys
                .iter()
                .position(|(k, _)| matches!(k, Key::S(n) if *n == s)))
        }),
        Some(Key::U(_)) => {
            let n = d.decode_usize()?;
            Ok(keys
                .iter()
                .position(|(k, _)| matches!(k, Key::U(m) if *m == n)))
        }
        Some(Key::I(_)) => {
            let n = d.decode_i32()?;
            Ok(keys
                .iter()
                .position(|(k, _)| matches!(k, Key::I(m) if *m == n)))
        }
    }
}

fn dec<'de, D: Decoder<'de>>(s: &Shape, d: D) -> Result<Val, D::Error> {
    let cx = d.cx();
    Ok(match s {
        Shape::Unit => {
            d.decode_empty()?;
            Val::Unit
        }
        Shape::Bool => Val::Bool(d.decode_bool()?),
        Shape::Char => Val::Char(d.decode_char()?),
        Shape::U8 => Val::U(d.decode_u8()? as u128),
        Shape::U16 => Val::U(d.decode_u16()? as u128),
        Shape::U32 => Val::U(d.decode_u32()? as u128),
        Shape::U64 => Val::U(d.decode_u64()? as u128),
        Shape::U128 => Val::U(d.decode_u128()?),
        Shape::Usize => Val::U(d.decode_usize()? as u128),
        Shape::I8 => Val::I(d.decode_i8()? as i128),
        Shape::I16 => Val::I(d.decode_i16()? as i128),
        Shape::I32 => Val::I(d.decode_i32()? as i128),
        Shape::I64 => Val::I(d.decode_i64()? as i128),
        Shape::I128 => Val::I(d.decode_i128()?),
        Shape::Isize => Val::I(d.decode_isize()? as i128),
        Shape::F32 => Val::F32(d.decode_f32()?.to_bits()),
        Shape::F64 => Val::F64(d.decode_f64()?.to_bits()),
        Shape::Str => Val::Str(d.decode_unsized(|s: &str| Ok(s.to_string()))?),
        Shape::Bytes => Val::Bytes(d.decode_unsized_bytes(|s: &[u8]| Ok(s.to_vec()))?),
        Shape::Arr(n) => Val::Bytes(match n {
            0 => d.decode_array::<0>()?.to_vec(),
            1 => d.decode_array::<1>()?.to_vec(),
            4 => d.decode_array::<4>()?.to_vec(),
            40 => d.decode_array::<40>()?.to_vec(),
            200 => d.decode_array::<200>()?.to_vec(),
            _ => unreachable!(),
        }),
        Shape::Opt(s) => Val::Opt(match d.decode_option()? {
            None => None,
            Some(d) => Some(Box::new(sub(s, d)?)),
        }),
        Shape::Seq(s) => {
            let mut out = Vec::new();
            d.decode_sequence(|q| {
                if style().seq_dec == 1 {
                    if let Some(n) = q.size_hint().into_option() {
                        for _ in 0..n {
                            out.push(sub(s, q.decode_next()?)?);
                        }
                        if q.try_decode_next()?.is_some() {
                            return Err(cx.message("more elements than the size hint"));
                        }
                        return Ok(());
                    }
                }
                while let Some(d) = q.try_decode_next()? {
                    out.push(sub(s, d)?);
                }
                Ok(())
            })?;
            Val::Seq(out)
        }
        Shape::Pack(ss) => {
            let mut out = Vec::new();
            d.decode_pack(|p| {
                for s in ss {
                    out.push(sub(s, p.decode_next()?)?);
                }
                Ok(())
            })?;
            Val::Struct(out)
        }
        Shape::Map(ks, vs) => {
            let mut out = Vec::new();
            match style().map_dec {
                1 => d.decode_map_entries(|m| {
                    loop {
                        let k = match m.decode_entry_key()? {
                            Some(k) => sub(ks, k)?,
                            None => break,
                        };
                        let v = sub(vs, m.decode_entry_value()?)?;
                        out.push((k, v));
                    }
                    Ok(())
                })?,
                2 => d.decode_map(|m| {
                    if let Some(mut e) = m.decode_entry()? {
                        let k = sub(ks, e.decode_key()?)?;
                        let v = sub(vs, e.decode_value()?)?;
                        out.push((k, v));
                    }
                    let mut r = m.decode_remaining_entries()?;
                    loop {
                        let k = match r.decode_entry_key()? {
                            Some(k) => sub(ks, k)?,
                            None => break,
                        };
                        let v = sub(vs, r.decode_entry_value()?)?;
                        out.push((k, v));
                    }
                    r.end_entries()
                })?,
                _ => d.decode_map(|m| {
                    while let Some(mut e) = m.decode_entry()? {
                        let k = sub(ks, e.decode_key()?)?;
                        let v = sub(vs, e.decode_value()?)?;
                        out.push((k, v));
                    }
                    Ok(())
                })?,
            }
            Val::Map(out)
        }
        Shape::Struct(fs) => {
            let mut out: Vec<Option<Val>> = vec![None; fs.len()];
            d.decode_map_hint(fs.len(), |m| {
                while let Some(mut e) = m.decode_entry()? {
                    let i = key_of(fs, e.decode_key()?)?;
                    let v = e.decode_value()?;
                    match i {
                        Some(i) => out[i] = Some(sub(&fs[i].1, v)?),
                        None => {
                            if v.try_skip()?.is_unsupported() {
                                return Err(cx.message("unknown field"));
                            }
                        }
                    }
                }
                Ok(())
            })?;
            let mut vals = Vec::new();
            for (i, v) in out.into_iter().enumerate() {
                match v {
                    Some(v) => vals.push(v),
                    // A missing option is none, everything else is required.
                    None if matches!(fs[i].1, Shape::Opt(_)) => vals.push(Val::Opt(None)),
                    None => return Err(cx.message("missing field")),
                }
            }
            Val::Struct(vals)
        }
        Shape::Enum(vs) => d.decode_variant(|v| {
            let i = key_of(vs, v.decode_tag()?)?;
            let Some(i) = i else {
                return Err(bad(v.decode_value()?, "unknown variant"));
            };
            Ok(Val::Enum(i, Box::new(sub(&vs[i].1, v.decode_value()?)?)))
        })?,
    })
}
