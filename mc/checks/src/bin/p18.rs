//! P18: serde types through the bridge behave like native types.

use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::fmt;

use eng::*;
use kit::*;
use musli::alloc::{Allocator, System};
use musli::{Decode, Decoder, Encode, Encoder};
use serde::de::{self, DeserializeSeed, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{
    SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple,
    SerializeTupleStruct, SerializeTupleVariant,
};
use serde::{Deserialize, Deserializer, Serialize, Serializer};

kit::global_allocator!();

/// What is serialized, in the terms of serde's data model.
#[derive(Debug)]
enum S {
    Leaf(Shape),
    Opt(&'static S),
    UnitStruct,
    Newtype(&'static S),
    Seq(&'static S),
    Tuple(Vec<&'static S>),
    TupleStruct(Vec<&'static S>),
    Map(&'static S, &'static S),
    Struct(Names, Vec<&'static S>),
    Enum(Names, Vec<V>),
}

type Names = &'static [&'static str];

#[derive(Debug)]
enum V {
    Unit,
    Newtype(&'static S),
    Tuple(Vec<&'static S>),
    Struct(Names, Vec<&'static S>),
}

fn lk(s: S) -> &'static S {
    Box::leak(Box::new(s))
}

impl S {
    /// The same as a shape, of which it has the values.
    fn shape(&self) -> Shape {
        let all = |v: &[&S]| -> Vec<(Key, Shape)> {
            v.iter().enumerate().map(|(n, s)| (Key::U(n), s.shape())).collect()
        };
        let named = |n: Names, v: &[&S]| -> Vec<(Key, Shape)> {
            n.iter().zip(v).map(|(n, s)| (Key::S(n), s.shape())).collect()
        };
        match self {
            S::Leaf(s) => s.clone(),
            S::Opt(s) => Shape::opt(s.shape()),
            S::UnitStruct => Shape::Unit,
            S::Newtype(s) => s.shape(),
            S::Seq(s) => Shape::seq(s.shape()),
            S::Tuple(v) | S::TupleStruct(v) => Shape::Struct(all(v)),
            S::Map(k, v) => Shape::map(k.shape(), v.shape()),
            S::Struct(n, v) => Shape::Struct(named(n, v)),
            S::Enum(n, v) => Shape::Enum(
                n.iter()
                    .zip(v)
                    .map(|(n, v)| {
                        let s = match v {
                            V::Unit => Shape::Unit,
                            V::Newtype(s) => s.shape(),
                            V::Tuple(v) => Shape::Struct(all(v)),
                            V::Struct(n, v) => Shape::Struct(named(n, v)),
                        };
                        (Key::S(n), s)
                    })
                    .collect(),
            ),
        }
    }

    fn any(&self, f: &dyn Fn(&S) -> bool) -> bool {
        f(self)
            || match self {
                S::Opt(s) | S::Newtype(s) | S::Seq(s) => s.any(f),
                S::Tuple(v) | S::TupleStruct(v) | S::Struct(_, v) => v.iter().any(|s| s.any(f)),
                S::Map(k, v) => k.any(f) || v.any(f),
                S::Enum(_, v) => v.iter().any(|v| match v {
                    V::Unit => false,
                    V::Newtype(s) => s.any(f),
                    V::Tuple(v) | V::Struct(_, v) => v.iter().any(|s| s.any(f)),
                }),
                _ => false,
            }
    }

    /// Shared with the native model: no positional fields.
    fn native(&self) -> bool {
        !self.any(&|s| match s {
            S::Tuple(..) | S::TupleStruct(..) => true,
            S::Enum(_, v) => v.iter().any(|v| matches!(v, V::Tuple(..))),
            _ => false,
        })
    }
}

/// The ways there are to go through serde's traits.
#[derive(Clone, Copy, PartialEq, Debug)]
struct How {
    /// Strings are collected, sequences have no length.
    collect: bool,
    /// Owned rather than borrowed, keys and values one by one.
    owned: bool,
    /// Read past the end.
    past: bool,
}

const HOW: How = How { collect: false, owned: false, past: false };

fn hows() -> Vec<How> {
    let mut v = Vec::new();
    for n in 0..8 {
        v.push(How { collect: n & 1 != 0, owned: n & 2 != 0, past: n & 4 != 0 });
    }
    v
}

thread_local! {
    static CUR: Cell<Option<&'static S>> = const { Cell::new(None) };
    static STY: Cell<How> = const { Cell::new(HOW) };
    static HINTS: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
    static READABLE: RefCell<Vec<bool>> = const { RefCell::new(Vec::new()) };
}

fn how() -> How {
    STY.with(|s| s.get())
}

/// A value to serialize.
#[derive(Clone, Copy)]
struct N<'a>(&'static S, &'a Val);

impl Serialize for N<'_> {
    fn serialize<Z: Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        READABLE.with(|r| r.borrow_mut().push(z.is_human_readable()));
        let fields = |v: &Val| -> Vec<Val> {
            match v {
                Val::Struct(v) => v.clone(),
                v => unreachable!("{v}"),
            }
        };
        match (self.0, self.1) {
            (S::Leaf(s), v) => match (s, v) {
                (Shape::Unit, _) => z.serialize_unit(),
                (Shape::Bool, Val::Bool(v)) => z.serialize_bool(*v),
                (Shape::Char, Val::Char(v)) => z.serialize_char(*v),
                (Shape::U8, Val::U(v)) => z.serialize_u8(*v as u8),
                (Shape::U16, Val::U(v)) => z.serialize_u16(*v as u16),
                (Shape::U32, Val::U(v)) => z.serialize_u32(*v as u32),
                (Shape::U64, Val::U(v)) => z.serialize_u64(*v as u64),
                (Shape::U128, Val::U(v)) => z.serialize_u128(*v),
                (Shape::I8, Val::I(v)) => z.serialize_i8(*v as i8),
                (Shape::I16, Val::I(v)) => z.serialize_i16(*v as i16),
                (Shape::I32, Val::I(v)) => z.serialize_i32(*v as i32),
                (Shape::I64, Val::I(v)) => z.serialize_i64(*v as i64),
                (Shape::I128, Val::I(v)) => z.serialize_i128(*v),
                (Shape::F32, Val::F32(v)) => z.serialize_f32(f32::from_bits(*v)),
                (Shape::F64, Val::F64(v)) => z.serialize_f64(f64::from_bits(*v)),
                (Shape::Str, Val::Str(v)) if how().collect => z.collect_str(v),
                (Shape::Str, Val::Str(v)) => z.serialize_str(v),
                (Shape::Bytes, Val::Bytes(v)) => z.serialize_bytes(v),
                _ => unreachable!(),
            },
            (S::Opt(_), Val::Opt(None)) => z.serialize_none(),
            (S::Opt(s), Val::Opt(Some(v))) => z.serialize_some(&N(s, v)),
            (S::UnitStruct, _) => z.serialize_unit_struct("UnitStruct"),
            (S::Newtype(s), v) => z.serialize_newtype_struct("Newtype", &N(s, v)),
            (S::Seq(s), Val::Seq(v)) => {
                let mut q = z.serialize_seq((!how().collect).then_some(v.len()))?;
                for v in v {
                    q.serialize_element(&N(s, v))?;
                }
                q.end()
            }
            (S::Tuple(ss), v) => {
                let mut q = z.serialize_tuple(ss.len())?;
                for (s, v) in ss.iter().zip(&fields(v)) {
                    q.serialize_element(&N(s, v))?;
                }
                q.end()
            }
            (S::TupleStruct(ss), v) => {
                let mut q = z.serialize_tuple_struct("TupleStruct", ss.len())?;
                for (s, v) in ss.iter().zip(&fields(v)) {
                    q.serialize_field(&N(s, v))?;
                }
                q.end()
            }
            (S::Map(ks, vs), Val::Map(v)) => {
                let mut m = z.serialize_map(Some(v.len()))?;
                for (k, v) in v {
                    if how().owned {
                        m.serialize_key(&N(ks, k))?;
                        m.serialize_value(&N(vs, v))?;
                    } else {
                        m.serialize_entry(&N(ks, k), &N(vs, v))?;
                    }
                }
                m.end()
            }
            (S::Struct(ns, ss), v) => {
                let mut m = z.serialize_struct("Struct", ss.len())?;
                for ((n, s), v) in ns.iter().zip(ss).zip(&fields(v)) {
                    m.serialize_field(n, &N(s, v))?;
                }
                m.end()
            }
            (S::Enum(ns, vs), Val::Enum(i, v)) => {
                let (name, n) = (ns[*i], *i as u32);
                match &vs[*i] {
                    V::Unit => z.serialize_unit_variant("Enum", n, name),
                    V::Newtype(s) => z.serialize_newtype_variant("Enum", n, name, &N(s, v)),
                    V::Tuple(ss) => {
                        let mut q = z.serialize_tuple_variant("Enum", n, name, ss.len())?;
                        for (s, v) in ss.iter().zip(&fields(v)) {
                            q.serialize_field(&N(s, v))?;
                        }
                        q.end()
                    }
                    V::Struct(ns, ss) => {
                        let mut m = z.serialize_struct_variant("Enum", n, name, ss.len())?;
                        for ((n, s), v) in ns.iter().zip(ss).zip(&fields(v)) {
                            m.serialize_field(n, &N(s, v))?;
                        }
                        m.end()
                    }
                }
            }
            (s, v) => unreachable!("{v} of {s:?}"),
        }
    }
}

/// Deserializes what is serialized by [`N`].
#[derive(Clone, Copy)]
struct D(&'static S);

impl<'de> DeserializeSeed<'de> for D {
    type Value = Val;

    fn deserialize<Z: Deserializer<'de>>(self, z: Z) -> Result<Val, Z::Error> {
        READABLE.with(|r| r.borrow_mut().push(z.is_human_readable()));
        let me = Vis(self.0);
        match self.0 {
            S::Leaf(s) => match s {
                Shape::Unit => z.deserialize_unit(me),
                Shape::Bool => z.deserialize_bool(me),
                Shape::Char => z.deserialize_char(me),
                Shape::U8 => z.deserialize_u8(me),
                Shape::U16 => z.deserialize_u16(me),
                Shape::U32 => z.deserialize_u32(me),
                Shape::U64 => z.deserialize_u64(me),
                Shape::U128 => z.deserialize_u128(me),
                Shape::I8 => z.deserialize_i8(me),
                Shape::I16 => z.deserialize_i16(me),
                Shape::I32 => z.deserialize_i32(me),
                Shape::I64 => z.deserialize_i64(me),
                Shape::I128 => z.deserialize_i128(me),
                Shape::F32 => z.deserialize_f32(me),
                Shape::F64 => z.deserialize_f64(me),
                Shape::Str if how().owned => z.deserialize_string(me),
                Shape::Str => z.deserialize_str(me),
                Shape::Bytes if how().owned => z.deserialize_byte_buf(me),
                Shape::Bytes => z.deserialize_bytes(me),
                _ => unreachable!(),
            },
            S::Opt(_) => z.deserialize_option(me),
            S::UnitStruct => z.deserialize_unit_struct("UnitStruct", me),
            S::Newtype(_) => z.deserialize_newtype_struct("Newtype", me),
            S::Seq(_) => z.deserialize_seq(me),
            S::Tuple(v) => z.deserialize_tuple(v.len(), me),
            S::TupleStruct(v) => z.deserialize_tuple_struct("TupleStruct", v.len(), me),
            S::Map(..) => z.deserialize_map(me),
            S::Struct(n, _) => z.deserialize_struct("Struct", n, me),
            S::Enum(n, _) => z.deserialize_enum("Enum", n, me),
        }
    }
}

struct Vis(&'static S);

impl Vis {
    fn int<E: de::Error>(self, neg: bool, n: u128) -> Result<Val, E> {
        let S::Leaf(s) = self.0 else {
            return Err(E::custom("not an integer"));
        };
        if !s.is_int() {
            return Err(E::custom(format!("an integer for {s}")));
        }
        let bits = s.bits();
        if s.is_signed() {
            let n = if neg { (n as i128).wrapping_neg() } else { n as i128 };
            if (!neg && n < 0) || (n << (128 - bits)) >> (128 - bits) != n {
                return Err(E::custom("out of range"));
            }
            return Ok(Val::I(n));
        }
        if (neg && n != 0) || (bits < 128 && n >> bits != 0) {
            return Err(E::custom("out of range"));
        }
        Ok(Val::U(n))
    }
    fn is(&self, s: Shape) -> bool {
        matches!(self.0, S::Leaf(me) if *me == s)
    }
}

/// Hints are no less than what is there.
struct Hints {
    what: &'static str,
    given: Vec<Option<usize>>,
}

impl Hints {
    fn check(self, ended: bool) {
        let n = self.given.len();
        for (k, h) in self.given.iter().enumerate() {
            let left = n - k - usize::from(ended);
            if let Some(h) = h {
                if *h < left {
                    HINTS.with(|v| {
                        v.borrow_mut().push(format!(
                            "{}: the hint is {h} in front of the last {left}",
                            self.what
                        ))
                    });
                }
            }
        }
    }
}

fn positional<'de, A: SeqAccess<'de>>(v: &[&'static S], mut a: A) -> Result<Val, A::Error> {
    let mut out = Vec::new();
    let mut h = Hints { what: "tuple", given: Vec::new() };
    for (n, s) in v.iter().enumerate() {
        h.given.push(a.size_hint());
        match a.next_element_seed(D(s))? {
            Some(v) => out.push(v),
            None => return Err(de::Error::invalid_length(n, &"more")),
        }
    }
    if how().past {
        h.given.push(a.size_hint());
        if a.next_element::<de::IgnoredAny>()?.is_some() {
            return Err(de::Error::custom("more than there should be"));
        }
    }
    h.check(how().past);
    Ok(Val::Struct(out))
}

fn fields<'de, A: MapAccess<'de>>(
    names: Names,
    v: &[&'static S],
    mut a: A,
) -> Result<Val, A::Error> {
    let mut out: Vec<Option<Val>> = names.iter().map(|_| None).collect();
    let mut h = Hints { what: "struct", given: Vec::new() };
    loop {
        h.given.push(a.size_hint());
        let Some(n) = a.next_key_seed(Ident(names))? else {
            break;
        };
        match n {
            Some(n) => {
                if out[n].is_some() {
                    return Err(de::Error::duplicate_field(names[n]));
                }
                out[n] = Some(a.next_value_seed(D(v[n]))?);
            }
            None => {
                a.next_value::<de::IgnoredAny>()?;
            }
        }
    }
    h.check(true);
    let mut all = Vec::new();
    for (n, v) in out.into_iter().enumerate() {
        match v {
            Some(v) => all.push(v),
            None => return Err(de::Error::missing_field(names[n])),
        }
    }
    Ok(Val::Struct(all))
}

impl<'de> Visitor<'de> for Vis {
    type Value = Val;

    fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self.0)
    }
    fn visit_unit<E: de::Error>(self) -> Result<Val, E> {
        match self.0 {
            S::Leaf(Shape::Unit) | S::UnitStruct => Ok(Val::Unit),
            S::Opt(_) => Ok(Val::Opt(None)),
            _ => Err(E::custom("a unit")),
        }
    }
    fn visit_bool<E: de::Error>(self, v: bool) -> Result<Val, E> {
        if self.is(Shape::Bool) {
            return Ok(Val::Bool(v));
        }
        Err(E::custom("a bool"))
    }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<Val, E> {
        self.int(false, v as u128)
    }
    fn visit_u128<E: de::Error>(self, v: u128) -> Result<Val, E> {
        self.int(false, v)
    }
    fn visit_i64<E: de::Error>(self, v: i64) -> Result<Val, E> {
        self.int(v < 0, v.unsigned_abs() as u128)
    }
    fn visit_i128<E: de::Error>(self, v: i128) -> Result<Val, E> {
        self.int(v < 0, v.unsigned_abs())
    }
    fn visit_f32<E: de::Error>(self, v: f32) -> Result<Val, E> {
        if self.is(Shape::F32) {
            return Ok(Val::F32(v.to_bits()));
        }
        Err(E::custom("a f32"))
    }
    fn visit_f64<E: de::Error>(self, v: f64) -> Result<Val, E> {
        if self.is(Shape::F64) {
            return Ok(Val::F64(v.to_bits()));
        }
        Err(E::custom("a f64"))
    }
    fn visit_char<E: de::Error>(self, v: char) -> Result<Val, E> {
        if self.is(Shape::Char) {
            return Ok(Val::Char(v));
        }
        Err(E::custom("a char"))
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<Val, E> {
        if self.is(Shape::Str) {
            return Ok(Val::Str(v.to_owned()));
        }
        Err(E::custom("a string"))
    }
    fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<Val, E> {
        if self.is(Shape::Bytes) {
            return Ok(Val::Bytes(v.to_owned()));
        }
        Err(E::custom("bytes"))
    }
    fn visit_none<E: de::Error>(self) -> Result<Val, E> {
        match self.0 {
            S::Opt(_) => Ok(Val::Opt(None)),
            _ => Err(E::custom("a none")),
        }
    }
    fn visit_some<Z: Deserializer<'de>>(self, z: Z) -> Result<Val, Z::Error> {
        match self.0 {
            S::Opt(s) => Ok(Val::Opt(Some(Box::new(D(s).deserialize(z)?)))),
            _ => Err(de::Error::custom("a some")),
        }
    }
    fn visit_newtype_struct<Z: Deserializer<'de>>(self, z: Z) -> Result<Val, Z::Error> {
        match self.0 {
            S::Newtype(s) => D(s).deserialize(z),
            _ => Err(de::Error::custom("a newtype")),
        }
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        match self.0 {
            S::Seq(s) => {
                let mut out = Vec::new();
                let mut h = Hints { what: "sequence", given: Vec::new() };
                loop {
                    h.given.push(a.size_hint());
                    match a.next_element_seed(D(s))? {
                        Some(v) => out.push(v),
                        None => break,
                    }
                }
                if how().past && a.next_element::<de::IgnoredAny>()?.is_some() {
                    return Err(de::Error::custom("an element past the end"));
                }
                h.check(true);
                Ok(Val::Seq(out))
            }
            S::Tuple(v) | S::TupleStruct(v) | S::Struct(_, v) => positional(v, a),
            S::Leaf(Shape::Bytes) => {
                let mut out = Vec::new();
                while let Some(b) = a.next_element::<u8>()? {
                    out.push(b);
                }
                Ok(Val::Bytes(out))
            }
            _ => Err(de::Error::custom("a sequence")),
        }
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        match self.0 {
            S::Map(ks, vs) => {
                let mut out = Vec::new();
                let mut h = Hints { what: "map", given: Vec::new() };
                loop {
                    h.given.push(a.size_hint());
                    if how().owned {
                        match a.next_entry_seed(D(ks), D(vs))? {
                            Some(v) => out.push(v),
                            None => break,
                        }
                    } else {
                        let Some(k) = a.next_key_seed(D(ks))? else {
                            break;
                        };
                        out.push((k, a.next_value_seed(D(vs))?));
                    }
                }
                h.check(true);
                Ok(Val::Map(out))
            }
            S::Struct(n, v) => fields(n, v, a),
            _ => Err(de::Error::custom("a map")),
        }
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Val, A::Error> {
        let S::Enum(names, vs) = self.0 else {
            return Err(de::Error::custom("an enum"));
        };
        let (Some(n), a) = a.variant_seed(Ident(names))? else {
            return Err(de::Error::custom("no such variant"));
        };
        let v = match &vs[n] {
            V::Unit => a.unit_variant().map(|()| Val::Unit)?,
            V::Newtype(s) => a.newtype_variant_seed(D(s))?,
            V::Tuple(v) => {
                // Its visitor is that of a tuple.
                let s: &'static S = lk(S::Tuple(v.clone()));
                a.tuple_variant(v.len(), Vis(s))?
            }
            V::Struct(n, v) => {
                let s: &'static S = lk(S::Struct(n, v.clone()));
                a.struct_variant(n, Vis(s))?
            }
        };
        Ok(Val::Enum(n, Box::new(v)))
    }
}

/// The name of a field or variant.
struct Ident(Names);

impl<'de> DeserializeSeed<'de> for Ident {
    type Value = Option<usize>;
    fn deserialize<Z: Deserializer<'de>>(self, z: Z) -> Result<Self::Value, Z::Error> {
        z.deserialize_identifier(self)
    }
}

impl Visitor<'_> for Ident {
    type Value = Option<usize>;
    fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "one of {:?}", self.0)
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<Self::Value, E> {
        Ok(self.0.iter().position(|n| *n == v))
    }
    fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<Self::Value, E> {
        Ok(self.0.iter().position(|n| n.as_bytes() == v))
    }
}

/// Of the current shape.
#[derive(Debug, PartialEq)]
struct Top(Val);

impl<'de> Deserialize<'de> for Top {
    fn deserialize<Z: Deserializer<'de>>(z: Z) -> Result<Self, Z::Error> {
        D(CUR.with(|c| c.get()).unwrap()).deserialize(z).map(Top)
    }
}

/// Through the bridge.
struct B<T>(T);

impl<M: 'static, T: Serialize> Encode<M> for B<T> {
    type Encode = Self;
    const IS_BITWISE_ENCODE: bool = false;
    fn encode<E: Encoder<Mode = M>>(&self, e: E) -> Result<(), E::Error> {
        musli::serde::encode(&self.0, e)
    }
    fn as_encode(&self) -> &Self {
        self
    }
}

impl<'de, M: 'static, A: Allocator, T: Deserialize<'de>> Decode<'de, M, A> for B<T> {
    const IS_BITWISE_DECODE: bool = false;
    fn decode<Z: Decoder<'de, Mode = M, Allocator = A>>(d: Z) -> Result<Self, Z::Error> {
        musli::serde::decode(d).map(B)
    }
}

/// As a field of a native type.
#[derive(Encode)]
#[musli(Text, name_all = "name")]
struct Holder<'a> {
    before: u8,
    #[musli(with = musli::serde)]
    bridged: N<'a>,
    after: u8,
}

#[derive(Decode, Debug)]
#[musli(Text, name_all = "name")]
struct Held {
    before: u8,
    #[musli(with = musli::serde)]
    bridged: Top,
    after: u8,
}

fn run<T>(s: &'static S, h: How, f: impl FnOnce() -> T) -> T {
    CUR.with(|c| c.set(Some(s)));
    STY.with(|c| c.set(h));
    HINTS.with(|v| v.borrow_mut().clear());
    READABLE.with(|v| v.borrow_mut().clear());
    f()
}

fn usable<F: Format>(s: &S, shape: &Shape, v: &Val) -> bool {
    supports(F::KIND, F::OPT, shape)
        && fits(F::OPT, shape, v)
        && !(F::KIND == Kind::Packed && s.any(&|s| matches!(s, S::Opt(_))))
        && !(F::KIND == Kind::Json && (v.non_finite() || v.null_in_some()))
}

/// There and back again.
fn roundtrip<F: Format>(fam: &mut Fam<'_>, s: &'static S, shape: &Shape, v: &Val, h: How) {
    if !usable::<F>(s, shape, v) {
        return;
    }
    fam.case(
        || {
            if h == HOW {
                format!("{s:?} = {v}")
            } else {
                format!("{s:?} = {v} with {h:?}")
            }
        },
        || {
            run(s, h, || {
                let text = std::any::TypeId::of::<F::Mode>()
                    == std::any::TypeId::of::<musli::mode::Text>();
                let seqs = h.collect && s.any(&|s| matches!(s, S::Seq(_)));
                let b = match no_panic(|| F::enc(&B(N(s, v))))? {
                    // The format has to know the length.
                    Err(_) if seqs => return Ok(0),
                    b => b?,
                };
                let (got, rest) = no_panic(|| F::dec_rest::<B<Top>>(&b))?
                    .map_err(|e| format!("{} is refused: {e}", show(&b)))?;
                ensure!(got.0 .0 == *v, "{} decodes as {}", show(&b), got.0 .0);
                ensure!(rest == 0, "{rest} bytes of {} are left", show(&b));
                HINTS.with(|v| match v.borrow().first() {
                    Some(e) => Err(Failure::from(e.clone())),
                    None => Ok(()),
                })?;
                READABLE.with(|v| {
                    ensure!(
                        v.borrow().iter().all(|v| *v == text),
                        "human readable: {:?} in {}",
                        v.borrow(),
                        F::NAME
                    );
                    Ok::<(), Failure>(())
                })?;
                // What a native type of that shape says and understands.
                if F::KIND == Kind::Json && s.native() {
                    let native = F::enc(&Dyn(shape, v))?;
                    let got = F::dec::<B<Top>>(&native)
                        .map_err(|e| format!("natively {}, which is refused: {e}", show(&native)))?;
                    ensure!(
                        got.0 .0 == *v,
                        "natively {} which decodes as {}",
                        show(&native),
                        got.0 .0
                    );
                    let got = with_shape(shape, || F::dec::<Out>(&b))
                        .map_err(|e| format!("{} is refused natively: {e}", show(&b)))?;
                    ensure!(got.0 == *v, "{} natively decodes as {}", show(&b), got.0);
                }
                Ok(Fp::new().str(F::NAME).bytes(&b).done())
            })
        },
    );
}

/// As a field, in a vector and in an option of native types.
fn embedded<F: Format>(fam: &mut Fam<'_>, s: &'static S, shape: &Shape, v: &Val)
where
    for<'a> Holder<'a>: Encode<F::Mode>,
    Held: for<'de> Decode<'de, F::Mode, System>,
    for<'a> Vec<B<N<'a>>>: Encode<F::Mode>,
    Vec<B<Top>>: for<'de> Decode<'de, F::Mode, System>,
{
    if !usable::<F>(s, shape, v) {
        return;
    }
    fam.case(
        || format!("{s:?} = {v}"),
        || {
            run(s, HOW, || {
                let f = Holder { before: 7, bridged: N(s, v), after: 9 };
                let b = no_panic(|| F::enc(&f))??;
                let got = no_panic(|| F::dec::<Held>(&b))?
                    .map_err(|e| format!("{} is refused: {e}", show(&b)))?;
                ensure!(
                    got.bridged.0 == *v && got.before == 7 && got.after == 9,
                    "{} decodes as {got:?}",
                    show(&b)
                );
                let f = vec![B(N(s, v)), B(N(s, v))];
                let c = no_panic(|| F::enc(&f))??;
                let got = no_panic(|| F::dec::<Vec<B<Top>>>(&c))?
                    .map_err(|e| format!("{} is refused: {e}", show(&c)))?;
                ensure!(
                    got.len() == 2 && got.iter().all(|g| g.0 .0 == *v),
                    "{} decodes as another",
                    show(&c)
                );
                Ok(Fp::new().str(F::NAME).bytes(&b).done())
            })
        },
    );
}

fn show(b: &[u8]) -> String {
    match std::str::from_utf8(b) {
        Ok(s) if s.chars().all(|c| !c.is_control()) => s.to_owned(),
        _ => hex(b),
    }
}

/// Whatever there is.
#[derive(Debug, PartialEq, Clone)]
enum C {
    Unit,
    Bool(bool),
    Int(bool, u128),
    F32(u32),
    F64(u64),
    Char(char),
    Str(String),
    Bytes(Vec<u8>),
    None,
    Some(Box<C>),
    Seq(Vec<C>),
    Map(Vec<(C, C)>),
}

impl<'de> Deserialize<'de> for C {
    fn deserialize<Z: Deserializer<'de>>(z: Z) -> Result<Self, Z::Error> {
        z.deserialize_any(CVis)
    }
}

struct CVis;

impl<'de> Visitor<'de> for CVis {
    type Value = C;
    fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "anything")
    }
    fn visit_unit<E>(self) -> Result<C, E> {
        Ok(C::Unit)
    }
    fn visit_bool<E>(self, v: bool) -> Result<C, E> {
        Ok(C::Bool(v))
    }
    fn visit_u64<E>(self, v: u64) -> Result<C, E> {
        Ok(C::Int(false, v as u128))
    }
    fn visit_u128<E>(self, v: u128) -> Result<C, E> {
        Ok(C::Int(false, v))
    }
    fn visit_i64<E>(self, v: i64) -> Result<C, E> {
        Ok(C::Int(v < 0, v.unsigned_abs() as u128))
    }
    fn visit_i128<E>(self, v: i128) -> Result<C, E> {
        Ok(C::Int(v < 0, v.unsigned_abs()))
    }
    fn visit_f32<E>(self, v: f32) -> Result<C, E> {
        Ok(C::F32(v.to_bits()))
    }
    fn visit_f64<E>(self, v: f64) -> Result<C, E> {
        Ok(C::F64(v.to_bits()))
    }
    fn visit_char<E>(self, v: char) -> Result<C, E> {
        Ok(C::Char(v))
    }
    fn visit_str<E>(self, v: &str) -> Result<C, E> {
        Ok(C::Str(v.to_owned()))
    }
    fn visit_bytes<E>(self, v: &[u8]) -> Result<C, E> {
        Ok(C::Bytes(v.to_owned()))
    }
    fn visit_none<E>(self) -> Result<C, E> {
        Ok(C::None)
    }
    fn visit_some<Z: Deserializer<'de>>(self, z: Z) -> Result<C, Z::Error> {
        C::deserialize(z).map(|v| C::Some(Box::new(v)))
    }
    fn visit_newtype_struct<Z: Deserializer<'de>>(self, z: Z) -> Result<C, Z::Error> {
        C::deserialize(z)
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<C, A::Error> {
        let mut out = Vec::new();
        let mut h = Hints { what: "any sequence", given: Vec::new() };
        loop {
            h.given.push(a.size_hint());
            match a.next_element()? {
                Some(v) => out.push(v),
                None => break,
            }
        }
        h.check(true);
        Ok(C::Seq(out))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<C, A::Error> {
        let mut out = Vec::new();
        let mut h = Hints { what: "any map", given: Vec::new() };
        loop {
            h.given.push(a.size_hint());
            match a.next_entry()? {
                Some(v) => out.push(v),
                None => break,
            }
        }
        h.check(true);
        Ok(C::Map(out))
    }
}

fn float(c: &C) -> Option<f64> {
    match c {
        C::F32(v) => Some(f32::from_bits(*v) as f64),
        C::F64(v) => Some(f64::from_bits(*v)),
        C::Int(neg, v) => Some(if *neg { -(*v as f64) } else { *v as f64 }),
        _ => None,
    }
}

/// Is that what was encoded?
fn agrees(s: &S, v: &Val, c: &C, json: bool) -> bool {
    let all = |ss: &[&'static S], v: &Val, c: &C| match (v, c) {
        (Val::Struct(v), C::Seq(c)) => {
            v.len() == c.len() && ss.iter().zip(v).zip(c).all(|((s, v), c)| agrees(s, v, c, json))
        }
        _ => false,
    };
    let named = |ns: Names, ss: &[&'static S], v: &Val, c: &C| match (v, c) {
        (Val::Struct(v), C::Map(c)) => {
            v.len() == c.len()
                && ns.iter().zip(ss).zip(v).zip(c).all(|(((n, s), v), (k, c))| {
                    *k == C::Str(n.to_string()) && agrees(s, v, c, json)
                })
        }
        _ => false,
    };
    match (s, v) {
        (S::Leaf(s), v) => match (s, v) {
            (Shape::Unit, _) => matches!(c, C::Unit | C::None),
            (_, Val::Bool(v)) => *c == C::Bool(*v),
            (_, Val::Char(v)) => *c == C::Char(*v) || json && *c == C::Str(v.to_string()),
            (_, Val::U(n)) => *c == C::Int(false, *n),
            (_, Val::I(n)) => *c == C::Int(*n < 0, n.unsigned_abs()),
            (_, Val::F32(n)) if json => float(c).is_some_and(|f| (f as f32).to_bits() == *n || f as f32 == f32::from_bits(*n)),
            (_, Val::F64(n)) if json => float(c).is_some_and(|f| f.to_bits() == *n || f == f64::from_bits(*n)),
            (_, Val::F32(n)) => *c == C::F32(*n),
            (_, Val::F64(n)) => *c == C::F64(*n),
            (_, Val::Str(v)) => *c == C::Str(v.clone()),
            (_, Val::Bytes(v)) => {
                *c == C::Bytes(v.clone())
                    || json && *c == C::Seq(v.iter().map(|b| C::Int(false, *b as u128)).collect())
            }
            _ => false,
        },
        (S::UnitStruct, _) => matches!(c, C::Unit | C::None),
        (S::Opt(_), Val::Opt(None)) => matches!(c, C::Unit | C::None),
        (S::Opt(s), Val::Opt(Some(v))) => match c {
            C::Some(c) => agrees(s, v, c, json),
            c => json && agrees(s, v, c, json),
        },
        (S::Newtype(s), v) => agrees(s, v, c, json),
        (S::Seq(s), Val::Seq(v)) => match c {
            C::Seq(c) => v.len() == c.len() && v.iter().zip(c).all(|(v, c)| agrees(s, v, c, json)),
            _ => false,
        },
        (S::Tuple(ss) | S::TupleStruct(ss), v) => all(ss, v, c),
        (S::Map(ks, vs), Val::Map(v)) => match c {
            C::Map(c) => {
                v.len() == c.len()
                    && v.iter().zip(c).all(|((k, v), (a, b))| {
                        let key = agrees(ks, k, a, json)
                            || json
                                && match (k, a) {
                                    (Val::U(n), C::Str(s)) => *s == n.to_string(),
                                    (Val::I(n), C::Str(s)) => *s == n.to_string(),
                                    _ => false,
                                };
                        key && agrees(vs, v, b, json)
                    })
            }
            _ => false,
        },
        (S::Struct(ns, ss), v) => named(ns, ss, v, c),
        (S::Enum(ns, vs), Val::Enum(i, v)) => {
            let C::Map(c) = c else {
                return false;
            };
            let [(k, c)] = &c[..] else {
                return false;
            };
            *k == C::Str(ns[*i].to_string())
                && match &vs[*i] {
                    V::Unit => matches!(c, C::Unit | C::None) || *c == C::Map(vec![]),
                    V::Newtype(s) => agrees(s, v, c, json),
                    V::Tuple(ss) => all(ss, v, c),
                    V::Struct(ns, ss) => named(ns, ss, v, c),
                }
        }
        _ => false,
    }
}

/// Without knowing what it is.
fn anything<F: Format>(fam: &mut Fam<'_>, s: &'static S, shape: &Shape, v: &Val) {
    let json = F::KIND == Kind::Json;
    if !usable::<F>(s, shape, v) || !F::KIND.self_descriptive() {
        return;
    }
    // Variants are nothing serde has a visitor for if not asked for.
    if !json && s.any(&|s| matches!(s, S::Enum(..))) {
        return;
    }
    fam.case(
        || format!("{s:?} = {v}"),
        || {
            run(s, HOW, || {
                let b = F::enc(&B(N(s, v)))?;
                let (got, rest) = no_panic(|| F::dec_rest::<B<C>>(&b))?
                    .map_err(|e| format!("{} is refused: {e}", show(&b)))?;
                ensure!(agrees(s, v, &got.0, json), "{} is {:?}", show(&b), got.0);
                ensure!(rest == 0, "{rest} bytes of {} are left", show(&b));
                HINTS.with(|v| match v.borrow().first() {
                    Some(e) => Err(Failure::from(e.clone())),
                    None => Ok(()),
                })?;
                // Skipped altogether.
                let (_, rest) = no_panic(|| F::dec_rest::<B<de::IgnoredAny>>(&b))?
                    .map_err(|e| format!("{} is not skipped: {e}", show(&b)))?;
                ensure!(rest == 0, "{rest} bytes of {} are left when skipped", show(&b));
                Ok(Fp::new().str(F::NAME).bytes(&b).done())
            })
        },
    );
}

/// Part of a message, or a message with something else in it.
fn damaged<F: Format>(fam: &mut Fam<'_>, s: &'static S, shape: &Shape, v: &Val) {
    if !usable::<F>(s, shape, v) {
        return;
    }
    let Ok(b) = run(s, HOW, || F::enc(&B(N(s, v)))) else {
        return;
    };
    let decode = |c: &[u8]| -> Result<Result<(Val, usize), usize>, String> {
        no_panic(|| {
            let cx = musli::context::new().with_trace().with_error::<String>();
            let mut r = c;
            match F::dec_mut_with::<_, B<Top>>(&cx, &mut r) {
                Ok(v) => Ok((v.0 .0, r.len())),
                Err(_) => Err(cx.errors().count()),
            }
        })
    };
    for n in 0..b.len() {
        fam.case(
            || format!("{n} bytes of {s:?} = {v}"),
            || {
                run(s, HOW, || {
                    let got = decode(&b[..n])?;
                    // Numbers of JSON can be cut short.
                    let number = F::KIND == Kind::Json && matches!(b.get(n.wrapping_sub(1)), Some(b'0'..=b'9' | b'.' | b'e' | b'-' | b'+'));
                    match got {
                        Ok((got, _)) if number || F::KIND == Kind::Packed || b.is_empty() => {
                            let _ = got;
                        }
                        Ok((got, _)) => fail!("{} of {} is {got}", show(&b[..n]), show(&b)),
                        Err(n) => ensure!(n == 1, "{n} errors for {}", show(&b)),
                    }
                    Ok(Fp::new().str(F::NAME).bytes(&b[..n]).done())
                })
            },
        );
    }
    for n in 0..b.len() {
        for x in [0u8, 1, 0x22, 0x3f, 0x40, 0x7f, 0x80, 0xbf, 0xc0, 0xff, b'[', b'{', b'}', b'9'] {
            if b[n] == x {
                continue;
            }
            fam.case(
                || format!("{s:?} = {v} with {x:02x} at {n}"),
                || {
                    run(s, HOW, || {
                        let mut c = b.clone();
                        c[n] = x;
                        match decode(&c)? {
                            Ok((got, _)) => {
                                // Whatever it is, it can be encoded.
                                let again = F::enc(&B(N(s, &got)))?;
                                let got2 = F::dec::<B<Top>>(&again)?;
                                ensure!(
                                    got2.0 .0 == got || got.non_finite() || F::KIND == Kind::Json && got.null_in_some(),
                                    "{} is {got}, which is {} then",
                                    show(&c),
                                    got2.0 .0
                                );
                            }
                            Err(n) => ensure!(n == 1, "{n} errors for {}", show(&c)),
                        }
                        Ok(Fp::new().str(F::NAME).bytes(&c).done())
                    })
                },
            );
        }
    }
}

fn leaf(s: Shape) -> &'static S {
    lk(S::Leaf(s))
}

fn leaf_shapes() -> Vec<&'static S> {
    use Shape::*;
    let mut v: Vec<&'static S> = [
        Unit, Bool, Char, U8, U16, U32, U64, U128, I8, I16, I32, I64, I128, F32, F64, Str, Bytes,
    ]
    .into_iter()
    .map(leaf)
    .collect();
    v.push(lk(S::UnitStruct));
    v
}

/// Every kind of container of each of these.
fn around(elems: &[&'static S], pairs: &[&'static S], keys: &[&'static S]) -> Vec<&'static S> {
    let mut out = Vec::new();
    let str_ = leaf(Shape::Str);
    for &e in elems {
        out.push(S::Opt(e));
        out.push(S::Newtype(e));
        out.push(S::Seq(e));
        out.push(S::Map(str_, e));
        out.push(S::Tuple(vec![e]));
        out.push(S::TupleStruct(vec![e]));
        out.push(S::Struct(&["a"], vec![e]));
        out.push(S::Enum(&["N", "U"], vec![V::Newtype(e), V::Unit]));
        out.push(S::Enum(&["T", "S"], vec![V::Tuple(vec![e]), V::Struct(&["a"], vec![e])]));
        for &p in pairs {
            out.push(S::Tuple(vec![e, p]));
            out.push(S::TupleStruct(vec![p, e, p]));
            out.push(S::Struct(&["first", "b"], vec![e, p]));
            out.push(S::Enum(
                &["U", "T", "S", "N"],
                vec![
                    V::Unit,
                    V::Tuple(vec![p, e]),
                    V::Struct(&["x", "yy"], vec![e, p]),
                    V::Newtype(e),
                ],
            ));
        }
    }
    for &k in keys {
        out.push(S::Map(k, leaf(Shape::U8)));
    }
    out.push(S::Tuple(vec![]));
    out.push(S::Struct(&[], vec![]));
    out.push(S::Enum(&["E", "S", "T"], vec![V::Unit, V::Struct(&[], vec![]), V::Tuple(vec![])]));
    out.into_iter().map(lk).collect()
}

fn key_shapes() -> Vec<&'static S> {
    use Shape::*;
    let mut v: Vec<&'static S> =
        [Str, U8, U16, U32, U64, U128, I8, I16, I32, I64, I128].into_iter().map(leaf).collect();
    v.push(lk(S::Newtype(leaf(Str))));
    v.push(lk(S::Newtype(leaf(U16))));
    v
}

fn pairs() -> Vec<&'static S> {
    vec![leaf(Shape::U16), leaf(Shape::Str)]
}

/// Shapes by depth, with the level of their values.
fn shapes(depth: usize, rich: bool) -> Vec<&'static S> {
    match depth {
        0 => leaf_shapes(),
        1 => around(&leaf_shapes(), &pairs(), &key_shapes()),
        2 => {
            let base: Vec<&'static S> = if rich {
                leaf_shapes()
            } else {
                vec![
                    leaf(Shape::Unit),
                    leaf(Shape::U8),
                    leaf(Shape::I32),
                    leaf(Shape::F64),
                    leaf(Shape::Str),
                    leaf(Shape::Bytes),
                ]
            };
            around(&around(&base, &[leaf(Shape::U16)], &[]), &[leaf(Shape::U8)], &[])
        }
        _ => {
            let base: Vec<&'static S> = if rich {
                vec![leaf(Shape::U8), leaf(Shape::Str), leaf(Shape::Unit)]
            } else {
                vec![leaf(Shape::U8)]
            };
            let two = around(&around(&base, &[], &[]), &[], &[]);
            around(&two, &[], &[])
        }
    }
}

// Derived types.

mod zoo {
    use super::*;

    #[derive(Serialize, Deserialize, Encode, Decode, PartialEq, Debug, Clone)]
    #[musli(name_all = "name")]
    pub struct Plain {
        pub a: u32,
        pub b: String,
        pub c: Option<i64>,
        pub d: Vec<bool>,
        pub e: BTreeMap<String, u8>,
        pub f: f64,
        pub g: char,
    }

    #[derive(Serialize, Deserialize, Encode, Decode, PartialEq, Debug, Clone)]
    #[musli(name_all = "name")]
    pub struct Nest {
        pub inner: Option<Box<Plain>>,
        pub keys: BTreeMap<u16, Option<String>>,
        pub list: Vec<Few>,
    }

    #[derive(Serialize, Deserialize, Encode, Decode, PartialEq, Debug, Clone)]
    #[musli(name_all = "name")]
    pub struct Few {
        pub x: i8,
    }

    #[derive(Serialize, Deserialize, Encode, Decode, PartialEq, Debug, Clone)]
    #[musli(name_all = "name")]
    pub enum Ext {
        #[musli(name_all = "name")]
        A { x: u8, y: Option<String> },
        #[musli(transparent)]
        B(u32),
        #[musli(transparent)]
        C(Few),
    }

    #[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
    pub enum Kinds {
        Unit,
        Newtype(String),
        Tuple(u8, i64, String),
        Struct { a: u32, b: Option<bool> },
        Deep(Box<Kinds>),
        List(Vec<Kinds>),
    }

    #[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
    pub struct UnitS;
    #[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
    pub struct NewS(pub u64);
    #[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
    pub struct TupS(pub u8, pub String, pub Option<i16>);

    #[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
    #[serde(rename_all = "camelCase", default)]
    pub struct Attrs {
        pub first_field: u8,
        #[serde(rename = "second!")]
        pub second_field: String,
        #[serde(skip)]
        pub third: u8,
        #[serde(skip_serializing_if = "Option::is_none")]
        pub fourth: Option<u32>,
        #[serde(with = "as_text")]
        pub fifth: u16,
    }
    impl Default for Attrs {
        fn default() -> Self {
            Attrs { first_field: 0, second_field: String::new(), third: 0, fourth: None, fifth: 3 }
        }
    }

    pub mod as_text {
        use serde::{Deserialize, Deserializer, Serializer};
        pub fn serialize<S: Serializer>(v: &u16, s: S) -> Result<S::Ok, S::Error> {
            s.collect_str(&format_args!("{v:04x}"))
        }
        pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<u16, D::Error> {
            let s = String::deserialize(d)?;
            u16::from_str_radix(&s, 16).map_err(serde::de::Error::custom)
        }
    }

    #[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
    #[serde(tag = "type")]
    pub enum Internal {
        Unit,
        Struct { a: u32, b: Option<String>, c: Vec<i8> },
        Newtype(Few),
        Plain(Plain),
    }

    #[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
    #[serde(tag = "t", content = "c")]
    pub enum Adjacent {
        Unit,
        Struct { a: u32, b: Option<String> },
        Newtype(Vec<Few>),
        Tuple(u8, String),
    }

    #[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
    #[serde(untagged)]
    pub enum Untagged {
        Struct { a: u8, b: i64 },
        Other { c: Option<bool>, d: Few },
        Bool(bool),
        Small(u8),
        Signed(i64),
        Big(u64),
        Float(f64),
        Text(String),
        List(Vec<Untagged>),
    }

    #[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
    pub struct Holds<T> {
        pub before: u8,
        pub it: T,
        pub many: Vec<T>,
        pub after: String,
    }

    #[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
    pub struct Lends<'a> {
        pub a: &'a str,
        #[serde(borrow)]
        pub b: Option<&'a str>,
        pub c: u8,
    }

    pub fn texts() -> Vec<String> {
        ["", "a", "\u{e9}\u{1f600}", "q\"\\\n\u{0}", "type", "0"].iter().map(|s| s.to_string()).collect()
    }

    pub fn fews() -> Vec<Few> {
        [0i8, 1, -1, 127, -128].map(|x| Few { x }).to_vec()
    }

    pub fn plains() -> Vec<Plain> {
        let mut out = Vec::new();
        for (n, b) in texts().into_iter().enumerate() {
            for c in [None, Some(0), Some(i64::MIN), Some(i64::MAX)] {
                for f in [0.0, -1.5, 1e300, 0.1] {
                    out.push(Plain {
                        a: [0, 1, 63, 64, 300, u32::MAX][n],
                        b: b.clone(),
                        c,
                        d: vec![true; n],
                        e: texts().into_iter().take(n).zip(0..).collect(),
                        f,
                        g: ['a', '"', '\u{7ff}', '\u{10ffff}', '\0', 'z'][n],
                    });
                }
            }
        }
        out
    }

    pub fn nests() -> Vec<Nest> {
        let mut out = Vec::new();
        for (n, p) in plains().into_iter().enumerate() {
            out.push(Nest {
                inner: (n % 3 != 0).then(|| Box::new(p)),
                keys: [(0, None), (1, Some(String::from("x"))), (65535, Some(String::new()))]
                    .into_iter()
                    .take(n % 4)
                    .collect(),
                list: fews().into_iter().take(n % 6).collect(),
            });
        }
        out
    }

    pub fn exts() -> Vec<Ext> {
        let mut out = Vec::new();
        for t in texts() {
            for x in [0, 200, 255] {
                out.push(Ext::A { x, y: Some(t.clone()) });
            }
        }
        out.push(Ext::A { x: 3, y: None });
        out.extend([0, 100, u32::MAX].map(Ext::B));
        out.extend(fews().into_iter().map(Ext::C));
        out
    }

    pub fn kinds() -> Vec<Kinds> {
        let mut out = vec![Kinds::Unit];
        for t in texts() {
            out.push(Kinds::Newtype(t.clone()));
            out.push(Kinds::Tuple(255, i64::MIN, t));
        }
        for b in [None, Some(true), Some(false)] {
            out.push(Kinds::Struct { a: 1 << 20, b });
        }
        let flat = out.clone();
        for k in &flat {
            out.push(Kinds::Deep(Box::new(k.clone())));
            out.push(Kinds::Deep(Box::new(Kinds::Deep(Box::new(k.clone())))));
            for l in &flat {
                out.push(Kinds::List(vec![k.clone(), l.clone()]));
            }
        }
        out.push(Kinds::List(vec![]));
        out
    }

    pub fn tups() -> Vec<TupS> {
        let mut out = Vec::new();
        for t in texts() {
            for o in [None, Some(0), Some(i16::MIN)] {
                out.push(TupS(9, t.clone(), o));
            }
        }
        out
    }

    pub fn attrs() -> Vec<Attrs> {
        let mut out = Vec::new();
        for t in texts() {
            for fourth in [None, Some(0), Some(u32::MAX)] {
                for fifth in [0, 0xfff, 0xffff] {
                    out.push(Attrs { first_field: 8, second_field: t.clone(), third: 0, fourth, fifth });
                }
            }
        }
        out
    }

    pub fn internals() -> Vec<Internal> {
        let mut out = vec![Internal::Unit];
        for t in texts() {
            for a in [0, 64, u32::MAX] {
                for c in [vec![], vec![-1, 5]] {
                    out.push(Internal::Struct { a, b: Some(t.clone()), c: c.clone() });
                    out.push(Internal::Struct { a, b: None, c });
                }
            }
        }
        out.extend(fews().into_iter().map(Internal::Newtype));
        out.extend(plains().into_iter().map(Internal::Plain));
        out
    }

    pub fn adjacents() -> Vec<Adjacent> {
        let mut out = vec![Adjacent::Unit, Adjacent::Newtype(fews()), Adjacent::Newtype(vec![])];
        for t in texts() {
            out.push(Adjacent::Tuple(255, t.clone()));
            out.push(Adjacent::Struct { a: 70000, b: Some(t) });
            out.push(Adjacent::Struct { a: 0, b: None });
        }
        out
    }

    pub fn untaggeds() -> Vec<Untagged> {
        let mut out = vec![
            Untagged::Struct { a: 1, b: -9 },
            Untagged::Struct { a: 255, b: i64::MAX },
            Untagged::Other { c: None, d: Few { x: 1 } },
            Untagged::Other { c: Some(true), d: Few { x: -1 } },
            Untagged::Bool(true),
            Untagged::Bool(false),
            Untagged::Float(0.5),
            Untagged::Float(-1.25e10 - 0.5),
        ];
        out.extend([0, 1, 63, 64, 255].map(Untagged::Small));
        out.extend([256, -1, -128, -129, i64::MIN, i64::MAX, 70000].map(Untagged::Signed));
        out.extend([1 << 63, u64::MAX].map(Untagged::Big));
        out.extend(texts().into_iter().map(Untagged::Text));
        let flat = out.clone();
        for a in &flat {
            for b in &flat {
                out.push(Untagged::List(vec![a.clone(), b.clone()]));
            }
        }
        out.push(Untagged::List(vec![]));
        out
    }

    pub fn held<T: Clone>(v: Vec<T>) -> Vec<Holds<T>> {
        let mut out = Vec::new();
        for (n, x) in v.iter().enumerate() {
            out.push(Holds {
                before: n as u8,
                it: x.clone(),
                many: v.iter().skip(n).take(n % 4).cloned().collect(),
                after: String::from("end"),
            });
        }
        out
    }
}

fn derived<F, T>(fam: &mut Fam<'_>, v: &T)
where
    F: Format,
    T: Serialize + de::DeserializeOwned + PartialEq + fmt::Debug,
{
    fam.case(
        || format!("{} {v:?}", F::NAME),
        || {
            let b = no_panic(|| F::enc(&B(v)))??;
            let (got, rest) = no_panic(|| F::dec_rest::<B<T>>(&b))?
                .map_err(|e| format!("{} is refused: {e}", show(&b)))?;
            ensure!(got.0 == *v, "{} decodes as {:?}", show(&b), got.0);
            ensure!(rest == 0, "{rest} bytes of {} are left", show(&b));
            Ok(Fp::new().str(F::NAME).bytes(&b).done())
        },
    );
}

/// With serde and natively: the same JSON as far as either can tell.
fn interop<F, T>(fam: &mut Fam<'_>, v: &T)
where
    F: Format,
    T: Serialize + de::DeserializeOwned + PartialEq + fmt::Debug,
    T: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
{
    fam.case(
        || format!("{} {v:?}", F::NAME),
        || {
            let a = F::enc(&B(v))?;
            let b = F::enc(v)?;
            let x = F::dec::<B<T>>(&b).map_err(|e| format!("native {} is refused: {e}", show(&b)))?;
            ensure!(x.0 == *v, "native {} decodes as {:?}", show(&b), x.0);
            let x = F::dec::<T>(&a).map_err(|e| format!("{} is refused natively: {e}", show(&a)))?;
            ensure!(x == *v, "{} decodes as {x:?} natively", show(&a));
            Ok(Fp::new().str(F::NAME).bytes(&a).done())
        },
    );
}

/// Through a value, whose encoder has a type for every depth: no recursion.
fn valued<T>(fam: &mut Fam<'_>, v: &T)
where
    T: Serialize + de::DeserializeOwned + PartialEq + fmt::Debug,
{
    fam.case(
        || format!("value {v:?}"),
        || {
            let x = no_panic(|| musli::value::encode(B(v)))?.map_err(|e| e.to_string())?;
            let got: B<T> = no_panic(|| musli::value::decode(&x))?.map_err(|e| e.to_string())?;
            ensure!(got.0 == *v, "decodes as {:?}", got.0);
            Ok(Fp::new().str(&format!("{v:?}")).done())
        },
    );
}

/// Fields which are not asked for, in any order.
fn evolved<F: Format>(fam: &mut Fam<'_>, rich: bool) {
    if !F::KIND.skips() {
        return;
    }
    let small = leaf(Shape::U16);
    let mut all = leaf_shapes();
    let keys: Vec<_> = rich.then(|| leaf(Shape::Str)).into_iter().collect();
    all.extend(around(&leaf_shapes(), &keys, &[]));
    for &e in &all {
        for at in 0..3 {
            let mut names = vec!["x", "longer"];
            names.insert(at, "extra");
            let mut ss = vec![small, leaf(Shape::Str)];
            ss.insert(at, e);
            let names: Names = Box::leak(names.into_boxed_slice());
            let from = lk(S::Struct(names, ss.clone()));
            let two = vec![small, leaf(Shape::Str)];
            let inside: Names = Box::leak(vec!["V"].into_boxed_slice());
            let pairs = [
                (from, lk(S::Struct(&["x", "longer"], two.clone()))),
                (from, lk(S::Struct(&["longer", "x"], vec![two[1], two[0]]))),
                (
                    lk(S::Enum(inside, vec![V::Struct(names, ss.clone())])),
                    lk(S::Enum(inside, vec![V::Struct(&["longer", "x"], vec![two[1], two[0]])])),
                ),
                (lk(S::Seq(from)), lk(S::Seq(lk(S::Struct(&["longer"], vec![two[1]]))))),
            ];
            for v in values(&e.shape(), if rich { 1 } else { 2 }) {
                for (k, (a, b)) in pairs.iter().enumerate() {
                    let x = Val::U(300);
                    let y = Val::Str(String::from("yy"));
                    let mut f = vec![x.clone(), y.clone()];
                    f.insert(at, v.clone());
                    let (was, is) = match k {
                        0 => (Val::Struct(f), Val::Struct(vec![x, y])),
                        1 => (Val::Struct(f), Val::Struct(vec![y, x])),
                        2 => (
                            Val::Enum(0, Box::new(Val::Struct(f))),
                            Val::Enum(0, Box::new(Val::Struct(vec![y, x]))),
                        ),
                        _ => (
                            Val::Seq(vec![Val::Struct(f.clone()), Val::Struct(f)]),
                            Val::Seq(vec![Val::Struct(vec![y.clone()]), Val::Struct(vec![y])]),
                        ),
                    };
                    let shape = a.shape();
                    if !usable::<F>(a, &shape, &was) {
                        continue;
                    }
                    fam.case(
                        || format!("{} {a:?} = {was} as {b:?}", F::NAME),
                        || {
                            let m = run(a, HOW, || F::enc(&B(N(a, &was))))?;
                            let (got, rest) = run(b, HOW, || no_panic(|| F::dec_rest::<B<Top>>(&m)))?
                                .map_err(|e| format!("{} is refused: {e}", show(&m)))?;
                            ensure!(got.0 .0 == is, "{} decodes as {}", show(&m), got.0 .0);
                            ensure!(rest == 0, "{rest} bytes of {} are left", show(&m));
                            Ok(Fp::new().str(F::NAME).bytes(&m).u64(k as u64).done())
                        },
                    );
                }
            }
        }
    }
}

/// Strings can be borrowed from the message.
fn lent<F: Format>(fam: &mut Fam<'_>) {
    for a in zoo::texts() {
        for b in [None, Some("borrowed")] {
            // What is escaped is not in the message.
            if F::KIND == Kind::Json && a.contains('\n') || F::KIND == Kind::Packed {
                continue;
            }
            fam.case(
                || format!("{} {a:?} {b:?}", F::NAME),
                || {
                    let v = zoo::Lends { a: &a, b, c: 200 };
                    let m = F::enc(&B(&v))?;
                    let got = no_panic(|| F::dec::<B<zoo::Lends<'_>>>(&m))?
                        .map_err(|e| format!("{} is refused: {e}", show(&m)))?;
                    ensure!(got.0 == v, "{} decodes as {:?}", show(&m), got.0);
                    let all = m.as_ptr_range();
                    ensure!(
                        a.is_empty() || all.contains(&got.0.a.as_ptr()),
                        "what is borrowed is not part of the message"
                    );
                    Ok(Fp::new().str(F::NAME).bytes(&m).done())
                },
            );
        }
    }
}

/// A type whose own errors have to get through.
#[derive(Debug)]
struct Picky(u32);

impl Serialize for Picky {
    fn serialize<Z: Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        if self.0 == 13 {
            return Err(serde::ser::Error::custom("unlucky number"));
        }
        z.serialize_u32(self.0)
    }
}

impl<'de> Deserialize<'de> for Picky {
    fn deserialize<Z: Deserializer<'de>>(z: Z) -> Result<Self, Z::Error> {
        let n = u32::deserialize(z)?;
        if n == 13 {
            return Err(de::Error::custom("unlucky number"));
        }
        Ok(Picky(n))
    }
}

#[derive(Serialize, Deserialize, Debug)]
enum PickyEnum {
    N(Picky),
    T(u8, Picky),
    S { a: u8, b: Picky },
}

#[derive(Serialize, Deserialize, Debug)]
struct PickyAll {
    a: Vec<Picky>,
    b: Option<Picky>,
    c: BTreeMap<String, Picky>,
    d: (u8, Picky),
    e: [PickyEnum; 3],
    f: NewPicky,
}

#[derive(Serialize, Deserialize, Debug)]
struct NewPicky(Picky);

fn picky(bad: usize) -> (PickyAll, impl Fn(&PickyAll) -> Vec<u32>) {
    let n = Cell::new(0);
    let p = || {
        let k = n.get();
        n.set(k + 1);
        Picky(if k == bad { 13 } else { 20 + k as u32 })
    };
    let all = PickyAll {
        a: vec![p(), p()],
        b: Some(p()),
        c: [("x".to_owned(), p()), ("y".to_owned(), p())].into_iter().collect(),
        d: (1, p()),
        e: [PickyEnum::N(p()), PickyEnum::T(2, p()), PickyEnum::S { a: 3, b: p() }],
        f: NewPicky(p()),
    };
    (all, |v: &PickyAll| {
        let mut out: Vec<u32> = v.a.iter().map(|p| p.0).collect();
        out.extend(v.b.iter().map(|p| p.0));
        out.extend(v.c.values().map(|p| p.0));
        out.push(v.d.1 .0);
        for e in &v.e {
            out.push(match e {
                PickyEnum::N(p) | PickyEnum::T(_, p) | PickyEnum::S { b: p, .. } => p.0,
            });
        }
        out.push(v.f.0 .0);
        out
    })
}

fn errors<F: Format>(fam: &mut Fam<'_>) {
    for bad in 0..11 {
        fam.case(
            || format!("{} value {bad} is refused by its own type", F::NAME),
            || {
                let (v, list) = picky(bad);
                let cx = musli::context::new().with_trace().with_error::<String>();
                let r = no_panic(|| F::enc_with(&cx, &B(&v)))?;
                let has: Vec<String> = cx.errors().map(|e| e.to_string()).collect();
                if bad < 10 {
                    ensure!(r.is_err(), "encoding gave no error");
                    ensure!(
                        has.len() == 1 && has[0].contains("unlucky number"),
                        "encoding reports {has:?}"
                    );
                } else {
                    let b = r.map_err(|_| format!("{has:?}"))?;
                    let got = F::dec::<B<PickyAll>>(&b)?;
                    ensure!(list(&got.0) == list(&v), "decodes as {:?}", got.0);
                    // Every value becomes one that is refused, in turn.
                    for n in 0..b.len() {
                        for x in [b[n] ^ 1, 13, 26, 12, b'1', b'3'] {
                            let mut c = b.clone();
                            c[n] = x;
                            let cx = musli::context::new().with_trace().with_error::<String>();
                            let r = no_panic(|| F::dec_with::<_, B<PickyAll>>(&cx, &c))?;
                            let n = cx.errors().count();
                            ensure!(
                                n == usize::from(r.is_err()),
                                "{n} errors for {}",
                                show(&c)
                            );
                        }
                    }
                }
                Ok(Fp::new().str(F::NAME).u64(bad as u64).done())
            },
        );
    }
}

macro_rules! formats {
    ($m:ident) => {
        $m! {
            StorageVar StorageFix StorageFixBe
            WireVar WireFix WireFixU8
            DescVar DescFix
            PackedDef PackedVar
            JsonText JsonBinary
        }
    };
}

fn main() {
    let mut c = Check::new(
        "P18",
        Level::Exploration,
        "every shape of serde's data model up to the depth bound x boundary values x ways to use serde's traits x formats, and derived serde types; distinct by (format, encoded bytes)",
    );
    c.assume("formats which need to know the length of a sequence may refuse sequences without one");
    c.assume("keys of JSON objects are strings and integers; null inside of an option is not told apart from none in JSON; non-finite floats are not in JSON");
    c.assume("untagged packed data holds no options");
    macro_rules! families {
        ($($f:ident)*) => { $(
            c.fam(format!("leaf/{}", $f::NAME), |fam| {
                for s in shapes(0, true) {
                    let shape = s.shape();
                    for v in values(&shape, 0) {
                        roundtrip::<$f>(fam, s, &shape, &v, HOW);
                    }
                }
            });
            c.fam(format!("container/{}", $f::NAME), |fam| {
                let rich = fam.thorough();
                for s in shapes(1, true) {
                    let shape = s.shape();
                    for v in values(&shape, if rich { 1 } else { 2 }) {
                        for h in hows() {
                            roundtrip::<$f>(fam, s, &shape, &v, h);
                        }
                    }
                }
            });
            c.fam(format!("nested/{}", $f::NAME), |fam| {
                let rich = fam.thorough();
                for s in shapes(2, rich) {
                    let shape = s.shape();
                    for v in values(&shape, if rich { 2 } else { 3 }) {
                        for h in [HOW, How { collect: true, owned: true, past: true }] {
                            roundtrip::<$f>(fam, s, &shape, &v, h);
                        }
                    }
                }
            });
            c.fam(format!("deep/{}", $f::NAME), |fam| {
                let rich = fam.thorough();
                for s in shapes(3, rich) {
                    let shape = s.shape();
                    for v in values(&shape, 3) {
                        roundtrip::<$f>(fam, s, &shape, &v, HOW);
                    }
                }
            });
            c.fam(format!("embedded/{}", $f::NAME), |fam| {
                let rich = fam.thorough();
                for d in [0, 1] {
                    for s in shapes(d, true) {
                        let shape = s.shape();
                        for v in values(&shape, if rich { 1 } else { 2 }) {
                            embedded::<$f>(fam, s, &shape, &v);
                        }
                    }
                }
            });
            c.fam(format!("any/{}", $f::NAME), |fam| {
                let rich = fam.thorough();
                for d in [0, 1, 2] {
                    for s in shapes(d, rich) {
                        let shape = s.shape();
                        for v in values(&shape, if rich { d } else { d + 1 }) {
                            anything::<$f>(fam, s, &shape, &v);
                        }
                    }
                }
            });
            c.fam(format!("damaged/{}", $f::NAME), |fam| {
                let rich = fam.thorough();
                for d in [0, 1] {
                    for s in shapes(d, true) {
                        let shape = s.shape();
                        for v in values(&shape, if rich { 2 } else { 3 }) {
                            damaged::<$f>(fam, s, &shape, &v);
                        }
                    }
                }
            });
            c.fam(format!("derived/{}", $f::NAME), |fam| {
                let packed = $f::KIND == Kind::Packed;
                if !packed {
                    for v in zoo::plains() {
                        derived::<$f, _>(fam, &v);
                    }
                    for v in zoo::nests() {
                        derived::<$f, _>(fam, &v);
                    }
                    for v in zoo::exts() {
                        derived::<$f, _>(fam, &v);
                    }
                    for v in zoo::kinds() {
                        derived::<$f, _>(fam, &v);
                    }
                    for v in zoo::tups() {
                        derived::<$f, _>(fam, &v);
                    }
                }
                derived::<$f, _>(fam, &zoo::UnitS);
                for n in [0, 1, 127, 128, u64::MAX] {
                    derived::<$f, _>(fam, &zoo::NewS(n));
                    derived::<$f, _>(fam, &(zoo::NewS(n), zoo::UnitS, [1u8, 2, 3], n as u16));
                }
                for v in zoo::fews() {
                    derived::<$f, _>(fam, &v);
                    derived::<$f, _>(fam, &zoo::Holds { before: 1, it: v.clone(), many: vec![v; 3], after: String::from("x") });
                }
                if $f::KIND != Kind::Packed {
                    for v in zoo::attrs() {
                        derived::<$f, _>(fam, &v);
                    }
                }
                if $f::KIND.self_descriptive() {
                    for v in zoo::internals() {
                        derived::<$f, _>(fam, &v);
                    }
                    for v in zoo::adjacents() {
                        derived::<$f, _>(fam, &v);
                    }
                    for v in zoo::untaggeds() {
                        derived::<$f, _>(fam, &v);
                    }
                    for v in zoo::held(zoo::internals()) {
                        derived::<$f, _>(fam, &v);
                    }
                    for v in zoo::held(zoo::adjacents()) {
                        derived::<$f, _>(fam, &v);
                    }
                    for v in zoo::held(zoo::untaggeds()) {
                        derived::<$f, _>(fam, &v);
                    }
                }
            });
            c.fam(format!("errors/{}", $f::NAME), errors::<$f>);
            c.fam(format!("lent/{}", $f::NAME), lent::<$f>);
            c.fam(format!("evolved/{}", $f::NAME), |fam| {
                let rich = fam.thorough();
                evolved::<$f>(fam, rich)
            });
        )* };
    }
    formats!(families);
    c.fam("interop".to_string(), |fam| {
        for v in zoo::plains() {
            interop::<JsonText, _>(fam, &v);
            interop::<JsonBinary, _>(fam, &v);
        }
        for v in zoo::nests() {
            interop::<JsonText, _>(fam, &v);
            interop::<JsonBinary, _>(fam, &v);
        }
        for v in zoo::exts() {
            interop::<JsonText, _>(fam, &v);
            interop::<JsonBinary, _>(fam, &v);
        }
    });
    c.fam("value".to_string(), |fam| {
        for v in zoo::plains() {
            valued(fam, &v);
        }
        for v in zoo::nests() {
            valued(fam, &v);
        }
        for v in zoo::exts() {
            valued(fam, &v);
        }
        for v in zoo::tups() {
            valued(fam, &v);
        }
        for v in zoo::attrs() {
            valued(fam, &v);
        }
        for v in zoo::internals() {
            valued(fam, &v);
        }
        for v in zoo::adjacents() {
            valued(fam, &v);
        }
        for v in zoo::held(zoo::internals()) {
            valued(fam, &v);
        }
    });
    c.run();
}
