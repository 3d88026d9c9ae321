//! Whatever a self-descriptive message says it is.

use std::fmt;

use musli::de::{
    Decoder, EntryDecoder, MapDecoder, SequenceDecoder, SizeHint, UnsizedVisitor, VariantDecoder,
    Visitor,
};
use musli::value::Value;
use musli::{Allocator, Context, Decode};

use crate::json::{Dec, Json};

/// A value of any type.
#[derive(Clone, PartialEq, Debug)]
pub enum Any {
    Unit,
    Bool(bool),
    Char(char),
    /// The name of its type, whether it is negative, and its magnitude.
    Int(&'static str, bool, u128),
    F32(u32),
    F64(u64),
    Bytes(Vec<u8>),
    Str(String),
    Seq(Vec<Any>),
    Map(Vec<(Any, Any)>),
    Variant(Box<(Any, Any)>),
    Option(Option<Box<Any>>),
}

impl Any {
    /// Whether anything in here is such a value.
    pub fn has(&self, f: &dyn Fn(&Any) -> bool) -> bool {
        f(self)
            || match self {
                Any::Seq(v) => v.iter().any(|a| a.has(f)),
                Any::Map(v) => v.iter().any(|(a, b)| a.has(f) || b.has(f)),
                Any::Variant(v) => v.0.has(f) || v.1.has(f),
                Any::Option(Some(v)) => v.has(f),
                _ => false,
            }
    }
}

struct AnyVisitor;

macro_rules! ints {
    ($($f:ident $t:ident),*) => { $(
        fn $f(self, _: C, value: $t) -> Result<Self::Ok, Self::Error> {
            #[allow(unused_comparisons)]
            let neg = value < 0;
            let n = value as i128;
            let n = if neg { n.unsigned_abs() } else { value as u128 };
            Ok(Any::Int(stringify!($t), neg, n))
        }
    )* };
}

#[musli::de::visitor]
impl<'de, C> Visitor<'de, C> for AnyVisitor
where
    C: Context,
{
    type Ok = Any;
    type String = StringVisitor;
    type Bytes = BytesVisitor;

    fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "anything")
    }
    fn visit_empty(self, _: C) -> Result<Self::Ok, Self::Error> {
        Ok(Any::Unit)
    }
    fn visit_bool(self, _: C, value: bool) -> Result<Self::Ok, Self::Error> {
        Ok(Any::Bool(value))
    }
    fn visit_char(self, _: C, value: char) -> Result<Self::Ok, Self::Error> {
        Ok(Any::Char(value))
    }
    ints! {
        visit_u8 u8, visit_u16 u16, visit_u32 u32, visit_u64 u64, visit_u128 u128,
        visit_i8 i8, visit_i16 i16, visit_i32 i32, visit_i64 i64, visit_i128 i128,
        visit_usize usize, visit_isize isize
    }
    fn visit_f32(self, _: C, value: f32) -> Result<Self::Ok, Self::Error> {
        Ok(Any::F32(value.to_bits()))
    }
    fn visit_f64(self, _: C, value: f64) -> Result<Self::Ok, Self::Error> {
        Ok(Any::F64(value.to_bits()))
    }
    fn visit_none(self, _: C) -> Result<Self::Ok, Self::Error> {
        Ok(Any::Option(None))
    }
    fn visit_some<D>(self, decoder: D) -> Result<Self::Ok, Self::Error>
    where
        D: Decoder<'de, Cx = C, Error = C::Error, Allocator = C::Allocator>,
    {
        Ok(Any::Option(Some(Box::new(decoder.decode()?))))
    }
    fn visit_sequence<D>(self, seq: &mut D) -> Result<Self::Ok, Self::Error>
    where
        D: ?Sized + SequenceDecoder<'de, Cx = C, Error = Self::Error, Allocator = Self::Allocator>,
    {
        let mut out = Vec::new();
        while let Some(item) = seq.try_next()? {
            out.push(item);
        }
        Ok(Any::Seq(out))
    }
    fn visit_map<D>(self, map: &mut D) -> Result<Self::Ok, D::Error>
    where
        D: ?Sized + MapDecoder<'de, Cx = C, Error = Self::Error, Allocator = Self::Allocator>,
    {
        let mut out = Vec::new();
        while let Some(mut entry) = map.decode_entry()? {
            let k = entry.decode_key()?.decode()?;
            let v = entry.decode_value()?.decode()?;
            out.push((k, v));
        }
        Ok(Any::Map(out))
    }
    fn visit_bytes(self, _: C, _: SizeHint) -> Result<Self::Bytes, Self::Error> {
        Ok(BytesVisitor)
    }
    fn visit_string(self, _: C, _: SizeHint) -> Result<Self::String, Self::Error> {
        Ok(StringVisitor)
    }
    fn visit_variant<D>(self, variant: &mut D) -> Result<Self::Ok, Self::Error>
    where
        D: ?Sized + VariantDecoder<'de, Cx = C, Error = Self::Error, Allocator = Self::Allocator>,
    {
        let tag = variant.decode_tag()?.decode()?;
        let value = variant.decode_value()?.decode()?;
        Ok(Any::Variant(Box::new((tag, value))))
    }
}

impl<'de, M: 'static, A: Allocator> Decode<'de, M, A> for Any {
    const IS_BITWISE_DECODE: bool = false;
    fn decode<D>(decoder: D) -> Result<Self, D::Error>
    where
        D: Decoder<'de, Mode = M, Allocator = A>,
    {
        decoder.decode_any(AnyVisitor)
    }
}

/// A number of any type, decoded as such.
#[derive(Clone, PartialEq, Debug)]
pub struct AnyNumber(pub Any);

impl<'de, M: 'static, A: Allocator> Decode<'de, M, A> for AnyNumber {
    const IS_BITWISE_DECODE: bool = false;
    fn decode<D>(decoder: D) -> Result<Self, D::Error>
    where
        D: Decoder<'de, Mode = M, Allocator = A>,
    {
        decoder.decode_number(AnyVisitor).map(AnyNumber)
    }
}

struct BytesVisitor;

#[musli::de::unsized_visitor]
impl<C: Context> UnsizedVisitor<'_, C, [u8]> for BytesVisitor {
    type Ok = Any;
    fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "bytes")
    }
    fn visit_ref(self, _: C, b: &[u8]) -> Result<Self::Ok, Self::Error> {
        Ok(Any::Bytes(b.to_vec()))
    }
}

struct StringVisitor;

#[musli::de::unsized_visitor]
impl<C: Context> UnsizedVisitor<'_, C, str> for StringVisitor {
    type Ok = Any;
    fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "string")
    }
    fn visit_ref(self, _: C, s: &str) -> Result<Self::Ok, Self::Error> {
        Ok(Any::Str(s.to_string()))
    }
}

impl Any {
    /// What a value holds.
    pub fn of<A: Allocator>(v: &Value<A>) -> Result<Any, String> {
        Ok(match v {
            Value::Unit => Any::Unit,
            Value::Bool(b) => Any::Bool(*b),
            Value::Char(c) => Any::Char(*c),
            // Numbers only tell what they are by being decoded.
            v @ Value::Number(_) => musli::value::decode(v).map_err(|e| e.to_string())?,
            Value::Bytes(b) => Any::Bytes(b.to_vec()),
            Value::String(s) => Any::Str(s.as_str().to_string()),
            Value::Sequence(v) => Any::Seq(v.iter().map(Any::of).collect::<Result<_, _>>()?),
            Value::Map(v) => Any::Map(
                v.iter()
                    .map(|(k, v)| Ok::<_, String>((Any::of(k)?, Any::of(v)?)))
                    .collect::<Result<_, _>>()?,
            ),
            Value::Variant(v) => Any::Variant(Box::new((Any::of(&v.0)?, Any::of(&v.1)?))),
            Value::Option(None) => Any::Option(None),
            Value::Option(Some(v)) => Any::Option(Some(Box::new(Any::of(v)?))),
            _ => return Err("a value of another kind".into()),
        })
    }

    /// Is it what the document says?
    pub fn is(&self, j: &Json) -> bool {
        match (self, j) {
            (Any::Unit, Json::Null) => true,
            (Any::Bool(a), Json::Bool(b)) => a == b,
            (Any::Str(a), Json::Str(b)) => a == b,
            (Any::Int(_, neg, n), Json::Num(t)) => Dec::new(t).integer() == Some((*neg, *n)),
            (Any::F64(f), Json::Num(t)) => {
                t.parse::<f64>().is_ok_and(|t| t.to_bits() == *f)
                    && (Dec::new(t).integer().is_none() || *f == (-0.0f64).to_bits())
            }
            (Any::Seq(a), Json::Arr(b)) => {
                a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.is(b))
            }
            (Any::Map(a), Json::Obj(b)) => {
                a.len() == b.len()
                    && a.iter().zip(b).all(|((k, v), (bk, bv))| {
                        matches!(k, Any::Str(k) if k == bk) && v.is(bv)
                    })
            }
            _ => false,
        }
    }
}
