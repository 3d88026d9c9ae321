//! Denotations: what the encoder is told to write for a value, independently
//! of how the derive produces it.

use std::collections::{BTreeMap, HashMap, VecDeque};

use musli::en::{EntryEncoder, MapEncoder, SequenceEncoder, VariantEncoder};
use musli::{Encode, Encoder};

#[derive(Clone, Debug)]
pub enum Den {
    Empty,
    Bool(bool),
    Char(char),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    U128(u128),
    Usize(usize),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    I128(i128),
    Isize(isize),
    F32(f32),
    F64(f64),
    Str(String),
    Bytes(Vec<u8>),
    /// Bytes of a length which is known from the type.
    Arr(Vec<u8>),
    Opt(Option<Box<Den>>),
    Seq(Vec<Den>),
    Pack(Vec<Den>),
    Map(Vec<(Den, Den)>),
    Var(Box<(Den, Den)>),
}

impl<M> Encode<M> for Den {
    type Encode = Self;
    const IS_BITWISE_ENCODE: bool = false;

    fn encode<E: Encoder<Mode = M>>(&self, e: E) -> Result<(), E::Error> {
        match self {
            Den::Empty => e.encode_empty(),
            Den::Bool(v) => e.encode_bool(*v),
            Den::Char(v) => e.encode_char(*v),
            Den::U8(v) => e.encode_u8(*v),
            Den::U16(v) => e.encode_u16(*v),
            Den::U32(v) => e.encode_u32(*v),
            Den::U64(v) => e.encode_u64(*v),
            Den::U128(v) => e.encode_u128(*v),
            Den::Usize(v) => e.encode_usize(*v),
            Den::I8(v) => e.encode_i8(*v),
            Den::I16(v) => e.encode_i16(*v),
            Den::I32(v) => e.encode_i32(*v),
            Den::I64(v) => e.encode_i64(*v),
            Den::I128(v) => e.encode_i128(*v),
            Den::Isize(v) => e.encode_isize(*v),
            Den::F32(v) => e.encode_f32(*v),
            Den::F64(v) => e.encode_f64(*v),
            Den::Str(v) => e.encode_string(v),
            Den::Bytes(v) => e.encode_bytes(v),
            Den::Arr(v) => match v.len() {
                0 => e.encode_array::<0>(&[]),
                3 => e.encode_array::<3>(v[..].try_into().unwrap()),
                5 => e.encode_array::<5>(v[..].try_into().unwrap()),
                n => panic!("array of {n}"),
            },
            Den::Opt(None) => e.encode_none(),
            Den::Opt(Some(v)) => (**v).encode(e.encode_some()?),
            Den::Seq(v) => e.encode_sequence_fn(v.len(), |s| {
                for v in v {
                    v.encode(s.encode_next()?)?;
                }
                Ok(())
            }),
            Den::Pack(v) => e.encode_pack_fn(|s| {
                for v in v {
                    v.encode(s.encode_next()?)?;
                }
                Ok(())
            }),
            Den::Map(v) => e.encode_map_fn(v.len(), |m| {
                for (k, v) in v {
                    m.encode_entry_fn(|e| {
                        k.encode(e.encode_key()?)?;
                        v.encode(e.encode_value()?)?;
                        Ok(())
                    })?;
                }
                Ok(())
            }),
            Den::Var(b) => {
                let (tag, data) = &**b;
                e.encode_variant_fn(|e| {
                    tag.encode(e.encode_tag()?)?;
                    data.encode(e.encode_data()?)?;
                    Ok(())
                })
            }
        }
    }

    fn size_hint(&self) -> Option<usize> {
        None
    }

    fn as_encode(&self) -> &Self {
        self
    }
}

/// The denotation of a value in the text mode, or in any other.
pub trait Denote {
    fn den(&self, text: bool) -> Den;
}

macro_rules! leaf {
    ($($t:ident $v:ident,)*) => { $(
        impl Denote for $t {
            fn den(&self, _: bool) -> Den { Den::$v(self.clone()) }
        }
    )* };
}
leaf!(bool Bool, char Char, u8 U8, u16 U16, u32 U32, u64 U64, u128 U128, usize Usize, i8 I8, i16 I16, i32 I32, i64 I64,
    i128 I128, isize Isize, f32 F32, f64 F64, String Str,);

impl<T: ?Sized + Denote> Denote for &T {
    fn den(&self, t: bool) -> Den {
        (**self).den(t)
    }
}
impl Denote for () {
    fn den(&self, _: bool) -> Den {
        Den::Empty
    }
}
impl<T: Denote> Denote for Option<T> {
    fn den(&self, t: bool) -> Den {
        Den::Opt(self.as_ref().map(|v| Box::new(v.den(t))))
    }
}
impl<T: Denote> Denote for Box<T> {
    fn den(&self, t: bool) -> Den {
        (**self).den(t)
    }
}
impl<T: Denote> Denote for Vec<T> {
    fn den(&self, t: bool) -> Den {
        Den::Seq(self.iter().map(|v| v.den(t)).collect())
    }
}
impl<T: Denote> Denote for VecDeque<T> {
    fn den(&self, t: bool) -> Den {
        Den::Seq(self.iter().map(|v| v.den(t)).collect())
    }
}
impl<T: Denote, const N: usize> Denote for [T; N] {
    fn den(&self, t: bool) -> Den {
        Den::Seq(self.iter().map(|v| v.den(t)).collect())
    }
}
impl<K: Denote, V: Denote> Denote for BTreeMap<K, V> {
    fn den(&self, t: bool) -> Den {
        Den::Map(self.iter().map(|(k, v)| (k.den(t), v.den(t))).collect())
    }
}
impl<K: Denote, V: Denote> Denote for HashMap<K, V> {
    fn den(&self, t: bool) -> Den {
        Den::Map(self.iter().map(|(k, v)| (k.den(t), v.den(t))).collect())
    }
}
macro_rules! tuple {
    ($($t:ident $n:tt),*) => {
        impl<$($t: Denote),*> Denote for ($($t,)*) {
            fn den(&self, t: bool) -> Den {
                Den::Seq(vec![$(self.$n.den(t)),*])
            }
        }
    };
}
tuple!(A 0);
tuple!(A 0, B 1);
tuple!(A 0, B 1, C 2);
tuple!(A 0, B 1, C 2, D 3);

impl Den {
    pub fn str(s: &str) -> Den {
        Den::Str(s.to_string())
    }
    /// The name a field or a variant has by default.
    pub fn named(text: bool, index: usize, name: &str) -> Den {
        // The fields of a tuple have no other name than their number.
        if text && name.parse() != Ok(index) {
            Den::str(name)
        } else {
            Den::Usize(index)
        }
    }
    pub fn var(tag: Den, data: Den) -> Den {
        Den::Var(Box::new((tag, data)))
    }
    /// Names made of bytes are slices of `u8` when encoded.
    pub fn bytes_as_seq(self) -> Den {
        match self {
            Den::Bytes(b) => Den::Seq(b.into_iter().map(Den::U8).collect()),
            Den::Map(m) => Den::Map(m.into_iter().map(|(k, v)| (k.bytes_as_seq(), v)).collect()),
            v => v,
        }
    }
    /// The elements of a sequence without their number.
    pub fn packed(self) -> Den {
        match self {
            Den::Seq(v) => Den::Pack(v),
            v => panic!("{v:?}"),
        }
    }
    /// The entries of a message with one in front.
    pub fn tagged(self, k: Den, v: Den) -> Den {
        match self {
            Den::Map(mut m) => {
                m.insert(0, (k, v));
                Den::Map(m)
            }
            v => panic!("{v:?}"),
        }
    }
}

/// `fields!(text; a => value, …)` with names by default.
#[macro_export]
macro_rules! fields {
    ($t:expr; $($n:tt => $v:expr),* $(,)?) => {{
        #[allow(unused_mut)]
        let mut m: Vec<($crate::Den, $crate::Den)> = Vec::new();
        $( m.push(($crate::Den::named($t, m.len(), $crate::raw(stringify!($n))), $crate::Denote::den(&$v, $t))); )*
        $crate::Den::Map(m)
    }};
}

/// `keyed!(text; name => value, …)` with names as given.
#[macro_export]
macro_rules! keyed {
    ($t:expr; $($n:expr => $v:expr),* $(,)?) => {
        $crate::Den::Map(vec![ $( ($crate::name::Name::name($n), $crate::Denote::den(&$v, $t)) ),* ])
    };
}

/// The identifier without `r#`.
pub fn raw(s: &str) -> &str {
    s.strip_prefix("r#").unwrap_or(s)
}

pub mod name {
    use super::Den;
    pub trait Name {
        fn name(self) -> Den;
    }
    impl Name for Den {
        fn name(self) -> Den {
            self
        }
    }
    impl Name for &str {
        fn name(self) -> Den {
            Den::str(self)
        }
    }
    impl Name for &[u8] {
        fn name(self) -> Den {
            Den::Bytes(self.to_vec())
        }
    }
    macro_rules! names {
        ($($t:ident $v:ident),*) => { $(
            impl Name for $t {
                fn name(self) -> Den { Den::$v(self) }
            }
        )* };
    }
    names!(bool Bool, char Char, u8 U8, u16 U16, u32 U32, u64 U64, u128 U128, usize Usize, i8 I8, i16 I16, i32 I32, i64 I64, i128 I128);
}
