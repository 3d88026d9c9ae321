use std::fmt;
use std::rc::Rc;

#[derive(Clone, PartialEq, Debug)]
pub enum Shape {
    Unit,
    Bool,
    Char,
    U8,
    U16,
    U32,
    U64,
    U128,
    Usize,
    I8,
    I16,
    I32,
    I64,
    I128,
    Isize,
    F32,
    F64,
    Str,
    Bytes,
    /// `[u8; N]` through encode_array, N in 0, 1, 4, 40, 200.
    Arr(usize),
    Opt(Rc<Shape>),
    Seq(Rc<Shape>),
    Pack(Vec<Shape>),
    Map(Rc<Shape>, Rc<Shape>),
    /// A map with known keys.
    Struct(Vec<(Key, Shape)>),
    Enum(Vec<(Key, Shape)>),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Key {
    S(&'static str),
    U(usize),
    I(i32),
}

#[derive(Clone, PartialEq, Debug)]
pub enum Val {
    Unit,
    Bool(bool),
    Char(char),
    U(u128),
    I(i128),
    F32(u32),
    F64(u64),
    Str(String),
    Bytes(Vec<u8>),
    Opt(Option<Box<Val>>),
    Seq(Vec<Val>),
    Map(Vec<(Val, Val)>),
    Struct(Vec<Val>),
    Enum(usize, Box<Val>),
}

impl Shape {
    pub fn opt(s: Shape) -> Shape {
        Shape::Opt(Rc::new(s))
    }
    pub fn seq(s: Shape) -> Shape {
        Shape::Seq(Rc::new(s))
    }
    pub fn map(k: Shape, v: Shape) -> Shape {
        Shape::Map(Rc::new(k), Rc::new(v))
    }

    pub fn is_int(&self) -> bool {
        use Shape::*;
        matches!(
            self,
            U8 | U16 | U32 | U64 | U128 | Usize | I8 | I16 | I32 | I64 | I128 | Isize
        )
    }

    pub fn is_signed(&self) -> bool {
        use Shape::*;
        matches!(self, I8 | I16 | I32 | I64 | I128 | Isize)
    }

    /// Width in bits of an integer shape.
    pub fn bits(&self) -> u32 {
        use Shape::*;
        match self {
            U8 | I8 => 8,
            U16 | I16 => 16,
            U32 | I32 => 32,
            U64 | I64 | Usize | Isize => 64,
            U128 | I128 => 128,
            _ => panic!("not an integer"),
        }
    }

    /// Does any sub-shape satisfy the predicate?
    pub fn any(&self, f: &dyn Fn(&Shape) -> bool) -> bool {
        if f(self) {
            return true;
        }
        match self {
            Shape::Opt(s) | Shape::Seq(s) => s.any(f),
            Shape::Map(k, v) => k.any(f) || v.any(f),
            Shape::Pack(v) => v.iter().any(|s| s.any(f)),
            Shape::Struct(v) | Shape::Enum(v) => v.iter().any(|(_, s)| s.any(f)),
            _ => false,
        }
    }

    /// Every shape that appears as the key of a map satisfies the predicate.
    pub fn keys_all(&self, f: &dyn Fn(&Shape) -> bool) -> bool {
        !self.any(&|s| match s {
            Shape::Map(k, _) => !f(k),
            _ => false,
        })
    }

    /// Options inside of a pack: the untagged packed representation only
    /// documents support for them at the very end of the message.
    pub fn opt_in_pack(&self) -> bool {
        self.any(&|s| match s {
            Shape::Pack(v) => v.iter().any(|s| s.any(&|s| matches!(s, Shape::Opt(_)))),
            _ => false,
        })
    }

    pub fn depth(&self) -> usize {
        match self {
            Shape::Opt(s) | Shape::Seq(s) => 1 + s.depth(),
            Shape::Map(k, v) => 1 + k.depth().max(v.depth()),
            Shape::Pack(v) => 1 + v.iter().map(|s| s.depth()).max().unwrap_or(0),
            Shape::Struct(v) | Shape::Enum(v) => {
                1 + v.iter().map(|(_, s)| s.depth()).max().unwrap_or(0)
            }
            _ => 0,
        }
    }
}

impl fmt::Display for Key {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Key::S(s) => write!(f, "{s:?}"),
            Key::U(n) => write!(f, "{n}"),
            Key::I(n) => write!(f, "{n}i"),
        }
    }
}

impl fmt::Display for Shape {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Shape::Opt(s) => write!(f, "Opt<{s}>"),
            Shape::Seq(s) => write!(f, "Seq<{s}>"),
            Shape::Pack(v) => {
                write!(f, "Pack(")?;
                for (i, s) in v.iter().enumerate() {
                    if i > 0 {
                        write!(f, ",")?;
                    }
                    write!(f, "{s}")?;
                }
                write!(f, ")")
            }
            Shape::Map(k, v) => write!(f, "Map<{k},{v}>"),
            Shape::Struct(v) => {
                write!(f, "Struct{{")?;
                for (i, (k, s)) in v.iter().enumerate() {
                    if i > 0 {
                        write!(f, ",")?;
                    }
                    write!(f, "{k}:{s}")?;
                }
                write!(f, "}}")
            }
            Shape::Enum(v) => {
                write!(f, "Enum{{")?;
                for (i, (k, s)) in v.iter().enumerate() {
                    if i > 0 {
                        write!(f, "|")?;
                    }
                    write!(f, "{k}:{s}")?;
                }
                write!(f, "}}")
            }
            s => write!(f, "{s:?}"),
        }
    }
}

impl fmt::Display for Val {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Val::Unit => write!(f, "()"),
            Val::Bool(v) => write!(f, "{v}"),
            Val::Char(v) => write!(f, "{v:?}"),
            Val::U(v) => write!(f, "{v}"),
            Val::I(v) => write!(f, "{v}"),
            Val::F32(v) => write!(f, "f32:{v:#x}"),
            Val::F64(v) => write!(f, "f64:{v:#x}"),
            Val::Str(v) => {
                if v.len() > 48 {
                    write!(f, "str[{}]", v.len())
                } else {
                    write!(f, "{v:?}")
                }
            }
            Val::Bytes(v) => {
                if v.len() > 24 {
                    write!(f, "bytes[{}]", v.len())
                } else {
                    write!(f, "b\"{}\"", kit::hex(v))
                }
            }
            Val::Opt(None) => write!(f, "None"),
            Val::Opt(Some(v)) => write!(f, "Some({v})"),
            Val::Seq(v) => {
                if v.len() > 8 {
                    return write!(f, "[{}; …{} elements]", v[0], v.len());
                }
                write!(f, "[")?;
                for (i, s) in v.iter().enumerate() {
                    if i > 0 {
                        write!(f, ",")?;
                    }
                    write!(f, "{s}")?;
                }
                write!(f, "]")
            }
            Val::Map(v) => {
                if v.len() > 8 {
                    return write!(f, "{{{}=>{}; …{} entries}}", v[0].0, v[0].1, v.len());
                }
                write!(f, "{{")?;
                for (i, (k, s)) in v.iter().enumerate() {
                    if i > 0 {
                        write!(f, ",")?;
                    }
                    write!(f, "{k}=>{s}")?;
                }
                write!(f, "}}")
            }
            Val::Struct(v) => {
                write!(f, "{{")?;
                for (i, s) in v.iter().enumerate() {
                    if i > 0 {
                        write!(f, ",")?;
                    }
                    write!(f, "{s}")?;
                }
                write!(f, "}}")
            }
            Val::Enum(i, v) => write!(f, "#{i}({v})"),
        }
    }
}

impl Val {
    /// Contains a float that is not finite.
    pub fn non_finite(&self) -> bool {
        match self {
            Val::F32(b) => !f32::from_bits(*b).is_finite(),
            Val::F64(b) => !f64::from_bits(*b).is_finite(),
            Val::Opt(Some(v)) | Val::Enum(_, v) => v.non_finite(),
            Val::Seq(v) | Val::Struct(v) => v.iter().any(|v| v.non_finite()),
            Val::Map(v) => v.iter().any(|(k, v)| k.non_finite() || v.non_finite()),
            _ => false,
        }
    }

    /// Contains a present option whose content is itself null in JSON.
    pub fn null_in_some(&self) -> bool {
        match self {
            Val::Opt(Some(v)) => {
                matches!(**v, Val::Unit | Val::Opt(None)) || v.null_in_some()
            }
            Val::Enum(_, v) => v.null_in_some(),
            Val::Seq(v) | Val::Struct(v) => v.iter().any(|v| v.null_in_some()),
            Val::Map(v) => v.iter().any(|(k, v)| k.null_in_some() || v.null_in_some()),
            _ => false,
        }
    }
}
