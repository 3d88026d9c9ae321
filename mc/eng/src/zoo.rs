//! Types deriving Encode and Decode under every attribute.

use std::collections::{BTreeMap, HashMap, VecDeque};
use std::fmt;
use std::marker::PhantomData;
use std::num::NonZeroU32;

use musli::alloc::System;
use musli::{Decode, Encode};

use crate::sample;
use crate::Sample;

/// In which formats a derived representation is documented to work.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Where {
    Any,
    /// Holds an option, so not in packed.
    NotPacked,
    /// Holds a message that is skipped or keyed by something else than a
    /// string or a number.
    NotJson,
    /// Needs buffering.
    SelfDescriptive,
    JsonOnly,
    /// Needs cloning the decoder: any format, but not through `&mut &[u8]`.
    Clone,
}

impl Where {
    pub fn ok(self, k: crate::Kind) -> bool {
        use crate::Kind;
        match self {
            Where::Any => true,
            Where::NotPacked => k != Kind::Packed,
            Where::NotJson => !matches!(k, Kind::Json | Kind::Packed),
            Where::SelfDescriptive | Where::Clone => k.self_descriptive(),
            Where::JsonOnly => k == Kind::Json,
        }
    }
}

pub trait Zoo: Sample + PartialEq + fmt::Debug + 'static {
    const NAME: &'static str;
    const WHERE: Where = Where::Any;
    /// What decoding the encoding gives.
    fn expected(&self) -> Self {
        self.clone()
    }
    /// Can it be represented in JSON?
    fn json(&self) -> bool {
        true
    }
}

macro_rules! zoo {
    ($($n:ty, $w:ident;)*) => { $(
        impl Zoo for $n {
            const NAME: &'static str = stringify!($n);
            const WHERE: Where = Where::$w;
        }
    )* };
}

macro_rules! strukt {
    ($(#[$m:meta])* $n:ident, $w:ident { $( $(#[$fm:meta])* $f:ident : $t:ty),* $(,)? }) => {
        #[derive(Debug, Clone, PartialEq, Encode, Decode)]
        $(#[$m])*
        pub struct $n { $( $(#[$fm])* pub $f: $t),* }
        sample!($n { $($f: $t),* });
        zoo!($n, $w;);
    };
    ($(#[$m:meta])* $n:ident, $w:ident ( $( $(#[$fm:meta])* $f:tt : $t:ty),* $(,)? )) => {
        #[derive(Debug, Clone, PartialEq, Encode, Decode)]
        $(#[$m])*
        pub struct $n( $( $(#[$fm])* pub $t),* );
        sample!($n { $($f: $t),* });
        zoo!($n, $w;);
    };
}

// ---- structs

strukt!(Named, Any { a: u32, b: String, c: i64, d: bool });
strukt!(Tuple, Any(0: u16, 1: String, 2: f64));
strukt!(NoFields, Any {});
strukt!(NoFieldsTuple, Any());
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
pub struct UnitStruct;
sample!(UnitStruct {});
zoo!(UnitStruct, Any;);
strukt!(Single, Any { only: Vec<u8> });
strukt!(#[musli(transparent)] TransparentNamed, Any { inner: u64 });
strukt!(#[musli(transparent)] TransparentTuple, Any(0: String));
strukt!(#[musli(transparent)] TransparentNest, Any(0: TransparentNamed));
strukt!(#[musli(packed)] PackedNamed, Any { a: u8, b: u32, c: u16 });
strukt!(#[musli(packed)] PackedTuple, Any(0: u64, 1: bool, 2: char));
strukt!(#[musli(packed)] PackedString, Any { a: String, b: Vec<u16>, c: i8 });
strukt!(#[musli(packed)] #[repr(C)] PackedBitwise, Any { a: u32, b: u32 });
strukt!(#[musli(packed)] #[repr(C)] PackedPadded, Any { a: u8, b: u32 });
strukt!(#[musli(packed)] #[repr(C)] PackedNested, Any { a: PackedBitwise, b: u64 });
strukt!(#[musli(packed)] #[repr(C)] PackedReorder, Any { a: u16, b: u64, c: u16, d: u32 });
strukt!(#[musli(packed)] PackedEmpty, Any {});
strukt!(#[musli(packed)] PackedOne, Any { a: u8 });
strukt!(#[musli(packed)] #[repr(C)] PackedInBool, Any { a: bool, b: u8, c: u16 });
strukt!(#[musli(packed)] PackedSeqs, Any { a: Vec<PackedBitwise>, b: [PackedPadded; 2] });
strukt!(Nested, Any { a: Named, b: Tuple, c: PackedNamed, d: Vec<Single> });
strukt!(Deep, Any { a: Vec<Option1>, b: BTreeMap<String, Vec<Named2>> });
strukt!(Named2, Any { x: u8, y: i32 });
strukt!(Option1, Any { x: u8, y: Inner1 });
strukt!(Inner1, Any { x: Vec<u32> });
strukt!(Optional, NotPacked { a: Option<u32>, b: Option<String>, c: Option<Named2>, d: u8 });
strukt!(OptionOption, NotPacked { a: Option<Vec<Option<u8>>>, b: u8 });

// Names.
strukt!(#[musli(name_all = "camelCase")] Camel, Any { first_field: u32, second_field_x: u8, third: bool });
strukt!(#[musli(name_all = "PascalCase")] Pascal, Any { first_field: u32, second_field_x: u8 });
strukt!(#[musli(name_all = "snake_case")] Snake, Any { first_field: u32, second_field_x: u8 });
strukt!(#[musli(name_all = "SCREAMING_SNAKE_CASE")] Scream, Any { first_field: u32, second_field_x: u8 });
strukt!(#[musli(name_all = "kebab-case")] Kebab, Any { first_field: u32, second_field_x: u8 });
strukt!(#[musli(name_all = "SCREAMING-KEBAB-CASE")] ScreamKebab, Any { first_field: u32, second_field_x: u8 });
strukt!(#[musli(name_all = "index")] Index, Any { first_field: u32, second_field_x: u8, third: String });
strukt!(#[musli(name_all = "name")] ByName, Any { first_field: u32, second_field_x: u8 });
strukt!(RenamedStr, Any {
    #[musli(Text, name = "b\"\\\u{e9}")] a: u32,
    #[musli(Text, name = "")] b: u8,
    #[musli(Text, name = "a")] c: i16,
});
strukt!(#[musli(name(type = str))] RenamedBoth, Any {
    #[musli(name = "x")] a: u32,
    #[musli(name = "xx")] b: u8,
    c: u8,
});
strukt!(#[musli(name(type = usize))] RenamedNum, Any {
    #[musli(name = 300)] a: u32,
    #[musli(name = 0)] b: u8,
    #[musli(name = 31)] c: u8,
    #[musli(name = 18446744073709551615)] d: u8,
});
strukt!(#[musli(name(type = i32))] RenamedNeg, Any {
    #[musli(name = -1)] a: u32,
    #[musli(name = 2147483647)] b: u8,
    #[musli(name = -2147483648)] c: u8,
});
strukt!(#[musli(name(type = u8))] RenamedU8, Any {
    #[musli(name = 255)] a: u32,
    #[musli(name = 127)] b: u8,
});
strukt!(#[musli(name(type = u128))] RenamedU128, Any {
    #[musli(name = 340282366920938463463374607431768211455)] a: u32,
    #[musli(name = 127)] b: u8,
});
fn show(b: &[u8]) -> String {
    format!("{b:?}")
}
strukt!(#[musli(name(type = [u8], format_with = show))] RenamedBytes, NotJson {
    #[musli(name = b"\xff\0")] a: u32,
    #[musli(name = b"")] b: u8,
});
strukt!(#[musli(name(type = char))] RenamedChar, NotJson {
    #[musli(name = 'a')] a: u32,
    #[musli(name = '\u{10ffff}')] b: u8,
});
strukt!(#[musli(name(type = bool))] RenamedBool, NotJson {
    #[musli(name = true)] a: u32,
    #[musli(name = false)] b: u8,
});
strukt!(Patterns, Any {
    #[musli(Binary, name = 5, pattern = (4..=6 | 9))] #[musli(Text, name = "q", pattern = ("p" | "q"))] a: u32,
    #[musli(Binary, name = 1)] b: u8,
});

// Defaults and skips.
fn seven() -> u32 {
    7
}
fn is_zero(v: &u32) -> bool {
    *v == 0
}
fn is_seven(v: &u32) -> bool {
    *v == 7
}
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
pub struct Skips {
    pub a: u32,
    #[musli(skip)]
    pub b: u32,
    #[musli(skip, default = seven)]
    pub c: u32,
    pub d: String,
}
sample!(Skips { a: u32, b: u32, c: u32, d: String });
impl Zoo for Skips {
    const NAME: &'static str = "Skips";
    fn expected(&self) -> Self {
        Skips { b: 0, c: 7, ..self.clone() }
    }
}
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
pub struct SkipTuple(#[musli(skip)] pub u32, pub u8, #[musli(skip, default = seven)] pub u32, pub u16);
sample!(SkipTuple { 0: u32, 1: u8, 2: u32, 3: u16 });
impl Zoo for SkipTuple {
    const NAME: &'static str = "SkipTuple";
    fn expected(&self) -> Self {
        SkipTuple(0, self.1, 7, self.3)
    }
}
strukt!(SkipIf, NotPacked {
    #[musli(default, skip_encoding_if = Option::is_none)] a: Option<u32>,
    #[musli(default, skip_encoding_if = Vec::is_empty)] b: Vec<u8>,
    #[musli(default, skip_encoding_if = is_zero)] c: u32,
    #[musli(default = seven, skip_encoding_if = is_seven)] d: u32,
    e: u8,
});
strukt!(SkipAll, NotPacked {
    #[musli(default, skip_encoding_if = Option::is_none)] a: Option<u32>,
    #[musli(default, skip_encoding_if = is_zero)] c: u32,
});

// Field representations.
strukt!(FieldReprs, Any {
    #[musli(packed)] a: (u32, u64),
    #[musli(packed)] b: [u32; 4],
    #[musli(bytes)] c: Vec<u8>,
    #[musli(bytes)] d: VecDeque<u8>,
    #[musli(bytes)] e: [u8; 5],
});
strukt!(PackedTupleField, Any {
    #[musli(packed)] a: (u8, String, i16),
    #[musli(trace)] b: HashMap<String, u32>,
    #[musli(trace)] c: BTreeMap<u8, Vec<u8>>,
    z: u8,
});
pub mod hexed {
    use musli::{Context, Decoder, Encoder};
    pub fn encode<E: Encoder>(v: &u32, e: E) -> Result<(), E::Error> {
        e.encode_string(&format!("{v:x}"))
    }
    pub fn decode<'de, D: Decoder<'de>>(d: D) -> Result<u32, D::Error> {
        let cx = d.cx();
        let s: String = d.decode_unsized(|s: &str| Ok(s.to_string()))?;
        u32::from_str_radix(&s, 16).map_err(cx.map())
    }
}
strukt!(With, Any { #[musli(with = self::hexed)] a: u32, b: u8, #[musli(with = self::hexed)] c: u32 });
strukt!(#[musli(packed)] PackedWith, Any { #[musli(with = self::hexed)] a: u32, b: u32 });

// Generic types.
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
pub struct Generic<T, U = u8> {
    pub value: T,
    pub other: Vec<U>,
}
sample!(Generic<String, u8> { value: String, other: Vec<u8> });
sample!(Generic<Generic<u32, u8>, Named2> { value: Generic<u32, u8>, other: Vec<Named2> });
sample!(Generic<u32, u8> { value: u32, other: Vec<u8> });
zoo!(Generic<String, u8>, Any; Generic<Generic<u32, u8>, Named2>, Any;);
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(Binary, bound = {T}, decode_bound = {T})]
#[musli(Text, bound = {T}, decode_bound = {T})]
pub struct Phantom<T> {
    pub a: u8,
    #[musli(default)]
    pub _m: PhantomData<T>,
}
pub type PhantomF = Phantom<std::cell::Cell<u8>>;
sample!(PhantomF { a: u8, _m: PhantomData<std::cell::Cell<u8>> });
zoo!(PhantomF, Any;);
strukt!(ConstGeneric4, Any { inner: ConstGeneric<4> });
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
pub struct ConstGeneric<const N: usize> {
    pub a: [u16; N],
}
impl<const N: usize> Sample for ConstGeneric<N> {
    fn samples(level: usize) -> Vec<Self> {
        Sample::samples(level + 1).into_iter().map(|a| ConstGeneric { a }).collect()
    }
}

// Separate representations per mode.
strukt!(
    #[musli(Binary, packed)]
    PerMode, Any { #[musli(Text, name = "alpha")] a: u32, b: u8 }
);
strukt!(
    #[musli(Text, transparent)]
    PerModeTransparent, Any { #[musli(Binary, name = 9)] a: u32 }
);
strukt!(
    #[musli(Binary, name_all = "name")]
    #[musli(Text, name_all = "index")]
    SwappedNames, Any { a: u32, b: String }
);

// Recursive.
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
pub struct Tree {
    pub v: u8,
    pub kids: Vec<Tree>,
}
impl Sample for Tree {
    fn samples(_: usize) -> Vec<Self> {
        let leaf = Tree { v: 1, kids: vec![] };
        let two = Tree { v: 2, kids: vec![leaf.clone(), Tree { v: 200, kids: vec![] }] };
        let three = Tree { v: 3, kids: vec![two.clone(), leaf.clone(), two.clone()] };
        vec![leaf, two, three]
    }
}
zoo!(Tree, Any;);

// ---- enums

macro_rules! enm {
    ($(#[$m:meta])* $n:ident, $w:ident { $($body:tt)* } { $($samples:tt)* }) => {
        #[derive(Debug, Clone, PartialEq, Encode, Decode)]
        $(#[$m])*
        pub enum $n { $($body)* }
        sample!($n : $($samples)*);
        zoo!($n, $w;);
    };
}

enm!(External, Any {
    Unit,
    Tuple(u32, String),
    New(u64),
    Named { a: u8, b: Vec<u16> },
    EmptyTuple(),
    EmptyNamed {},
    Nested(Named2),
    #[musli(transparent)] Transparent(String),
    #[musli(transparent)] TransparentNamed { x: i8 },
} {
    Unit {}, Tuple { 0: u32, 1: String }, New { 0: u64 }, Named { a: u8, b: Vec<u16> }, EmptyTuple {},
    EmptyNamed {}, Nested { 0: Named2 }, Transparent { 0: String }, TransparentNamed { x: i8 },
});
enm!(AllUnit, Any { A, B, LastOne } { A {}, B {}, LastOne {} });
enm!(#[musli(name_all = "kebab-case")] UnitKebab, Any { FirstVariant, B, LastOne } { FirstVariant {}, B {}, LastOne {} });
enm!(#[musli(name(type = u32))] UnitNumbered, Any {
    #[musli(name = 4294967295)] A,
    #[musli(name = 0)] B,
    #[musli(name = 5, pattern = (5..=10))] C,
} { A {}, B {}, C {} });
enm!(#[musli(name(type = i8))] VariantNeg, Any {
    #[musli(name = -128)] A,
    #[musli(name = 127)] B { x: u8 },
    #[musli(name = -1)] C(u8),
} { A {}, B { x: u8 }, C { 0: u8 } });
enm!(#[musli(name_all = "SCREAMING_SNAKE_CASE")] Screaming, Any {
    FirstVariant { some_field: u8 },
    #[musli(name_all = "camelCase")] SecondOne { some_field: u8, other_field: u8 },
    #[musli(Text, name = "\u{1f600}")] Third(u8),
} { FirstVariant { some_field: u8 }, SecondOne { some_field: u8, other_field: u8 }, Third { 0: u8 } });
enm!(#[musli(name(type = str))] VariantStr, Any {
    A { #[musli(Text, name = "renamed")] x: u8 },
    #[musli(name = "bee", name(type = u16))] B { #[musli(name = 77)] x: u8, #[musli(name = 1)] y: u8 },
} { A { x: u8 }, B { x: u8, y: u8 } });
enm!(OneVariant, Any { Only { a: u8 } } { Only { a: u8 } });
enm!(EnumInEnum, Any { A(External2), B(Vec<External2>) } { A { 0: External2 }, B { 0: Vec<External2> } });
enm!(External2, Any { X, Y(u8), Z { z: u8 } } { X {}, Y { 0: u8 }, Z { z: u8 } });
enm!(OptInEnum, NotPacked { A(Option<u8>, u8), B { x: Option<External2> }, C } { A { 0: Option<u8>, 1: u8 }, B { x: Option<External2> }, C {} });

/// The default variant holds nothing.
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
pub enum WithDefault {
    A,
    B { x: u8 },
    #[musli(default)]
    Other,
}
sample!(WithDefault: A {}, B { x: u8 }, Other {});
zoo!(WithDefault, Any;);

enm!(#[musli(tag = "type", name(type = str))] Internal, SelfDescriptive {
    A, #[musli(name(type = str))] B { a: u8, b: String }, #[musli(Text, name = "see", name(type = str))] #[musli(Binary, name(type = str))] C { c: Vec<Named2> }, #[musli(name(type = str))] D {},
} { A {}, B { a: u8, b: String }, C { c: Vec<Named2> }, D {} });
enm!(#[musli(tag = 10, name(type = usize))] InternalNum, SelfDescriptive {
    #[musli(name = 1)] A { #[musli(Text, name = "id")] id: String, n: i32 },
    #[musli(name = 300)] B { v: Vec<u8> },
} { A { id: String, n: i32 }, B { v: Vec<u8> } });
enm!(#[musli(tag = "t", name_all = "snake_case")] InternalOpt, SelfDescriptive {
    #[musli(name(type = str))] FirstOne { a: Option<u8>, f: f64 }, #[musli(name(type = str))] SecondOne { c: External2, m: BTreeMap<String, u8> },
} { FirstOne { a: Option<u8>, f: f64 }, SecondOne { c: External2, m: BTreeMap<String, u8> } });
enm!(#[musli(tag = "type", content = "data")] Adjacent, SelfDescriptive {
    A, B { a: u8, b: String }, C(u32), D(u8, i16), E {}, #[musli(transparent)] F(Named2), #[musli(transparent)] G(u64),
} { A {}, B { a: u8, b: String }, C { 0: u32 }, D { 0: u8, 1: i16 }, E {}, F { 0: Named2 }, G { 0: u64 } });
enm!(#[musli(tag = 1, content = 2, name(type = u8))] AdjacentNum, SelfDescriptive {
    #[musli(name = 3)] A { x: u8 }, #[musli(name = 200)] B(Vec<String>),
} { A { x: u8 }, B { 0: Vec<String> } });
enm!(#[musli(untagged)] Untagged, Clone {
    A { name: String, age: u32 },
    #[musli(transparent)] B(Named2),
    C { only: Vec<u8> },
} { A { name: String, age: u32 }, B { 0: Named2 }, C { only: Vec<u8> } });
enm!(#[musli(tag = "t", name_all = "snake_case")] InternalScalars, SelfDescriptive {
    #[musli(name(type = str))] Chars { c: char, d: [char; 2] },
    #[musli(name(type = str))] Floats { f: f64, g: f32, h: Vec<f64> },
    #[musli(name(type = str))] Bytes { #[musli(bytes)] b: Vec<u8>, #[musli(bytes)] a: [u8; 3] },
    #[musli(name(type = str))] Ints { a: i8, b: u64, c: i128, d: usize },
    #[musli(name(type = str))] Opts { a: Option<String>, b: Option<External2>, c: Vec<Option<i16>>, d: Option<char> },
    #[musli(name(type = str))] Maps { a: BTreeMap<u8, i8>, b: BTreeMap<i32, Vec<bool>>, u: () },
} { Chars { c: char, d: [char; 2] }, Floats { f: f64, g: f32, h: Vec<f64> }, Bytes { b: Vec<u8>, a: [u8; 3] },
    Ints { a: i8, b: u64, c: i128, d: usize }, Opts { a: Option<String>, b: Option<External2>, c: Vec<Option<i16>>, d: Option<char> },
    Maps { a: BTreeMap<u8, i8>, b: BTreeMap<i32, Vec<bool>>, u: () } });
// The tag is a string while the fields are numbered in the binary mode.
enm!(#[musli(tag = "type")] InternalMixed, SelfDescriptive {
    A, B { a: u8, b: String },
} { A {}, B { a: u8, b: String } });
// What a variant holds is next to its tag.
strukt!(#[musli(name_all = "name")] StrNamed, NotPacked {
    x: u8, #[musli(default, skip_encoding_if = String::is_empty)] y: String, #[musli(default, skip_encoding_if = Option::is_none)] z: Option<u16>,
});
enm!(#[musli(tag = "kind", name_all = "kebab-case")] InternalInner, SelfDescriptive {
    One, #[musli(name(type = str))] Two { a: u8 },
} { One {}, Two { a: u8 } });
enm!(#[musli(tag = "t", name_all = "snake_case")] InternalTransparent, SelfDescriptive {
    #[musli(transparent)] Held(StrNamed), #[musli(transparent)] ByRef(Box<StrNamed>), #[musli(transparent)] Nested(InternalInner),
    #[musli(transparent)] Named { it: StrNamed }, Last,
} { Held { 0: StrNamed }, ByRef { 0: Box<StrNamed> }, Nested { 0: InternalInner }, Named { it: StrNamed }, Last {} });
enm!(#[musli(untagged)] UntaggedScalars, Clone {
    A { c: char, f: f64, o: Option<u8> },
    B { x: Vec<Option<u8>>, y: (u8, String) },
} { A { c: char, f: f64, o: Option<u8> }, B { x: Vec<Option<u8>>, y: (u8, String) } });
enm!(#[musli(untagged)] UntaggedNest, Clone {
    #[musli(transparent)] A(Untagged),
    B { after: u8, inner: Vec<Untagged> },
    C { deep: Option<Box<HoldsUntagged>>, last: UntaggedScalars },
} { A { 0: Untagged }, B { after: u8, inner: Vec<Untagged> }, C { deep: Option<Box<HoldsUntagged>>, last: UntaggedScalars } });
strukt!(HoldsUntagged, Clone { before: u8, inner: Vec<Untagged>, one: UntaggedScalars, pair: (Untagged, u8), after: u8 });
strukt!(HoldsTagged, SelfDescriptive { before: u8, inner: Vec<Internal>, adj: Adjacent, after: u8 });


strukt!(NonZeros, Any { a: NonZeroU32, b: u8 });
impl Sample for NonZeroU32 {
    fn samples(level: usize) -> Vec<Self> {
        let mut v: Vec<_> = u32::samples(level).into_iter().filter_map(NonZeroU32::new).collect();
        v.push(NonZeroU32::MIN);
        v
    }
}

/// Calls the macro with every zoo type.
#[macro_export]
macro_rules! each_zoo {
    ($m:ident $($args:tt)*) => {
        $m! { $($args)*;
            Named Tuple NoFields NoFieldsTuple UnitStruct Single TransparentNamed TransparentTuple TransparentNest
            PackedNamed PackedTuple PackedString PackedBitwise PackedPadded PackedNested PackedReorder PackedEmpty
            PackedOne PackedInBool PackedSeqs Nested Deep Optional OptionOption
            Camel Pascal Snake Scream Kebab ScreamKebab Index ByName RenamedStr RenamedBoth RenamedNum RenamedNeg
            RenamedU8 RenamedU128 RenamedBytes RenamedChar RenamedBool Patterns
            Skips SkipTuple SkipIf SkipAll FieldReprs PackedTupleField With PackedWith
            GenericA GenericB PhantomF ConstGeneric4 PerMode PerModeTransparent SwappedNames Tree
            External AllUnit UnitKebab UnitNumbered VariantNeg Screaming VariantStr OneVariant EnumInEnum OptInEnum
            WithDefault Internal InternalMixed InternalScalars InternalTransparent StrNamed UntaggedScalars InternalNum InternalOpt Adjacent AdjacentNum Untagged UntaggedNest HoldsUntagged HoldsTagged
            NonZeros
        }
    };
}
pub type GenericA = Generic<String, u8>;
pub type GenericB = Generic<Generic<u32, u8>, Named2>;

/// A zoo type in a format.
pub trait InFormat<F: crate::Format>: Zoo {
    fn fenc(&self) -> Result<Vec<u8>, String>;
    fn fdec(b: &[u8]) -> Result<Self, String>;
    fn fdec_rest(b: &[u8]) -> Result<(Self, usize), String>;
}

impl<F, T> InFormat<F> for T
where
    F: crate::Format,
    T: Zoo + Encode<F::Mode>,
    T: for<'de> Decode<'de, F::Mode, System>,
{
    fn fenc(&self) -> Result<Vec<u8>, String> {
        F::enc(self)
    }
    fn fdec(b: &[u8]) -> Result<Self, String> {
        F::dec(b)
    }
    fn fdec_rest(b: &[u8]) -> Result<(Self, usize), String> {
        F::dec_rest(b)
    }
}
