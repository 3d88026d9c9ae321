//! What the attributes of every zoo type ask for.

use crate::*;

fn hexed(v: u32) -> Den {
    Den::Str(format!("{v:x}"))
}

macro_rules! den {
    ($($n:ty, $s:ident, $t:ident => $d:expr;)*) => { $(
        impl Denote for $n {
            #[allow(unused_variables)]
            fn den(&$s, $t: bool) -> Den { $d }
        }
    )* };
}
macro_rules! plain {
    ($($n:ident { $($f:tt),* })*) => { $(
        impl Denote for $n {
            #[allow(unused_variables)]
            fn den(&self, t: bool) -> Den { fields!(t; $($f => self.$f),*) }
        }
    )* };
}
macro_rules! pack {
    ($($n:ident { $($f:tt),* })*) => { $(
        impl Denote for $n {
            #[allow(unused_variables)]
            fn den(&self, t: bool) -> Den { Den::Pack(vec![$(self.$f.den(t)),*]) }
        }
    )* };
}

plain! {
    Named { a, b, c, d } Tuple { 0, 1, 2 } NoFields {} NoFieldsTuple {} UnitStruct {} Single { only }
    Nested { a, b, c, d } Deep { a, b } Named2 { x, y } Option1 { x, y } Inner1 { x }
    Optional { a, b, c, d } OptionOption { a, b } Tree { v, kids } PhantomF { a, _m }
    ConstGeneric4 { inner } HoldsUntagged { before, inner, one, pair, after }
    HoldsTagged { before, inner, adj, after }
}
pack! {
    PackedNamed { a, b, c } PackedTuple { 0, 1, 2 } PackedString { a, b, c } PackedBitwise { a, b }
    PackedPadded { a, b } PackedNested { a, b } PackedReorder { a, b, c, d } PackedEmpty {} PackedOne { a }
    PackedInBool { a, b, c } PackedSeqs { a, b }
}
impl<T: Denote, U: Denote> Denote for Generic<T, U> {
    fn den(&self, t: bool) -> Den {
        fields!(t; value => self.value, other => self.other)
    }
}
impl<const N: usize> Denote for ConstGeneric<N> {
    fn den(&self, t: bool) -> Den {
        fields!(t; a => self.a)
    }
}
impl<T> Denote for std::marker::PhantomData<T> {
    fn den(&self, _: bool) -> Den {
        Den::Empty
    }
}
impl Denote for std::num::NonZeroU32 {
    fn den(&self, _: bool) -> Den {
        Den::U32(self.get())
    }
}

den! {
    TransparentNamed, self, t => self.inner.den(t);
    TransparentTuple, self, t => self.0.den(t);
    TransparentNest, self, t => Den::U64(self.0.inner);
    Camel, self, t => keyed!(t; "firstField" => self.first_field, "secondFieldX" => self.second_field_x, "third" => self.third);
    Pascal, self, t => keyed!(t; "FirstField" => self.first_field, "SecondFieldX" => self.second_field_x);
    Snake, self, t => keyed!(t; "first_field" => self.first_field, "second_field_x" => self.second_field_x);
    Scream, self, t => keyed!(t; "FIRST_FIELD" => self.first_field, "SECOND_FIELD_X" => self.second_field_x);
    Kebab, self, t => keyed!(t; "first-field" => self.first_field, "second-field-x" => self.second_field_x);
    ScreamKebab, self, t => keyed!(t; "FIRST-FIELD" => self.first_field, "SECOND-FIELD-X" => self.second_field_x);
    Index, self, t => keyed!(t; 0usize => self.first_field, 1usize => self.second_field_x, 2usize => self.third);
    ByName, self, t => keyed!(t; "first_field" => self.first_field, "second_field_x" => self.second_field_x);
    RenamedStr, self, t => if t {
        keyed!(t; "b\"\\\u{e9}" => self.a, "" => self.b, "a" => self.c)
    } else {
        keyed!(t; 0usize => self.a, 1usize => self.b, 2usize => self.c)
    };
    RenamedBoth, self, t => keyed!(t; "x" => self.a, "xx" => self.b, "c" => self.c);
    RenamedNum, self, t => keyed!(t; 300usize => self.a, 0usize => self.b, 31usize => self.c, u64::MAX as usize => self.d);
    RenamedNeg, self, t => keyed!(t; -1i32 => self.a, i32::MAX => self.b, i32::MIN => self.c);
    RenamedU8, self, t => keyed!(t; 255u8 => self.a, 127u8 => self.b);
    RenamedU128, self, t => keyed!(t; u128::MAX => self.a, 127u128 => self.b);
    RenamedBytes, self, t => keyed!(t; &b"\xff\0"[..] => self.a, &b""[..] => self.b);
    RenamedChar, self, t => keyed!(t; 'a' => self.a, '\u{10ffff}' => self.b);
    RenamedBool, self, t => keyed!(t; true => self.a, false => self.b);
    Patterns, self, t => if t {
        keyed!(t; "q" => self.a, "b" => self.b)
    } else {
        keyed!(t; 5usize => self.a, 1usize => self.b)
    };
    Skips, self, t => keyed!(t; Den::named(t, 0, "a") => self.a, Den::named(t, 3, "d") => self.d);
    SkipTuple, self, t => keyed!(t; Den::named(t, 1, "1") => self.1, Den::named(t, 3, "3") => self.3);
    SkipIf, self, t => {
        let mut m = Vec::new();
        if self.a.is_some() {
            m.push((Den::named(t, 0, "a"), self.a.den(t)));
        }
        if !self.b.is_empty() {
            m.push((Den::named(t, 1, "b"), self.b.den(t)));
        }
        if self.c != 0 {
            m.push((Den::named(t, 2, "c"), self.c.den(t)));
        }
        if self.d != 7 {
            m.push((Den::named(t, 3, "d"), self.d.den(t)));
        }
        m.push((Den::named(t, 4, "e"), self.e.den(t)));
        Den::Map(m)
    };
    SkipAll, self, t => {
        let mut m = Vec::new();
        if self.a.is_some() {
            m.push((Den::named(t, 0, "a"), self.a.den(t)));
        }
        if self.c != 0 {
            m.push((Den::named(t, 1, "c"), self.c.den(t)));
        }
        Den::Map(m)
    };
    FieldReprs, self, t => Den::Map(vec![
        (Den::named(t, 0, "a"), self.a.den(t).packed()),
        (Den::named(t, 1, "b"), self.b.den(t).packed()),
        (Den::named(t, 2, "c"), Den::Bytes(self.c.clone())),
        (Den::named(t, 3, "d"), Den::Bytes(self.d.iter().copied().collect())),
        (Den::named(t, 4, "e"), Den::Arr(self.e.to_vec())),
    ]);
    PackedTupleField, self, t => Den::Map(vec![
        (Den::named(t, 0, "a"), self.a.den(t).packed()),
        (Den::named(t, 1, "b"), self.b.den(t)),
        (Den::named(t, 2, "c"), self.c.den(t)),
        (Den::named(t, 3, "z"), self.z.den(t)),
    ]);
    With, self, t => Den::Map(vec![
        (Den::named(t, 0, "a"), hexed(self.a)),
        (Den::named(t, 1, "b"), self.b.den(t)),
        (Den::named(t, 2, "c"), hexed(self.c)),
    ]);
    PackedWith, self, t => Den::Pack(vec![hexed(self.a), self.b.den(t)]);
    PerMode, self, t => if t {
        keyed!(t; "alpha" => self.a, "b" => self.b)
    } else {
        Den::Pack(vec![self.a.den(t), self.b.den(t)])
    };
    PerModeTransparent, self, t => if t { self.a.den(t) } else { keyed!(t; 9usize => self.a) };
    SwappedNames, self, t => if t {
        keyed!(t; 0usize => self.a, 1usize => self.b)
    } else {
        keyed!(t; "a" => self.a, "b" => self.b)
    };
    NonZeros, self, t => fields!(t; a => self.a, b => self.b);

    External, self, t => {
        let v = |i, n, d| Den::var(Den::named(t, i, n), d);
        match self {
            External::Unit => v(0, "Unit", fields!(t;)),
            External::Tuple(a, b) => v(1, "Tuple", fields!(t; 0 => a, 1 => b)),
            External::New(a) => v(2, "New", fields!(t; 0 => a)),
            External::Named { a, b } => v(3, "Named", fields!(t; a => a, b => b)),
            External::EmptyTuple() => v(4, "EmptyTuple", fields!(t;)),
            External::EmptyNamed {} => v(5, "EmptyNamed", fields!(t;)),
            External::Nested(a) => v(6, "Nested", fields!(t; 0 => a)),
            External::Transparent(a) => v(7, "Transparent", a.den(t)),
            External::TransparentNamed { x } => v(8, "TransparentNamed", x.den(t)),
        }
    };
    AllUnit, self, t => match self {
        AllUnit::A => Den::named(t, 0, "A"),
        AllUnit::B => Den::named(t, 1, "B"),
        AllUnit::LastOne => Den::named(t, 2, "LastOne"),
    };
    UnitKebab, self, t => match self {
        UnitKebab::FirstVariant => Den::str("first-variant"),
        UnitKebab::B => Den::str("b"),
        UnitKebab::LastOne => Den::str("last-one"),
    };
    UnitNumbered, self, t => match self {
        UnitNumbered::A => Den::U32(u32::MAX),
        UnitNumbered::B => Den::U32(0),
        UnitNumbered::C => Den::U32(5),
    };
    VariantNeg, self, t => match self {
        VariantNeg::A => Den::var(Den::I8(-128), fields!(t;)),
        VariantNeg::B { x } => Den::var(Den::I8(127), fields!(t; x => x)),
        VariantNeg::C(x) => Den::var(Den::I8(-1), fields!(t; 0 => x)),
    };
    Screaming, self, t => match self {
        Screaming::FirstVariant { some_field } => Den::var(Den::str("FIRST_VARIANT"), fields!(t; some_field => some_field)),
        Screaming::SecondOne { some_field, other_field } => {
            Den::var(Den::str("SECOND_ONE"), keyed!(t; "someField" => some_field, "otherField" => other_field))
        }
        Screaming::Third(x) => Den::var(Den::str(if t { "\u{1f600}" } else { "THIRD" }), fields!(t; 0 => x)),
    };
    VariantStr, self, t => match self {
        VariantStr::A { x } => Den::var(Den::str("A"), keyed!(t; Den::named(t, 0, "renamed") => x)),
        VariantStr::B { x, y } => Den::var(Den::str("bee"), keyed!(t; 77u16 => x, 1u16 => y)),
    };
    OneVariant, self, t => match self {
        OneVariant::Only { a } => Den::var(Den::named(t, 0, "Only"), fields!(t; a => a)),
    };
    EnumInEnum, self, t => match self {
        EnumInEnum::A(x) => Den::var(Den::named(t, 0, "A"), fields!(t; 0 => x)),
        EnumInEnum::B(x) => Den::var(Den::named(t, 1, "B"), fields!(t; 0 => x)),
    };
    External2, self, t => match self {
        External2::X => Den::var(Den::named(t, 0, "X"), fields!(t;)),
        External2::Y(y) => Den::var(Den::named(t, 1, "Y"), fields!(t; 0 => y)),
        External2::Z { z } => Den::var(Den::named(t, 2, "Z"), fields!(t; z => z)),
    };
    OptInEnum, self, t => match self {
        OptInEnum::A(a, b) => Den::var(Den::named(t, 0, "A"), fields!(t; 0 => a, 1 => b)),
        OptInEnum::B { x } => Den::var(Den::named(t, 1, "B"), fields!(t; x => x)),
        OptInEnum::C => Den::var(Den::named(t, 2, "C"), fields!(t;)),
    };
    WithDefault, self, t => match self {
        WithDefault::A => Den::var(Den::named(t, 0, "A"), fields!(t;)),
        WithDefault::B { x } => Den::var(Den::named(t, 1, "B"), fields!(t; x => x)),
        WithDefault::Other => Den::var(Den::named(t, 2, "Other"), fields!(t;)),
    };
    Internal, self, t => {
        let tag = |n: &str, d: Den| d.tagged(Den::str("type"), Den::str(n));
        match self {
            Internal::A => tag("A", fields!(t;)),
            Internal::B { a, b } => tag("B", keyed!(t; "a" => a, "b" => b)),
            Internal::C { c } => tag(if t { "see" } else { "C" }, keyed!(t; "c" => c)),
            Internal::D {} => tag("D", fields!(t;)),
        }
    };
    InternalNum, self, t => match self {
        InternalNum::A { id, n } => fields!(t; id => id, n => n).tagged(Den::Usize(10), Den::Usize(1)),
        InternalNum::B { v } => fields!(t; v => v).tagged(Den::Usize(10), Den::Usize(300)),
    };
    InternalOpt, self, t => {
        let tag = |n: &str, d: Den| d.tagged(Den::str("t"), Den::str(n));
        match self {
            InternalOpt::FirstOne { a, f } => tag("first_one", keyed!(t; "a" => a, "f" => f)),
            InternalOpt::SecondOne { c, m } => tag("second_one", keyed!(t; "c" => c, "m" => m)),
        }
    };
    InternalMixed, self, t => match self {
        InternalMixed::A => fields!(t;).tagged(Den::str("type"), Den::named(t, 0, "A")),
        InternalMixed::B { a, b } => fields!(t; a => a, b => b).tagged(Den::str("type"), Den::named(t, 1, "B")),
    };
    StrNamed, self, t => {
        let mut m = vec![(Den::str("x"), self.x.den(t))];
        if !self.y.is_empty() {
            m.push((Den::str("y"), self.y.den(t)));
        }
        if self.z.is_some() {
            m.push((Den::str("z"), self.z.den(t)));
        }
        Den::Map(m)
    };
    InternalInner, self, t => match self {
        InternalInner::One => fields!(t;).tagged(Den::str("kind"), Den::str("one")),
        InternalInner::Two { a } => keyed!(t; "a" => a).tagged(Den::str("kind"), Den::str("two")),
    };
    InternalTransparent, self, t => {
        let tag = |n: &str, d: Den| d.tagged(Den::str("t"), Den::str(n));
        match self {
            InternalTransparent::Held(v) => tag("held", v.den(t)),
            InternalTransparent::ByRef(v) => tag("by_ref", v.den(t)),
            InternalTransparent::Nested(v) => tag("nested", v.den(t)),
            InternalTransparent::Named { it } => tag("named", it.den(t)),
            InternalTransparent::Last => tag("last", fields!(t;)),
        }
    };
    InternalScalars, self, t => {
        let tag = |n: &str, d: Den| d.tagged(Den::str("t"), Den::str(n));
        match self {
            InternalScalars::Chars { c, d } => tag("chars", keyed!(t; "c" => c, "d" => d)),
            InternalScalars::Floats { f, g, h } => tag("floats", keyed!(t; "f" => f, "g" => g, "h" => h)),
            InternalScalars::Bytes { b, a } => tag("bytes", Den::Map(vec![
                (Den::str("b"), Den::Bytes(b.clone())),
                (Den::str("a"), Den::Arr(a.to_vec())),
            ])),
            InternalScalars::Ints { a, b, c, d } => tag("ints", keyed!(t; "a" => a, "b" => b, "c" => c, "d" => d)),
            InternalScalars::Opts { a, b, c, d } => tag("opts", keyed!(t; "a" => a, "b" => b, "c" => c, "d" => d)),
            InternalScalars::Maps { a, b, u } => tag("maps", keyed!(t; "a" => a, "b" => b, "u" => u)),
        }
    };
    Adjacent, self, t => {
        let v = |i, n, d| Den::Map(vec![(Den::str("type"), Den::named(t, i, n)), (Den::str("data"), d)]);
        match self {
            Adjacent::A => v(0, "A", fields!(t;)),
            Adjacent::B { a, b } => v(1, "B", fields!(t; a => a, b => b)),
            Adjacent::C(a) => v(2, "C", fields!(t; 0 => a)),
            Adjacent::D(a, b) => v(3, "D", fields!(t; 0 => a, 1 => b)),
            Adjacent::E {} => v(4, "E", fields!(t;)),
            Adjacent::F(a) => v(5, "F", a.den(t)),
            Adjacent::G(a) => v(6, "G", a.den(t)),
        }
    };
    AdjacentNum, self, t => {
        let v = |n, d| Den::Map(vec![(Den::Usize(1), Den::U8(n)), (Den::Usize(2), d)]);
        match self {
            AdjacentNum::A { x } => v(3, fields!(t; x => x)),
            AdjacentNum::B(x) => v(200, fields!(t; 0 => x)),
        }
    };
    Untagged, self, t => match self {
        Untagged::A { name, age } => fields!(t; name => name, age => age),
        Untagged::B(x) => x.den(t),
        Untagged::C { only } => fields!(t; only => only),
    };
    UntaggedScalars, self, t => match self {
        UntaggedScalars::A { c, f, o } => fields!(t; c => c, f => f, o => o),
        UntaggedScalars::B { x, y } => fields!(t; x => x, y => y),
    };
    UntaggedNest, self, t => match self {
        UntaggedNest::A(x) => x.den(t),
        UntaggedNest::B { after, inner } => fields!(t; after => after, inner => inner),
        UntaggedNest::C { deep, last } => fields!(t; deep => deep, last => last),
    };
}
