//! P03: fields may be reordered, left out if they have a default, and unknown.

use std::collections::BTreeMap;
use std::fmt::Debug;

use eng::*;
use kit::*;
use musli::alloc::System;
use musli::mode::{Binary, Text};
use musli::{Decode, Encode};

kit::global_allocator!();

/// A message which is not written by what it is read as.
trait Dynamic {
    fn shape() -> Shape;
    fn val(&self) -> Val;
}

macro_rules! dynamic {
    ($($t:ty, $s:expr, $x:ident => $v:expr;)*) => { $(
        impl Dynamic for $t {
            fn shape() -> Shape {
                $s
            }
            fn val(&self) -> Val {
                let $x = self;
                $v
            }
        }
    )* };
}

dynamic! {
    (), Shape::Unit, _x => Val::Unit;
    bool, Shape::Bool, x => Val::Bool(*x);
    char, Shape::Char, x => Val::Char(*x);
    u8, Shape::U8, x => Val::U(*x as u128);
    u16, Shape::U16, x => Val::U(*x as u128);
    u32, Shape::U32, x => Val::U(*x as u128);
    u64, Shape::U64, x => Val::U(*x as u128);
    u128, Shape::U128, x => Val::U(*x);
    i8, Shape::I8, x => Val::I(*x as i128);
    i16, Shape::I16, x => Val::I(*x as i128);
    i64, Shape::I64, x => Val::I(*x as i128);
    f32, Shape::F32, x => Val::F32(x.to_bits());
    f64, Shape::F64, x => Val::F64(x.to_bits());
    String, Shape::Str, x => Val::Str(x.clone());
}
impl<T: Dynamic> Dynamic for Option<T> {
    fn shape() -> Shape {
        Shape::opt(T::shape())
    }
    fn val(&self) -> Val {
        Val::Opt(self.as_ref().map(|v| Box::new(v.val())))
    }
}
impl<T: Dynamic> Dynamic for Vec<T> {
    fn shape() -> Shape {
        Shape::seq(T::shape())
    }
    fn val(&self) -> Val {
        Val::Seq(self.iter().map(|v| v.val()).collect())
    }
}
impl<K: Dynamic, T: Dynamic> Dynamic for BTreeMap<K, T> {
    fn shape() -> Shape {
        Shape::map(K::shape(), T::shape())
    }
    fn val(&self) -> Val {
        Val::Map(self.iter().map(|(k, v)| (k.val(), v.val())).collect())
    }
}

/// A field, or something else that is found next to them.
struct Field {
    name: &'static str,
    text: Key,
    binary: Key,
    shape: Shape,
    vals: Vec<Val>,
    default: Option<Val>,
}

impl Field {
    fn key(&self, text: bool) -> Key {
        if text {
            self.text.clone()
        } else {
            self.binary.clone()
        }
    }
}

/// What messages are read as.
trait Target: Debug + Sized + 'static {
    const NAME: &'static str;
    /// Has to be buffered.
    const BUFFERED: bool = false;
    fn fields() -> Vec<Field>;
    /// The fields in the same order.
    fn vals(&self) -> Result<Vec<Val>, Failure>;
    /// What the fields are in.
    fn wrap(_text: bool, s: Shape, v: Val) -> (Shape, Val) {
        (s, v)
    }
}

macro_rules! default {
    () => {
        None
    };
    ($e:expr) => {
        Some($e)
    };
}

/// Fields with their keys in both modes, and what they are without being there.
macro_rules! fields {
    ($($f:literal : $t:ty, $text:expr, $bin:expr $(, $d:expr)?;)*) => {
        vec![$( Field {
            name: $f,
            text: $text,
            binary: $bin,
            shape: <$t as Dynamic>::shape(),
            vals: {
                let mut v: Vec<Val> = Vec::new();
                for l in [2, 3] {
                    v.extend(<$t as Sample>::samples(l).iter().map(|v| v.val()));
                }
                v.dedup();
                v
            },
            default: default!($({ let d: $t = $d; d.val() })?),
        }),*]
    };
}

use Key::{I, S, U};

#[derive(Debug, Encode, Decode)]
struct Required {
    a: u16,
    b: String,
    c: Vec<u8>,
}
impl Target for Required {
    const NAME: &'static str = "required";
    fn fields() -> Vec<Field> {
        fields! { "a": u16, S("a"), U(0); "b": String, S("b"), U(1); "c": Vec<u8>, S("c"), U(2); }
    }
    fn vals(&self) -> Result<Vec<Val>, Failure> {
        Ok(vec![self.a.val(), self.b.val(), self.c.val()])
    }
}

fn forty_two() -> u32 {
    42
}
fn some() -> Option<String> {
    Some("some".into())
}

#[derive(Debug, Encode, Decode)]
struct Defaults {
    #[musli(default)]
    first: u64,
    second: i16,
    #[musli(default = forty_two)]
    third: u32,
    #[musli(default = some)]
    fourth: Option<String>,
}
impl Target for Defaults {
    const NAME: &'static str = "defaults";
    fn fields() -> Vec<Field> {
        fields! {
            "first": u64, S("first"), U(0), 0;
            "second": i16, S("second"), U(1);
            "third": u32, S("third"), U(2), 42;
            "fourth": Option<String>, S("fourth"), U(3), some();
        }
    }
    fn vals(&self) -> Result<Vec<Val>, Failure> {
        Ok(vec![self.first.val(), self.second.val(), self.third.val(), self.fourth.val()])
    }
}

#[derive(Debug, Encode, Decode)]
struct AllDefault {
    #[musli(default)]
    a: Option<Vec<u16>>,
    #[musli(default)]
    b: BTreeMap<String, u8>,
    #[musli(default)]
    c: bool,
}
impl Target for AllDefault {
    const NAME: &'static str = "all default";
    fn fields() -> Vec<Field> {
        fields! {
            "a": Option<Vec<u16>>, S("a"), U(0), None;
            "b": BTreeMap<String, u8>, S("b"), U(1), BTreeMap::new();
            "c": bool, S("c"), U(2), false;
        }
    }
    fn vals(&self) -> Result<Vec<Val>, Failure> {
        Ok(vec![self.a.val(), self.b.val(), self.c.val()])
    }
}

#[derive(Debug, Encode, Decode)]
struct Empty {}
impl Target for Empty {
    const NAME: &'static str = "empty";
    fn fields() -> Vec<Field> {
        vec![]
    }
    fn vals(&self) -> Result<Vec<Val>, Failure> {
        Ok(vec![])
    }
}

#[derive(Debug, Encode, Decode)]
struct EmptyTuple();
impl Target for EmptyTuple {
    const NAME: &'static str = "empty tuple";
    fn fields() -> Vec<Field> {
        vec![]
    }
    fn vals(&self) -> Result<Vec<Val>, Failure> {
        Ok(vec![])
    }
}

#[derive(Debug, Encode, Decode)]
struct TupleStruct(char, #[musli(default)] Vec<bool>, f64);
impl Target for TupleStruct {
    const NAME: &'static str = "tuple";
    fn fields() -> Vec<Field> {
        fields! { "0": char, U(0), U(0); "1": Vec<bool>, U(1), U(1), vec![]; "2": f64, U(2), U(2); }
    }
    fn vals(&self) -> Result<Vec<Val>, Failure> {
        Ok(vec![self.0.val(), self.1.val(), self.2.val()])
    }
}

#[derive(Debug, Encode, Decode)]
#[musli(name_all = "kebab-case")]
struct Strings {
    the_first: u8,
    #[musli(default)]
    the_first_of: i8,
    #[musli(name = "", default)]
    the: String,
}
impl Target for Strings {
    const NAME: &'static str = "strings";
    fn fields() -> Vec<Field> {
        fields! {
            "the_first": u8, S("the-first"), S("the-first");
            "the_first_of": i8, S("the-first-of"), S("the-first-of"), 0;
            "the": String, S(""), S(""), String::new();
        }
    }
    fn vals(&self) -> Result<Vec<Val>, Failure> {
        Ok(vec![self.the_first.val(), self.the_first_of.val(), self.the.val()])
    }
}

#[derive(Debug, Encode, Decode)]
#[musli(Binary, name(type = i32))]
#[musli(Text, name_all = "SCREAMING_SNAKE_CASE")]
struct Negative {
    #[musli(Binary, name = -1)]
    one_field: u32,
    #[musli(Binary, name = 0, default)]
    other_field: Option<u128>,
    #[musli(Binary, name = 70000, default)]
    #[musli(Text, name = "renamed \" \u{e9}", default)]
    third_field: String,
}
impl Target for Negative {
    const NAME: &'static str = "negative";
    fn fields() -> Vec<Field> {
        let mut f = fields! {
            "one_field": u32, S("ONE_FIELD"), I(-1);
            "other_field": Option<u128>, S("OTHER_FIELD"), I(0), None;
            "third_field": String, S("renamed \" \u{e9}"), I(70000), String::new();
        };
        // Only the binary mode has a default for it.
        f[1].name = "other_field!";
        f
    }
    fn vals(&self) -> Result<Vec<Val>, Failure> {
        Ok(vec![self.one_field.val(), self.other_field.val(), self.third_field.val()])
    }
}

#[derive(Debug, Encode, Decode)]
#[musli(name(type = usize))]
struct Numbers {
    #[musli(name = 200)]
    a: u32,
    #[musli(name = 3, default)]
    b: String,
    #[musli(name = 62)]
    c: u8,
    #[musli(skip)]
    d: u16,
    #[musli(skip, default = forty_two)]
    e: u32,
}
impl Target for Numbers {
    const NAME: &'static str = "numbers";
    fn fields() -> Vec<Field> {
        fields! {
            "a": u32, U(200), U(200); "b": String, U(3), U(3), String::new(); "c": u8, U(62), U(62);
        }
    }
    fn vals(&self) -> Result<Vec<Val>, Failure> {
        ensure!(self.d == 0 && self.e == 42, "skipped fields are {} and {}", self.d, self.e);
        Ok(vec![self.a.val(), self.b.val(), self.c.val()])
    }
}

#[derive(Debug, Encode, Decode)]
struct Bytes {
    #[musli(bytes)]
    a: Vec<u8>,
    #[musli(bytes, default)]
    b: [u8; 4],
    #[musli(packed, default)]
    c: (u8, u8),
}
impl Target for Bytes {
    const NAME: &'static str = "bytes";
    fn fields() -> Vec<Field> {
        let bytes = |n: &[&[u8]]| n.iter().map(|b| Val::Bytes(b.to_vec())).collect();
        vec![
            Field {
                name: "a",
                text: S("a"),
                binary: U(0),
                shape: Shape::Bytes,
                vals: bytes(&[b"", b"abc\xff"]),
                default: None,
            },
            Field {
                name: "b",
                text: S("b"),
                binary: U(1),
                shape: Shape::Arr(4),
                vals: bytes(&[b"\x01\x02\x03\xff"]),
                default: Some(Val::Bytes(vec![0; 4])),
            },
            Field {
                name: "c",
                text: S("c"),
                binary: U(2),
                shape: Shape::Pack(vec![Shape::U8, Shape::U8]),
                vals: vec![Val::Struct(vec![Val::U(200), Val::U(7)])],
                default: Some(Val::Struct(vec![Val::U(0), Val::U(0)])),
            },
        ]
    }
    fn vals(&self) -> Result<Vec<Val>, Failure> {
        Ok(vec![
            Val::Bytes(self.a.clone()),
            Val::Bytes(self.b.to_vec()),
            Val::Struct(vec![self.c.0.val(), self.c.1.val()]),
        ])
    }
}

fn field(text: bool, t: &'static str, b: usize) -> Key {
    if text {
        S(t)
    } else {
        U(b)
    }
}

/// As the field of another one.
#[derive(Debug, Encode, Decode)]
struct Outer {
    before: u8,
    inner: Defaults,
    after: String,
}
impl Target for Outer {
    const NAME: &'static str = "inside of a struct";
    fn fields() -> Vec<Field> {
        Defaults::fields()
    }
    fn vals(&self) -> Result<Vec<Val>, Failure> {
        ensure!(self.before == 11 && self.after == "after", "{self:?}");
        self.inner.vals()
    }
    fn wrap(text: bool, s: Shape, v: Val) -> (Shape, Val) {
        (
            Shape::Struct(vec![
                (field(text, "before", 0), Shape::U8),
                (field(text, "inner", 1), s),
                (field(text, "after", 2), Shape::Str),
            ]),
            Val::Struct(vec![Val::U(11), v, Val::Str("after".into())]),
        )
    }
}

/// As the first of a sequence.
impl Target for Vec<Defaults> {
    const NAME: &'static str = "inside of a sequence";
    fn fields() -> Vec<Field> {
        Defaults::fields()
    }
    fn vals(&self) -> Result<Vec<Val>, Failure> {
        let [a, b] = &self[..] else { fail!("{self:?}") };
        let (a, b) = (a.vals()?, b.vals()?);
        ensure!(a == b, "{self:?}");
        Ok(a)
    }
    fn wrap(_: bool, s: Shape, v: Val) -> (Shape, Val) {
        (Shape::seq(s), Val::Seq(vec![v.clone(), v]))
    }
}

impl Target for Option<Defaults> {
    const NAME: &'static str = "inside of an option";
    fn fields() -> Vec<Field> {
        Defaults::fields()
    }
    fn vals(&self) -> Result<Vec<Val>, Failure> {
        let Some(v) = self else { fail!("none") };
        v.vals()
    }
    fn wrap(_: bool, s: Shape, v: Val) -> (Shape, Val) {
        (Shape::opt(s), Val::Opt(Some(Box::new(v))))
    }
}

#[derive(Debug, Encode, Decode)]
#[musli(transparent)]
struct Transparent(Defaults);
impl Target for Transparent {
    const NAME: &'static str = "inside of a transparent one";
    fn fields() -> Vec<Field> {
        Defaults::fields()
    }
    fn vals(&self) -> Result<Vec<Val>, Failure> {
        self.0.vals()
    }
}

/// The fields of a variant.
#[derive(Debug, Encode, Decode)]
enum External {
    #[allow(unused)]
    Other,
    Variant {
        first: u16,
        #[musli(default)]
        second: Option<bool>,
        #[musli(default = forty_two)]
        third: u32,
    },
}
macro_rules! variant {
    () => {
        fields! {
            "first": u16, S("first"), U(0);
            "second": Option<bool>, S("second"), U(1), None;
            "third": u32, S("third"), U(2), 42;
        }
    };
}
impl Target for External {
    const NAME: &'static str = "variant";
    fn fields() -> Vec<Field> {
        variant!()
    }
    fn vals(&self) -> Result<Vec<Val>, Failure> {
        let External::Variant { first, second, third } = self else { fail!("{self:?}") };
        Ok(vec![first.val(), second.val(), third.val()])
    }
    fn wrap(text: bool, s: Shape, v: Val) -> (Shape, Val) {
        (Shape::Enum(vec![(field(text, "Variant", 1), s)]), Val::Enum(0, Box::new(v)))
    }
}

#[derive(Debug, Encode, Decode)]
enum ExternalTuple {
    Variant(u8, #[musli(default)] String),
}
impl Target for ExternalTuple {
    const NAME: &'static str = "tuple variant";
    fn fields() -> Vec<Field> {
        fields! { "0": u8, U(0), U(0); "1": String, U(1), U(1), String::new(); }
    }
    fn vals(&self) -> Result<Vec<Val>, Failure> {
        let ExternalTuple::Variant(a, b) = self;
        Ok(vec![a.val(), b.val()])
    }
    fn wrap(text: bool, s: Shape, v: Val) -> (Shape, Val) {
        (Shape::Enum(vec![(field(text, "Variant", 0), s)]), Val::Enum(0, Box::new(v)))
    }
}

/// The tag is among the fields, in any place.
#[derive(Debug, Encode, Decode)]
#[musli(Text, tag = "type")]
#[musli(Binary, tag = 9)]
enum Internal {
    #[allow(unused)]
    Other,
    Variant {
        first: u16,
        #[musli(default)]
        second: Option<bool>,
        #[musli(default = forty_two)]
        third: u32,
    },
}
impl Target for Internal {
    const NAME: &'static str = "internally tagged";
    const BUFFERED: bool = true;
    fn fields() -> Vec<Field> {
        let mut v = variant!();
        v.push(Field {
            name: "type",
            text: S("type"),
            binary: U(9),
            shape: Shape::Unit,
            vals: vec![Val::Unit],
            default: None,
        });
        v
    }
    fn vals(&self) -> Result<Vec<Val>, Failure> {
        let Internal::Variant { first, second, third } = self else { fail!("{self:?}") };
        Ok(vec![first.val(), second.val(), third.val(), Val::Unit])
    }
    fn wrap(text: bool, s: Shape, v: Val) -> (Shape, Val) {
        // The value of the tag depends on the mode.
        let (Shape::Struct(mut s), Val::Struct(mut v)) = (s, v) else { unreachable!() };
        for (s, v) in s.iter_mut().zip(&mut v) {
            if s.0 == field(text, "type", 9) {
                (s.1, *v) = if text {
                    (Shape::Str, Val::Str("Variant".into()))
                } else {
                    (Shape::Usize, Val::U(1))
                };
            }
        }
        (Shape::Struct(s), Val::Struct(v))
    }
}

/// The content next to its tag has the fields.
#[derive(Debug, Encode, Decode)]
#[musli(Text, tag = "t", content = "c")]
#[musli(Binary, tag = 0, content = 1)]
enum Adjacent {
    #[allow(unused)]
    Other,
    Variant {
        first: u16,
        #[musli(default)]
        second: Option<bool>,
        #[musli(default = forty_two)]
        third: u32,
    },
}
impl Target for Adjacent {
    const NAME: &'static str = "adjacently tagged";
    const BUFFERED: bool = true;
    fn fields() -> Vec<Field> {
        variant!()
    }
    fn vals(&self) -> Result<Vec<Val>, Failure> {
        let Adjacent::Variant { first, second, third } = self else { fail!("{self:?}") };
        Ok(vec![first.val(), second.val(), third.val()])
    }
    fn wrap(text: bool, s: Shape, v: Val) -> (Shape, Val) {
        let (ts, tv) = if text {
            (Shape::Str, Val::Str("Variant".into()))
        } else {
            (Shape::Usize, Val::U(1))
        };
        (
            Shape::Struct(vec![(field(text, "t", 0), ts), (field(text, "c", 1), s)]),
            Val::Struct(vec![tv, v]),
        )
    }
}

/// Fields are tried to be told from their shape.
#[derive(Debug, Encode, Decode)]
#[musli(untagged)]
enum Untagged {
    Variant {
        first: u16,
        second: Option<bool>,
        #[musli(default = forty_two)]
        third: u32,
    },
}
impl Target for Untagged {
    const NAME: &'static str = "untagged";
    const BUFFERED: bool = true;
    fn fields() -> Vec<Field> {
        let mut v = variant!();
        v[1].default = None;
        v
    }
    fn vals(&self) -> Result<Vec<Val>, Failure> {
        let Untagged::Variant { first, second, third } = self;
        Ok(vec![first.val(), second.val(), third.val()])
    }
}

/// More than fit in a tag, and many which are not there.
#[derive(Debug, Encode, Decode)]
struct Many {
    #[musli(default)] f00: u8, #[musli(default)] f01: u8, #[musli(default)] f02: u8, #[musli(default)] f03: u8,
    #[musli(default)] f04: u8, #[musli(default)] f05: u8, #[musli(default)] f06: u8, #[musli(default)] f07: u8,
    #[musli(default)] f08: u8, #[musli(default)] f09: u8, #[musli(default)] f10: u8, #[musli(default)] f11: u8,
    #[musli(default)] f12: u8, #[musli(default)] f13: u8, #[musli(default)] f14: u8, #[musli(default)] f15: u8,
    #[musli(default)] f16: u8, #[musli(default)] f17: u8, #[musli(default)] f18: u8, #[musli(default)] f19: u8,
    #[musli(default)] f20: u8, #[musli(default)] f21: u8, #[musli(default)] f22: u8, #[musli(default)] f23: u8,
    #[musli(default)] f24: u8, #[musli(default)] f25: u8, #[musli(default)] f26: u8, #[musli(default)] f27: u8,
    #[musli(default)] f28: u8, #[musli(default)] f29: u8, #[musli(default)] f30: u8, #[musli(default)] f31: u8,
    #[musli(default)] f32: u8, #[musli(default)] f33: u8,
}

impl Many {
    fn all(&self) -> [u8; 34] {
        [
            self.f00, self.f01, self.f02, self.f03, self.f04, self.f05, self.f06, self.f07, self.f08,
            self.f09, self.f10, self.f11, self.f12, self.f13, self.f14, self.f15, self.f16, self.f17,
            self.f18, self.f19, self.f20, self.f21, self.f22, self.f23, self.f24, self.f25, self.f26,
            self.f27, self.f28, self.f29, self.f30, self.f31, self.f32, self.f33,
        ]
    }
}

const SUFFIX: [&[u8]; 2] = [b",7", b"\x01\xff\x00"];

/// Reads one message.
fn read<F: Format, T>(b: &[u8]) -> Result<(T, usize), String>
where
    T: Target + for<'de> Decode<'de, F::Mode, System>,
{
    if T::NAME == "untagged" {
        // Cannot be read from what cannot be cloned.
        return F::dec(b).map(|v| (v, 0));
    }
    F::dec_rest(b)
}

#[derive(Clone)]
enum Entry {
    /// A field, and which of its values.
    Field(usize, usize),
    Unknown(Key, Shape, Val),
}

fn message<F: Format, T>(fam: &mut Fam<'_>, text: bool, fields: &[Field], entries: &[Entry])
where
    T: Target + for<'de> Decode<'de, F::Mode, System>,
{
    if !fam.peek_mine() {
        fam.advance(1);
        return;
    }
    let (mut shapes, mut vals) = (Vec::new(), Vec::new());
    let mut want: Vec<Option<Val>> = fields.iter().map(|f| f.default.clone()).collect();
    let mut unknown = false;
    for e in entries {
        match e {
            Entry::Field(i, j) => {
                let f = &fields[*i];
                let v = &f.vals[j % f.vals.len()];
                shapes.push((f.key(text), f.shape.clone()));
                vals.push(v.clone());
                want[*i] = Some(v.clone());
            }
            Entry::Unknown(k, s, v) => {
                unknown = true;
                shapes.push((k.clone(), s.clone()));
                vals.push(v.clone());
            }
        }
    }
    // Only the binary mode of this one has a default.
    for (f, w) in fields.iter().zip(&mut want) {
        let there = entries.iter().any(|e| matches!(e, Entry::Field(i, _) if fields[*i].name == f.name));
        if text && f.name.ends_with('!') && !there {
            *w = None;
        }
    }
    let (s, v) = T::wrap(text, Shape::Struct(shapes), Val::Struct(vals));
    fam.case(
        || format!("{s} = {v}"),
        || {
            if !supports(F::KIND, F::OPT, &s) || !fits(F::OPT, &s, &v) {
                return Ok(0);
            }
            if F::KIND == Kind::Json && (v.non_finite() || v.null_in_some()) {
                return Ok(0);
            }
            let mut b = F::enc(&Dyn(&s, &v))?;
            let id = Fp::new().str(F::NAME).str(T::NAME).bytes(&b);
            let suffix = match F::KIND {
                _ if T::NAME == "untagged" => &[],
                Kind::Json => SUFFIX[0],
                _ => SUFFIX[1],
            };
            b.extend_from_slice(suffix);
            let got = read::<F, T>(&b);
            if want.iter().any(|w| w.is_none()) {
                if let Ok((got, _)) = got {
                    fail!("decoded {got:?} without a field");
                }
                return Ok(id.done());
            }
            let (got, rest) = match got {
                Ok(got) => got,
                // There is no telling how long it is.
                Err(_) if unknown && !F::KIND.skips() => return Ok(id.done()),
                Err(e) => fail!("{e} from {}", hex(&b)),
            };
            let want: Vec<Val> = want.iter().flatten().cloned().collect();
            let vals = got.vals()?;
            ensure!(vals == want, "decoded {got:?} from {}", hex(&b));
            ensure!(rest == suffix.len(), "{rest} bytes left of {}", suffix.len());
            Ok(id.done())
        },
    );
}

/// Every order of every subset of n.
fn arrangements(n: usize) -> Vec<Vec<usize>> {
    fn go(n: usize, v: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        out.push(v.clone());
        for i in 0..n {
            if !v.contains(&i) {
                v.push(i);
                go(n, v, out);
                v.pop();
            }
        }
    }
    let mut out = Vec::new();
    go(n, &mut Vec::new(), &mut out);
    out
}

/// A key which no field has.
fn unknown_keys(fields: &[Field], text: bool, tuple: bool) -> Vec<Key> {
    let all = match fields.first().map(|f| f.key(text)) {
        Some(Key::S(_)) => vec![S("unknown"), S("firs"), S("a\u{0}"), S("\u{1f600}\""), S("FIRST")],
        Some(Key::I(_)) => vec![I(-2), I(1), I(i32::MIN), I(i32::MAX)],
        Some(Key::U(_)) => vec![U(77), U(63), U(255), U(65536), U(usize::MAX)],
        // The type of keys of what has none is that of the mode.
        None if text && !tuple => vec![S("unknown"), S("")],
        None => vec![U(7), U(63), U(0)],
    };
    all.into_iter().filter(|k| fields.iter().all(|f| f.key(text) != *k)).collect()
}

fn target<F: Format, T>(c: &mut Check, text: bool)
where
    T: Target + for<'de> Decode<'de, F::Mode, System>,
{
    if F::KIND == Kind::Packed || T::BUFFERED && !F::KIND.self_descriptive() {
        return;
    }
    c.fam_sharded(format!("{}/{}", F::NAME, T::NAME), 2, move |fam| {
        let fields = T::fields();
        let n = fields.len();
        let arrangements = arrangements(n);
        let some = [
            (Shape::Unit, Val::Unit),
            (Shape::Bytes, Val::Bytes(vec![0xff; 70])),
            (
                Shape::Enum(vec![(U(0), Shape::Struct(vec![(U(0), Shape::seq(Shape::U16))]))]),
                Val::Enum(0, Box::new(Val::Struct(vec![Val::Seq(vec![Val::U(1), Val::U(300)])]))),
            ),
        ];
        let keys = unknown_keys(&fields, text, T::NAME == EmptyTuple::NAME);
        for a in &arrangements {
            for j in 0..2 {
                let e: Vec<_> = a.iter().map(|&i| Entry::Field(i, j)).collect();
                message::<F, T>(fam, text, &fields, &e);
                if !F::KIND.skips() && j > 0 {
                    continue;
                }
                for at in 0..=a.len() {
                    for (i, (s, v)) in some.iter().enumerate() {
                        for (k, key) in keys.iter().enumerate() {
                            if i > 0 && (k + i + at) % keys.len() != 0 && fam.quick() {
                                continue;
                            }
                            let mut e = e.clone();
                            e.insert(at, Entry::Unknown(key.clone(), s.clone(), v.clone()));
                            message::<F, T>(fam, text, &fields, &e);
                        }
                    }
                }
            }
        }
        if !F::KIND.skips() {
            return;
        }
        // Anything, anywhere.
        let tiny = if fam.thorough() {
            leaves()
        } else {
            vec![Shape::Unit, Shape::U64, Shape::Str]
        };
        let mut shapes = leaves();
        shapes.extend(containers(&leaves(), &[Shape::U8]));
        shapes.extend(nested(&tiny));
        shapes.extend([0, 1, 4, 40, 200].map(Shape::Arr));
        let key = &keys[0];
        for s in &shapes {
            for (i, v) in values(s, if fam.thorough() { 1 } else { 3 }).into_iter().enumerate() {
                for at in 0..=n {
                    if fam.quick() && i > 0 && at != i % (n + 1) {
                        continue;
                    }
                    let mut e: Vec<_> = (0..n).map(|f| Entry::Field(f, i)).collect();
                    e.insert(at, Entry::Unknown(key.clone(), s.clone(), v.clone()));
                    message::<F, T>(fam, text, &fields, &e);
                }
            }
        }
        // Two of them.
        let other = keys.last().unwrap();
        for (s1, v1) in &some {
            for (s2, v2) in &some {
                for a in 0..=n {
                    for b in 0..=n + 1 {
                        let mut e: Vec<_> = (0..n).rev().map(|f| Entry::Field(f, a)).collect();
                        e.insert(a, Entry::Unknown(key.clone(), s1.clone(), v1.clone()));
                        e.insert(b, Entry::Unknown(other.clone(), s2.clone(), v2.clone()));
                        message::<F, T>(fam, text, &fields, &e);
                    }
                }
            }
        }
    });
}

fn many<F: Format>(c: &mut Check, text: bool)
where
    Many: for<'de> Decode<'de, F::Mode, System>,
{
    c.fam(format!("{}/many", F::NAME), move |fam| {
        const NAMES: [&str; 34] = [
            "f00", "f01", "f02", "f03", "f04", "f05", "f06", "f07", "f08", "f09", "f10", "f11", "f12",
            "f13", "f14", "f15", "f16", "f17", "f18", "f19", "f20", "f21", "f22", "f23", "f24", "f25",
            "f26", "f27", "f28", "f29", "f30", "f31", "f32", "f33",
        ];
        // Fields from and to, in or out of order, and unknown ones after them.
        for from in 0..=34 {
            for to in from..=34 {
                for reverse in [false, true] {
                    for extra in [0, 1, 30, 63] {
                        fam.case(
                            || format!("{from}..{to} reverse={reverse} and {extra}"),
                            || {
                                let mut is: Vec<usize> = (from..to).collect();
                                if reverse {
                                    is.reverse();
                                }
                                let mut s: Vec<_> =
                                    is.iter().map(|&i| (field(text, NAMES[i], i), Shape::U8)).collect();
                                let mut v: Vec<_> = is.iter().map(|&i| Val::U(i as u128 + 100)).collect();
                                for i in 0..extra {
                                    let at = (i * 7) % (s.len() + 1);
                                    s.insert(at, (field(text, "zz", 77), Shape::opt(Shape::U8)));
                                    v.insert(at, Val::Opt(None));
                                }
                                let (s, v) = (Shape::Struct(s), Val::Struct(v));
                                if !fits(F::OPT, &s, &v) {
                                    return Ok(0);
                                }
                                let mut b = F::enc(&Dyn(&s, &v))?;
                                let suffix = SUFFIX[(F::KIND != Kind::Json) as usize];
                                b.extend_from_slice(suffix);
                                let got = F::dec_rest::<Many>(&b);
                                let (got, rest) = match got {
                                    Err(_) if extra > 0 && !F::KIND.skips() => return Ok(0),
                                    got => got?,
                                };
                                for (i, x) in got.all().into_iter().enumerate() {
                                    let want = if (from..to).contains(&i) { i as u8 + 100 } else { 0 };
                                    ensure!(x == want, "field {i} is {x}");
                                }
                                ensure!(rest == suffix.len(), "{rest} bytes left of {}", suffix.len());
                                Ok(Fp::new().str(F::NAME).bytes(&b).done())
                            },
                        );
                    }
                }
            }
        }
    });
}

fn main() {
    let mut c = Check::new(
        "P03",
        Level::Exploration,
        "every order of every subset of the fields x their values, with an unknown field of every shape in every place, and two of them in every pair of places; distinct by (format, type, message)",
    );
    c.assume("no field is there twice");
    macro_rules! targets {
        ($f:ident $text:literal; $($t:ty),*) => { $( target::<$f, $t>(&mut c, $text); )* };
    }
    macro_rules! each {
        ($text:literal; $($f:ident)*) => { $(
            targets!($f $text; Required, Defaults, AllDefault, Empty, EmptyTuple, TupleStruct, Strings, Negative,
                Numbers, Bytes, Outer, Vec<Defaults>, Option<Defaults>, Transparent, External, ExternalTuple,
                Internal, Adjacent, Untagged);
            many::<$f>(&mut c, $text);
        )* };
    }
    const _: fn() = || {
        fn both<T: Encode<Binary> + Encode<Text>>() {}
        both::<Required>();
    };
    each!(false; StorageVar StorageFix StorageFixBe StorageVarU16 StorageFixU8);
    each!(false; WireVar WireFix WireFixBe WireVarU16 WireFixU8);
    each!(false; DescVar DescFix DescFixBe DescVarU16 DescFixU8);
    each!(false; JsonBinary);
    each!(true; JsonText);
    c.run()
}
