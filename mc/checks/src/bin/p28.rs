//! P28: a derived representation has the names and the layout which its
//! attributes ask for.

#![allow(non_camel_case_types, non_snake_case, mixed_script_confusables, confusable_idents, uncommon_codepoints, private_interfaces, private_bounds)]
use eng::*;
use kit::*;
use musli::alloc::System;
use musli::{Decode, Encode};

kit::global_allocator!();

fn text<F: Format>() -> bool {
    std::any::TypeId::of::<F::Mode>() == std::any::TypeId::of::<musli::mode::Text>()
}

fn same<F: Format, T: InFormat<F> + Denote>(v: &T) -> CaseResult {
    let mut d = v.den(text::<F>());
    if T::NAME == "RenamedBytes" && F::enc(&d) != v.fenc() {
        d = d.bytes_as_seq();
    }
    match (v.fenc(), F::enc(&d)) {
        (Ok(a), Ok(b)) => {
            ensure!(a == b, "encoded as {}, while {d:?} is {}", hex(&a), hex(&b));
            Ok(if a.is_empty() { 0 } else { Fp::new().str(F::NAME).str(T::NAME).bytes(&a).done() })
        }
        (Err(_), Err(_)) => Ok(0),
        (a, b) => fail!("encoded as {a:?}, while {d:?} is {b:?}"),
    }
}

fn layout<F: Format, T: InFormat<F> + Denote>(c: &mut Check) {
    c.fam(format!("layout/{}/{}", T::NAME, F::NAME), |fam| {
        let all = T::samples(if fam.thorough() { 0 } else { 1 });
        for v in all {
            fam.case(|| format!("{} {v:?}", F::NAME), || same::<F, T>(&v));
        }
    });
}


// ---- renaming

/// The words of an identifier: separated by underscores, or starting with an
/// uppercase letter.
fn words(s: &str) -> Vec<String> {
    let mut out: Vec<String> = Vec::new();
    let mut open = true;
    for c in s.chars() {
        if c == '_' {
            open = true;
        } else if open || c.is_uppercase() {
            out.push(c.to_string());
            open = false;
        } else {
            out.last_mut().unwrap().push(c);
        }
    }
    out
}

/// The name a rule gives.
fn renamed(rule: &str, index: usize, ident: &str) -> Den {
    let ident = raw(ident);
    let w = words(ident);
    let lower = |w: &[String]| w.iter().map(|w| w.to_lowercase()).collect::<Vec<_>>();
    let upper = |w: &[String]| w.iter().map(|w| w.to_uppercase()).collect::<Vec<_>>();
    let capital = |w: &[String]| -> String {
        w.iter()
            .map(|w| {
                let first: String = w.chars().take(1).collect();
                let rest: String = w.chars().skip(1).collect();
                first.to_uppercase() + &each_lower(&rest)
            })
            .collect()
    };
    Den::Str(match rule {
        // The fields of a tuple have no names.
        "index" => return Den::Usize(index),
        _ if ident.parse() == Ok(index) => return Den::Usize(index),
        "name" => ident.to_string(),
        "PascalCase" => capital(&w),
        "camelCase" => match w.split_first() {
            Some((first, rest)) => each_lower(first) + &capital(rest),
            None => String::new(),
        },
        "snake_case" => lower(&w).join("_"),
        "SCREAMING_SNAKE_CASE" => upper(&w).join("_"),
        "kebab-case" => lower(&w).join("-"),
        "SCREAMING-KEBAB-CASE" => upper(&w).join("-"),
        _ => unreachable!(),
    })
}

/// Without regard to where a character is in its word.
fn each_lower(s: &str) -> String {
    s.chars().flat_map(char::to_lowercase).collect()
}

#[path = "../p28_idents.rs"]
#[macro_use]
mod idents;

macro_rules! ident_types {
    ($($g:ident { $($v:ident)* })*) => {
        /// The identifiers of every group.
        const GROUPS: &[&[&str]] = &[ $( &[$(stringify!($v)),*] ),* ];
        rules! { ident_module; $($g { $($v)* })* }
    };
}
macro_rules! rules {
    ($m:ident; $($rest:tt)*) => {
        $m! { name_ "name"; $($rest)* }
        $m! { pascal "PascalCase"; $($rest)* }
        $m! { camel "camelCase"; $($rest)* }
        $m! { snake "snake_case"; $($rest)* }
        $m! { scream "SCREAMING_SNAKE_CASE"; $($rest)* }
        $m! { kebab "kebab-case"; $($rest)* }
        $m! { skebab "SCREAMING-KEBAB-CASE"; $($rest)* }
        $m! { index "index"; $($rest)* }
    };
}
macro_rules! ident_module {
    ($m:ident $rule:literal; $($g:ident { $($v:ident)* })*) => {
        pub mod $m {
            use super::*;
            $(
                pub mod $g {
                    use super::super::*;
                    #[derive(Debug, Clone, Copy, PartialEq, Encode, Decode)]
                    #[musli(name_all = $rule)]
                    pub enum Of { $($v),* }
                    pub const ALL: &[Of] = &[$(Of::$v),*];
                    pub const NAMES: &[&str] = &[$(stringify!($v)),*];
                    #[derive(Debug, Clone, PartialEq, Encode, Decode, Default)]
                    #[musli(name_all = $rule)]
                    pub struct Fields { $( #[musli(default, skip_encoding_if = zero)] pub $v: u8 ),* }
                    impl Fields {
                        pub fn one(i: usize) -> Self {
                            let mut v = Self::default();
                            $( if NAMES[i] == stringify!($v) { v.$v = 200; } )*
                            v
                        }
                    }
                }
            )*
            pub fn add<F: Format>(c: &mut Check)
            where
                $( $g::Of: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>, )*
                $( $g::Fields: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>, )*
            {
                $( super::idents_of::<F, $g::Of, $g::Fields>(c, $rule, stringify!($g), $g::NAMES, $g::ALL, $g::Fields::one); )*
            }
        }
    };
}
fn zero(v: &u8) -> bool {
    *v == 0
}
idents!(ident_types);

fn idents_of<F: Format, E, S>(
    c: &mut Check,
    rule: &'static str,
    g: &'static str,
    names: &'static [&'static str],
    all: &'static [E],
    one: fn(usize) -> S,
) where
    E: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System> + PartialEq + std::fmt::Debug + Sync,
    S: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System> + PartialEq + std::fmt::Debug + 'static,
{
    c.fam(format!("names/{rule}/{g}/{}", F::NAME), move |fam| {
        for (i, (n, v)) in names.iter().zip(all).enumerate() {
            let d = renamed(rule, i, n);
            fam.case(
                || format!("variant {n} by {rule} in {}", F::NAME),
                || {
                    let (a, b) = (F::enc(v)?, F::enc(&d)?);
                    ensure!(a == b, "encoded as {}, while {d:?} is {}", hex(&a), hex(&b));
                    let got: E = F::dec(&b)?;
                    ensure!(got == *v, "{d:?} is decoded as {got:?}");
                    Ok(Fp::new().str(F::NAME).str(rule).str(n).bytes(&a).done())
                },
            );
            fam.case(
                || format!("field {n} by {rule} in {}", F::NAME),
                || {
                    let v = one(i);
                    let d = Den::Map(vec![(d.clone(), Den::U8(200))]);
                    let (a, b) = (F::enc(&v)?, F::enc(&d)?);
                    ensure!(a == b, "encoded as {}, while {d:?} is {}", hex(&a), hex(&b));
                    let got: S = F::dec(&b)?;
                    ensure!(got == v, "{d:?} is decoded as {got:?}");
                    Ok(Fp::new().str(F::NAME).str(rule).str(n).bytes(&a).u64(1).done())
                },
            );
        }
        // What is not the name of any of them is nobody else's.
        if rule == "index" {
            return;
        }
        let own: Vec<Den> = names.iter().enumerate().map(|(i, n)| renamed(rule, i, n)).collect();
        let own: std::collections::HashSet<String> = own.iter().map(|d| format!("{d:?}")).collect();
        for n in GROUPS.iter().flat_map(|g| g.iter()) {
            let d = renamed("name", usize::MAX, n);
            if own.contains(&format!("{d:?}")) {
                continue;
            }
            fam.case(
                || format!("{n} is not a variant by {rule} in {}", F::NAME),
                || {
                    let b = F::enc(&d)?;
                    if let Ok(v) = F::dec::<E>(&b) {
                        fail!("{d:?} is decoded as {v:?}");
                    }
                    Ok(Fp::new().str(F::NAME).str(rule).str(n).bytes(&b).done())
                },
            );
        }
    });
}

// ---- every rule in every kind of type, in one or all of the modes

/// The rule in effect.
fn rule_in(mode: &str, rule: &'static str, text: bool) -> &'static str {
    match (mode, text) {
        ("", _) | ("Text", true) | ("Binary", false) => rule,
        (_, true) => "name",
        (_, false) => "index",
    }
}
/// The fields in order with their names by a rule; those which are `None` are
/// not encoded.
fn ruled(rule: &str, t: bool, fields: &[(&str, Option<&dyn Denote>)]) -> Den {
    let m = fields.iter().enumerate();
    Den::Map(m.filter_map(|(i, (n, v))| Some((renamed(rule, i, n), (*v)?.den(t)))).collect())
}

macro_rules! kinds {
    ($($m:ident [$($mode:tt)*] $rule:literal;)*) => { $(
        pub mod $m {
            use super::*;
            const MODE: &str = kinds!(@mode $($mode)*);
            fn r(t: bool) -> &'static str { rule_in(MODE, $rule, t) }

            #[allow(non_snake_case)]
            #[derive(Debug, Clone, PartialEq, Encode, Decode)]
            #[musli($($mode)* name_all = $rule)]
            pub struct Strukt {
                first_field: u8,
                #[musli(skip)] skipped: u8,
                SecondField: u16,
                #[musli(default, skip_encoding_if = zero)] maybe_absent: u8,
                r#type: String,
            }
            sample!(Strukt { first_field: u8, skipped: u8, SecondField: u16, maybe_absent: u8, r#type: String });
            impl Denote for Strukt {
                fn den(&self, t: bool) -> Den {
                    ruled(r(t), t, &[
                        ("first_field", Some(&self.first_field)),
                        ("skipped", None),
                        ("SecondField", Some(&self.SecondField)),
                        ("maybe_absent", (self.maybe_absent != 0).then_some(&self.maybe_absent as _)),
                        ("r#type", Some(&self.r#type)),
                    ])
                }
            }
            impl Kinds for Strukt {
                const NAME: &'static str = concat!(stringify!($m), "::Strukt");
                fn expected(&self) -> Self { Self { skipped: 0, ..self.clone() } }
            }

            #[derive(Debug, Clone, PartialEq, Encode, Decode)]
            #[musli($($mode)* packed)]
            pub struct Packed { one: u8, two: String, four: (u8, u16) }
            sample!(Packed { one: u8, two: String, four: (u8, u16) });
            impl Denote for Packed {
                fn den(&self, t: bool) -> Den {
                    match (MODE, t) {
                        ("Text", false) => ruled("index", t, &[("one", Some(&self.one)), ("two", Some(&self.two)), ("four", Some(&self.four))]),
                        ("Binary", true) => ruled("name", t, &[("one", Some(&self.one)), ("two", Some(&self.two)), ("four", Some(&self.four))]),
                        _ => Den::Pack(vec![self.one.den(t), self.two.den(t), self.four.den(t)]),
                    }
                }
            }
            impl Kinds for Packed {
                const NAME: &'static str = concat!(stringify!($m), "::Packed");
            }

            #[derive(Debug, Clone, PartialEq, Encode, Decode)]
            #[musli($($mode)* name_all = $rule)]
            pub enum External {
                UnitVariant,
                First_One { some_field: u8, other: String },
                #[musli($($mode)* name_all = $rule)] AllTheSame { some_field: u8, #[musli(skip)] lost: u8, r#fn: u16 },
                Tup(u8, u16),
                #[musli($($mode)* transparent)] Through { inner: u32 },
                #[musli(name_all = "PascalCase")] InPascal { some_field: u8 },
                r#Self_ {},
            }
            sample!(External: UnitVariant {}, First_One { some_field: u8, other: String }, AllTheSame { some_field: u8, lost: u8, r#fn: u16 },
                Tup { 0: u8, 1: u16 }, Through { inner: u32 }, InPascal { some_field: u8 }, Self_ {});
            fn body(v: &External, t: bool) -> (usize, &'static str, Den) {
                let plain = if t { "name" } else { "index" };
                match v {
                    External::UnitVariant => (0, "UnitVariant", Den::Map(vec![])),
                    External::First_One { some_field, other } => (1, "First_One", ruled(plain, t, &[("some_field", Some(some_field)), ("other", Some(other))])),
                    External::AllTheSame { some_field, lost: _, r#fn } => {
                        (2, "AllTheSame", ruled(r(t), t, &[("some_field", Some(some_field)), ("lost", None), ("r#fn", Some(r#fn))]))
                    }
                    External::Tup(a, b) => (3, "Tup", ruled(plain, t, &[("0", Some(a)), ("1", Some(b))])),
                    External::Through { inner } => (4, "Through", match (MODE, t) {
                        ("Text", false) => ruled("index", t, &[("inner", Some(inner))]),
                        ("Binary", true) => ruled("name", t, &[("inner", Some(inner))]),
                        _ => inner.den(t),
                    }),
                    External::InPascal { some_field } => (5, "InPascal", ruled("PascalCase", t, &[("some_field", Some(some_field))])),
                    External::r#Self_ {} => (6, "Self_", Den::Map(vec![])),
                }
            }
            impl Denote for External {
                fn den(&self, t: bool) -> Den {
                    let (i, n, d) = body(self, t);
                    Den::var(renamed(r(t), i, n), d)
                }
            }
            impl Kinds for External {
                const NAME: &'static str = concat!(stringify!($m), "::External");
                fn expected(&self) -> Self {
                    match self.clone() {
                        Self::AllTheSame { some_field, lost: _, r#fn } => Self::AllTheSame { some_field, lost: 0, r#fn },
                        v => v,
                    }
                }
            }

            #[derive(Debug, Clone, PartialEq, Encode, Decode)]
            #[musli($($mode)* name_all = $rule)]
            #[musli(tag = "the_tag", content = "the_content")]
            pub enum Adjacent {
                UnitVariant,
                First_One { some_field: u8, other: String },
                #[musli($($mode)* name_all = $rule)] AllTheSame { some_field: u8, r#fn: u16 },
                Tup(u8, u16),
                #[musli(transparent)] Through { inner: u32 },
            }
            sample!(Adjacent: UnitVariant {}, First_One { some_field: u8, other: String }, AllTheSame { some_field: u8, r#fn: u16 },
                Tup { 0: u8, 1: u16 }, Through { inner: u32 });
            impl Denote for Adjacent {
                fn den(&self, t: bool) -> Den {
                    let plain = if t { "name" } else { "index" };
                    let (i, n, d) = match self {
                        Adjacent::UnitVariant => (0, "UnitVariant", Den::Map(vec![])),
                        Adjacent::First_One { some_field, other } => (1, "First_One", ruled(plain, t, &[("some_field", Some(some_field)), ("other", Some(other))])),
                        Adjacent::AllTheSame { some_field, r#fn } => {
                            (2, "AllTheSame", ruled(r(t), t, &[("some_field", Some(some_field)), ("fn", Some(r#fn))]))
                        }
                        Adjacent::Tup(a, b) => (3, "Tup", ruled(plain, t, &[("0", Some(a)), ("1", Some(b))])),
                        Adjacent::Through { inner } => (4, "Through", inner.den(t)),
                    };
                    Den::Map(vec![(Den::str("the_tag"), renamed(r(t), i, n)), (Den::str("the_content"), d)])
                }
            }
            impl Kinds for Adjacent {
                const NAME: &'static str = concat!(stringify!($m), "::Adjacent");
                const WHERE: Where = Where::SelfDescriptive;
            }

            #[derive(Debug, Clone, PartialEq, Encode, Decode)]
            #[musli($($mode)* name_all = $rule)]
            #[musli(tag = "the_tag")]
            pub enum Internal {
                UnitVariant,
                #[musli(name_all = "camelCase")] First_One { some_field: u8, other: String },
                #[musli(name_all = "name")] AllTheSame { some_field: u8, #[musli(default, skip_encoding_if = zero)] b: u8, r#fn: u16 },
            }
            sample!(Internal: UnitVariant {}, First_One { some_field: u8, other: String }, AllTheSame { some_field: u8, b: u8, r#fn: u16 });
            impl Denote for Internal {
                fn den(&self, t: bool) -> Den {
                    let (i, n, d) = match self {
                        Internal::UnitVariant => (0, "UnitVariant", Den::Map(vec![])),
                        Internal::First_One { some_field, other } => (1, "First_One", ruled("camelCase", t, &[("some_field", Some(some_field)), ("other", Some(other))])),
                        Internal::AllTheSame { some_field, b, r#fn } => {
                            (2, "AllTheSame", ruled("name", t, &[("some_field", Some(some_field)), ("b", (*b != 0).then_some(b as _)), ("fn", Some(r#fn))]))
                        }
                    };
                    d.tagged(Den::str("the_tag"), renamed(r(t), i, n))
                }
            }
            impl Kinds for Internal {
                const NAME: &'static str = concat!(stringify!($m), "::Internal");
                const WHERE: Where = Where::SelfDescriptive;
            }

            #[derive(Debug, Clone, PartialEq, Encode, Decode)]
            #[musli(untagged)]
            #[musli($($mode)* name_all = $rule)]
            pub enum Untagged {
                First_One { some_field: u8, other: String },
                #[musli($($mode)* name_all = $rule)] AllTheSame { third_field: u8, r#fn: (u8, u16), third: u8 },
            }
            sample!(Untagged: First_One { some_field: u8, other: String }, AllTheSame { third_field: u8, r#fn: (u8, u16), third: u8 });
            impl Denote for Untagged {
                fn den(&self, t: bool) -> Den {
                    match self {
                        Untagged::First_One { some_field, other } => ruled(if t { "name" } else { "index" }, t, &[("some_field", Some(some_field)), ("other", Some(other))]),
                        Untagged::AllTheSame { third_field, r#fn, third } => {
                            ruled(r(t), t, &[("third_field", Some(third_field)), ("fn", Some(r#fn)), ("third", Some(third))])
                        }
                    }
                }
            }
            impl Kinds for Untagged {
                const NAME: &'static str = concat!(stringify!($m), "::Untagged");
                const WHERE: Where = Where::Clone;
            }
            pub fn add<F: Format>(c: &mut Check)
            where
                Strukt: InKind<F>, Packed: InKind<F>, External: InKind<F>, Adjacent: InKind<F>, Internal: InKind<F>, Untagged: InKind<F>,
            {
                kind::<F, Strukt>(c);
                kind::<F, Packed>(c);
                kind::<F, External>(c);
                kind::<F, Adjacent>(c);
                kind::<F, Internal>(c);
                kind::<F, Untagged>(c);
            }
        }
    )* };
    (@mode) => { "" };
    (@mode $m:ident,) => { stringify!($m) };
}

// ---- what is accepted

#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(name(type = u32))]
pub enum PatternEnum {
    #[musli(name = 1, pattern = (1..=3 | 7))]
    A,
    #[musli(name = 10)]
    B { x: u8 },
    #[musli(name = 5, pattern = 4..=6)]
    C(u8),
}
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(name(type = u32))]
pub enum PatternDefault {
    #[musli(name = 1, pattern = (1..=3 | 7))]
    A,
    #[musli(name = 10)]
    B,
    #[musli(default, name = 0)]
    Other,
}
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(name_all = "kebab-case")]
pub enum StrDefault {
    #[musli(pattern = ("first-one" | "1st"))]
    FirstOne,
    SecondOne,
    #[musli(default)]
    NoneOfThem,
}
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(name(type = u32))]
pub struct PatternFields {
    #[musli(name = 1, pattern = (1..=3 | 7))]
    a: u8,
    #[musli(name = 10, default)]
    b: u8,
    #[musli(name = 5, pattern = 4..=6, default = nine)]
    c: u8,
}
fn nine() -> u8 {
    9
}
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(name_all = "camelCase")]
pub struct Defaults {
    must_be: u8,
    #[musli(default)]
    by_trait: u16,
    #[musli(default = nine)]
    by_path: u8,
    #[musli(skip)]
    never: u8,
    #[musli(skip, default = nine)]
    never_by_path: u8,
    #[musli(default, skip_encoding_if = String::is_empty)]
    if_filled: String,
    also_must: i8,
}
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(tag = "tag")]
#[musli(Binary, name_all = "name")]
pub enum InternalDefaults {
    #[musli(name_all = "camelCase")]
    First {
        must_be: u8,
        #[musli(default)]
        by_trait: u16,
        #[musli(default = nine)]
        by_path: u8,
        #[musli(skip)]
        never: u8,
        #[musli(skip, default = nine)]
        never_by_path: u8,
        #[musli(default, skip_encoding_if = String::is_empty)]
        if_filled: String,
        also_must: i8,
    },
    Second,
}

fn accept<F: Format, T>(fam: &mut Fam<'_>, d: Den, want: Option<T>)
where
    T: for<'de> Decode<'de, F::Mode, System> + PartialEq + std::fmt::Debug,
{
    fam.case(
        || format!("{} {d:?} is {want:?}", F::NAME),
        || {
            let b = F::enc(&d)?;
            let got = no_panic(|| F::dec::<T>(&b))?;
            ensure!(got.as_ref().ok() == want.as_ref(), "{} is decoded as {got:?}", hex(&b));
            Ok(Fp::new().str(F::NAME).str(std::any::type_name::<T>()).bytes(&b).done())
        },
    );
}

fn accepts<F: Format>(c: &mut Check)
where
    Defaults: for<'de> Decode<'de, F::Mode, System>,
    InternalDefaults: for<'de> Decode<'de, F::Mode, System>,
    PatternEnum: for<'de> Decode<'de, F::Mode, System>,
    PatternDefault: for<'de> Decode<'de, F::Mode, System>,
    PatternFields: for<'de> Decode<'de, F::Mode, System>,
    StrDefault: for<'de> Decode<'de, F::Mode, System>,
{
    let t = text::<F>();
    c.fam(format!("accept/patterns/{}", F::NAME), move |fam| {
        let most = fam.bound(2_000, 70_000) as u32;
        let keys: Vec<u32> = (0..=most).chain([65535, 65536, u32::MAX - 1, u32::MAX]).collect();
        let in_a = |k: u32| matches!(k, 1 | 2 | 3 | 7);
        let in_c = |k: u32| matches!(k, 4 | 5 | 6);
        for &k in &keys {
            let unit = Den::var(Den::U32(k), Den::Map(vec![]));
            let x = Den::var(Den::U32(k), Den::Map(vec![(Den::named(t, 0, "x"), Den::U8(77))]));
            let tup = Den::var(Den::U32(k), Den::Map(vec![(Den::Usize(0), Den::U8(78))]));
            accept::<F, PatternEnum>(fam, unit, in_a(k).then_some(PatternEnum::A));
            // Whether a variant without fields has any that are ignored is
            // up to the format.
            if !in_a(k) {
                accept::<F, PatternEnum>(fam, x, match k {
                    10 => Some(PatternEnum::B { x: 77 }),
                    // The first field has no name in the binary mode.
                    _ if in_c(k) && !t => Some(PatternEnum::C(77)),
                    _ => None,
                });
                if k != 10 {
                    accept::<F, PatternEnum>(fam, tup, in_c(k).then_some(PatternEnum::C(78)));
                }
            }
            accept::<F, PatternDefault>(fam, Den::U32(k), Some(match k {
                10 => PatternDefault::B,
                _ if in_a(k) => PatternDefault::A,
                _ => PatternDefault::Other,
            }));
            for &l in &[1, 3, 7, 10, 4, 6] {
                if in_a(l) && in_a(k) || in_c(l) && in_c(k) || k == l {
                    continue;
                }
                let known = |k| in_a(k) || in_c(k) || k == 10;
                if !F::KIND.skips() && !known(k) {
                    continue;
                }
                let d = Den::Map(vec![(Den::U32(k), Den::U8(50)), (Den::U32(l), Den::U8(51))]);
                let find = |f: &dyn Fn(u32) -> bool| if f(k) { Some(50) } else if f(l) { Some(51) } else { None };
                let want = find(&in_a).map(|a| PatternFields {
                    a,
                    b: find(&|k| k == 10).unwrap_or(0),
                    c: find(&in_c).unwrap_or(9),
                });
                accept::<F, PatternFields>(fam, d, want);
            }
        }
        for n in ["first-one", "1st", "second-one", "none-of-them", "", "FirstOne", "first-one ", "first_one", "first-on", "2nd", "\u{e9}"] {
            accept::<F, StrDefault>(fam, Den::str(n), Some(match n {
                "first-one" | "1st" => StrDefault::FirstOne,
                "second-one" => StrDefault::SecondOne,
                _ => StrDefault::NoneOfThem,
            }));
        }
    });
    c.fam(format!("accept/absent/{}", F::NAME), move |fam| {
        let fields = [
            ("mustBe", Den::U8(1)),
            ("byTrait", Den::U16(2)),
            ("byPath", Den::U8(3)),
            ("ifFilled", Den::str("4")),
            ("alsoMust", Den::I8(-5)),
        ];
        // Every subset of the fields, in every order.
        for set in 0u32..32 {
            let here: Vec<usize> = (0..5).filter(|i| set & (1 << i) != 0).collect();
            let mut orders = Vec::new();
            kit::rng::permutations(here.len(), |o| orders.push(o.to_vec()));
            for order in orders {
                if !F::KIND.reorders() && order.windows(2).any(|w| w[0] > w[1]) {
                    continue;
                }
                let m: Vec<_> = order
                    .iter()
                    .map(|&i| (Den::str(fields[here[i]].0), fields[here[i]].1.clone()))
                    .collect();
                let has = |i: usize| set & (1 << i) != 0;
                let want = (has(0) && has(4)).then(|| Defaults {
                    must_be: 1,
                    by_trait: if has(1) { 2 } else { 0 },
                    by_path: if has(2) { 3 } else { 9 },
                    never: 0,
                    never_by_path: 9,
                    if_filled: if has(3) { "4".into() } else { String::new() },
                    also_must: -5,
                });
                if F::KIND.self_descriptive() {
                    for at in 0..=m.len() {
                        let mut m = m.clone();
                        m.insert(at, (Den::str("tag"), Den::str("First")));
                        let want = want.clone().map(|d| InternalDefaults::First {
                            must_be: d.must_be,
                            by_trait: d.by_trait,
                            by_path: d.by_path,
                            never: d.never,
                            never_by_path: d.never_by_path,
                            if_filled: d.if_filled,
                            also_must: d.also_must,
                        });
                        accept::<F, InternalDefaults>(fam, Den::Map(m), want);
                    }
                }
                accept::<F, Defaults>(fam, Den::Map(m), want);
            }
        }
    });
}

trait Kinds: Sample + PartialEq + std::fmt::Debug + Denote + 'static {
    const NAME: &'static str;
    const WHERE: Where = Where::Any;
    fn expected(&self) -> Self {
        self.clone()
    }
}
trait InKind<F: Format>: Kinds + Encode<F::Mode> {
    fn kdec(b: &[u8]) -> Result<Self, String>;
}
impl<F: Format, T: Kinds + Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>> InKind<F> for T {
    fn kdec(b: &[u8]) -> Result<Self, String> {
        F::dec(b)
    }
}

fn kind<F: Format, T: InKind<F>>(c: &mut Check) {
    c.fam(format!("rules/{}/{}", T::NAME, F::NAME), |fam| {
        for v in T::samples(if fam.thorough() { 0 } else { 1 }) {
            fam.case(
                || format!("{} {v:?}", F::NAME),
                || {
                    let d = v.den(text::<F>());
                    let (a, b) = match (F::enc(&v), F::enc(&d)) {
                        (Ok(a), Ok(b)) => (a, b),
                        (Err(_), Err(_)) => return Ok(0),
                        (a, b) => fail!("encoded as {a:?}, while {d:?} is {b:?}"),
                    };
                    ensure!(a == b, "encoded as {}, while {d:?} is {}", hex(&a), hex(&b));
                    if T::WHERE.ok(F::KIND) {
                        let got = T::kdec(&a)?;
                        ensure!(got == v.expected(), "{d:?} is decoded as {got:?}");
                    }
                    Ok(Fp::new().str(F::NAME).str(T::NAME).bytes(&a).done())
                },
            );
        }
    });
}

kinds! {
    all_name [] "name"; all_pascal [] "PascalCase"; all_camel [] "camelCase"; all_snake [] "snake_case";
    all_scream [] "SCREAMING_SNAKE_CASE"; all_kebab [] "kebab-case"; all_skebab [] "SCREAMING-KEBAB-CASE"; all_index [] "index";
    text_name [Text,] "name"; text_pascal [Text,] "PascalCase"; text_camel [Text,] "camelCase"; text_snake [Text,] "snake_case";
    text_scream [Text,] "SCREAMING_SNAKE_CASE"; text_kebab [Text,] "kebab-case"; text_skebab [Text,] "SCREAMING-KEBAB-CASE"; text_index [Text,] "index";
    bin_name [Binary,] "name"; bin_pascal [Binary,] "PascalCase"; bin_camel [Binary,] "camelCase"; bin_snake [Binary,] "snake_case";
    bin_scream [Binary,] "SCREAMING_SNAKE_CASE"; bin_kebab [Binary,] "kebab-case"; bin_skebab [Binary,] "SCREAMING-KEBAB-CASE"; bin_index [Binary,] "index";
}
macro_rules! add_kinds {
    ($c:ident $f:ident; $($m:ident)*) => { $( $m::add::<$f>(&mut $c); )* };
}
macro_rules! all {
    ($c:ident; $($f:ident)*) => { $(
        each_zoo!(types $c $f);
    )* };
}
// ---- attributes which apply to one mode or to one direction

#[path = "../p28_scopes.rs"]
mod scopes;

fn mode<F: Format>() -> &'static str {
    let id = std::any::TypeId::of::<F::Mode>();
    match () {
        _ if id == std::any::TypeId::of::<musli::mode::Text>() => "T",
        _ if id == std::any::TypeId::of::<musli::mode::Binary>() => "B",
        _ => "C",
    }
}

/// Which of the attributes decides in a mode ("B", "T" or "C") and a direction
/// ("e" or "d"): those of the mode come first, those of the direction first
/// among them.
fn decides<T: Copy>(set: &[T], scope: impl Fn(T) -> (&'static str, &'static str), mode: &str, dir: &str) -> Option<T> {
    for m in [mode, ""] {
        for d in [dir, ""] {
            if let Some(&t) = set.iter().find(|&&t| scope(t) == (m, d)) {
                return Some(t);
            }
        }
    }
    None
}

/// Names by some of the sets of attributes.
trait Part: Sized + PartialEq + std::fmt::Debug + 'static {
    const NAME: &'static str;
    fn all() -> Vec<(usize, Self)>;
    fn with(name: &str, x: Den) -> Den;
}

fn part<F: Format, T>(c: &mut Check, p: usize)
where
    T: Part + Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
{
    c.fam(format!("scopes/{}/{p}/{}", T::NAME, F::NAME), |fam| {
        let m = mode::<F>();
        let name = |k: usize, dir: &str| match decides(scopes::SETS[k], |t| t, m, dir) {
            Some((m, d)) => format!("{k}{m}{d}"),
            None => format!("f{k}"),
        };
        let x = || Den::named(m == "T", 0, "x");
        for (k, v) in T::all() {
            let set = scopes::SETS[k];
            fam.case(
                || format!("{set:?} of a {} in {}", T::NAME, F::NAME),
                || {
                    let d = T::with(&name(k, "e"), x());
                    let (a, b) = (F::enc(&v)?, F::enc(&d)?);
                    ensure!(a == b, "encoded as {}, while {d:?} is {}", hex(&a), hex(&b));
                    let right = name(k, "d");
                    let mut names: Vec<String> = set.iter().map(|(m, d)| format!("{k}{m}{d}")).collect();
                    names.push(format!("f{k}"));
                    for n in names {
                        let d = T::with(&n, x());
                        let got = F::dec::<T>(&F::enc(&d)?);
                        // A field of another name is not this one.
                        ensure!(
                            (got.as_ref().ok() == Some(&v)) == (n == right),
                            "{d:?} is decoded as {got:?}, while the name is {right}"
                        );
                    }
                    Ok(Fp::new().str(F::NAME).str(T::NAME).u64(k as u64).done())
                },
            );
        }
    });
}

/// Renaming rules by a pair of attributes.
trait Whole: Sized + PartialEq + std::fmt::Debug + 'static {
    const SET: &'static [(&'static str, &'static str, &'static str)];
    fn new() -> Self;
}

fn whole<F: Format, T>(c: &mut Check)
where
    T: Whole + Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
{
    c.fam(format!("scopes/{:?}/{}", T::SET, F::NAME), |fam| {
        fam.case(
            || format!("{:?} in {}", T::SET, F::NAME),
            || {
                let m = mode::<F>();
                let den = |dir| {
                    let rule = match decides(T::SET, |t| (t.0, t.1), m, dir) {
                        Some((_, _, rule)) => rule,
                        None if m == "T" => "name",
                        None => "index",
                    };
                    Den::Map(vec![(renamed(rule, 0, "first_field"), Den::U8(77))])
                };
                let v = T::new();
                let d = den("e");
                let (a, b) = (F::enc(&v)?, F::enc(&d)?);
                ensure!(a == b, "encoded as {}, while {d:?} is {}", hex(&a), hex(&b));
                let d = den("d");
                let got: T = F::dec(&F::enc(&d)?)?;
                ensure!(got == v, "{d:?} is decoded as {got:?}");
                Ok(Fp::new().str(F::NAME).str(&format!("{:?}", T::SET)).bytes(&a).done())
            },
        );
    });
}

macro_rules! all_scopes {
    ($c:ident; $($f:ident)*) => { $( scopes::add::<$f>(&mut $c); )* };
}
macro_rules! all_accepts {
    ($c:ident; $($f:ident)*) => { $( accepts::<$f>(&mut $c); )* };
}
macro_rules! all_kinds {
    ($c:ident; $($f:ident)*) => { $(
        add_kinds!($c $f; all_name all_pascal all_camel all_snake all_scream all_kebab all_skebab all_index
            text_name text_pascal text_camel text_snake text_scream text_kebab text_skebab text_index
            bin_name bin_pascal bin_camel bin_snake bin_scream bin_kebab bin_skebab bin_index);
    )* };
}
macro_rules! all_names {
    ($c:ident; $($f:ident)*) => { $(
        name_::add::<$f>(&mut $c);
        pascal::add::<$f>(&mut $c);
        camel::add::<$f>(&mut $c);
        snake::add::<$f>(&mut $c);
        scream::add::<$f>(&mut $c);
        kebab::add::<$f>(&mut $c);
        skebab::add::<$f>(&mut $c);
        index::add::<$f>(&mut $c);
    )* };
}
macro_rules! types {
    ($c:ident $f:ident; $($t:ident)*) => { $( layout::<$f, $t>(&mut $c); )* };
}

fn main() {
    let mut c = Check::new(
        "P28",
        Level::Exploration,
        "a value deriving Encode is encoded as its attributes ask for, written by hand through the Encoder trait, and exactly such names decode as it",
    );
    all!(c; StorageVar StorageFix StorageText WireVar WireText DescVar DescText JsonText JsonBinary PackedDef PackedText);
    all_kinds!(c; StorageVar WireText DescVar DescText JsonText JsonBinary PackedDef);
    all_names!(c; DescVar JsonText);
    all_scopes!(c; StorageVar WireText DescCustom JsonText JsonCustom);
    all_accepts!(c; StorageVar StorageFix StorageText WireVar WireText DescVar DescText JsonText JsonBinary);
    c.run()
}
