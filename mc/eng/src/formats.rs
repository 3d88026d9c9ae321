//! The formats under test and their option sets.

use musli::alloc::{Allocator, System};
use musli::mode::{Binary, Text};
use musli::options::{self, ByteOrder, Float, Integer, Options, Width};
use musli::{Context, Decode, Encode};

use crate::dynv::{with_shape, Dyn, Out};
use crate::shape::{Key, Shape, Val};

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub enum Kind {
    Packed,
    Storage,
    Wire,
    Descriptive,
    Json,
}

impl Kind {
    /// Field order may change, fields with defaults may be missing.
    pub fn reorders(self) -> bool {
        self != Kind::Packed
    }
    /// Unknown fields are skipped, any value can be skipped.
    pub fn skips(self) -> bool {
        matches!(self, Kind::Wire | Kind::Descriptive | Kind::Json)
    }
    pub fn self_descriptive(self) -> bool {
        matches!(self, Kind::Descriptive | Kind::Json)
    }
}

/// A format with its options.
pub trait Format: Copy + Send + Sync + 'static {
    type Mode: 'static;
    const NAME: &'static str;
    const KIND: Kind;
    const OPT: Options;

    fn enc<T: ?Sized + Encode<Self::Mode>>(v: &T) -> Result<Vec<u8>, String>;
    fn dec<'de, T: Decode<'de, Self::Mode, System>>(b: &'de [u8]) -> Result<T, String>;
    /// Also returns how many bytes were left in the reader.
    fn dec_rest<'de, T: Decode<'de, Self::Mode, System>>(
        b: &'de [u8],
    ) -> Result<(T, usize), String>;
    fn enc_with<C: Context, T: ?Sized + Encode<Self::Mode>>(
        cx: C,
        v: &T,
    ) -> Result<Vec<u8>, C::Error>;
    fn enc_slice_with<C: Context, T: ?Sized + Encode<Self::Mode>>(
        cx: C,
        out: &mut [u8],
        v: &T,
    ) -> Result<usize, C::Error>;
    fn dec_with<'de, C: Context, T: Decode<'de, Self::Mode, C::Allocator>>(
        cx: C,
        b: &'de [u8],
    ) -> Result<T, C::Error>;
    fn dec_mut_with<'de, C: Context, T: Decode<'de, Self::Mode, C::Allocator>>(
        cx: C,
        b: &mut &'de [u8],
    ) -> Result<T, C::Error>;
    fn to_slice<T: ?Sized + Encode<Self::Mode>>(out: &mut [u8], v: &T) -> Result<usize, String>;
    /// Encode into `&mut [u8]` as a writer, returns how many bytes remain.
    fn enc_mut_slice<T: ?Sized + Encode<Self::Mode>>(
        out: &mut [u8],
        v: &T,
    ) -> Result<usize, String>;
    fn to_fixed<const N: usize, T: ?Sized + Encode<Self::Mode>>(v: &T) -> Result<Vec<u8>, String>;
    fn to_writer<W: std::io::Write, T: ?Sized + Encode<Self::Mode>>(
        w: W,
        v: &T,
    ) -> Result<(), String>;
    fn enc_vec<T: ?Sized + Encode<Self::Mode>>(out: &mut Vec<u8>, v: &T) -> Result<(), String>;
    /// Decode through every other kind of reader, with what was left of it.
    fn dec_readers<'de, C: Context, T: Decode<'de, Self::Mode, C::Allocator>>(
        cx: C,
        b: &'de [u8],
        each: impl FnMut(&str, Result<T, C::Error>, Option<usize>),
    );
    /// Encode into anything that can be written to.
    fn enc_into<W: musli::IntoWriter, T: ?Sized + Encode<Self::Mode>>(
        w: W,
        v: &T,
    ) -> Result<W::Ok, String>;
    fn enc_into_with<C: Context, W: musli::IntoWriter, T: ?Sized + Encode<Self::Mode>>(
        cx: C,
        w: W,
        v: &T,
    ) -> Result<W::Ok, C::Error>;
}

macro_rules! encoding_ty {
    (json, $o:ident, $mode:ty) => { musli::json::Encoding<$mode> };
    ($module:ident, $o:ident, $mode:ty) => { musli::$module::Encoding<$o, $mode> };
}

macro_rules! encoding_new {
    (json, $o:ident, $mode:ty) => {
        musli::json::Encoding::new().with_mode::<$mode>()
    };
    ($module:ident, $o:ident, $mode:ty) => {
        musli::$module::Encoding::new()
            .with_options::<$o>()
            .with_mode::<$mode>()
    };
}

macro_rules! readers {
    (json $e:ident $cx:ident $b:ident $each:ident) => {
        if let Ok(s) = std::str::from_utf8($b) {
            $each("decode_with of a str", $e.decode_with($cx, s), None);
            let mut m = s;
            let r = $e.decode_with($cx, &mut m);
            // No longer a str if something is amiss.
            let rest = m.as_bytes();
            assert!($b.as_ptr_range().end == rest.as_ptr_range().end, "the str is left with something else");
            assert!(
                std::str::from_utf8(rest).is_ok(),
                "the str that was decoded from is left as {rest:?} which is not valid"
            );
            $each("decode_with of a mutable str", r, Some(rest.len()));
        }
    };
    ($module:ident $e:ident $cx:ident $b:ident $each:ident) => {
        use musli::reader::{Reader, SliceReader};
        let mut r = SliceReader::new($b);
        let v = $e.decode_with($cx, &mut r);
        let rest = r.remaining();
        $each("decode_with of a SliceReader", v, Some(rest));
        let mut r = (&*$b).limit($b.len());
        let v = $e.decode_with($cx, &mut r);
        $each("decode_with of a limited slice", v, None);
        let mut r = SliceReader::new($b).limit($b.len());
        let v = $e.decode_with($cx, &mut r);
        $each("decode_with of a limited SliceReader", v, None);
        let mut more = $b.to_vec();
        more.extend_from_slice(b"\xff\x01\x00more");
        // SAFETY: what is decoded is dropped by `each`, before `more` is.
        let more: &'de [u8] = unsafe { &*(&more[..] as *const [u8]) };
        let mut r = SliceReader::new(more).limit($b.len());
        let v = $e.decode_with($cx, &mut r);
        $each("decode_with of the limited part of a SliceReader", v, None);
    };
}

macro_rules! format {
    ($name:ident, $module:ident, $mode:ty, $kind:expr, $opts:expr, $text:expr) => {
        #[derive(Clone, Copy, Debug)]
        pub struct $name;

        const _: () = {
            const O: Options = $opts;

            impl $name {
                const E: encoding_ty!($module, O, $mode) = encoding_new!($module, O, $mode);
            }

            impl Format for $name {
                format!(@ $module, $mode, $kind, O, $text);
            }
        };
    };
    // For any set of options.
    ($name:ident<O>, $module:ident, $mode:ty, $kind:expr, $text:expr) => {
        #[derive(Clone, Copy, Debug)]
        pub struct $name<const O: Options>;

        impl<const O: Options> $name<O> {
            const E: encoding_ty!($module, O, $mode) = encoding_new!($module, O, $mode);
            const TEXT: Text64 = Text64::named($text, O);
        }

        impl<const O: Options> Format for $name<O> {
            format!(@ $module, $mode, $kind, O, Self::TEXT.as_str());
        }
    };
    (@ $module:ident, $mode:ty, $kind:expr, $o:ident, $text:expr) => {
                type Mode = $mode;
                const NAME: &'static str = $text;
                const KIND: Kind = $kind;
                const OPT: Options = $o;

                fn enc<T: ?Sized + Encode<$mode>>(v: &T) -> Result<Vec<u8>, String> {
                    Self::E.to_vec(v).map_err(|e| e.to_string())
                }
                fn dec<'de, T: Decode<'de, $mode, System>>(b: &'de [u8]) -> Result<T, String> {
                    Self::E.from_slice(b).map_err(|e| e.to_string())
                }
                fn dec_rest<'de, T: Decode<'de, $mode, System>>(
                    b: &'de [u8],
                ) -> Result<(T, usize), String> {
                    let mut s = b;
                    let v = Self::E.decode(&mut s).map_err(|e| e.to_string())?;
                    Ok((v, s.len()))
                }
                fn enc_with<C: Context, T: ?Sized + Encode<$mode>>(
                    cx: C,
                    v: &T,
                ) -> Result<Vec<u8>, C::Error> {
                    Self::E.to_vec_with(cx, v)
                }
                fn enc_slice_with<C: Context, T: ?Sized + Encode<$mode>>(
                    cx: C,
                    out: &mut [u8],
                    v: &T,
                ) -> Result<usize, C::Error> {
                    Self::E.to_slice_with(cx, out, v)
                }
                fn dec_with<'de, C: Context, T: Decode<'de, $mode, C::Allocator>>(
                    cx: C,
                    b: &'de [u8],
                ) -> Result<T, C::Error> {
                    Self::E.from_slice_with(cx, b)
                }
                fn dec_mut_with<'de, C: Context, T: Decode<'de, $mode, C::Allocator>>(
                    cx: C,
                    b: &mut &'de [u8],
                ) -> Result<T, C::Error> {
                    Self::E.decode_with(cx, b)
                }
                fn to_slice<T: ?Sized + Encode<$mode>>(
                    out: &mut [u8],
                    v: &T,
                ) -> Result<usize, String> {
                    Self::E.to_slice(out, v).map_err(|e| e.to_string())
                }
                fn enc_mut_slice<T: ?Sized + Encode<$mode>>(
                    out: &mut [u8],
                    v: &T,
                ) -> Result<usize, String> {
                    Self::E.encode(out, v).map_err(|e| e.to_string())
                }
                fn to_fixed<const N: usize, T: ?Sized + Encode<$mode>>(
                    v: &T,
                ) -> Result<Vec<u8>, String> {
                    let b = Self::E.to_fixed_bytes::<N, _>(v).map_err(|e| e.to_string())?;
                    Ok(b.as_slice().to_vec())
                }
                fn to_writer<W: std::io::Write, T: ?Sized + Encode<$mode>>(
                    w: W,
                    v: &T,
                ) -> Result<(), String> {
                    Self::E.to_writer(w, v).map_err(|e| e.to_string())
                }
                fn enc_vec<T: ?Sized + Encode<$mode>>(
                    out: &mut Vec<u8>,
                    v: &T,
                ) -> Result<(), String> {
                    Self::E.encode(out, v).map_err(|e| e.to_string())
                }
                fn dec_readers<'de, C: Context, T: Decode<'de, $mode, C::Allocator>>(
                    cx: C,
                    b: &'de [u8],
                    mut each: impl FnMut(&str, Result<T, C::Error>, Option<usize>),
                ) {
                    each("decode_with of a slice", Self::E.decode_with(cx, b), None);
                    if let Ok(s) = std::str::from_utf8(b) {
                        each("from_str_with", Self::E.from_str_with(cx, s), None);
                    }
                    let e = Self::E;
                    readers!($module e cx b each);
                }
                fn enc_into<W: musli::IntoWriter, T: ?Sized + Encode<$mode>>(
                    w: W,
                    v: &T,
                ) -> Result<W::Ok, String> {
                    Self::E.encode(w, v).map_err(|e| e.to_string())
                }
                fn enc_into_with<C: Context, W: musli::IntoWriter, T: ?Sized + Encode<$mode>>(
                    cx: C,
                    w: W,
                    v: &T,
                ) -> Result<W::Ok, C::Error> {
                    Self::E.encode_with(cx, w, v)
                }
    };
}

/// A name made at compile time.
pub struct Text64([u8; 64], usize);

impl Text64 {
    const fn push(mut self, s: &str) -> Self {
        let s = s.as_bytes();
        let mut i = 0;
        while i < s.len() {
            self.0[self.1] = s[i];
            self.1 += 1;
            i += 1;
        }
        self
    }

    /// The name of a format and of every option.
    const fn named(format: &str, o: Options) -> Self {
        let s = Text64([0; 64], 0).push(format).push("/");
        let s = s.push(if options::from_raw(o).integer(Integer::Fixed).build() == o { "fix" } else { "var" });
        let s = s.push(if options::from_raw(o).float(Float::Fixed).build() == o {
            "-floatfix"
        } else if options::from_raw(o).float(Float::Variable).build() == o {
            "-floatvar"
        } else {
            "-floatint"
        });
        let s = s.push(if options::from_raw(o).byte_order(ByteOrder::Big).build() == o { "-be" } else { "-le" });
        s.push(if options::from_raw(o).pointer(Width::U8).build() == o {
            "-u8"
        } else if options::from_raw(o).pointer(Width::U16).build() == o {
            "-u16"
        } else if options::from_raw(o).pointer(Width::U32).build() == o {
            "-u32"
        } else if options::from_raw(o).pointer(Width::U64).build() == o {
            "-u64"
        } else {
            "-uvar"
        })
    }

    const fn as_str(&'static self) -> &'static str {
        match std::str::from_utf8(self.0.split_at(self.1).0) {
            Ok(s) => s,
            Err(..) => "?",
        }
    }
}

format!(StorageOf<O>, storage, Binary, Kind::Storage, "storage");
format!(WireOf<O>, wire, Binary, Kind::Wire, "wire");
format!(DescOf<O>, descriptive, Binary, Kind::Descriptive, "descriptive");
format!(PackedOf<O>, packed, Binary, Kind::Packed, "packed");

/// A set of options from what each of them is.
pub const fn options_of(fixed: bool, float: Float, order: ByteOrder, width: Width) -> Options {
    options::new()
        .integer(if fixed { Integer::Fixed } else { Integer::Variable })
        .float(float)
        .byte_order(order)
        .pointer(width)
        .build()
}

/// Runs the macro for every combination of options.
#[macro_export]
macro_rules! each_option {
    ($m:ident) => {
        $crate::each_option!(@ $m [false true] [Little Big] [Integer Variable Fixed] [U8 U16 U32 U64 Variable]);
    };
    (@ $m:ident [$($i:tt)*] $b:tt $f:tt $w:tt) => { $($crate::each_option!(@@ $m $i $b $f $w);)* };
    (@@ $m:ident $i:tt [$($b:tt)*] $f:tt $w:tt) => { $($crate::each_option!(@@@ $m $i $b $f $w);)* };
    (@@@ $m:ident $i:tt $b:tt [$($f:tt)*] $w:tt) => { $($crate::each_option!(@@@@ $m $i $b $f $w);)* };
    (@@@@ $m:ident $i:tt $b:tt $f:tt [$($w:tt)*]) => { $(
        $m!({ $crate::options_of(
            $i,
            musli::options::Float::$f,
            musli::options::ByteOrder::$b,
            musli::options::Width::$w,
        ) });
    )* };
}


const VAR: Options = options::new().build();
const FIX: Options = options::new().fixed().build();
const FIX_BE: Options = options::new().fixed().byte_order(ByteOrder::Big).build();
const FIX_U8: Options = options::new()
    .integer(Integer::Fixed)
    .float(Float::Fixed)
    .pointer(Width::U8)
    .build();
const VAR_U16: Options = options::new()
    .integer(Integer::Variable)
    .pointer(Width::U16)
    .build();
const VAR_U32_BE: Options = options::new()
    .integer(Integer::Variable)
    .float(Float::Variable)
    .byte_order(ByteOrder::Big)
    .pointer(Width::U32)
    .build();
const FIXI_VARL: Options = options::new()
    .integer(Integer::Fixed)
    .float(Float::Variable)
    .pointer(Width::Variable)
    .build();
const FIX_U32_BE: Options = options::new()
    .integer(Integer::Fixed)
    .float(Float::Integer)
    .byte_order(ByteOrder::Big)
    .pointer(Width::U32)
    .build();
const FIX_U16: Options = options::new()
    .integer(Integer::Fixed)
    .float(Float::Fixed)
    .pointer(Width::U16)
    .build();

const PACKED_DEF: Options = options::new().fixed().native_byte_order().build();

format!(StorageVar, storage, Binary, Kind::Storage, VAR, "storage/var");
format!(StorageFix, storage, Binary, Kind::Storage, FIX, "storage/fixed");
format!(StorageFixBe, storage, Binary, Kind::Storage, FIX_BE, "storage/fixed-be");
format!(StorageFixU8, storage, Binary, Kind::Storage, FIX_U8, "storage/fixed-u8");
format!(StorageVarU16, storage, Binary, Kind::Storage, VAR_U16, "storage/var-u16");
format!(StorageVarU32Be, storage, Binary, Kind::Storage, VAR_U32_BE, "storage/var-u32-be");
format!(StorageFixVarL, storage, Binary, Kind::Storage, FIXI_VARL, "storage/fixed-int-var-len");
format!(StorageFixU32Be, storage, Binary, Kind::Storage, FIX_U32_BE, "storage/fixed-u32-be");
format!(StorageFixU16, storage, Binary, Kind::Storage, FIX_U16, "storage/fixed-u16");

format!(WireVar, wire, Binary, Kind::Wire, VAR, "wire/var");
format!(WireFix, wire, Binary, Kind::Wire, FIX, "wire/fixed");
format!(WireFixBe, wire, Binary, Kind::Wire, FIX_BE, "wire/fixed-be");
format!(WireFixU8, wire, Binary, Kind::Wire, FIX_U8, "wire/fixed-u8");
format!(WireVarU16, wire, Binary, Kind::Wire, VAR_U16, "wire/var-u16");
format!(WireVarU32Be, wire, Binary, Kind::Wire, VAR_U32_BE, "wire/var-u32-be");
format!(WireFixVarL, wire, Binary, Kind::Wire, FIXI_VARL, "wire/fixed-int-var-len");
format!(WireFixU32Be, wire, Binary, Kind::Wire, FIX_U32_BE, "wire/fixed-u32-be");
format!(WireFixU16, wire, Binary, Kind::Wire, FIX_U16, "wire/fixed-u16");

format!(DescVar, descriptive, Binary, Kind::Descriptive, VAR, "descriptive/var");
format!(DescFix, descriptive, Binary, Kind::Descriptive, FIX, "descriptive/fixed");
format!(DescFixBe, descriptive, Binary, Kind::Descriptive, FIX_BE, "descriptive/fixed-be");
format!(DescFixU8, descriptive, Binary, Kind::Descriptive, FIX_U8, "descriptive/fixed-u8");
format!(DescVarU16, descriptive, Binary, Kind::Descriptive, VAR_U16, "descriptive/var-u16");
format!(DescFixVarL, descriptive, Binary, Kind::Descriptive, FIXI_VARL, "descriptive/fixed-int-var-len");

// The option of floats set apart from the one of integers.
const VAR_FLOAT_FIX: Options = options::new().float(Float::Fixed).build();
const FIX_FLOAT_VAR: Options = options::new().fixed().float(Float::Variable).build();
const FIX_BE_FLOAT_INT: Options = options::new()
    .fixed()
    .float(Float::Integer)
    .byte_order(ByteOrder::Big)
    .build();

format!(StorageVarFloatFix, storage, Binary, Kind::Storage, VAR_FLOAT_FIX, "storage/var-float-fixed");
format!(StorageFixFloatVar, storage, Binary, Kind::Storage, FIX_FLOAT_VAR, "storage/fixed-float-var");
format!(StorageFixFloatInt, storage, Binary, Kind::Storage, FIX_BE_FLOAT_INT, "storage/fixed-be-float-int");
format!(WireVarFloatFix, wire, Binary, Kind::Wire, VAR_FLOAT_FIX, "wire/var-float-fixed");
format!(WireFixFloatInt, wire, Binary, Kind::Wire, FIX_BE_FLOAT_INT, "wire/fixed-be-float-int");
format!(PackedFloatVar, packed, Binary, Kind::Packed, FIX_FLOAT_VAR, "packed/fixed-float-var");

format!(PackedDef, packed, Binary, Kind::Packed, PACKED_DEF, "packed/default");
format!(PackedVar, packed, Binary, Kind::Packed, VAR, "packed/var");
format!(PackedFixBe, packed, Binary, Kind::Packed, FIX_BE, "packed/fixed-be");
format!(PackedVarU16, packed, Binary, Kind::Packed, VAR_U16, "packed/var-u16");

// Names of fields and variants as strings.
format!(StorageText, storage, Text, Kind::Storage, FIX, "storage/text-fixed");
format!(WireText, wire, Text, Kind::Wire, VAR, "wire/text-var");
format!(DescText, descriptive, Text, Kind::Descriptive, VAR, "descriptive/text-var");
format!(PackedText, packed, Text, Kind::Packed, PACKED_DEF, "packed/text");

/// A mode of its own.
pub enum Custom {}
format!(WireCustom, wire, Custom, Kind::Wire, VAR, "wire/custom");
format!(DescCustom, descriptive, Custom, Kind::Descriptive, VAR, "descriptive/custom");
format!(JsonCustom, json, Custom, Kind::Json, VAR, "json/custom");

format!(JsonText, json, Text, Kind::Json, VAR, "json/text");
format!(JsonBinary, json, Binary, Kind::Json, VAR, "json/binary");

/// A format driven by dynamic shapes.
pub trait DynFormat: Send + Sync {
    fn name(&self) -> &'static str;
    fn kind(&self) -> Kind;
    fn opt(&self) -> Options;
    fn enc(&self, s: &Shape, v: &Val) -> Result<Vec<u8>, String>;
    fn dec(&self, s: &Shape, b: &[u8]) -> Result<Val, String>;
    fn dec_rest(&self, s: &Shape, b: &[u8]) -> Result<(Val, usize), String>;
}

pub struct Of<F>(pub F);

impl<F: Format> DynFormat for Of<F> {
    fn name(&self) -> &'static str {
        F::NAME
    }
    fn kind(&self) -> Kind {
        F::KIND
    }
    fn opt(&self) -> Options {
        F::OPT
    }
    fn enc(&self, s: &Shape, v: &Val) -> Result<Vec<u8>, String> {
        F::enc(&Dyn(s, v))
    }
    fn dec(&self, s: &Shape, b: &[u8]) -> Result<Val, String> {
        with_shape(s, || F::dec::<Out>(b)).map(|o| o.0)
    }
    fn dec_rest(&self, s: &Shape, b: &[u8]) -> Result<(Val, usize), String> {
        with_shape(s, || F::dec_rest::<Out>(b)).map(|(o, r)| (o.0, r))
    }
}

/// Pointer width of an option set, None when variable.
pub fn pointer_width(opt: Options) -> Option<u32> {
    match (opt >> 12) & 0b111 {
        0 => None,
        1 => Some(8),
        2 => Some(16),
        3 => Some(32),
        _ => Some(64),
    }
}

/// Can a usize (or length) of this magnitude be represented?
pub fn length_fits(opt: Options, n: u128) -> bool {
    match pointer_width(opt) {
        None => true,
        Some(w) => n < (1u128 << w),
    }
}

/// Does the format with its options support the shape?
pub fn supports(kind: Kind, opt: Options, s: &Shape) -> bool {
    let _ = opt;
    match kind {
        Kind::Json => s.keys_all(&|k| matches!(k, Shape::Str) || k.is_int()),
        _ => true,
    }
}

/// Does every length and pointer-sized number in the value fit the options?
pub fn fits(opt: Options, s: &Shape, v: &Val) -> bool {
    let Some(_) = pointer_width(opt) else {
        return true;
    };
    let ok = |n: usize| length_fits(opt, n as u128);
    let key = |k: &Key| match k {
        Key::S(s) => ok(s.len()),
        Key::U(n) => ok(*n),
        Key::I(_) => true,
    };
    match (s, v) {
        (Shape::Usize, Val::U(n)) => length_fits(opt, *n),
        (Shape::Isize, Val::I(n)) => length_fits(opt, (*n as i64 as u64) as u128),
        (_, Val::Str(v)) => ok(v.len()),
        (_, Val::Bytes(v)) => ok(v.len()),
        (Shape::Opt(s), Val::Opt(Some(v))) => fits(opt, s, v),
        (Shape::Seq(s), Val::Seq(v)) => ok(v.len()) && v.iter().all(|v| fits(opt, s, v)),
        (Shape::Map(k, s), Val::Map(v)) => {
            // The wire format doubles the number of entries.
            ok(v.len() * 2) && v.iter().all(|(a, b)| fits(opt, k, a) && fits(opt, s, b))
        }
        (Shape::Pack(ss), Val::Struct(p)) => {
            // A pack is length-prefixed as a whole.
            ok(size_bound(s, v)) && ss.iter().zip(p).all(|(s, v)| fits(opt, s, v))
        }
        (Shape::Struct(ss), Val::Struct(v)) => {
            ok(ss.len() * 2) && ss.iter().zip(v).all(|((k, s), v)| key(k) && fits(opt, s, v))
        }
        (Shape::Enum(vs), Val::Enum(i, v)) => key(&vs[*i].0) && fits(opt, &vs[*i].1, v),
        _ => true,
    }
}

/// An upper bound of the encoded size of a value.
pub fn size_bound(s: &Shape, v: &Val) -> usize {
    match (s, v) {
        (_, Val::Str(v)) => v.len() + 10,
        (_, Val::Bytes(v)) => v.len() + 10,
        (Shape::Opt(s), Val::Opt(Some(v))) => 1 + size_bound(s, v),
        (Shape::Seq(s), Val::Seq(v)) => 10 + v.iter().map(|v| size_bound(s, v)).sum::<usize>(),
        (Shape::Map(k, s), Val::Map(v)) => {
            10 + v
                .iter()
                .map(|(a, b)| size_bound(k, a) + size_bound(s, b))
                .sum::<usize>()
        }
        (Shape::Pack(ss), Val::Struct(v)) => {
            ss.iter().zip(v).map(|(s, v)| size_bound(s, v)).sum()
        }
        (Shape::Struct(ss), Val::Struct(v)) => {
            10 + ss
                .iter()
                .zip(v)
                .map(|((_, s), v)| 16 + size_bound(s, v))
                .sum::<usize>()
        }
        (Shape::Enum(vs), Val::Enum(i, v)) => 16 + size_bound(&vs[*i].1, v),
        (Shape::U128 | Shape::I128, _) => 20,
        _ => 11,
    }
}

/// Where options are supported. Packed data has no tags: an absent option is
/// no bytes at all, so the documentation only supports them at the end of the
/// packed data.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Opts {
    /// Everywhere in this shape.
    Fine,
    /// Only when nothing follows the message.
    AtEof,
    No,
}

pub fn options_in(kind: Kind, s: &Shape) -> Opts {
    let has = |s: &Shape| s.any(&|s| matches!(s, Shape::Opt(_)));
    // Some(x) must occupy at least a byte.
    let tail = |s: &Shape| match s {
        Shape::Opt(i) => {
            !has(i) && !i.any(&|s| matches!(s, Shape::Arr(0))) && **i != Shape::Pack(vec![])
        }
        s => !has(s),
    };
    let pack_tail = |v: &[Shape]| match v.split_last() {
        Some((l, init)) => !init.iter().any(has) && tail(l),
        None => true,
    };
    match kind {
        Kind::Json => Opts::Fine,
        Kind::Wire | Kind::Descriptive => {
            let bad = s.any(&|s| match s {
                Shape::Pack(v) => !pack_tail(v),
                _ => false,
            });
            if bad {
                Opts::No
            } else {
                Opts::Fine
            }
        }
        Kind::Storage => {
            if !s.opt_in_pack() {
                return Opts::Fine;
            }
            match s {
                Shape::Pack(v) if pack_tail(v) => Opts::AtEof,
                _ => Opts::No,
            }
        }
        Kind::Packed => {
            if !has(s) {
                return Opts::Fine;
            }
            match s {
                Shape::Opt(_) if tail(s) => Opts::AtEof,
                Shape::Pack(v) if pack_tail(v) => Opts::AtEof,
                _ => Opts::No,
            }
        }
    }
}

/// Run the macro for every format marker type.
#[macro_export]
macro_rules! each_format {
    ($m:ident) => {
        $m! {
            StorageVar StorageFix StorageFixBe StorageFixU8 StorageVarU16 StorageVarU32Be StorageFixVarL
            WireVar WireFix WireFixBe WireFixU8 WireVarU16 WireVarU32Be WireFixVarL
            DescVar DescFix DescFixBe DescFixU8 DescVarU16 DescFixVarL
            PackedDef PackedVar PackedFixBe PackedVarU16
            JsonText JsonBinary
        }
    };
}

/// One representative of each format plus its fixed-width sibling.
#[macro_export]
macro_rules! main_formats {
    ($m:ident) => {
        $m! {
            StorageVar StorageFix
            WireVar WireFixU8
            DescVar DescFix
            PackedDef
            JsonText
        }
    };
}

#[macro_export]
macro_rules! dyn_vec {
    ($($t:ident)*) => {
        vec![$(Box::new($crate::Of($crate::$t)) as Box<dyn $crate::DynFormat>),*]
    };
}

#[allow(unused)]
fn _assert<A: Allocator>() {}

/// Elements of sequences and maps which take up no bytes have no bound.
pub fn zero_bytes(kind: Kind, s: &Shape) -> bool {
    if !matches!(kind, Kind::Storage | Kind::Packed) {
        return false;
    }
    match s {
        Shape::Unit | Shape::Arr(0) => true,
        Shape::Pack(v) => v.iter().all(|s| zero_bytes(kind, s)),
        Shape::Struct(v) => kind == Kind::Packed && v.iter().all(|(_, s)| zero_bytes(kind, s)),
        _ => false,
    }
}

/// Whether a claimed length in a message of this shape is bounded by nothing.
pub fn unbounded(kind: Kind, s: &Shape) -> bool {
    s.any(&|s| match s {
        Shape::Seq(e) => zero_bytes(kind, e),
        Shape::Map(k, v) => zero_bytes(kind, k) && zero_bytes(kind, v),
        _ => false,
    })
}
