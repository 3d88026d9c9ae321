//! P27: copying sequences in bulk cannot be observed.
//!
//! What is expected of a sequence is what the dynamic encoder and decoder of
//! `eng`, which only know how to handle one number at a time, make of it.

use std::collections::VecDeque;
use std::fmt::Debug;
use std::marker::PhantomData;
use std::num::*;
use std::rc::Rc;
use std::sync::atomic::*;
use std::sync::Arc;

use eng::*;
use kit::*;
use musli::alloc::System;
use musli::mode::Binary;
use musli::{Decode, Encode};

kit::global_allocator!();

/// How something is stored.
#[derive(Clone, Copy, PartialEq)]
enum How {
    /// One by one.
    Single,
    /// One by one, but what is in memory as it is stored is copied. Known to
    /// differ for arrays and units, which have no length in memory.
    Encode,
    /// The same, but nothing that has to be validated is.
    Decode,
    /// Copied.
    Copied,
}

impl How {
    /// What is in a sequence of `T`.
    fn of<T: Elem>(self) -> How {
        match self {
            How::Encode if T::FLAT => How::Copied,
            How::Decode if T::FLAT && T::ANY => How::Copied,
            h => h,
        }
    }
}

trait Elem:
    Debug + PartialEq + Clone + Sample + Encode<Binary> + for<'de> Decode<'de, Binary, System> + 'static
{
    /// Is what it is in memory.
    const FLAT: bool;
    /// Everything in memory is one.
    const ANY: bool;
    /// Is a fixed number of bytes with native options.
    fn shape(c: How) -> Shape;
    fn val(&self) -> Val;
    fn from_val(v: &Val) -> Option<Self>;
}

macro_rules! elem {
    ($c:ident; $($t:ty, $flat:expr, $any:expr, $s:expr, $x:ident => $v:expr, $p:pat => $f:expr;)*) => { $(
        impl Elem for $t {
            const FLAT: bool = $flat;
            const ANY: bool = $any;
            #[allow(unused_variables)]
            fn shape($c: How) -> Shape {
                #[allow(unused_imports)]
                use Shape::*;
                $s
            }
            fn val(&self) -> Val {
                let $x = self;
                $v
            }
            fn from_val(v: &Val) -> Option<Self> {
                match v {
                    $p => Some($f),
                    #[allow(unreachable_patterns)]
                    _ => None,
                }
            }
        }
    )* };
}

elem! { c;
    bool, true, false, Bool, x => Val::Bool(*x), Val::Bool(v) => *v;
    char, true, false, Char, x => Val::Char(*x), Val::Char(v) => *v;
    u8, true, true, U8, x => Val::U(*x as u128), Val::U(v) => *v as u8;
    u16, true, true, U16, x => Val::U(*x as u128), Val::U(v) => *v as u16;
    u32, true, true, U32, x => Val::U(*x as u128), Val::U(v) => *v as u32;
    u64, true, true, U64, x => Val::U(*x as u128), Val::U(v) => *v as u64;
    u128, true, true, U128, x => Val::U(*x), Val::U(v) => *v;
    usize, true, true, Usize, x => Val::U(*x as u128), Val::U(v) => *v as usize;
    i8, true, true, I8, x => Val::I(*x as i128), Val::I(v) => *v as i8;
    i16, true, true, I16, x => Val::I(*x as i128), Val::I(v) => *v as i16;
    i32, true, true, I32, x => Val::I(*x as i128), Val::I(v) => *v as i32;
    i64, true, true, I64, x => Val::I(*x as i128), Val::I(v) => *v as i64;
    i128, true, true, I128, x => Val::I(*x), Val::I(v) => *v;
    isize, true, true, Isize, x => Val::I(*x as i128), Val::I(v) => *v as isize;
    (), true, true, if c == How::Copied { Pack(vec![]) } else { Unit },
        _x => Val::Struct(vec![]), _ => ();
    PhantomData<u8>, true, true, if c == How::Copied { Pack(vec![]) } else { Unit },
        _x => Val::Struct(vec![]), _ => PhantomData;
    String, false, false, Str, x => Val::Str(x.clone()), Val::Str(v) => v.clone();
}

/// Floats are compared by their bits.
macro_rules! float {
    ($($n:ident $t:ident $b:ident $f:ident;)*) => { $(
        #[derive(Clone, Copy, Encode, Decode)]
        #[musli(packed)]
        #[repr(transparent)]
        struct $n($t);
        impl Debug for $n {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "{:?}/{:x}", self.0, self.0.to_bits())
            }
        }
        impl PartialEq for $n {
            fn eq(&self, o: &Self) -> bool {
                self.0.to_bits() == o.0.to_bits()
            }
        }
        impl Sample for $n {
            fn samples(level: usize) -> Vec<Self> {
                $t::samples(level).into_iter().map($n).collect()
            }
        }
        elem! {
            c; $n, true, true, Pack(vec![$f]), x => Val::Struct(vec![Val::$f(x.0.to_bits())]),
                Val::Struct(v) => match &v[0] { Val::$f(v) => $n($t::from_bits(*v)), _ => return None };
        }
    )* };
}
float! { Single f32 u32 F32; Double f64 u64 F64; }

macro_rules! non_zero {
    ($($n:ident $t:ident $v:ident $s:ident $w:ident;)*) => { $(
        elem! {
            c; $n, true, false, $s, x => Val::$v(x.get() as $w), Val::$v(v) => $n::new(*v as $t)?;
        }
    )* };
}
non_zero! {
    NonZeroU8 u8 U U8 u128; NonZeroU16 u16 U U16 u128; NonZeroU32 u32 U U32 u128;
    NonZeroU64 u64 U U64 u128; NonZeroU128 u128 U U128 u128; NonZeroUsize usize U Usize u128;
    NonZeroI8 i8 I I8 i128; NonZeroI16 i16 I I16 i128; NonZeroI32 i32 I I32 i128;
    NonZeroI64 i64 I I64 i128; NonZeroI128 i128 I I128 i128; NonZeroIsize isize I Isize i128;
}

impl<T: Elem> Elem for Wrapping<T> {
    const FLAT: bool = T::FLAT;
    const ANY: bool = T::ANY;
    fn shape(c: How) -> Shape {
        T::shape(c)
    }
    fn val(&self) -> Val {
        self.0.val()
    }
    fn from_val(v: &Val) -> Option<Self> {
        T::from_val(v).map(Wrapping)
    }
}

fn seq_of<'a, T: Elem>(i: impl IntoIterator<Item = &'a T>) -> Val {
    Val::Seq(i.into_iter().map(|v| v.val()).collect())
}
fn from_seq<T: Elem>(v: &Val) -> Option<Vec<T>> {
    match v {
        Val::Seq(v) | Val::Struct(v) => v.iter().map(T::from_val).collect(),
        _ => None,
    }
}

impl<T: Elem, const N: usize> Elem for [T; N]
where
    [T; N]: Sample,
{
    const FLAT: bool = T::FLAT;
    const ANY: bool = T::ANY;
    fn shape(c: How) -> Shape {
        if c == How::Copied {
            Shape::Pack(vec![T::shape(c); N])
        } else {
            Shape::seq(T::shape(c.of::<T>()))
        }
    }
    // Used in either kind of shape.
    fn val(&self) -> Val {
        Val::Struct(self.iter().map(|v| v.val()).collect())
    }
    fn from_val(v: &Val) -> Option<Self> {
        from_seq(v)?.try_into().ok()
    }
}
impl<T: Elem> Elem for Vec<T>
where
    Vec<T>: Sample,
{
    const FLAT: bool = false;
    const ANY: bool = false;
    fn shape(c: How) -> Shape {
        Shape::seq(T::shape(c.of::<T>()))
    }
    fn val(&self) -> Val {
        seq_of(self)
    }
    fn from_val(v: &Val) -> Option<Self> {
        from_seq(v)
    }
}
macro_rules! smart {
    ($($b:ident)*) => { $(
        impl<T: Elem> Elem for $b<T>
        where
            $b<T>: Sample,
        {
            const FLAT: bool = false;
            const ANY: bool = false;
            fn shape(c: How) -> Shape {
                T::shape(c)
            }
            fn val(&self) -> Val {
                (**self).val()
            }
            fn from_val(v: &Val) -> Option<Self> {
                T::from_val(v).map($b::new)
            }
        }
    )* };
}
smart! { Box Rc Arc }

/// Something next to it, never in bulk.
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(packed)]
struct Pair<T> {
    a: T,
    #[musli(with = self::same)]
    b: u8,
}

mod same {
    use musli::{Decoder, Encoder};
    pub fn encode<E: Encoder>(v: &u8, e: E) -> Result<(), E::Error> {
        e.encode_u8(*v)
    }
    pub fn decode<'de, D: Decoder<'de>>(d: D) -> Result<u8, D::Error> {
        d.decode_u8()
    }
}

impl<T: Sample> Sample for Pair<T> {
    fn samples(level: usize) -> Vec<Self> {
        T::samples(level).into_iter().map(|a| Pair { a, b: 7 }).collect()
    }
}

impl<T: Elem> Elem for Pair<T> {
    const FLAT: bool = false;
    const ANY: bool = false;
    fn shape(c: How) -> Shape {
        Shape::Pack(vec![T::shape(c), Shape::U8])
    }
    fn val(&self) -> Val {
        Val::Struct(vec![self.a.val(), Val::U(self.b as u128)])
    }
    fn from_val(v: &Val) -> Option<Self> {
        match v {
            Val::Struct(v) => Some(Pair { a: T::from_val(&v[0])?, b: u8::from_val(&v[1])? }),
            _ => None,
        }
    }
}

/// Packed structs, and whether they are what they are in memory.
macro_rules! packs {
    ($($(#[$m:meta])* $flat:literal $n:ident { $($(#[$fm:meta])* $f:ident: $t:ty),* $(,)? })*) => { $(
        #[derive(Debug, Clone, PartialEq, Encode, Decode)]
        #[musli(packed)]
        $(#[$m])*
        struct $n { $($(#[$fm])* $f: $t),* }

        sample!($n { $($f: $t),* });

        impl Elem for $n {
            const FLAT: bool = $flat;
            const ANY: bool = true $(&& <$t>::ANY)*;
            fn shape(_c: How) -> Shape {
                let _c = _c.of::<Self>();
                Shape::Pack(vec![$(<$t>::shape(_c)),*])
            }
            fn val(&self) -> Val {
                Val::Struct(vec![$(self.$f.val()),*])
            }
            fn from_val(v: &Val) -> Option<Self> {
                let Val::Struct(v) = v else { return None };
                let mut _i = v.iter();
                Some($n { $($f: <$t>::from_val(_i.next()?)?),* })
            }
        }
    )* };
}

packs! {
    #[repr(C)] true Two { a: u32, b: u32 }
    #[repr(C)] true Small { a: u8, b: bool, c: u16 }
    #[repr(C)] false Padded { a: u8, b: u32 }
    #[repr(C)] false Tail { a: u32, b: u16 }
    #[repr(C)] false TailByte { a: u16, b: u8 }
    #[repr(C)] false Hole { a: u16, b: u8, c: u32, d: u8 }
    #[repr(C)] true Nested { a: Two, b: u64 }
    #[repr(C)] false NestedPadded { a: Padded, b: u32 }
    #[repr(C)] false NestedTail { a: TailByte, b: u32 }
    #[repr(C)] false Aligned { a: Two, b: u128 }
    #[repr(C)] true Checked { a: char, b: NonZeroU32 }
    #[repr(C)] true Mixed { a: NonZeroU16, b: i8, c: bool, d: Single }
    #[repr(C)] true Pointers { a: usize, b: isize }
    #[repr(C)] true Floats { a: Single, b: Single, c: Double }
    #[repr(C)] true Wide { a: u128, b: i64, c: u64 }
    #[repr(C)] true Array { a: [u8; 4], b: u32 }
    #[repr(C)] true ArrayOdd { a: [u8; 3], b: u8, c: [i16; 2] }
    #[repr(C)] true ArrayBool { a: [bool; 2], b: u16 }
    #[repr(C)] true Units { a: (), b: u32, c: PhantomData<u8> }
    #[repr(C)] false Owned { a: u64, b: Vec<u16> }
    #[repr(C)] false Boxed { a: u64, b: Box<u64> }
    #[repr(C, align(8))] false Over { a: u32 }
    #[repr(C, align(16))] false OverExact { a: u64, b: u32 }
    #[repr(C)] true Wrapped { a: Wrapping<u32>, b: Wrapping<NonZeroU32> }
    #[repr(transparent)] true Transparent { a: u64 }
    #[repr(transparent)] true TransparentChecked { a: char }
    #[repr(C)] false WithField { #[musli(with = self::flip)] a: u32, b: u32 }
    #[repr(C)] true Ordered { a: u64, b: u32, c: u16, d: u8, e: i8 }
    #[repr(C)] true Empty {}
}

/// Stored as itself, by hand.
mod flip {
    use musli::{Decoder, Encoder};
    pub fn encode<E: Encoder>(v: &u32, e: E) -> Result<(), E::Error> {
        e.encode_u32(*v)
    }
    pub fn decode<'de, D: Decoder<'de>>(d: D) -> Result<u32, D::Error> {
        d.decode_u32()
    }
}

// The order in memory is left to the compiler: only what is stored is known.
packs! {
    false RustOrder { a: u8, b: u32, c: u16 }
    false RustTwo { a: u16, b: u64 }
    false RustBytes { a: u8, b: u8 }
    false RustWide { a: u8, b: u64, c: u8, d: u16, e: u32 }
}

/// As itself, but never in bulk.
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(transparent)]
struct Slow<T>(T);

fn native(o: Options, k: Kind) -> bool {
    matches!(k, Kind::Storage | Kind::Packed) && native_pack(o)
}

/// Packs are stored like in storage everywhere.
fn native_pack(o: Options) -> bool {
    const NATIVE: Options = musli::options::new().fixed().native_byte_order().build();
    o == NATIVE
}

use musli::options::Options;

/// What handles one number at a time.
struct OneByOne<F>(PhantomData<F>);

fn dynamic<F: Format>() -> OneByOne<F> {
    OneByOne(PhantomData)
}

impl<F: Format> OneByOne<F> {
    fn enc(&self, s: &Shape, v: &Val) -> Result<Vec<u8>, String> {
        F::enc(&Dyn(s, v))
    }
    fn dec_rest(&self, s: &Shape, b: &[u8]) -> Result<(Val, usize), String> {
        with_shape(s, || F::dec_rest::<Out>(b)).map(|(o, r)| (o.0, r))
    }
}

type Res<T> = Result<(T, usize), String>;

fn err(msg: String) -> Failure {
    Failure { msg, class: None }
}

/// Fails with what is known if that is what is seen.
fn known(single: &Shape, seen: bool, msg: String) -> Failure {
    if !seen {
        return err(msg);
    }
    let unit = format!("{single:?}").contains("Unit");
    classified(if unit { "unit-in-bulk" } else { "array-in-bulk" }, msg)
}

fn same<T: PartialEq + Debug>(got: &Res<T>, want: &Res<T>) -> bool {
    match (got, want) {
        (Ok(a), Ok(b)) => a == b,
        (Err(_), Err(_)) => true,
        _ => false,
    }
}

/// What is stored in a few ways, and how values of that are made.
struct Stored<W> {
    name: &'static str,
    single: Shape,
    enc: Shape,
    dec: Shape,
    make: fn(&Val) -> Option<W>,
}

impl<W: Debug + PartialEq> Stored<W> {
    fn new(name: &'static str, native: bool, f: impl Fn(How) -> Shape, make: fn(&Val) -> Option<W>) -> Self {
        let single = f(How::Single);
        let (enc, dec) = if native {
            (f(How::Encode), f(How::Decode))
        } else {
            (single.clone(), single.clone())
        };
        Self { name, single, enc, dec, make }
    }

    fn want<F: Format>(&self, s: &Shape, b: &[u8]) -> Res<W> {
        let (v, rest) = dynamic::<F>().dec_rest(s, b)?;
        match (self.make)(&v) {
            Some(v) => Ok((v, rest)),
            None => Err("not valid".into()),
        }
    }

    fn decoded<F: Format>(&self, name: &str, b: &[u8], got: Res<W>) -> Result<(), Failure> {
        let want = self.want::<F>(&self.single, b);
        if same(&got, &want) {
            return Ok(());
        }
        let seen = self.single != self.dec && same(&got, &self.want::<F>(&self.dec, b));
        let msg = format!("{name} {} from {} is {got:?}, not {want:?}", self.name, hex(b));
        Err(known(&self.single, seen, msg))
    }

    fn encoded<F: Format>(&self, name: &str, v: &Val, got: Result<Vec<u8>, String>) -> Result<(), Failure> {
        let want = dynamic::<F>().enc(&self.single, v);
        let eq = |want: &Result<Vec<u8>, String>| match (&got, want) {
            (Ok(a), Ok(b)) => a == b,
            (Err(_), Err(_)) => true,
            _ => false,
        };
        if eq(&want) {
            return Ok(());
        }
        let seen = self.single != self.enc && eq(&dynamic::<F>().enc(&self.enc, v));
        let show = |r: &Result<Vec<u8>, String>| r.clone().map(|b| hex(&b));
        let msg = format!("{name} {}: {:?} is not {:?}", self.name, show(&got), show(&want));
        Err(known(&self.single, seen, msg))
    }
}

/// Reports what is not known before what is.
#[derive(Default)]
struct All(Option<Failure>);

impl All {
    fn and(&mut self, r: Result<(), Failure>) -> Result<(), Failure> {
        match r {
            Err(f) if f.class.is_some() => {
                self.0.get_or_insert(f);
                Ok(())
            }
            r => r,
        }
    }
    fn done(self, fp: u64) -> CaseResult {
        match self.0 {
            Some(f) => Err(f),
            None => Ok(fp),
        }
    }
}

fn seq<F: Format, T: Elem>() -> [Stored<Vec<T>>; 2] {
    let n = native(F::OPT, F::KIND);
    [
        Stored::new("in bulk", n, |h| Shape::seq(T::shape(h.of::<T>())), from_seq),
        Stored::new("one by one", n, |h| Shape::seq(T::shape(h)), from_seq),
    ]
}

/// Decodes `b` as containers which do and which do not take elements in bulk.
fn decode<F: Format<Mode = Binary>, T: Elem>(b: &[u8]) -> CaseResult {
    let [bulk, slow] = seq::<F, T>();
    let mut all = All::default();
    all.and(bulk.decoded::<F>("Vec", b, F::dec_rest::<Vec<T>>(b)))?;
    let got = F::dec_rest::<VecDeque<T>>(b).map(|(v, r)| (v.into_iter().collect(), r));
    all.and(bulk.decoded::<F>("VecDeque", b, got))?;
    let got = F::dec_rest::<Box<[T]>>(b).map(|(v, r)| (v.into_vec(), r));
    all.and(bulk.decoded::<F>("Box<[_]>", b, got))?;
    let got = F::dec_rest::<Vec<Slow<T>>>(b).map(|(v, r)| (v.into_iter().map(|v| v.0).collect(), r));
    all.and(slow.decoded::<F>("Vec<Slow<_>>", b, got))?;
    all.done(Fp::new().str(F::NAME).bytes(b).done())
}

fn encode<F: Format<Mode = Binary>, T: Elem>(v: &[T]) -> CaseResult {
    let [bulk, slow] = seq::<F, T>();
    let val = seq_of(v);
    let mut all = All::default();
    all.and(bulk.encoded::<F>("[_]", &val, F::enc(v)))?;
    let vec = v.to_vec();
    all.and(bulk.encoded::<F>("Vec", &val, F::enc(&vec)))?;
    all.and(bulk.encoded::<F>("&Vec", &val, F::enc(&&vec)))?;
    all.and(bulk.encoded::<F>("Box<[_]>", &val, F::enc(&vec.clone().into_boxed_slice())))?;
    all.and(bulk.encoded::<F>("Arc<[_]>", &val, F::enc(&Arc::<[T]>::from(vec.clone()))))?;
    let refs = v.iter().collect::<Vec<&T>>();
    all.and(slow.encoded::<F>("Vec<&_>", &val, F::enc(&refs)))?;
    let boxes = v.iter().cloned().map(Slow).collect::<Vec<_>>();
    all.and(slow.encoded::<F>("Vec<Slow<_>>", &val, F::enc(&boxes)))?;
    // In two parts at every place.
    for at in 0..=v.len() {
        let d = rotated(v, at);
        ensure!(
            at == 0 || std::mem::size_of::<T>() == 0 || d.as_slices().0.len() >= at,
            "not in two parts"
        );
        all.and(bulk.encoded::<F>("VecDeque", &val, F::enc(&d)))?;
    }
    let b = match F::enc(v) {
        Ok(b) => b,
        Err(_) => return Ok(0),
    };
    if let Err(f) = decode::<F, T>(&b) {
        all.and(Err(f))?;
    }
    if bulk.single == bulk.enc && bulk.single == bulk.dec {
        let w = F::dec_rest::<Vec<T>>(&b);
        ensure!(matches!(&w, Ok((w, 0)) if w == v), "decoded {w:?} from {}", hex(&b));
    }
    all.done(Fp::new().str(F::NAME).bytes(&b).done())
}

/// The first `at` are in front of where the others were put first.
fn rotated<T: Clone>(v: &[T], at: usize) -> VecDeque<T> {
    let mut d: VecDeque<T> = VecDeque::with_capacity(v.len());
    d.extend(v[at..].iter().cloned());
    for x in v[..at].iter().rev() {
        d.push_front(x.clone());
    }
    d
}

/// An element in something else.
fn around<F: Format<Mode = Binary>, W>(s: &Stored<W>, w: &W, v: &Val) -> CaseResult
where
    W: Debug + PartialEq + Encode<Binary> + for<'de> Decode<'de, Binary, System>,
{
    let mut all = All::default();
    let got = F::enc(w);
    all.and(s.encoded::<F>("", v, got.clone()))?;
    let Ok(b) = got else { return Ok(0) };
    all.and(s.decoded::<F>("", &b, F::dec_rest::<W>(&b)))?;
    if let Ok(b) = dynamic::<F>().enc(&s.single, v) {
        all.and(s.decoded::<F>("", &b, F::dec_rest::<W>(&b)))?;
    }
    if s.single == s.enc && s.single == s.dec {
        let got = F::dec_rest::<W>(&b);
        ensure!(matches!(&got, Ok((v, 0)) if v == w), "decoded {got:?} from {}", hex(&b));
    }
    all.done(Fp::new().str(F::NAME).str(s.name).bytes(&b).done())
}

fn fam<F: Format<Mode = Binary>, T: Elem>(c: &mut Check, name: &'static str)
where
    [T; 1]: Sample,
    [T; 3]: Sample,
{
    let native = native(F::OPT, F::KIND);
    let zero = std::mem::size_of::<T>() == 0;

    c.fam(format!("encode/{name}/{}", F::NAME), move |fam| {
        let all = T::samples(if fam.thorough() { 0 } else { 1 });
        let few = T::samples(2);
        let mut lists: Vec<Vec<T>> = vec![vec![]];
        lists.extend(all.iter().map(|v| vec![v.clone()]));
        for (i, a) in all.iter().enumerate() {
            let b = &all[(i + 1) % all.len()];
            lists.push(vec![a.clone(), b.clone()]);
        }
        kit::rng::sequences(few.len(), fam.bound(3, 4), |s| {
            if s.len() > 1 {
                lists.push(s.iter().map(|&i| few[i].clone()).collect());
            }
        });
        for v in &lists {
            fam.case(|| format!("{} {name} {v:?}", F::NAME), || encode::<F, T>(v));
        }
    });

    c.fam(format!("inside/{name}/{}", F::NAME), move |fam| {
        let all = T::samples(if fam.thorough() { 0 } else { 1 });
        let pack = native_pack(F::OPT);
        let pair = Stored::new("pair", pack, <Pair<T>>::shape, <Pair<T>>::from_val);
        let array = Stored::new("array", native, |h| Shape::seq(T::shape(h.of::<T>())), <[T; 3]>::from_val);
        let arrays = Stored::new("array in pair", pack, <Pair<[T; 3]>>::shape, <Pair<[T; 3]>>::from_val);
        let nested = Stored::new(
            "nested",
            native,
            |h| Shape::seq(Shape::seq(T::shape(h.of::<T>()))),
            |v| match v {
                Val::Seq(v) => v.iter().map(from_seq).collect::<Option<Vec<Vec<T>>>>(),
                _ => None,
            },
        );
        for (i, a) in all.iter().enumerate() {
            let b = &all[(i + 1) % all.len()];
            let x = &all[(i + 2) % all.len()];
            let w = Pair { a: a.clone(), b: 7 };
            fam.case(|| format!("{} {w:?}", F::NAME), || around::<F, _>(&pair, &w, &w.val()));
            let w = [a.clone(), b.clone(), x.clone()];
            fam.case(|| format!("{} {w:?}", F::NAME), || around::<F, _>(&array, &w, &seq_of(&w)));
            let w = Pair { a: [a.clone(), b.clone(), x.clone()], b: 7 };
            fam.case(|| format!("{} {w:?}", F::NAME), || around::<F, _>(&arrays, &w, &w.val()));
            let w = vec![vec![a.clone(), b.clone()], vec![], vec![x.clone()]];
            fam.case(
                || format!("{} {w:?}", F::NAME),
                || around::<F, _>(&nested, &w, &Val::Seq(w.iter().map(|v| seq_of(v)).collect())),
            );
        }
    });

    c.fam(format!("bytes/{name}/{}", F::NAME), move |fam| {
        let few = T::samples(fam.bound(2, 1));
        // Where the lowest byte of a length is.
        let least = dynamic::<F>()
            .enc(&Shape::seq(Shape::U8), &Val::Seq(vec![Val::U(7)]))
            .map_or(0, |b| b.iter().position(|&b| b == 1).unwrap_or(0));
        for n in 0..=fam.bound(2, 3) {
            for start in 0..few.len().min(fam.bound(2, 4)) {
                let v: Vec<T> = (0..n).map(|i| few[(start + i) % few.len()].clone()).collect();
                let Ok(b) = F::enc(&v) else { continue };
                for len in 0..b.len() {
                    fam.case(
                        || format!("{} {name} {v:?} first {len} bytes", F::NAME),
                        || decode::<F, T>(&b[..len]),
                    );
                }
                for at in 0..b.len() {
                    for x in 0..=255u8 {
                        // Lengths of nothing which are not for counting.
                        if x == b[at] || zero && (at != least || x > 0x7f) {
                            continue;
                        }
                        fam.case(
                            || format!("{} {name} {v:?} byte {at} is {x:#x}", F::NAME),
                            || {
                                let mut b = b.clone();
                                b[at] = x;
                                b.extend_from_slice(&[1, 0, 2]);
                                decode::<F, T>(&b)
                            },
                        );
                    }
                }
                if n == 0 {
                    break;
                }
            }
        }
    });
}

/// Around the size of what is read at once.
fn chunks<F: Format<Mode = Binary>, T: Elem>(c: &mut Check, name: &'static str) {
    c.fam(format!("chunks/{name}/{}", F::NAME), move |fam| {
        let few = T::samples(1);
        let size = std::mem::size_of::<T>();
        let chunk = 65536usize.div_ceil(size);
        for n in [chunk - 1, chunk, chunk + 1, 2 * chunk, 2 * chunk + 1] {
            if n > 2 * chunk && !fam.thorough() {
                continue;
            }
            let v = || -> Vec<T> { (0..n).map(|i| few[(i + i / 251) % few.len()].clone()).collect() };
            fam.case(
                || format!("{} {n} of {name}", F::NAME),
                || {
                    let v = v();
                    // What holds an array is known to be different.
                    let [s, _] = seq::<F, T>();
                    let want = dynamic::<F>().enc(&s.enc, &seq_of(&v)).unwrap();
                    let b = F::enc(&v).map_err(err)?;
                    ensure!(b == want, "encoded differently");
                    let d = rotated(&v, n / 3);
                    ensure!(F::enc(&d).as_ref() == Ok(&b), "VecDeque encoded differently");
                    let (w, rest) = F::dec_rest::<Vec<T>>(&b).map_err(err)?;
                    ensure!(w == v && rest == 0, "decoded differently");
                    let (w, rest) = F::dec_rest::<VecDeque<T>>(&b).map_err(err)?;
                    ensure!(w == d && rest == 0, "VecDeque decoded differently");
                    // Nothing less will do.
                    let head = b.len() - (b.len() - 8).min(n * size);
                    let mut cuts = vec![b.len() - 1, b.len() - size, head, head + 1];
                    for k in 1..=2 {
                        let at = head + k * chunk * size;
                        cuts.extend([at - size, at - 1, at, at + 1]);
                    }
                    for at in cuts {
                        if at >= b.len() {
                            continue;
                        }
                        ensure!(
                            F::dec_rest::<Vec<T>>(&b[..at]).is_err(),
                            "decoded from the first {at} of {} bytes",
                            b.len()
                        );
                    }
                    Ok(Fp::new().str(F::NAME).str(name).u64(n as u64).done())
                },
            );
        }
    });
}

/// Atomics are only decoded.
fn atomics<F: Format<Mode = Binary>>(c: &mut Check) {
    macro_rules! atomic {
        ($($a:ident $t:ident)*) => { $(
            c.fam(format!("atomic/{}/{}", stringify!($a), F::NAME), move |fam| {
                let few = $t::samples(2);
                for n in 0..=2 {
                    let v: Vec<$t> = (0..n).map(|i| few[i % few.len()].clone()).collect();
                    let Ok(b) = F::enc(&v) else { continue };
                    let mut all = vec![b.clone()];
                    for at in 0..b.len() {
                        all.push(b[..at].to_vec());
                        for x in 0..=255u8 {
                            let mut b = b.clone();
                            b[at] = x;
                            all.push(b);
                        }
                    }
                    for b in all {
                        fam.case(
                            || format!("{} {} {}", F::NAME, stringify!($a), hex(&b)),
                            || {
                                let want = F::dec_rest::<Vec<$t>>(&b);
                                let got = F::dec_rest::<Vec<$a>>(&b).map(|(v, r)| {
                                    (v.iter().map(|v| v.load(Ordering::SeqCst)).collect::<Vec<_>>(), r)
                                });
                                ensure!(same(&got, &want), "{got:?} is not {want:?}");
                                Ok(Fp::new().bytes(&b).done())
                            },
                        );
                    }
                }
            });
        )* };
    }
    atomic! {
        AtomicBool bool AtomicU8 u8 AtomicI8 i8 AtomicU16 u16 AtomicI16 i16 AtomicU32 u32
        AtomicI32 i32 AtomicU64 u64 AtomicI64 i64 AtomicUsize usize AtomicIsize isize
    }
}

macro_rules! each_elem {
    ($m:ident $($a:tt)*) => {
        $m! { ($($a)*)
            [u8] [u16] [u32] [u64] [u128] [usize] [i8] [i16] [i32] [i64] [i128] [isize]
            [Single] [Double] [bool] [char] [()] [PhantomData<u8>] [String]
            [NonZeroU8] [NonZeroU16] [NonZeroU32] [NonZeroU64] [NonZeroU128] [NonZeroUsize]
            [NonZeroI8] [NonZeroI16] [NonZeroI32] [NonZeroI64] [NonZeroI128] [NonZeroIsize]
            [Wrapping<u16>] [Wrapping<bool>] [Wrapping<NonZeroU8>]
            [Box<u32>] [Rc<u16>] [Arc<bool>] [Pair<u16>] [Vec<u16>] [Vec<bool>]
            [[u8; 3]] [[u16; 2]] [[u8; 0]] [[i64; 1]] [[(); 2]] [[[u8; 2]; 2]] [[Single; 2]]
            [[bool; 2]] [[char; 1]] [[NonZeroU16; 2]] [[String; 2]] [[Pair<u8>; 2]] [[Wrapping<u32>; 2]]
            [[Two; 2]] [[Padded; 2]] [[Checked; 2]] [[[bool; 1]; 2]]
            [Two] [Small] [Padded] [Tail] [TailByte] [Hole] [Nested] [NestedPadded] [NestedTail]
            [Aligned] [Checked] [Mixed] [Pointers] [Floats] [Wide] [Array] [ArrayOdd] [ArrayBool]
            [Units] [Owned] [Boxed] [Over] [OverExact] [Wrapped] [Transparent]
            [TransparentChecked] [WithField] [Ordered] [Empty]
            [RustOrder] [RustTwo] [RustBytes] [RustWide]
        }
    };
}

fn main() {
    let mut c = Check::new(
        "P27",
        Level::Exploration,
        "every element type in every container under every option set is encoded to and decoded \
         from the bytes which encoding and decoding its numbers one by one gives",
    );
    c.assume("the dynamic encoder and decoder of the harness handle one number at a time");
    macro_rules! run {
        (($c:ident $f:ident) $([$($t:tt)*])*) => { $( fam::<$f, $($t)*>(&mut $c, stringify!($($t)*)); )* };
    }
    each_elem!(run c StorageFix);
    each_elem!(run c StorageFixBe);
    each_elem!(run c StorageVar);
    each_elem!(run c StorageFixVarL);
    each_elem!(run c PackedDef);
    each_elem!(run c PackedFixBe);
    macro_rules! more {
        ($($f:ident)*) => { $( some::<$f>(&mut c); )* };
    }
    more! {
        StorageFixU8 StorageFixU16 StorageFixU32Be StorageVarU16 StorageVarU32Be StorageVarFloatFix
        StorageFixFloatVar StorageFixFloatInt PackedVar PackedVarU16 PackedFloatVar
        WireVar WireFix WireFixBe DescVar DescFix
    }
    macro_rules! large {
        ($($f:ident)*) => { $(
            chunks::<$f, u8>(&mut c, "u8");
            chunks::<$f, u16>(&mut c, "u16");
            chunks::<$f, u64>(&mut c, "u64");
            chunks::<$f, u128>(&mut c, "u128");
            chunks::<$f, [u8; 3]>(&mut c, "[u8; 3]");
            chunks::<$f, Ordered>(&mut c, "Ordered");
            chunks::<$f, ArrayOdd>(&mut c, "ArrayOdd");
            chunks::<$f, bool>(&mut c, "bool");
            chunks::<$f, NonZeroU16>(&mut c, "NonZeroU16");
            atomics::<$f>(&mut c);
        )* };
    }
    large! { StorageFix StorageFixBe PackedDef }
    c.run();
}

/// Fewer elements for less common options.
fn some<F: Format<Mode = Binary>>(c: &mut Check) {
    macro_rules! run {
        ($([$($t:tt)*])*) => { $( fam::<F, $($t)*>(c, stringify!($($t)*)); )* };
    }
    run! {
        [u8] [u32] [i64] [usize] [Single] [Double] [bool] [char] [()] [NonZeroU32] [Wrapping<u16>]
        [[u8; 3]] [[u16; 2]] [[bool; 2]] [Two] [Padded] [Checked] [Floats] [Pointers] [Array] [Small]
    }
}
