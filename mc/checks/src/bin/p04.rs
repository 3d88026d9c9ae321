//! P04: skipping a value consumes exactly what decoding it would consume.

use std::cell::Cell;

use eng::*;
use kit::*;
use musli::alloc::Allocator;
use musli::de::{
    Decode, Decoder, EntriesDecoder, EntryDecoder, MapDecoder, SequenceDecoder, VariantDecoder,
    Visitor,
};
use musli::Context;

kit::global_allocator!();

thread_local! {
    /// How the value at hand is consumed.
    static MODE: Cell<Mode> = const { Cell::new(Mode::Skip) };
    /// The number of elements or entries the value has.
    static LEN: Cell<usize> = const { Cell::new(0) };
    static SUB: Cell<*const Shape> = const { Cell::new(std::ptr::null()) };
    static DONE: Cell<bool> = const { Cell::new(false) };
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Mode {
    /// Decoder::skip.
    Skip,
    /// Decoder::try_skip.
    TrySkip,
    /// decode_sequence, read n elements.
    Seq(usize),
    /// decode_sequence, skip n elements.
    SeqSkip(usize),
    /// decode_sequence_hint with the number of elements there are, read n.
    SeqHint(usize),
    /// decode_any, read n elements of the sequence.
    SeqAny(usize),
    /// decode_any, skip n elements of the sequence.
    SeqAnySkip(usize),
    /// decode_pack, read n elements of the shape.
    Pack(usize),
    /// decode_map, read n entries.
    Map(usize),
    /// decode_map, read n keys, skip the values.
    MapSkip(usize),
    /// decode_map, skip n keys and values.
    MapSkipKeys(usize),
    /// decode_map_hint with the number of entries there are, read n.
    MapHint(usize),
    /// decode_any, read n entries of the map.
    MapAny(usize),
    /// decode_any, read n keys of the map and skip their values.
    MapAnySkip(usize),
    /// decode_any, read n entries of the map as its remaining entries.
    AnyRemaining(usize),
    /// decode_map_entries, read n entries.
    Entries(usize),
    /// decode_map_entries, read keys, skip values of n entries.
    EntriesSkip(usize),
    /// decode_map, one entry, then decode_remaining_entries, n entries, end_entries.
    Remaining(usize),
    /// decode_variant, skip tag and value.
    VariantSkip,
    /// decode_variant, read the tag, skip the value.
    VariantTag,
    /// decode_any, read the tag of the variant, skip the value.
    VariantAny,
}

/// Consumes what is visited according to the mode.
struct Part<'a>(&'a Shape);

#[musli::de::visitor]
impl<'de, C> Visitor<'de, C> for Part<'_>
where
    C: Context,
{
    type Ok = ();

    fn expecting(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "a container")
    }
    fn visit_sequence<D>(self, q: &mut D) -> Result<(), Self::Error>
    where
        D: ?Sized + SequenceDecoder<'de, Cx = C, Error = Self::Error, Allocator = Self::Allocator>,
    {
        let Shape::Seq(s) = self.0 else { unreachable!() };
        match MODE.with(|m| m.get()) {
            Mode::SeqAny(n) => {
                for _ in 0..n {
                    read(s, q.decode_next()?)?;
                }
            }
            Mode::SeqAnySkip(n) => {
                for _ in 0..n {
                    q.decode_next()?.skip()?;
                }
            }
            _ => unreachable!(),
        }
        Ok(())
    }
    fn visit_map<D>(self, m: &mut D) -> Result<(), Self::Error>
    where
        D: ?Sized + MapDecoder<'de, Cx = C, Error = Self::Error, Allocator = Self::Allocator>,
    {
        match MODE.with(|m| m.get()) {
            Mode::MapAny(n) => read_entries(self.0, m, n, false, false),
            Mode::MapAnySkip(n) => read_entries(self.0, m, n, false, true),
            Mode::AnyRemaining(n) => {
                let mut r = m.decode_remaining_entries()?;
                let cx = r.cx();
                for i in 0..n {
                    let (k, v) = entry(self.0, i);
                    match r.decode_entry_key()? {
                        Some(d) => read(&k, d)?,
                        None => return Err(m_none(cx)),
                    };
                    read(&v, r.decode_entry_value()?)?;
                }
                r.end_entries()
            }
            _ => unreachable!(),
        }
    }
    fn visit_variant<D>(self, v: &mut D) -> Result<(), Self::Error>
    where
        D: ?Sized + VariantDecoder<'de, Cx = C, Error = Self::Error, Allocator = Self::Allocator>,
    {
        let Shape::Enum(vs) = self.0 else { unreachable!() };
        read(&key_shape(&vs[0].0), v.decode_tag()?)?;
        v.decode_value()?.skip()
    }
}

fn m_none<C: Context>(cx: C) -> C::Error {
    cx.message("no entry")
}

fn key_shape(k: &Key) -> Shape {
    match k {
        Key::S(_) => Shape::Str,
        Key::U(_) => Shape::Usize,
        Key::I(_) => Shape::I32,
    }
}

/// The shapes of an entry of a map or struct.
fn entry(shape: &Shape, i: usize) -> (Shape, Shape) {
    match shape {
        Shape::Map(k, v) => ((**k).clone(), (**v).clone()),
        Shape::Struct(f) => (key_shape(&f[i].0), f[i].1.clone()),
        _ => unreachable!(),
    }
}

fn read_entries<'de, D: ?Sized + MapDecoder<'de>>(
    shape: &Shape,
    m: &mut D,
    n: usize,
    skip_keys: bool,
    skip_values: bool,
) -> Result<(), D::Error> {
    let cx = m.cx();
    for i in 0..n {
        let (k, v) = entry(shape, i);
        let Some(mut e) = m.decode_entry()? else {
            return Err(m_none(cx));
        };
        if skip_keys {
            e.decode_key()?.skip()?;
        } else {
            read(&k, e.decode_key()?)?;
        }
        if skip_values {
            e.decode_value()?.skip()?;
        } else {
            read(&v, e.decode_value()?)?;
        }
    }
    Ok(())
}

/// Consumes a value according to the mode.
struct Eat;

impl<'de, M: 'static, A: Allocator> Decode<'de, M, A> for Eat {
    fn decode<D>(d: D) -> Result<Self, D::Error>
    where
        D: Decoder<'de, Mode = M, Allocator = A>,
    {
        eat(d)?;
        Ok(Eat)
    }
}

fn read<'de, D: Decoder<'de>>(s: &Shape, d: D) -> Result<Val, D::Error> {
    with_shape(s, || d.decode::<Out>()).map(|o| o.0)
}

fn eat<'de, D: Decoder<'de>>(d: D) -> Result<(), D::Error> {
    let cx = d.cx();
    let shape = SUB.with(|c| c.get());
    // SAFETY: set around every use below.
    let shape = unsafe { &*shape };
    let entry = |i: usize| entry(shape, i);
    let r = match MODE.with(|m| m.get()) {
        Mode::Skip => d.skip(),
        Mode::TrySkip => {
            if d.try_skip()?.is_unsupported() {
                return Err(cx.message("skipping is unsupported"));
            }
            Ok(())
        }
        Mode::Seq(n) => d.decode_sequence(|q| {
            let Shape::Seq(s) = shape else { unreachable!() };
            for _ in 0..n {
                read(s, q.decode_next()?)?;
            }
            Ok(())
        }),
        Mode::SeqHint(n) => d.decode_sequence_hint(LEN.with(|l| l.get()), |q| {
            let Shape::Seq(s) = shape else { unreachable!() };
            for _ in 0..n {
                read(s, q.decode_next()?)?;
            }
            Ok(())
        }),
        Mode::SeqAny(_)
        | Mode::SeqAnySkip(_)
        | Mode::MapAny(_)
        | Mode::MapAnySkip(_)
        | Mode::AnyRemaining(_)
        | Mode::VariantAny => d.decode_any(Part(shape)),
        Mode::SeqSkip(n) => d.decode_sequence(|q| {
            for _ in 0..n {
                q.decode_next()?.skip()?;
            }
            Ok(())
        }),
        Mode::Pack(n) => d.decode_pack(|q| {
            let Shape::Pack(s) = shape else { unreachable!() };
            for s in &s[..n] {
                read(s, q.decode_next()?)?;
            }
            Ok(())
        }),
        Mode::Map(n) => d.decode_map(|m| read_entries(shape, m, n, false, false)),
        Mode::MapSkip(n) => d.decode_map(|m| read_entries(shape, m, n, false, true)),
        Mode::MapSkipKeys(n) => d.decode_map(|m| read_entries(shape, m, n, true, true)),
        Mode::MapHint(n) => d.decode_map_hint(LEN.with(|l| l.get()), |m| {
            read_entries(shape, m, n, false, false)
        }),
        Mode::Entries(n) | Mode::EntriesSkip(n) => {
            let mode = MODE.with(|m| m.get());
            d.decode_map_entries(|m| {
                for i in 0..n {
                    let (k, v) = entry(i);
                    match m.decode_entry_key()? {
                        Some(d) => read(&k, d)?,
                        None => return Err(cx.message("no entry")),
                    };
                    if matches!(mode, Mode::Entries(_)) {
                        read(&v, m.decode_entry_value()?)?;
                    } else {
                        m.decode_entry_value()?.skip()?;
                    }
                }
                Ok(())
            })
        }
        Mode::Remaining(n) => d.decode_map(|m| {
            let (k, v) = entry(0);
            {
                let Some(mut e) = m.decode_entry()? else {
                    return Err(cx.message("no entry"));
                };
                read(&k, e.decode_key()?)?;
                read(&v, e.decode_value()?)?;
            }
            let mut r = m.decode_remaining_entries()?;
            for i in 0..n {
                let (k, v) = entry(i + 1);
                match r.decode_entry_key()? {
                    Some(d) => read(&k, d)?,
                    None => return Err(cx.message("no entry")),
                };
                read(&v, r.decode_entry_value()?)?;
            }
            r.end_entries()
        }),
        Mode::VariantSkip => d.decode_variant(|v| {
            v.decode_tag()?.skip()?;
            v.decode_value()?.skip()
        }),
        Mode::VariantTag => d.decode_variant(|v| {
            let Shape::Enum(vs) = shape else { unreachable!() };
            read(&key_shape(&vs[0].0), v.decode_tag()?)?;
            v.decode_value()?.skip()
        }),
    };
    r?;
    DONE.with(|c| c.set(true));
    Ok(())
}

/// The value to eat, inside of a larger structure which is decoded normally.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Around {
    Top,
    /// [x, x] with the first eaten.
    Seq,
    /// A two-field struct, first eaten, second a sentinel.
    Struct,
    /// A map with the value eaten, followed by another entry.
    Entries,
    /// An option.
    Some,
    /// A variant.
    Variant,
}

const AROUND: [Around; 6] = [
    Around::Top,
    Around::Seq,
    Around::Struct,
    Around::Entries,
    Around::Some,
    Around::Variant,
];

thread_local! {
    static AROUND_NOW: Cell<Around> = const { Cell::new(Around::Top) };
}

/// Decodes the structure around, and checks what follows the eaten value.
struct Scene(bool);

impl<'de, M: 'static, A: Allocator> Decode<'de, M, A> for Scene {
    fn decode<D>(d: D) -> Result<Self, D::Error>
    where
        D: Decoder<'de, Mode = M, Allocator = A>,
    {
        let cx = d.cx();
        let shape = SUB.with(|c| c.get());
        // SAFETY: set around every use below.
        let shape = unsafe { &*shape };
        Ok(Scene(match AROUND_NOW.with(|a| a.get()) {
            Around::Top => {
                d.decode::<Eat>()?;
                true
            }
            Around::Seq => d.decode_sequence(|q| {
                q.decode_next()?.decode::<Eat>()?;
                let v = read(shape, q.decode_next()?)?;
                if q.try_decode_next()?.is_some() {
                    return Err(cx.message("too many"));
                }
                Ok(EXPECT.with(|e| e.borrow().as_ref() == Some(&v)))
            })?,
            Around::Struct => d.decode_map(|m| {
                {
                    let Some(mut e) = m.decode_entry()? else {
                        return Err(cx.message("no entry"));
                    };
                    read(&Shape::Str, e.decode_key()?)?;
                    e.decode_value()?.decode::<Eat>()?;
                }
                let ok = {
                    let Some(mut e) = m.decode_entry()? else {
                        return Err(cx.message("no entry"));
                    };
                    let k = read(&Shape::Str, e.decode_key()?)?;
                    let v = read(&Shape::U16, e.decode_value()?)?;
                    k == Val::Str("z".into()) && v == Val::U(0x1234)
                };
                if m.decode_entry()?.is_some() {
                    return Err(cx.message("too many"));
                }
                Ok(ok)
            })?,
            Around::Entries => d.decode_map_entries(|m| {
                match m.decode_entry_key()? {
                    Some(k) => read(&Shape::Str, k)?,
                    None => return Err(cx.message("no entry")),
                };
                m.decode_entry_value()?.decode::<Eat>()?;
                let k = match m.decode_entry_key()? {
                    Some(k) => read(&Shape::Str, k)?,
                    None => return Err(cx.message("no entry")),
                };
                let v = read(&Shape::U16, m.decode_entry_value()?)?;
                Ok(k == Val::Str("z".into()) && v == Val::U(0x1234))
            })?,
            Around::Some => match d.decode_option()? {
                Some(d) => {
                    d.decode::<Eat>()?;
                    true
                }
                None => false,
            },
            Around::Variant => d.decode_variant(|v| {
                let t = read(&Shape::Str, v.decode_tag()?)?;
                v.decode_value()?.decode::<Eat>()?;
                Ok(t == Val::Str("T".into()))
            })?,
        }))
    }
}

thread_local! {
    static EXPECT: std::cell::RefCell<Option<Val>> = const { std::cell::RefCell::new(None) };
}

fn around(a: Around, s: &Shape, v: &Val) -> (Shape, Val) {
    match a {
        Around::Top => (s.clone(), v.clone()),
        Around::Seq => (
            Shape::seq(s.clone()),
            Val::Seq(vec![v.clone(), v.clone()]),
        ),
        Around::Struct | Around::Entries => (
            Shape::Struct(vec![(Key::S("a"), s.clone()), (Key::S("z"), Shape::U16)]),
            Val::Struct(vec![v.clone(), Val::U(0x1234)]),
        ),
        Around::Some => (
            Shape::opt(s.clone()),
            Val::Opt(Some(Box::new(v.clone()))),
        ),
        Around::Variant => (
            Shape::Enum(vec![(Key::S("T"), s.clone())]),
            Val::Enum(0, Box::new(v.clone())),
        ),
    }
}

fn main() {
    let mut c = Check::new(
        "P04",
        Level::Exploration,
        "every shape x value x option set, encoded, then consumed by skip/try_skip or read in part in every way, alone and inside of every container; non-trivial when the encoding is not empty; distinct by (format, bytes, how it was consumed)",
    );
    c.assume("a decoder handed out for an element, key or value is consumed (the traits mark them must_use); packed elements cannot be skipped individually because packed data has no tags");
    macro_rules! fams {
        ($($t:ident)*) => { $( fam::<$t>(&mut c); )* };
    }
    each_format!(fams);
    // Every combination of the options.
    macro_rules! each_of {
        ($o:tt) => {
            fam::<StorageOf<$o>>(&mut c);
            fam::<WireOf<$o>>(&mut c);
            fam::<DescOf<$o>>(&mut c);
        };
    }
    each_option!(each_of);
    c.run()
}

fn fam<F: Format>(c: &mut Check) {
    if F::KIND == Kind::Packed {
        return;
    }
    if F::KIND.skips() {
        c.fam(format!("skip-leaf/{}", F::NAME), |fam| {
            for s in leaves() {
                for v in values(&s, 0) {
                    for a in AROUND {
                        one::<F>(fam, a, &s, &v, Mode::Skip, true);
                    }
                    one::<F>(fam, Around::Struct, &s, &v, Mode::TrySkip, true);
                }
            }
        });
        c.fam(format!("skip-container/{}", F::NAME), |fam| {
            for s in containers(&leaves(), &[Shape::U8, Shape::Str]) {
                for v in values(&s, 0) {
                    one::<F>(fam, Around::Top, &s, &v, Mode::Skip, true);
                    one::<F>(fam, Around::Struct, &s, &v, Mode::Skip, true);
                }
            }
        });
        c.fam(format!("skip-nested/{}", F::NAME), |fam| {
            for s in nested(&class_leaves()) {
                for v in values(&s, if fam.thorough() { 1 } else { 2 }) {
                    one::<F>(fam, Around::Struct, &s, &v, Mode::Skip, true);
                    if fam.thorough() {
                        for a in AROUND {
                            one::<F>(fam, a, &s, &v, Mode::Skip, true);
                        }
                    }
                }
            }
        });
    }
    // Reading in part: all formats, an error is also fine.
    c.fam(format!("partial/{}", F::NAME), |fam| {
        let mut shapes = containers(
            &[Shape::U8, Shape::Str, Shape::Usize, Shape::Bytes, Shape::U64],
            &[Shape::U16, Shape::F32],
        );
        let base: &[Shape] = if fam.thorough() {
            &[Shape::U8, Shape::Str, Shape::Usize, Shape::Unit]
        } else {
            &[Shape::U8, Shape::Str]
        };
        shapes.extend(nested(base));
        for s in shapes {
            let mut vals = values(&s, 2);
            // Sequences and maps of several elements to leave unread.
            if let Shape::Seq(e) = &s {
                let e = values(e, 2);
                vals.push(Val::Seq((0..4).map(|i| e[i % e.len()].clone()).collect()));
            }
            if let Shape::Map(k, e) = &s {
                let k = values(k, 1);
                let e = values(e, 2);
                if k.len() >= 4 {
                    vals.push(Val::Map(
                        (0..4).map(|i| (k[i].clone(), e[i % e.len()].clone())).collect(),
                    ));
                }
            }
            for v in vals {
                for (m, whole) in modes::<F>(&s, &v) {
                    for a in AROUND {
                        one::<F>(fam, a, &s, &v, m, whole);
                    }
                }
            }
        }
    });
}

/// Ways of consuming the value, and whether that is all of it (and must succeed).
fn modes<F: Format>(s: &Shape, v: &Val) -> Vec<(Mode, bool)> {
    let skips = F::KIND.skips();
    // Whether decode_any is there.
    let any = matches!(F::KIND, Kind::Descriptive | Kind::Json);
    let mut out = Vec::new();
    match (s, v) {
        (Shape::Seq(_), Val::Seq(v)) => {
            for n in 0..=v.len() {
                out.push((Mode::Seq(n), n == v.len()));
                out.push((Mode::SeqHint(n), n == v.len()));
                if any {
                    out.push((Mode::SeqAny(n), n == v.len()));
                    out.push((Mode::SeqAnySkip(n), n == v.len()));
                }
                if skips {
                    out.push((Mode::SeqSkip(n), n == v.len()));
                }
            }
        }
        (Shape::Pack(s), _) => {
            for n in 0..=s.len() {
                // Storage does not record the length of a pack, so only whole
                // packs can be read there.
                if n < s.len() && !skips {
                    continue;
                }
                out.push((Mode::Pack(n), n == s.len()));
            }
        }
        (Shape::Map(..) | Shape::Struct(_), v) => {
            let len = match v {
                Val::Map(v) => v.len(),
                Val::Struct(v) => v.len(),
                _ => unreachable!(),
            };
            for n in 0..=len {
                let all = n == len;
                out.push((Mode::Map(n), all));
                out.push((Mode::MapHint(n), all));
                if any {
                    out.push((Mode::MapAny(n), all));
                    out.push((Mode::MapAnySkip(n), all));
                    out.push((Mode::AnyRemaining(n), all));
                }
                out.push((Mode::Entries(n), all));
                if n > 0 {
                    out.push((Mode::Remaining(n - 1), all));
                }
                if skips {
                    out.push((Mode::MapSkip(n), all));
                    out.push((Mode::EntriesSkip(n), all));
                    out.push((Mode::MapSkipKeys(n), all));
                }
            }
        }
        (Shape::Enum(_), _) if skips => {
            out.push((Mode::VariantSkip, true));
            out.push((Mode::VariantTag, true));
            if F::KIND == Kind::Descriptive {
                out.push((Mode::VariantAny, true));
            }
        }
        _ => {}
    }
    out
}

fn one<F: Format>(fam: &mut Fam<'_>, a: Around, s: &Shape, v: &Val, mode: Mode, whole: bool) {
    let (os, ov) = around(a, s, v);
    if !supports(F::KIND, F::OPT, &os) || !fits(F::OPT, &os, &ov) {
        return;
    }
    if F::KIND == Kind::Json && (ov.non_finite() || ov.null_in_some()) {
        return;
    }
    if options_in(F::KIND, &os) != Opts::Fine {
        return;
    }
    fam.case(
        || format!("{} {os} = {ov}, {s} consumed by {mode:?} in {a:?}", F::NAME),
        || {
            let mut b = F::enc(&Dyn(&os, &ov))?;
            let len = b.len();
            let suffix: &[u8] = if F::KIND == Kind::Json {
                b",7"
            } else {
                b"\x01\xff\x00"
            };
            b.extend_from_slice(suffix);
            MODE.with(|m| m.set(mode));
            LEN.with(|l| {
                l.set(match v {
                    Val::Seq(v) => v.len(),
                    Val::Map(v) => v.len(),
                    Val::Struct(v) => v.len(),
                    _ => 0,
                })
            });
            SUB.with(|m| m.set(s));
            AROUND_NOW.with(|m| m.set(a));
            EXPECT.with(|e| *e.borrow_mut() = Some(v.clone()));
            DONE.with(|d| d.set(false));
            match F::dec_rest::<Scene>(&b) {
                Ok((scene, rest)) => {
                    ensure!(
                        scene.0,
                        "what follows the consumed value decodes wrongly in {}",
                        hex(&b)
                    );
                    ensure!(
                        rest == suffix.len(),
                        "left {rest} bytes, not {} of {}",
                        suffix.len(),
                        hex(&b)
                    );
                }
                Err(e) => {
                    ensure!(!whole, "failed: {e} in {}", hex(&b));
                    // The failure has to come from the partial read itself,
                    // not from later data that was misread.
                    ensure!(
                        !DONE.with(|d| d.get()),
                        "data after the partly read value was misread: {e} in {}",
                        hex(&b)
                    );
                }
            }
            Ok(if len == 0 {
                0
            } else {
                Fp::new().str(F::NAME).bytes(&b).str(&format!("{mode:?}{a:?}")).done()
            })
        },
    );
}
