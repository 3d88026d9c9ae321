//! P07: numbers and lengths have the documented byte representation and never
//! get truncated.

use std::cell::Cell;

use eng::*;
use kit::*;
use musli::alloc::Allocator;
use musli::de::{Decode, Decoder, MapDecoder, SequenceDecoder};
use musli::en::{Encode, Encoder, MapEncoder, SequenceEncoder};
use musli::options::{self, ByteOrder, Float, Integer, Options, Width};

kit::global_allocator!();

/// What a set of options asks for.
#[derive(Clone, Copy, Debug)]
struct Spec {
    kind: Kind,
    fixed: bool,
    big: bool,
    float: F,
    /// Bytes of a length, none if it is variable.
    width: Option<u32>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum F {
    Integer,
    Variable,
    Fixed,
}

impl Spec {
    /// From what does not change the options when it is asked for.
    fn of(kind: Kind, opt: Options) -> Spec {
        let is = |b: options::Builder| b.build() == opt;
        let o = || options::from_raw(opt);
        Spec {
            kind,
            fixed: is(o().integer(Integer::Fixed)),
            big: is(o().byte_order(ByteOrder::Big)),
            float: match () {
                _ if is(o().float(Float::Integer)) => F::Integer,
                _ if is(o().float(Float::Variable)) => F::Variable,
                _ => F::Fixed,
            },
            width: match () {
                _ if is(o().pointer(Width::Variable)) => None,
                _ if is(o().pointer(Width::U8)) => Some(1),
                _ if is(o().pointer(Width::U16)) => Some(2),
                _ if is(o().pointer(Width::U32)) => Some(4),
                _ => Some(8),
            },
        }
    }

    /// In this many bytes of the byte order.
    fn bytes(&self, n: u128, bytes: u32) -> Vec<u8> {
        let le = n.to_le_bytes();
        let mut v = le[..bytes as usize].to_vec();
        if self.big {
            v.reverse();
        }
        v
    }

    fn number(&self, b: &[u8]) -> u128 {
        let mut le = [0; 16];
        for (i, x) in b.iter().enumerate() {
            le[if self.big { b.len() - 1 - i } else { i }] = *x;
        }
        u128::from_le_bytes(le)
    }

    /// A length or a pointer sized number.
    fn length(&self, n: u128) -> Option<Vec<u8>> {
        match self.width {
            None => Some(leb(n)),
            Some(w) => (n < 1 << (8 * w)).then(|| self.bytes(n, w)),
        }
    }

    fn fixed_or_leb(&self, n: u128, bytes: u32, fixed: bool) -> Vec<u8> {
        if fixed {
            self.bytes(n, bytes)
        } else {
            leb(n)
        }
    }

    /// Whether the bits of a float are of fixed size.
    fn float_fixed(&self) -> bool {
        match self.float {
            F::Integer => self.fixed,
            F::Variable => false,
            F::Fixed => true,
        }
    }

    /// The bytes of a number or what is not one but looks like it.
    fn encode(&self, s: &Shape, v: &Val, float_fixed: bool) -> Option<Vec<u8>> {
        let zig = |n: i128| ((n << 1) ^ (n >> 127)) as u128;
        let (n, bytes, fixed) = match (s, v) {
            (Shape::Bool, Val::Bool(b)) => {
                return Some(match self.kind {
                    Kind::Wire => vec![0b1100_0000 | *b as u8],
                    Kind::Descriptive => vec![if *b { 0b1110_0010 } else { 0b1110_0011 }],
                    _ => vec![*b as u8],
                })
            }
            (Shape::Usize | Shape::Isize, v) if self.kind != Kind::Descriptive => {
                let n = match v {
                    Val::U(n) => *n,
                    Val::I(n) => *n as i64 as u64 as u128,
                    _ => return None,
                };
                if self.kind != Kind::Wire {
                    return self.length(n);
                }
                return Some(match self.width {
                    None if n < 63 => vec![0b1100_0000 | n as u8],
                    None => [vec![0xff], leb(n)].concat(),
                    Some(w) => [vec![0b0100_0000 | w as u8], self.length(n)?].concat(),
                });
            }
            (Shape::Char, Val::Char(c)) => (*c as u128, 4, self.fixed),
            (Shape::F32, Val::F32(n)) => (*n as u128, 4, float_fixed),
            (Shape::F64, Val::F64(n)) => (*n as u128, 8, float_fixed),
            (s, Val::U(n)) => (*n, s.bits() / 8, self.fixed),
            // Single bytes have no sign to move.
            (Shape::I8, Val::I(n)) if self.kind != Kind::Descriptive => {
                (*n as u8 as u128, 1, self.fixed)
            }
            (s, Val::I(n)) => (
                match self.kind {
                    Kind::Storage | Kind::Packed if self.fixed => *n as u128,
                    _ => zig(*n),
                },
                s.bits() / 8,
                self.fixed,
            ),
            _ => return None,
        };
        Some(match self.kind {
            Kind::Wire if fixed => [vec![0b0100_0000 | bytes as u8], self.bytes(n, bytes)].concat(),
            Kind::Wire if n < 63 => vec![0b1100_0000 | n as u8],
            Kind::Wire => [vec![0xff], leb(n)].concat(),
            Kind::Descriptive => {
                let kind = match s {
                    Shape::Char => return Some([vec![0b1110_0101], leb(n)].concat()),
                    Shape::F32 | Shape::F64 => 0b10,
                    s => !s.is_signed() as u8,
                };
                let width = (bytes * 8).trailing_zeros() as u8;
                [vec![0b0100_0000 | width << 2 | kind], leb(n)].concat()
            }
            _ if matches!(s, Shape::U8 | Shape::I8) => vec![n as u8],
            _ => self.fixed_or_leb(n, bytes, fixed),
        })
    }

    /// What the start of these bytes denotes as the type.
    fn decode(&self, s: &Shape, b: &[u8], float_fixed: bool) -> Is {
        let leb = |b: &[u8], at: usize| match unleb(&b[at..]) {
            None => Is::Nothing,
            Some((n, used, least)) => self.is(s, n, at + used, least),
        };
        let fixed = |b: &[u8], at: usize, bytes: u32| match b.get(at..at + bytes as usize) {
            None => Is::Nothing,
            Some(x) => self.is(s, Some(self.number(x)), at + x.len(), true),
        };
        let Some(&tag) = b.first() else {
            return Is::Nothing;
        };
        let float = matches!(s, Shape::F32 | Shape::F64);
        let is_fixed = if float { float_fixed } else { self.fixed };
        let bytes = match s {
            Shape::Bool => 1,
            Shape::Char | Shape::F32 => 4,
            Shape::F64 => 8,
            s => s.bits() / 8,
        };
        let len = matches!(s, Shape::Usize | Shape::Isize);
        match self.kind {
            Kind::Wire => match (
                s,
                if len {
                    self.width
                } else {
                    is_fixed.then_some(bytes)
                },
            ) {
                (Shape::Bool, _) => match tag {
                    0b1100_0000 => Is::Value(Val::Bool(false), 1, true),
                    0b1100_0001 => Is::Value(Val::Bool(true), 1, true),
                    _ => Is::Nothing,
                },
                (_, Some(w)) if tag == 0b0100_0000 | w as u8 => fixed(b, 1, w),
                (_, None) if tag == 0xff => leb(b, 1),
                (_, None) if tag >> 6 == 0b11 => self.is(s, Some((tag & 63) as u128), 1, true),
                _ => Is::Nothing,
            },
            Kind::Descriptive => match (s, tag >> 5) {
                (Shape::Bool, _) => match tag {
                    0b1110_0010 => Is::Value(Val::Bool(true), 1, true),
                    0b1110_0011 => Is::Value(Val::Bool(false), 1, true),
                    _ => Is::Nothing,
                },
                (Shape::Char, 0b111) if tag & 7 == 0b101 => match unleb(&b[1..]) {
                    None => Is::Nothing,
                    // Only three bits of it are a mark.
                    Some((n, used, least)) => self.is(s, n, 1 + used, least && tag == 0b1110_0101),
                },
                (Shape::Char, _) => Is::Nothing,
                (_, 0b010) => {
                    let Some((n, used, least)) = unleb(&b[1..]) else {
                        return Is::Nothing;
                    };
                    let used = 1 + used;
                    // The width which is told is no bound on the number.
                    let width = tag >> 2 & 7;
                    let told =
                        width >= 3 && n.is_some_and(|n| width == 7 || n < 1 << (1u32 << width));
                    let least = least && told;
                    match tag & 3 {
                        0b10 => match (s, n) {
                            (Shape::F32 | Shape::F64, Some(n)) => {
                                if 1 << width != bytes * 8 {
                                    // Any number it could be is not an exact one.
                                    return Is::Another;
                                }
                                if n >> (bytes * 8) != 0 {
                                    return Is::Nothing;
                                }
                                self.is(s, Some(n), used, least)
                            }
                            _ => Is::Another,
                        },
                        _ if float => Is::Another,
                        0b01 => match n {
                            Some(n) => self.number_is(s, false, n, used, least),
                            None => Is::Nothing,
                        },
                        0b00 => match n {
                            Some(n) => {
                                let m = (n >> 1) + (n & 1);
                                self.number_is(s, n & 1 == 1, m, used, least)
                            }
                            None => Is::Nothing,
                        },
                        _ => Is::Nothing,
                    }
                }
                _ => Is::Nothing,
            },
            _ => match s {
                Shape::Bool => match tag {
                    0 | 1 => Is::Value(Val::Bool(tag == 1), 1, true),
                    _ => Is::Nothing,
                },
                Shape::U8 | Shape::I8 => self.is(s, Some(tag as u128), 1, true),
                Shape::Usize | Shape::Isize => match self.width {
                    Some(w) => fixed(b, 0, w),
                    None => leb(b, 0),
                },
                _ if is_fixed => fixed(b, 0, bytes),
                _ => leb(b, 0),
            },
        }
    }

    /// A number with its sign.
    fn number_is(&self, s: &Shape, neg: bool, n: u128, used: usize, least: bool) -> Is {
        let bits = s.bits();
        let neg = neg && n != 0;
        if s.is_signed() {
            let max = 1u128 << (bits - 1);
            match neg {
                true if n <= max => Is::Value(Val::I((n as i128).wrapping_neg()), used, least),
                false if n < max => Is::Value(Val::I(n as i128), used, least),
                _ => Is::Nothing,
            }
        } else {
            match neg {
                false if bits == 128 || n >> bits == 0 => Is::Value(Val::U(n), used, least),
                _ => Is::Nothing,
            }
        }
    }

    /// What the bits of a number are as the type.
    fn is(&self, s: &Shape, n: Option<u128>, used: usize, least: bool) -> Is {
        let Some(n) = n else {
            return Is::Nothing;
        };
        let v = match s {
            Shape::Char => match u32::try_from(n).ok().and_then(char::from_u32) {
                Some(c) => Val::Char(c),
                None => return Is::Nothing,
            },
            Shape::F32 | Shape::F64 => match (s, u32::try_from(n), u64::try_from(n)) {
                (Shape::F32, Ok(n), _) => Val::F32(n),
                (Shape::F64, _, Ok(n)) => Val::F64(n),
                _ => return Is::Nothing,
            },
            Shape::Isize => match u64::try_from(n) {
                Ok(n) => Val::I(n as i64 as i128),
                Err(_) => return Is::Nothing,
            },
            s => {
                let bits = s.bits();
                if bits < 128 && n >> bits != 0 {
                    return Is::Nothing;
                }
                let zig = match self.kind {
                    Kind::Storage | Kind::Packed => !self.fixed,
                    _ => true,
                };
                if !s.is_signed() {
                    Val::U(n)
                } else if zig && *s != Shape::I8 {
                    Val::I((n >> 1) as i128 ^ -((n & 1) as i128))
                } else {
                    Val::I((n << (128 - bits)) as i128 >> (128 - bits))
                }
            }
        };
        Is::Value(v, used, least)
    }
}

enum Is {
    /// Nothing of that type, it has to be an error.
    Nothing,
    /// Something which may be refused or converted.
    Another,
    /// A value, the number of bytes of it, and whether that is how it is
    /// written: if not it may be refused.
    Value(Val, usize, bool),
}

/// Seven bits at a time, least significant first, in as few bytes as possible.
fn leb(mut n: u128) -> Vec<u8> {
    let mut out = Vec::new();
    loop {
        let b = (n & 127) as u8;
        n >>= 7;
        if n == 0 {
            out.push(b);
            return out;
        }
        out.push(b | 128);
    }
}

/// The number, none if it is huge, its length, and whether it is the shortest.
fn unleb(b: &[u8]) -> Option<(Option<u128>, usize, bool)> {
    let mut n = Some(0u128);
    for (i, &x) in b.iter().enumerate() {
        let d = (x & 127) as u128;
        if d != 0 {
            let at = 7 * i as u32;
            n = n
                .filter(|_| at < 128 && (d << at) >> at == d)
                .map(|n| n | d << at);
        }
        if x & 128 == 0 {
            return Some((n, i + 1, i == 0 || x != 0));
        }
    }
    None
}

const TYPES: [Shape; 16] = [
    Shape::Bool,
    Shape::Char,
    Shape::U8,
    Shape::U16,
    Shape::U32,
    Shape::U64,
    Shape::U128,
    Shape::Usize,
    Shape::I8,
    Shape::I16,
    Shape::I32,
    Shape::I64,
    Shape::I128,
    Shape::Isize,
    Shape::F32,
    Shape::F64,
];

/// Floats follow the option of integers, whatever their own one says: listed
/// as a known finding.
const FLOATS: &str = "float-option-ignored";

fn encoded<F: Format>(fam: &mut Fam<'_>, all: bool) {
    let spec = Spec::of(F::KIND, F::OPT);
    for s in &TYPES {
        let mut vs = values(s, 0);
        match s {
            Shape::U8 | Shape::U16 if all => vs = (0..1u128 << s.bits()).map(Val::U).collect(),
            Shape::I8 | Shape::I16 if all => {
                let n = 1i128 << (s.bits() - 1);
                vs = (-n..n).map(Val::I).collect();
            }
            Shape::Char if fam.thorough() => vs = ('\0'..=char::MAX).map(Val::Char).collect(),
            _ => {}
        }
        // Around every change of the length of a variable integer.
        if s.is_int() && s.bits() > 16 {
            for e in 0..=128 {
                for d in -2..=2i128 {
                    let n = 1u128.checked_shl(e).unwrap_or(0).wrapping_add(d as u128);
                    let i = n as i128;
                    let w = 128 - s.bits();
                    if s.is_signed() {
                        vs.extend([i, !i].map(|i| Val::I(i << w >> w)));
                    } else {
                        vs.push(Val::U(n << w >> w));
                    }
                }
            }
        }
        for v in &vs {
            fam.case(
                || format!("{v} as {s}"),
                || {
                    let got = F::enc(&Dyn(s, v));
                    let want = spec.encode(s, v, spec.float_fixed());
                    let id = Fp::new().str(F::NAME).str(&s.to_string());
                    let Some(want) = want else {
                        ensure!(got.is_err(), "encoded as {}", hex(&got.unwrap()));
                        return Ok(id.str("not").str(&v.to_string()).done());
                    };
                    let got = got?;
                    if got != want && spec.encode(s, v, spec.fixed).as_ref() == Some(&got) {
                        return Err(classified(
                            FLOATS,
                            format!("{} should be {}", hex(&got), hex(&want)),
                        ));
                    }
                    ensure!(got == want, "{} should be {}", hex(&got), hex(&want));
                    let (back, rest) = with_shape(s, || F::dec_rest::<Out>(&got))?;
                    ensure!(
                        back.0 == *v && rest == 0,
                        "decoded {} with {rest} bytes left from {}",
                        back.0,
                        hex(&got)
                    );
                    Ok(id.bytes(&got).done())
                },
            );
        }
    }
}

fn try_bytes<F: Format>(spec: &Spec, s: &Shape, b: &[u8]) -> Result<(), Failure> {
    let got = with_shape(s, || F::dec_rest::<Out>(b)).map(|(v, rest)| (v.0, b.len() - rest));
    // Known not to follow their option, see above.
    match (spec.decode(s, b, spec.fixed), got) {
        (Is::Nothing, Ok((v, _))) => fail!("{} decoded as {v}", hex(b)),
        (Is::Value(v, n, _), Ok(got)) => {
            ensure!(
                got == (v.clone(), n),
                "{} is {v} of {n} bytes, decoded {} of {}",
                hex(b),
                got.0,
                got.1
            )
        }
        (Is::Value(v, _, true), Err(e)) => fail!("{} is {v} but {e}", hex(b)),
        _ => {}
    }
    Ok(())
}

/// Every short sequence of bytes, and long ones of interesting bytes.
fn decoded<F: Format>(fam: &mut Fam<'_>, three: bool) {
    let spec = Spec::of(F::KIND, F::OPT);
    for s in &TYPES {
        for a in 0..=255u8 {
            fam.case(
                || format!("{s} from bytes starting with {a:02x}"),
                || {
                    try_bytes::<F>(&spec, s, &[a])?;
                    for b in 0..=255 {
                        try_bytes::<F>(&spec, s, &[a, b])?;
                    }
                    Ok(Fp::new()
                        .str(F::NAME)
                        .str(&s.to_string())
                        .u64(a as u64)
                        .done())
                },
            );
        }
        fam.count_transitions(257 * 256);
        if three
            && matches!(
                s,
                Shape::U16 | Shape::I16 | Shape::U32 | Shape::Usize | Shape::Char
            )
        {
            for a in 0..=255u8 {
                fam.case(
                    || format!("{s} from three bytes starting with {a:02x}"),
                    || {
                        for b in 0..=255 {
                            for c in 0..=255 {
                                try_bytes::<F>(&spec, s, &[a, b, c])?;
                            }
                            kit::progress();
                        }
                        Ok(Fp::new()
                            .str(F::NAME)
                            .str(&s.to_string())
                            .u64(300 + a as u64)
                            .done())
                    },
                );
            }
            fam.count_transitions(256 * 256 * 256);
        }
    }
}

fn decoded_long<F: Format>(fam: &mut Fam<'_>) {
    let spec = Spec::of(F::KIND, F::OPT);
    const LAST: [u8; 16] = [
        0, 1, 2, 3, 4, 7, 8, 0x0f, 0x10, 0x1f, 0x20, 0x3f, 0x40, 0x7e, 0x7f, 0x80,
    ];
    const OTHER: [u8; 8] = [0x00, 0x01, 0x7f, 0x80, 0x81, 0xc0, 0xfe, 0xff];
    let all = fam.thorough();
    let bases: &[u8] = if all {
        &[0x00, 0x80, 0x81, 0xff]
    } else {
        &[0x80, 0xff]
    };
    let last: &[u8] = if all {
        &LAST
    } else {
        &[0, 1, 2, 3, 4, 0x10, 0x40, 0x7f, 0x80]
    };
    let other: &[u8] = if all { &OTHER } else { &[0x00, 0x81, 0xfe] };
    for s in &TYPES {
        let tags: Vec<Vec<u8>> = match F::KIND {
            Kind::Wire => vec![
                vec![0xff],
                vec![0x41],
                vec![0x42],
                vec![0x44],
                vec![0x48],
                vec![0x50],
                vec![0x7f],
            ],
            Kind::Descriptive if fam.thorough() => {
                (0x40..0x60).chain([0xe5, 0xed]).map(|t| vec![t]).collect()
            }
            Kind::Descriptive => [
                0x4c, 0x4d, 0x50, 0x51, 0x55, 0x56, 0x58, 0x5a, 0x5c, 0x5d, 0xe5,
            ]
            .map(|t| vec![t])
            .into(),
            _ => vec![vec![]],
        };
        for tag in &tags {
            for len in 1..=20 {
                for &base in bases {
                    fam.case(
                        || format!("{s} from {} and {len} bytes {base:02x}", hex(tag)),
                        || {
                            let mut b = tag.clone();
                            b.resize(tag.len() + len, base);
                            let (first, end) = (tag.len(), b.len() - 1);
                            for &l in last {
                                b[end] = l;
                                try_bytes::<F>(&spec, s, &b)?;
                                b.push(0x55);
                                try_bytes::<F>(&spec, s, &b)?;
                                b.pop();
                                for i in first..end {
                                    for &o in other {
                                        b[i] = o;
                                        try_bytes::<F>(&spec, s, &b)?;
                                    }
                                    b[i] = base;
                                }
                            }
                            Ok(Fp::new().str(F::NAME).str(&s.to_string()).bytes(&b).done())
                        },
                    );
                    fam.count_transitions((last.len() * (2 + (len - 1) * other.len())) as u64);
                }
            }
        }
    }
}

thread_local! {
    static HINT: Cell<(u8, usize)> = const { Cell::new((0, 0)) };
}

/// Says it has a number of items, and has none of them.
struct Claim;

impl<M> Encode<M> for Claim {
    type Encode = Self;
    const IS_BITWISE_ENCODE: bool = false;
    fn encode<E: Encoder<Mode = M>>(&self, e: E) -> Result<(), E::Error> {
        match HINT.get() {
            (0, n) => e.encode_sequence(n)?.finish_sequence(),
            (1, n) => e.encode_map(n)?.finish_map(),
            (2, n) => {
                use musli::en::EntriesEncoder;
                e.encode_map_entries(n)?.finish_entries()
            }
            _ => Ok(()),
        }
    }
    fn as_encode(&self) -> &Self {
        self
    }
}

impl<'de, M: 'static, A: Allocator> Decode<'de, M, A> for Claim {
    const IS_BITWISE_DECODE: bool = false;
    fn decode<D: Decoder<'de, Mode = M, Allocator = A>>(d: D) -> Result<Self, D::Error> {
        match HINT.get().0 {
            0 => d.decode_sequence(|s| {
                HINT.set((0, s.size_hint().into_option().unwrap_or(usize::MAX)));
                Ok(Claim)
            }),
            _ => d.decode_map(|s| {
                HINT.set((1, s.size_hint().into_option().unwrap_or(usize::MAX)));
                Ok(Claim)
            }),
        }
    }
}

/// Lengths of everything that has one.
fn lengths<F: Format>(fam: &mut Fam<'_>) {
    let spec = Spec::of(F::KIND, F::OPT);
    // The tag of sequences and maps, strings and bytes.
    let tagged = |kind: u8, n: u128| -> Option<Vec<u8>> {
        let (max, tag) = match F::KIND {
            Kind::Wire => (63, [0x80, 0x80, 0x40, 0x40][kind as usize]),
            Kind::Descriptive => (31, [0x60, 0x80, 0xc0, 0xa0][kind as usize]),
            _ => return spec.length(n),
        };
        let n = if F::KIND == Kind::Wire && kind == 1 {
            n * 2
        } else {
            n
        };
        if n >> 64 != 0 {
            return None;
        }
        if n < max {
            return Some(vec![tag | n as u8]);
        }
        Some([vec![tag | max as u8], spec.length(n)?].concat())
    };
    let mut ns: Vec<u128> = (0..=130).collect();
    for e in 7..=64 {
        ns.extend([(1 << e) - 2, (1 << e) - 1, 1 << e, (1 << e) + 1]);
    }
    ns.retain(|n| n >> 64 == 0);
    ns.sort_unstable();
    ns.dedup();
    for &n in &ns {
        for kind in 0..3 {
            fam.case(
                || format!("{} of {n}", ["sequence", "map", "entries"][kind as usize]),
                || {
                    HINT.set((kind, n as usize));
                    let got = F::enc(&Claim);
                    let id = Fp::new().str(F::NAME).u64(kind as u64).u64(n as u64);
                    let Some(want) = tagged(kind.min(1), n) else {
                        ensure!(got.is_err(), "encoded as {}", hex(&got.unwrap()));
                        return Ok(id.done());
                    };
                    let got = got?;
                    ensure!(got == want, "{} should be {}", hex(&got), hex(&want));
                    HINT.set((kind, n as usize ^ 1));
                    let _ = F::dec::<Claim>(&got);
                    let said = HINT.get().1;
                    ensure!(said == n as usize, "{} is said to have {said}", hex(&got));
                    Ok(id.done())
                },
            );
        }
        if n > 70_000 {
            continue;
        }
        for kind in 2..4 {
            fam.case(
                || format!("{} of {n}", ["", "", "string", "bytes"][kind as usize]),
                || {
                    let s = "x".repeat(n as usize);
                    let (s, v) = match kind {
                        2 => (Shape::Str, Val::Str(s)),
                        _ => (Shape::Bytes, Val::Bytes(s.into_bytes())),
                    };
                    let got = F::enc(&Dyn(&s, &v));
                    let id = Fp::new().str(F::NAME).u64(kind as u64).u64(n as u64);
                    let Some(want) = tagged(kind, n) else {
                        ensure!(got.is_err(), "encoded {} bytes", got.unwrap().len());
                        return Ok(id.done());
                    };
                    let got = got?;
                    let head = got.len() - n as usize;
                    ensure!(
                        got[..head] == want,
                        "{} should be {}",
                        hex(&got[..head]),
                        hex(&want)
                    );
                    ensure!(
                        got[head..].iter().all(|&b| b == b'x'),
                        "the contents changed"
                    );
                    let (back, rest) = with_shape(&s, || F::dec_rest::<Out>(&got))?;
                    ensure!(
                        back.0 == v && rest == 0,
                        "decoded something else, {rest} bytes left"
                    );
                    Ok(id.done())
                },
            );
        }
    }
    // Whatever the header says, it is that or an error.
    let headers: Vec<Vec<u8>> = (0..=255)
        .map(|a| vec![a])
        .chain((0..=255).flat_map(|a| (0..=255).map(move |b| vec![a, b])))
        .chain((0..=255u8).flat_map(|t| {
            [0x00, 0x80, 0xff].into_iter().flat_map(move |base| {
                (2..=12).flat_map(move |len| {
                    [0x00, 0x01, 0x02, 0x03, 0x7f, 0x80]
                        .into_iter()
                        .map(move |last| {
                            let mut b = vec![base; len + 1];
                            b[0] = t;
                            b[len] = last;
                            b
                        })
                })
            })
        }))
        .collect();
    for kind in 0..2u8 {
        for chunk in headers.chunks(256) {
            fam.case(
                || {
                    format!(
                        "headers {}.. as {}",
                        hex(&chunk[0]),
                        ["a sequence", "a map"][kind as usize]
                    )
                },
                || {
                    for b in chunk {
                        const NONE: usize = usize::MAX - 77;
                        HINT.set((kind, NONE));
                        let _ = F::dec::<Claim>(b);
                        let said = HINT.get().1;
                        if said == NONE {
                            // Refused; nothing to tell from what was not told.
                            continue;
                        }
                        let (at, known) = match F::KIND {
                            Kind::Wire => (1, (b[0] & 63 != 63).then_some((b[0] & 63) as u128)),
                            Kind::Descriptive => {
                                (1, (b[0] & 31 != 31).then_some((b[0] & 31) as u128))
                            }
                            _ => (0, None),
                        };
                        let n = match (known, spec.width) {
                            (Some(n), _) => Some(n),
                            (None, None) => unleb(&b[at..]).and_then(|n| n.0),
                            (None, Some(w)) => b.get(at..at + w as usize).map(|b| spec.number(b)),
                        };
                        let Some(mut n) = n else {
                            fail!("{} is said to have {said}", hex(b))
                        };
                        if F::KIND == Kind::Wire && kind == 1 {
                            n /= 2;
                        }
                        ensure!(
                            said as u128 == n,
                            "{} is said to have {said}, not {n}",
                            hex(b)
                        );
                    }
                    Ok(Fp::new()
                        .str(F::NAME)
                        .u64(kind as u64)
                        .bytes(&chunk[0])
                        .done())
                },
            );
        }
        fam.count_transitions(headers.len() as u64);
    }
}

fn main() {
    let mut c = Check::new(
        "P07",
        Level::Exploration,
        "every number type x formats x (all values of 8 and 16 bits, every power of two and its neighbours for wider ones; every sequence of at most two (thorough: three) bytes; every sequence of up to twenty equal bytes with one of them and the last replaced), and every length around the powers of two; distinct by (format, type, message)",
    );
    c.assume("a number written with more bytes than it needs may be refused, but otherwise has to be that number");
    c.assume("descriptive numbers are always variable, as the documentation of its tags says");
    macro_rules! each {
        ($($f:ident)*) => { $(
            c.fam(format!("encode/{}", $f::NAME), |fam| encoded::<$f>(fam, true));
            c.fam_sharded(format!("decode/{}", $f::NAME), 4, |fam| decoded::<$f>(fam, fam.thorough()));
            c.fam_sharded(format!("long/{}", $f::NAME), 4, |fam| decoded_long::<$f>(fam));
            c.fam(format!("length/{}", $f::NAME), |fam| lengths::<$f>(fam));
        )* };
    }
    each!(StorageVar StorageFix StorageFixBe StorageFixU8 StorageVarU16 StorageVarU32Be StorageFixVarL StorageFixU32Be StorageFixU16);
    each!(StorageVarFloatFix StorageFixFloatVar StorageFixFloatInt);
    each!(WireVar WireFix WireFixBe WireFixU8 WireVarU16 WireVarU32Be WireFixVarL WireFixU32Be WireFixU16);
    each!(WireVarFloatFix WireFixFloatInt);
    each!(DescVar DescFix DescFixBe DescFixU8 DescVarU16 DescFixVarL);
    each!(PackedDef PackedVar PackedFixBe PackedVarU16 PackedFloatVar);
    // Every combination of the options.
    macro_rules! each_of {
        ($o:tt) => {
            each_of!(@ $o StorageOf WireOf DescOf PackedOf);
        };
        (@ $o:tt $($f:ident)*) => { $(
            c.fam(format!("encode/{}", $f::<$o>::NAME), |fam| encoded::<$f<$o>>(fam, fam.thorough()));
            c.fam(format!("decode/{}", $f::<$o>::NAME), |fam| if fam.thorough() || $f::<$o>::KIND != Kind::Descriptive && $f::<$o>::KIND != Kind::Packed { decoded::<$f<$o>>(fam, false) });
            c.fam(format!("length/{}", $f::<$o>::NAME), |fam| lengths::<$f<$o>>(fam));
        )* };
    }
    each_option!(each_of);
    c.run()
}
