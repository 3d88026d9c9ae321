//! P06: a truncated message is rejected.

use eng::*;
use kit::*;

kit::global_allocator!();

/// Is the document complete only once its last byte is there?
fn delimited(b: &[u8]) -> bool {
    matches!(b.last(), Some(b'"' | b']' | b'}' | b'e' | b'l'))
}

fn cuts(
    kind: Kind,
    b: &[u8],
    mut dec: impl FnMut(&[u8]) -> Result<String, String>,
) -> CaseResult {
    if kind == Kind::Json && !delimited(b) {
        return Ok(0);
    }
    for n in 0..b.len() {
        // The inside of long strings and bytes is uniform.
        if b.len() > 1024 && n > 256 && n + 256 < b.len() && (n + 1) & n > 2 {
            continue;
        }
        if let Ok(got) = dec(&b[..n]) {
            fail!(
                "the first {n} of {} bytes of {} decode as {got}",
                b.len(),
                hex(b)
            );
        }
    }
    Ok(b.len() as u64)
}

fn truncate(fam: &mut Fam<'_>, f: &'static dyn DynFormat, s: &Shape, v: &Val) {
    if !supports(f.kind(), f.opt(), s) || !fits(f.opt(), s, v) {
        return;
    }
    if f.kind() == Kind::Json && v.non_finite() {
        return;
    }
    // The end of packed data is how it marks an option that is missing.
    if options_in(f.kind(), s) != Opts::Fine {
        return;
    }
    let mut n = 0;
    fam.case(
        || format!("{} {s} = {v}", f.name()),
        || {
            let b = f.enc(s, v)?;
            // The same from the end of the input and from the middle of it.
            cuts(f.kind(), &b, |b| f.dec(s, b).map(|v| v.to_string()))?;
            cuts(f.kind(), &b, |b| f.dec_rest(s, b).map(|(v, _)| v.to_string()))?;
            n = b.len();
            Ok(if b.is_empty() {
                0
            } else {
                Fp::new().str(f.name()).bytes(&b).done()
            })
        },
    );
    fam.count_transitions(2 * n as u64);
}

fn zoo<F: Format, T: InFormat<F>>(c: &mut Check) {
    if !T::WHERE.ok(F::KIND) {
        return;
    }
    c.fam(format!("zoo/{}/{}", T::NAME, F::NAME), |fam| {
        let level = if fam.thorough() { 0 } else { 1 };
        for v in T::samples(level) {
            fam.case(
                || format!("{} {} {v:?}", F::NAME, T::NAME),
                || {
                    let b = match v.fenc() {
                        Ok(b) => b,
                        Err(e) if e.contains("out of bounds") && pointer_width(F::OPT).is_some() => {
                            return Ok(0)
                        }
                        Err(e) => fail!("encoding failed: {e}"),
                    };
                    cuts(F::KIND, &b, |b| T::fdec(b).map(|v| format!("{v:?}")))?;
                    if T::WHERE != Where::Clone {
                        cuts(F::KIND, &b, |b| {
                            T::fdec_rest(b).map(|(v, _)| format!("{v:?}"))
                        })?;
                    }
                    Ok(if b.is_empty() {
                        0
                    } else {
                        Fp::new().str(F::NAME).str(T::NAME).bytes(&b).done()
                    })
                },
            );
        }
    });
}

macro_rules! types {
    ($c:ident $f:ident; $($t:ident)*) => { $( zoo::<$f, $t>(&mut $c); )* };
}

fn main() {
    let mut c = Check::new(
        "P06",
        Level::FaultEnumeration,
        "every strict prefix of the encoding of every value of every shape (and of every derived type) in every format, decoded from a slice and from a mutable reference to one; a case is one message with all of its prefixes, non-trivial when it is not empty, distinct by (format, bytes)",
    );
    c.assume("JSON documents that end in a number are excluded: their end is not delimited");
    c.assume("messages of more than 1024 bytes (long strings and bytes) are cut at 256 places at either end and around powers of two");
    c.assume("packed data marks a missing option by its end, so it is only truncated where it holds no options");
    let mut fmts: Vec<Box<dyn DynFormat>> = each_format!(dyn_vec);
    // Every combination of the options.
    macro_rules! each_of {
        ($o:tt) => {
            fmts.extend::<Vec<Box<dyn DynFormat>>>(vec![
                Box::new(Of(StorageOf::<$o>)),
                Box::new(Of(WireOf::<$o>)),
                Box::new(Of(DescOf::<$o>)),
                Box::new(Of(PackedOf::<$o>)),
            ]);
        };
    }
    each_option!(each_of);
    for f in fmts {
        let f: &'static dyn DynFormat = Box::leak(f);
        c.fam(format!("leaf/{}", f.name()), move |fam| {
            for s in leaves() {
                for v in values(&s, 0) {
                    // The long strings are in containers at a lower level.
                    truncate(fam, f, &s, &v);
                }
            }
        });
        c.fam(format!("container/{}", f.name()), move |fam| {
            for s in containers(&leaves(), &[Shape::U8, Shape::Str]) {
                for v in values(&s, if fam.thorough() { 0 } else { 1 }) {
                    truncate(fam, f, &s, &v);
                }
            }
        });
        let of = f.name().contains("-float");
        c.fam(format!("nested/{}", f.name()), move |fam| {
            if of && !fam.thorough() {
                return;
            }
            let base = if fam.thorough() { leaves() } else { class_leaves() };
            for s in nested(&base) {
                for v in values(&s, if fam.thorough() { 1 } else { 2 }) {
                    truncate(fam, f, &s, &v);
                }
            }
        });
    }
    each_zoo!(types c StorageVar);
    each_zoo!(types c StorageFix);
    each_zoo!(types c WireVar);
    each_zoo!(types c WireFixU8);
    each_zoo!(types c DescVar);
    each_zoo!(types c DescFix);
    each_zoo!(types c PackedDef);
    each_zoo!(types c JsonText);
    each_zoo!(types c JsonBinary);
    c.run()
}
