//! Sample values of native types: every one of them for small types, boundary
//! values otherwise, products for composites.

use std::borrow::Cow;
use std::collections::*;
use std::rc::Rc;
use std::sync::Arc;

/// Level 0 is the richest, 3 the poorest.
pub trait Sample: Sized + Clone {
    fn samples(level: usize) -> Vec<Self>;
}

/// Pushes every combination of sampled fields: `each!(out l [Path] {} f: T, 0: U)`.
#[macro_export]
macro_rules! each {
    ($out:ident $l:ident [$($p:tt)*] {$($acc:tt)*}) => { $out.push($($p)* {$($acc)*}); };
    ($out:ident $l:ident [$($p:tt)*] {$($acc:tt)*} $f:tt : $t:ty $(, $($rest:tt)*)?) => {
        for x in <$t as $crate::Sample>::samples($l) {
            $crate::each!($out $l [$($p)*] {$($acc)* $f: x.clone(),} $($($rest)*)?);
        }
    };
}

/// `sample!(Name { a: u32, b: String })` or `sample!(Name: A {}, B { 0: u32 })`.
#[macro_export]
macro_rules! sample {
    ($n:ident $(<$($g:ty),*>)? { $($fields:tt)* }) => {
        impl $crate::Sample for $n $(<$($g),*>)? {
            #[allow(unused_variables)]
            fn samples(level: usize) -> Vec<Self> {
                let mut out = Vec::new();
                let l = level + 1;
                $crate::each!(out l [Self] {} $($fields)*);
                out
            }
        }
    };
    ($n:ident $(<$($g:ty),*>)? : $($v:ident { $($fields:tt)* }),* $(,)?) => {
        impl $crate::Sample for $n $(<$($g),*>)? {
            #[allow(unused_variables)]
            fn samples(level: usize) -> Vec<Self> {
                let mut out = Vec::new();
                let l = level + 1;
                $( $crate::each!(out l [Self::$v] {} $($fields)*); )*
                out
            }
        }
    };
}

macro_rules! unsigned {
    ($($t:ident)*) => { $(
        impl Sample for $t {
            fn samples(level: usize) -> Vec<Self> {
                match level {
                    0 => crate::unsigned($t::BITS).into_iter().map(|v| v as $t).collect(),
                    1 => vec![0, 127, $t::MAX / 3, $t::MAX],
                    2 => vec![0, $t::MAX / 3 * 2],
                    _ => vec![$t::MAX / 3],
                }
            }
        }
    )* };
}
macro_rules! signed {
    ($($t:ident)*) => { $(
        impl Sample for $t {
            fn samples(level: usize) -> Vec<Self> {
                match level {
                    0 => crate::signed($t::BITS).into_iter().map(|v| v as $t).collect(),
                    1 => vec![0, -1, $t::MIN, $t::MAX / 3],
                    2 => vec![-2, $t::MAX],
                    _ => vec![$t::MIN / 3],
                }
            }
        }
    )* };
}
unsigned!(u8 u16 u32 u64 u128 usize);
signed!(i8 i16 i32 i64 i128 isize);

impl Sample for () {
    fn samples(_: usize) -> Vec<Self> {
        vec![()]
    }
}
impl Sample for bool {
    fn samples(level: usize) -> Vec<Self> {
        if level > 2 {
            vec![true]
        } else {
            vec![false, true]
        }
    }
}
impl Sample for char {
    fn samples(level: usize) -> Vec<Self> {
        match level {
            0 => crate::chars(),
            1 => vec!['a', '"', '\u{e9}', '\u{10ffff}'],
            2 => vec!['\0', '\u{ffff}'],
            _ => vec!['\u{1f600}'],
        }
    }
}
impl Sample for f32 {
    fn samples(level: usize) -> Vec<Self> {
        match level {
            0 | 1 => vec![0.0, -0.0, 0.1, -1.5e30, f32::MIN_POSITIVE, 16777216.0],
            2 => vec![0.1, -2.0],
            _ => vec![-0.1],
        }
    }
}
impl Sample for f64 {
    fn samples(level: usize) -> Vec<Self> {
        match level {
            0 | 1 => vec![0.0, -0.0, 0.1, -1.5e300, f64::MIN_POSITIVE, 9007199254740993.0],
            2 => vec![0.1, -2.0],
            _ => vec![-0.1],
        }
    }
}
impl Sample for String {
    fn samples(level: usize) -> Vec<Self> {
        match level {
            0 => crate::strings(0),
            1 => vec![String::new(), "a\"\\\n".into(), "h\u{e9}\u{1f600}".into()],
            2 => vec!["".into(), "x/\u{7f}".into()],
            _ => vec!["yz".into()],
        }
    }
}
impl<T: Sample> Sample for Option<T> {
    fn samples(level: usize) -> Vec<Self> {
        let mut v: Vec<Self> = vec![None];
        v.extend(T::samples(level).into_iter().map(Some));
        v
    }
}
impl<T: Sample, E: Sample> Sample for Result<T, E> {
    fn samples(level: usize) -> Vec<Self> {
        let mut v: Vec<Self> = T::samples(level).into_iter().map(Ok).collect();
        v.extend(E::samples(level).into_iter().map(Err));
        v
    }
}

fn seqs<T: Sample>(level: usize) -> Vec<Vec<T>> {
    let e = T::samples(level + 1);
    let mut v = vec![vec![], e.clone()];
    if level < 2 {
        for x in &e {
            v.push(vec![x.clone()]);
        }
        v.push(vec![e[0].clone(); 2]);
        v.push((0..35).map(|i| e[i % e.len()].clone()).collect());
    }
    if level == 0 {
        for n in [3, 31, 32, 33, 64, 130, 300] {
            v.push((0..n).map(|i| e[i % e.len()].clone()).collect());
        }
    }
    if level > 2 {
        v.remove(0);
    }
    v
}

impl<T: Sample> Sample for Vec<T> {
    fn samples(level: usize) -> Vec<Self> {
        seqs(level)
    }
}
impl<T: Sample> Sample for VecDeque<T> {
    fn samples(level: usize) -> Vec<Self> {
        seqs::<T>(level)
            .into_iter()
            .enumerate()
            .map(|(i, v)| {
                // Half of them wrap around in their buffer.
                let mut d = VecDeque::with_capacity(v.len() + 1);
                if i % 2 == 0 && !v.is_empty() {
                    let cut = v.len() / 2;
                    for x in v[cut..].iter() {
                        d.push_back(x.clone());
                    }
                    for x in v[..cut].iter().rev() {
                        d.push_front(x.clone());
                    }
                } else {
                    d.extend(v);
                }
                d
            })
            .collect()
    }
}
impl<T: Sample> Sample for LinkedList<T> {
    fn samples(level: usize) -> Vec<Self> {
        seqs(level).into_iter().map(|v| v.into_iter().collect()).collect()
    }
}
impl<T: Sample + Ord> Sample for BTreeSet<T> {
    fn samples(level: usize) -> Vec<Self> {
        seqs(level).into_iter().map(|v| v.into_iter().collect()).collect()
    }
}
impl<T: Sample + Eq + std::hash::Hash> Sample for HashSet<T> {
    fn samples(level: usize) -> Vec<Self> {
        seqs(level).into_iter().map(|v| v.into_iter().collect()).collect()
    }
}
fn maps<K: Sample, V: Sample>(level: usize) -> Vec<Vec<(K, V)>> {
    let k = K::samples(level);
    let v = V::samples(level + 1);
    let mut out = vec![
        k.iter()
            .enumerate()
            .map(|(i, k)| (k.clone(), v[i % v.len()].clone()))
            .collect(),
    ];
    if level < 3 {
        out.push(vec![]);
    }
    if level < 2 {
        for v in v {
            out.push(vec![(k[0].clone(), v)]);
        }
    }
    out
}
impl<K: Sample + Ord, V: Sample> Sample for BTreeMap<K, V> {
    fn samples(level: usize) -> Vec<Self> {
        maps(level).into_iter().map(|v| v.into_iter().collect()).collect()
    }
}
impl<K: Sample + Eq + std::hash::Hash, V: Sample> Sample for HashMap<K, V> {
    fn samples(level: usize) -> Vec<Self> {
        maps(level).into_iter().map(|v| v.into_iter().collect()).collect()
    }
}
impl<T: Sample> Sample for Box<T> {
    fn samples(level: usize) -> Vec<Self> {
        T::samples(level).into_iter().map(Box::new).collect()
    }
}
impl<T: Sample> Sample for Rc<T> {
    fn samples(level: usize) -> Vec<Self> {
        T::samples(level).into_iter().map(Rc::new).collect()
    }
}
impl<T: Sample> Sample for Arc<T> {
    fn samples(level: usize) -> Vec<Self> {
        T::samples(level).into_iter().map(Arc::new).collect()
    }
}
impl<T: Sample> Sample for Box<[T]> {
    fn samples(level: usize) -> Vec<Self> {
        seqs(level).into_iter().map(|v| v.into()).collect()
    }
}
impl Sample for Box<str> {
    fn samples(level: usize) -> Vec<Self> {
        String::samples(level).into_iter().map(|v| v.into()).collect()
    }
}
impl Sample for Cow<'static, str> {
    fn samples(level: usize) -> Vec<Self> {
        String::samples(level).into_iter().map(Cow::Owned).collect()
    }
}
impl<T: Sample, const N: usize> Sample for [T; N] {
    fn samples(level: usize) -> Vec<Self> {
        let e = T::samples(level + 1);
        let mut v: Vec<Self> = e
            .iter()
            .map(|x| std::array::from_fn(|_| x.clone()))
            .collect();
        v.push(std::array::from_fn(|i| e[i % e.len()].clone()));
        if N == 0 {
            v.truncate(1);
        }
        v
    }
}
macro_rules! tuple {
    ($($t:ident $i:tt),*) => {
        impl<$($t: Sample),*> Sample for ($($t,)*) {
            fn samples(level: usize) -> Vec<Self> {
                let l = level + 1;
                let _ = l;
                $( #[allow(non_snake_case)] let $t = $t::samples(l); )*
                let n = 1usize $( .max($t.len()) )*;
                let mut out: Vec<Self> = Vec::new();
                for k in 0..n {
                    out.push(($( $t[(k + $i) % $t.len()].clone(), )*));
                    out.push(($( $t[k % $t.len()].clone(), )*));
                }
                out
            }
        }
    };
}
tuple!(A 0);
tuple!(A 0, B 1);
tuple!(A 0, B 1, C 2);
tuple!(A 0, B 1, C 2, D 3);
tuple!(A 0, B 1, C 2, D 3, E 4);
tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7);
tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11);
tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, M 12, N 13, O 14, P 15);
impl<T> Sample for std::marker::PhantomData<T> {
    fn samples(_: usize) -> Vec<Self> {
        vec![std::marker::PhantomData]
    }
}
