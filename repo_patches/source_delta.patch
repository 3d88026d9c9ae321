From 60e8525af714d60a7ed98abe4870ab85e7aeecef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:51 +0000
Subject: [PATCH 01/67] fix: storage: hand over the remaining entries in
 decode_remaining_entries

The map decoder kept its own count of remaining entries after handing the
rest of the map over to the remaining-entries decoder, so that decode_map
always failed with 'Caller did not decode all available map entries'.
---
 crates/musli/src/storage/de.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/musli/src/storage/de.rs b/crates/musli/src/storage/de.rs
index b31d326..5780910 100644
--- a/crates/musli/src/storage/de.rs
+++ b/crates/musli/src/storage/de.rs
@@ -1,6 +1,6 @@
 use core::fmt;
 use core::marker::PhantomData;
-use core::mem::MaybeUninit;
+use core::mem::{take, MaybeUninit};
 
 use crate::alloc::Vec;
 use crate::de::{
@@ -579,7 +579,7 @@ where
         Ok(LimitedStorageDecoder::with_remaining(
             self.cx,
             self.reader.borrow_mut(),
-            self.remaining,
+            take(&mut self.remaining),
         ))
     }
 }
-- 
2.43.0


From 045457ebe938be41614d6bebd840b60f0c06f54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:37 +0000
Subject: [PATCH 02/67] fix: wire: write the actual size of a fixed width
 length in its prefix

The tag said twice the number of bytes that follow, so that skipping a
usize or isize field skipped too much.
---
 crates/musli/src/wire/int.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/musli/src/wire/int.rs b/crates/musli/src/wire/int.rs
index ec0579b..6cff502 100644
--- a/crates/musli/src/wire/int.rs
+++ b/crates/musli/src/wire/int.rs
@@ -27,7 +27,7 @@ where
         }
         width => {
             let bo = crate::options::byteorder::<OPT>();
-            let bytes = 1u8 << width as u8;
+            let bytes = 1u8 << (width as u8 - 1);
             writer.write_byte(cx, Tag::new(Kind::Prefix, bytes).byte())?;
 
             macro_rules! fixed {
@@ -72,7 +72,7 @@ where
         width => {
             let bo = crate::options::byteorder::<OPT>();
 
-            let bytes = 1u8 << width as u8;
+            let bytes = 1u8 << (width as u8 - 1);
             let tag = Tag::from_byte(reader.read_byte(cx)?);
 
             if tag != Tag::new(Kind::Prefix, bytes) {
-- 
2.43.0


From df0b3b6be87024491c9e1cb84b3e395957048c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:37 +0000
Subject: [PATCH 03/67] fix: descriptive: skip all remaining elements of a
 sequence that is read in part

---
 crates/musli/src/descriptive/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/musli/src/descriptive/de.rs b/crates/musli/src/descriptive/de.rs
index ff17a9f..4a5e039 100644
--- a/crates/musli/src/descriptive/de.rs
+++ b/crates/musli/src/descriptive/de.rs
@@ -198,7 +198,7 @@ where
 
     #[inline]
     fn skip_sequence_remaining(mut self) -> Result<(), C::Error> {
-        if let Some(item) = self.try_decode_next()? {
+        while let Some(item) = self.try_decode_next()? {
             item.skip()?;
         }
 
-- 
2.43.0


From c130b0b896dac4073984d0a32224be283a68607b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:55 +0000
Subject: [PATCH 04/67] fix: value: write the unit value when encoding
 something empty

Nothing was written, so that a sequence lost its unit elements and an
option its unit content.
---
 crates/musli/src/value/en.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/musli/src/value/en.rs b/crates/musli/src/value/en.rs
index 028431a..8a46ae1 100644
--- a/crates/musli/src/value/en.rs
+++ b/crates/musli/src/value/en.rs
@@ -128,6 +128,7 @@ where
 
     #[inline]
     fn encode_empty(self) -> Result<(), Self::Error> {
+        self.output.write(self.cx, Value::Unit)?;
         Ok(())
     }
 
-- 
2.43.0


From 57832404ee58e78dd855e904a601034e8c9a4b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:23 +0000
Subject: [PATCH 05/67] fix: value: decode options from values that do not mark
 them

A value buffered from JSON holds null or the content itself, which made
internally tagged enums with optional fields undecodable.
---
 crates/musli/src/value/de.rs    | 12 +++++++++---
 crates/musli/src/value/error.rs |  4 ----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/crates/musli/src/value/de.rs b/crates/musli/src/value/de.rs
index 346fe35..40defc5 100644
--- a/crates/musli/src/value/de.rs
+++ b/crates/musli/src/value/de.rs
@@ -258,9 +258,15 @@ where
 
     #[inline]
     fn decode_option(self) -> Result<Option<Self::DecodeSome>, Self::Error> {
-        ensure!(self, hint, ExpectedOption(hint), Value::Option(option) => {
-            Ok(option.as_ref().map(|some| ValueDecoder::new(self.cx, some)))
-        })
+        match self.value {
+            Value::Option(option) => {
+                Ok(option.as_ref().map(|some| ValueDecoder::new(self.cx, some)))
+            }
+            // Formats like JSON do not mark options, they are either null or
+            // the value itself.
+            Value::Unit => Ok(None),
+            _ => Ok(Some(self)),
+        }
     }
 
     #[inline]
diff --git a/crates/musli/src/value/error.rs b/crates/musli/src/value/error.rs
index 1b58042..d3ea7cc 100644
--- a/crates/musli/src/value/error.rs
+++ b/crates/musli/src/value/error.rs
@@ -22,7 +22,6 @@ pub(crate) enum ErrorMessage {
     ExpectedBytes(TypeHint),
     ExpectedString(TypeHint),
     ExpectedStringAsNumber,
-    ExpectedOption(TypeHint),
     ExpectedSequence(TypeHint),
     ExpectedPack(TypeHint),
     ExpectedMap(TypeHint),
@@ -61,9 +60,6 @@ impl fmt::Display for ErrorMessage {
             ErrorMessage::ExpectedStringAsNumber => {
                 write!(f, "Value buffer expected string containing number")
             }
-            ErrorMessage::ExpectedOption(hint) => {
-                write!(f, "Value buffer expected option, but found {hint}")
-            }
             ErrorMessage::ExpectedSequence(hint) => {
                 write!(f, "Value buffer expected sequence, but found {hint}")
             }
-- 
2.43.0


From 9795626a93f3cf98f6a3dc4bef55c52137e4ce06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:23 +0000
Subject: [PATCH 06/67] fix: value: decode floats from any kind of number

JSON buffers 1.0 as an integer and everything else as f64, neither of
which could be decoded as the float it was.
---
 crates/musli/src/value/de.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/musli/src/value/de.rs b/crates/musli/src/value/de.rs
index 40defc5..64b7fda 100644
--- a/crates/musli/src/value/de.rs
+++ b/crates/musli/src/value/de.rs
@@ -211,12 +211,12 @@ where
 
     #[inline]
     fn decode_f32(self) -> Result<f32, Self::Error> {
-        ensure!(self, hint, ExpectedNumber(NumberHint::F32, hint), Value::Number(Number::F32(n)) => Ok(*n))
+        ensure_number!(self, OPT, F32, Value::Number(n) => f32)
     }
 
     #[inline]
     fn decode_f64(self) -> Result<f64, Self::Error> {
-        ensure!(self, hint, ExpectedNumber(NumberHint::F64, hint), Value::Number(Number::F64(n)) => Ok(*n))
+        ensure_number!(self, OPT, F64, Value::Number(n) => f64)
     }
 
     #[inline]
-- 
2.43.0


From c2cb3eac96559e42239c3b356e8c9634fde58efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:43 +0000
Subject: [PATCH 07/67] fix: value: reject floats that are not the integer
 being decoded

They were cast, so that 1.5 became 1 and 1e30 the largest integer.
---
 crates/musli/src/value/de.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/crates/musli/src/value/de.rs b/crates/musli/src/value/de.rs
index 64b7fda..e3f2e87 100644
--- a/crates/musli/src/value/de.rs
+++ b/crates/musli/src/value/de.rs
@@ -726,6 +726,18 @@ trait FromNumber: Sized {
     fn parse_number(string: &str) -> Option<Self>;
 }
 
+/// Convert a float to an integer if it has exactly the value of one.
+macro_rules! float_to_integer {
+    ($ty:ty, $float:ty, $value:expr) => {{
+        let value: $float = $value;
+        let out = value as $ty;
+        // Casts saturate, and a maximum which is not representable as a float
+        // is rounded up when it is cast back.
+        let saturated = out == <$ty>::MAX && <$ty>::MAX.count_ones() > <$float>::MANTISSA_DIGITS;
+        (out as $float == value && !saturated).then_some(out)
+    }};
+}
+
 macro_rules! integer_from {
     ($ty:ty, $variant:ident) => {
         impl FromNumber for $ty {
@@ -746,8 +758,8 @@ macro_rules! integer_from {
                     Number::I128(n) => Self::try_from(*n).ok(),
                     Number::Usize(n) => Self::try_from(*n).ok(),
                     Number::Isize(n) => Self::try_from(*n).ok(),
-                    Number::F32(v) => Some(*v as $ty),
-                    Number::F64(v) => Some(*v as $ty),
+                    Number::F32(v) => float_to_integer!($ty, f32, *v),
+                    Number::F64(v) => float_to_integer!($ty, f64, *v),
                 };
 
                 match out {
-- 
2.43.0


From a74aa75050c19d0fd7c652824c176878d7b4368b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:08 +0000
Subject: [PATCH 08/67] fix: value: decode characters and bytes buffered from
 JSON

JSON writes them as strings and sequences of numbers, and an internally
tagged enum that holds them could not be decoded.
---
 crates/musli/src/value/de.rs | 66 +++++++++++++++++++++++++++++++-----
 1 file changed, 58 insertions(+), 8 deletions(-)

diff --git a/crates/musli/src/value/de.rs b/crates/musli/src/value/de.rs
index e3f2e87..f86a38e 100644
--- a/crates/musli/src/value/de.rs
+++ b/crates/musli/src/value/de.rs
@@ -4,7 +4,7 @@ use core::fmt;
 use core::marker::PhantomData;
 use core::slice;
 
-use crate::alloc::Allocator;
+use crate::alloc::{Allocator, Vec};
 use crate::de::UnsizedVisitor;
 use crate::de::{
     AsDecoder, Decoder, EntriesDecoder, EntryDecoder, MapDecoder, SequenceDecoder, SizeHint, Skip,
@@ -156,7 +156,23 @@ where
 
     #[inline]
     fn decode_char(self) -> Result<char, Self::Error> {
-        ensure!(self, hint, ExpectedChar(hint), Value::Char(c) => Ok(*c))
+        match self.value {
+            Value::Char(c) => Ok(*c),
+            // Formats like JSON represent a character as a string.
+            Value::String(string) => {
+                let mut chars = string.chars();
+
+                match (chars.next(), chars.next()) {
+                    (Some(c), None) => Ok(c),
+                    _ => Err(self
+                        .cx
+                        .message(ErrorMessage::ExpectedChar(self.value.type_hint()))),
+                }
+            }
+            value => Err(self
+                .cx
+                .message(ErrorMessage::ExpectedChar(value.type_hint()))),
+        }
     }
 
     #[inline]
@@ -231,9 +247,27 @@ where
 
     #[inline]
     fn decode_array<const N: usize>(self) -> Result<[u8; N], Self::Error> {
-        ensure!(self, hint, ExpectedBytes(hint), Value::Bytes(bytes) => {
-            <[u8; N]>::try_from(bytes.as_slice()).map_err(|_| self.cx.message(ErrorMessage::ArrayOutOfBounds))
-        })
+        match self.value {
+            Value::Bytes(bytes) => <[u8; N]>::try_from(bytes.as_slice())
+                .map_err(|_| self.cx.message(ErrorMessage::ArrayOutOfBounds)),
+            // Formats like JSON represent bytes as a sequence of numbers.
+            Value::Sequence(sequence) => {
+                if sequence.len() != N {
+                    return Err(self.cx.message(ErrorMessage::ArrayOutOfBounds));
+                }
+
+                let mut array = [0; N];
+
+                for (to, value) in array.iter_mut().zip(sequence.iter()) {
+                    *to = ValueDecoder::<OPT, _, _, M>::new(self.cx, value).decode_u8()?;
+                }
+
+                Ok(array)
+            }
+            value => Err(self
+                .cx
+                .message(ErrorMessage::ExpectedBytes(value.type_hint()))),
+        }
     }
 
     #[inline]
@@ -241,9 +275,25 @@ where
     where
         V: UnsizedVisitor<'de, C, [u8], Error = Self::Error, Allocator = Self::Allocator>,
     {
-        ensure!(self, hint, ExpectedBytes(hint), Value::Bytes(bytes) => {
-            visitor.visit_borrowed(self.cx, bytes)
-        })
+        match self.value {
+            Value::Bytes(bytes) => visitor.visit_borrowed(self.cx, bytes),
+            // Formats like JSON represent bytes as a sequence of numbers.
+            Value::Sequence(sequence) => {
+                let cx = self.cx;
+                let mut bytes =
+                    Vec::with_capacity_in(sequence.len(), cx.alloc()).map_err(cx.map())?;
+
+                for value in sequence.iter() {
+                    let byte = ValueDecoder::<OPT, _, _, M>::new(cx, value).decode_u8()?;
+                    bytes.push(byte).map_err(cx.map())?;
+                }
+
+                visitor.visit_owned(cx, bytes)
+            }
+            value => Err(self
+                .cx
+                .message(ErrorMessage::ExpectedBytes(value.type_hint()))),
+        }
     }
 
     #[inline]
-- 
2.43.0


From f4e420a216cc0d78a4e2bc8fb7bd542a77966273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:15 +0000
Subject: [PATCH 09/67] fix: value: decode variants which are buffered from a
 map with one entry

---
 crates/musli/src/value/de.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/crates/musli/src/value/de.rs b/crates/musli/src/value/de.rs
index f86a38e..8bd8c4b 100644
--- a/crates/musli/src/value/de.rs
+++ b/crates/musli/src/value/de.rs
@@ -372,9 +372,17 @@ where
     where
         F: FnOnce(&mut Self::DecodeVariant) -> Result<O, Self::Error>,
     {
-        ensure!(self, hint, ExpectedVariant(hint), Value::Variant(st) => {
-            f(&mut IterValueVariantDecoder::new(self.cx, st))
-        })
+        match self.value {
+            Value::Variant(st) => f(&mut IterValueVariantDecoder::new(self.cx, st, false)),
+            // Formats which have no separate notion of a variant, like JSON,
+            // represent it as a map with a single entry.
+            Value::Map(st) if st.len() == 1 => {
+                f(&mut IterValueVariantDecoder::new(self.cx, &st[0], true))
+            }
+            value => Err(self
+                .cx
+                .message(ErrorMessage::ExpectedVariant(value.type_hint()))),
+        }
     }
 
     #[inline]
@@ -418,7 +426,7 @@ where
             ),
             Value::Variant(variant) => {
                 visitor.visit_variant(&mut IterValueVariantDecoder::<OPT, _, _, M>::new(
-                    self.cx, variant,
+                    self.cx, variant, false,
                 ))
             }
             Value::Option(Some(value)) => {
@@ -712,6 +720,7 @@ where
 {
     cx: C,
     pair: &'de (Value<A>, Value<A>),
+    map_key: bool,
     _marker: PhantomData<M>,
 }
 
@@ -722,10 +731,11 @@ where
     M: 'static,
 {
     #[inline]
-    const fn new(cx: C, pair: &'de (Value<A>, Value<A>)) -> Self {
+    const fn new(cx: C, pair: &'de (Value<A>, Value<A>), map_key: bool) -> Self {
         Self {
             cx,
             pair,
+            map_key,
             _marker: PhantomData,
         }
     }
@@ -758,6 +768,10 @@ where
 
     #[inline]
     fn decode_tag(&mut self) -> Result<Self::DecodeTag<'_>, Self::Error> {
+        if self.map_key {
+            return Ok(ValueDecoder::with_map_key(self.cx, &self.pair.0));
+        }
+
         Ok(ValueDecoder::new(self.cx, &self.pair.0))
     }
 
-- 
2.43.0


From 02131a5d33ec176b524b51e3f75b1e7fb73186e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:43 +0000
Subject: [PATCH 10/67] fix: json: check the arithmetic of integers, and ignore
 empty fractions and the exponent of zero

---
 crates/musli/src/json/parser/integer.rs | 43 +++++++++++++------------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/crates/musli/src/json/parser/integer.rs b/crates/musli/src/json/parser/integer.rs
index 8d5ea04..b9d2558 100644
--- a/crates/musli/src/json/parser/integer.rs
+++ b/crates/musli/src/json/parser/integer.rs
@@ -171,15 +171,19 @@ where
 
         let Self { mut base, m, e } = self;
 
-        if e == 0 {
-            if !m.value.is_zero() {
-                return Err(IntegerError::Decimal);
-            }
-
-            return Ok(base);
+        // Without a fraction, the number of digits after the decimal point has
+        // no bearing on the value, and zero is zero for any exponent.
+        if m.value.is_zero() {
+            return if base.is_zero() {
+                Ok(base)
+            } else if e >= 0 {
+                Ok(check!(base.checked_pow10(e as u32), IntegerOverflow))
+            } else {
+                Ok(check!(base.checked_neg_pow10(e.unsigned_abs()), Decimal))
+            };
         }
 
-        if e >= 0 {
+        if e > 0 {
             // Decoding the specified mantissa would result in a fractional number.
             let mantissa_exp = check!(e.checked_sub(m.exp).filter(|n| *n >= 0), Decimal) as u32;
 
@@ -195,10 +199,8 @@ where
             };
 
             Ok(base)
-        } else if !m.value.is_zero() {
-            Err(IntegerError::Decimal)
         } else {
-            Ok(check!(base.checked_neg_pow10(-e as u32), Decimal))
+            Err(IntegerError::Decimal)
         }
     }
 
@@ -474,7 +476,7 @@ where
 
     let e = if matches!(p.peek(), Some(b'e' | b'E')) {
         p.skip(cx, 1)?;
-        decode_exponent(cx, p, start)?
+        decode_exponent(cx, p)?
     } else {
         0
     };
@@ -484,13 +486,13 @@ where
 
 /// Decode an exponent.
 #[inline]
-fn decode_exponent<'de, P, C>(cx: C, mut p: P, start: &C::Mark) -> Result<i32, C::Error>
+fn decode_exponent<'de, P, C>(cx: C, mut p: P) -> Result<i32, C::Error>
 where
     P: Parser<'de>,
     C: Context,
 {
     let mut is_negative = false;
-    let mut e = 0u32;
+    let mut e = 0i32;
 
     match p.peek() {
         Some(b'-') => {
@@ -503,14 +505,13 @@ where
         _ => (),
     };
 
+    // Saturate, since the number might still be zero.
     while let Some(true) = p.peek().map(is_digit) {
-        e = digit(cx, e, p.borrow_mut(), start)?;
+        let d = p.read_byte(cx)? - b'0';
+        e = e.saturating_mul(10).saturating_add(i32::from(d));
     }
 
-    match if is_negative { e.negate() } else { e.signed() } {
-        Some(value) => Ok(value),
-        None => Err(cx.message_at(start, IntegerError::IntegerOverflow)),
-    }
+    Ok(if is_negative { -e } else { e })
 }
 
 /// Decode a single digit into `out`.
@@ -521,11 +522,13 @@ where
     P: Parser<'de>,
     C: Context,
 {
-    let Some(out) = out.checked_mul10() else {
+    let d = T::from_byte(p.read_byte(cx)? - b'0');
+
+    let Some(out) = out.checked_mul10().and_then(|out| out.checked_add(d)) else {
         return Err(cx.message_at(start, IntegerError::IntegerOverflow));
     };
 
-    Ok(out + T::from_byte(p.read_byte(cx)? - b'0'))
+    Ok(out)
 }
 
 /// Decode sequence of zeros.
-- 
2.43.0


From da46ac29915db6353986bcc4af227ec425a082f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:07 +0000
Subject: [PATCH 11/67] fix: json: decode numbers of unknown type precisely

---
 crates/musli/src/json/parser/integer.rs       | 262 +++++-------------
 .../musli/src/json/parser/mut_slice_parser.rs |   5 +
 crates/musli/src/json/parser/parser.rs        |  63 +++--
 crates/musli/src/json/parser/slice_parser.rs  |   5 +
 4 files changed, 129 insertions(+), 206 deletions(-)

diff --git a/crates/musli/src/json/parser/integer.rs b/crates/musli/src/json/parser/integer.rs
index b9d2558..c6fcf80 100644
--- a/crates/musli/src/json/parser/integer.rs
+++ b/crates/musli/src/json/parser/integer.rs
@@ -2,8 +2,7 @@ use crate::json::error::IntegerError;
 use crate::json::parser::Parser;
 use crate::Context;
 
-use self::traits::FromUnsigned;
-pub(crate) use self::traits::{Float, Signed, Unsigned};
+pub(crate) use self::traits::{Signed, Unsigned};
 
 /// Fully deconstructed parts of a signed number.
 #[non_exhaustive]
@@ -74,25 +73,6 @@ where
             None => Err(IntegerError::IntegerOverflow),
         }
     }
-
-    #[inline]
-    pub(crate) fn compute_float<F>(self) -> F
-    where
-        F: Float,
-        F: FromUnsigned<T::Unsigned>,
-    {
-        let Self {
-            is_negative,
-            unsigned: parts,
-        } = self;
-        let value = parts.compute_float::<F>();
-
-        if is_negative {
-            value.negate()
-        } else {
-            value
-        }
-    }
 }
 
 /// The mantissa, or anything after a decimal point.
@@ -104,32 +84,6 @@ pub(crate) struct Mantissa<T> {
     exp: i32,
 }
 
-impl<T> Mantissa<T>
-where
-    T: Unsigned,
-{
-    fn into_float<F>(self) -> Mantissa<F>
-    where
-        F: FromUnsigned<T>,
-    {
-        Mantissa {
-            value: self.value.into_float::<F>(),
-            exp: self.exp,
-        }
-    }
-}
-
-impl<F> Mantissa<F>
-where
-    F: Float,
-{
-    /// Compute as float with a negative exponent.
-    #[inline]
-    fn compute_float(self, e: i32) -> F {
-        self.value.pow10(e - self.exp)
-    }
-}
-
 impl<T> Default for Mantissa<T>
 where
     T: Unsigned,
@@ -203,16 +157,6 @@ where
             Err(IntegerError::Decimal)
         }
     }
-
-    #[inline]
-    pub(crate) fn compute_float<F>(self) -> F
-    where
-        F: Float,
-        F: FromUnsigned<T>,
-    {
-        let Self { base, m, e } = self;
-        base.into_float::<F>().pow10(e) + m.into_float::<F>().compute_float(e)
-    }
 }
 
 /// Implementation to skip over a well-formed JSON number.
@@ -263,6 +207,77 @@ where
     Ok(())
 }
 
+/// The sign and magnitude of a well-formed JSON number if it is an integer which
+/// fits in 128 bits.
+pub(crate) fn number_to_integer(number: &[u8]) -> Option<(bool, u128)> {
+    let (is_negative, number) = match number {
+        [b'-', rest @ ..] => (true, rest),
+        _ => (false, number),
+    };
+
+    let mut digits = number.iter();
+    let mut value = 0u128;
+    // The exponent of `value`.
+    let mut e = 0i32;
+    // Trailing zeros have no bearing on whether `value` overflows.
+    let mut zeros = 0u32;
+    let mut fraction = false;
+    let mut exponent = false;
+
+    for &b in digits.by_ref() {
+        match b {
+            b'.' => fraction = true,
+            b'e' | b'E' => {
+                exponent = true;
+                break;
+            }
+            b => {
+                zeros = zeros.checked_add(1)?;
+
+                if b != b'0' {
+                    if value != 0 {
+                        value = value.checked_pow10(zeros)?;
+                    }
+
+                    value = value.checked_add(u128::from(b - b'0'))?;
+                    zeros = 0;
+                }
+
+                if fraction {
+                    e = e.checked_sub(1)?;
+                }
+            }
+        }
+    }
+
+    if value == 0 {
+        return Some((is_negative, 0));
+    }
+
+    e = e.checked_add_unsigned(zeros)?;
+
+    if exponent {
+        let (is_negative, digits) = match digits.as_slice() {
+            [b'-', rest @ ..] => (true, rest),
+            [b'+', rest @ ..] => (false, rest),
+            rest => (false, rest),
+        };
+
+        let mut exp = 0i32;
+
+        for b in digits {
+            exp = exp.saturating_mul(10).saturating_add(i32::from(b - b'0'));
+        }
+
+        e = e.checked_add(if is_negative { -exp } else { exp })?;
+    }
+
+    // What remains of the value ends with a digit that is not zero, so anything
+    // scaling it down makes it a fraction.
+    let value = value.checked_pow10(u32::try_from(e).ok()?)?;
+    Some((is_negative, value))
+}
+
 /// Partially parse an unsigned value.
 #[cfg_attr(feature = "parse-full", allow(unused))]
 #[inline(never)]
@@ -322,21 +337,6 @@ where
     })
 }
 
-/// Decode a full signed integer.
-pub(crate) fn decode_signed_full<'de, T, C, P>(
-    cx: C,
-    p: &mut P,
-) -> Result<SignedPartsFull<T>, C::Error>
-where
-    C: Context,
-    T: Signed,
-    P: ?Sized + Parser<'de>,
-{
-    p.skip_whitespace(cx);
-
-    decode_signed_full_inner(cx, p)
-}
-
 /// Decode a full signed integer.
 #[inline]
 fn decode_signed_full_inner<'de, T, C, P>(cx: C, mut p: P) -> Result<SignedPartsFull<T>, C::Error>
@@ -562,9 +562,9 @@ fn is_digit_nonzero(b: u8) -> bool {
 
 mod traits {
     use core::fmt;
-    use core::ops::{Add, Not};
+    use core::ops::Not;
 
-    pub(crate) trait Unsigned: Sized + fmt::Debug + Add<Self, Output = Self> {
+    pub(crate) trait Unsigned: Sized + fmt::Debug {
         type Signed: Signed<Unsigned = Self>;
 
         const ZERO: Self;
@@ -588,26 +588,12 @@ mod traits {
         fn negate(self) -> Option<Self::Signed>;
 
         fn signed(self) -> Option<Self::Signed>;
-
-        fn into_float<F>(self) -> F
-        where
-            F: FromUnsigned<Self>;
     }
 
     pub(crate) trait Signed: Sized + fmt::Debug {
         type Unsigned: Unsigned<Signed = Self>;
     }
 
-    pub(crate) trait FromUnsigned<T> {
-        fn from_unsigned(value: T) -> Self;
-    }
-
-    pub(crate) trait Float: Sized + Add<Self, Output = Self> {
-        fn negate(self) -> Self;
-
-        fn pow10(self, e: i32) -> Self;
-    }
-
     macro_rules! count {
         (()) => { 0 };
         ((_)) => { 1 };
@@ -724,11 +710,6 @@ mod traits {
                         Some(self as $signed)
                     }
                 }
-
-                #[inline]
-                fn into_float<F>(self) -> F where F: FromUnsigned<Self> {
-                    F::from_unsigned(self)
-                }
             }
 
             impl Signed for $signed {
@@ -847,99 +828,4 @@ mod traits {
             10000000000000000000,
         ]
     );
-
-    macro_rules! float {
-        ($float:ty, $fallback:path) => {
-            impl Float for $float {
-                #[inline]
-                fn negate(self) -> Self {
-                    -self
-                }
-
-                #[inline]
-                #[cfg(feature = "std")]
-                fn pow10(self, e: i32) -> Self {
-                    self * <$float>::powi(10.0, e)
-                }
-
-                #[inline]
-                #[cfg(not(feature = "std"))]
-                fn pow10(self, e: i32) -> Self {
-                    self * $fallback(10.0, e)
-                }
-            }
-
-            impl FromUnsigned<u8> for $float {
-                fn from_unsigned(value: u8) -> Self {
-                    value as $float
-                }
-            }
-
-            impl FromUnsigned<u16> for $float {
-                fn from_unsigned(value: u16) -> Self {
-                    value as $float
-                }
-            }
-
-            impl FromUnsigned<u32> for $float {
-                fn from_unsigned(value: u32) -> Self {
-                    value as $float
-                }
-            }
-
-            impl FromUnsigned<u64> for $float {
-                fn from_unsigned(value: u64) -> Self {
-                    value as $float
-                }
-            }
-
-            impl FromUnsigned<u128> for $float {
-                fn from_unsigned(value: u128) -> Self {
-                    value as $float
-                }
-            }
-        };
-    }
-
-    float!(f32, self::no_std::powf32);
-    float!(f64, self::no_std::powf64);
-
-    #[cfg(not(feature = "std"))]
-    mod no_std {
-        macro_rules! powf {
-            ($ty:ty, $name:ident) => {
-                #[inline(never)]
-                pub(crate) fn $name(mut base: $ty, mut exp: i32) -> $ty {
-                    if exp == 0 {
-                        return 1.0;
-                    }
-
-                    while exp & 1 == 0 {
-                        base = base * base;
-                        exp >>= 1;
-                    }
-
-                    if exp == 1 {
-                        return base;
-                    }
-
-                    let mut acc = base;
-
-                    while exp > 1 {
-                        exp >>= 1;
-                        base = base * base;
-
-                        if exp & 1 == 1 {
-                            acc = acc * base;
-                        }
-                    }
-
-                    acc
-                }
-            };
-        }
-
-        powf!(f32, powf32);
-        powf!(f64, powf64);
-    }
 }
diff --git a/crates/musli/src/json/parser/mut_slice_parser.rs b/crates/musli/src/json/parser/mut_slice_parser.rs
index 5732b96..ee2811b 100644
--- a/crates/musli/src/json/parser/mut_slice_parser.rs
+++ b/crates/musli/src/json/parser/mut_slice_parser.rs
@@ -132,6 +132,11 @@ impl<'a, 'de> Parser<'de> for MutSliceParser<'a, 'de> {
         self.slice.first().copied()
     }
 
+    #[inline]
+    fn remaining(&self) -> &'de [u8] {
+        self.slice
+    }
+
     fn parse_f32<C>(&mut self, cx: C) -> Result<f32, C::Error>
     where
         C: Context,
diff --git a/crates/musli/src/json/parser/parser.rs b/crates/musli/src/json/parser/parser.rs
index 76e3104..e07b512 100644
--- a/crates/musli/src/json/parser/parser.rs
+++ b/crates/musli/src/json/parser/parser.rs
@@ -1,6 +1,7 @@
 use crate::alloc::Vec;
 use crate::de::Visitor;
-use crate::json::parser::integer::decode_signed_full;
+use crate::json::error::ErrorMessage;
+use crate::json::parser::integer::{number_to_integer, skip_number, Unsigned};
 use crate::json::parser::{StringReference, Token};
 use crate::Context;
 
@@ -123,6 +124,10 @@ pub trait Parser<'de>: private::Sealed {
     #[doc(hidden)]
     fn peek(&mut self) -> Option<u8>;
 
+    /// The bytes which remain to be parsed.
+    #[doc(hidden)]
+    fn remaining(&self) -> &'de [u8];
+
     #[doc(hidden)]
     fn lex<C>(&mut self, cx: C) -> Token
     where
@@ -176,15 +181,23 @@ pub trait Parser<'de>: private::Sealed {
         C: Context,
         V: Visitor<'de, C, Error = C::Error, Allocator = C::Allocator>,
     {
-        let signed = decode_signed_full::<i128, _, _>(cx, self)?;
-
-        if signed.is_negative {
-            let value = match signed.compute() {
-                Ok(value) => value,
-                Err(..) => {
-                    let value = signed.compute_float();
-                    return visitor.visit_f64(cx, value);
-                }
+        self.skip_whitespace(cx);
+
+        let start = cx.mark();
+        let number = self.remaining();
+        skip_number(cx, self.borrow_mut())?;
+        let number = &number[..number.len() - self.remaining().len()];
+
+        // Floats are the only numbers with a negative zero.
+        let integer = number_to_integer(number).filter(|&n| n != (true, 0));
+
+        let Some((is_negative, value)) = integer else {
+            return parse_float(cx, &start, number, visitor);
+        };
+
+        if is_negative {
+            let Some(value) = value.negate() else {
+                return parse_float(cx, &start, number, visitor);
             };
 
             if value >= i8::MIN as i128 && value <= i8::MAX as i128 {
@@ -209,14 +222,6 @@ pub trait Parser<'de>: private::Sealed {
 
             visitor.visit_i128(cx, value)
         } else {
-            let value = match signed.unsigned.compute() {
-                Ok(value) => value,
-                Err(..) => {
-                    let value = signed.unsigned.compute_float();
-                    return visitor.visit_f64(cx, value);
-                }
-            };
-
             if value <= u8::MAX as u128 {
                 return visitor.visit_u8(cx, value as u8);
             }
@@ -242,6 +247,23 @@ pub trait Parser<'de>: private::Sealed {
     }
 }
 
+/// Hand over a number which is not an integer.
+fn parse_float<'de, C, V>(
+    cx: C,
+    start: &C::Mark,
+    number: &[u8],
+    visitor: V,
+) -> Result<V::Ok, V::Error>
+where
+    C: Context,
+    V: Visitor<'de, C, Error = C::Error, Allocator = C::Allocator>,
+{
+    match crate::dec2flt::dec2flt(number) {
+        Some((value, n)) if n == number.len() => visitor.visit_f64(cx, value),
+        _ => Err(cx.message_at(start, ErrorMessage::ParseFloat)),
+    }
+}
+
 impl<'de, P> Parser<'de> for &mut P
 where
     P: ?Sized + Parser<'de>,
@@ -293,6 +315,11 @@ where
         (**self).read_byte(cx)
     }
 
+    #[inline]
+    fn remaining(&self) -> &'de [u8] {
+        (**self).remaining()
+    }
+
     #[inline]
     fn peek(&mut self) -> Option<u8> {
         (**self).peek()
diff --git a/crates/musli/src/json/parser/slice_parser.rs b/crates/musli/src/json/parser/slice_parser.rs
index 36d7afd..9bc0b76 100644
--- a/crates/musli/src/json/parser/slice_parser.rs
+++ b/crates/musli/src/json/parser/slice_parser.rs
@@ -124,6 +124,11 @@ impl<'de> Parser<'de> for SliceParser<'de> {
         self.slice.get(self.index).copied()
     }
 
+    #[inline]
+    fn remaining(&self) -> &'de [u8] {
+        self.slice.get(self.index..).unwrap_or_default()
+    }
+
     fn parse_f32<C>(&mut self, cx: C) -> Result<f32, C::Error>
     where
         C: Context,
-- 
2.43.0


From d01963e6006acb0e57a3172bed37f7d2a0a0b5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:53 +0000
Subject: [PATCH 12/67] fix: decode OsString from the bytes it is encoded as

---
 crates/musli-core/src/impls/alloc.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/musli-core/src/impls/alloc.rs b/crates/musli-core/src/impls/alloc.rs
index d94e753..dd096cd 100644
--- a/crates/musli-core/src/impls/alloc.rs
+++ b/crates/musli-core/src/impls/alloc.rs
@@ -917,7 +917,9 @@ where
                 #[cfg(unix)]
                 PlatformTag::Unix => {
                     use std::os::unix::ffi::OsStringExt;
-                    Ok(OsString::from_vec(variant.decode_value()?.decode()?))
+                    Ok(OsString::from_vec(DecodeBytes::decode_bytes(
+                        variant.decode_value()?,
+                    )?))
                 }
                 #[cfg(not(windows))]
                 PlatformTag::Windows => Err(cx.message("Unsupported OsString::Windows variant")),
-- 
2.43.0


From a91e05175ef5d8fae3af3f047aa9952e73c90722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:53 +0000
Subject: [PATCH 13/67] fix: decode RangeFull from the empty sequence it is
 encoded as

---
 crates/musli-core/src/impls/range.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/musli-core/src/impls/range.rs b/crates/musli-core/src/impls/range.rs
index 84004e8..4323d1e 100644
--- a/crates/musli-core/src/impls/range.rs
+++ b/crates/musli-core/src/impls/range.rs
@@ -1,5 +1,6 @@
 use core::ops::{Range, RangeFrom, RangeFull, RangeInclusive, RangeTo, RangeToInclusive};
 
+use crate::de::SequenceDecoder;
 use crate::en::SequenceEncoder;
 use crate::{Allocator, Decode, Decoder, Encode, Encoder};
 
@@ -39,12 +40,15 @@ macro_rules! implement {
             const IS_BITWISE_DECODE: bool = false;
 
             #[inline]
+            #[allow(unused)]
             fn decode<D>(decoder: D) -> Result<Self, D::Error>
             where
                 D: Decoder<'de, Mode = M, Allocator = A>,
             {
-                let ($($field,)*) = decoder.decode()?;
-                Ok($ty { $($field,)* })
+                decoder.decode_sequence_hint($count, |tuple| {
+                    $(let $field = tuple.next()?;)*
+                    Ok($ty { $($field,)* })
+                })
             }
         }
     }
-- 
2.43.0


From 26a6af87ee4b86fe96d109e90992bfe46a86da1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:49 +0000
Subject: [PATCH 14/67] fix: wire, descriptive: check the number of values left
 to skip for overflow

---
 crates/musli/src/descriptive/de.rs | 21 +++++++++++++--------
 crates/musli/src/wire/de.rs        |  8 ++++++--
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/crates/musli/src/descriptive/de.rs b/crates/musli/src/descriptive/de.rs
index 4a5e039..950103d 100644
--- a/crates/musli/src/descriptive/de.rs
+++ b/crates/musli/src/descriptive/de.rs
@@ -63,21 +63,24 @@ where
 {
     /// Skip over any sequences of values.
     pub(crate) fn skip_any(mut self) -> Result<(), C::Error> {
-        let mut remaining = 1;
+        let mut remaining = 1usize;
 
         while remaining > 0 {
             let tag = Tag::from_byte(self.reader.read_byte(self.cx)?);
 
+            // The number of values which follow as part of this one.
+            let mut nested = Some(0);
+
             match tag.kind() {
                 Kind::Number => {
                     _ = c::decode::<_, _, u128>(self.cx, self.reader.borrow_mut())?;
                 }
                 Kind::Mark => match tag.mark() {
                     Mark::Variant => {
-                        remaining += 2;
+                        nested = Some(2);
                     }
                     Mark::Some => {
-                        remaining += 1;
+                        nested = Some(1);
                     }
                     Mark::Char => {
                         _ = c::decode::<_, _, u32>(self.cx, self.reader.borrow_mut())?;
@@ -94,12 +97,10 @@ where
                     self.reader.skip(self.cx, len)?;
                 }
                 Kind::Sequence => {
-                    let len = self.decode_len(tag)?;
-                    remaining += len;
+                    nested = Some(self.decode_len(tag)?);
                 }
                 Kind::Map => {
-                    let len = self.decode_len(tag)?;
-                    remaining += len * 2;
+                    nested = self.decode_len(tag)?.checked_mul(2);
                 }
                 kind => {
                     return Err(self
@@ -108,7 +109,11 @@ where
                 }
             }
 
-            remaining -= 1;
+            let Some(sum) = nested.and_then(|n| (remaining - 1).checked_add(n)) else {
+                return Err(self.cx.message("Length overflow"));
+            };
+
+            remaining = sum;
         }
 
         Ok(())
diff --git a/crates/musli/src/wire/de.rs b/crates/musli/src/wire/de.rs
index ccf837f..b9a4a5f 100644
--- a/crates/musli/src/wire/de.rs
+++ b/crates/musli/src/wire/de.rs
@@ -63,7 +63,7 @@ where
 {
     /// Skip over any sequences of values.
     pub(crate) fn skip_any(mut self) -> Result<(), C::Error> {
-        let mut remaining = 1;
+        let mut remaining = 1usize;
 
         while remaining > 0 {
             remaining -= 1;
@@ -87,7 +87,11 @@ where
                         crate::int::decode_usize::<_, _, OPT>(self.cx, self.reader.borrow_mut())?
                     };
 
-                    remaining += len;
+                    let Some(sum) = remaining.checked_add(len) else {
+                        return Err(self.cx.message("Length overflow"));
+                    };
+
+                    remaining = sum;
                 }
                 Kind::Continuation => {
                     if tag.data().is_none() {
-- 
2.43.0


From ef5c6850647f0b39b5f6e4cff8a461c4df04128a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:07 +0000
Subject: [PATCH 15/67] fix: json: do not index outside of an array that is
 shorter than its input

---
 crates/musli/src/json/de/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/musli/src/json/de/mod.rs b/crates/musli/src/json/de/mod.rs
index ee8f6a6..c23585b 100644
--- a/crates/musli/src/json/de/mod.rs
+++ b/crates/musli/src/json/de/mod.rs
@@ -281,8 +281,10 @@ where
             let mut index = 0;
 
             while let Some(item) = seq.try_decode_next()? {
-                if index <= N {
+                if index < N {
                     bytes[index] = item.decode_u8()?;
+                } else {
+                    item.skip()?;
                 }
 
                 index += 1;
-- 
2.43.0


From 5524cfca42178e2e73dee7d038920b3e4d63a3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:22 +0000
Subject: [PATCH 16/67] fix: value: limit how much is allocated up front for
 sequences and maps

---
 crates/musli/src/value/value.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/crates/musli/src/value/value.rs b/crates/musli/src/value/value.rs
index f13a642..da8c1c9 100644
--- a/crates/musli/src/value/value.rs
+++ b/crates/musli/src/value/value.rs
@@ -1,6 +1,7 @@
 use core::cmp::Ordering;
 use core::fmt;
 use core::marker::PhantomData;
+use core::mem::size_of;
 
 #[cfg(feature = "alloc")]
 use crate::alloc::{AllocError, System};
@@ -16,6 +17,14 @@ use crate::{Allocator, Context, Options};
 use super::de::ValueDecoder;
 use super::type_hint::{NumberHint, TypeHint};
 
+/// Limit how many elements are allocated up front, since a size hint can come
+/// from untrusted input.
+fn cautious<T>(hint: SizeHint) -> usize {
+    const MAX_PREALLOC_BYTES: usize = 1024 * 1024;
+    hint.or_default()
+        .min(MAX_PREALLOC_BYTES / size_of::<T>().max(1))
+}
+
 /// A dynamic value capable of representing any [Müsli] type whether it be
 /// complex or simple.
 ///
@@ -398,8 +407,8 @@ where
     {
         let cx = seq.cx();
 
-        let mut out =
-            Vec::with_capacity_in(seq.size_hint().or_default(), cx.alloc()).map_err(cx.map())?;
+        let capacity = cautious::<Value<C::Allocator>>(seq.size_hint());
+        let mut out = Vec::with_capacity_in(capacity, cx.alloc()).map_err(cx.map())?;
 
         while let Some(item) = seq.try_next()? {
             out.push(item).map_err(cx.map())?;
@@ -415,8 +424,8 @@ where
     {
         let cx = map.cx();
 
-        let mut out =
-            Vec::with_capacity_in(map.size_hint().or_default(), cx.alloc()).map_err(cx.map())?;
+        let capacity = cautious::<(Value<C::Allocator>, Value<C::Allocator>)>(map.size_hint());
+        let mut out = Vec::with_capacity_in(capacity, cx.alloc()).map_err(cx.map())?;
 
         while let Some(mut entry) = map.decode_entry()? {
             let first = entry.decode_key()?.decode()?;
-- 
2.43.0


From 0e1ff98c960c8d4c808181864495824e7e7cc850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:48 +0000
Subject: [PATCH 17/67] fix: decode atomics bitwise only if what they contain
 can be

---
 crates/musli-core/src/impls/mod.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/crates/musli-core/src/impls/mod.rs b/crates/musli-core/src/impls/mod.rs
index 2c2554a..19f1a1c 100644
--- a/crates/musli-core/src/impls/mod.rs
+++ b/crates/musli-core/src/impls/mod.rs
@@ -104,14 +104,15 @@ where
 }
 
 macro_rules! atomic_impl {
-    ($size:literal $(, $ty:ident)*) => {
+    ($size:literal $(, $ty:ident: $inner:ty)*) => {
         $(
             #[cfg(target_has_atomic = $size)]
             impl<'de, M, A> Decode<'de, M, A> for core::sync::atomic::$ty
             where
                 A: Allocator
             {
-                const IS_BITWISE_DECODE: bool = true;
+                const IS_BITWISE_DECODE: bool =
+                    <$inner as Decode<'de, M, A>>::IS_BITWISE_DECODE;
 
                 fn decode<D>(decoder: D) -> Result<Self, D::Error>
                 where
@@ -124,11 +125,11 @@ macro_rules! atomic_impl {
     };
 }
 
-atomic_impl!("8", AtomicBool, AtomicI8, AtomicU8);
-atomic_impl!("16", AtomicI16, AtomicU16);
-atomic_impl!("32", AtomicI32, AtomicU32);
-atomic_impl!("64", AtomicI64, AtomicU64);
-atomic_impl!("ptr", AtomicIsize, AtomicUsize);
+atomic_impl!("8", AtomicBool: bool, AtomicI8: i8, AtomicU8: u8);
+atomic_impl!("16", AtomicI16: i16, AtomicU16: u16);
+atomic_impl!("32", AtomicI32: i32, AtomicU32: u32);
+atomic_impl!("64", AtomicI64: i64, AtomicU64: u64);
+atomic_impl!("ptr", AtomicIsize: isize, AtomicUsize: usize);
 
 macro_rules! non_zero {
     ($ty:ty) => {
-- 
2.43.0


From 600fe7fc16d3b0abcc62cbadc84d57641c2c0a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:33 +0000
Subject: [PATCH 18/67] fix: alloc: check the requested capacity of a slice
 allocation for overflow

---
 crates/musli/src/alloc/slice.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/crates/musli/src/alloc/slice.rs b/crates/musli/src/alloc/slice.rs
index 574b667..4200c47 100644
--- a/crates/musli/src/alloc/slice.rs
+++ b/crates/musli/src/alloc/slice.rs
@@ -317,7 +317,11 @@ impl<T> Alloc<T> for SliceAlloc<'_, T> {
         //
         // This capacity is in units of `T`, and is only ever at risk of being
         // too small if the allocation has been grown.
-        if len + additional <= self.cap {
+        let Some(requested) = len.checked_add(additional) else {
+            return Err(AllocError);
+        };
+
+        if requested <= self.cap {
             return Ok(());
         }
 
@@ -335,15 +339,7 @@ impl<T> Alloc<T> for SliceAlloc<'_, T> {
             return Err(AllocError);
         };
 
-        let Some(len) = len.checked_mul(size_of::<T>()) else {
-            return Err(AllocError);
-        };
-
-        let Some(additional) = additional.checked_mul(size_of::<T>()) else {
-            return Err(AllocError);
-        };
-
-        let Some(requested) = len.checked_add(additional) else {
+        let Some(requested) = requested.checked_mul(size_of::<T>()) else {
             return Err(AllocError);
         };
 
@@ -351,6 +347,8 @@ impl<T> Alloc<T> for SliceAlloc<'_, T> {
             return Err(AllocError);
         }
 
+        let len = len * size_of::<T>();
+
         // SAFETY: Due to invariants in the Buffer trait we know that these
         // cannot be used incorrectly.
         unsafe {
-- 
2.43.0


From e71fe2221e31341ae8ea47a5377a95235a04f21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:50 +0000
Subject: [PATCH 19/67] fix: alloc: keep the remaining free headers when one of
 them is reused

---
 crates/musli/src/alloc/slice.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/musli/src/alloc/slice.rs b/crates/musli/src/alloc/slice.rs
index 4200c47..a726937 100644
--- a/crates/musli/src/alloc/slice.rs
+++ b/crates/musli/src/alloc/slice.rs
@@ -636,6 +636,8 @@ impl Internal {
         if let Some(region) = self.free_head.take() {
             let mut region = self.region(region);
 
+            self.free_head = region.next.take();
+            region.prev = None;
             region.range.start = self.free.start;
             region.range.end = end;
 
-- 
2.43.0


From 020e6a44c6743dd601331e722b973054bd97c1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:55 +0000
Subject: [PATCH 20/67] fix: alloc: leave room for the header of a slice
 allocation

---
 crates/musli/src/alloc/slice.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/crates/musli/src/alloc/slice.rs b/crates/musli/src/alloc/slice.rs
index a726937..e13b13e 100644
--- a/crates/musli/src/alloc/slice.rs
+++ b/crates/musli/src/alloc/slice.rs
@@ -558,6 +558,21 @@ impl Internal {
         unsafe { self.free.end.byte_offset_from(self.free.start) as usize }
     }
 
+    /// Test if `bytes` and the header of a new region fit in the free range.
+    #[inline]
+    fn fits(&self, bytes: usize) -> bool {
+        let header = if self.free_head.is_some() {
+            0
+        } else {
+            size_of::<Header>()
+        };
+
+        match self.remaining().checked_sub(header) {
+            Some(remaining) => remaining >= bytes,
+            None => false,
+        }
+    }
+
     /// Get the header pointer corresponding to the given id.
     #[inline]
     fn header(&self, at: HeaderId) -> &Header {
@@ -685,7 +700,7 @@ impl Internal {
 
         self.align(align)?;
 
-        if self.remaining() < requested {
+        if !self.fits(requested) {
             return None;
         }
 
@@ -724,6 +739,10 @@ impl Internal {
             // We need to construct a new occupied header to fill in the gap
             // which we just aligned from since there is no previous region to
             // expand.
+            if !self.fits(align) {
+                return None;
+            }
+
             let mut region = self.alloc_header(aligned_start)?;
 
             self.push_back(&mut region);
-- 
2.43.0


From 4f913318908d7af9404d51f4e9ef3bba2bb26297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:35 +0000
Subject: [PATCH 21/67] fix: alloc: report the capacity of a slice allocation
 in elements

---
 crates/musli/src/alloc/slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/musli/src/alloc/slice.rs b/crates/musli/src/alloc/slice.rs
index e13b13e..3a0f3af 100644
--- a/crates/musli/src/alloc/slice.rs
+++ b/crates/musli/src/alloc/slice.rs
@@ -307,7 +307,7 @@ impl<T> Alloc<T> for SliceAlloc<'_, T> {
         // cannot be used incorrectly.
         unsafe {
             let i = &mut *internal.get();
-            i.region(region_id).capacity()
+            i.region(region_id).capacity() / size_of::<T>()
         }
     }
 
-- 
2.43.0


From 54804c02cdd30980fe350c9ff7a0ccff7f7d870f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:40 +0000
Subject: [PATCH 22/67] fix: alloc: reclaim the gap in front of the first
 aligned slice allocation

---
 crates/musli/src/alloc/slice.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/musli/src/alloc/slice.rs b/crates/musli/src/alloc/slice.rs
index 3a0f3af..ade44e8 100644
--- a/crates/musli/src/alloc/slice.rs
+++ b/crates/musli/src/alloc/slice.rs
@@ -746,6 +746,7 @@ impl Internal {
             let mut region = self.alloc_header(aligned_start)?;
 
             self.push_back(&mut region);
+            self.occupied = Some(region.id);
         }
 
         self.free.start = aligned_start;
-- 
2.43.0


From 11f7215d6522f7a2d85a6e3cd7f5720ae3c04748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:37 +0000
Subject: [PATCH 23/67] fix: alloc: only merge slice allocations with the
 region they precede

---
 crates/musli/src/alloc/slice.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/musli/src/alloc/slice.rs b/crates/musli/src/alloc/slice.rs
index ade44e8..165f9a2 100644
--- a/crates/musli/src/alloc/slice.rs
+++ b/crates/musli/src/alloc/slice.rs
@@ -414,12 +414,19 @@ impl<T> Alloc<T> for SliceAlloc<'_, T> {
                 return Err(buf);
             };
 
+            let next = i.region(next);
+
+            // There might be empty regions in between which start at the same
+            // address. The other buffer is only known to be the next region if
+            // that region contains its data.
+            if other_len == 0 || next.capacity() < other_len {
+                return Err(buf);
+            }
+
             // Prevent the other buffer from being dropped, since we're
             // taking care of the allocation in here directly instead.
             forget(buf);
 
-            let next = i.region(next);
-
             let to = this.range.start.wrapping_add(this_len);
 
             // Data needs to be shuffle back to the end of the initialized
-- 
2.43.0


From 99f3ca7ad9811e6807ea221d8d5637d644543a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:52 +0000
Subject: [PATCH 24/67] fix: alloc: do not drop zero-sized values that were
 handed to an allocation

---
 crates/musli-core/src/alloc/system.rs | 5 ++++-
 crates/musli-core/src/alloc/vec.rs    | 5 ++++-
 crates/musli/src/alloc/slice.rs       | 2 ++
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/musli-core/src/alloc/system.rs b/crates/musli-core/src/alloc/system.rs
index 7b34bbc..8050c31 100644
--- a/crates/musli-core/src/alloc/system.rs
+++ b/crates/musli-core/src/alloc/system.rs
@@ -1,6 +1,6 @@
 use core::alloc::Layout;
 use core::cmp;
-use core::mem::{align_of, size_of};
+use core::mem::{self, align_of, size_of};
 use core::ptr::NonNull;
 
 use rust_alloc::alloc;
@@ -77,6 +77,9 @@ unsafe impl Allocator for System {
             unsafe {
                 raw.as_mut_ptr().write(value);
             }
+        } else {
+            // The allocation now owns the value.
+            mem::forget(value);
         }
 
         Ok(raw)
diff --git a/crates/musli-core/src/alloc/vec.rs b/crates/musli-core/src/alloc/vec.rs
index 7cfad91..c9eabea 100644
--- a/crates/musli-core/src/alloc/vec.rs
+++ b/crates/musli-core/src/alloc/vec.rs
@@ -1,7 +1,7 @@
 use core::borrow::Borrow;
 use core::cmp::Ordering;
 use core::fmt;
-use core::mem::ManuallyDrop;
+use core::mem::{self, ManuallyDrop};
 use core::ops::{Deref, DerefMut};
 use core::ptr;
 use core::slice;
@@ -249,6 +249,9 @@ where
             unsafe {
                 self.buf.as_mut_ptr().add(self.len).write(item);
             }
+        } else {
+            // The vector now owns the item, and is what drops it.
+            mem::forget(item);
         }
 
         self.len += 1;
diff --git a/crates/musli/src/alloc/slice.rs b/crates/musli/src/alloc/slice.rs
index 165f9a2..08ea56a 100644
--- a/crates/musli/src/alloc/slice.rs
+++ b/crates/musli/src/alloc/slice.rs
@@ -182,6 +182,8 @@ unsafe impl<'a> Allocator for &'a Slice<'_> {
     #[inline]
     fn alloc<T>(self, value: T) -> Result<Self::Alloc<T>, AllocError> {
         if size_of::<T>() == 0 {
+            // The allocation now owns the value.
+            forget(value);
             return Ok(SliceAlloc::ZST);
         }
 
-- 
2.43.0


From 70d9afe3d2da2132a45aad6795333cb964178c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:59 +0000
Subject: [PATCH 25/67] fix: alloc: do not drop elements again when dropping
 one panics in Vec::clear

---
 crates/musli-core/src/alloc/vec.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/musli-core/src/alloc/vec.rs b/crates/musli-core/src/alloc/vec.rs
index c9eabea..8f67240 100644
--- a/crates/musli-core/src/alloc/vec.rs
+++ b/crates/musli-core/src/alloc/vec.rs
@@ -314,9 +314,12 @@ where
     /// ```
     #[inline]
     pub fn clear(&mut self) {
+        // NB: The length is reset first, so that nothing is dropped again in case
+        // dropping an element panics.
+        let len = mem::replace(&mut self.len, 0);
+
         // SAFETY: We know that the buffer is initialized up to `len`.
-        unsafe { ptr::drop_in_place(slice::from_raw_parts_mut(self.buf.as_mut_ptr(), self.len)) }
-        self.len = 0;
+        unsafe { ptr::drop_in_place(slice::from_raw_parts_mut(self.buf.as_mut_ptr(), len)) }
     }
 
     /// Get the initialized part of the buffer as a slice.
-- 
2.43.0


From b8aa755f0ee301388be4f58d595ee23b9cbbff65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:11 +0000
Subject: [PATCH 26/67] fix: context: keep the path of a trace balanced when
 steps could not be recorded

---
 crates/musli/src/context/trace.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/crates/musli/src/context/trace.rs b/crates/musli/src/context/trace.rs
index 6a66391..f9605e9 100644
--- a/crates/musli/src/context/trace.rs
+++ b/crates/musli/src/context/trace.rs
@@ -211,11 +211,19 @@ where
         // SAFETY: We've checked that we have exclusive access just above.
         let path = unsafe { &mut (*self.path.get()) };
 
-        if path.push(step).is_err() {
-            self.cap.set(&self.cap.get() + 1);
+        // NB: Once a step doesn't fit the ones inside of it are not recorded
+        // either, so that steps are left in the order they were entered.
+        if self.cap.get() > 0 || path.push(step).is_err() {
+            self.push_capped();
         }
     }
 
+    /// Account for a step which could not be pushed.
+    #[inline]
+    fn push_capped(&self) {
+        self.cap.set(self.cap.get() + 1);
+    }
+
     /// Pop the last path.
     #[inline]
     fn pop_path(&self) {
@@ -267,6 +275,7 @@ where
     #[inline]
     fn clear(&self) {
         self.mark.set(0);
+        self.cap.set(0);
         let _access = self.access.exclusive();
 
         // SAFETY: We have acquired exclusive access just above.
@@ -407,6 +416,8 @@ where
     {
         if let Some(string) = self.format_string(alloc, field) {
             self.push_path(Step::Key(string));
+        } else {
+            self.push_capped();
         }
     }
 
-- 
2.43.0


From 986fe24a1bbffb5d55afd021d6ed89f3a0396817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:24 +0000
Subject: [PATCH 27/67] fix: forget the errors and path of the variants of
 untagged enums which do not match

---
 crates/musli-macros/src/de.rs               |  3 ++
 crates/musli/src/context/default_context.rs |  1 +
 crates/musli/src/context/trace.rs           | 42 ++++++++++++++++++---
 3 files changed, 41 insertions(+), 5 deletions(-)

diff --git a/crates/musli-macros/src/de.rs b/crates/musli-macros/src/de.rs
index accf5df..f231c7c 100644
--- a/crates/musli-macros/src/de.rs
+++ b/crates/musli-macros/src/de.rs
@@ -314,6 +314,8 @@ fn decode_untagged_enum(cx: &Ctxt<'_>, b: &Build<'_>, en: &Enum<'_>) -> Result<T
             let decode = decode_struct(cx, b, &last.st)?;
 
             Some(quote! {
+                #context_t::restore(#ctx_var, &#mark_var);
+
                 let #result_var: #result<_, <#d_param as #decoder_t<#lt>>::Error> = (|| #decode)();
 
                 if let #result::Ok(output) = #result_var {
@@ -351,6 +353,7 @@ fn decode_untagged_enum(cx: &Ctxt<'_>, b: &Build<'_>, en: &Enum<'_>) -> Result<T
             #(#decode_head)*
             #decode_last
 
+            #context_t::restore(#ctx_var, &#mark_var);
             return #result::Err(#messages::untagged_mismatch(#ctx_var, #type_name));
         };
 
diff --git a/crates/musli/src/context/default_context.rs b/crates/musli/src/context/default_context.rs
index 8422a21..52f49e0 100644
--- a/crates/musli/src/context/default_context.rs
+++ b/crates/musli/src/context/default_context.rs
@@ -345,6 +345,7 @@ where
     #[inline]
     fn restore(self, mark: &Self::Mark) {
         self.trace.restore(mark);
+        self.capture.clear();
     }
 
     #[inline]
diff --git a/crates/musli/src/context/trace.rs b/crates/musli/src/context/trace.rs
index f9605e9..61f541f 100644
--- a/crates/musli/src/context/trace.rs
+++ b/crates/musli/src/context/trace.rs
@@ -158,6 +158,15 @@ where
     access: Access,
 }
 
+/// A mark in a trace, which can be restored.
+#[non_exhaustive]
+pub struct WithTraceMark {
+    mark: usize,
+    path: usize,
+    errors: usize,
+    cap: usize,
+}
+
 impl<A> WithTraceImpl<A>
 where
     A: Allocator,
@@ -270,7 +279,7 @@ impl<A> TraceImpl<A> for WithTraceImpl<A>
 where
     A: Allocator,
 {
-    type Mark = usize;
+    type Mark = WithTraceMark;
 
     #[inline]
     fn clear(&self) {
@@ -292,12 +301,35 @@ where
 
     #[inline]
     fn mark(&self) -> Self::Mark {
-        self.mark.get()
+        let _access = self.access.shared();
+
+        // SAFETY: We've checked that we have shared access just above.
+        let (path, errors) = unsafe { ((*self.path.get()).len(), (*self.errors.get()).len()) };
+
+        WithTraceMark {
+            mark: self.mark.get(),
+            path,
+            errors,
+            cap: self.cap.get(),
+        }
     }
 
     #[inline]
     fn restore(&self, mark: &Self::Mark) {
-        self.mark.set(*mark);
+        self.mark.set(mark.mark);
+        self.cap.set(mark.cap);
+        let _access = self.access.exclusive();
+
+        // SAFETY: We have acquired exclusive access just above.
+        let (path, errors) = unsafe { (&mut *self.path.get(), &mut *self.errors.get()) };
+
+        while path.len() > mark.path {
+            path.pop();
+        }
+
+        while errors.len() > mark.errors {
+            errors.pop();
+        }
     }
 
     #[inline]
@@ -326,7 +358,7 @@ where
         T: fmt::Display,
     {
         if let Some(string) = self.format_string(alloc, message) {
-            self.push_error(*mark..self.mark.get(), string);
+            self.push_error(mark.mark..self.mark.get(), string);
         }
     }
 
@@ -336,7 +368,7 @@ where
         T: 'static + Send + Sync + fmt::Display + fmt::Debug,
     {
         if let Some(string) = self.format_string(alloc, message) {
-            self.push_error(*mark..self.mark.get(), string);
+            self.push_error(mark.mark..self.mark.get(), string);
         }
     }
 
-- 
2.43.0


From 87592ff09043ff42c59f1f37c31c9e901015615a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:10 +0000
Subject: [PATCH 28/67] fix: json: do not advance the context twice over
 numeric keys

---
 crates/musli/src/json/de/key_decoder.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/musli/src/json/de/key_decoder.rs b/crates/musli/src/json/de/key_decoder.rs
index 6b9c51b..4c50c4e 100644
--- a/crates/musli/src/json/de/key_decoder.rs
+++ b/crates/musli/src/json/de/key_decoder.rs
@@ -38,10 +38,20 @@ where
     {
         let mut scratch = Vec::new_in(self.cx.alloc());
 
-        match self.parser.parse_string(self.cx, true, &mut scratch)? {
+        let start = self.cx.mark();
+        let string = self.parser.parse_string(self.cx, true, &mut scratch)?;
+        let end = self.cx.mark();
+
+        // The visitor advances over the content of the key once more.
+        self.cx.restore(&start);
+
+        let value = match string {
             StringReference::Borrowed(string) => visitor.visit_borrowed(self.cx, string.as_bytes()),
             StringReference::Scratch(string) => visitor.visit_ref(self.cx, string.as_bytes()),
-        }
+        }?;
+
+        self.cx.restore(&end);
+        Ok(value)
     }
 }
 
-- 
2.43.0


From 80bd2b137718fad28b48c87c44bf5d88def82907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:10 +0000
Subject: [PATCH 29/67] fix: enter the fields of packed types when decoding
 them

---
 crates/musli-macros/src/de.rs | 41 ++++++++++++++++++++++++++++++++---
 1 file changed, 38 insertions(+), 3 deletions(-)

diff --git a/crates/musli-macros/src/de.rs b/crates/musli-macros/src/de.rs
index f231c7c..ac02df5 100644
--- a/crates/musli-macros/src/de.rs
+++ b/crates/musli-macros/src/de.rs
@@ -1444,28 +1444,58 @@ fn decode_packed(cx: &Ctxt<'_>, b: &Build<'_>, st: &Body<'_>) -> Result<TokenStr
     let type_name = st.name.value;
     let output_var = b.cx.ident("output");
     let field_decoder = b.cx.ident("field_decoder");
+    let static_name_var = b.cx.ident("FIELD_NAME");
+    let static_name_type = st.name.ty();
+    let formatted_tag = st.name.name_format(&static_name_var);
 
     let mut assign = Vec::new();
 
     for f @ Field {
         decode_path: (_, decode_path),
+        name,
         member,
         ..
     } in st.unskipped_fields()
     {
         let field_decoder = &field_decoder;
+        let output_var = &output_var;
+
+        let enter = cx.trace.then(|| {
+            let (value, enter) = match member {
+                syn::Member::Named(ident) => (
+                    syn::Lit::Str(syn::LitStr::new(&ident.to_string(), ident.span())),
+                    Ident::new("enter_named_field", Span::call_site()),
+                ),
+                syn::Member::Unnamed(index) => (
+                    syn::Lit::Int(syn::LitInt::from(Literal::u32_suffixed(index.index))),
+                    Ident::new("enter_unnamed_field", Span::call_site()),
+                ),
+            };
+
+            quote! {
+                static #static_name_var: #static_name_type = #name;
+                #context_t::#enter(#ctx_var, #value, #formatted_tag);
+            }
+        });
+
+        let leave = cx.trace.then(|| quote!(#context_t::leave_field(#ctx_var);));
 
         if let Some(init) = f.init_default(b) {
             let value: Box<dyn Fn(&syn::Ident, &mut TokenStream)> =
                 Box::new(move |ident: &syn::Ident, tokens: &mut TokenStream| {
                     tokens.extend(quote! {
                         #member: {
+                            #enter
+
                             let #field_decoder = #pack_decoder_t::decode_next(#ident)?;
 
-                            match #decoder_t::decode_option(#field_decoder)? {
+                            let #output_var = match #decoder_t::decode_option(#field_decoder)? {
                                 #option::Some(#field_decoder) => #decode_path(#field_decoder)?,
                                 #option::None => #init,
-                            }
+                            };
+
+                            #leave
+                            #output_var
                         }
                     })
                 });
@@ -1476,8 +1506,13 @@ fn decode_packed(cx: &Ctxt<'_>, b: &Build<'_>, st: &Body<'_>) -> Result<TokenStr
                 move |ident: &syn::Ident, tokens: &mut TokenStream| {
                     tokens.extend(quote! {
                         #member: {
+                            #enter
+
                             let #field_decoder = #pack_decoder_t::decode_next(#ident)?;
-                            #decode_path(#field_decoder)?
+                            let #output_var = #decode_path(#field_decoder)?;
+
+                            #leave
+                            #output_var
                         }
                     })
                 },
-- 
2.43.0


From 2a1584ab61017783c1f11f570ab57f772e2f2161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:10 +0000
Subject: [PATCH 30/67] fix: advance the decoder past the variant of an
 untagged enum which matches

---
 crates/musli-macros/src/de.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/crates/musli-macros/src/de.rs b/crates/musli-macros/src/de.rs
index ac02df5..0dafe56 100644
--- a/crates/musli-macros/src/de.rs
+++ b/crates/musli-macros/src/de.rs
@@ -284,11 +284,13 @@ fn decode_untagged_enum(cx: &Ctxt<'_>, b: &Build<'_>, en: &Enum<'_>) -> Result<T
         option,
         messages,
         decoder_t,
+        skip,
         ..
     } = b.tokens;
 
     let lt = &b.p.lt;
 
+    let clone_var = b.cx.ident("clone");
     let output_var = b.cx.ident("output");
     let result_var = b.cx.ident("result");
     let mark_var = b.cx.ident("mark");
@@ -331,14 +333,33 @@ fn decode_untagged_enum(cx: &Ctxt<'_>, b: &Build<'_>, en: &Enum<'_>) -> Result<T
     for v in it {
         let decode = decode_struct(cx, b, &v.st)?;
 
+        // A variant which matches has only advanced the clone. The original
+        // decoder is advanced by skipping over the same value, or if the
+        // decoder is not capable of that, by decoding the variant again.
         decode_head.push(quote! {
-            if let #option::Some(#decoder_var) = #decoder_t::try_clone(&#decoder_var) {
+            if let #option::Some(#clone_var) = #decoder_t::try_clone(&#decoder_var) {
                 #context_t::restore(#ctx_var, &#mark_var);
 
-                let #result_var: #result<_, <#d_param as #decoder_t<#lt>>::Error> = (|| #decode)();
+                let #result_var: #result<_, <#d_param as #decoder_t<#lt>>::Error> = {
+                    let #decoder_var = #clone_var;
+                    (|| #decode)()
+                };
 
                 if let #result::Ok(output) = #result_var {
-                    break 'output output;
+                    if let #option::Some(#clone_var) = #decoder_t::try_clone(&#decoder_var) {
+                        #context_t::restore(#ctx_var, &#mark_var);
+
+                        if !#skip(#clone_var)? {
+                            #context_t::restore(#ctx_var, &#mark_var);
+                            #skip(#decoder_var)?;
+                            break 'output output;
+                        }
+                    }
+
+                    #context_t::restore(#ctx_var, &#mark_var);
+
+                    let #result_var: #result<_, <#d_param as #decoder_t<#lt>>::Error> = (|| #decode)();
+                    break 'output #result_var?;
                 }
             }
         });
-- 
2.43.0


From 24a26b76493ea45cb904390b00f1f118c15a86d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:10 +0000
Subject: [PATCH 31/67] fix: FixedBytes::with_capacity refused its full
 capacity

---
 crates/musli/src/fixed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/musli/src/fixed.rs b/crates/musli/src/fixed.rs
index 4c227c9..7af165b 100644
--- a/crates/musli/src/fixed.rs
+++ b/crates/musli/src/fixed.rs
@@ -36,7 +36,7 @@ impl<const N: usize> FixedBytes<N> {
     #[inline]
     pub fn with_capacity(capacity: usize) -> Self {
         assert!(
-            capacity < N,
+            capacity <= N,
             "Requested capacity {capacity} is larger than {N}"
         );
         Self::new()
-- 
2.43.0


From c6e26357bb0b97881e3758c3524573bacd12b681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:10 +0000
Subject: [PATCH 32/67] fix: untagged enums did not decode from a mutable JSON
 slice

---
 crates/musli/src/json/parser/mut_slice_parser.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/musli/src/json/parser/mut_slice_parser.rs b/crates/musli/src/json/parser/mut_slice_parser.rs
index ee2811b..38ef5e8 100644
--- a/crates/musli/src/json/parser/mut_slice_parser.rs
+++ b/crates/musli/src/json/parser/mut_slice_parser.rs
@@ -1,6 +1,6 @@
 use crate::alloc::Vec;
 use crate::json::error::ErrorMessage;
-use crate::json::parser::{Parser, StringReference};
+use crate::json::parser::{Parser, SliceParser, StringReference};
 use crate::reader::SliceUnderflow;
 use crate::Context;
 
@@ -34,7 +34,7 @@ impl<'a, 'de> Parser<'de> for MutSliceParser<'a, 'de> {
     where
         Self: 'this;
 
-    type TryClone = MutSliceParser<'a, 'de>;
+    type TryClone = SliceParser<'de>;
 
     #[inline]
     fn borrow_mut(&mut self) -> Self::Mut<'_> {
@@ -43,7 +43,7 @@ impl<'a, 'de> Parser<'de> for MutSliceParser<'a, 'de> {
 
     #[inline]
     fn try_clone(&self) -> Option<Self::TryClone> {
-        None
+        Some(SliceParser::new(self.slice))
     }
 
     #[inline]
-- 
2.43.0


From 521b424280fdf80b12388e1f04c8ccbb33d3363d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:32 +0000
Subject: [PATCH 33/67] fix: a str was left inside of a character when parsing
 JSON from it failed

---
 crates/musli/src/json/parser/integer.rs       | 32 ++++++++++++++-----
 .../musli/src/json/parser/mut_slice_parser.rs | 19 +++++++++--
 crates/musli/src/json/parser/parser.rs        |  9 ++----
 3 files changed, 43 insertions(+), 17 deletions(-)

diff --git a/crates/musli/src/json/parser/integer.rs b/crates/musli/src/json/parser/integer.rs
index c6fcf80..9b36e94 100644
--- a/crates/musli/src/json/parser/integer.rs
+++ b/crates/musli/src/json/parser/integer.rs
@@ -173,12 +173,19 @@ where
         p.skip(cx, 1)?;
     }
 
-    match p.read_byte(cx)? {
-        b'0' => (),
-        b if is_digit_nonzero(b) => {
+    match p.peek() {
+        Some(b'0') => {
+            p.skip(cx, 1)?;
+        }
+        Some(b) if is_digit_nonzero(b) => {
             p.consume_while(cx, is_digit)?;
         }
-        _ => {
+        b => {
+            // A character is only processed as a whole.
+            if matches!(b, Some(..=0x7f)) {
+                p.skip(cx, 1)?;
+            }
+
             return Err(cx.message_at(&start, IntegerError::InvalidNumeric));
         }
     }
@@ -409,9 +416,13 @@ where
     P: Parser<'de>,
     C: Context,
 {
-    let base = match p.read_byte(cx)? {
-        b'0' => T::ZERO,
-        b if is_digit_nonzero(b) => {
+    let base = match p.peek() {
+        Some(b'0') => {
+            p.skip(cx, 1)?;
+            T::ZERO
+        }
+        Some(b) if is_digit_nonzero(b) => {
+            p.skip(cx, 1)?;
             let mut base = T::from_byte(b - b'0');
 
             while let Some(true) = p.peek().map(is_digit) {
@@ -420,7 +431,12 @@ where
 
             base
         }
-        _ => {
+        b => {
+            // A character is only processed as a whole.
+            if matches!(b, Some(..=0x7f)) {
+                p.skip(cx, 1)?;
+            }
+
             return Err(cx.message_at(start, IntegerError::InvalidNumeric));
         }
     };
diff --git a/crates/musli/src/json/parser/mut_slice_parser.rs b/crates/musli/src/json/parser/mut_slice_parser.rs
index 38ef5e8..8205a33 100644
--- a/crates/musli/src/json/parser/mut_slice_parser.rs
+++ b/crates/musli/src/json/parser/mut_slice_parser.rs
@@ -26,6 +26,19 @@ impl<'a, 'de> MutSliceParser<'a, 'de> {
     pub(crate) fn new(slice: &'a mut &'de [u8]) -> Self {
         Self { slice }
     }
+
+    /// Advance past the parts of a string which have been processed.
+    ///
+    /// If an error is raised inside of a character the whole character is left
+    /// in the slice, so that what remains of valid UTF-8 is valid UTF-8.
+    #[inline]
+    fn advance_string(&mut self, mut index: usize, is_err: bool) {
+        while is_err && index > 0 && matches!(self.slice.get(index), Some(0x80..=0xbf)) {
+            index -= 1;
+        }
+
+        *self.slice = &self.slice[index..];
+    }
 }
 
 impl<'a, 'de> Parser<'de> for MutSliceParser<'a, 'de> {
@@ -59,7 +72,8 @@ impl<'a, 'de> Parser<'de> for MutSliceParser<'a, 'de> {
     {
         let mut access = SliceAccess::new(cx, self.slice, 0);
         let out = access.parse_string(validate, start, scratch);
-        *self.slice = &self.slice[access.index..];
+        let index = access.index;
+        self.advance_string(index, out.is_err());
         out
     }
 
@@ -70,7 +84,8 @@ impl<'a, 'de> Parser<'de> for MutSliceParser<'a, 'de> {
     {
         let mut access = SliceAccess::new(cx, self.slice, 0);
         let out = access.skip_string();
-        *self.slice = &self.slice[access.index..];
+        let index = access.index;
+        self.advance_string(index, out.is_err());
         out
     }
 
diff --git a/crates/musli/src/json/parser/parser.rs b/crates/musli/src/json/parser/parser.rs
index e07b512..42c88c4 100644
--- a/crates/musli/src/json/parser/parser.rs
+++ b/crates/musli/src/json/parser/parser.rs
@@ -161,16 +161,11 @@ pub trait Parser<'de>: private::Sealed {
 
         let mark = cx.mark();
 
-        let mut bytes = [0u8; 8];
-        let bytes = &mut bytes[..exact.len()];
-
-        self.read(cx, bytes)?;
-
-        if bytes != exact.as_bytes() {
+        if !self.remaining().starts_with(exact.as_bytes()) {
             return Err(cx.message_at(&mark, format_args!("Expected `{exact}`")));
         }
 
-        Ok(())
+        self.skip(cx, exact.len())
     }
 
     /// Parse an unknown number and try to coerce it into the best fit type
-- 
2.43.0


From 33a99ecb0cd8f34655bbaca9ddf7a784e2acf4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:45 +0000
Subject: [PATCH 34/67] fix: errors when encoding into a slice had no byte
 position

---
 crates/musli/src/writer/slice_mut_writer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/musli/src/writer/slice_mut_writer.rs b/crates/musli/src/writer/slice_mut_writer.rs
index 4834c5d..e49d63e 100644
--- a/crates/musli/src/writer/slice_mut_writer.rs
+++ b/crates/musli/src/writer/slice_mut_writer.rs
@@ -86,6 +86,7 @@ impl<'a> Writer for SliceMutWriter<'a> {
             self.start = NonNull::new_unchecked(end);
         }
 
+        cx.advance(bytes.len());
         Ok(())
     }
 
@@ -106,6 +107,7 @@ impl<'a> Writer for SliceMutWriter<'a> {
             self.start = self.start.add(1);
         }
 
+        cx.advance(1);
         Ok(())
     }
 }
-- 
2.43.0


From 308263559be887bf79d1df7491b01a696be1b5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:15 +0000
Subject: [PATCH 35/67] fix: JSON floats preceded by whitespace were refused

---
 crates/musli/src/json/de/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/musli/src/json/de/mod.rs b/crates/musli/src/json/de/mod.rs
index c23585b..82e12e7 100644
--- a/crates/musli/src/json/de/mod.rs
+++ b/crates/musli/src/json/de/mod.rs
@@ -263,11 +263,13 @@ where
 
     #[inline]
     fn decode_f32(mut self) -> Result<f32, Self::Error> {
+        self.parser.skip_whitespace(self.cx);
         self.parser.parse_f32(self.cx)
     }
 
     #[inline]
     fn decode_f64(mut self) -> Result<f64, Self::Error> {
+        self.parser.skip_whitespace(self.cx);
         self.parser.parse_f64(self.cx)
     }
 
-- 
2.43.0


From 95167df1575853286a598714bc9378f25f61566e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:58 +0000
Subject: [PATCH 36/67] fix: JSON integers whose base only fits once its
 exponent is applied were refused

---
 crates/musli/src/json/parser/integer.rs | 67 +++++++++++++++++++++----
 1 file changed, 57 insertions(+), 10 deletions(-)

diff --git a/crates/musli/src/json/parser/integer.rs b/crates/musli/src/json/parser/integer.rs
index 9b36e94..4a1780c 100644
--- a/crates/musli/src/json/parser/integer.rs
+++ b/crates/musli/src/json/parser/integer.rs
@@ -100,8 +100,10 @@ where
 #[non_exhaustive]
 #[derive(Clone, Copy)]
 pub(crate) struct Parts<T> {
-    /// The base, or everything before a decimal point.
+    /// The base, or everything before a decimal point, without trailing zeros.
     pub(crate) base: T,
+    /// The number of trailing zeros in the base.
+    pub(crate) zeros: i32,
     /// The mantissa, or anything after a decimal point.
     pub(crate) m: Mantissa<T>,
     /// The exponent of the number.
@@ -123,17 +125,28 @@ where
             };
         }
 
-        let Self { mut base, m, e } = self;
+        let Self {
+            mut base,
+            zeros,
+            m,
+            e,
+        } = self;
+
+        // A negative exponent might be undone by the zeros of the base.
+        let base_e = e.saturating_add(zeros);
 
         // Without a fraction, the number of digits after the decimal point has
         // no bearing on the value, and zero is zero for any exponent.
         if m.value.is_zero() {
             return if base.is_zero() {
                 Ok(base)
-            } else if e >= 0 {
-                Ok(check!(base.checked_pow10(e as u32), IntegerOverflow))
+            } else if base_e >= 0 {
+                Ok(check!(base.checked_pow10(base_e as u32), IntegerOverflow))
             } else {
-                Ok(check!(base.checked_neg_pow10(e.unsigned_abs()), Decimal))
+                Ok(check!(
+                    base.checked_neg_pow10(base_e.unsigned_abs()),
+                    Decimal
+                ))
             };
         }
 
@@ -142,7 +155,7 @@ where
             let mantissa_exp = check!(e.checked_sub(m.exp).filter(|n| *n >= 0), Decimal) as u32;
 
             if !base.is_zero() {
-                base = check!(base.checked_pow10(e as u32), IntegerOverflow);
+                base = check!(base.checked_pow10(base_e as u32), IntegerOverflow);
             }
 
             let base = check! {
@@ -410,12 +423,36 @@ where
 /// Generically decode a single (whole) integer from a stream of bytes abiding
 /// by JSON convention for format.
 #[inline]
-fn decode_unsigned_base<'de, T, C, P>(cx: C, mut p: P, start: &C::Mark) -> Result<T, C::Error>
+fn decode_unsigned_base<'de, T, C, P>(cx: C, p: P, start: &C::Mark) -> Result<T, C::Error>
+where
+    T: Unsigned,
+    P: Parser<'de>,
+    C: Context,
+{
+    let (base, zeros) = decode_unsigned_digits::<T, _, _>(cx, p, start)?;
+
+    let Some(base) = base.checked_pow10(zeros as u32) else {
+        return Err(cx.message_at(start, IntegerError::IntegerOverflow));
+    };
+
+    Ok(base)
+}
+
+/// Decode a sequence of digits into the number they make up without its trailing
+/// zeros, and the number of trailing zeros.
+#[inline]
+fn decode_unsigned_digits<'de, T, C, P>(
+    cx: C,
+    mut p: P,
+    start: &C::Mark,
+) -> Result<(T, i32), C::Error>
 where
     T: Unsigned,
     P: Parser<'de>,
     C: Context,
 {
+    let mut zeros = 0;
+
     let base = match p.peek() {
         Some(b'0') => {
             p.skip(cx, 1)?;
@@ -425,8 +462,18 @@ where
             p.skip(cx, 1)?;
             let mut base = T::from_byte(b - b'0');
 
+            zeros = decode_zeros(cx, p.borrow_mut())?;
+
             while let Some(true) = p.peek().map(is_digit) {
+                base = match base.checked_pow10(zeros as u32) {
+                    Some(base) => base,
+                    None => {
+                        return Err(cx.message_at(start, IntegerError::IntegerOverflow));
+                    }
+                };
+
                 base = digit(cx, base, p.borrow_mut(), start)?;
+                zeros = decode_zeros(cx, p.borrow_mut())?;
             }
 
             base
@@ -441,7 +488,7 @@ where
         }
     };
 
-    Ok(base)
+    Ok((base, zeros))
 }
 
 /// Generically decode a single (whole) integer from a stream of bytes abiding
@@ -457,7 +504,7 @@ where
     P: Parser<'de>,
     C: Context,
 {
-    let base = decode_unsigned_base(cx, p.borrow_mut(), start)?;
+    let (base, zeros) = decode_unsigned_digits(cx, p.borrow_mut(), start)?;
 
     let mut m = Mantissa::<T>::default();
 
@@ -497,7 +544,7 @@ where
         0
     };
 
-    Ok(Parts { base, m, e })
+    Ok(Parts { base, zeros, m, e })
 }
 
 /// Decode an exponent.
-- 
2.43.0


From b52bc47007995b89c2931d6980bfef04c138eb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:25 +0000
Subject: [PATCH 37/67] fix: buffered data written to FixedBytes did not count
 towards the byte position of errors

---
 crates/musli/src/fixed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/musli/src/fixed.rs b/crates/musli/src/fixed.rs
index 7af165b..624ea33 100644
--- a/crates/musli/src/fixed.rs
+++ b/crates/musli/src/fixed.rs
@@ -207,7 +207,7 @@ impl<const N: usize> Writer for FixedBytes<N> {
         C: Context,
     {
         // SAFETY: the buffer never outlives this function call.
-        self.write_bytes(cx, buffer.as_slice())
+        Writer::write_bytes(self, cx, buffer.as_slice())
     }
 
     #[inline]
-- 
2.43.0


From 643c360e23d8b5d50ba83a593f48733bac6eb706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:34 +0000
Subject: [PATCH 38/67] fix: bits of variable integers beyond the width of the
 type were dropped

---
 crates/musli/src/int/continuation.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/musli/src/int/continuation.rs b/crates/musli/src/int/continuation.rs
index 5dd1313..e5fa420 100644
--- a/crates/musli/src/int/continuation.rs
+++ b/crates/musli/src/int/continuation.rs
@@ -34,7 +34,14 @@ where
         }
 
         b = r.read_byte(cx)?;
-        value = value.wrapping_add(T::from_byte(b & MASK_BYTE).wrapping_shl(shift));
+        let bits = T::from_byte(b & MASK_BYTE);
+        let shifted = bits.wrapping_shl(shift);
+
+        if shifted >> shift != bits {
+            return Err(cx.message("Bits overflow"));
+        }
+
+        value = value.wrapping_add(shifted);
     }
 
     Ok(value)
-- 
2.43.0


From 43696fd314d979e25ee4f8b771142ca251fe8701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:35 +0000
Subject: [PATCH 39/67] fix: descriptive: signed numbers above half of the
 range of an unsigned type could not be decoded as it

---
 .../musli/src/descriptive/integer_encoding.rs | 29 +++++++++----------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/crates/musli/src/descriptive/integer_encoding.rs b/crates/musli/src/descriptive/integer_encoding.rs
index 39aa221..fc2bfdd 100644
--- a/crates/musli/src/descriptive/integer_encoding.rs
+++ b/crates/musli/src/descriptive/integer_encoding.rs
@@ -21,17 +21,16 @@ where
 }
 
 #[inline]
-pub(crate) fn decode_typed_unsigned<'de, C, R, T>(cx: C, reader: R) -> Result<T, C::Error>
+pub(crate) fn decode_typed_unsigned<'de, C, R, T>(cx: C, mut reader: R) -> Result<T, C::Error>
 where
     C: Context,
     R: Reader<'de>,
-    T: Unsigned + TryFrom<T::Signed>,
+    T: Unsigned + TryFrom<i128>,
 {
-    let (value, kind): (T, NumberKind) = decode_typed(cx, reader)?;
-
-    match kind {
+    match decode_kind(cx, reader.borrow_mut())? {
         NumberKind::Signed => {
-            let value = zig::decode(value);
+            // The zigzag encoding of a value needs one more bit than the value.
+            let value = zig::decode(c::decode::<_, _, u128>(cx, reader)?);
 
             let Ok(value) = T::try_from(value) else {
                 return Err(cx.message(format_args!("Unsigned value outside of signed range")));
@@ -39,7 +38,7 @@ where
 
             Ok(value)
         }
-        NumberKind::Unsigned | NumberKind::Float => Ok(value),
+        NumberKind::Unsigned | NumberKind::Float => c::decode(cx, reader),
         kind => Err(cx.message(format_args!(
             "Expected signed or unsigned number, got {:?}",
             kind
@@ -59,11 +58,10 @@ where
 }
 
 #[inline]
-fn decode_typed<'de, C, R, T>(cx: C, mut reader: R) -> Result<(T, NumberKind), C::Error>
+fn decode_kind<'de, C, R>(cx: C, mut reader: R) -> Result<NumberKind, C::Error>
 where
     C: Context,
     R: Reader<'de>,
-    T: Unsigned,
 {
     let tag = Tag::from_byte(reader.read_byte(cx)?);
 
@@ -71,8 +69,7 @@ where
         return Err(cx.message(format_args!("Expected {:?}, got {tag:?}", Kind::Number)));
     }
 
-    let kind = tag.number_kind();
-    Ok((c::decode(cx, reader)?, kind))
+    Ok(tag.number_kind())
 }
 
 #[inline]
@@ -91,17 +88,17 @@ where
 }
 
 #[inline]
-pub(crate) fn decode_typed_signed<'de, C, R, T>(cx: C, reader: R) -> Result<T, C::Error>
+pub(crate) fn decode_typed_signed<'de, C, R, T>(cx: C, mut reader: R) -> Result<T, C::Error>
 where
     C: Context,
     R: Reader<'de>,
     T: Signed + TryFrom<<T as Signed>::Unsigned>,
 {
-    let (value, kind): (T::Unsigned, NumberKind) = decode_typed(cx, reader)?;
-
-    match kind {
-        NumberKind::Signed => Ok(zig::decode(value)),
+    match decode_kind(cx, reader.borrow_mut())? {
+        NumberKind::Signed => Ok(zig::decode(c::decode::<_, _, T::Unsigned>(cx, reader)?)),
         NumberKind::Unsigned => {
+            let value = c::decode::<_, _, T::Unsigned>(cx, reader)?;
+
             let Ok(value) = T::try_from(value) else {
                 return Err(cx.message(format_args!("Unsigned value outside of signed range")));
             };
-- 
2.43.0


From a7ba3eee081f1f7fc780a13e5b7a0a81d7da4f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:37 +0000
Subject: [PATCH 40/67] fix: descriptive: the bits of floats and other numbers
 were taken for each other

---
 crates/musli/src/descriptive/de.rs            |  6 ++---
 .../musli/src/descriptive/integer_encoding.rs | 24 ++++++++++++++++++-
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/crates/musli/src/descriptive/de.rs b/crates/musli/src/descriptive/de.rs
index 950103d..0611e7c 100644
--- a/crates/musli/src/descriptive/de.rs
+++ b/crates/musli/src/descriptive/de.rs
@@ -15,7 +15,7 @@ use crate::value::{IntoValueDecoder, Value};
 use crate::Context;
 use crate::{Options, Reader};
 
-use super::integer_encoding::{decode_typed_signed, decode_typed_unsigned};
+use super::integer_encoding::{decode_typed_float, decode_typed_signed, decode_typed_unsigned};
 use super::tag::{Kind, Mark, Tag, F32, F64, I128, I16, I32, I64, I8, U128, U16, U32, U64, U8};
 
 const BUFFER_OPTIONS: Options = options::new().build();
@@ -530,7 +530,7 @@ where
     /// IEEE 754 encoding byte-by-byte.
     #[inline]
     fn decode_f32(self) -> Result<f32, Self::Error> {
-        let bits = self.decode_u32()?;
+        let bits = decode_typed_float(self.cx, self.reader, F32)?;
         Ok(f32::from_bits(bits))
     }
 
@@ -538,7 +538,7 @@ where
     /// IEEE 754 encoding byte-by-byte.
     #[inline]
     fn decode_f64(self) -> Result<f64, Self::Error> {
-        let bits = self.decode_u64()?;
+        let bits = decode_typed_float(self.cx, self.reader, F64)?;
         Ok(f64::from_bits(bits))
     }
 
diff --git a/crates/musli/src/descriptive/integer_encoding.rs b/crates/musli/src/descriptive/integer_encoding.rs
index fc2bfdd..1c7a728 100644
--- a/crates/musli/src/descriptive/integer_encoding.rs
+++ b/crates/musli/src/descriptive/integer_encoding.rs
@@ -38,7 +38,7 @@ where
 
             Ok(value)
         }
-        NumberKind::Unsigned | NumberKind::Float => c::decode(cx, reader),
+        NumberKind::Unsigned => c::decode(cx, reader),
         kind => Err(cx.message(format_args!(
             "Expected signed or unsigned number, got {:?}",
             kind
@@ -46,6 +46,28 @@ where
     }
 }
 
+/// Decode the bits of a float, which must have been encoded with the given tag.
+#[inline]
+pub(crate) fn decode_typed_float<'de, C, R, T>(
+    cx: C,
+    mut reader: R,
+    bits: u8,
+) -> Result<T, C::Error>
+where
+    C: Context,
+    R: Reader<'de>,
+    T: Unsigned,
+{
+    let expected = Tag::new(Kind::Number, bits);
+    let tag = Tag::from_byte(reader.read_byte(cx)?);
+
+    if tag != expected {
+        return Err(cx.message(format_args!("Expected {expected:?}, got {tag:?}")));
+    }
+
+    c::decode(cx, reader)
+}
+
 #[inline]
 fn encode_typed<C, W, T>(cx: C, mut writer: W, bits: u8, value: T) -> Result<(), C::Error>
 where
-- 
2.43.0


From 344efe3edf8c52dba2ed298365008669e8b3204f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:38 +0000
Subject: [PATCH 41/67] fix: descriptive: decode_number read the tag of the
 number twice

---
 crates/musli/src/descriptive/de.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/musli/src/descriptive/de.rs b/crates/musli/src/descriptive/de.rs
index 0611e7c..ad9ee5a 100644
--- a/crates/musli/src/descriptive/de.rs
+++ b/crates/musli/src/descriptive/de.rs
@@ -377,7 +377,10 @@ where
         V: Visitor<'de, C, Error = Self::Error, Allocator = Self::Allocator>,
     {
         let cx = self.cx;
-        let tag = Tag::from_byte(self.reader.read_byte(cx)?);
+
+        let Some(tag) = self.reader.peek().map(Tag::from_byte) else {
+            return Err(cx.message("Expected tag in input"));
+        };
 
         match tag.kind() {
             Kind::Number => match tag.data() {
-- 
2.43.0


From 96b9bef0a80e885f80bff246d7fa120644746767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:49 +0000
Subject: [PATCH 42/67] fix: JSON keys which only begin like a number were
 decoded as one

---
 crates/musli/src/json/de/key_signed_visitor.rs   | 11 +++++++++--
 crates/musli/src/json/de/key_unsigned_visitor.rs | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/crates/musli/src/json/de/key_signed_visitor.rs b/crates/musli/src/json/de/key_signed_visitor.rs
index 446acf3..8fb9aa2 100644
--- a/crates/musli/src/json/de/key_signed_visitor.rs
+++ b/crates/musli/src/json/de/key_signed_visitor.rs
@@ -3,7 +3,7 @@ use core::marker;
 
 use crate::de::UnsizedVisitor;
 use crate::json::parser::integer::Signed;
-use crate::json::parser::SliceParser;
+use crate::json::parser::{Parser, SliceParser};
 use crate::Context;
 
 use super::parse_signed;
@@ -36,6 +36,13 @@ where
 
     #[inline]
     fn visit_ref(self, cx: C, bytes: &[u8]) -> Result<Self::Ok, C::Error> {
-        parse_signed(cx, &mut SliceParser::new(bytes))
+        let mut parser = SliceParser::new(bytes);
+        let value = parse_signed(cx, &mut parser)?;
+
+        if !parser.remaining().is_empty() {
+            return Err(cx.message("Expected key to only contain a number"));
+        }
+
+        Ok(value)
     }
 }
diff --git a/crates/musli/src/json/de/key_unsigned_visitor.rs b/crates/musli/src/json/de/key_unsigned_visitor.rs
index e50fc0e..aae9f59 100644
--- a/crates/musli/src/json/de/key_unsigned_visitor.rs
+++ b/crates/musli/src/json/de/key_unsigned_visitor.rs
@@ -3,7 +3,7 @@ use core::marker;
 
 use crate::de::UnsizedVisitor;
 use crate::json::parser::integer::Unsigned;
-use crate::json::parser::SliceParser;
+use crate::json::parser::{Parser, SliceParser};
 use crate::Context;
 
 use super::parse_unsigned;
@@ -35,6 +35,13 @@ where
 
     #[inline]
     fn visit_ref(self, cx: C, bytes: &[u8]) -> Result<Self::Ok, C::Error> {
-        parse_unsigned(cx, &mut SliceParser::new(bytes))
+        let mut parser = SliceParser::new(bytes);
+        let value = parse_unsigned(cx, &mut parser)?;
+
+        if !parser.remaining().is_empty() {
+            return Err(cx.message("Expected key to only contain a number"));
+        }
+
+        Ok(value)
     }
 }
-- 
2.43.0


From 5285c2a41231dddfe47c7ff92d36f07c6aea7022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:06 +0000
Subject: [PATCH 43/67] fix: storage: numbers copied in bulk ignored the byte
 order

---
 crates/musli/src/options.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/musli/src/options.rs b/crates/musli/src/options.rs
index c1079d4..4415529 100644
--- a/crates/musli/src/options.rs
+++ b/crates/musli/src/options.rs
@@ -328,8 +328,18 @@ const fn is_map_keys_as_numbers_value(opt: Options) -> bool {
 ))]
 pub(crate) const fn is_native_fixed<const OPT: Options>() -> bool {
     matches!(
-        (integer::<OPT>(), float::<OPT>(), length::<OPT>(),),
-        (Integer::Fixed, Float::Fixed, Width::NATIVE)
+        (
+            integer::<OPT>(),
+            float::<OPT>(),
+            length::<OPT>(),
+            byteorder::<OPT>()
+        ),
+        (
+            Integer::Fixed,
+            Float::Fixed,
+            Width::NATIVE,
+            ByteOrder::NATIVE
+        )
     )
 }
 
-- 
2.43.0


From b8ce2595ec949e8f02937e0f620642535cc6ef4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:26 +0000
Subject: [PATCH 44/67] fix: trie: keys inserted after longer ones with the
 same prefix were lost

---
 crates/musli-zerocopy/src/trie/factory.rs | 39 +++++++++++++----------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/crates/musli-zerocopy/src/trie/factory.rs b/crates/musli-zerocopy/src/trie/factory.rs
index d27a265..611bf23 100644
--- a/crates/musli-zerocopy/src/trie/factory.rs
+++ b/crates/musli-zerocopy/src/trie/factory.rs
@@ -165,24 +165,25 @@ where
                     this.children[n].links.values.push(value);
                     return Ok(());
                 }
-                BinarySearch::Missing(0) => {
-                    this.children.insert(
-                        0,
-                        Node {
-                            string: Ref::try_with_metadata(string.offset(), string.len())?,
-                            links: Links::new(value),
-                        },
-                    );
-                    return Ok(());
-                }
                 BinarySearch::Missing(n) => {
-                    let pre = n - 1;
+                    // Find the node which has a common prefix with `current`.
+                    //
+                    // Since no two children have a common prefix, that can only
+                    // be one of those neighboring the insertion point.
+                    let mut found = None;
 
-                    // Find common prefix and split nodes if necessary.
-                    let prefix = prefix(buf.load(this.children[pre].string)?, current);
+                    for pre in n.saturating_sub(1)..this.children.len().min(n + 1) {
+                        let prefix = prefix(buf.load(this.children[pre].string)?, current);
+
+                        if prefix != 0 {
+                            found = Some((pre, prefix));
+                            break;
+                        }
+                    }
 
-                    // No common prefix in prior node, so a new node is needed.
-                    if prefix == 0 {
+                    // No common prefix in either neighbor, so a new node is
+                    // needed.
+                    let Some((pre, prefix)) = found else {
                         this.children.insert(
                             n,
                             Node {
@@ -191,7 +192,7 @@ where
                             },
                         );
                         return Ok(());
-                    }
+                    };
 
                     let child = &mut this.children[pre];
 
@@ -214,6 +215,12 @@ where
                         child.links.children.push(replaced);
                     }
 
+                    // The prefix is the string being inserted.
+                    if prefix == current.len() {
+                        child.links.values.push(value);
+                        return Ok(());
+                    }
+
                     current = &current[prefix..];
                     string = string.split_at(prefix).1;
                     this = &mut child.links;
-- 
2.43.0


From c93579219b90e22c411ab0b0a19986d2936f88bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:26 +0000
Subject: [PATCH 45/67] fix: trie: keys which are not stored were looked up
 below nodes they only begin like

---
 crates/musli-zerocopy/src/trie/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/musli-zerocopy/src/trie/mod.rs b/crates/musli-zerocopy/src/trie/mod.rs
index 16f4953..ec2cb69 100644
--- a/crates/musli-zerocopy/src/trie/mod.rs
+++ b/crates/musli-zerocopy/src/trie/mod.rs
@@ -252,10 +252,10 @@ where
                     let child = this.children.get_unchecked(n - 1);
                     let child = buf.load(child)?;
 
-                    // Find common prefix and split nodes if necessary.
+                    // Only descend if the child is a prefix of the string.
                     let prefix = prefix(buf.load(child.string)?, string);
 
-                    if prefix == 0 {
+                    if prefix == 0 || prefix != child.string.len() {
                         return Ok(None);
                     }
 
-- 
2.43.0


From d205c18f6a0eafb1297fb27265b1aac93f711582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:26 +0000
Subject: [PATCH 46/67] fix: trie: iterating a prefix descended below nodes it
 only begins like

---
 crates/musli-zerocopy/src/trie/walk.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/musli-zerocopy/src/trie/walk.rs b/crates/musli-zerocopy/src/trie/walk.rs
index 2169bba..3c52c08 100644
--- a/crates/musli-zerocopy/src/trie/walk.rs
+++ b/crates/musli-zerocopy/src/trie/walk.rs
@@ -82,21 +82,24 @@ where
                                 for n in iter {
                                     let child = self.buf.load(this.children.get_unchecked(n))?;
 
-                                    // Find common prefix and split nodes if necessary.
+                                    // Find how much the child and the string have in common.
                                     let prefix = prefix(self.buf.load(child.string)?, string);
 
                                     if prefix == 0 {
                                         continue;
                                     }
 
-                                    if prefix != string.len() {
+                                    if prefix == string.len() {
+                                        break 'node child;
+                                    }
+
+                                    // Only descend if the child is a prefix of the string.
+                                    if prefix == child.string.len() {
                                         len += prefix;
                                         string = &string[prefix..];
                                         this = child.links;
                                         continue 'node;
                                     }
-
-                                    break 'node child;
                                 }
 
                                 // Falling through here indicates that we have
-- 
2.43.0


From d333e8d1e174c2e20271a972a6bf794c9f17dd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:18 +0000
Subject: [PATCH 47/67] fix: phf: displacements were stored for the wrong
 bucket

---
 crates/musli-zerocopy/src/phf/generator.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/crates/musli-zerocopy/src/phf/generator.rs b/crates/musli-zerocopy/src/phf/generator.rs
index 26eee0c..d2ab424 100644
--- a/crates/musli-zerocopy/src/phf/generator.rs
+++ b/crates/musli-zerocopy/src/phf/generator.rs
@@ -84,14 +84,18 @@ where
         hashes.push(h);
     }
 
-    let mut buckets = vec![Vec::<usize>::new(); displacements.len()];
+    // Each bucket, and the displacement it uses.
+    let mut buckets = displacements
+        .iter()
+        .map(|d_ref| (d_ref, Vec::<usize>::new()))
+        .collect::<Vec<_>>();
 
     for (index, hash) in hashes.iter().enumerate() {
         let to = hash.g % buckets.len();
-        buckets[to].push(index);
+        buckets[to].1.push(index);
     }
 
-    buckets.sort_by_key(|a| a.len());
+    buckets.sort_by_key(|(_, a)| a.len());
 
     let table_len = hashes.len();
     // let mut map = vec![usize::MAX; table_len];
@@ -111,7 +115,7 @@ where
     // chosen the right displacements.
     let mut values_to_add = vec![];
 
-    'outer: for (bucket, d_ref) in buckets.iter().zip(displacements.iter()) {
+    'outer: for (d_ref, bucket) in &buckets {
         for d1 in 0..(table_len as u32) {
             'inner: for d2 in 0..(table_len as u32) {
                 values_to_add.clear();
@@ -131,7 +135,7 @@ where
                 }
 
                 // We've picked a good set of displacements
-                *buf.load_mut(d_ref)? = Entry::new(d1, d2);
+                *buf.load_mut(*d_ref)? = Entry::new(d1, d2);
 
                 for &(i, key) in &values_to_add {
                     let m = buf.load_mut(map.at(i))?;
-- 
2.43.0


From cf86a511aa67aa46e0a3fc5c98bf2bfa315025cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:19 +0000
Subject: [PATCH 48/67] fix: phf: construction did not terminate for more than
 a few dozen keys

---
 crates/musli-zerocopy/src/phf/generator.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/musli-zerocopy/src/phf/generator.rs b/crates/musli-zerocopy/src/phf/generator.rs
index d2ab424..2db1631 100644
--- a/crates/musli-zerocopy/src/phf/generator.rs
+++ b/crates/musli-zerocopy/src/phf/generator.rs
@@ -1,3 +1,4 @@
+use core::cmp::Reverse;
 use core::hash::Hash;
 
 use alloc::vec;
@@ -95,7 +96,8 @@ where
         buckets[to].1.push(index);
     }
 
-    buckets.sort_by_key(|(_, a)| a.len());
+    // Place the largest buckets first, while there is room for them.
+    buckets.sort_by_key(|(_, a)| Reverse(a.len()));
 
     let table_len = hashes.len();
     // let mut map = vec![usize::MAX; table_len];
-- 
2.43.0


From 744a73d7de8dcf5ee69fa718f5c32db52f75892c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:16 +0000
Subject: [PATCH 49/67] fix: phf: entries were moved to the wrong positions

---
 crates/musli-zerocopy/src/phf/factory.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/crates/musli-zerocopy/src/phf/factory.rs b/crates/musli-zerocopy/src/phf/factory.rs
index b8c4977..afd726b 100644
--- a/crates/musli-zerocopy/src/phf/factory.rs
+++ b/crates/musli-zerocopy/src/phf/factory.rs
@@ -1,6 +1,7 @@
 #![allow(clippy::type_complexity)]
 
 use core::hash::Hash;
+use core::mem::replace;
 
 use crate::buf::{StoreBuf, Visit};
 use crate::error::Error;
@@ -177,17 +178,20 @@ where
         )?
     };
 
-    for (from, a) in map.iter().enumerate() {
+    // Each position in the map holds the index of the entry which should be
+    // moved there, so follow each cycle of positions from where it starts.
+    for start in 0..map.len() {
+        let mut to = start;
+
         loop {
-            let to = *buf.as_mut_buf().load(a)?;
+            let from = replace(buf.as_mut_buf().load_mut(map.at(to))?, to);
 
-            if from != to {
-                buf.swap(entries.at(from), entries.at(to))?;
-                buf.swap(map.at(from), map.at(to))?;
-                continue;
+            if from == start {
+                break;
             }
 
-            break;
+            buf.swap(entries.at(from), entries.at(to))?;
+            to = from;
         }
     }
 
-- 
2.43.0


From 7dad4a9e9368387540b567112cd9acaf5a6c5617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:16 +0000
Subject: [PATCH 50/67] fix: swiss: the length of maps with more than 7 entries
 was off

---
 crates/musli-zerocopy/src/swiss/constructor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/musli-zerocopy/src/swiss/constructor.rs b/crates/musli-zerocopy/src/swiss/constructor.rs
index 5a204c0..03ef9f4 100644
--- a/crates/musli-zerocopy/src/swiss/constructor.rs
+++ b/crates/musli-zerocopy/src/swiss/constructor.rs
@@ -84,7 +84,7 @@ where
 
     /// Get the length of the table.
     pub(crate) fn len(&self) -> usize {
-        self.bucket_mask - self.growth_left
+        bucket_mask_to_capacity(self.bucket_mask) - self.growth_left
     }
 
     /// Returns the number of buckets in the table.
-- 
2.43.0


From 54d89a5db8ccd4461057796ba6e669daec77f6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:18 +0000
Subject: [PATCH 51/67] fix: usize offsets ignored the byte order

References and packed slices of the size usize were stored in the byte
order they should have, but read back in native byte order.
---
 crates/musli-zerocopy/src/pointer/size.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/musli-zerocopy/src/pointer/size.rs b/crates/musli-zerocopy/src/pointer/size.rs
index 4e78928..dca25d9 100644
--- a/crates/musli-zerocopy/src/pointer/size.rs
+++ b/crates/musli-zerocopy/src/pointer/size.rs
@@ -152,4 +152,4 @@ impl_size!(u16, E::swap_u16);
 impl_size!(u32, E::swap_u32);
 #[cfg(target_pointer_width = "64")]
 impl_size!(u64, E::swap_u64);
-impl_size!(usize, core::convert::identity);
+impl_size!(usize, E::swap_usize);
-- 
2.43.0


From f22a283d2757d39651f63edd917dcad381eaf904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:18 +0000
Subject: [PATCH 52/67] fix: coercing references ignored their byte order

The length of a reference was multiplied in the byte order it is stored
in, and lengths introduced by the coercion were not stored in it.
---
 crates/musli-zerocopy/src/pointer/ref.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/musli-zerocopy/src/pointer/ref.rs b/crates/musli-zerocopy/src/pointer/ref.rs
index 5d2deff..39bbf0d 100644
--- a/crates/musli-zerocopy/src/pointer/ref.rs
+++ b/crates/musli-zerocopy/src/pointer/ref.rs
@@ -693,7 +693,7 @@ where
     {
         Ref {
             offset: self.offset,
-            metadata: T::coerce_metadata(self.metadata),
+            metadata: T::coerce_metadata(self.metadata.swap_bytes::<E>()).swap_bytes::<E>(),
             _marker: PhantomData,
         }
     }
@@ -765,7 +765,7 @@ where
     {
         Some(Ref {
             offset: self.offset,
-            metadata: T::try_coerce_metadata(self.metadata)?,
+            metadata: T::try_coerce_metadata(self.metadata.swap_bytes::<E>())?.swap_bytes::<E>(),
             _marker: PhantomData,
         })
     }
-- 
2.43.0


From a511f34a418a0d0202f836cc24b1e957fe416a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:18 +0000
Subject: [PATCH 53/67] fix: array_into_slice swapped the bytes of the offset

---
 crates/musli-zerocopy/src/pointer/ref.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/musli-zerocopy/src/pointer/ref.rs b/crates/musli-zerocopy/src/pointer/ref.rs
index 39bbf0d..7e60b99 100644
--- a/crates/musli-zerocopy/src/pointer/ref.rs
+++ b/crates/musli-zerocopy/src/pointer/ref.rs
@@ -806,7 +806,7 @@ where
     /// ```
     #[inline]
     pub fn array_into_slice(self) -> Ref<[T], E, O> {
-        Ref::with_metadata(self.offset, N)
+        Ref::with_metadata(self.offset(), N)
     }
 }
 
-- 
2.43.0


From 672b784dfa4009f2621aa0c0035b805813e660fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:35 +0000
Subject: [PATCH 54/67] fix: slices of zero-sized types were iterated as if
 they were empty

---
 crates/musli-zerocopy/src/pointer/ref.rs | 29 ++++++++----------------
 1 file changed, 9 insertions(+), 20 deletions(-)

diff --git a/crates/musli-zerocopy/src/pointer/ref.rs b/crates/musli-zerocopy/src/pointer/ref.rs
index 7e60b99..e64314f 100644
--- a/crates/musli-zerocopy/src/pointer/ref.rs
+++ b/crates/musli-zerocopy/src/pointer/ref.rs
@@ -3,6 +3,7 @@ use core::fmt;
 use core::hash::Hash;
 use core::marker::PhantomData;
 use core::mem::size_of;
+use core::ops::Range;
 
 use crate::endian::{Big, ByteOrder, Little, Native};
 use crate::error::{Error, ErrorKind, IntoRepr};
@@ -452,12 +453,9 @@ where
     /// ```
     #[inline]
     pub fn iter(self) -> Iter<T, E, O> {
-        let start = self.offset.as_usize::<E>();
-        let end = start + self.metadata.as_usize::<E>() * size_of::<T>();
-
         Iter {
-            start,
-            end,
+            offset: self.offset(),
+            range: 0..self.len(),
             _marker: PhantomData,
         }
     }
@@ -506,8 +504,8 @@ where
 ///
 /// See [`Ref::iter`].
 pub struct Iter<T, E, O> {
-    start: usize,
-    end: usize,
+    offset: usize,
+    range: Range<usize>,
     _marker: PhantomData<(T, E, O)>,
 }
 
@@ -521,13 +519,8 @@ where
 
     #[inline]
     fn next(&mut self) -> Option<Self::Item> {
-        if self.start == self.end {
-            return None;
-        }
-
-        let start = self.start;
-        self.start += size_of::<T>();
-        Some(Ref::new(start))
+        let index = self.range.next()?;
+        Some(Ref::new(self.offset + size_of::<T>() * index))
     }
 }
 
@@ -539,12 +532,8 @@ where
 {
     #[inline]
     fn next_back(&mut self) -> Option<Self::Item> {
-        if self.start == self.end {
-            return None;
-        }
-
-        self.end -= size_of::<T>();
-        Some(Ref::new(self.end))
+        let index = self.range.next_back()?;
+        Some(Ref::new(self.offset + size_of::<T>() * index))
     }
 }
 
-- 
2.43.0


From 9e29dcd5318edd956186838b84118574aea5908a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:19 +0000
Subject: [PATCH 55/67] fix: fields of packed(N) structs were padded to N even
 if aligned to less

Padding was written over the fields and past the end of the value, and
the wrong bytes were validated.
---
 crates/musli-zerocopy/src/buf/padder.rs    | 2 +-
 crates/musli-zerocopy/src/buf/validator.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/musli-zerocopy/src/buf/padder.rs b/crates/musli-zerocopy/src/buf/padder.rs
index 06d78f9..81606f2 100644
--- a/crates/musli-zerocopy/src/buf/padder.rs
+++ b/crates/musli-zerocopy/src/buf/padder.rs
@@ -80,7 +80,7 @@ impl<'a, T: ?Sized> Padder<'a, T> {
     where
         F: ZeroCopy,
     {
-        let count = buf::padding_to(self.offset, align);
+        let count = buf::padding_to(self.offset, align.min(align_of::<F>()));
         // zero out padding.
         self.data.as_ptr().add(self.offset).write_bytes(0, count);
         self.offset += count;
diff --git a/crates/musli-zerocopy/src/buf/validator.rs b/crates/musli-zerocopy/src/buf/validator.rs
index 13f82e1..7ffd9ba 100644
--- a/crates/musli-zerocopy/src/buf/validator.rs
+++ b/crates/musli-zerocopy/src/buf/validator.rs
@@ -233,7 +233,7 @@ impl<'a, T: ?Sized> Validator<'a, T> {
     where
         F: ZeroCopy,
     {
-        self.align_with(align);
+        self.align_with(align.min(align_of::<F>()));
         F::validate(&mut Validator::new(self.data))?;
         self.advance::<F>();
         Ok(())
-- 
2.43.0


From 809f7e0a55c98aab5d558f8554e437a22d1d9f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:43 +0000
Subject: [PATCH 56/67] fix: values were validated as if they began at an
 aligned address

Loading a padded value from an unaligned offset, or as part of a packed
struct, validated the wrong bytes.
---
 .../src/zero_copy/mod.rs                      |  2 +-
 crates/musli-zerocopy/src/buf/validator.rs    | 20 ++++++++++++++-----
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/crates/musli-zerocopy-macros/src/zero_copy/mod.rs b/crates/musli-zerocopy-macros/src/zero_copy/mod.rs
index 5f5febb..dd1ede8 100644
--- a/crates/musli-zerocopy-macros/src/zero_copy/mod.rs
+++ b/crates/musli-zerocopy-macros/src/zero_copy/mod.rs
@@ -556,7 +556,7 @@ fn expand(cx: &Ctxt, input: syn::DeriveInput) -> Result<TokenStream, ()> {
 
                 // SAFETY: We've systematically ensured that we're only
                 // validating over fields within the size of this type.
-                match *#validator::field::<#ty>(validator)? {
+                match #validator::load_unaligned::<#ty>(validator)? {
                     #(#validate_variants,)*
                     value => return #result::Err(#error::__illegal_enum_discriminant::<Self>(value)),
                 }
diff --git a/crates/musli-zerocopy/src/buf/validator.rs b/crates/musli-zerocopy/src/buf/validator.rs
index 7ffd9ba..e2c9a95 100644
--- a/crates/musli-zerocopy/src/buf/validator.rs
+++ b/crates/musli-zerocopy/src/buf/validator.rs
@@ -3,6 +3,7 @@ use core::mem::{align_of, size_of, transmute};
 use core::ops::Range;
 use core::ptr::{self, NonNull};
 
+use crate::buf;
 use crate::error::Error;
 use crate::traits::ZeroCopy;
 
@@ -11,9 +12,10 @@ use crate::traits::ZeroCopy;
 /// [`Buf`]: crate::buf::Buf
 /// [`Buf::validate_struct`]: crate::buf::Buf::validate_struct
 #[must_use = "Must call `Validator::end` when validation is completed"]
-#[repr(transparent)]
+#[repr(C)]
 pub struct Validator<'a, T: ?Sized> {
     data: NonNull<u8>,
+    offset: usize,
     _marker: PhantomData<&'a T>,
 }
 
@@ -36,6 +38,7 @@ impl<'a, T: ?Sized> Validator<'a, T> {
     pub(crate) unsafe fn new(data: NonNull<u8>) -> Self {
         Self {
             data,
+            offset: 0,
             _marker: PhantomData,
         }
     }
@@ -114,7 +117,7 @@ impl<'a, T: ?Sized> Validator<'a, T> {
     #[inline]
     pub unsafe fn byte(&mut self) -> u8 {
         let b = ptr::read(self.data.as_ptr());
-        self.data = NonNull::new_unchecked(self.data.as_ptr().add(1));
+        self.advance_by(1);
         b
     }
 
@@ -262,14 +265,21 @@ impl<'a, T: ?Sized> Validator<'a, T> {
     /// Align the current pointer by `F`.
     #[inline]
     pub(crate) unsafe fn align_with(&mut self, align: usize) {
-        let offset = self.data.as_ptr().align_offset(align);
-        self.data = NonNull::new_unchecked(self.data.as_ptr().add(offset));
+        // NB: The data itself might not be aligned, if it's being loaded
+        // unaligned or is part of a packed struct.
+        self.advance_by(buf::padding_to(self.offset, align));
     }
 
     /// Advance the current pointer by `F`.
     #[inline]
     pub(crate) unsafe fn advance<F>(&mut self) {
-        self.data = NonNull::new_unchecked(self.data.as_ptr().add(size_of::<F>()));
+        self.advance_by(size_of::<F>());
+    }
+
+    #[inline]
+    unsafe fn advance_by(&mut self, count: usize) {
+        self.data = NonNull::new_unchecked(self.data.as_ptr().add(count));
+        self.offset += count;
     }
 
     /// Return the address range associated with a just read `F` for diagnostics.
-- 
2.43.0


From 01fc56d4d80ee8ed72b7a778fc0cf6adde55813b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:43 +0000
Subject: [PATCH 57/67] fix: loading or swapping at offsets near the end of the
 address space overflowed

---
 crates/musli-zerocopy/src/buf/buf.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/musli-zerocopy/src/buf/buf.rs b/crates/musli-zerocopy/src/buf/buf.rs
index 562ab48..de1dff5 100644
--- a/crates/musli-zerocopy/src/buf/buf.rs
+++ b/crates/musli-zerocopy/src/buf/buf.rs
@@ -751,7 +751,7 @@ impl Buf {
         T: ZeroCopy,
     {
         unsafe {
-            let end = offset + size_of::<T>();
+            let end = offset.saturating_add(size_of::<T>());
 
             // SAFETY: align_of::<T>() is always a power of two.
             let buf = self.inner_get(offset, end, align_of::<T>())?;
@@ -841,7 +841,7 @@ impl Buf {
         }
 
         let start = a.max(b);
-        let end = start + size_of::<T>();
+        let end = start.saturating_add(size_of::<T>());
 
         if end > self.data.len() {
             return Err(Error::new(ErrorKind::OutOfRangeBounds {
@@ -875,7 +875,7 @@ impl Buf {
     where
         T: ZeroCopy,
     {
-        let end = offset + size_of::<T>();
+        let end = offset.saturating_add(size_of::<T>());
 
         unsafe {
             // SAFETY: align_of::<T>() is always a power of two.
@@ -900,7 +900,7 @@ impl Buf {
     where
         T: ZeroCopy,
     {
-        let end = start + size_of::<T>();
+        let end = start.saturating_add(size_of::<T>());
 
         unsafe {
             // SAFETY: align_of::<T>() is always a power of two.
-- 
2.43.0


From 13099b5184306fc74df195dc44c5596309f92310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:15 +0000
Subject: [PATCH 58/67] fix: the alignment of ignored zero-sized fields was not
 accounted for

Fields marked with #[zero_copy(ignore)] affect the offset of the fields
following them if their alignment is larger than 1, so values following them
were padded and validated at the wrong offset.
---
 .../src/zero_copy/mod.rs                      | 88 ++++++++++++-------
 crates/musli-zerocopy/src/buf/padder.rs       | 29 ++++++
 crates/musli-zerocopy/src/buf/validator.rs    | 26 ++++++
 3 files changed, 113 insertions(+), 30 deletions(-)

diff --git a/crates/musli-zerocopy-macros/src/zero_copy/mod.rs b/crates/musli-zerocopy-macros/src/zero_copy/mod.rs
index dd1ede8..2d3eb00 100644
--- a/crates/musli-zerocopy-macros/src/zero_copy/mod.rs
+++ b/crates/musli-zerocopy-macros/src/zero_copy/mod.rs
@@ -184,34 +184,21 @@ fn expand(cx: &Ctxt, input: syn::DeriveInput) -> Result<TokenStream, ()> {
                     };
                 }
                 _ => {
+                    let align = r.repr_packed.map(|(_, align)| align);
                     let types = &output.types;
+                    let pad_fields = output.pad_fields(&padder, align);
+                    let validate_fields = output.validate_fields(&validator, align);
 
-                    match r.repr_packed {
-                        Some((_, align)) => {
-                            pad = quote! {
-                                #(#padder::pad_with::<#types>(padder, #align);)*
-                            };
-
-                            validate = quote! {
-                                // SAFETY: We've systematically ensured that we're
-                                // only validating over fields within the size of
-                                // this type.
-                                #(#validator::validate_with::<#types>(validator, #align)?;)*
-                            };
-                        }
-                        _ => {
-                            pad = quote! {
-                                #(#padder::pad::<#types>(padder);)*
-                            };
-
-                            validate = quote! {
-                                // SAFETY: We've systematically ensured that we're
-                                // only validating over fields within the size of
-                                // this type.
-                                #(#validator::validate::<#types>(validator)?;)*
-                            };
-                        }
-                    }
+                    pad = quote! {
+                        #(#pad_fields)*
+                    };
+
+                    validate = quote! {
+                        // SAFETY: We've systematically ensured that we're
+                        // only validating over fields within the size of
+                        // this type.
+                        #(#validate_fields)*
+                    };
 
                     let Fields {
                         members,
@@ -374,7 +361,7 @@ fn expand(cx: &Ctxt, input: syn::DeriveInput) -> Result<TokenStream, ()> {
                     }
                 }
 
-                let types = &output.types;
+                let validate_fields = output.validate_fields(&validator, None);
 
                 let discriminant_const =
                     syn::Ident::new(&format!("DISCRIMINANT{}", index), variant.ident.span());
@@ -387,17 +374,17 @@ fn expand(cx: &Ctxt, input: syn::DeriveInput) -> Result<TokenStream, ()> {
 
                 validate_variants.push(quote! {
                     #discriminant_const => {
-                        #(#validator::validate::<#types>(validator)?;)*
+                        #(#validate_fields)*
                     }
                 });
 
                 let ident = &variant.ident;
 
-                let Fields { types, .. } = &output;
+                let pad_fields = output.pad_fields(&padder, None);
 
                 pad_variants.push(quote! {
                     #discriminant_const => {
-                        #(#padder::pad::<#types>(padder);)*
+                        #(#pad_fields)*
                     }
                 });
 
@@ -734,6 +721,45 @@ struct Fields<'a> {
     ignored_members: Vec<syn::Member>,
     ignored_variables: Vec<syn::Ident>,
     check_zero_sized: Vec<&'a syn::Type>,
+    /// All fields in order, and whether they are ignored.
+    layout: Vec<(&'a syn::Type, bool)>,
+}
+
+impl Fields<'_> {
+    /// Build the statements padding each field in order.
+    ///
+    /// Ignored fields are zero-sized, but still affect the layout if their
+    /// alignment is larger than 1.
+    fn pad_fields(&self, padder: &syn::Path, packed: Option<usize>) -> Vec<TokenStream> {
+        let it = self
+            .layout
+            .iter()
+            .map(|(ty, ignored)| match (ignored, packed) {
+                (true, Some(align)) => quote!(#padder::__align_with::<#ty>(padder, #align);),
+                (true, None) => quote!(#padder::__align::<#ty>(padder);),
+                (false, Some(align)) => quote!(#padder::pad_with::<#ty>(padder, #align);),
+                (false, None) => quote!(#padder::pad::<#ty>(padder);),
+            });
+
+        it.collect()
+    }
+
+    /// Build the statements validating each field in order.
+    fn validate_fields(&self, validator: &syn::Path, packed: Option<usize>) -> Vec<TokenStream> {
+        let it = self
+            .layout
+            .iter()
+            .map(|(ty, ignored)| match (ignored, packed) {
+                (true, Some(align)) => quote!(#validator::__align_with::<#ty>(validator, #align);),
+                (true, None) => quote!(#validator::__align::<#ty>(validator);),
+                (false, Some(align)) => {
+                    quote!(#validator::validate_with::<#ty>(validator, #align)?;)
+                }
+                (false, None) => quote!(#validator::validate::<#ty>(validator)?;),
+            });
+
+        it.collect()
+    }
 }
 
 fn process_fields<'a>(cx: &Ctxt, fields: &'a syn::Fields) -> Fields<'a> {
@@ -786,6 +812,8 @@ fn process_fields<'a>(cx: &Ctxt, fields: &'a syn::Fields) -> Fields<'a> {
             syn::Member::Unnamed(index) => syn::parse_quote!(#index: #variable),
         });
 
+        output.layout.push((ty, ignore.is_some()));
+
         if ignore.is_some() {
             output.check_zero_sized.push(ty);
             output.ignored_members.push(member);
diff --git a/crates/musli-zerocopy/src/buf/padder.rs b/crates/musli-zerocopy/src/buf/padder.rs
index 81606f2..35ed53d 100644
--- a/crates/musli-zerocopy/src/buf/padder.rs
+++ b/crates/musli-zerocopy/src/buf/padder.rs
@@ -95,6 +95,35 @@ impl<'a, T: ?Sized> Padder<'a, T> {
         self.offset += size_of::<F>();
     }
 
+    /// Pad to the alignment of a zero-sized field which isn't padded.
+    ///
+    /// # Safety
+    ///
+    /// The caller must ensure that the field type `F` is an actual zero-sized
+    /// field in order in the struct being padded.
+    #[doc(hidden)]
+    #[inline]
+    pub unsafe fn __align<F>(&mut self) {
+        self.__align_with::<F>(align_of::<F>());
+    }
+
+    /// Pad to the alignment of a zero-sized field which isn't padded, using a
+    /// custom alignment `align`.
+    ///
+    /// # Safety
+    ///
+    /// The caller must ensure that the field type `F` is an actual zero-sized
+    /// field in order in the struct being padded and that `align` matches the
+    /// argument provided to `#[repr(packed)]` (note that empty means 1).
+    #[doc(hidden)]
+    #[inline]
+    pub unsafe fn __align_with<F>(&mut self, align: usize) {
+        let count = buf::padding_to(self.offset, align.min(align_of::<F>()));
+        // zero out padding.
+        self.data.as_ptr().add(self.offset).write_bytes(0, count);
+        self.offset += count;
+    }
+
     /// Specific method to both pad for a discriminant and load it
     /// simultaneously for inspection.
     ///
diff --git a/crates/musli-zerocopy/src/buf/validator.rs b/crates/musli-zerocopy/src/buf/validator.rs
index e2c9a95..006ce87 100644
--- a/crates/musli-zerocopy/src/buf/validator.rs
+++ b/crates/musli-zerocopy/src/buf/validator.rs
@@ -242,6 +242,32 @@ impl<'a, T: ?Sized> Validator<'a, T> {
         Ok(())
     }
 
+    /// Align around a zero-sized field which isn't validated.
+    ///
+    /// # Safety
+    ///
+    /// The caller must ensure that the field type `F` is an actual zero-sized
+    /// field in order in the struct being validated.
+    #[doc(hidden)]
+    #[inline]
+    pub unsafe fn __align<F>(&mut self) {
+        self.align_with(align_of::<F>());
+    }
+
+    /// Align around a zero-sized field which isn't validated, using a custom
+    /// alignment `align`.
+    ///
+    /// # Safety
+    ///
+    /// The caller must ensure that the field type `F` is an actual zero-sized
+    /// field in order in the struct being validated and that `align` matches
+    /// the argument provided to `#[repr(packed)]` (note that empty means 1).
+    #[doc(hidden)]
+    #[inline]
+    pub unsafe fn __align_with<F>(&mut self, align: usize) {
+        self.align_with(align.min(align_of::<F>()));
+    }
+
     /// Only validate the given field without aligning it.
     ///
     /// # Safety
-- 
2.43.0


From 08cc19a279a1d62bab5676977e3e66d831a86782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:15 +0000
Subject: [PATCH 59/67] fix: enums with repr(usize) were not supported

The derive looked for the representation Usize, and used isize for its
discriminants.
---
 crates/musli-zerocopy-macros/src/zero_copy/mod.rs | 2 +-
 crates/musli-zerocopy-macros/src/zero_copy/num.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/musli-zerocopy-macros/src/zero_copy/mod.rs b/crates/musli-zerocopy-macros/src/zero_copy/mod.rs
index 2d3eb00..c260329 100644
--- a/crates/musli-zerocopy-macros/src/zero_copy/mod.rs
+++ b/crates/musli-zerocopy-macros/src/zero_copy/mod.rs
@@ -883,7 +883,7 @@ impl ReprAttr {
             repr!(i64, Repr::Num(meta.path.span(), NumericalRepr::I64));
             repr!(i128, Repr::Num(meta.path.span(), NumericalRepr::I128));
             repr!(isize, Repr::Num(meta.path.span(), NumericalRepr::Isize));
-            repr!(Usize, Repr::Num(meta.path.span(), NumericalRepr::Usize));
+            repr!(usize, Repr::Num(meta.path.span(), NumericalRepr::Usize));
 
             // #[repr(align(N))]
             if meta.path.is_ident("align") {
diff --git a/crates/musli-zerocopy-macros/src/zero_copy/num.rs b/crates/musli-zerocopy-macros/src/zero_copy/num.rs
index 8d3bd1d..affde8c 100644
--- a/crates/musli-zerocopy-macros/src/zero_copy/num.rs
+++ b/crates/musli-zerocopy-macros/src/zero_copy/num.rs
@@ -53,7 +53,7 @@ impl NumericalRepr {
             NumericalRepr::I64 => "i64",
             NumericalRepr::I128 => "i128",
             NumericalRepr::Isize => "isize",
-            NumericalRepr::Usize => "isize",
+            NumericalRepr::Usize => "usize",
         }
     }
 }
-- 
2.43.0


From 3c464b70f45aa778b9efa5f5e2263f79751cb5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:51 +0000
Subject: [PATCH 60/67] fix: aligning an empty clone of a buffer allocated and
 freed nothing

A clone of an empty buffer has no allocation, but requested a larger alignment
than its pointer has, so align_in_place requested an allocation of no bytes and
freed the dangling pointer.
---
 crates/musli-zerocopy/src/buf/owned_buf.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/musli-zerocopy/src/buf/owned_buf.rs b/crates/musli-zerocopy/src/buf/owned_buf.rs
index 45caee5..19d5256 100644
--- a/crates/musli-zerocopy/src/buf/owned_buf.rs
+++ b/crates/musli-zerocopy/src/buf/owned_buf.rs
@@ -1262,13 +1262,15 @@ where
 {
     fn clone(&self) -> Self {
         unsafe {
+            // NB: The clone is allocated with the requested alignment. If the
+            // buffer is empty nothing is allocated, so it can't be aligned by
+            // replacing the allocation later.
             let mut new = ManuallyDrop::new(Self::with_capacity_and_custom_alignment(
-                self.len, self.align,
+                self.len,
+                self.requested,
             ));
             new.as_mut_ptr()
                 .copy_from_nonoverlapping(self.as_ptr(), self.len);
-            // Set requested to the same as original.
-            new.requested = self.requested;
             new.len = self.len;
             ManuallyDrop::into_inner(new)
         }
-- 
2.43.0


From 5bc4980d1d5b5374e4f3e994017c5bafea938f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:51 +0000
Subject: [PATCH 61/67] fix: SliceMut needed as many bytes as the alignment
 requested

Storing fewer bytes panicked although there was room for them.
---
 crates/musli-zerocopy/src/buf/slice_mut.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/crates/musli-zerocopy/src/buf/slice_mut.rs b/crates/musli-zerocopy/src/buf/slice_mut.rs
index a8357b9..49e46b1 100644
--- a/crates/musli-zerocopy/src/buf/slice_mut.rs
+++ b/crates/musli-zerocopy/src/buf/slice_mut.rs
@@ -887,8 +887,6 @@ where
     // Ensure that the new capacity is available or panic.
     #[inline]
     fn ensure_capacity(&mut self, new_capacity: usize) {
-        let new_capacity = new_capacity.max(self.requested);
-
         if self.capacity < new_capacity {
             panic!(
                 "Underlying slice has the capacity {}, but {} bytes are needed",
-- 
2.43.0


From 01d4d8af04a5781d11c212de87beca59fedb9985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:55 +0000
Subject: [PATCH 62/67] fix: elements of garbled slice references panicked when
 their offset did not fit

---
 crates/musli-zerocopy/src/pointer/ref.rs      | 28 ++++++++++++++++---
 .../musli-zerocopy/src/slice/binary_search.rs | 11 ++++++--
 crates/musli-zerocopy/src/slice/packed.rs     | 11 ++++++--
 3 files changed, 42 insertions(+), 8 deletions(-)

diff --git a/crates/musli-zerocopy/src/pointer/ref.rs b/crates/musli-zerocopy/src/pointer/ref.rs
index e64314f..d80d02c 100644
--- a/crates/musli-zerocopy/src/pointer/ref.rs
+++ b/crates/musli-zerocopy/src/pointer/ref.rs
@@ -342,7 +342,7 @@ where
             return None;
         }
 
-        let offset = self.offset.as_usize::<E>() + size_of::<T>() * index;
+        let offset = element_offset::<T, O>(self.offset(), index)?;
         Some(Ref::new(offset))
     }
 
@@ -373,7 +373,7 @@ where
     /// # Ok::<_, musli_zerocopy::Error>(())
     /// ```
     pub fn get_unchecked(self, index: usize) -> Ref<T, E, O> {
-        let offset = self.offset.as_usize::<E>() + size_of::<T>() * index;
+        let offset = element_offset::<T, O>(self.offset(), index).unwrap_or(O::MAX);
         Ref::new(offset)
     }
 
@@ -453,9 +453,18 @@ where
     /// ```
     #[inline]
     pub fn iter(self) -> Iter<T, E, O> {
+        let offset = self.offset();
+
+        // NB: the reference might be garbled, in which case there are elements
+        // for which there are no offsets.
+        let addressable = match size_of::<T>() {
+            0 => usize::MAX,
+            size => (O::MAX.as_usize::<Native>() - offset) / size,
+        };
+
         Iter {
-            offset: self.offset(),
-            range: 0..self.len(),
+            offset,
+            range: 0..self.len().min(addressable.saturating_add(1)),
             _marker: PhantomData,
         }
     }
@@ -500,6 +509,17 @@ where
     }
 }
 
+/// Calculate the offset of an element in a slice at the given `offset`, or
+/// [`None`] in case it is not a legal offset.
+#[inline]
+fn element_offset<T, O>(offset: usize, index: usize) -> Option<O>
+where
+    O: Size,
+{
+    let offset = size_of::<T>().checked_mul(index)?.checked_add(offset)?;
+    O::try_from(offset).ok()
+}
+
 /// An iterator over a `Ref<[T]>` which produces `Ref<T>` values.
 ///
 /// See [`Ref::iter`].
diff --git a/crates/musli-zerocopy/src/slice/binary_search.rs b/crates/musli-zerocopy/src/slice/binary_search.rs
index 555cd09..4f19041 100644
--- a/crates/musli-zerocopy/src/slice/binary_search.rs
+++ b/crates/musli-zerocopy/src/slice/binary_search.rs
@@ -1,7 +1,7 @@
 use core::cmp::Ordering;
 
 use crate::buf::{Buf, Visit};
-use crate::error::Error;
+use crate::error::{Error, ErrorKind};
 use crate::slice::Slice;
 use crate::traits::ZeroCopy;
 
@@ -114,7 +114,14 @@ where
         // < size`. Thus `left + size/2 < left + size`, which coupled with
         // the `left + size <= slice.len()` invariant means we have `left +
         // size/2 < slice.len()`, and this is in-bounds.
-        let value = buf.load(slice.get_unchecked(mid))?;
+        let Some(value) = slice.get(mid) else {
+            return Err(Error::new(ErrorKind::IndexOutOfBounds {
+                index: mid,
+                len: slice.len(),
+            }));
+        };
+
+        let value = buf.load(value)?;
         let cmp = f(value)?;
 
         // The reason why we use if/else control flow rather than match
diff --git a/crates/musli-zerocopy/src/slice/packed.rs b/crates/musli-zerocopy/src/slice/packed.rs
index 3844a58..dbebc07 100644
--- a/crates/musli-zerocopy/src/slice/packed.rs
+++ b/crates/musli-zerocopy/src/slice/packed.rs
@@ -231,7 +231,11 @@ where
             return None;
         }
 
-        Some(self.get_unchecked(index))
+        let offset = size_of::<T>()
+            .checked_mul(index)?
+            .checked_add(self.offset())?;
+
+        Some(Ref::new(offset))
     }
 
     /// Split the slice reference at the given position `at`.
@@ -301,7 +305,10 @@ where
     /// ```
     #[inline]
     pub fn get_unchecked(self, index: usize) -> Ref<T, E, usize> {
-        let offset = self.offset.as_usize::<E>() + size_of::<T>() * index;
+        let offset = size_of::<T>()
+            .saturating_mul(index)
+            .saturating_add(self.offset());
+
         Ref::new(offset)
     }
 
-- 
2.43.0


From 09f37a3f49f59bb86f4c76f44f33fd71cfddba75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:55 +0000
Subject: [PATCH 63/67] fix: looking up in a perfect hash table without entries
 divided by zero

---
 crates/musli-zerocopy/src/phf/hashing.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/crates/musli-zerocopy/src/phf/hashing.rs b/crates/musli-zerocopy/src/phf/hashing.rs
index 9327cfe..555b81c 100644
--- a/crates/musli-zerocopy/src/phf/hashing.rs
+++ b/crates/musli-zerocopy/src/phf/hashing.rs
@@ -52,7 +52,7 @@ pub(crate) fn get_index(
         }));
     };
 
-    Ok(displace(f1, f2, d1, d2) as usize % len)
+    entry_index(displace(f1, f2, d1, d2) as usize, len)
 }
 
 #[inline]
@@ -74,5 +74,17 @@ where
         }));
     };
 
-    Ok(displace(f1, f2, d1, d2) as usize % len)
+    entry_index(displace(f1, f2, d1, d2) as usize, len)
+}
+
+/// Translate a displaced hash into the index of an entry.
+///
+/// Since this is performed over untrusted data, there might not be any entries.
+#[inline]
+fn entry_index(hash: usize, len: usize) -> Result<usize, Error> {
+    let Some(index) = hash.checked_rem(len) else {
+        return Err(Error::new(ErrorKind::IndexOutOfBounds { index: hash, len }));
+    };
+
+    Ok(index)
 }
-- 
2.43.0


From e65f41116f7e23a8bb20652c9ee0139afa46a22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:56 +0000
Subject: [PATCH 64/67] fix: looking up in a swiss table with a garbled mask
 overflowed or did not end

---
 crates/musli-zerocopy/src/swiss/map.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/crates/musli-zerocopy/src/swiss/map.rs b/crates/musli-zerocopy/src/swiss/map.rs
index cdc0b29..8905d31 100644
--- a/crates/musli-zerocopy/src/swiss/map.rs
+++ b/crates/musli-zerocopy/src/swiss/map.rs
@@ -452,6 +452,8 @@ impl<'a, T> RawTable<'a, T> {
         eq: &mut dyn FnMut(usize) -> Result<bool, Error>,
     ) -> Result<Option<usize>, Error> {
         let h2_hash = h2(hash);
+
+        check_bucket_mask(self.bucket_mask, self.ctrl)?;
         let mut probe_seq = probe_seq(self.bucket_mask, hash);
 
         loop {
@@ -487,6 +489,22 @@ impl<'a, T> RawTable<'a, T> {
     }
 }
 
+/// Check that there are control bytes for every bucket.
+///
+/// Since probing is performed over untrusted data, this ensures that it is
+/// bounded by the number of control bytes.
+#[inline]
+fn check_bucket_mask(bucket_mask: usize, ctrl: &[u8]) -> Result<(), Error> {
+    if bucket_mask >= ctrl.len() {
+        return Err(Error::new(ErrorKind::ControlRangeOutOfBounds {
+            range: 0..bucket_mask,
+            len: ctrl.len(),
+        }));
+    }
+
+    Ok(())
+}
+
 #[derive(Debug, ZeroCopy)]
 #[repr(C)]
 #[zero_copy(crate)]
@@ -571,10 +589,12 @@ where
         eq: &mut dyn FnMut(usize) -> Result<bool, Error>,
     ) -> Result<Option<usize>, Error> {
         let h2_hash = h2(hash);
-        let mut probe_seq = probe_seq(self.bucket_mask.to_ne(), hash);
 
         let ctrl = buf.load(self.ctrl)?;
 
+        check_bucket_mask(self.bucket_mask.to_ne(), ctrl)?;
+        let mut probe_seq = probe_seq(self.bucket_mask.to_ne(), hash);
+
         loop {
             let range = probe_seq.pos..probe_seq.pos + size_of::<Group>();
 
-- 
2.43.0


From 8f2580eb8587d6ac8e291c1523ecdc1ce92b7ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:56 +0000
Subject: [PATCH 65/67] fix: validating any number of zero-sized elements took
 as many steps

---
 crates/musli-zerocopy/src/traits.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/musli-zerocopy/src/traits.rs b/crates/musli-zerocopy/src/traits.rs
index bbcc758..844b147 100644
--- a/crates/musli-zerocopy/src/traits.rs
+++ b/crates/musli-zerocopy/src/traits.rs
@@ -731,7 +731,15 @@ where
         if !T::ANY_BITS {
             let mut validator = Validator::<[T]>::new(data);
 
-            for _ in 0..metadata {
+            // NB: zero-sized elements are all the same, and there might be any
+            // number of them.
+            let count = if size_of::<T>() == 0 {
+                metadata.min(1)
+            } else {
+                metadata
+            };
+
+            for _ in 0..count {
                 validator.validate_only::<T>()?;
             }
         }
-- 
2.43.0


From 5d74b8441fd2da3a57ab32bf2210b33700f9b67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:58 +0000
Subject: [PATCH 66/67] fix: iterating over a garbled trie with nodes referring
 to themselves did not end

---
 crates/musli-zerocopy/src/error.rs     |  6 ++++++
 crates/musli-zerocopy/src/trie/walk.rs | 14 ++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/crates/musli-zerocopy/src/error.rs b/crates/musli-zerocopy/src/error.rs
index add9187..026a63e 100644
--- a/crates/musli-zerocopy/src/error.rs
+++ b/crates/musli-zerocopy/src/error.rs
@@ -216,6 +216,9 @@ pub(crate) enum ErrorKind {
     StackOverflow {
         capacity: usize,
     },
+    TrieOverflow {
+        len: usize,
+    },
     #[cfg(feature = "alloc")]
     CapacityError,
     #[cfg(feature = "alloc")]
@@ -291,6 +294,9 @@ impl fmt::Display for ErrorKind {
             ErrorKind::StackOverflow { capacity } => {
                 write!(f, "Stack with capacity {capacity} overflowed")
             }
+            ErrorKind::TrieOverflow { len } => {
+                write!(f, "Trie has more nodes than fit in a buffer of size {len}")
+            }
             ErrorKind::Utf8Error { error } => error.fmt(f),
             #[cfg(feature = "alloc")]
             ErrorKind::CapacityError => {
diff --git a/crates/musli-zerocopy/src/trie/walk.rs b/crates/musli-zerocopy/src/trie/walk.rs
index 3c52c08..fe7d683 100644
--- a/crates/musli-zerocopy/src/trie/walk.rs
+++ b/crates/musli-zerocopy/src/trie/walk.rs
@@ -21,6 +21,8 @@ where
     // A stack which indicates the links who's children we should visit next,
     // and an index corresponding to the child to visit.
     stack: S,
+    // The number of nodes which have been visited.
+    visited: usize,
 }
 
 impl<'a, 'buf, T, F, S> Walk<'a, 'buf, T, F, S>
@@ -34,6 +36,7 @@ where
             buf,
             state: WalkState::Find(links, prefix),
             stack: S::new(),
+            visited: 0,
         }
     }
 
@@ -141,6 +144,17 @@ where
                         continue;
                     };
 
+                    // NB: every node is stored once, so if there are more of
+                    // them than there are bytes we are visiting garbled nodes
+                    // which refer back to themselves.
+                    if self.visited >= self.buf.len() {
+                        return Err(Error::new(ErrorKind::TrieOverflow {
+                            len: self.buf.len(),
+                        }));
+                    }
+
+                    self.visited += 1;
+
                     let node = self.buf.load(node)?;
 
                     let new_prefix = prefix_string(node.string, prefix.len())?;
-- 
2.43.0


From dc3e35322d8d2dd9876709c38d8c4cbb940e1842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:30 +0000
Subject: [PATCH 67/67] fix: forward the size hint of smart pointers

A transparent variant of an internally tagged enum which holds a Box, Rc or Arc
of a struct could not be encoded in the formats which need to know the number
of entries of a map.
---
 crates/musli-core/src/impls/alloc.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/musli-core/src/impls/alloc.rs b/crates/musli-core/src/impls/alloc.rs
index dd096cd..db5db35 100644
--- a/crates/musli-core/src/impls/alloc.rs
+++ b/crates/musli-core/src/impls/alloc.rs
@@ -699,6 +699,11 @@ macro_rules! smart_pointer {
                     self.as_ref().encode(encoder)
                 }
 
+                #[inline]
+                fn size_hint(&self) -> Option<usize> {
+                    self.as_ref().size_hint()
+                }
+
                 #[inline]
                 fn as_encode(&self) -> &Self::Encode {
                     self
-- 
2.43.0

