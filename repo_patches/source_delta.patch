From 4e4fd29d8be6454a0e00f9ff0ec14f43d92d2a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:14 +0000
Subject: [PATCH 01/62] fix: reject continuation-encoded integers which do not
 fit the decoded type

---
 crates/musli/src/int/continuation.rs | 10 +++++++++-
 crates/musli/src/int/traits.rs       |  4 ++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/crates/musli/src/int/continuation.rs b/crates/musli/src/int/continuation.rs
index 5dd1313..22d5840 100644
--- a/crates/musli/src/int/continuation.rs
+++ b/crates/musli/src/int/continuation.rs
@@ -34,7 +34,15 @@ where
         }
 
         b = r.read_byte(cx)?;
-        value = value.wrapping_add(T::from_byte(b & MASK_BYTE).wrapping_shl(shift));
+        let bits = T::from_byte(b & MASK_BYTE);
+
+        // Reject bits which would be shifted out of the decoded type, since that
+        // means that the encoded number doesn't fit.
+        if bits > (T::MAX >> shift) {
+            return Err(cx.message("Bits overflow"));
+        }
+
+        value = value.wrapping_add(bits.wrapping_shl(shift));
     }
 
     Ok(value)
diff --git a/crates/musli/src/int/traits.rs b/crates/musli/src/int/traits.rs
index 562c51a..23a4594 100644
--- a/crates/musli/src/int/traits.rs
+++ b/crates/musli/src/int/traits.rs
@@ -15,6 +15,9 @@ pub(crate) trait Unsigned:
     /// The number `1` as represented by the current unsigned number.
     const ONE: Self;
 
+    /// The largest value of the current unsigned number.
+    const MAX: Self;
+
     /// Number of bytes.
     #[cfg(feature = "wire")]
     const BYTES: u8;
@@ -96,6 +99,7 @@ macro_rules! implement {
 
         impl Unsigned for $unsigned {
             const ONE: Self = 1;
+            const MAX: Self = <$unsigned>::MAX;
             #[cfg(feature = "wire")]
             const BYTES: u8 = (<$unsigned>::BITS / 8) as u8;
             const BITS: u32 = <$signed>::BITS;
-- 
2.43.0


From 5ee76365cdc84d79874ead44a0980ecf3cd2fe57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:20 +0000
Subject: [PATCH 02/62] fix: only copy raw memory when the configured byte
 order is native

The bitwise fast path of the storage and packed formats ignored the byte
order, so that fixed big endian options produced native bytes for some
types, and slices of types which are bitwise encoded but not bitwise
decoded did not decode.
---
 crates/musli/src/options.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/musli/src/options.rs b/crates/musli/src/options.rs
index c1079d4..4415529 100644
--- a/crates/musli/src/options.rs
+++ b/crates/musli/src/options.rs
@@ -328,8 +328,18 @@ const fn is_map_keys_as_numbers_value(opt: Options) -> bool {
 ))]
 pub(crate) const fn is_native_fixed<const OPT: Options>() -> bool {
     matches!(
-        (integer::<OPT>(), float::<OPT>(), length::<OPT>(),),
-        (Integer::Fixed, Float::Fixed, Width::NATIVE)
+        (
+            integer::<OPT>(),
+            float::<OPT>(),
+            length::<OPT>(),
+            byteorder::<OPT>()
+        ),
+        (
+            Integer::Fixed,
+            Float::Fixed,
+            Width::NATIVE,
+            ByteOrder::NATIVE
+        )
     )
 }
 
-- 
2.43.0


From 7126f291c2ba2760ba5e96f5faed07aa36a1b68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:20 +0000
Subject: [PATCH 03/62] fix: decode OsString and PathBuf as the bytes they are
 encoded as

---
 crates/musli-core/src/impls/alloc.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/musli-core/src/impls/alloc.rs b/crates/musli-core/src/impls/alloc.rs
index d94e753..daf15a4 100644
--- a/crates/musli-core/src/impls/alloc.rs
+++ b/crates/musli-core/src/impls/alloc.rs
@@ -917,7 +917,8 @@ where
                 #[cfg(unix)]
                 PlatformTag::Unix => {
                     use std::os::unix::ffi::OsStringExt;
-                    Ok(OsString::from_vec(variant.decode_value()?.decode()?))
+                    let bytes = DecodeBytes::decode_bytes(variant.decode_value()?)?;
+                    Ok(OsString::from_vec(bytes))
                 }
                 #[cfg(not(windows))]
                 PlatformTag::Windows => Err(cx.message("Unsupported OsString::Windows variant")),
-- 
2.43.0


From 390d7e1b0ca86745f0ac2f0fd9b134e6047ae4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:20 +0000
Subject: [PATCH 04/62] fix: announce the actual width of fixed width lengths
 in the wire format

The prefix tag claimed twice as many bytes as followed, which made skipping
a usize or isize consume bytes which belong to the next value.
---
 crates/musli/src/wire/int.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/musli/src/wire/int.rs b/crates/musli/src/wire/int.rs
index ec0579b..6cff502 100644
--- a/crates/musli/src/wire/int.rs
+++ b/crates/musli/src/wire/int.rs
@@ -27,7 +27,7 @@ where
         }
         width => {
             let bo = crate::options::byteorder::<OPT>();
-            let bytes = 1u8 << width as u8;
+            let bytes = 1u8 << (width as u8 - 1);
             writer.write_byte(cx, Tag::new(Kind::Prefix, bytes).byte())?;
 
             macro_rules! fixed {
@@ -72,7 +72,7 @@ where
         width => {
             let bo = crate::options::byteorder::<OPT>();
 
-            let bytes = 1u8 << width as u8;
+            let bytes = 1u8 << (width as u8 - 1);
             let tag = Tag::from_byte(reader.read_byte(cx)?);
 
             if tag != Tag::new(Kind::Prefix, bytes) {
-- 
2.43.0


From 4089270695681356a916bcb3e091a27c787870f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:45 +0000
Subject: [PATCH 05/62] fix: decode descriptive numbers by value instead of by
 representation

A non-negative signed number was rejected if it made use of the topmost bit of
the unsigned number being decoded, and the bits of floating point numbers were
decoded as integers and the other way around.
---
 crates/musli/src/descriptive/de.rs            |  6 +-
 .../musli/src/descriptive/integer_encoding.rs | 58 ++++++++++++++-----
 2 files changed, 45 insertions(+), 19 deletions(-)

diff --git a/crates/musli/src/descriptive/de.rs b/crates/musli/src/descriptive/de.rs
index ff17a9f..4334e92 100644
--- a/crates/musli/src/descriptive/de.rs
+++ b/crates/musli/src/descriptive/de.rs
@@ -15,7 +15,7 @@ use crate::value::{IntoValueDecoder, Value};
 use crate::Context;
 use crate::{Options, Reader};
 
-use super::integer_encoding::{decode_typed_signed, decode_typed_unsigned};
+use super::integer_encoding::{decode_typed_float, decode_typed_signed, decode_typed_unsigned};
 use super::tag::{Kind, Mark, Tag, F32, F64, I128, I16, I32, I64, I8, U128, U16, U32, U64, U8};
 
 const BUFFER_OPTIONS: Options = options::new().build();
@@ -525,7 +525,7 @@ where
     /// IEEE 754 encoding byte-by-byte.
     #[inline]
     fn decode_f32(self) -> Result<f32, Self::Error> {
-        let bits = self.decode_u32()?;
+        let bits = decode_typed_float(self.cx, self.reader, F32)?;
         Ok(f32::from_bits(bits))
     }
 
@@ -533,7 +533,7 @@ where
     /// IEEE 754 encoding byte-by-byte.
     #[inline]
     fn decode_f64(self) -> Result<f64, Self::Error> {
-        let bits = self.decode_u64()?;
+        let bits = decode_typed_float(self.cx, self.reader, F64)?;
         Ok(f64::from_bits(bits))
     }
 
diff --git a/crates/musli/src/descriptive/integer_encoding.rs b/crates/musli/src/descriptive/integer_encoding.rs
index 39aa221..5485704 100644
--- a/crates/musli/src/descriptive/integer_encoding.rs
+++ b/crates/musli/src/descriptive/integer_encoding.rs
@@ -21,25 +21,26 @@ where
 }
 
 #[inline]
-pub(crate) fn decode_typed_unsigned<'de, C, R, T>(cx: C, reader: R) -> Result<T, C::Error>
+pub(crate) fn decode_typed_unsigned<'de, C, R, T>(cx: C, mut reader: R) -> Result<T, C::Error>
 where
     C: Context,
     R: Reader<'de>,
-    T: Unsigned + TryFrom<T::Signed>,
+    T: Unsigned + TryFrom<i128>,
 {
-    let (value, kind): (T, NumberKind) = decode_typed(cx, reader)?;
-
-    match kind {
+    match decode_number_kind(cx, reader.borrow_mut())? {
         NumberKind::Signed => {
-            let value = zig::decode(value);
+            // NB: A non-negative signed number that fits in `T` takes up an
+            // additional bit when zigzag-encoded, so it has to be decoded as a
+            // wider type.
+            let value: u128 = c::decode(cx, reader)?;
 
-            let Ok(value) = T::try_from(value) else {
-                return Err(cx.message(format_args!("Unsigned value outside of signed range")));
+            let Ok(value) = T::try_from(zig::decode::<u128>(value)) else {
+                return Err(cx.message(format_args!("Signed value outside of unsigned range")));
             };
 
             Ok(value)
         }
-        NumberKind::Unsigned | NumberKind::Float => Ok(value),
+        NumberKind::Unsigned => c::decode(cx, reader),
         kind => Err(cx.message(format_args!(
             "Expected signed or unsigned number, got {:?}",
             kind
@@ -47,6 +48,31 @@ where
     }
 }
 
+/// Decode the bits of a floating point number which has been tagged with
+/// exactly the specified number `bits`.
+#[inline]
+pub(crate) fn decode_typed_float<'de, C, R, T>(
+    cx: C,
+    mut reader: R,
+    bits: u8,
+) -> Result<T, C::Error>
+where
+    C: Context,
+    R: Reader<'de>,
+    T: Unsigned,
+{
+    let tag = Tag::from_byte(reader.read_byte(cx)?);
+
+    if tag != Tag::new(Kind::Number, bits) {
+        return Err(cx.message(format_args!(
+            "Expected {:?}, got {tag:?}",
+            Tag::new(Kind::Number, bits)
+        )));
+    }
+
+    c::decode(cx, reader)
+}
+
 #[inline]
 fn encode_typed<C, W, T>(cx: C, mut writer: W, bits: u8, value: T) -> Result<(), C::Error>
 where
@@ -59,11 +85,10 @@ where
 }
 
 #[inline]
-fn decode_typed<'de, C, R, T>(cx: C, mut reader: R) -> Result<(T, NumberKind), C::Error>
+fn decode_number_kind<'de, C, R>(cx: C, mut reader: R) -> Result<NumberKind, C::Error>
 where
     C: Context,
     R: Reader<'de>,
-    T: Unsigned,
 {
     let tag = Tag::from_byte(reader.read_byte(cx)?);
 
@@ -71,8 +96,7 @@ where
         return Err(cx.message(format_args!("Expected {:?}, got {tag:?}", Kind::Number)));
     }
 
-    let kind = tag.number_kind();
-    Ok((c::decode(cx, reader)?, kind))
+    Ok(tag.number_kind())
 }
 
 #[inline]
@@ -91,17 +115,19 @@ where
 }
 
 #[inline]
-pub(crate) fn decode_typed_signed<'de, C, R, T>(cx: C, reader: R) -> Result<T, C::Error>
+pub(crate) fn decode_typed_signed<'de, C, R, T>(cx: C, mut reader: R) -> Result<T, C::Error>
 where
     C: Context,
     R: Reader<'de>,
     T: Signed + TryFrom<<T as Signed>::Unsigned>,
 {
-    let (value, kind): (T::Unsigned, NumberKind) = decode_typed(cx, reader)?;
+    let kind = decode_number_kind(cx, reader.borrow_mut())?;
 
     match kind {
-        NumberKind::Signed => Ok(zig::decode(value)),
+        NumberKind::Signed => Ok(zig::decode(c::decode::<_, _, T::Unsigned>(cx, reader)?)),
         NumberKind::Unsigned => {
+            let value: T::Unsigned = c::decode(cx, reader)?;
+
             let Ok(value) = T::try_from(value) else {
                 return Err(cx.message(format_args!("Unsigned value outside of signed range")));
             };
-- 
2.43.0


From f8f71dd26e1e35fd6777c56f33f61b54a111300d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:46 +0000
Subject: [PATCH 06/62] fix: read the tag once when decoding any number in the
 descriptive format

---
 crates/musli/src/descriptive/de.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/musli/src/descriptive/de.rs b/crates/musli/src/descriptive/de.rs
index 4334e92..004970d 100644
--- a/crates/musli/src/descriptive/de.rs
+++ b/crates/musli/src/descriptive/de.rs
@@ -372,7 +372,11 @@ where
         V: Visitor<'de, C, Error = Self::Error, Allocator = Self::Allocator>,
     {
         let cx = self.cx;
-        let tag = Tag::from_byte(self.reader.read_byte(cx)?);
+
+        // NB: The tag is read again when the number is decoded.
+        let Some(tag) = self.reader.peek().map(Tag::from_byte) else {
+            return Err(cx.message("Expected tag in input"));
+        };
 
         match tag.kind() {
             Kind::Number => match tag.data() {
-- 
2.43.0


From d5b298914b9a379a7435c519f4aa5136ca310f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:30 +0000
Subject: [PATCH 07/62] fix: report overflowing lengths when skipping instead
 of panicking or wrapping around

---
 crates/musli/src/descriptive/de.rs | 23 +++++++++++++++--------
 crates/musli/src/wire/de.rs        |  8 ++++++--
 2 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/crates/musli/src/descriptive/de.rs b/crates/musli/src/descriptive/de.rs
index 004970d..a392fd0 100644
--- a/crates/musli/src/descriptive/de.rs
+++ b/crates/musli/src/descriptive/de.rs
@@ -63,21 +63,26 @@ where
 {
     /// Skip over any sequences of values.
     pub(crate) fn skip_any(mut self) -> Result<(), C::Error> {
-        let mut remaining = 1;
+        let mut remaining = 1usize;
 
         while remaining > 0 {
+            remaining -= 1;
+
             let tag = Tag::from_byte(self.reader.read_byte(self.cx)?);
 
+            // The number of values which are nested inside of the current one.
+            let mut nested = Some(0usize);
+
             match tag.kind() {
                 Kind::Number => {
                     _ = c::decode::<_, _, u128>(self.cx, self.reader.borrow_mut())?;
                 }
                 Kind::Mark => match tag.mark() {
                     Mark::Variant => {
-                        remaining += 2;
+                        nested = Some(2);
                     }
                     Mark::Some => {
-                        remaining += 1;
+                        nested = Some(1);
                     }
                     Mark::Char => {
                         _ = c::decode::<_, _, u32>(self.cx, self.reader.borrow_mut())?;
@@ -94,12 +99,10 @@ where
                     self.reader.skip(self.cx, len)?;
                 }
                 Kind::Sequence => {
-                    let len = self.decode_len(tag)?;
-                    remaining += len;
+                    nested = Some(self.decode_len(tag)?);
                 }
                 Kind::Map => {
-                    let len = self.decode_len(tag)?;
-                    remaining += len * 2;
+                    nested = self.decode_len(tag)?.checked_mul(2);
                 }
                 kind => {
                     return Err(self
@@ -108,7 +111,11 @@ where
                 }
             }
 
-            remaining -= 1;
+            let Some(sum) = nested.and_then(|n| remaining.checked_add(n)) else {
+                return Err(self.cx.message("Number of nested values overflows"));
+            };
+
+            remaining = sum;
         }
 
         Ok(())
diff --git a/crates/musli/src/wire/de.rs b/crates/musli/src/wire/de.rs
index ccf837f..9ed741a 100644
--- a/crates/musli/src/wire/de.rs
+++ b/crates/musli/src/wire/de.rs
@@ -63,7 +63,7 @@ where
 {
     /// Skip over any sequences of values.
     pub(crate) fn skip_any(mut self) -> Result<(), C::Error> {
-        let mut remaining = 1;
+        let mut remaining = 1usize;
 
         while remaining > 0 {
             remaining -= 1;
@@ -87,7 +87,11 @@ where
                         crate::int::decode_usize::<_, _, OPT>(self.cx, self.reader.borrow_mut())?
                     };
 
-                    remaining += len;
+                    let Some(sum) = remaining.checked_add(len) else {
+                        return Err(self.cx.message("Length of sequence overflows"));
+                    };
+
+                    remaining = sum;
                 }
                 Kind::Continuation => {
                     if tag.data().is_none() {
-- 
2.43.0


From d48f67b2fd57265dfb712b8936d481c5cd54875a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:04 +0000
Subject: [PATCH 08/62] fix: reject JSON integers whose last digit overflows

---
 crates/musli/src/json/parser/integer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/musli/src/json/parser/integer.rs b/crates/musli/src/json/parser/integer.rs
index 8d5ea04..4e9c2d5 100644
--- a/crates/musli/src/json/parser/integer.rs
+++ b/crates/musli/src/json/parser/integer.rs
@@ -521,11 +521,13 @@ where
     P: Parser<'de>,
     C: Context,
 {
-    let Some(out) = out.checked_mul10() else {
+    let digit = T::from_byte(p.read_byte(cx)? - b'0');
+
+    let Some(out) = out.checked_mul10().and_then(|out| out.checked_add(digit)) else {
         return Err(cx.message_at(start, IntegerError::IntegerOverflow));
     };
 
-    Ok(out + T::from_byte(p.read_byte(cx)? - b'0'))
+    Ok(out)
 }
 
 /// Decode sequence of zeros.
-- 
2.43.0


From 91ec6c263a1dd491be42a6bff9a01a6d561fe15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:04 +0000
Subject: [PATCH 09/62] fix: decode JSON integers which are zero or have
 trailing zeros next to an exponent

---
 crates/musli/src/json/parser/integer.rs | 34 +++++++++++--------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/crates/musli/src/json/parser/integer.rs b/crates/musli/src/json/parser/integer.rs
index 4e9c2d5..47c9603 100644
--- a/crates/musli/src/json/parser/integer.rs
+++ b/crates/musli/src/json/parser/integer.rs
@@ -126,7 +126,7 @@ where
     /// Compute as float with a negative exponent.
     #[inline]
     fn compute_float(self, e: i32) -> F {
-        self.value.pow10(e - self.exp)
+        self.value.pow10(e.saturating_sub(self.exp))
     }
 }
 
@@ -171,34 +171,30 @@ where
 
         let Self { mut base, m, e } = self;
 
-        if e == 0 {
-            if !m.value.is_zero() {
-                return Err(IntegerError::Decimal);
-            }
-
-            return Ok(base);
-        }
-
         if e >= 0 {
-            // Decoding the specified mantissa would result in a fractional number.
-            let mantissa_exp = check!(e.checked_sub(m.exp).filter(|n| *n >= 0), Decimal) as u32;
-
             if !base.is_zero() {
                 base = check!(base.checked_pow10(e as u32), IntegerOverflow);
             }
 
-            let base = check! {
-                m.value
-                    .checked_pow10(mantissa_exp)
-                    .and_then(|m| base.checked_add(m)),
-                IntegerOverflow
-            };
+            if !m.value.is_zero() {
+                // Decoding the specified mantissa would result in a fractional number.
+                let mantissa_exp = check!(e.checked_sub(m.exp).filter(|n| *n >= 0), Decimal) as u32;
+
+                base = check! {
+                    m.value
+                        .checked_pow10(mantissa_exp)
+                        .and_then(|m| base.checked_add(m)),
+                    IntegerOverflow
+                };
+            }
 
             Ok(base)
         } else if !m.value.is_zero() {
             Err(IntegerError::Decimal)
+        } else if base.is_zero() {
+            Ok(base)
         } else {
-            Ok(check!(base.checked_neg_pow10(-e as u32), Decimal))
+            Ok(check!(base.checked_neg_pow10(e.unsigned_abs()), Decimal))
         }
     }
 
-- 
2.43.0


From a8a23f02a56d9753c218cd39e142438357f56a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:04 +0000
Subject: [PATCH 10/62] fix: skip whitespace in front of JSON floats

---
 crates/musli/src/json/parser/mut_slice_parser.rs | 4 ++++
 crates/musli/src/json/parser/slice_parser.rs     | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/crates/musli/src/json/parser/mut_slice_parser.rs b/crates/musli/src/json/parser/mut_slice_parser.rs
index 5732b96..e249ac5 100644
--- a/crates/musli/src/json/parser/mut_slice_parser.rs
+++ b/crates/musli/src/json/parser/mut_slice_parser.rs
@@ -136,6 +136,8 @@ impl<'a, 'de> Parser<'de> for MutSliceParser<'a, 'de> {
     where
         C: Context,
     {
+        self.skip_whitespace(cx);
+
         let Some((value, read)) = crate::dec2flt::dec2flt(self.slice) else {
             return Err(cx.message(ErrorMessage::ParseFloat));
         };
@@ -149,6 +151,8 @@ impl<'a, 'de> Parser<'de> for MutSliceParser<'a, 'de> {
     where
         C: Context,
     {
+        self.skip_whitespace(cx);
+
         let Some((value, read)) = crate::dec2flt::dec2flt(self.slice) else {
             return Err(cx.message(ErrorMessage::ParseFloat));
         };
diff --git a/crates/musli/src/json/parser/slice_parser.rs b/crates/musli/src/json/parser/slice_parser.rs
index 36d7afd..9eae9d4 100644
--- a/crates/musli/src/json/parser/slice_parser.rs
+++ b/crates/musli/src/json/parser/slice_parser.rs
@@ -128,6 +128,8 @@ impl<'de> Parser<'de> for SliceParser<'de> {
     where
         C: Context,
     {
+        self.skip_whitespace(cx);
+
         let Some((value, read)) = crate::dec2flt::dec2flt(&self.slice[self.index..]) else {
             return Err(cx.message(ErrorMessage::ParseFloat));
         };
@@ -141,6 +143,8 @@ impl<'de> Parser<'de> for SliceParser<'de> {
     where
         C: Context,
     {
+        self.skip_whitespace(cx);
+
         let Some((value, read)) = crate::dec2flt::dec2flt(&self.slice[self.index..]) else {
             return Err(cx.message(ErrorMessage::ParseFloat));
         };
-- 
2.43.0


From e01093a9caa07f6fea0fccda2e2e1ac500197426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:04 +0000
Subject: [PATCH 11/62] fix: report JSON arrays of bytes which are too long
 instead of panicking

---
 crates/musli/src/json/de/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/musli/src/json/de/mod.rs b/crates/musli/src/json/de/mod.rs
index ee8f6a6..9a3a6fb 100644
--- a/crates/musli/src/json/de/mod.rs
+++ b/crates/musli/src/json/de/mod.rs
@@ -281,8 +281,10 @@ where
             let mut index = 0;
 
             while let Some(item) = seq.try_decode_next()? {
-                if index <= N {
-                    bytes[index] = item.decode_u8()?;
+                let byte = item.decode_u8()?;
+
+                if let Some(b) = bytes.get_mut(index) {
+                    *b = byte;
                 }
 
                 index += 1;
-- 
2.43.0


From c3619c05b6a830d1d3c686a8c1d3ad1437a5cf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:04 +0000
Subject: [PATCH 12/62] fix: require exactly one comma between the elements of
 JSON arrays and objects

---
 crates/musli/src/json/de/object_decoder.rs   | 42 ++++++++++----------
 crates/musli/src/json/de/sequence_decoder.rs | 37 ++++++++---------
 2 files changed, 41 insertions(+), 38 deletions(-)

diff --git a/crates/musli/src/json/de/object_decoder.rs b/crates/musli/src/json/de/object_decoder.rs
index 869ff7a..78b0883 100644
--- a/crates/musli/src/json/de/object_decoder.rs
+++ b/crates/musli/src/json/de/object_decoder.rs
@@ -59,28 +59,30 @@ where
             return Ok(false);
         }
 
-        let first = take(&mut self.first);
-
-        loop {
-            let token = self.parser.lex(self.cx);
-
-            match token {
-                Token::String => {
-                    return Ok(true);
-                }
-                Token::Comma if !first => {
-                    self.parser.skip(self.cx, 1)?;
-                }
-                Token::CloseBrace => {
-                    return Ok(false);
-                }
-                token => {
-                    return Err(self.cx.message(format_args!(
-                        "Expected value, or closing brace `}}` but found {token:?}"
-                    )));
-                }
+        let mut token = self.parser.lex(self.cx);
+
+        if matches!(token, Token::CloseBrace) {
+            return Ok(false);
+        }
+
+        if !take(&mut self.first) {
+            if !matches!(token, Token::Comma) {
+                return Err(self.cx.message(format_args!(
+                    "Expected comma, or closing brace `}}` but found {token:?}"
+                )));
             }
+
+            self.parser.skip(self.cx, 1)?;
+            token = self.parser.lex(self.cx);
         }
+
+        if !matches!(token, Token::String) {
+            return Err(self
+                .cx
+                .message(format_args!("Expected key, but found {token:?}")));
+        }
+
+        Ok(true)
     }
 
     /// Parse end of object.
diff --git a/crates/musli/src/json/de/sequence_decoder.rs b/crates/musli/src/json/de/sequence_decoder.rs
index 8f82a6c..d74245b 100644
--- a/crates/musli/src/json/de/sequence_decoder.rs
+++ b/crates/musli/src/json/de/sequence_decoder.rs
@@ -44,29 +44,30 @@ where
     }
 
     fn parse_next_value(&mut self) -> Result<bool, C::Error> {
-        let first = mem::take(&mut self.first);
+        let mut token = self.parser.lex(self.cx);
 
-        loop {
-            let token = self.parser.lex(self.cx);
+        if matches!(token, Token::CloseBracket) {
+            return Ok(false);
+        }
 
-            if token.is_value() {
-                return Ok(true);
+        if !mem::take(&mut self.first) {
+            if !matches!(token, Token::Comma) {
+                return Err(self.cx.message(format_args!(
+                    "Expected comma or closing bracket `]`, but found {token}"
+                )));
             }
 
-            match token {
-                Token::Comma if !first => {
-                    self.parser.skip(self.cx, 1)?;
-                }
-                Token::CloseBracket => {
-                    return Ok(false);
-                }
-                _ => {
-                    return Err(self.cx.message(format_args!(
-                        "Expected value or closing bracket `]`, but found {token}"
-                    )));
-                }
-            }
+            self.parser.skip(self.cx, 1)?;
+            token = self.parser.lex(self.cx);
         }
+
+        if !token.is_value() {
+            return Err(self
+                .cx
+                .message(format_args!("Expected value, but found {token}")));
+        }
+
+        Ok(true)
     }
 
     #[inline]
-- 
2.43.0


From d9d32d71406ea6cf58b843ec6f1577d63453e4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:38 +0000
Subject: [PATCH 13/62] fix: reject JSON object keys which only start with the
 number they are decoded as

---
 crates/musli/src/json/de/key_signed_visitor.rs   | 11 +++++++++--
 crates/musli/src/json/de/key_unsigned_visitor.rs | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/crates/musli/src/json/de/key_signed_visitor.rs b/crates/musli/src/json/de/key_signed_visitor.rs
index 446acf3..e465290 100644
--- a/crates/musli/src/json/de/key_signed_visitor.rs
+++ b/crates/musli/src/json/de/key_signed_visitor.rs
@@ -3,7 +3,7 @@ use core::marker;
 
 use crate::de::UnsizedVisitor;
 use crate::json::parser::integer::Signed;
-use crate::json::parser::SliceParser;
+use crate::json::parser::{Parser, SliceParser};
 use crate::Context;
 
 use super::parse_signed;
@@ -36,6 +36,13 @@ where
 
     #[inline]
     fn visit_ref(self, cx: C, bytes: &[u8]) -> Result<Self::Ok, C::Error> {
-        parse_signed(cx, &mut SliceParser::new(bytes))
+        let mut parser = SliceParser::new(bytes);
+        let value = parse_signed(cx, &mut parser)?;
+
+        if parser.peek().is_some() {
+            return Err(cx.message("Expected a number as object key"));
+        }
+
+        Ok(value)
     }
 }
diff --git a/crates/musli/src/json/de/key_unsigned_visitor.rs b/crates/musli/src/json/de/key_unsigned_visitor.rs
index e50fc0e..192afba 100644
--- a/crates/musli/src/json/de/key_unsigned_visitor.rs
+++ b/crates/musli/src/json/de/key_unsigned_visitor.rs
@@ -3,7 +3,7 @@ use core::marker;
 
 use crate::de::UnsizedVisitor;
 use crate::json::parser::integer::Unsigned;
-use crate::json::parser::SliceParser;
+use crate::json::parser::{Parser, SliceParser};
 use crate::Context;
 
 use super::parse_unsigned;
@@ -35,6 +35,13 @@ where
 
     #[inline]
     fn visit_ref(self, cx: C, bytes: &[u8]) -> Result<Self::Ok, C::Error> {
-        parse_unsigned(cx, &mut SliceParser::new(bytes))
+        let mut parser = SliceParser::new(bytes);
+        let value = parse_unsigned(cx, &mut parser)?;
+
+        if parser.peek().is_some() {
+            return Err(cx.message("Expected a number as object key"));
+        }
+
+        Ok(value)
     }
 }
-- 
2.43.0


From e9584539cbc47455510a5ff76133018c1757ba00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:35 +0000
Subject: [PATCH 14/62] fix: let FixedBytes be constructed with all of its
 capacity

---
 crates/musli/src/fixed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/musli/src/fixed.rs b/crates/musli/src/fixed.rs
index 4c227c9..7af165b 100644
--- a/crates/musli/src/fixed.rs
+++ b/crates/musli/src/fixed.rs
@@ -36,7 +36,7 @@ impl<const N: usize> FixedBytes<N> {
     #[inline]
     pub fn with_capacity(capacity: usize) -> Self {
         assert!(
-            capacity < N,
+            capacity <= N,
             "Requested capacity {capacity} is larger than {N}"
         );
         Self::new()
-- 
2.43.0


From 9f77d5f2580c62f7099a1843bbd246fca9160904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:28 +0000
Subject: [PATCH 15/62] fix: keep the whole chain of free headers and no stale
 links in the slice allocator

---
 crates/musli/src/alloc/slice.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/musli/src/alloc/slice.rs b/crates/musli/src/alloc/slice.rs
index 574b667..a40eec2 100644
--- a/crates/musli/src/alloc/slice.rs
+++ b/crates/musli/src/alloc/slice.rs
@@ -611,8 +611,10 @@ impl Internal {
     }
 
     unsafe fn push_back(&mut self, region: &mut Region) {
-        if let Some(tail) = self.tail.replace(region.id) {
-            region.prev = Some(tail);
+        region.next = None;
+        region.prev = self.tail.replace(region.id);
+
+        if let Some(tail) = region.prev {
             (*self.header_mut(tail)).next = Some(region.id);
         }
     }
@@ -635,9 +637,10 @@ impl Internal {
     /// The caller msut ensure that there is enough space for the region and
     /// that the end pointer has been aligned to the requirements of `Header`.
     unsafe fn alloc_header(&mut self, end: *mut MaybeUninit<u8>) -> Option<Region> {
-        if let Some(region) = self.free_head.take() {
+        if let Some(region) = self.free_head {
             let mut region = self.region(region);
 
+            self.free_head = region.next.take();
             region.range.start = self.free.start;
             region.range.end = end;
 
-- 
2.43.0


From 25f78670f7cb06801a2a272f06903e1d6f1b0b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:37 +0000
Subject: [PATCH 16/62] fix: do not let a new region header overlap the region
 it describes

---
 crates/musli/src/alloc/slice.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/musli/src/alloc/slice.rs b/crates/musli/src/alloc/slice.rs
index a40eec2..8cf300e 100644
--- a/crates/musli/src/alloc/slice.rs
+++ b/crates/musli/src/alloc/slice.rs
@@ -655,7 +655,8 @@ impl Internal {
 
         let ptr = self.free.end.cast::<Header>().wrapping_sub(1);
 
-        if ptr < self.free.start.cast() || ptr >= self.free.end.cast() {
+        // The header must not overlap the region it describes.
+        if ptr < end.cast() || ptr >= self.free.end.cast() {
             return None;
         }
 
-- 
2.43.0


From fde75eebf2b93c9c07c04fdf48c7aa0e7e233e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:37 +0000
Subject: [PATCH 17/62] fix: mark the region in front of an alignment gap as
 occupied by the gap

---
 crates/musli/src/alloc/slice.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/musli/src/alloc/slice.rs b/crates/musli/src/alloc/slice.rs
index 8cf300e..aaf8712 100644
--- a/crates/musli/src/alloc/slice.rs
+++ b/crates/musli/src/alloc/slice.rs
@@ -731,6 +731,7 @@ impl Internal {
             let mut region = self.alloc_header(aligned_start)?;
 
             self.push_back(&mut region);
+            self.occupied = Some(region.id);
         }
 
         self.free.start = aligned_start;
-- 
2.43.0


From 026f0c31e595f4786dc7adddbf3ec8b9c0ad074a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:37 +0000
Subject: [PATCH 18/62] fix: do not merge slice allocations with empty regions

---
 crates/musli/src/alloc/slice.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/musli/src/alloc/slice.rs b/crates/musli/src/alloc/slice.rs
index aaf8712..55083ea 100644
--- a/crates/musli/src/alloc/slice.rs
+++ b/crates/musli/src/alloc/slice.rs
@@ -397,6 +397,7 @@ impl<T> Alloc<T> for SliceAlloc<'_, T> {
         // NB: Placing this here to make miri happy, since accessing the
         // slice will mean mutably accessing the internal state.
         let other_ptr = buf.as_ptr().cast();
+        let other_empty = buf.capacity() == 0;
 
         unsafe {
             let i = &mut *internal.get();
@@ -416,12 +417,19 @@ impl<T> Alloc<T> for SliceAlloc<'_, T> {
                 return Err(buf);
             };
 
+            let next = i.region(next);
+
+            // Empty regions share their address with the region which follows
+            // them, so the next region is only known to be the other one if
+            // neither of them are empty.
+            if other_empty || next.capacity() == 0 {
+                return Err(buf);
+            }
+
             // Prevent the other buffer from being dropped, since we're
             // taking care of the allocation in here directly instead.
             forget(buf);
 
-            let next = i.region(next);
-
             let to = this.range.start.wrapping_add(this_len);
 
             // Data needs to be shuffle back to the end of the initialized
-- 
2.43.0


From fe4b1a1f30940c0567351ba9740fec72b0aab384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:37 +0000
Subject: [PATCH 19/62] fix: report the capacity of slice allocations in
 elements

---
 crates/musli/src/alloc/slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/musli/src/alloc/slice.rs b/crates/musli/src/alloc/slice.rs
index 55083ea..b8f8f07 100644
--- a/crates/musli/src/alloc/slice.rs
+++ b/crates/musli/src/alloc/slice.rs
@@ -307,7 +307,7 @@ impl<T> Alloc<T> for SliceAlloc<'_, T> {
         // cannot be used incorrectly.
         unsafe {
             let i = &mut *internal.get();
-            i.region(region_id).capacity()
+            i.region(region_id).capacity() / size_of::<T>()
         }
     }
 
-- 
2.43.0


From 43426c39ab788f01232d6263b0db5bc3c83ce493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:37 +0000
Subject: [PATCH 20/62] fix: do not overflow when growing slice allocations

---
 crates/musli/src/alloc/slice.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/musli/src/alloc/slice.rs b/crates/musli/src/alloc/slice.rs
index b8f8f07..040aa5e 100644
--- a/crates/musli/src/alloc/slice.rs
+++ b/crates/musli/src/alloc/slice.rs
@@ -317,8 +317,10 @@ impl<T> Alloc<T> for SliceAlloc<'_, T> {
         //
         // This capacity is in units of `T`, and is only ever at risk of being
         // too small if the allocation has been grown.
-        if len + additional <= self.cap {
-            return Ok(());
+        if let Some(requested) = len.checked_add(additional) {
+            if requested <= self.cap {
+                return Ok(());
+            }
         }
 
         let Some(internal) = self.internal else {
-- 
2.43.0


From 8e9a44aa9365d1fd0082918a0526d2063343f8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:37 +0000
Subject: [PATCH 21/62] fix: keep zero-sized values alive in slice allocations

---
 crates/musli/src/alloc/slice.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/musli/src/alloc/slice.rs b/crates/musli/src/alloc/slice.rs
index 040aa5e..3ef8b58 100644
--- a/crates/musli/src/alloc/slice.rs
+++ b/crates/musli/src/alloc/slice.rs
@@ -182,6 +182,8 @@ unsafe impl<'a> Allocator for &'a Slice<'_> {
     #[inline]
     fn alloc<T>(self, value: T) -> Result<Self::Alloc<T>, AllocError> {
         if size_of::<T>() == 0 {
+            // The value is now owned by the allocation.
+            forget(value);
             return Ok(SliceAlloc::ZST);
         }
 
-- 
2.43.0


From 79314d9f0a94b6aebe37c84181bbd7be387a4d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:37 +0000
Subject: [PATCH 22/62] fix: do not drop zero-sized values moved into
 allocations and vectors

---
 crates/musli-core/src/alloc/system.rs |  9 ++++-----
 crates/musli-core/src/alloc/vec.rs    | 10 ++++++----
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/crates/musli-core/src/alloc/system.rs b/crates/musli-core/src/alloc/system.rs
index 7b34bbc..034185c 100644
--- a/crates/musli-core/src/alloc/system.rs
+++ b/crates/musli-core/src/alloc/system.rs
@@ -72,11 +72,10 @@ unsafe impl Allocator for System {
     fn alloc<T>(self, value: T) -> Result<Self::Alloc<T>, AllocError> {
         let mut raw = SystemAlloc::<T>::alloc()?;
 
-        if size_of::<T>() != 0 {
-            // SAFETY: The above ensures the data has been allocated.
-            unsafe {
-                raw.as_mut_ptr().write(value);
-            }
+        // SAFETY: The above ensures the data has been allocated. Zero-sized
+        // types are written too to prevent them from being dropped here.
+        unsafe {
+            raw.as_mut_ptr().write(value);
         }
 
         Ok(raw)
diff --git a/crates/musli-core/src/alloc/vec.rs b/crates/musli-core/src/alloc/vec.rs
index 7cfad91..02f85b6 100644
--- a/crates/musli-core/src/alloc/vec.rs
+++ b/crates/musli-core/src/alloc/vec.rs
@@ -244,11 +244,13 @@ where
     pub fn push(&mut self, item: T) -> Result<(), AllocError> {
         if size_of::<T>() != 0 {
             self.buf.resize(self.len, 1)?;
+        }
 
-            // SAFETY: The call to reserve ensures that we have enough capacity.
-            unsafe {
-                self.buf.as_mut_ptr().add(self.len).write(item);
-            }
+        // SAFETY: The call to reserve ensures that we have enough capacity.
+        // Zero-sized types are written too, since that prevents the item which
+        // is now owned by the vector from being dropped here.
+        unsafe {
+            self.buf.as_mut_ptr().add(self.len).write(item);
         }
 
         self.len += 1;
-- 
2.43.0


From 8f6bfc9ff4f8046408719fc9a0f4f88295497928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:37 +0000
Subject: [PATCH 23/62] fix: respect the byte order of usize sized references

---
 crates/musli-zerocopy/src/pointer/size.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/musli-zerocopy/src/pointer/size.rs b/crates/musli-zerocopy/src/pointer/size.rs
index 4e78928..dca25d9 100644
--- a/crates/musli-zerocopy/src/pointer/size.rs
+++ b/crates/musli-zerocopy/src/pointer/size.rs
@@ -152,4 +152,4 @@ impl_size!(u16, E::swap_u16);
 impl_size!(u32, E::swap_u32);
 #[cfg(target_pointer_width = "64")]
 impl_size!(u64, E::swap_u64);
-impl_size!(usize, core::convert::identity);
+impl_size!(usize, E::swap_usize);
-- 
2.43.0


From 501dfcc00316d6b61fe8cbe8514f18703cc78496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:37 +0000
Subject: [PATCH 24/62] fix: respect the byte order of references being coerced

---
 crates/musli-zerocopy/src/pointer/ref.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/musli-zerocopy/src/pointer/ref.rs b/crates/musli-zerocopy/src/pointer/ref.rs
index 5d2deff..39bbf0d 100644
--- a/crates/musli-zerocopy/src/pointer/ref.rs
+++ b/crates/musli-zerocopy/src/pointer/ref.rs
@@ -693,7 +693,7 @@ where
     {
         Ref {
             offset: self.offset,
-            metadata: T::coerce_metadata(self.metadata),
+            metadata: T::coerce_metadata(self.metadata.swap_bytes::<E>()).swap_bytes::<E>(),
             _marker: PhantomData,
         }
     }
@@ -765,7 +765,7 @@ where
     {
         Some(Ref {
             offset: self.offset,
-            metadata: T::try_coerce_metadata(self.metadata)?,
+            metadata: T::try_coerce_metadata(self.metadata.swap_bytes::<E>())?.swap_bytes::<E>(),
             _marker: PhantomData,
         })
     }
-- 
2.43.0


From 3991a964272b465c7ef47d82eb5bba3d7549846b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:37 +0000
Subject: [PATCH 25/62] fix: respect the byte order of array references turned
 into slices

---
 crates/musli-zerocopy/src/pointer/ref.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/musli-zerocopy/src/pointer/ref.rs b/crates/musli-zerocopy/src/pointer/ref.rs
index 39bbf0d..7e60b99 100644
--- a/crates/musli-zerocopy/src/pointer/ref.rs
+++ b/crates/musli-zerocopy/src/pointer/ref.rs
@@ -806,7 +806,7 @@ where
     /// ```
     #[inline]
     pub fn array_into_slice(self) -> Ref<[T], E, O> {
-        Ref::with_metadata(self.offset, N)
+        Ref::with_metadata(self.offset(), N)
     }
 }
 
-- 
2.43.0


From 5e040f73762957fd0edd055123aef8fa57a48b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:38 +0000
Subject: [PATCH 26/62] fix: index and iterate over references to slices
 without overflowing

---
 crates/musli-zerocopy/src/pointer/ref.rs | 40 +++++++++++++++++-------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/crates/musli-zerocopy/src/pointer/ref.rs b/crates/musli-zerocopy/src/pointer/ref.rs
index 7e60b99..40f7333 100644
--- a/crates/musli-zerocopy/src/pointer/ref.rs
+++ b/crates/musli-zerocopy/src/pointer/ref.rs
@@ -341,8 +341,7 @@ where
             return None;
         }
 
-        let offset = self.offset.as_usize::<E>() + size_of::<T>() * index;
-        Some(Ref::new(offset))
+        element(self.offset(), index)
     }
 
     /// Get an unchecked reference directly out of the slice without validation.
@@ -452,12 +451,10 @@ where
     /// ```
     #[inline]
     pub fn iter(self) -> Iter<T, E, O> {
-        let start = self.offset.as_usize::<E>();
-        let end = start + self.metadata.as_usize::<E>() * size_of::<T>();
-
         Iter {
-            start,
-            end,
+            offset: self.offset(),
+            start: 0,
+            end: self.len(),
             _marker: PhantomData,
         }
     }
@@ -502,11 +499,30 @@ where
     }
 }
 
+/// A reference to the element at `index` of a slice at `offset`.
+///
+/// The offset of the element might not be representable if the slice comes from
+/// an untrusted buffer, in which case it is out-of-bounds.
+#[inline]
+fn element<T, E, O>(offset: usize, index: usize) -> Option<Ref<T, E, O>>
+where
+    T: ZeroCopy,
+    E: ByteOrder,
+    O: Size,
+{
+    let offset = size_of::<T>().checked_mul(index)?.checked_add(offset)?;
+    Some(Ref::new(O::try_from_usize(offset)?))
+}
+
 /// An iterator over a `Ref<[T]>` which produces `Ref<T>` values.
 ///
 /// See [`Ref::iter`].
 pub struct Iter<T, E, O> {
+    /// The offset of the slice.
+    offset: usize,
+    /// The index of the next element.
     start: usize,
+    /// The index after the last element.
     end: usize,
     _marker: PhantomData<(T, E, O)>,
 }
@@ -525,9 +541,9 @@ where
             return None;
         }
 
-        let start = self.start;
-        self.start += size_of::<T>();
-        Some(Ref::new(start))
+        let index = self.start;
+        self.start += 1;
+        element(self.offset, index)
     }
 }
 
@@ -543,8 +559,8 @@ where
             return None;
         }
 
-        self.end -= size_of::<T>();
-        Some(Ref::new(self.end))
+        self.end -= 1;
+        element(self.offset, self.end)
     }
 }
 
-- 
2.43.0


From 28a61fe5f4a68d53df0eee04c3c9ff4a8c2d575e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:38 +0000
Subject: [PATCH 27/62] fix: index packed references without overflowing

---
 crates/musli-zerocopy/src/slice/packed.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/musli-zerocopy/src/slice/packed.rs b/crates/musli-zerocopy/src/slice/packed.rs
index 3844a58..4602cbe 100644
--- a/crates/musli-zerocopy/src/slice/packed.rs
+++ b/crates/musli-zerocopy/src/slice/packed.rs
@@ -231,7 +231,8 @@ where
             return None;
         }
 
-        Some(self.get_unchecked(index))
+        let offset = size_of::<T>().checked_mul(index)?;
+        Some(Ref::new(offset.checked_add(self.offset())?))
     }
 
     /// Split the slice reference at the given position `at`.
-- 
2.43.0


From 34713b8c1e5f14034c7c43a109ffd01548e0f2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:38 +0000
Subject: [PATCH 28/62] fix: do not panic when the slice being searched is out
 of bounds

---
 crates/musli-zerocopy/src/slice/binary_search.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/musli-zerocopy/src/slice/binary_search.rs b/crates/musli-zerocopy/src/slice/binary_search.rs
index 555cd09..4f19041 100644
--- a/crates/musli-zerocopy/src/slice/binary_search.rs
+++ b/crates/musli-zerocopy/src/slice/binary_search.rs
@@ -1,7 +1,7 @@
 use core::cmp::Ordering;
 
 use crate::buf::{Buf, Visit};
-use crate::error::Error;
+use crate::error::{Error, ErrorKind};
 use crate::slice::Slice;
 use crate::traits::ZeroCopy;
 
@@ -114,7 +114,14 @@ where
         // < size`. Thus `left + size/2 < left + size`, which coupled with
         // the `left + size <= slice.len()` invariant means we have `left +
         // size/2 < slice.len()`, and this is in-bounds.
-        let value = buf.load(slice.get_unchecked(mid))?;
+        let Some(value) = slice.get(mid) else {
+            return Err(Error::new(ErrorKind::IndexOutOfBounds {
+                index: mid,
+                len: slice.len(),
+            }));
+        };
+
+        let value = buf.load(value)?;
         let cmp = f(value)?;
 
         // The reason why we use if/else control flow rather than match
-- 
2.43.0


From aaa84e4bcd88bdf095366c07329f6e6b374558bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:47 +0000
Subject: [PATCH 29/62] fix: return an error for buffer offsets which overflow

---
 crates/musli-zerocopy/src/buf/buf.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/crates/musli-zerocopy/src/buf/buf.rs b/crates/musli-zerocopy/src/buf/buf.rs
index 562ab48..ee56596 100644
--- a/crates/musli-zerocopy/src/buf/buf.rs
+++ b/crates/musli-zerocopy/src/buf/buf.rs
@@ -751,7 +751,7 @@ impl Buf {
         T: ZeroCopy,
     {
         unsafe {
-            let end = offset + size_of::<T>();
+            let end = self.end_of::<T>(offset)?;
 
             // SAFETY: align_of::<T>() is always a power of two.
             let buf = self.inner_get(offset, end, align_of::<T>())?;
@@ -841,7 +841,7 @@ impl Buf {
         }
 
         let start = a.max(b);
-        let end = start + size_of::<T>();
+        let end = self.end_of::<T>(start)?;
 
         if end > self.data.len() {
             return Err(Error::new(ErrorKind::OutOfRangeBounds {
@@ -875,7 +875,7 @@ impl Buf {
     where
         T: ZeroCopy,
     {
-        let end = offset + size_of::<T>();
+        let end = self.end_of::<T>(offset)?;
 
         unsafe {
             // SAFETY: align_of::<T>() is always a power of two.
@@ -919,6 +919,19 @@ impl Buf {
         }
     }
 
+    /// Calculate the end of a value of type `T` which starts at `start`.
+    #[inline]
+    fn end_of<T>(&self, start: usize) -> Result<usize, Error> {
+        let Some(end) = start.checked_add(size_of::<T>()) else {
+            return Err(Error::new(ErrorKind::OutOfRangeFromBounds {
+                range: start..,
+                len: self.data.len(),
+            }));
+        };
+
+        Ok(end)
+    }
+
     /// Access the underlying slice as a pointer.
     #[inline]
     pub(crate) fn as_ptr(&self) -> *const u8 {
-- 
2.43.0


From 075316f3d8b4c791f09e135a11872d12f8ed1e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:47 +0000
Subject: [PATCH 30/62] fix: validate unaligned values in an aligned copy

---
 crates/musli-zerocopy/src/buf/buf.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/crates/musli-zerocopy/src/buf/buf.rs b/crates/musli-zerocopy/src/buf/buf.rs
index ee56596..9f65a46 100644
--- a/crates/musli-zerocopy/src/buf/buf.rs
+++ b/crates/musli-zerocopy/src/buf/buf.rs
@@ -2,7 +2,7 @@ use core::alloc::Layout;
 use core::fmt;
 use core::mem::{align_of, size_of, MaybeUninit};
 use core::ops::{Index, IndexMut, Range};
-use core::ptr::{read_unaligned, NonNull};
+use core::ptr::NonNull;
 use core::slice::SliceIndex;
 
 #[cfg(feature = "alloc")]
@@ -900,22 +900,30 @@ impl Buf {
     where
         T: ZeroCopy,
     {
-        let end = start + size_of::<T>();
+        let end = self.end_of::<T>(start)?;
+        let buf = self.inner_get_unaligned(start, end)?;
+
+        // NB: The value is validated in place, since a validator locates the
+        // fields of a type by their alignment.
+        let mut value = MaybeUninit::<T>::uninit();
 
+        // SAFETY: The buffer is exactly as large as `T`, and `value` is
+        // correctly aligned.
         unsafe {
-            // SAFETY: align_of::<T>() is always a power of two.
-            let buf = self.inner_get_unaligned(start, end)?;
+            let data = NonNull::from(&mut value).cast::<u8>();
+            data.as_ptr()
+                .copy_from_nonoverlapping(buf.as_ptr(), buf.len());
 
             if !T::ANY_BITS {
-                // SAFETY: We've checked the size and alignment of the buffer above.
+                // SAFETY: All bytes of the value have just been initialized.
                 // The remaining safety requirements depend on the implementation of
                 // validate.
-                T::validate(&mut Validator::from_slice(buf))?;
+                T::validate(&mut Validator::new(data))?;
             }
 
             // SAFETY: Implementing ANY_BITS is unsafe, and requires that the
             // type being coerced into can really inhabit any bit pattern.
-            Ok(read_unaligned(buf.as_ptr().cast()))
+            Ok(value.assume_init())
         }
     }
 
-- 
2.43.0


From 90aa4eb05112c3d093e4562ad1e6d3eae795f293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:47 +0000
Subject: [PATCH 31/62] fix: do not free memory an empty buffer has not
 allocated

---
 crates/musli-zerocopy/src/buf/owned_buf.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/musli-zerocopy/src/buf/owned_buf.rs b/crates/musli-zerocopy/src/buf/owned_buf.rs
index 45caee5..a61a65c 100644
--- a/crates/musli-zerocopy/src/buf/owned_buf.rs
+++ b/crates/musli-zerocopy/src/buf/owned_buf.rs
@@ -920,6 +920,14 @@ where
     pub fn align_in_place(&mut self) {
         // SAFETY: self.requested is guaranteed to be a power of two.
         if !buf::is_aligned_with(self.as_ptr(), self.requested) {
+            if self.capacity == 0 {
+                // NB: Nothing is allocated, so there is nothing to reallocate.
+                // SAFETY: self.requested is guaranteed to be a power of two.
+                self.data = unsafe { dangling(self.requested) };
+                self.align = self.requested;
+                return;
+            }
+
             let (old_layout, new_layout) = self.layouts(self.capacity);
             self.alloc_new(old_layout, new_layout);
         }
-- 
2.43.0


From 67a2a0452bbbd962192e3a499fe0232e10ba429c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:47 +0000
Subject: [PATCH 32/62] fix: move the entries of perfect hash tables to where
 they are looked up

---
 crates/musli-zerocopy/src/phf/factory.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/crates/musli-zerocopy/src/phf/factory.rs b/crates/musli-zerocopy/src/phf/factory.rs
index b8c4977..c391a78 100644
--- a/crates/musli-zerocopy/src/phf/factory.rs
+++ b/crates/musli-zerocopy/src/phf/factory.rs
@@ -177,17 +177,21 @@ where
         )?
     };
 
-    for (from, a) in map.iter().enumerate() {
+    // Each element of the map is the index of the entry which belongs there, so
+    // move them into place one cycle at a time.
+    for start in 0..map.len() {
+        let mut to = start;
+
         loop {
-            let to = *buf.as_mut_buf().load(a)?;
+            let from = *buf.as_mut_buf().load(map.at(to))?;
+            *buf.as_mut_buf().load_mut(map.at(to))? = to;
 
-            if from != to {
-                buf.swap(entries.at(from), entries.at(to))?;
-                buf.swap(map.at(from), map.at(to))?;
-                continue;
+            if from == start {
+                break;
             }
 
-            break;
+            buf.swap(entries.at(from), entries.at(to))?;
+            to = from;
         }
     }
 
-- 
2.43.0


From 2e283e990185471dd29b07f36a539512ac542c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:47 +0000
Subject: [PATCH 33/62] fix: do not divide by the length of an empty perfect
 hash table

---
 crates/musli-zerocopy/src/phf/map.rs | 4 ++--
 crates/musli-zerocopy/src/phf/set.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/musli-zerocopy/src/phf/map.rs b/crates/musli-zerocopy/src/phf/map.rs
index caa0cfe..47ba950 100644
--- a/crates/musli-zerocopy/src/phf/map.rs
+++ b/crates/musli-zerocopy/src/phf/map.rs
@@ -141,7 +141,7 @@ where
         K: Visit,
         K::Target: Borrow<T::Target>,
     {
-        if self.displacements.is_empty() {
+        if self.displacements.is_empty() || self.entries.is_empty() {
             return Ok(None);
         }
 
@@ -340,7 +340,7 @@ where
         K: 'a + Visit,
         K::Target: Borrow<T::Target>,
     {
-        if self.displacements.is_empty() {
+        if self.displacements.is_empty() || self.entries.is_empty() {
             return Ok(None);
         }
 
diff --git a/crates/musli-zerocopy/src/phf/set.rs b/crates/musli-zerocopy/src/phf/set.rs
index b011c58..6b7dd05 100644
--- a/crates/musli-zerocopy/src/phf/set.rs
+++ b/crates/musli-zerocopy/src/phf/set.rs
@@ -77,7 +77,7 @@ where
         T: Visit,
         T::Target: Borrow<Q::Target>,
     {
-        if self.displacements.is_empty() {
+        if self.displacements.is_empty() || self.entries.is_empty() {
             return Ok(false);
         }
 
@@ -209,7 +209,7 @@ where
         T: Visit,
         T::Target: Borrow<Q::Target>,
     {
-        if self.displacements.is_empty() {
+        if self.displacements.is_empty() || self.entries.is_empty() {
             return Ok(false);
         }
 
-- 
2.43.0


From ed36a24d114bf2750bb5e7c63cf892d91325a518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:47 +0000
Subject: [PATCH 34/62] fix: look up the displacements of perfect hash tables
 by their bucket

---
 crates/musli-zerocopy/src/phf/generator.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/musli-zerocopy/src/phf/generator.rs b/crates/musli-zerocopy/src/phf/generator.rs
index 26eee0c..835a47d 100644
--- a/crates/musli-zerocopy/src/phf/generator.rs
+++ b/crates/musli-zerocopy/src/phf/generator.rs
@@ -1,3 +1,4 @@
+use core::cmp::Reverse;
 use core::hash::Hash;
 
 use alloc::vec;
@@ -91,7 +92,14 @@ where
         buckets[to].push(index);
     }
 
-    buckets.sort_by_key(|a| a.len());
+    // Each bucket has to keep hold of its displacement, since that is what it
+    // is looked up through. The largest buckets are placed first, while there
+    // still is room for them.
+    let mut buckets = buckets
+        .iter()
+        .zip(displacements.iter())
+        .collect::<Vec<_>>();
+    buckets.sort_by_key(|(bucket, _)| Reverse(bucket.len()));
 
     let table_len = hashes.len();
     // let mut map = vec![usize::MAX; table_len];
@@ -111,7 +119,7 @@ where
     // chosen the right displacements.
     let mut values_to_add = vec![];
 
-    'outer: for (bucket, d_ref) in buckets.iter().zip(displacements.iter()) {
+    'outer: for (bucket, d_ref) in buckets {
         for d1 in 0..(table_len as u32) {
             'inner: for d2 in 0..(table_len as u32) {
                 values_to_add.clear();
-- 
2.43.0


From 61372304f84237610c5725ee004caf5e8bcada3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:53 +0000
Subject: [PATCH 35/62] fix: report the number of elements of larger swiss
 tables

---
 crates/musli-zerocopy/src/swiss/constructor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/musli-zerocopy/src/swiss/constructor.rs b/crates/musli-zerocopy/src/swiss/constructor.rs
index 5a204c0..03ef9f4 100644
--- a/crates/musli-zerocopy/src/swiss/constructor.rs
+++ b/crates/musli-zerocopy/src/swiss/constructor.rs
@@ -84,7 +84,7 @@ where
 
     /// Get the length of the table.
     pub(crate) fn len(&self) -> usize {
-        self.bucket_mask - self.growth_left
+        bucket_mask_to_capacity(self.bucket_mask) - self.growth_left
     }
 
     /// Returns the number of buckets in the table.
-- 
2.43.0


From cca41732ccd2a4b0119a63559c36db34849db223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:53 +0000
Subject: [PATCH 36/62] fix: return an error when probing swiss tables with a
 corrupted mask

---
 crates/musli-zerocopy/src/swiss/map.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/crates/musli-zerocopy/src/swiss/map.rs b/crates/musli-zerocopy/src/swiss/map.rs
index cdc0b29..9f0a44f 100644
--- a/crates/musli-zerocopy/src/swiss/map.rs
+++ b/crates/musli-zerocopy/src/swiss/map.rs
@@ -451,6 +451,15 @@ impl<'a, T> RawTable<'a, T> {
         hash: u64,
         eq: &mut dyn FnMut(usize) -> Result<bool, Error>,
     ) -> Result<Option<usize>, Error> {
+        // NB: This ensures that probing neither overflows nor goes on for longer
+        // than there are control bytes.
+        if self.bucket_mask >= self.ctrl.len() {
+            return Err(Error::new(ErrorKind::ControlRangeOutOfBounds {
+                range: 0..self.bucket_mask,
+                len: self.ctrl.len(),
+            }));
+        }
+
         let h2_hash = h2(hash);
         let mut probe_seq = probe_seq(self.bucket_mask, hash);
 
@@ -570,10 +579,20 @@ where
         hash: u64,
         eq: &mut dyn FnMut(usize) -> Result<bool, Error>,
     ) -> Result<Option<usize>, Error> {
-        let h2_hash = h2(hash);
-        let mut probe_seq = probe_seq(self.bucket_mask.to_ne(), hash);
-
         let ctrl = buf.load(self.ctrl)?;
+        let bucket_mask = self.bucket_mask.to_ne();
+
+        // NB: This ensures that probing neither overflows nor goes on for longer
+        // than there are control bytes.
+        if bucket_mask >= ctrl.len() {
+            return Err(Error::new(ErrorKind::ControlRangeOutOfBounds {
+                range: 0..bucket_mask,
+                len: ctrl.len(),
+            }));
+        }
+
+        let h2_hash = h2(hash);
+        let mut probe_seq = probe_seq(bucket_mask, hash);
 
         loop {
             let range = probe_seq.pos..probe_seq.pos + size_of::<Group>();
-- 
2.43.0


From 19d9994d3af322cbd8687052afe1951af88cfa6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:53 +0000
Subject: [PATCH 37/62] fix: share the prefix of keys which are inserted in
 descending order

---
 crates/musli-zerocopy/src/trie/factory.rs | 38 +++++++++++++----------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/crates/musli-zerocopy/src/trie/factory.rs b/crates/musli-zerocopy/src/trie/factory.rs
index d27a265..3a7fd53 100644
--- a/crates/musli-zerocopy/src/trie/factory.rs
+++ b/crates/musli-zerocopy/src/trie/factory.rs
@@ -165,24 +165,22 @@ where
                     this.children[n].links.values.push(value);
                     return Ok(());
                 }
-                BinarySearch::Missing(0) => {
-                    this.children.insert(
-                        0,
-                        Node {
-                            string: Ref::try_with_metadata(string.offset(), string.len())?,
-                            links: Links::new(value),
-                        },
-                    );
-                    return Ok(());
-                }
                 BinarySearch::Missing(n) => {
-                    let pre = n - 1;
+                    // Since no two children share a prefix, only the direct
+                    // neighbors can have one in common with the string.
+                    let mut common = None;
 
-                    // Find common prefix and split nodes if necessary.
-                    let prefix = prefix(buf.load(this.children[pre].string)?, current);
+                    for near in n.saturating_sub(1)..this.children.len().min(n + 1) {
+                        let prefix = prefix(buf.load(this.children[near].string)?, current);
+
+                        if prefix != 0 {
+                            common = Some((near, prefix));
+                            break;
+                        }
+                    }
 
-                    // No common prefix in prior node, so a new node is needed.
-                    if prefix == 0 {
+                    // No common prefix in the neighbors, so a new node is needed.
+                    let Some((near, prefix)) = common else {
                         this.children.insert(
                             n,
                             Node {
@@ -191,9 +189,9 @@ where
                             },
                         );
                         return Ok(());
-                    }
+                    };
 
-                    let child = &mut this.children[pre];
+                    let child = &mut this.children[near];
 
                     // This happens if `current` contains a shorter subset match
                     // than the string represented by `child`, like `work` and
@@ -214,6 +212,12 @@ where
                         child.links.children.push(replaced);
                     }
 
+                    // The string ends where the child does.
+                    if prefix == current.len() {
+                        child.links.values.push(value);
+                        return Ok(());
+                    }
+
                     current = &current[prefix..];
                     string = string.split_at(prefix).1;
                     this = &mut child.links;
-- 
2.43.0


From 8086cdd2f8305f541765f19788837ebb1bc9f9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:53 +0000
Subject: [PATCH 38/62] fix: only descend into trie nodes which are a prefix of
 the key

---
 crates/musli-zerocopy/src/trie/mod.rs  |  5 +++--
 crates/musli-zerocopy/src/trie/walk.rs | 17 +++++++++++------
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/crates/musli-zerocopy/src/trie/mod.rs b/crates/musli-zerocopy/src/trie/mod.rs
index 16f4953..fe49409 100644
--- a/crates/musli-zerocopy/src/trie/mod.rs
+++ b/crates/musli-zerocopy/src/trie/mod.rs
@@ -252,10 +252,11 @@ where
                     let child = this.children.get_unchecked(n - 1);
                     let child = buf.load(child)?;
 
-                    // Find common prefix and split nodes if necessary.
+                    // The string can only be found in the child if all of the
+                    // child is a prefix of it.
                     let prefix = prefix(buf.load(child.string)?, string);
 
-                    if prefix == 0 {
+                    if prefix == 0 || prefix != child.string.len() {
                         return Ok(None);
                     }
 
diff --git a/crates/musli-zerocopy/src/trie/walk.rs b/crates/musli-zerocopy/src/trie/walk.rs
index 2169bba..b60ea30 100644
--- a/crates/musli-zerocopy/src/trie/walk.rs
+++ b/crates/musli-zerocopy/src/trie/walk.rs
@@ -89,14 +89,19 @@ where
                                         continue;
                                     }
 
-                                    if prefix != string.len() {
-                                        len += prefix;
-                                        string = &string[prefix..];
-                                        this = child.links;
-                                        continue 'node;
+                                    if prefix == string.len() {
+                                        break 'node child;
                                     }
 
-                                    break 'node child;
+                                    // The string and the child diverge.
+                                    if prefix != child.string.len() {
+                                        continue;
+                                    }
+
+                                    len += prefix;
+                                    string = &string[prefix..];
+                                    this = child.links;
+                                    continue 'node;
                                 }
 
                                 // Falling through here indicates that we have
-- 
2.43.0


From 5997d74344f1baa46d0881a1bd6884515acaa163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:33 +0000
Subject: [PATCH 39/62] fix: reject trie nodes which have children but do not
 extend the prefix

---
 crates/musli-zerocopy/src/error.rs     | 6 ++++++
 crates/musli-zerocopy/src/trie/walk.rs | 8 ++++++++
 2 files changed, 14 insertions(+)

diff --git a/crates/musli-zerocopy/src/error.rs b/crates/musli-zerocopy/src/error.rs
index add9187..3084528 100644
--- a/crates/musli-zerocopy/src/error.rs
+++ b/crates/musli-zerocopy/src/error.rs
@@ -216,6 +216,9 @@ pub(crate) enum ErrorKind {
     StackOverflow {
         capacity: usize,
     },
+    EmptyBranch {
+        children: usize,
+    },
     #[cfg(feature = "alloc")]
     CapacityError,
     #[cfg(feature = "alloc")]
@@ -291,6 +294,9 @@ impl fmt::Display for ErrorKind {
             ErrorKind::StackOverflow { capacity } => {
                 write!(f, "Stack with capacity {capacity} overflowed")
             }
+            ErrorKind::EmptyBranch { children } => {
+                write!(f, "Trie node with {children} children has an empty string")
+            }
             ErrorKind::Utf8Error { error } => error.fmt(f),
             #[cfg(feature = "alloc")]
             ErrorKind::CapacityError => {
diff --git a/crates/musli-zerocopy/src/trie/walk.rs b/crates/musli-zerocopy/src/trie/walk.rs
index b60ea30..8e04932 100644
--- a/crates/musli-zerocopy/src/trie/walk.rs
+++ b/crates/musli-zerocopy/src/trie/walk.rs
@@ -145,6 +145,14 @@ where
 
                     let node = self.buf.load(node)?;
 
+                    // NB: Every level has to extend the prefix, since a node in
+                    // untrusted data can otherwise be its own child forever.
+                    if node.string.is_empty() && !node.links.children.is_empty() {
+                        return Err(Error::new(ErrorKind::EmptyBranch {
+                            children: node.links.children.len(),
+                        }));
+                    }
+
                     let new_prefix = prefix_string(node.string, prefix.len())?;
                     let new_prefix = self.buf.load(new_prefix)?;
 
-- 
2.43.0


From c91516d1699272f033a6f3ebd87860119251e2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:16 +0000
Subject: [PATCH 40/62] fix: encode and decode the content of smart pointers in
 the same way

---
 crates/musli-core/src/impls/alloc.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/musli-core/src/impls/alloc.rs b/crates/musli-core/src/impls/alloc.rs
index daf15a4..cb8d556 100644
--- a/crates/musli-core/src/impls/alloc.rs
+++ b/crates/musli-core/src/impls/alloc.rs
@@ -689,7 +689,7 @@ macro_rules! smart_pointer {
             {
                 const IS_BITWISE_ENCODE: bool = false;
 
-                type Encode = T;
+                type Encode = Self;
 
                 #[inline]
                 fn encode<E>(&self, encoder: E) -> Result<(), E::Error>
@@ -717,7 +717,7 @@ macro_rules! smart_pointer {
                 where
                     D: Decoder<'de, Mode = M, Allocator = A>,
                 {
-                    Ok($ty::new(decoder.decode()?))
+                    Ok($ty::new(T::decode(decoder)?))
                 }
             }
 
-- 
2.43.0


From 348a1f2c0ca557b2e52eea2d84018105e03255f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:16 +0000
Subject: [PATCH 41/62] fix: encode and decode the content of Wrapping in the
 same way

---
 crates/musli-core/src/impls/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/musli-core/src/impls/mod.rs b/crates/musli-core/src/impls/mod.rs
index 2c2554a..57a7c59 100644
--- a/crates/musli-core/src/impls/mod.rs
+++ b/crates/musli-core/src/impls/mod.rs
@@ -789,7 +789,7 @@ where
     where
         D: Decoder<'de, Mode = M, Allocator = A>,
     {
-        Ok(Wrapping(decoder.decode()?))
+        Ok(Wrapping(T::decode(decoder)?))
     }
 }
 
-- 
2.43.0


From 458887b11ea16e0b8be27f02c9fdaf7a1ac41944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:16 +0000
Subject: [PATCH 42/62] fix: do not decode AtomicBool from arbitrary bytes

---
 crates/musli-core/src/impls/mod.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/crates/musli-core/src/impls/mod.rs b/crates/musli-core/src/impls/mod.rs
index 57a7c59..be700ac 100644
--- a/crates/musli-core/src/impls/mod.rs
+++ b/crates/musli-core/src/impls/mod.rs
@@ -104,14 +104,14 @@ where
 }
 
 macro_rules! atomic_impl {
-    ($size:literal $(, $ty:ident)*) => {
+    ($size:literal $(, $ty:ident($repr:ty))*) => {
         $(
             #[cfg(target_has_atomic = $size)]
             impl<'de, M, A> Decode<'de, M, A> for core::sync::atomic::$ty
             where
                 A: Allocator
             {
-                const IS_BITWISE_DECODE: bool = true;
+                const IS_BITWISE_DECODE: bool = <$repr as Decode<'de, M, A>>::IS_BITWISE_DECODE;
 
                 fn decode<D>(decoder: D) -> Result<Self, D::Error>
                 where
@@ -124,11 +124,11 @@ macro_rules! atomic_impl {
     };
 }
 
-atomic_impl!("8", AtomicBool, AtomicI8, AtomicU8);
-atomic_impl!("16", AtomicI16, AtomicU16);
-atomic_impl!("32", AtomicI32, AtomicU32);
-atomic_impl!("64", AtomicI64, AtomicU64);
-atomic_impl!("ptr", AtomicIsize, AtomicUsize);
+atomic_impl!("8", AtomicBool(bool), AtomicI8(i8), AtomicU8(u8));
+atomic_impl!("16", AtomicI16(i16), AtomicU16(u16));
+atomic_impl!("32", AtomicI32(i32), AtomicU32(u32));
+atomic_impl!("64", AtomicI64(i64), AtomicU64(u64));
+atomic_impl!("ptr", AtomicIsize(isize), AtomicUsize(usize));
 
 macro_rules! non_zero {
     ($ty:ty) => {
-- 
2.43.0


From 2a2c88c27aefddbb1a5ca7ba29cd9cd55c7bf380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:17 +0000
Subject: [PATCH 43/62] fix: use the number of fields in a variant as the
 length of its map

---
 crates/musli-macros/src/en.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/crates/musli-macros/src/en.rs b/crates/musli-macros/src/en.rs
index d939b31..eb295e7 100644
--- a/crates/musli-macros/src/en.rs
+++ b/crates/musli-macros/src/en.rs
@@ -221,7 +221,21 @@ fn encode_default(cx: Ctxt<'_>, b: &Build<'_>, st: &Body<'_>) -> Result<TokenStr
             let encoders = make_encoders(cx, b, st)?;
 
             let len = length_test(st.unskipped_fields());
-            let (build_hint, hint) = len.build_hint(b);
+            let (mut build_hint, hint) = len.build_hint(b);
+
+            if let LengthTestKind::Dynamic = len.kind {
+                // The size hint of `self` might be that of an enum, which is
+                // not the number of fields in the variant encoded here.
+                let decls = st.field_tests();
+
+                build_hint = quote! {
+                    let #hint: usize = {
+                        #(#decls)*
+                        let #hint = #len;
+                        #hint
+                    };
+                };
+            }
 
             encode = quote! {{
                 #build_hint
-- 
2.43.0


From 4be76ab9e555115b7afbac7662f39f40efb8fc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:17 +0000
Subject: [PATCH 44/62] fix: decode options which have been buffered from
 formats like JSON

---
 crates/musli/src/value/de.rs    | 12 +++++++++---
 crates/musli/src/value/error.rs |  4 ----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/crates/musli/src/value/de.rs b/crates/musli/src/value/de.rs
index 346fe35..ac932b7 100644
--- a/crates/musli/src/value/de.rs
+++ b/crates/musli/src/value/de.rs
@@ -258,9 +258,15 @@ where
 
     #[inline]
     fn decode_option(self) -> Result<Option<Self::DecodeSome>, Self::Error> {
-        ensure!(self, hint, ExpectedOption(hint), Value::Option(option) => {
-            Ok(option.as_ref().map(|some| ValueDecoder::new(self.cx, some)))
-        })
+        match self.value {
+            Value::Option(option) => {
+                Ok(option.as_ref().map(|some| ValueDecoder::new(self.cx, some)))
+            }
+            // Formats without a distinct representation for options, like JSON,
+            // buffer them as either the unit or the value which is present.
+            Value::Unit => Ok(None),
+            _ => Ok(Some(self)),
+        }
     }
 
     #[inline]
diff --git a/crates/musli/src/value/error.rs b/crates/musli/src/value/error.rs
index 1b58042..d3ea7cc 100644
--- a/crates/musli/src/value/error.rs
+++ b/crates/musli/src/value/error.rs
@@ -22,7 +22,6 @@ pub(crate) enum ErrorMessage {
     ExpectedBytes(TypeHint),
     ExpectedString(TypeHint),
     ExpectedStringAsNumber,
-    ExpectedOption(TypeHint),
     ExpectedSequence(TypeHint),
     ExpectedPack(TypeHint),
     ExpectedMap(TypeHint),
@@ -61,9 +60,6 @@ impl fmt::Display for ErrorMessage {
             ErrorMessage::ExpectedStringAsNumber => {
                 write!(f, "Value buffer expected string containing number")
             }
-            ErrorMessage::ExpectedOption(hint) => {
-                write!(f, "Value buffer expected option, but found {hint}")
-            }
             ErrorMessage::ExpectedSequence(hint) => {
                 write!(f, "Value buffer expected sequence, but found {hint}")
             }
-- 
2.43.0


From 6128d33064df9c5530e83a3cc24342221b8e620b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:17 +0000
Subject: [PATCH 45/62] fix: decode floats which have been buffered as another
 kind of number

---
 crates/musli/src/value/de.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/musli/src/value/de.rs b/crates/musli/src/value/de.rs
index ac932b7..b3acf7a 100644
--- a/crates/musli/src/value/de.rs
+++ b/crates/musli/src/value/de.rs
@@ -211,12 +211,12 @@ where
 
     #[inline]
     fn decode_f32(self) -> Result<f32, Self::Error> {
-        ensure!(self, hint, ExpectedNumber(NumberHint::F32, hint), Value::Number(Number::F32(n)) => Ok(*n))
+        ensure_number!(self, OPT, F32, Value::Number(n) => f32)
     }
 
     #[inline]
     fn decode_f64(self) -> Result<f64, Self::Error> {
-        ensure!(self, hint, ExpectedNumber(NumberHint::F64, hint), Value::Number(Number::F64(n)) => Ok(*n))
+        ensure_number!(self, OPT, F64, Value::Number(n) => f64)
     }
 
     #[inline]
-- 
2.43.0


From 3a1d84bd7ec066ceaf71282e4f63038f0d111381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:17 +0000
Subject: [PATCH 46/62] fix: decode characters which have been buffered as
 strings

---
 crates/musli/src/value/de.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/crates/musli/src/value/de.rs b/crates/musli/src/value/de.rs
index b3acf7a..d152abe 100644
--- a/crates/musli/src/value/de.rs
+++ b/crates/musli/src/value/de.rs
@@ -156,7 +156,23 @@ where
 
     #[inline]
     fn decode_char(self) -> Result<char, Self::Error> {
-        ensure!(self, hint, ExpectedChar(hint), Value::Char(c) => Ok(*c))
+        match self.value {
+            Value::Char(c) => Ok(*c),
+            value => {
+                // Formats like JSON represent characters as strings.
+                if let Value::String(string) = value {
+                    let mut chars = string.chars();
+
+                    if let (Some(c), None) = (chars.next(), chars.next()) {
+                        return Ok(c);
+                    }
+                }
+
+                Err(self
+                    .cx
+                    .message(ErrorMessage::ExpectedChar(value.type_hint())))
+            }
+        }
     }
 
     #[inline]
-- 
2.43.0


From d9ad7d264de67b8368b327c70220b594e33f459a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:17 +0000
Subject: [PATCH 47/62] fix: decode variants which have been buffered as maps

---
 crates/musli/src/value/de.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/crates/musli/src/value/de.rs b/crates/musli/src/value/de.rs
index d152abe..1ffbbe1 100644
--- a/crates/musli/src/value/de.rs
+++ b/crates/musli/src/value/de.rs
@@ -338,9 +338,17 @@ where
     where
         F: FnOnce(&mut Self::DecodeVariant) -> Result<O, Self::Error>,
     {
-        ensure!(self, hint, ExpectedVariant(hint), Value::Variant(st) => {
-            f(&mut IterValueVariantDecoder::new(self.cx, st))
-        })
+        let pair = match self.value {
+            Value::Variant(pair) => &**pair,
+            // Formats like JSON represent variants as maps with one entry.
+            Value::Map(map) if map.len() == 1 => &map[0],
+            value => {
+                let hint = value.type_hint();
+                return Err(self.cx.message(ErrorMessage::ExpectedVariant(hint)));
+            }
+        };
+
+        f(&mut IterValueVariantDecoder::new(self.cx, pair))
     }
 
     #[inline]
@@ -724,7 +732,7 @@ where
 
     #[inline]
     fn decode_tag(&mut self) -> Result<Self::DecodeTag<'_>, Self::Error> {
-        Ok(ValueDecoder::new(self.cx, &self.pair.0))
+        Ok(ValueDecoder::with_map_key(self.cx, &self.pair.0))
     }
 
     #[inline]
-- 
2.43.0


From 3525dec08c07d96dfb99b48b8dd5e19ee5ad38e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:51 +0000
Subject: [PATCH 48/62] fix: decode bytes which have been buffered as sequences

---
 crates/musli/src/value/de.rs | 47 ++++++++++++++++++++++++++++++------
 1 file changed, 40 insertions(+), 7 deletions(-)

diff --git a/crates/musli/src/value/de.rs b/crates/musli/src/value/de.rs
index 1ffbbe1..7f088b3 100644
--- a/crates/musli/src/value/de.rs
+++ b/crates/musli/src/value/de.rs
@@ -4,7 +4,7 @@ use core::fmt;
 use core::marker::PhantomData;
 use core::slice;
 
-use crate::alloc::Allocator;
+use crate::alloc::{Allocator, Vec};
 use crate::de::UnsizedVisitor;
 use crate::de::{
     AsDecoder, Decoder, EntriesDecoder, EntryDecoder, MapDecoder, SequenceDecoder, SizeHint, Skip,
@@ -58,6 +58,19 @@ where
             _marker: PhantomData,
         }
     }
+
+    /// Formats like JSON represent bytes as a sequence of numbers.
+    fn sequence_to_bytes(&self, values: &[Value<A>]) -> Result<Vec<u8, C::Allocator>, C::Error> {
+        let mut bytes =
+            Vec::with_capacity_in(values.len(), self.cx.alloc()).map_err(self.cx.map())?;
+
+        for value in values {
+            let decoder = ValueDecoder::<OPT, _, _, M>::new(self.cx, value);
+            bytes.push(decoder.decode_u8()?).map_err(self.cx.map())?;
+        }
+
+        Ok(bytes)
+    }
 }
 
 macro_rules! ensure_number {
@@ -247,9 +260,21 @@ where
 
     #[inline]
     fn decode_array<const N: usize>(self) -> Result<[u8; N], Self::Error> {
-        ensure!(self, hint, ExpectedBytes(hint), Value::Bytes(bytes) => {
-            <[u8; N]>::try_from(bytes.as_slice()).map_err(|_| self.cx.message(ErrorMessage::ArrayOutOfBounds))
-        })
+        let bytes;
+
+        let bytes = match self.value {
+            Value::Bytes(bytes) => bytes.as_slice(),
+            Value::Sequence(values) => {
+                bytes = self.sequence_to_bytes(values)?;
+                bytes.as_slice()
+            }
+            value => {
+                let hint = value.type_hint();
+                return Err(self.cx.message(ErrorMessage::ExpectedBytes(hint)));
+            }
+        };
+
+        <[u8; N]>::try_from(bytes).map_err(|_| self.cx.message(ErrorMessage::ArrayOutOfBounds))
     }
 
     #[inline]
@@ -257,9 +282,17 @@ where
     where
         V: UnsizedVisitor<'de, C, [u8], Error = Self::Error, Allocator = Self::Allocator>,
     {
-        ensure!(self, hint, ExpectedBytes(hint), Value::Bytes(bytes) => {
-            visitor.visit_borrowed(self.cx, bytes)
-        })
+        match self.value {
+            Value::Bytes(bytes) => visitor.visit_borrowed(self.cx, bytes),
+            Value::Sequence(values) => {
+                let bytes = self.sequence_to_bytes(values)?;
+                visitor.visit_owned(self.cx, bytes)
+            }
+            value => {
+                let hint = value.type_hint();
+                Err(self.cx.message(ErrorMessage::ExpectedBytes(hint)))
+            }
+        }
     }
 
     #[inline]
-- 
2.43.0


From c3833de4fad6b0987b95536415cbc1967ffc0dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:21 +0000
Subject: [PATCH 49/62] fix: decode any JSON number into the float which is
 closest to it

---
 crates/musli/src/json/parser/parser.rs | 31 ++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/crates/musli/src/json/parser/parser.rs b/crates/musli/src/json/parser/parser.rs
index 76e3104..b2ba8b9 100644
--- a/crates/musli/src/json/parser/parser.rs
+++ b/crates/musli/src/json/parser/parser.rs
@@ -176,13 +176,15 @@ pub trait Parser<'de>: private::Sealed {
         C: Context,
         V: Visitor<'de, C, Error = C::Error, Allocator = C::Allocator>,
     {
+        let start = cx.mark();
+        let snapshot = self.try_clone();
         let signed = decode_signed_full::<i128, _, _>(cx, self)?;
 
         if signed.is_negative {
             let value = match signed.compute() {
                 Ok(value) => value,
                 Err(..) => {
-                    let value = signed.compute_float();
+                    let value = parse_float(cx, &start, snapshot, || signed.compute_float())?;
                     return visitor.visit_f64(cx, value);
                 }
             };
@@ -212,7 +214,8 @@ pub trait Parser<'de>: private::Sealed {
             let value = match signed.unsigned.compute() {
                 Ok(value) => value,
                 Err(..) => {
-                    let value = signed.unsigned.compute_float();
+                    let value =
+                        parse_float(cx, &start, snapshot, || signed.unsigned.compute_float())?;
                     return visitor.visit_f64(cx, value);
                 }
             };
@@ -242,6 +245,30 @@ pub trait Parser<'de>: private::Sealed {
     }
 }
 
+/// Parse a floating point number from where `snapshot` was taken, so that it is
+/// correctly rounded. The computed float is an approximation which is only used
+/// when the parser cannot be cloned.
+fn parse_float<'de, P, C>(
+    cx: C,
+    start: &C::Mark,
+    snapshot: Option<P>,
+    compute: impl FnOnce() -> f64,
+) -> Result<f64, C::Error>
+where
+    P: Parser<'de>,
+    C: Context,
+{
+    let Some(mut p) = snapshot else {
+        return Ok(compute());
+    };
+
+    let end = cx.mark();
+    cx.restore(start);
+    let value = p.parse_f64(cx)?;
+    cx.restore(&end);
+    Ok(value)
+}
+
 impl<'de, P> Parser<'de> for &mut P
 where
     P: ?Sized + Parser<'de>,
-- 
2.43.0


From a12d397dbaf6a2f0226091d6fba04bbf61de2f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:59 +0000
Subject: [PATCH 50/62] fix: allow JSON parsers over mutable slices to be
 cloned

---
 crates/musli/src/json/parser/mut_slice_parser.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/musli/src/json/parser/mut_slice_parser.rs b/crates/musli/src/json/parser/mut_slice_parser.rs
index e249ac5..ffe0153 100644
--- a/crates/musli/src/json/parser/mut_slice_parser.rs
+++ b/crates/musli/src/json/parser/mut_slice_parser.rs
@@ -1,6 +1,6 @@
 use crate::alloc::Vec;
 use crate::json::error::ErrorMessage;
-use crate::json::parser::{Parser, StringReference};
+use crate::json::parser::{Parser, SliceParser, StringReference};
 use crate::reader::SliceUnderflow;
 use crate::Context;
 
@@ -34,7 +34,7 @@ impl<'a, 'de> Parser<'de> for MutSliceParser<'a, 'de> {
     where
         Self: 'this;
 
-    type TryClone = MutSliceParser<'a, 'de>;
+    type TryClone = SliceParser<'de>;
 
     #[inline]
     fn borrow_mut(&mut self) -> Self::Mut<'_> {
@@ -43,7 +43,7 @@ impl<'a, 'de> Parser<'de> for MutSliceParser<'a, 'de> {
 
     #[inline]
     fn try_clone(&self) -> Option<Self::TryClone> {
-        None
+        Some(SliceParser::new(self.slice))
     }
 
     #[inline]
-- 
2.43.0


From 4c9e51aae905d77b63f926ffbe56ab91aa8468a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:32 +0000
Subject: [PATCH 51/62] fix: encode names which are bytes as bytes

The decode side looks for names with `name(type = [u8])` through
`try_decode_unsized::<[u8]>`, which are bytes. But they were encoded through
`Encode for [u8; N]`, which is a sequence. Formats which distinguish the two
could not decode what they encoded.
---
 crates/musli-macros/src/en.rs              | 49 +++++++++++++++++-----
 crates/musli-macros/src/expander.rs        | 14 ++++++-
 crates/musli-macros/src/internals/build.rs |  5 +--
 crates/musli-macros/src/internals/mod.rs   |  2 +-
 4 files changed, 54 insertions(+), 16 deletions(-)

diff --git a/crates/musli-macros/src/en.rs b/crates/musli-macros/src/en.rs
index eb295e7..8239b0b 100644
--- a/crates/musli-macros/src/en.rs
+++ b/crates/musli-macros/src/en.rs
@@ -309,7 +309,7 @@ fn make_encoders(cx: Ctxt<'_>, b: &Build<'_>, st: &Body<'_>) -> Result<Vec<Token
         ..
     } = b.tokens;
 
-    let encode_t_encode = &b.encode_t_encode;
+    let encode_name = st.name.encode_method(&b.mode);
 
     let sequence_decoder_var = b.cx.ident("sequence_decoder");
     let pair_encoder_var = b.cx.ident("pair_encoder");
@@ -380,7 +380,7 @@ fn make_encoders(cx: Ctxt<'_>, b: &Build<'_>, st: &Body<'_>) -> Result<Vec<Token
 
                     #map_encoder_t::encode_entry_fn(#encoder_var, move |#pair_encoder_var| {
                         let #field_encoder_var = #entry_encoder_t::encode_key(#pair_encoder_var)?;
-                        #encode_t_encode(#field_name_expr, #field_encoder_var)?;
+                        #encode_name(#field_name_expr, #field_encoder_var)?;
                         let #value_encoder_var = #entry_encoder_t::encode_value(#pair_encoder_var)?;
                         #encode_path(#access, #value_encoder_var)?;
                         #result::Ok(())
@@ -533,7 +533,7 @@ fn encode_empty_variant(
     let Tokens { option, .. } = b.tokens;
 
     let name_type = en.name.ty();
-    let encode_t_encode = &b.encode_t_encode;
+    let encode_name = en.name.encode_method(&b.mode);
     let name = &v.name;
 
     let name_static = b.cx.ident("NAME");
@@ -542,7 +542,7 @@ fn encode_empty_variant(
 
     let encode = quote! {{
         static #name_static: #name_type = #name;
-        #encode_t_encode(#name_expr, #encoder_var)?
+        #encode_name(#name_expr, #encoder_var)?
     }};
 
     let size_hint = quote!(#option::Some(1));
@@ -575,7 +575,7 @@ fn encode_tagged_variant(
     let encode = encode_default(cx.with_encoder(&data_encoder), b, &v.st)?;
     let size_hint = quote!(#option::Some(1));
 
-    let encode_t_encode = &b.encode_t_encode;
+    let encode_name = en.name.encode_method(&b.mode);
     let name = &v.name;
     let name_type = en.name.ty();
 
@@ -584,7 +584,7 @@ fn encode_tagged_variant(
             let #tag_encoder = #variant_encoder_t::encode_tag(#variant_encoder)?;
             static #name_static: #name_type = #name;
 
-            #encode_t_encode(#name_expr, #tag_encoder)?;
+            #encode_name(#name_expr, #tag_encoder)?;
 
             let #data_encoder = #variant_encoder_t::encode_data(#variant_encoder)?;
             #encode;
@@ -611,14 +611,23 @@ fn encode_internal_variant(
     let Tokens {
         context_t,
         encoder_t,
+        entry_encoder_t,
         map_encoder_t,
         option,
         result,
         ..
     } = b.tokens;
 
+    let encode_tag = tag.encode_method(&b.mode);
+    let encode_name = en.name.encode_method(&b.mode);
+
     let tag_static = b.cx.ident("TAG");
+    let tag_static_expr = tag.expr(tag_static.clone());
+    let tag_encoder = b.cx.ident("tag_encoder");
     let name_static = b.cx.ident("NAME");
+    let name_static_expr = en.name.expr(name_static.clone());
+    let name_encoder = b.cx.ident("name_encoder");
+    let pair_encoder_var = b.cx.ident("pair_encoder");
 
     let encode;
     let size_hint;
@@ -700,7 +709,14 @@ fn encode_internal_variant(
             #encoder_t::encode_map_fn(#encoder_var, #hint, move |#encoder_var| {
                 static #tag_static: #tag_type = #tag_value;
                 static #name_static: #name_type = #name;
-                #map_encoder_t::insert_entry(#encoder_var, #tag_static, #name_static)?;
+                #map_encoder_t::encode_entry_fn(#encoder_var, move |#pair_encoder_var| {
+                    let #tag_encoder = #entry_encoder_t::encode_key(#pair_encoder_var)?;
+                    #encode_tag(#tag_static_expr, #tag_encoder)?;
+
+                    let #name_encoder = #entry_encoder_t::encode_value(#pair_encoder_var)?;
+                    #encode_name(#name_static_expr, #name_encoder)?;
+                    #result::Ok(())
+                })?;
                 #inner_encode
                 #result::Ok(())
             })?
@@ -729,7 +745,9 @@ fn encode_adjacent_variant(
         ..
     } = b.tokens;
 
-    let encode_t_encode = &b.encode_t_encode;
+    let encode_tag = tag.encode_method(&b.mode);
+    let encode_name = en.name.encode_method(&b.mode);
+    let encode_content = content.encode_method(&b.mode);
 
     let name = &v.name;
     let name_type = en.name.ty();
@@ -741,6 +759,10 @@ fn encode_adjacent_variant(
     let name_static = b.cx.ident("NAME");
     let pair_encoder_var = b.cx.ident("pair_encoder");
     let tag_static = b.cx.ident("TAG");
+    let tag_static_expr = tag.expr(tag_static.clone());
+    let tag_encoder = b.cx.ident("tag_encoder");
+    let name_static_expr = en.name.expr(name_static.clone());
+    let name_encoder = b.cx.ident("name_encoder");
 
     let tag_value = tag.value;
     let tag_type = tag.ty();
@@ -758,11 +780,18 @@ fn encode_adjacent_variant(
             static #content_static: #content_type = #content_value;
             static #name_static: #name_type = #name;
 
-            #map_encoder_t::insert_entry(#adjacent_encoder_var, #tag_static, #name_static)?;
+            #map_encoder_t::encode_entry_fn(#adjacent_encoder_var, move |#pair_encoder_var| {
+                let #tag_encoder = #entry_encoder_t::encode_key(#pair_encoder_var)?;
+                #encode_tag(#tag_static_expr, #tag_encoder)?;
+
+                let #name_encoder = #entry_encoder_t::encode_value(#pair_encoder_var)?;
+                #encode_name(#name_static_expr, #name_encoder)?;
+                #result::Ok(())
+            })?;
 
             #map_encoder_t::encode_entry_fn(#adjacent_encoder_var, move |#pair_encoder_var| {
                 let #content_tag = #entry_encoder_t::encode_key(#pair_encoder_var)?;
-                #encode_t_encode(#content_static_expr, #content_tag)?;
+                #encode_content(#content_static_expr, #content_tag)?;
 
                 let #encoder_var = #entry_encoder_t::encode_value(#pair_encoder_var)?;
                 #inner_encode;
diff --git a/crates/musli-macros/src/expander.rs b/crates/musli-macros/src/expander.rs
index 5bc75f4..13bf9f8 100644
--- a/crates/musli-macros/src/expander.rs
+++ b/crates/musli-macros/src/expander.rs
@@ -5,7 +5,9 @@ use proc_macro2::{Span, TokenStream};
 use syn::parse::{Parse, ParseStream};
 use syn::spanned::Spanned;
 
-use crate::internals::attr::{self, ModeIdent, ModeKind, TypeAttr};
+use crate::internals::attr::{self, FieldEncoding, ModeIdent, ModeKind, TypeAttr};
+use crate::internals::build;
+use crate::internals::mode::ImportedMethod;
 use crate::internals::{Build, Ctxt, Expansion, Mode, NameAll, Only, Parameters, Result, Tokens};
 
 #[derive(Clone, Copy)]
@@ -50,6 +52,16 @@ impl<T> Name<'_, T> {
         }
     }
 
+    /// The method to use to encode the name, which has to match the method used
+    /// to decode it. Slices of bytes are decoded as bytes, so they are not
+    /// encoded as sequences.
+    pub(crate) fn encode_method<'m>(&self, mode: &Mode<'m>) -> ImportedMethod<'m> {
+        mode.encode_t_encode(match build::determine_name_method(&self.ty) {
+            (NameMethod::Unsized(UnsizedMethod::Bytes), _) => FieldEncoding::Bytes,
+            _ => FieldEncoding::Default,
+        })
+    }
+
     pub(crate) fn name_format(&self, value: &syn::Ident) -> syn::Expr {
         match self.format_with {
             Some((_, path)) => syn::parse_quote!(#path(&#value)),
diff --git a/crates/musli-macros/src/internals/build.rs b/crates/musli-macros/src/internals/build.rs
index 838805b..67b559b 100644
--- a/crates/musli-macros/src/internals/build.rs
+++ b/crates/musli-macros/src/internals/build.rs
@@ -32,7 +32,6 @@ pub(crate) struct Build<'a> {
     pub(crate) expansion: Expansion<'a>,
     pub(crate) data: BuildData<'a>,
     pub(crate) decode_t_decode: ImportedMethod<'a>,
-    pub(crate) encode_t_encode: ImportedMethod<'a>,
     pub(crate) enum_tag: Option<Span>,
     pub(crate) enum_content: Option<Span>,
     pub(crate) tokens: &'a Tokens<'a>,
@@ -376,7 +375,6 @@ pub(crate) fn setup<'a>(
     }
 
     let decode_t_decode = mode.decode_t_decode(FieldEncoding::Default, &p.allocator_ident);
-    let encode_t_encode = mode.encode_t_encode(FieldEncoding::Default);
 
     let bounds = e.type_attr.bounds(&mode);
     let decode_bounds = e.type_attr.decode_bounds(&mode);
@@ -392,7 +390,6 @@ pub(crate) fn setup<'a>(
         expansion,
         data,
         decode_t_decode,
-        encode_t_encode,
         enum_tag,
         enum_content,
         tokens,
@@ -778,7 +775,7 @@ fn determine_type_inner(expr: &syn::Expr, neg: bool) -> Option<syn::Type> {
     None
 }
 
-fn determine_name_method(ty: &syn::Type) -> (NameMethod, Option<NameAll>) {
+pub(crate) fn determine_name_method(ty: &syn::Type) -> (NameMethod, Option<NameAll>) {
     match ty {
         syn::Type::Path(syn::TypePath { qself: None, path }) if path.is_ident("str") => {
             return (
diff --git a/crates/musli-macros/src/internals/mod.rs b/crates/musli-macros/src/internals/mod.rs
index 382bfc2..b734256 100644
--- a/crates/musli-macros/src/internals/mod.rs
+++ b/crates/musli-macros/src/internals/mod.rs
@@ -3,7 +3,7 @@ pub(crate) mod attr;
 pub(crate) mod build;
 mod ctxt;
 mod expansion;
-mod mode;
+pub(crate) mod mode;
 mod name;
 mod packed;
 mod tokens;
-- 
2.43.0


From bafe333fbd3f2e46e629db47a1060e1983e30109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:17 +0000
Subject: [PATCH 52/62] fix: store empty values in the sequence or option they
 are part of

Encoding an empty value into a dynamic value wrote nothing, so that
`vec![(), ()]` lost its elements and `Some(())` was no longer present.
---
 crates/musli/src/value/en.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/musli/src/value/en.rs b/crates/musli/src/value/en.rs
index 028431a..8a46ae1 100644
--- a/crates/musli/src/value/en.rs
+++ b/crates/musli/src/value/en.rs
@@ -128,6 +128,7 @@ where
 
     #[inline]
     fn encode_empty(self) -> Result<(), Self::Error> {
+        self.output.write(self.cx, Value::Unit)?;
         Ok(())
     }
 
-- 
2.43.0


From df98fa08a581f8be94424290d7d982ae3fa62e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:28 +0000
Subject: [PATCH 53/62] fix: do not round floats which are decoded as integers
 out of dynamic values

`{"type": "A", "n": 1.5}` decoded into an internally tagged enum as `n: 1`,
and out of range numbers saturated, although they are rejected as integers
everywhere else.
---
 crates/musli/src/value/de.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/crates/musli/src/value/de.rs b/crates/musli/src/value/de.rs
index 7f088b3..8c7666e 100644
--- a/crates/musli/src/value/de.rs
+++ b/crates/musli/src/value/de.rs
@@ -790,6 +790,20 @@ macro_rules! integer_from {
 
             #[inline]
             fn from_number(number: &Number) -> Result<Self, ErrorMessage> {
+                /// Only floats which are integers in range can be converted.
+                fn from_float(value: f64) -> Option<$ty> {
+                    // The first number out of range, which being a power of two
+                    // is exact.
+                    const END: f64 = (<$ty>::MAX / 2 + 1) as f64 * 2.0;
+
+                    if !(<$ty>::MIN as f64..END).contains(&value) {
+                        return None;
+                    }
+
+                    let out = value as $ty;
+                    (out as f64 == value).then_some(out)
+                }
+
                 let out = match number {
                     Number::U8(n) => Self::try_from(*n).ok(),
                     Number::U16(n) => Self::try_from(*n).ok(),
@@ -803,8 +817,8 @@ macro_rules! integer_from {
                     Number::I128(n) => Self::try_from(*n).ok(),
                     Number::Usize(n) => Self::try_from(*n).ok(),
                     Number::Isize(n) => Self::try_from(*n).ok(),
-                    Number::F32(v) => Some(*v as $ty),
-                    Number::F64(v) => Some(*v as $ty),
+                    Number::F32(v) => from_float(f64::from(*v)),
+                    Number::F64(v) => from_float(*v),
                 };
 
                 match out {
-- 
2.43.0


From 9a539396f23e22bc7b5a2c0dd73c956b74be3b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:35 +0000
Subject: [PATCH 54/62] fix: skip all elements of descriptive sequences which
 are left unread

---
 crates/musli/src/descriptive/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/musli/src/descriptive/de.rs b/crates/musli/src/descriptive/de.rs
index a392fd0..007737e 100644
--- a/crates/musli/src/descriptive/de.rs
+++ b/crates/musli/src/descriptive/de.rs
@@ -205,7 +205,7 @@ where
 
     #[inline]
     fn skip_sequence_remaining(mut self) -> Result<(), C::Error> {
-        if let Some(item) = self.try_decode_next()? {
+        while let Some(item) = self.try_decode_next()? {
             item.skip()?;
         }
 
-- 
2.43.0


From 269a8096f6cfc382ed1662a925434aeed8271b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:20 +0000
Subject: [PATCH 55/62] fix: hand over all remaining entries of storage maps
 and dynamic maps

---
 crates/musli/src/storage/de.rs | 4 ++--
 crates/musli/src/value/de.rs   | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/musli/src/storage/de.rs b/crates/musli/src/storage/de.rs
index b31d326..5780910 100644
--- a/crates/musli/src/storage/de.rs
+++ b/crates/musli/src/storage/de.rs
@@ -1,6 +1,6 @@
 use core::fmt;
 use core::marker::PhantomData;
-use core::mem::MaybeUninit;
+use core::mem::{take, MaybeUninit};
 
 use crate::alloc::Vec;
 use crate::de::{
@@ -579,7 +579,7 @@ where
         Ok(LimitedStorageDecoder::with_remaining(
             self.cx,
             self.reader.borrow_mut(),
-            self.remaining,
+            take(&mut self.remaining),
         ))
     }
 }
diff --git a/crates/musli/src/value/de.rs b/crates/musli/src/value/de.rs
index 8c7666e..248a1cf 100644
--- a/crates/musli/src/value/de.rs
+++ b/crates/musli/src/value/de.rs
@@ -2,6 +2,7 @@
 
 use core::fmt;
 use core::marker::PhantomData;
+use core::mem::take;
 use core::slice;
 
 use crate::alloc::{Allocator, Vec};
@@ -597,7 +598,7 @@ where
     fn decode_remaining_entries(
         &mut self,
     ) -> Result<Self::DecodeRemainingEntries<'_>, Self::Error> {
-        Ok(IterValuePairsDecoder::new(self.cx, self.iter.as_slice()))
+        Ok(IterValuePairsDecoder::new(self.cx, take(&mut self.iter).as_slice()))
     }
 }
 
-- 
2.43.0


From 0655f0216221e5eba85ad148bd14cb7299539b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:43 +0000
Subject: [PATCH 56/62] fix: leave mutable strings at a character boundary when
 JSON parsing fails

---
 crates/musli/src/json/parser/into_parser.rs   |   9 +-
 crates/musli/src/json/parser/mod.rs           |   3 +
 .../musli/src/json/parser/mut_slice_parser.rs |   7 -
 .../musli/src/json/parser/mut_str_parser.rs   | 121 ++++++++++++++++++
 crates/musli/src/json/parser/parser.rs        |   1 +
 5 files changed, 128 insertions(+), 13 deletions(-)
 create mode 100644 crates/musli/src/json/parser/mut_str_parser.rs

diff --git a/crates/musli/src/json/parser/into_parser.rs b/crates/musli/src/json/parser/into_parser.rs
index f365ea2..c72310d 100644
--- a/crates/musli/src/json/parser/into_parser.rs
+++ b/crates/musli/src/json/parser/into_parser.rs
@@ -1,6 +1,4 @@
-use core::mem::transmute;
-
-use super::{MutSliceParser, Parser, SliceParser};
+use super::{MutSliceParser, MutStrParser, Parser, SliceParser};
 
 mod sealed {
     pub trait Sealed {}
@@ -47,11 +45,10 @@ impl<'a, 'de> IntoParser<'de> for &'a mut &'de [u8] {
 }
 
 impl<'a, 'de> IntoParser<'de> for &'a mut &'de str {
-    type Parser = MutSliceParser<'a, 'de>;
+    type Parser = MutStrParser<'a, 'de>;
 
     #[inline]
     fn into_parser(self) -> Self::Parser {
-        // SAFETY: Parsing ensures that the slice being processes keeps being valid UTF-8.
-        MutSliceParser::new(unsafe { transmute::<Self, &'a mut &'de [u8]>(self) })
+        MutStrParser::new(self)
     }
 }
diff --git a/crates/musli/src/json/parser/mod.rs b/crates/musli/src/json/parser/mod.rs
index 6180620..ef55e59 100644
--- a/crates/musli/src/json/parser/mod.rs
+++ b/crates/musli/src/json/parser/mod.rs
@@ -19,6 +19,9 @@ pub(crate) use self::slice_parser::SliceParser;
 mod mut_slice_parser;
 pub(crate) use self::mut_slice_parser::MutSliceParser;
 
+mod mut_str_parser;
+pub(crate) use self::mut_str_parser::MutStrParser;
+
 pub(crate) mod string;
 pub(crate) use self::string::StringReference;
 
diff --git a/crates/musli/src/json/parser/mut_slice_parser.rs b/crates/musli/src/json/parser/mut_slice_parser.rs
index ffe0153..e0e2cc7 100644
--- a/crates/musli/src/json/parser/mut_slice_parser.rs
+++ b/crates/musli/src/json/parser/mut_slice_parser.rs
@@ -9,13 +9,6 @@ use super::string::SliceAccess;
 /// An efficient [`Parser`] wrapper around a mutable slice.
 ///
 /// As the slice is being parsed, this keeps the referenced slice up-to-date.
-///
-/// # Implementation Note
-///
-/// This MUST ensure that the underlying slice remains valid UTF-8, if it is
-/// valid UTF-8. We transmute a `&'a mut &'de str` in order to construct this
-/// efficiently.
-#[repr(transparent)]
 pub struct MutSliceParser<'a, 'de> {
     slice: &'a mut &'de [u8],
 }
diff --git a/crates/musli/src/json/parser/mut_str_parser.rs b/crates/musli/src/json/parser/mut_str_parser.rs
new file mode 100644
index 0000000..96fde3d
--- /dev/null
+++ b/crates/musli/src/json/parser/mut_str_parser.rs
@@ -0,0 +1,121 @@
+use crate::alloc::Vec;
+use crate::json::parser::{MutSliceParser, Parser, SliceParser, StringReference};
+use crate::Context;
+
+/// A [`Parser`] wrapper around a mutable string.
+///
+/// Parsing might stop anywhere in the string when it fails, so once this is
+/// dropped the referenced string is advanced to the next character boundary.
+pub struct MutStrParser<'a, 'de> {
+    string: &'a mut &'de str,
+    slice: &'de [u8],
+}
+
+impl<'a, 'de> MutStrParser<'a, 'de> {
+    /// Construct a new instance around the specified string.
+    #[inline]
+    pub(crate) fn new(string: &'a mut &'de str) -> Self {
+        let slice = string.as_bytes();
+        Self { string, slice }
+    }
+}
+
+impl Drop for MutStrParser<'_, '_> {
+    #[inline]
+    fn drop(&mut self) {
+        let mut n = self.string.len() - self.slice.len();
+
+        while !self.string.is_char_boundary(n) {
+            n += 1;
+        }
+
+        *self.string = &self.string[n..];
+    }
+}
+
+impl<'de> Parser<'de> for MutStrParser<'_, 'de> {
+    type Mut<'this>
+        = MutSliceParser<'this, 'de>
+    where
+        Self: 'this;
+
+    type TryClone = SliceParser<'de>;
+
+    #[inline]
+    fn borrow_mut(&mut self) -> Self::Mut<'_> {
+        MutSliceParser::new(&mut self.slice)
+    }
+
+    #[inline]
+    fn try_clone(&self) -> Option<Self::TryClone> {
+        Some(SliceParser::new(self.slice))
+    }
+
+    #[inline]
+    fn parse_string_inner<'scratch, C>(
+        &mut self,
+        cx: C,
+        validate: bool,
+        scratch: &'scratch mut Vec<u8, C::Allocator>,
+        start: &C::Mark,
+    ) -> Result<StringReference<'de, 'scratch>, C::Error>
+    where
+        C: Context,
+    {
+        self.borrow_mut()
+            .parse_string_inner(cx, validate, scratch, start)
+    }
+
+    #[inline]
+    fn skip_string_inner<C>(&mut self, cx: C) -> Result<(), C::Error>
+    where
+        C: Context,
+    {
+        self.borrow_mut().skip_string_inner(cx)
+    }
+
+    #[inline]
+    fn skip<C>(&mut self, cx: C, n: usize) -> Result<(), C::Error>
+    where
+        C: Context,
+    {
+        self.borrow_mut().skip(cx, n)
+    }
+
+    #[inline]
+    fn read<C>(&mut self, cx: C, buf: &mut [u8]) -> Result<(), C::Error>
+    where
+        C: Context,
+    {
+        self.borrow_mut().read(cx, buf)
+    }
+
+    #[inline]
+    fn skip_whitespace<C>(&mut self, cx: C)
+    where
+        C: Context,
+    {
+        self.borrow_mut().skip_whitespace(cx);
+    }
+
+    #[inline]
+    fn peek(&mut self) -> Option<u8> {
+        self.slice.first().copied()
+    }
+
+    #[inline]
+    fn parse_f32<C>(&mut self, cx: C) -> Result<f32, C::Error>
+    where
+        C: Context,
+    {
+        self.borrow_mut().parse_f32(cx)
+    }
+
+    #[inline]
+    fn parse_f64<C>(&mut self, cx: C) -> Result<f64, C::Error>
+    where
+        C: Context,
+    {
+        self.borrow_mut().parse_f64(cx)
+    }
+}
diff --git a/crates/musli/src/json/parser/parser.rs b/crates/musli/src/json/parser/parser.rs
index b2ba8b9..fd06990 100644
--- a/crates/musli/src/json/parser/parser.rs
+++ b/crates/musli/src/json/parser/parser.rs
@@ -8,6 +8,7 @@ mod private {
     pub trait Sealed {}
     impl Sealed for crate::json::parser::SliceParser<'_> {}
     impl Sealed for crate::json::parser::MutSliceParser<'_, '_> {}
+    impl Sealed for crate::json::parser::MutStrParser<'_, '_> {}
     impl<'de, R> Sealed for &mut R where R: ?Sized + super::Parser<'de> {}
 }
 
-- 
2.43.0


From 577cb3932a815d2fba19a915f3d0868110336354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:37 +0000
Subject: [PATCH 57/62] fix: count the bytes of JSON keys decoded as numbers
 once

---
 crates/musli/src/json/de/key_decoder.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/crates/musli/src/json/de/key_decoder.rs b/crates/musli/src/json/de/key_decoder.rs
index 6b9c51b..35824b3 100644
--- a/crates/musli/src/json/de/key_decoder.rs
+++ b/crates/musli/src/json/de/key_decoder.rs
@@ -38,10 +38,21 @@ where
     {
         let mut scratch = Vec::new_in(self.cx.alloc());
 
-        match self.parser.parse_string(self.cx, true, &mut scratch)? {
+        let start = self.cx.mark();
+        let string = self.parser.parse_string(self.cx, true, &mut scratch)?;
+
+        // The visitor parses the contents of the key, which advances the
+        // context over them a second time.
+        let end = self.cx.mark();
+        self.cx.restore(&start);
+
+        let output = match string {
             StringReference::Borrowed(string) => visitor.visit_borrowed(self.cx, string.as_bytes()),
             StringReference::Scratch(string) => visitor.visit_ref(self.cx, string.as_bytes()),
-        }
+        }?;
+
+        self.cx.restore(&end);
+        Ok(output)
     }
 }
 
-- 
2.43.0


From 07c5583931c8c25bc1abef7c4094e9ebb2417219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:37 +0000
Subject: [PATCH 58/62] fix: keep the path of the tracing context balanced when
 memory runs out

---
 crates/musli/src/context/trace.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/crates/musli/src/context/trace.rs b/crates/musli/src/context/trace.rs
index 6a66391..635dcb7 100644
--- a/crates/musli/src/context/trace.rs
+++ b/crates/musli/src/context/trace.rs
@@ -206,16 +206,28 @@ where
     /// Push a path.
     #[inline]
     fn push_path(&self, step: Step<A>) {
+        // Once a step has been capped, every step below it has to be as well.
+        if self.cap.get() > 0 {
+            self.push_capped();
+            return;
+        }
+
         let _access = self.access.exclusive();
 
         // SAFETY: We've checked that we have exclusive access just above.
         let path = unsafe { &mut (*self.path.get()) };
 
         if path.push(step).is_err() {
-            self.cap.set(&self.cap.get() + 1);
+            self.push_capped();
         }
     }
 
+    /// Push a step for which there is no room.
+    #[inline]
+    fn push_capped(&self) {
+        self.cap.set(self.cap.get() + 1);
+    }
+
     /// Pop the last path.
     #[inline]
     fn pop_path(&self) {
@@ -267,6 +279,7 @@ where
     #[inline]
     fn clear(&self) {
         self.mark.set(0);
+        self.cap.set(0);
         let _access = self.access.exclusive();
 
         // SAFETY: We have acquired exclusive access just above.
@@ -407,6 +420,8 @@ where
     {
         if let Some(string) = self.format_string(alloc, field) {
             self.push_path(Step::Key(string));
+        } else {
+            self.push_capped();
         }
     }
 
-- 
2.43.0


From f02d2eade9cb90265b8d666301f01acb2006aa48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:39 +0000
Subject: [PATCH 59/62] fix: leave the path of the tracing context as it was
 when restoring a mark

---
 crates/musli/src/context/trace.rs | 38 +++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/crates/musli/src/context/trace.rs b/crates/musli/src/context/trace.rs
index 635dcb7..27c42ec 100644
--- a/crates/musli/src/context/trace.rs
+++ b/crates/musli/src/context/trace.rs
@@ -143,6 +143,16 @@ impl TraceMode for Trace {
     }
 }
 
+/// A mark made while tracing.
+pub struct TraceMark {
+    // The position in the input.
+    mark: usize,
+    // The number of elements of the path.
+    path: usize,
+    // How many elements of the path were over capacity.
+    cap: usize,
+}
+
 /// Trace configuration indicating that tracing is enabled through the allocator
 /// `A`.
 pub struct WithTraceImpl<A>
@@ -274,7 +284,7 @@ impl<A> TraceImpl<A> for WithTraceImpl<A>
 where
     A: Allocator,
 {
-    type Mark = usize;
+    type Mark = TraceMark;
 
     #[inline]
     fn clear(&self) {
@@ -296,12 +306,30 @@ where
 
     #[inline]
     fn mark(&self) -> Self::Mark {
-        self.mark.get()
+        let _access = self.access.shared();
+
+        TraceMark {
+            mark: self.mark.get(),
+            // SAFETY: We've checked that we have shared access just above.
+            path: unsafe { (*self.path.get()).len() },
+            cap: self.cap.get(),
+        }
     }
 
     #[inline]
     fn restore(&self, mark: &Self::Mark) {
-        self.mark.set(*mark);
+        self.mark.set(mark.mark);
+        self.cap.set(self.cap.get().min(mark.cap));
+
+        let _access = self.access.exclusive();
+
+        // SAFETY: We've checked that we have exclusive access just above.
+        let path = unsafe { &mut (*self.path.get()) };
+
+        // Leave every step that has been entered since the mark was made.
+        while path.len() > mark.path {
+            path.pop();
+        }
     }
 
     #[inline]
@@ -330,7 +358,7 @@ where
         T: fmt::Display,
     {
         if let Some(string) = self.format_string(alloc, message) {
-            self.push_error(*mark..self.mark.get(), string);
+            self.push_error(mark.mark..self.mark.get(), string);
         }
     }
 
@@ -340,7 +368,7 @@ where
         T: 'static + Send + Sync + fmt::Display + fmt::Debug,
     {
         if let Some(string) = self.format_string(alloc, message) {
-            self.push_error(*mark..self.mark.get(), string);
+            self.push_error(mark.mark..self.mark.get(), string);
         }
     }
 
-- 
2.43.0


From bf40953e91da452d07592cceeacbe5f4df08bb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:39 +0000
Subject: [PATCH 60/62] fix: consume untagged enums from the decoder they are
 decoded from

---
 crates/musli-macros/src/de.rs | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/crates/musli-macros/src/de.rs b/crates/musli-macros/src/de.rs
index accf5df..cad9e90 100644
--- a/crates/musli-macros/src/de.rs
+++ b/crates/musli-macros/src/de.rs
@@ -284,6 +284,7 @@ fn decode_untagged_enum(cx: &Ctxt<'_>, b: &Build<'_>, en: &Enum<'_>) -> Result<T
         option,
         messages,
         decoder_t,
+        skip,
         ..
     } = b.tokens;
 
@@ -291,6 +292,8 @@ fn decode_untagged_enum(cx: &Ctxt<'_>, b: &Build<'_>, en: &Enum<'_>) -> Result<T
 
     let output_var = b.cx.ident("output");
     let result_var = b.cx.ident("result");
+    let matched_var = b.cx.ident("matched");
+    let unsupported_var = b.cx.ident("unsupported");
     let mark_var = b.cx.ident("mark");
 
     let type_name = en.name.value;
@@ -330,14 +333,32 @@ fn decode_untagged_enum(cx: &Ctxt<'_>, b: &Build<'_>, en: &Enum<'_>) -> Result<T
         let decode = decode_struct(cx, b, &v.st)?;
 
         decode_head.push(quote! {
-            if let #option::Some(#decoder_var) = #decoder_t::try_clone(&#decoder_var) {
-                #context_t::restore(#ctx_var, &#mark_var);
+            let #matched_var = match #decoder_t::try_clone(&#decoder_var) {
+                #option::Some(#decoder_var) => {
+                    let #result_var: #result<Self, <#d_param as #decoder_t<#lt>>::Error> = (|| #decode)();
+                    #context_t::restore(#ctx_var, &#mark_var);
+                    #result_var.ok()
+                }
+                #option::None => #option::None,
+            };
 
-                let #result_var: #result<_, <#d_param as #decoder_t<#lt>>::Error> = (|| #decode)();
+            // The variant has been decoded through a clone, so the decoder
+            // itself has yet to consume it.
+            if let #option::Some(output) = #matched_var {
+                let #unsupported_var = match #decoder_t::try_clone(&#decoder_var) {
+                    #option::Some(#decoder_var) => #skip(#decoder_var)?,
+                    #option::None => true,
+                };
 
-                if let #result::Ok(output) = #result_var {
-                    break 'output output;
+                #context_t::restore(#ctx_var, &#mark_var);
+
+                if #unsupported_var {
+                    let #result_var: #result<Self, <#d_param as #decoder_t<#lt>>::Error> = (|| #decode)();
+                    break 'output #result_var?;
                 }
+
+                #skip(#decoder_var)?;
+                break 'output output;
             }
         });
     }
@@ -351,6 +372,7 @@ fn decode_untagged_enum(cx: &Ctxt<'_>, b: &Build<'_>, en: &Enum<'_>) -> Result<T
             #(#decode_head)*
             #decode_last
 
+            #context_t::restore(#ctx_var, &#mark_var);
             return #result::Err(#messages::untagged_mismatch(#ctx_var, #type_name));
         };
 
-- 
2.43.0


From e82342074bcfe3c092605d05918a7074731016e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:28 +0000
Subject: [PATCH 61/62] fix: do not copy Sequence<()> as raw memory, since it
 encodes as an empty sequence

---
 crates/musli/src/compat.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/musli/src/compat.rs b/crates/musli/src/compat.rs
index e0b5833..8eabaf2 100644
--- a/crates/musli/src/compat.rs
+++ b/crates/musli/src/compat.rs
@@ -28,7 +28,7 @@ impl<T> Sequence<T> {
 impl<M> Encode<M> for Sequence<()> {
     type Encode = Self;
 
-    const IS_BITWISE_ENCODE: bool = true;
+    const IS_BITWISE_ENCODE: bool = false;
 
     #[inline]
     fn encode<E>(&self, encoder: E) -> Result<(), E::Error>
@@ -48,7 +48,7 @@ impl<'de, M, A> Decode<'de, M, A> for Sequence<()>
 where
     A: Allocator,
 {
-    const IS_BITWISE_DECODE: bool = true;
+    const IS_BITWISE_DECODE: bool = false;
 
     #[inline]
     fn decode<D>(decoder: D) -> Result<Self, D::Error>
-- 
2.43.0


From 8f1a45b44cf134a621c03296af6bda634bd8ced5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:52 +0000
Subject: [PATCH 62/62] fix: decode RangeFull as the empty sequence it is
 encoded as

---
 crates/musli-core/src/impls/range.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/musli-core/src/impls/range.rs b/crates/musli-core/src/impls/range.rs
index 84004e8..4323d1e 100644
--- a/crates/musli-core/src/impls/range.rs
+++ b/crates/musli-core/src/impls/range.rs
@@ -1,5 +1,6 @@
 use core::ops::{Range, RangeFrom, RangeFull, RangeInclusive, RangeTo, RangeToInclusive};
 
+use crate::de::SequenceDecoder;
 use crate::en::SequenceEncoder;
 use crate::{Allocator, Decode, Decoder, Encode, Encoder};
 
@@ -39,12 +40,15 @@ macro_rules! implement {
             const IS_BITWISE_DECODE: bool = false;
 
             #[inline]
+            #[allow(unused)]
             fn decode<D>(decoder: D) -> Result<Self, D::Error>
             where
                 D: Decoder<'de, Mode = M, Allocator = A>,
             {
-                let ($($field,)*) = decoder.decode()?;
-                Ok($ty { $($field,)* })
+                decoder.decode_sequence_hint($count, |tuple| {
+                    $(let $field = tuple.next()?;)*
+                    Ok($ty { $($field,)* })
+                })
             }
         }
     }
-- 
2.43.0

