From 639d2c2cd72d2f301bd02cefd675b69fa3fae51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:04 +0000
Subject: [PATCH 01/14] fix: report out-of-range date fields as errors instead
 of overflowing

Decoding a date added the year and day-of-year offsets with unchecked
arithmetic, so wire integers near the type limits panicked (debug) or
wrapped to a different date (release).
---
 dlhn/src/date.rs        | 6 ++++--
 dlhn/src/format/date.rs | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/dlhn/src/date.rs b/dlhn/src/date.rs
index e5a2b57..650a91a 100644
--- a/dlhn/src/date.rs
+++ b/dlhn/src/date.rs
@@ -61,11 +61,13 @@ impl<'de> Visitor<'de> for DateVisitor {
         let year = seq
             .next_element::<i32>()?
             .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?
-            + DATE_YEAR_OFFSET;
+            .checked_add(DATE_YEAR_OFFSET)
+            .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?;
         let ordinal = seq
             .next_element::<u16>()?
             .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?
-            + DATE_ORDINAL_OFFSET;
+            .checked_add(DATE_ORDINAL_OFFSET)
+            .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?;
         Ok(Date { year, ordinal })
     }
 }
diff --git a/dlhn/src/format/date.rs b/dlhn/src/format/date.rs
index d5d308d..6749844 100644
--- a/dlhn/src/format/date.rs
+++ b/dlhn/src/format/date.rs
@@ -25,11 +25,13 @@ impl<'de> Visitor<'de> for DateVisitor {
         let year = seq
             .next_element::<i32>()?
             .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?
-            + DATE_YEAR_OFFSET;
+            .checked_add(DATE_YEAR_OFFSET)
+            .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?;
         let ordinal = seq
             .next_element::<u16>()?
             .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?
-            + DATE_ORDINAL_OFFSET;
+            .checked_add(DATE_ORDINAL_OFFSET)
+            .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?;
         let date = Date::from_ordinal_date(year, ordinal)
             .or(Err(de::Error::invalid_value(Unexpected::Seq, &Error::Read)))?;
         Ok(date)
-- 
2.43.0


From d89a08a9be4c33320b380d833b6ca434727aea8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:19 +0000
Subject: [PATCH 02/14] fix: report out-of-range date-times as errors instead
 of panicking

Adding the nanoseconds to the last representable second panicked with
'resulting value is out of range'.
---
 dlhn/src/date_time.rs        | 9 +++++----
 dlhn/src/format/date_time.rs | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/dlhn/src/date_time.rs b/dlhn/src/date_time.rs
index 41af62b..1ca3b15 100644
--- a/dlhn/src/date_time.rs
+++ b/dlhn/src/date_time.rs
@@ -1,6 +1,6 @@
 use serde::{Deserialize, Serialize};
 #[cfg(feature = "time")]
-use time::{ext::NumericalDuration, OffsetDateTime};
+use time::OffsetDateTime;
 
 #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
 pub struct DateTime {
@@ -23,9 +23,10 @@ impl std::convert::TryInto<OffsetDateTime> for DateTime {
     type Error = ();
 
     fn try_into(self) -> Result<OffsetDateTime, Self::Error> {
-        OffsetDateTime::from_unix_timestamp(self.unix_timestamp)
-            .map(|v| v + (self.nanosecond as i64).nanoseconds())
-            .or(Err(()))
+        OffsetDateTime::from_unix_timestamp_nanos(
+            self.unix_timestamp as i128 * 1_000_000_000 + self.nanosecond as i128,
+        )
+        .or(Err(()))
     }
 }
 
diff --git a/dlhn/src/format/date_time.rs b/dlhn/src/format/date_time.rs
index 44e4bbb..02f4673 100644
--- a/dlhn/src/format/date_time.rs
+++ b/dlhn/src/format/date_time.rs
@@ -4,7 +4,7 @@ use serde::{
     ser::SerializeSeq,
     Deserializer, Serializer,
 };
-use time::{ext::NumericalDuration, OffsetDateTime};
+use time::OffsetDateTime;
 
 struct OffsetDateTimeVisitor;
 
@@ -25,9 +25,10 @@ impl<'de> Visitor<'de> for OffsetDateTimeVisitor {
         let nanosecond = seq
             .next_element::<u32>()?
             .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?;
-        Ok(OffsetDateTime::from_unix_timestamp(unix_timestamp)
-            .or(Err(de::Error::invalid_value(Unexpected::Seq, &Error::Read)))?
-            + (nanosecond as i64).nanoseconds())
+        OffsetDateTime::from_unix_timestamp_nanos(
+            unix_timestamp as i128 * 1_000_000_000 + nanosecond as i128,
+        )
+        .or(Err(de::Error::invalid_value(Unexpected::Seq, &Error::Read)))
     }
 }
 
-- 
2.43.0


From 4fbd3542b4d07ee233621977621b09039bc82ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:32 +0000
Subject: [PATCH 03/14] fix: do not preallocate body arrays by the length the
 input claims

A few bytes claiming a huge element count made the decoder panic with
'capacity overflow' or abort on a failed allocation.
---
 dlhn/src/body/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dlhn/src/body/mod.rs b/dlhn/src/body/mod.rs
index 3dcaba0..fe62224 100644
--- a/dlhn/src/body/mod.rs
+++ b/dlhn/src/body/mod.rs
@@ -1,7 +1,10 @@
 use crate::{de::Error, BigDecimal, BigInt, BigUint, Date, DateTime, Deserializer, Header};
 use serde::{ser::SerializeTuple, Deserialize, Serialize};
 use serde_bytes::ByteBuf;
-use std::{collections::BTreeMap, io::Read};
+use std::{cmp::min, collections::BTreeMap, io::Read};
+
+// The length comes from the input, so it must not decide how much memory is reserved up front.
+const MAX_PREALLOCATION: u64 = 1024;
 
 #[derive(Clone, Debug, PartialEq)]
 pub enum Body {
@@ -113,7 +116,7 @@ impl Body {
             Header::Binary => ByteBuf::deserialize(deserializer).map(|v| Self::Binary(v)),
             Header::Array(inner) => {
                 let len = u64::deserialize(&mut *deserializer)?;
-                let mut buf = Vec::with_capacity(len as usize);
+                let mut buf = Vec::with_capacity(min(len, MAX_PREALLOCATION) as usize);
                 for _ in 0..len {
                     buf.push(Self::deserialize(inner, deserializer)?);
                 }
-- 
2.43.0


From 63e8d903f49f99f8b3eeecb6c04b73209f1ba040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:57 +0000
Subject: [PATCH 04/14] fix: do not preallocate header entries by the count the
 input claims

Each nested four-byte tuple or enum claiming 65535 entries reserved two
megabytes before a single entry had been read.
---
 dlhn/src/header/de.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dlhn/src/header/de.rs b/dlhn/src/header/de.rs
index e0002c9..6c54ade 100644
--- a/dlhn/src/header/de.rs
+++ b/dlhn/src/header/de.rs
@@ -41,7 +41,7 @@ impl<R: Read> DeserializeHeader<R> for R {
             }
             super::TUPLE_CODE => {
                 let size = u16::decode_prefix_varint(self)?;
-                let mut vec = Vec::with_capacity(size as usize);
+                let mut vec = Vec::new();
                 for _ in 0..size {
                     vec.push(self.deserialize_header()?);
                 }
@@ -61,7 +61,7 @@ impl<R: Read> DeserializeHeader<R> for R {
             }
             super::ENUM_CODE => {
                 let size = u16::decode_prefix_varint(self)?;
-                let mut buf = Vec::with_capacity(size as usize);
+                let mut buf = Vec::new();
                 for _ in 0..size {
                     buf.push(self.deserialize_header()?);
                 }
-- 
2.43.0


From c191750744c2b52a95d0309e0916fe7d37c30bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:10 +0000
Subject: [PATCH 05/14] fix: bound the nesting of decoded headers

A few kilobytes of nested option or array codes overflowed the stack and
aborted the process.
---
 dlhn/src/header/de.rs | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/dlhn/src/header/de.rs b/dlhn/src/header/de.rs
index 6c54ade..7c6c5b0 100644
--- a/dlhn/src/header/de.rs
+++ b/dlhn/src/header/de.rs
@@ -8,13 +8,33 @@ pub trait DeserializeHeader<R: Read> {
 
 impl<R: Read> DeserializeHeader<R> for R {
     fn deserialize_header(&mut self) -> Result<Header> {
+        self.deserialize_nested_header(0)
+    }
+}
+
+// The nesting comes from the input, so it must be bounded to not overflow the stack.
+const MAX_DEPTH: usize = 128;
+
+trait DeserializeNestedHeader {
+    fn deserialize_nested_header(&mut self, depth: usize) -> Result<Header>;
+}
+
+impl<R: Read> DeserializeNestedHeader for R {
+    fn deserialize_nested_header(&mut self, depth: usize) -> Result<Header> {
+        if depth > MAX_DEPTH {
+            return Err(std::io::Error::new(
+                ErrorKind::InvalidData,
+                "header is nested too deeply",
+            ));
+        }
+
         let mut buf = [0u8; 1];
         self.read_exact(&mut buf)?;
 
         match buf[0] {
             super::UNIT_CODE => Ok(Header::Unit),
             super::OPTIONAL_CODE => {
-                let inner = self.deserialize_header()?;
+                let inner = self.deserialize_nested_header(depth + 1)?;
                 Ok(Header::Optional(Box::new(inner)))
             }
             super::BOOLEAN_CODE => Ok(Header::Boolean),
@@ -36,14 +56,14 @@ impl<R: Read> DeserializeHeader<R> for R {
             super::STRING_CODE => Ok(Header::String),
             super::BINARY_CODE => Ok(Header::Binary),
             super::ARRAY_CODE => {
-                let inner = self.deserialize_header()?;
+                let inner = self.deserialize_nested_header(depth + 1)?;
                 Ok(Header::Array(Box::new(inner)))
             }
             super::TUPLE_CODE => {
                 let size = u16::decode_prefix_varint(self)?;
                 let mut vec = Vec::new();
                 for _ in 0..size {
-                    vec.push(self.deserialize_header()?);
+                    vec.push(self.deserialize_nested_header(depth + 1)?);
                 }
                 Ok(Header::Tuple(vec))
             }
@@ -56,14 +76,14 @@ impl<R: Read> DeserializeHeader<R> for R {
             //     Ok(Header::Struct(buf))
             // }
             super::MAP_CODE => {
-                let inner = self.deserialize_header()?;
+                let inner = self.deserialize_nested_header(depth + 1)?;
                 Ok(Header::Map(Box::new(inner)))
             }
             super::ENUM_CODE => {
                 let size = u16::decode_prefix_varint(self)?;
                 let mut buf = Vec::new();
                 for _ in 0..size {
-                    buf.push(self.deserialize_header()?);
+                    buf.push(self.deserialize_nested_header(depth + 1)?);
                 }
                 Ok(Header::Enum(buf))
             }
-- 
2.43.0


From 293b6d97e7daed0ecbca2eb3beb4bb3c46187fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:35 +0000
Subject: [PATCH 06/14] fix: reject headers with more entries than their count
 can express

The entry count was truncated to 16 bits, so wide tuples and enums
silently encoded to a different header.
---
 dlhn/src/header/ser.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dlhn/src/header/ser.rs b/dlhn/src/header/ser.rs
index 979635e..4bf9f82 100644
--- a/dlhn/src/header/ser.rs
+++ b/dlhn/src/header/ser.rs
@@ -3,7 +3,8 @@ use crate::{BigDecimal, BigInt, BigUint, Date, DateTime, PrefixVarint};
 use serde_bytes::{ByteBuf, Bytes};
 use std::{
     collections::{BTreeMap, HashMap},
-    io::{Result, Write},
+    convert::TryFrom,
+    io::{Error, ErrorKind, Result, Write},
 };
 
 pub trait SerializeHeader {
@@ -293,9 +294,11 @@ impl Header {
     }
 
     fn serialize_inner_vec<W: Write>(code: u8, inner: &Vec<Header>, writer: &mut W) -> Result<()> {
+        let len = u16::try_from(inner.len())
+            .map_err(|_| Error::new(ErrorKind::InvalidInput, "too many header entries"))?;
         writer.write_all(&[code])?;
         let mut buf = [0u8; u16::PREFIX_VARINT_BUF_SIZE];
-        let size = (inner.len() as u16).encode_prefix_varint(&mut buf);
+        let size = len.encode_prefix_varint(&mut buf);
         writer.write_all(&buf[..size])?;
         for v in inner {
             v.serialize(writer)?
-- 
2.43.0


From 2196a4fd5dc2c2f654e1f6987dda1caa753c91f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:36 +0000
Subject: [PATCH 07/14] fix: read enum variant indices with the width they are
 written with

Variant indices are written as 32-bit integers but were read as 16-bit
ones, which differ on the wire from index 16384 on.
---
 dlhn/src/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dlhn/src/de.rs b/dlhn/src/de.rs
index 651ba33..94cd94d 100644
--- a/dlhn/src/de.rs
+++ b/dlhn/src/de.rs
@@ -371,7 +371,7 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<'de, R> {
     where
         V: de::Visitor<'de>,
     {
-        self.deserialize_u16(visitor)
+        self.deserialize_u32(visitor)
     }
 
     fn deserialize_ignored_any<V>(self, _: V) -> Result<V::Value, Self::Error>
-- 
2.43.0


From 4c21b03aab5cc77e729f61d9e3e558f1cc9a07b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:38 +0000
Subject: [PATCH 08/14] fix: read the scale of a decimal whenever its digits
 are present

For a zero written with explicit digit bytes the field adapter left the
scale unread, so everything after it was decoded from the wrong position,
unlike the BigDecimal wrapper, which reads it.
---
 dlhn/src/format/big_decimal.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/dlhn/src/format/big_decimal.rs b/dlhn/src/format/big_decimal.rs
index 3b7c0cf..11f6fd5 100644
--- a/dlhn/src/format/big_decimal.rs
+++ b/dlhn/src/format/big_decimal.rs
@@ -21,12 +21,11 @@ impl<'de> Visitor<'de> for BigDecimalVisitor {
     where
         A: SeqAccess<'de>,
     {
-        let digits = BigInt::from_signed_bytes_le(
-            seq.next_element::<Vec<u8>>()?
-                .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?
-                .as_slice(),
-        );
-        if digits.is_zero() {
+        let signed_bytes = seq
+            .next_element::<Vec<u8>>()?
+            .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?;
+        let digits = BigInt::from_signed_bytes_le(signed_bytes.as_slice());
+        if signed_bytes.is_empty() {
             Ok(BigDecimal::from(digits))
         } else {
             Ok(BigDecimal::new(
-- 
2.43.0


From a7ca0efd9b0292906ec57b396b08aaad67b72e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:39 +0000
Subject: [PATCH 09/14] fix: answer unsupported deserialization requests
 without panicking

Types asking for a string or byte slice, for self-describing content or
for content to be skipped hit todo!() and panicked.
---
 dlhn/src/de.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/dlhn/src/de.rs b/dlhn/src/de.rs
index 94cd94d..7bc19d9 100644
--- a/dlhn/src/de.rs
+++ b/dlhn/src/de.rs
@@ -63,7 +63,9 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<'de, R> {
     where
         V: de::Visitor<'de>,
     {
-        todo!()
+        Err(Error::Message(
+            "deserialization without a known type is not supported".to_string(),
+        ))
     }
 
     fn deserialize_bool<V>(self, visitor: V) -> Result<V::Value, Self::Error>
@@ -200,11 +202,11 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<'de, R> {
         )
     }
 
-    fn deserialize_str<V>(self, _: V) -> Result<V::Value, Self::Error>
+    fn deserialize_str<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
         V: de::Visitor<'de>,
     {
-        todo!()
+        self.deserialize_string(visitor)
     }
 
     fn deserialize_string<V>(self, visitor: V) -> Result<V::Value, Self::Error>
@@ -236,11 +238,11 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<'de, R> {
         }
     }
 
-    fn deserialize_bytes<V>(self, _: V) -> Result<V::Value, Self::Error>
+    fn deserialize_bytes<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
         V: de::Visitor<'de>,
     {
-        todo!()
+        self.deserialize_byte_buf(visitor)
     }
 
     fn deserialize_byte_buf<V>(self, visitor: V) -> Result<V::Value, Self::Error>
@@ -378,7 +380,9 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<'de, R> {
     where
         V: de::Visitor<'de>,
     {
-        todo!()
+        Err(Error::Message(
+            "skipping content of unknown type is not supported".to_string(),
+        ))
     }
 
     #[inline]
-- 
2.43.0


From f883a61a7dc78753519dca3ee4a1c7bd3ab17906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:35 +0000
Subject: [PATCH 10/14] fix: leave skipped fields of enum variants out of
 derived headers

---
 dlhn_derive/src/lib.rs | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/dlhn_derive/src/lib.rs b/dlhn_derive/src/lib.rs
index 180b4ce..8c2348d 100644
--- a/dlhn_derive/src/lib.rs
+++ b/dlhn_derive/src/lib.rs
@@ -7,7 +7,7 @@ use proc_macro::TokenStream;
 use proc_macro2::{Delimiter, Group, Span};
 use quote::{quote, ToTokens};
 use std::{slice::Iter, str::FromStr};
-use syn::{parse_macro_input, Attribute, DeriveInput, Meta, NestedMeta};
+use syn::{parse_macro_input, Attribute, DeriveInput, Field, Meta, NestedMeta};
 
 const TUPLE_CODE: u8 = 21;
 // const STRUCT_CODE: u8 = 22;
@@ -72,7 +72,12 @@ pub fn derive_serialize_header(input: TokenStream) -> TokenStream {
             let mut inners = Vec::new();
 
             for variant in data.variants.iter() {
-                if has_skip_serializing_if(variant.attrs.iter()) {
+                if has_skip_serializing_if(variant.attrs.iter())
+                    || variant
+                        .fields
+                        .iter()
+                        .any(|field| has_skip_serializing_if(field.attrs.iter()))
+                {
                     return syn::Error::new(
                         Span::call_site(),
                         "skip_serializing_if is not supported",
@@ -82,7 +87,8 @@ pub fn derive_serialize_header(input: TokenStream) -> TokenStream {
                 }
 
                 if !is_skip_field(variant.attrs.iter()) {
-                    if variant.fields.is_empty() {
+                    let fields_len = serialized_fields(variant.fields.iter()).count();
+                    if fields_len == 0 {
                         outers.push(
                             Group::new(Delimiter::Bracket, proc_macro2::TokenStream::new())
                                 .into_token_stream(),
@@ -93,15 +99,12 @@ pub fn derive_serialize_header(input: TokenStream) -> TokenStream {
                         )
                         .into_token_stream()]);
                     } else {
-                        if variant.fields.len() > 1 {
+                        if fields_len > 1 {
                             match &variant.fields {
                                 syn::Fields::Named(fields) => {
                                     // let mut buf = vec![STRUCT_CODE];
                                     let mut buf = vec![TUPLE_CODE];
-                                    buf.append(
-                                        &mut (variant.fields.len() as u16)
-                                            .encode_prefix_varint_vec(),
-                                    );
+                                    buf.append(&mut (fields_len as u16).encode_prefix_varint_vec());
                                     outers.push(
                                         proc_macro2::TokenStream::from_str(
                                             format!("{:?}", buf).as_str(),
@@ -110,17 +113,14 @@ pub fn derive_serialize_header(input: TokenStream) -> TokenStream {
                                     );
 
                                     let mut field_types = Vec::new();
-                                    fields.named.iter().for_each(|field| {
+                                    serialized_fields(fields.named.iter()).for_each(|field| {
                                         field_types.push(field.ty.to_token_stream());
                                     });
                                     inners.push(field_types);
                                 }
                                 syn::Fields::Unnamed(fields) => {
                                     let mut buf = vec![TUPLE_CODE];
-                                    buf.append(
-                                        &mut (variant.fields.len() as u16)
-                                            .encode_prefix_varint_vec(),
-                                    );
+                                    buf.append(&mut (fields_len as u16).encode_prefix_varint_vec());
                                     outers.push(
                                         proc_macro2::TokenStream::from_str(
                                             format!("{:?}", buf).as_str(),
@@ -129,9 +129,7 @@ pub fn derive_serialize_header(input: TokenStream) -> TokenStream {
                                     );
 
                                     inners.push(
-                                        fields
-                                            .unnamed
-                                            .iter()
+                                        serialized_fields(fields.unnamed.iter())
                                             .map(|field| field.ty.to_token_stream())
                                             .collect(),
                                     );
@@ -144,7 +142,7 @@ pub fn derive_serialize_header(input: TokenStream) -> TokenStream {
                                     .into_token_stream(),
                             );
                             let mut field_types = Vec::new();
-                            variant.fields.iter().for_each(|field| {
+                            serialized_fields(variant.fields.iter()).for_each(|field| {
                                 field_types.push(field.ty.to_token_stream());
                             });
                             inners.push(field_types);
@@ -187,6 +185,12 @@ pub fn derive_serialize_header(input: TokenStream) -> TokenStream {
     }
 }
 
+fn serialized_fields<'a>(
+    fields: impl Iterator<Item = &'a Field>,
+) -> impl Iterator<Item = &'a Field> {
+    fields.filter(|field| !is_skip_field(field.attrs.iter()))
+}
+
 fn is_skip_field(mut attributes: Iter<Attribute>) -> bool {
     attributes.any(|attribute| {
         attribute.path.get_ident().map(ToString::to_string) == Some(SERDE_ATTRIBUTE.to_string())
-- 
2.43.0


From fa51167348b3289de7ef6304be67be18dd6bdc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:46 +0000
Subject: [PATCH 11/14] fix: reject a character encoded as longer text

---
 dlhn/src/de.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/dlhn/src/de.rs b/dlhn/src/de.rs
index 7bc19d9..fd59162 100644
--- a/dlhn/src/de.rs
+++ b/dlhn/src/de.rs
@@ -193,13 +193,12 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<'de, R> {
     where
         V: de::Visitor<'de>,
     {
-        visitor.visit_char(
-            String::deserialize(self)?
-                .chars()
-                .into_iter()
-                .next()
-                .ok_or(Error::CharSize)?,
-        )
+        let s = String::deserialize(self)?;
+        let mut chars = s.chars();
+        match (chars.next(), chars.next()) {
+            (Some(c), None) => visitor.visit_char(c),
+            _ => Err(Error::CharSize),
+        }
     }
 
     fn deserialize_str<V>(self, visitor: V) -> Result<V::Value, Self::Error>
-- 
2.43.0


From 20c4c676dcfd51b44881b6b5f35f9547cef60ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:23 +0000
Subject: [PATCH 12/14] fix: normalize decimals in time independent of their
 scale

---
 dlhn/src/big_decimal.rs        | 16 +++++++++++++++-
 dlhn/src/format/big_decimal.rs |  4 ++--
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/dlhn/src/big_decimal.rs b/dlhn/src/big_decimal.rs
index 34fe7a7..5f06d44 100644
--- a/dlhn/src/big_decimal.rs
+++ b/dlhn/src/big_decimal.rs
@@ -13,6 +13,20 @@ pub struct BigDecimal {
     scale: i64,
 }
 
+/// Strips trailing zeros in time independent of the scale: `bigdecimal` compares with zero at the
+/// scale of the number, which does not finish for large scales.
+#[cfg(all(feature = "num-traits", feature = "bigdecimal"))]
+pub(crate) fn normalized(v: &bigdecimal::BigDecimal) -> bigdecimal::BigDecimal {
+    let (digits, scale) = v.as_bigint_and_exponent();
+    let (bigint, shift) = bigdecimal::BigDecimal::new(digits, 0)
+        .normalized()
+        .into_bigint_and_exponent();
+    match scale.checked_add(shift) {
+        Some(scale) => bigdecimal::BigDecimal::new(bigint, scale),
+        None => v.clone(),
+    }
+}
+
 #[cfg(all(feature = "num-traits", feature = "bigdecimal"))]
 impl From<bigdecimal::BigDecimal> for BigDecimal {
     fn from(v: bigdecimal::BigDecimal) -> Self {
@@ -22,7 +36,7 @@ impl From<bigdecimal::BigDecimal> for BigDecimal {
                 scale: 0,
             }
         } else {
-            let (bigint, scale) = v.normalized().into_bigint_and_exponent();
+            let (bigint, scale) = normalized(&v).into_bigint_and_exponent();
             Self {
                 signed_bytes: bigint.to_signed_bytes_le(),
                 scale,
diff --git a/dlhn/src/format/big_decimal.rs b/dlhn/src/format/big_decimal.rs
index 11f6fd5..c516178 100644
--- a/dlhn/src/format/big_decimal.rs
+++ b/dlhn/src/format/big_decimal.rs
@@ -1,4 +1,4 @@
-use crate::de::Error;
+use crate::{big_decimal::normalized, de::Error};
 use bigdecimal::BigDecimal;
 use num_bigint::BigInt;
 use num_traits::Zero;
@@ -43,7 +43,7 @@ pub fn serialize<T: Serializer>(value: &BigDecimal, serializer: T) -> Result<T::
     if value.is_zero() {
         seq.serialize_element(&0u8)?;
     } else {
-        let (bigint, scale) = value.normalized().into_bigint_and_exponent();
+        let (bigint, scale) = normalized(value).into_bigint_and_exponent();
         seq.serialize_element(&bigint.to_signed_bytes_le())?;
         seq.serialize_element(&scale)?;
     }
-- 
2.43.0


From 3e26d6798fa1ffdbb9929c8cd9771d6ee89bd534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:19 +0000
Subject: [PATCH 13/14] fix: give decimals at the smallest scale one form

---
 dlhn/src/big_decimal.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dlhn/src/big_decimal.rs b/dlhn/src/big_decimal.rs
index 5f06d44..f5a4472 100644
--- a/dlhn/src/big_decimal.rs
+++ b/dlhn/src/big_decimal.rs
@@ -18,13 +18,15 @@ pub struct BigDecimal {
 #[cfg(all(feature = "num-traits", feature = "bigdecimal"))]
 pub(crate) fn normalized(v: &bigdecimal::BigDecimal) -> bigdecimal::BigDecimal {
     let (digits, scale) = v.as_bigint_and_exponent();
-    let (bigint, shift) = bigdecimal::BigDecimal::new(digits, 0)
+    let (mut bigint, mut shift) = bigdecimal::BigDecimal::new(digits, 0)
         .normalized()
         .into_bigint_and_exponent();
-    match scale.checked_add(shift) {
-        Some(scale) => bigdecimal::BigDecimal::new(bigint, scale),
-        None => v.clone(),
+    // zeros that no scale can express stay in the digits
+    while scale.checked_add(shift).is_none() {
+        bigint *= 10;
+        shift += 1;
     }
+    bigdecimal::BigDecimal::new(bigint, scale + shift)
 }
 
 #[cfg(all(feature = "num-traits", feature = "bigdecimal"))]
-- 
2.43.0


From 220e5d312ed3c6fb1aaebf062ca9af01cb046c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:46 +0000
Subject: [PATCH 14/14] fix: describe the field of a newtype struct that serde
 serializes despite a skip mark

---
 dlhn_derive/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dlhn_derive/src/lib.rs b/dlhn_derive/src/lib.rs
index 8c2348d..0b0299a 100644
--- a/dlhn_derive/src/lib.rs
+++ b/dlhn_derive/src/lib.rs
@@ -25,6 +25,9 @@ pub fn derive_serialize_header(input: TokenStream) -> TokenStream {
     match item.data {
         syn::Data::Struct(data) => {
             let mut types = Vec::new();
+            // serde serializes the field of a newtype struct even if it is marked as skipped
+            let is_newtype =
+                matches!(&data.fields, syn::Fields::Unnamed(fields) if fields.unnamed.len() == 1);
 
             for field in data.fields.iter() {
                 if has_skip_serializing_if(field.attrs.iter()) {
@@ -36,7 +39,7 @@ pub fn derive_serialize_header(input: TokenStream) -> TokenStream {
                     .into();
                 }
 
-                if !is_skip_field(field.attrs.iter()) {
+                if is_newtype || !is_skip_field(field.attrs.iter()) {
                     types.push(field.ty.to_token_stream());
                 }
             }
-- 
2.43.0

