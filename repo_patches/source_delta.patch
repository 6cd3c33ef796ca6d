From ad1a25fb2a097a51474201fee71bacc55ba78a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:14 +0000
Subject: [PATCH 01/10] fix: order map entries by their canonical key encodings

Keys that contain maps were compared by their in-memory entry order, so the
encoding of a map could be non-canonical or miss duplicate keys.
---
 value/src/writer.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/value/src/writer.rs b/value/src/writer.rs
index e73d5eb..6df2a56 100644
--- a/value/src/writer.rs
+++ b/value/src/writer.rs
@@ -79,16 +79,24 @@ impl<'a> Writer<'a> {
                     self.encode_cbor(el, remaining_depth.map(|d| d - 1))?;
                 }
             }
-            Value::Map(mut map) => {
-                map.sort_by(|a, b| a.0.cmp(&b.0));
-                let map_len = map.len();
-                map.dedup_by(|a, b| a.0.eq(&b.0));
-                if map_len != map.len() {
+            Value::Map(map) => {
+                // Order entries by their encoded keys as the keys may themselves contain maps with
+                // entries that are not in canonical order yet.
+                let mut entries = Vec::with_capacity(map.len());
+                for (k, v) in map {
+                    let mut key = Vec::new();
+                    Writer::new(&mut key).encode_cbor(k, remaining_depth.map(|d| d - 1))?;
+                    entries.push((key, v));
+                }
+                entries.sort_by(|a, b| a.0.cmp(&b.0));
+                let map_len = entries.len();
+                entries.dedup_by(|a, b| a.0.eq(&b.0));
+                if map_len != entries.len() {
                     return Err(EncoderError::DuplicateMapKey);
                 }
                 self.start_item(type_label, map_len as u64);
-                for (k, v) in map {
-                    self.encode_cbor(k, remaining_depth.map(|d| d - 1))?;
+                for (key, v) in entries {
+                    self.encoded_cbor.extend(key);
                     self.encode_cbor(v, remaining_depth.map(|d| d - 1))?;
                 }
             }
-- 
2.43.0


From c5151db4c430a3740974da5597195d5dfd99a56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:14 +0000
Subject: [PATCH 02/10] fix: do not truncate string lengths on 32-bit targets

---
 value/src/reader.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/value/src/reader.rs b/value/src/reader.rs
index 86d8eea..7061eb4 100644
--- a/value/src/reader.rs
+++ b/value/src/reader.rs
@@ -15,6 +15,7 @@
 //! Functionality for deserializing CBOR data into values.
 
 use alloc::{str, vec::Vec};
+use core::convert::TryFrom;
 
 use super::values::{Constants, SimpleValue, Value};
 use crate::{
@@ -165,14 +166,14 @@ impl<'a> Reader<'a> {
     }
 
     fn read_byte_string_content(&mut self, size_value: u64) -> Result<Value, DecoderError> {
-        match self.read_bytes(size_value as usize) {
+        match self.read_bytes(usize::try_from(size_value).unwrap_or(usize::MAX)) {
             Some(bytes) => Ok(cbor_bytes_lit!(bytes)),
             None => Err(DecoderError::IncompleteCborData),
         }
     }
 
     fn read_text_string_content(&mut self, size_value: u64) -> Result<Value, DecoderError> {
-        match self.read_bytes(size_value as usize) {
+        match self.read_bytes(usize::try_from(size_value).unwrap_or(usize::MAX)) {
             Some(bytes) => match str::from_utf8(bytes) {
                 Ok(s) => Ok(cbor_text!(s)),
                 Err(_) => Err(DecoderError::InvalidUtf8),
-- 
2.43.0


From fd722fd9ecf862dbcfb0f40e0a105fc94d23d75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:14 +0000
Subject: [PATCH 03/10] fix: do not decode floating point bit patterns as
 simple values

In non-strict mode e.g. the half-precision value 0xf90014 decoded as false.
---
 value/src/reader.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/value/src/reader.rs b/value/src/reader.rs
index 7061eb4..deef25a 100644
--- a/value/src/reader.rs
+++ b/value/src/reader.rs
@@ -238,6 +238,10 @@ impl<'a> Reader<'a> {
             // Also, why not just disallow ANY additional_info != size_value?
             return Err(DecoderError::UnsupportedFloatingPointValue);
         }
+        if additional_info > Constants::ADDITIONAL_INFORMATION_1_BYTE {
+            // Never interpret the bits of a floating point value as a simple value.
+            return Ok(Value::Simple(SimpleValue::Undefined));
+        }
         match SimpleValue::from_integer(size_value) {
             Some(simple_value) => Ok(Value::Simple(simple_value)),
             None if self.non_strict => Ok(Value::Simple(SimpleValue::Undefined)),
-- 
2.43.0


From 34ee8f37d764f743b1002ca3686ca8c56c599f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:14 +0000
Subject: [PATCH 04/10] fix: return an error when decoding a tuple from a short
 array

---
 src/decode.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/decode.rs b/src/decode.rs
index 4d95335..3e7f05b 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -47,8 +47,13 @@ impl Decode for Tuple {
 
     fn try_from_cbor_value(value: Value) -> Result<Self, DecodeError> {
         match value {
-            Value::Array(mut values) => {
-                Ok((for_tuples!( #( Tuple::try_from_cbor_value(values.remove(0))? ),* )))
+            Value::Array(values) => {
+                let mut values = values.into_iter();
+                Ok(
+                    (for_tuples!( #( Tuple::try_from_cbor_value(
+                        values.next().ok_or(DecodeError::MissingField)?
+                    )? ),* )),
+                )
             }
             _ => Err(DecodeError::UnexpectedType),
         }
-- 
2.43.0


From fd03b8279ac9b2ccad368893f533349ea3d4b37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:41 +0000
Subject: [PATCH 05/10] fix: do not truncate negative integers below the i64
 range in serde deserialization

---
 src/serde/de.rs    | 7 +++++--
 src/serde/error.rs | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/serde/de.rs b/src/serde/de.rs
index eb3759a..d8f2d58 100644
--- a/src/serde/de.rs
+++ b/src/serde/de.rs
@@ -1,4 +1,4 @@
-use std::iter::Peekable;
+use std::{convert::TryFrom, iter::Peekable};
 
 use serde::{
     de::{self, Error as _, Visitor},
@@ -25,7 +25,10 @@ impl<'de> de::Deserializer<'de> for Deserializer {
     {
         let value = match self.0 {
             Value::Unsigned(n) => visitor.visit_u64(n),
-            Value::Negative(n) => visitor.visit_i64(n as i64),
+            Value::Negative(n) => match i64::try_from(n) {
+                Ok(n) => visitor.visit_i64(n),
+                Err(_) => visitor.visit_i128(n),
+            },
             Value::ByteString(bytes) => visitor.visit_byte_buf(bytes),
             Value::TextString(s) => visitor.visit_string(s),
             Value::Array(_) => self.deserialize_seq(visitor),
diff --git a/src/serde/error.rs b/src/serde/error.rs
index 8d24a01..c258f81 100644
--- a/src/serde/error.rs
+++ b/src/serde/error.rs
@@ -1,4 +1,4 @@
-use std::fmt::Display;
+use std::{convert::TryFrom, fmt::Display};
 
 use serde::{de, ser};
 
@@ -48,7 +48,10 @@ impl de::Error for Error {
 pub(crate) fn unexpected(v: &Value) -> de::Unexpected {
     match v {
         Value::Unsigned(n) => de::Unexpected::Unsigned(*n),
-        Value::Negative(n) => de::Unexpected::Signed(*n as i64),
+        Value::Negative(n) => match i64::try_from(*n) {
+            Ok(n) => de::Unexpected::Signed(n),
+            Err(_) => de::Unexpected::Other("negative integer below the i64 range"),
+        },
         Value::ByteString(s) => de::Unexpected::Bytes(s),
         Value::TextString(s) => de::Unexpected::Str(s),
         Value::Array(_) => de::Unexpected::Seq,
-- 
2.43.0


From c192aebf459746e1d248e114e50c1b83fca70329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:58 +0000
Subject: [PATCH 06/10] fix: allow unknown fields that sort before known fields

With allow_unknown set an unknown field was only accepted when its key sorted
after the keys of all known fields.
---
 derive/src/decode.rs | 14 +++++++++++---
 src/macros.rs        |  3 +++
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/derive/src/decode.rs b/derive/src/decode.rs
index ede87e1..df07a9c 100644
--- a/derive/src/decode.rs
+++ b/derive/src/decode.rs
@@ -148,10 +148,18 @@ fn derive_struct(
                         quote_spanned!(field_ty.span()=> ::std::default::Default::default())
                     } else {
                         let decode_fn = field_decode_fn(&field);
-                        let destruct_fn = quote_spanned!(field_ty.span()=>
-                            __cbor::macros::destructure_cbor_map_peek_value_strict);
+                        let extract_field = if allow_unknown {
+                            // Skip over any unknown fields.
+                            let destruct_fn = quote_spanned!(field_ty.span()=>
+                                __cbor::macros::destructure_cbor_map_peek_value);
+                            quote!(#destruct_fn(&mut it, #key))
+                        } else {
+                            let destruct_fn = quote_spanned!(field_ty.span()=>
+                                __cbor::macros::destructure_cbor_map_peek_value_strict);
+                            quote!(#destruct_fn(&mut it, #key)?)
+                        };
                         let field_value = quote!({
-                            let v: Option<__cbor::Value> = #destruct_fn(&mut it, #key)?;
+                            let v: Option<__cbor::Value> = #extract_field;
                             #decode_fn(v.unwrap_or(__cbor::Value::Simple(__cbor::SimpleValue::NullValue)))?
                         });
 
diff --git a/src/macros.rs b/src/macros.rs
index bbc6490..88036fa 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -2,6 +2,9 @@ use std::{cmp::Ordering, iter::Peekable};
 
 use crate::{values::Value, DecodeError};
 
+// Used by the Decode derive macro in case unknown fields are allowed.
+pub use oasis_cbor_value::macros::destructure_cbor_map_peek_value;
+
 /// This function is an internal detail of the Decode derive macro, but has public visibility so
 /// that users of the macro can use it.
 pub fn destructure_cbor_map_peek_value_strict(
-- 
2.43.0


From f02784ee5e72de9ba5b71197e50f24fcb6011836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:58 +0000
Subject: [PATCH 07/10] fix: do not decode arbitrary values as unit structs

---
 derive/src/decode.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/derive/src/decode.rs b/derive/src/decode.rs
index df07a9c..bf18940 100644
--- a/derive/src/decode.rs
+++ b/derive/src/decode.rs
@@ -121,7 +121,17 @@ fn derive_struct(
             (extract_value, field_map_items)
         } else if fields.is_unit() {
             // This is a unit struct with no fields.
-            (quote! {Vec::<()>::new()}, vec![])
+            let extract_value = quote! {
+                match value {
+                    __cbor::Value::Map(map) => map,
+                    __cbor::Value::Simple(
+                        __cbor::SimpleValue::NullValue | __cbor::SimpleValue::Undefined
+                    ) => ::std::vec::Vec::new(),
+                    _ => return Err(__cbor::DecodeError::UnexpectedType),
+                }
+            };
+
+            (extract_value, vec![])
         } else {
             // Field represented as a map.
             let extract_value = quote! {
-- 
2.43.0


From 69b15b1c8e03eea57562939e15556d7e18025e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:58 +0000
Subject: [PATCH 08/10] fix: do not panic when encoding unit variants of
 internally tagged enums

---
 derive/src/encode.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/derive/src/encode.rs b/derive/src/encode.rs
index 64c3452..d9e7eab 100644
--- a/derive/src/encode.rs
+++ b/derive/src/encode.rs
@@ -339,7 +339,8 @@ fn derive_enum(enc: &Codable, variants: Vec<&Variant>) -> DeriveResult {
                         &variant.ident,
                         false,
                         variant.as_array.is_present(),
-                        variant.as_struct.is_present(),
+                        // Internally tagged unit variants are also encoded as maps.
+                        variant.as_struct.is_present() || enc.tag.is_some(),
                         variant.fields.as_ref(),
                         Some(idents),
                     );
-- 
2.43.0


From 307e297c39198e3b3e03caa4b8eed23b2db0d2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:02 +0000
Subject: [PATCH 09/10] fix: apply serialize_with to optional fields

An optional field with serialize_with (and no skip_serializing_if) was
encoded without it while deserialize_with was still applied on decoding.
---
 derive/src/encode.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/derive/src/encode.rs b/derive/src/encode.rs
index d9e7eab..a76209f 100644
--- a/derive/src/encode.rs
+++ b/derive/src/encode.rs
@@ -172,8 +172,12 @@ fn derive_struct(
                         // null value.
                         match &field.skip_serializing_if {
                             None => {
+                                let encoded = match &field.serialize_with {
+                                    Some(custom_encode_fn) => quote!(#custom_encode_fn(&#field_binding)),
+                                    None => quote!(#field_binding),
+                                };
                                 quote! {
-                                    if let Some(value) = __cbor::Encode::into_optional_cbor_value(#field_binding) {
+                                    if let Some(value) = __cbor::Encode::into_optional_cbor_value(#encoded) {
                                         fields.push((#key, value));
                                     }
                                 }
-- 
2.43.0


From 7545f464d6e1777e7342e373e9104a60e7cebece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:36 +0000
Subject: [PATCH 10/10] fix: do not mark enums with skipped or embedded
 variants as encoding as maps

Neither a skipped variant nor an embedded one necessarily encodes as a map,
and encoding one inside an internally tagged enum panicked.
---
 derive/src/encode.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/derive/src/encode.rs b/derive/src/encode.rs
index a76209f..20f9957 100644
--- a/derive/src/encode.rs
+++ b/derive/src/encode.rs
@@ -277,7 +277,7 @@ fn derive_enum(enc: &Codable, variants: Vec<&Variant>) -> DeriveResult {
 
             if variant.skip.is_present() {
                 // If we need to skip serializing this variant, serialize into undefined.
-                return (quote! { Self::#variant_ident { .. } => __cbor::Value::Simple(__cbor::SimpleValue::Undefined), }, true);
+                return (quote! { Self::#variant_ident { .. } => __cbor::Value::Simple(__cbor::SimpleValue::Undefined), }, false);
             }
 
             if variant.embed.is_present() {
@@ -291,7 +291,8 @@ fn derive_enum(enc: &Codable, variants: Vec<&Variant>) -> DeriveResult {
                     return (quote!(), false);
                 }
                 // TODO: It would be great if this somehow ensured that there was no overlap etc.
-                return (quote! { Self::#variant_ident(inner) => #encode_fn(inner), }, true);
+                // We cannot be sure that the inner type encodes as map.
+                return (quote! { Self::#variant_ident(inner) => #encode_fn(inner), }, false);
             }
 
             if variant.fields.is_unit() && !variant.as_struct.is_present() && enc.tag.is_none() {
-- 
2.43.0

