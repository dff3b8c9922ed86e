From 2ddf582aa2ce709479cb53bfec3f27d0dcb444a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:44 +0000
Subject: [PATCH 01/11] fix: decode I256 types to I256 primitives, not U256

---
 src/scale_impls/decode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scale_impls/decode.rs b/src/scale_impls/decode.rs
index fa3d533..f9102c7 100644
--- a/src/scale_impls/decode.rs
+++ b/src/scale_impls/decode.rs
@@ -287,7 +287,7 @@ where
         type_id: R::TypeId,
     ) -> Result<Self::Value<'_, 'info>, Self::Error> {
         Ok(Value {
-            value: ValueDef::Primitive(Primitive::U256(*value)),
+            value: ValueDef::Primitive(Primitive::I256(*value)),
             context: F::context_from_type_id(&type_id),
         })
     }
-- 
2.43.0


From 17be54fe97e80d18ed76cefcbab9b2cf7d394fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:26 +0000
Subject: [PATCH 02/11] fix: don't allocate based on unchecked sequence lengths
 when decoding

---
 src/scale_impls/decode.rs                  | 5 ++++-
 src/scale_impls/tracing_decoder/visitor.rs | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/scale_impls/decode.rs b/src/scale_impls/decode.rs
index f9102c7..e2fdcd3 100644
--- a/src/scale_impls/decode.rs
+++ b/src/scale_impls/decode.rs
@@ -75,7 +75,10 @@ where
 // Sequences, Tuples and Arrays all have the same methods, so decode them in the same way:
 macro_rules! to_unnamed_composite {
     ($value:ident, $type_id:ident) => {{
-        let mut vals = Vec::with_capacity($value.remaining());
+        // The number of items in a sequence comes from the bytes we're decoding and may be
+        // anything, so don't allocate space for more items than there could be bytes for.
+        let capacity = $value.remaining().min($value.bytes_from_undecoded().len());
+        let mut vals = Vec::with_capacity(capacity);
         while let Some(val) = $value.decode_item(DecodeValueVisitor::<R, F>::new()) {
             let val = val?;
             vals.push(val);
diff --git a/src/scale_impls/tracing_decoder/visitor.rs b/src/scale_impls/tracing_decoder/visitor.rs
index e80e229..180d7b9 100644
--- a/src/scale_impls/tracing_decoder/visitor.rs
+++ b/src/scale_impls/tracing_decoder/visitor.rs
@@ -69,7 +69,10 @@ macro_rules! to_unnamed_composite {
                 return Err(err);
             }
 
-            let mut vals = Vec::with_capacity($value.remaining());
+            // The number of items in a sequence comes from the bytes we're decoding and may be
+            // anything, so don't allocate space for more items than there could be bytes for.
+            let capacity = $value.remaining().min($value.bytes_from_undecoded().len());
+            let mut vals = Vec::with_capacity(capacity);
             while let Some(val) = $value.decode_item($self.at_idx(idx)) {
                 match val {
                     Err(e) => {
-- 
2.43.0


From fbe189c4817a1179d60b6c8ee5d34a4578b5a3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:26 +0000
Subject: [PATCH 03/11] fix: allow chars and 256 bit numbers to be encoded to
 types of the same kind

---
 src/scale_impls/encode.rs | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/scale_impls/encode.rs b/src/scale_impls/encode.rs
index 5dcebee..87ff03c 100644
--- a/src/scale_impls/encode.rs
+++ b/src/scale_impls/encode.rs
@@ -23,6 +23,7 @@ use scale_encode::{error::Kind, EncodeAsFields, EncodeAsType, Error};
 use scale_encode::{
     Composite as EncodeComposite, CompositeField, FieldIter, Variant as EncodeVariant,
 };
+use scale_type_resolver::Primitive as TargetPrimitive;
 
 impl<T> EncodeAsType for Value<T> {
     fn encode_as_type_to<R: TypeResolver>(
@@ -349,6 +350,22 @@ fn encode_primitive<R: TypeResolver>(
     types: &R,
     bytes: &mut Vec<u8>,
 ) -> Result<(), Error> {
+    // `scale_encode` doesn't know how to encode to chars or 256 bit numbers, so
+    // handle the cases that the value and target type are the same one of those.
+    let target = find_primitive_type::<R>(type_id.clone(), types);
+    match (value, target) {
+        (Primitive::Char(val), Some(TargetPrimitive::Char)) => {
+            (*val as u32).encode_to(bytes);
+            return Ok(());
+        }
+        (Primitive::U256(val), Some(TargetPrimitive::U256))
+        | (Primitive::I256(val), Some(TargetPrimitive::I256)) => {
+            val.encode_to(bytes);
+            return Ok(());
+        }
+        _ => {}
+    }
+
     match value {
         Primitive::Bool(val) => val.encode_as_type_to(type_id, types, bytes),
         Primitive::Char(val) => val.encode_as_type_to(type_id, types, bytes),
@@ -360,6 +377,15 @@ fn encode_primitive<R: TypeResolver>(
     }
 }
 
+/// Return the primitive type that the type ID given represents once any newtype
+/// wrappers are skipped, or `None` if it represents something else.
+fn find_primitive_type<R: TypeResolver>(type_id: R::TypeId, types: &R) -> Option<TargetPrimitive> {
+    let (type_id, _) = find_single_entry_with_same_repr::<R>(type_id, types);
+    let visitor = scale_type_resolver::visitor::new((), |_, _| None)
+        .visit_primitive(|_, primitive| Some(primitive));
+    types.resolve_type(type_id, visitor).ok().flatten()
+}
+
 fn encode_bitsequence<R: TypeResolver>(
     value: &Bits,
     type_id: R::TypeId,
-- 
2.43.0


From 1f31b978e24adba68318489ec6926035b8ccffea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:10 +0000
Subject: [PATCH 04/11] fix: consume what a custom parser consumed, also when
 it isn't ASCII

---
 src/string_impls/from_string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/string_impls/from_string.rs b/src/string_impls/from_string.rs
index 77f89e6..64d4983 100644
--- a/src/string_impls/from_string.rs
+++ b/src/string_impls/from_string.rs
@@ -236,7 +236,7 @@ fn parse_value(
                         // Wind our StrTokens forward to take into account anything that
                         // was consumed. We do this rather than replacing it because we want
                         // to preserve the full string and offsets.
-                        for _ in cursor.len()..s.len() {
+                        while t.remaining().len() > cursor.len() {
                             t.next();
                         }
                         return Ok(value);
-- 
2.43.0


From 87bc58e7c7a35b740c1f99a24923d81aad974bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:57 +0000
Subject: [PATCH 05/11] fix: round trip variant names starting with true or
 false

---
 src/string_impls/from_string.rs | 17 ++++++++++++-----
 src/string_impls/to_string.rs   |  4 ++--
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/string_impls/from_string.rs b/src/string_impls/from_string.rs
index 64d4983..690b5d9 100644
--- a/src/string_impls/from_string.rs
+++ b/src/string_impls/from_string.rs
@@ -382,15 +382,22 @@ fn parse_bit_sequence(t: &mut StrTokens) -> Result<BitSequence, Option<ParseErro
     Ok(seq)
 }
 
-// Parse a bool (`true` or `false`)
+// Parse a bool (`true` or `false`). An ident that merely starts with one of
+// these words (like `trueish`) is not a bool.
 fn parse_bool(t: &mut StrTokens) -> Option<bool> {
-    if t.tokens("true".chars()) {
-        Some(true)
+    let start = t.location();
+    let b = if t.tokens("true".chars()) {
+        true
     } else if t.tokens("false".chars()) {
-        Some(false)
+        false
     } else {
-        None
+        return None;
+    };
+    if t.peek().is_some_and(|c| c.is_alphanumeric() || c == '_') {
+        t.set_location(start);
+        return None;
     }
+    Some(b)
 }
 
 // Parse a char like `'a'`
diff --git a/src/string_impls/to_string.rs b/src/string_impls/to_string.rs
index 060afba..d03c540 100644
--- a/src/string_impls/to_string.rs
+++ b/src/string_impls/to_string.rs
@@ -431,10 +431,10 @@ fn fmt_variant<T, W: core::fmt::Write>(
     v: &Variant<T>,
     f: &mut Formatter<T, W>,
 ) -> core::fmt::Result {
-    if is_ident(&v.name) {
+    if is_ident(&v.name) && v.name != "true" && v.name != "false" {
         f.write_str(&v.name)?;
     } else {
-        // If the variant name isn't a valid ident, we parse it into
+        // If the variant name isn't a valid ident (or would be taken for a bool), we parse it into
         // a special "v" prefixed string to allow arbitrary content while
         // keeping it easy to parse variant names with minimal lookahead.
         // Most use cases should never see or care about this.
-- 
2.43.0


From adc01a5f66b0b1b8c5a83062b3296a95821df21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:42 +0000
Subject: [PATCH 06/11] fix: give every custom parser the whole remaining
 string

---
 src/string_impls/from_string.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/string_impls/from_string.rs b/src/string_impls/from_string.rs
index 690b5d9..b8ac573 100644
--- a/src/string_impls/from_string.rs
+++ b/src/string_impls/from_string.rs
@@ -227,9 +227,11 @@ fn parse_value(
     if !custom_parsers.is_empty() {
         let s = t.remaining();
         let start_offset = t.offset();
-        let cursor = &mut &*s;
 
         for parser in custom_parsers {
+            // Each parser is given the whole of the remaining string, regardless of
+            // what parsers that turned out not to be applicable did to theirs.
+            let cursor = &mut &*s;
             if let Some(res) = parser(cursor) {
                 match res {
                     Ok(value) => {
-- 
2.43.0


From 0f9ea9490aefc5356ee6c0ff2b125a2763d8e8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:39 +0000
Subject: [PATCH 07/11] fix: include the variant in the path of a tracing
 decode error

---
 src/scale_impls/tracing_decoder/visitor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scale_impls/tracing_decoder/visitor.rs b/src/scale_impls/tracing_decoder/visitor.rs
index 180d7b9..56dd4a4 100644
--- a/src/scale_impls/tracing_decoder/visitor.rs
+++ b/src/scale_impls/tracing_decoder/visitor.rs
@@ -286,7 +286,7 @@ where
     ) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
         let variant_name = value.name();
         let path = self.path.at_variant(variant_name.to_owned());
-        let values = visit_composite(&self, value.fields());
+        let values = visit_composite(&self.at_path(path.clone()), value.fields());
         match values {
             Err(e) => {
                 let merged_error = e.with_outer_context(
-- 
2.43.0


From 463fcdd19d306b4277b11651ca704df3ce11983f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:38 +0000
Subject: [PATCH 08/11] fix: don't double the work for every layer of a value
 that can't be encoded

---
 src/scale_impls/encode.rs | 63 ++++++++++++++++++++++++++++-----------
 1 file changed, 45 insertions(+), 18 deletions(-)

diff --git a/src/scale_impls/encode.rs b/src/scale_impls/encode.rs
index 87ff03c..33e2bf2 100644
--- a/src/scale_impls/encode.rs
+++ b/src/scale_impls/encode.rs
@@ -82,7 +82,7 @@ impl<T> EncodeAsFields for Composite<T> {
 // sequences/arrays for instance.
 fn encode_composite<T, R: TypeResolver>(
     value: &Composite<T>,
-    mut type_id: R::TypeId,
+    type_id: R::TypeId,
     types: &R,
     out: &mut Vec<u8>,
 ) -> Result<(), Error> {
@@ -191,21 +191,23 @@ fn encode_composite<T, R: TypeResolver>(
         }
     };
 
+    let (inner_type_id, inner_is_different) =
+        find_single_entry_with_same_repr::<R>(type_id.clone(), types);
+    let only_value = get_only_value_from_composite(value);
+
     // Next, unwrap any newtype wrappers from our TypeInfo and try again. If we
     // can unwrap, then try to encode our Value to this immediately (this will work
     // if the Value provided already ignored all newtype wrappers). If we have nothing
-    // to unwrap then ignore this extra encode attempt.
+    // to unwrap then ignore this extra encode attempt. If it would only lead to the one
+    // entry in our Value being encoded instead, then leave this to the next step.
+    if inner_is_different
+        && !(only_value.is_some()
+            && encodes_only_value_instead::<R>(inner_type_id.clone(), types, false, false))
     {
-        let (inner_type_id, inner_is_different) =
-            find_single_entry_with_same_repr::<R>(type_id.clone(), types);
-        if inner_is_different {
-            let mut temp_out = Vec::new();
-            if let Ok(()) = do_encode_composite(value, inner_type_id.clone(), types, &mut temp_out)
-            {
-                out.extend_from_slice(&temp_out);
-                return Ok(());
-            }
-            type_id = inner_type_id;
+        let mut temp_out = Vec::new();
+        if let Ok(()) = do_encode_composite(value, inner_type_id.clone(), types, &mut temp_out) {
+            out.extend_from_slice(&temp_out);
+            return Ok(());
         }
     }
 
@@ -213,12 +215,19 @@ fn encode_composite<T, R: TypeResolver>(
     // ie contains just one value) to see if, after doing so, the thing can be successfully
     // encoded. The inner `.encode_as_type_to` will loop around and peel off another layer
     // etc if no luck. Ultimately we'll just return the original error below if this all
-    // fails.
-    if let Some(value) = get_only_value_from_composite(value) {
-        let mut temp_out = Vec::new();
-        if let Ok(()) = value.encode_as_type_to(type_id.clone(), types, &mut temp_out) {
-            out.extend_from_slice(&temp_out);
-            return Ok(());
+    // fails. Trying the same again when the first attempt above already did so would double
+    // the work for every layer, so avoid that.
+    if let Some(only_value) = only_value {
+        let is_named = matches!(value, Composite::Named(_));
+        let already_tried =
+            encodes_only_value_instead::<R>(type_id, types, is_named, inner_is_different)
+                && (!inner_is_different || matches!(only_value.value, ValueDef::Composite(_)));
+        if !already_tried {
+            let mut temp_out = Vec::new();
+            if let Ok(()) = only_value.encode_as_type_to(inner_type_id, types, &mut temp_out) {
+                out.extend_from_slice(&temp_out);
+                return Ok(());
+            }
         }
     }
 
@@ -226,6 +235,24 @@ fn encode_composite<T, R: TypeResolver>(
     Err(original_error)
 }
 
+/// When a composite containing just one value is encoded as-is to the type given, is that one value
+/// encoded to the type on its own, rather than as an entry of something? If the value's field is named
+/// then we may have tried to match it to some named field of (or wrapped up in) the type instead.
+fn encodes_only_value_instead<R: TypeResolver>(
+    type_id: R::TypeId,
+    types: &R,
+    is_named: bool,
+    is_wrapped: bool,
+) -> bool {
+    let visitor = scale_type_resolver::visitor::new((), |_, _| true)
+        .visit_composite(|_, _, _| !is_named)
+        .visit_tuple(|_, _| !(is_named && is_wrapped))
+        .visit_sequence(|_, _, _| false)
+        .visit_array(|_, _, _| false)
+        .visit_bit_sequence(|_, _, _| false);
+    types.resolve_type(type_id, visitor).unwrap_or(true)
+}
+
 /// Skip into the target type past any newtype wrapper like things.
 /// Also returns a bool indicating whether we skipped into something or not.
 /// This bool is true when the returned id is different from the id that was passed in.
-- 
2.43.0


From 8d12c19f46b649e8acd172b2c6e6f3143e6a08cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:42 +0000
Subject: [PATCH 09/11] fix: allow bit sequences to be deserialized into
 newtype structs

---
 src/serde_impls/deserializer.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/serde_impls/deserializer.rs b/src/serde_impls/deserializer.rs
index d25c600..1f9fb8b 100644
--- a/src/serde_impls/deserializer.rs
+++ b/src/serde_impls/deserializer.rs
@@ -253,8 +253,9 @@ impl<'de, T> Deserializer<'de> for ValueDef<T> {
         V: de::Visitor<'de>,
     {
         delegate_except_bitseq! { deserialize_newtype_struct(self, name, visitor),
-            _ => {
-                Err(DeserializerError::from_str("Cannot deserialize BitSequence into a newtype struct"))
+            seq => {
+                let inner = Value::without_context(ValueDef::<()>::BitSequence(seq));
+                visitor.visit_seq(de::value::SeqDeserializer::new(Some(inner).into_iter()))
             }
         }
     }
-- 
2.43.0


From d5a675ad3e741b372c0f7d7936c3d2efeb72c093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:05 +0000
Subject: [PATCH 10/11] fix: don't allocate based on unchecked size hints when
 deserializing

---
 src/serde_impls/bitvec_helpers.rs | 2 +-
 src/serde_impls/deserialize.rs    | 4 ++--
 src/serde_impls/mod.rs            | 6 ++++++
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/serde_impls/bitvec_helpers.rs b/src/serde_impls/bitvec_helpers.rs
index f3bec60..83488f6 100644
--- a/src/serde_impls/bitvec_helpers.rs
+++ b/src/serde_impls/bitvec_helpers.rs
@@ -88,7 +88,7 @@ impl<'de> Visitor<'de> for MapOrBitSeqVisitor {
         }
 
         // That didn't work, so decode the first value as a Value<()> instead:
-        let mut values = Vec::with_capacity(map.size_hint().unwrap_or(0));
+        let mut values = Vec::with_capacity(super::cautious_capacity(map.size_hint()));
         values.push((first_key, map.next_value()?));
 
         // .. and then decode all of the other key-value pairs and add them too:
diff --git a/src/serde_impls/deserialize.rs b/src/serde_impls/deserialize.rs
index d6ad924..6bfef6a 100644
--- a/src/serde_impls/deserialize.rs
+++ b/src/serde_impls/deserialize.rs
@@ -191,7 +191,7 @@ impl<'de> Visitor<'de> for CompositeVisitor {
     where
         A: serde::de::SeqAccess<'de>,
     {
-        let mut values = Vec::with_capacity(seq.size_hint().unwrap_or(0));
+        let mut values = Vec::with_capacity(super::cautious_capacity(seq.size_hint()));
         while let Some(value) = seq.next_element()? {
             values.push(value);
         }
@@ -202,7 +202,7 @@ impl<'de> Visitor<'de> for CompositeVisitor {
     where
         A: serde::de::MapAccess<'de>,
     {
-        let mut values = Vec::with_capacity(map.size_hint().unwrap_or(0));
+        let mut values = Vec::with_capacity(super::cautious_capacity(map.size_hint()));
         while let Some(key_val) = map.next_entry()? {
             values.push(key_val);
         }
diff --git a/src/serde_impls/mod.rs b/src/serde_impls/mod.rs
index efb4c79..2b66f8d 100644
--- a/src/serde_impls/mod.rs
+++ b/src/serde_impls/mod.rs
@@ -22,3 +22,9 @@ mod serializer;
 pub use deserializer::DeserializerError;
 
 pub use serializer::{SerializerError, ValueSerializer};
+
+/// The number of items to allocate space for up front given a size hint. The hint can come from
+/// untrusted input, so beyond this we only allocate space once we've seen the items.
+fn cautious_capacity(size_hint: Option<usize>) -> usize {
+    size_hint.unwrap_or(0).min(1024)
+}
-- 
2.43.0


From c876cbf1f0a46b4dcf2ecbb2c9a234ad561ab772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:51 +0000
Subject: [PATCH 11/11] fix: parse_ss58 panicked on long runs of leading '1's

base58 0.2 underflows when leading zero bytes and the number after them come to
more than 132 bytes, so decode the number alone and add the zero bytes here.
---
 src/string_impls/custom_parsers/ss58.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/string_impls/custom_parsers/ss58.rs b/src/string_impls/custom_parsers/ss58.rs
index b373604..60d7c13 100644
--- a/src/string_impls/custom_parsers/ss58.rs
+++ b/src/string_impls/custom_parsers/ss58.rs
@@ -57,9 +57,12 @@ fn parse_ss58_bytes(s: &mut &str) -> Option<Vec<u8>> {
         return None;
     }
 
-    // Attempt to base58-decode these chars.
+    // Attempt to base58-decode these chars. Leading '1's stand for leading zero bytes, which we
+    // add ourselves because `from_base58` panics if it is given too many of them.
     use base58::FromBase58;
-    let Ok(bytes) = maybe_ss58.from_base58() else { return None };
+    let digits = maybe_ss58.trim_start_matches('1');
+    let mut bytes = vec![0; maybe_ss58.len() - digits.len()];
+    bytes.extend(digits.from_base58().ok()?);
 
     // decode length of address prefix.
     let prefix_len = match bytes.first() {
-- 
2.43.0

