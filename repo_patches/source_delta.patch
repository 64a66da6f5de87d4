From ae12068ded14ef9d583365f2ebb937b04ba9bd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:31 +0000
Subject: [PATCH 01/16] fix: as_i64/as_i32 must not wrap large positive
 integers

A non-negative INTEGER above i64::MAX (i32::MAX) was cast to a negative number.
---
 src/ber/ber.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ber/ber.rs b/src/ber/ber.rs
index 47bb2d6..590dcab 100644
--- a/src/ber/ber.rs
+++ b/src/ber/ber.rs
@@ -414,7 +414,8 @@ impl<'a> BerObjectContent<'a> {
             let result = if is_highest_bit_set(bytes) {
                 <i64>::from_be_bytes(decode_array_int8(bytes)?)
             } else {
-                <u64>::from_be_bytes(decode_array_uint8(bytes)?) as i64
+                let u = <u64>::from_be_bytes(decode_array_uint8(bytes)?);
+                i64::try_from(u).or(Err(BerError::IntegerTooLarge))?
             };
             Ok(result)
         } else {
@@ -441,7 +442,8 @@ impl<'a> BerObjectContent<'a> {
             let result = if is_highest_bit_set(bytes) {
                 <i32>::from_be_bytes(decode_array_int4(bytes)?)
             } else {
-                <u32>::from_be_bytes(decode_array_uint4(bytes)?) as i32
+                let u = <u32>::from_be_bytes(decode_array_uint4(bytes)?);
+                i32::try_from(u).or(Err(BerError::IntegerTooLarge))?
             };
             Ok(result)
         } else {
-- 
2.43.0


From 0ee688e21d225a00588da0c309577e794bf41016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:31 +0000
Subject: [PATCH 02/16] fix: do not recurse once per leading zero octet of an
 INTEGER

An INTEGER with many leading zeroes overflowed the stack in remove_zeroes.
---
 src/ber/integer.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/ber/integer.rs b/src/ber/integer.rs
index 2ddb2a0..fc4d0bb 100644
--- a/src/ber/integer.rs
+++ b/src/ber/integer.rs
@@ -5,16 +5,15 @@ use crate::error::*;
 ///
 /// Returns a byte array of the requested size containing a big endian integer.
 fn remove_zeroes(bytes: &[u8]) -> Result<&[u8], BerError> {
-    // skip leading 0s
-    match bytes {
-        // [] => Err(BerError::DerConstraintFailed),
-        [0] => Ok(bytes),
-        // [0, byte, ..] if *byte < 0x80 => Err(BerError::DerConstraintFailed),
-        // [0, rest @ ..] => Ok(&rest),
-        [0, rest @ ..] => remove_zeroes(rest),
-        // [byte, ..] if *byte >= 0x80 => Err(BerError::IntegerTooLarge),
-        _ => Ok(bytes),
+    // skip leading 0s (iteratively: the number of zeroes is chosen by the input)
+    let mut bytes = bytes;
+    while let [0, rest @ ..] = bytes {
+        if rest.is_empty() {
+            break;
+        }
+        bytes = rest;
     }
+    Ok(bytes)
 }
 
 // XXX const generics require rustc >= 1.51
-- 
2.43.0


From 6be9fd3c22f5d70f7cb14f28071fc772af91ccb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:31 +0000
Subject: [PATCH 03/16] fix: EndOfContent has no content octets

It was serialized as 00 01 00 instead of 00 00.
---
 src/ber/serialize.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ber/serialize.rs b/src/ber/serialize.rs
index d446805..39f08af 100644
--- a/src/ber/serialize.rs
+++ b/src/ber/serialize.rs
@@ -117,7 +117,7 @@ fn ber_encode_object_content<'a, W: Write + Default + AsRef<[u8]> + 'a>(
     c: &'a BerObjectContent,
 ) -> impl SerializeFn<W> + 'a {
     move |out| match c {
-        BerObjectContent::EndOfContent => be_u8(0)(out),
+        BerObjectContent::EndOfContent => Ok(out),
         BerObjectContent::Boolean(b) => {
             let b0 = if *b { 0xff } else { 0x00 };
             be_u8(b0)(out)
-- 
2.43.0


From 0ad73bf571c1eccc0d00ca4f9e896ca559c326f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:31 +0000
Subject: [PATCH 04/16] fix: encode ENUMERATED 0 and values with the top bit
 set

Enum(0) was written without any content octet, and Enum(128) as the
encoding of -128.
---
 src/ber/serialize.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ber/serialize.rs b/src/ber/serialize.rs
index 39f08af..8a95306 100644
--- a/src/ber/serialize.rs
+++ b/src/ber/serialize.rs
@@ -135,7 +135,12 @@ fn ber_encode_object_content<'a, W: Write + Default + AsRef<[u8]> + 'a>(
                 .cloned()
                 .skip_while(|&b| b == 0)
                 .collect();
-            slice(v)(out)
+            // at least one octet, and the value is not negative (X.690 8.4, 8.3)
+            if v.first().map_or(true, |&b| b >= 0x80) {
+                tuple((be_u8(0), slice(v)))(out)
+            } else {
+                slice(v)(out)
+            }
         }
         BerObjectContent::OID(oid) | BerObjectContent::RelativeOID(oid) => ber_encode_oid(oid)(out),
         BerObjectContent::UTCTime(time) | BerObjectContent::GeneralizedTime(time) => {
-- 
2.43.0


From deec86f11d7dcf2b09cc270a3bb50a621ea4faf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:31 +0000
Subject: [PATCH 05/16] fix: an absent optional value has no encoding

Optional(None) was serialized as an end-of-contents marker (00 00).
---
 src/ber/serialize.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ber/serialize.rs b/src/ber/serialize.rs
index 8a95306..a7e03e5 100644
--- a/src/ber/serialize.rs
+++ b/src/ber/serialize.rs
@@ -203,6 +203,10 @@ pub fn ber_encode_object<'a, 'b: 'a, W: Write + Default + AsRef<[u8]> + 'a>(
     obj: &'b BerObject,
 ) -> impl SerializeFn<W> + 'a {
     move |out| {
+        if let BerObjectContent::Optional(None) = obj.content {
+            // absent value: nothing to encode
+            return Ok(out);
+        }
         // XXX should we make an exception for tagged values here ?
         let v = gen_simple(ber_encode_object_content(&obj.content), W::default())?;
         let len = v.as_ref().len();
-- 
2.43.0


From 49a2bb978bfcfd3daf68fcbc0b79fbb81a3fdeb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:31 +0000
Subject: [PATCH 06/16] fix: encode high tag numbers instead of panicking

ber_encode_header hit unimplemented!() for tags above 30, which parsed
objects can carry.
---
 src/ber/serialize.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/ber/serialize.rs b/src/ber/serialize.rs
index a7e03e5..5f6a74d 100644
--- a/src/ber/serialize.rs
+++ b/src/ber/serialize.rs
@@ -44,10 +44,18 @@ pub fn ber_encode_header<'a, 'b: 'a, W: Write + 'a>(hdr: &'b Header) -> impl Ser
         // identifier octets (X.690 8.1.2)
         let class_u8 = (hdr.class() as u8) << 6;
         let pc_u8 = (if hdr.constructed() { 1 } else { 0 }) << 5;
-        if hdr.tag().0 > 30 {
-            unimplemented!();
+        let tag = hdr.tag().0;
+        if tag > 30 {
+            // high-tag-number form (X.690 8.1.2.4)
+            let byte_0 = class_u8 | pc_u8 | 0b0001_1111;
+            let v: Vec<u8> = [28, 21, 14, 7, 0]
+                .iter()
+                .filter(|&&n| n == 0 || (tag >> n) != 0)
+                .map(|&n| ((tag >> n) & 0x7f) as u8 | if n == 0 { 0 } else { 0x80 })
+                .collect();
+            return tuple((be_u8(byte_0), slice(v), encode_length(hdr.length())))(out);
         }
-        let byte_0 = class_u8 | pc_u8 | (hdr.tag().0 as u8);
+        let byte_0 = class_u8 | pc_u8 | (tag as u8);
         // length octets (X.690 8.1.3)
         tuple((be_u8(byte_0), encode_length(hdr.length())))(out)
     }
-- 
2.43.0


From d47c20e9c5e1f0e34c61f9acc46755b1409663d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:31 +0000
Subject: [PATCH 07/16] fix: iterating over an empty SEQUENCE or SET yields
 nothing

The consuming iterator returned the empty container itself once.
---
 src/ber/ber.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ber/ber.rs b/src/ber/ber.rs
index 590dcab..322b2ab 100644
--- a/src/ber/ber.rs
+++ b/src/ber/ber.rs
@@ -788,6 +788,7 @@ impl<'a> Iterator for BerObjectIntoIterator<'a> {
         let res = match self.val.content {
             BerObjectContent::Sequence(ref v) if self.idx < v.len() => Some(v[self.idx].clone()),
             BerObjectContent::Set(ref v) if self.idx < v.len() => Some(v[self.idx].clone()),
+            BerObjectContent::Sequence(_) | BerObjectContent::Set(_) => None,
             _ => {
                 if self.idx == 0 {
                     Some(self.val.clone())
-- 
2.43.0


From 2b6718d9cef9a7a87ed1e289f49412f88f27a6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:31 +0000
Subject: [PATCH 08/16] fix: only a universal-class element can be an
 end-of-contents marker

An empty [0] element inside an indefinite-length value ended that value.
---
 src/ber/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ber/parser.rs b/src/ber/parser.rs
index 7aea9cd..6851a94 100644
--- a/src/ber/parser.rs
+++ b/src/ber/parser.rs
@@ -21,7 +21,7 @@ pub(crate) fn ber_skip_object_content<'a>(
     }
     match hdr.length() {
         Length::Definite(l) => {
-            if l == 0 && hdr.tag() == Tag::EndOfContent {
+            if l == 0 && hdr.tag() == Tag::EndOfContent && hdr.is_universal() {
                 return Ok((i, true));
             }
             let (i, _) = take(l)(i)?;
-- 
2.43.0


From ee8941654fabacd951ded9b900134cf09cb0cbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:31 +0000
Subject: [PATCH 09/16] fix: DER does not allow constructed OCTET STRING (X.690
 10.2)

---
 src/der/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/der/parser.rs b/src/der/parser.rs
index 9a35b64..7e19b34 100644
--- a/src/der/parser.rs
+++ b/src/der/parser.rs
@@ -521,7 +521,8 @@ pub fn der_read_element_content_as(
                 _ => (),
             }
         }
-        Tag::NumericString
+        Tag::OctetString
+        | Tag::NumericString
         | Tag::VisibleString
         | Tag::PrintableString
         | Tag::Ia5String
-- 
2.43.0


From a690672596cdd2df41f73924c839795c3d81e0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:31 +0000
Subject: [PATCH 10/16] fix: reject an empty DER BIT STRING with a nonzero
 unused-bit count

---
 src/der/parser.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/der/parser.rs b/src/der/parser.rs
index 7e19b34..b56dc6e 100644
--- a/src/der/parser.rs
+++ b/src/der/parser.rs
@@ -601,6 +601,12 @@ fn der_read_content_bitstring(i: &[u8], len: usize) -> BerResult<'_, DerObjectCo
             der_constraint_fail_if!(i, last_byte & 1 != 0, DerConstraint::UnusedBitsNotZero);
             last_byte >>= 1;
         }
+    } else if ignored_bits != 0 {
+        // an empty bit string has no unused bits (X.690 8.6.2.3)
+        return Err(Err::Error(BerError::invalid_value(
+            Tag::BitString,
+            "Unused bits in empty bit string".to_owned(),
+        )));
     }
     Ok((
         i,
-- 
2.43.0


From 6bb2af62ef84271dffa753538e4f08c46d01f2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:31 +0000
Subject: [PATCH 11/16] fix: DER tagged parsers must read a DER header

parse_der_explicit_optional and parse_der_implicit delegated to the BER
versions and accepted indefinite and non-minimal lengths.
---
 src/der/parser.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/der/parser.rs b/src/der/parser.rs
index b56dc6e..cfe7151 100644
--- a/src/der/parser.rs
+++ b/src/der/parser.rs
@@ -313,7 +313,12 @@ pub fn parse_der_explicit_optional<F>(i: &[u8], tag: Tag, f: F) -> DerResult<'_>
 where
     F: Fn(&[u8]) -> DerResult,
 {
-    parse_ber_explicit_optional(i, tag, f)
+    parse_ber_optional(parse_der_tagged_explicit_g(tag, |content, hdr| {
+        let (rem, obj) = f(content)?;
+        let content = DerObjectContent::Tagged(hdr.class(), hdr.tag(), Box::new(obj));
+        let tagged = DerObject::from_header_and_content(hdr, content);
+        Ok((rem, tagged))
+    }))(i)
 }
 
 /// Parse an implicit tagged object, applying function to read content
@@ -361,7 +366,7 @@ where
     F: Fn(&'a [u8], &'_ Header, usize) -> BerResult<'a, DerObjectContent<'a>>,
     T: Into<Tag>,
 {
-    parse_ber_implicit(i, tag, f)
+    parse_der_tagged_implicit(tag, f)(i)
 }
 
 /// Parse DER object and try to decode it as a 32-bits signed integer
-- 
2.43.0


From 90e7b1ad96d7b84a561068cb30094cc6dd7867a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:15 +0000
Subject: [PATCH 12/16] fix: DER BIT STRING must respect an exhausted depth
 budget

der_read_element_content_as returned a bit string even for max_depth 0.
---
 src/der/parser.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/der/parser.rs b/src/der/parser.rs
index cfe7151..0c71787 100644
--- a/src/der/parser.rs
+++ b/src/der/parser.rs
@@ -495,6 +495,7 @@ pub fn der_read_element_content_as(
     if i.len() < l {
         return Err(Err::Incomplete(Needed::new(l)));
     }
+    custom_check!(i, max_depth == 0, BerError::BerMaxDepth)?;
     match tag {
         Tag::Boolean => {
             custom_check!(i, l != 1, BerError::InvalidLength)?;
-- 
2.43.0


From 4ba69500ff21a219648f70ef0570307e64411c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:15 +0000
Subject: [PATCH 13/16] fix: elements nested in a DER SEQUENCE or SET must be
 DER

parse_der applied the DER rules to the outermost element only; children
were parsed as BER (indefinite lengths, any BOOLEAN, padding bits...).
---
 src/der/parser.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/der/parser.rs b/src/der/parser.rs
index 0c71787..3c779a7 100644
--- a/src/der/parser.rs
+++ b/src/der/parser.rs
@@ -3,6 +3,7 @@ use crate::der::*;
 use crate::der_constraint_fail_if;
 use crate::error::*;
 use alloc::borrow::ToOwned;
+use alloc::vec::Vec;
 use asn1_rs::{Any, FromDer};
 use nom::bytes::streaming::take;
 use nom::number::streaming::be_u8;
@@ -542,6 +543,24 @@ pub fn der_read_element_content_as(
         | Tag::GeneralString => {
             der_constraint_fail_if!(i, constructed, DerConstraint::Constructed);
         }
+        Tag::Sequence | Tag::Set => {
+            custom_check!(i, l > MAX_OBJECT_SIZE, BerError::InvalidLength)?;
+            custom_check!(i, !constructed, BerError::ConstructExpected)?;
+            // exception: nested elements must also follow the DER rules
+            let (rem, mut data) = take(l)(i)?;
+            let mut objects = Vec::new();
+            while !data.is_empty() {
+                let (i2, obj) = parse_der_recursive(data, max_depth - 1)?;
+                objects.push(obj);
+                data = i2;
+            }
+            let content = if tag == Tag::Sequence {
+                DerObjectContent::Sequence(objects)
+            } else {
+                DerObjectContent::Set(objects)
+            };
+            return Ok((rem, content));
+        }
         Tag::UtcTime | Tag::GeneralizedTime => {
             if l == 0 || i.get(l - 1).cloned() != Some(b'Z') {
                 return Err(Err::Error(BerError::DerConstraintFailed(
-- 
2.43.0


From c499af8e4c212b1892ac2a06022c65886fab4fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:15 +0000
Subject: [PATCH 14/16] fix: TryFrom<Any> must accept indefinite-length and
 non-universal elements

The end-of-contents marker is not part of Any::data, and the class was
ignored: [1] was read as a BOOLEAN.
---
 src/ber/ber.rs | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/ber/ber.rs b/src/ber/ber.rs
index 322b2ab..3c1eab3 100644
--- a/src/ber/ber.rs
+++ b/src/ber/ber.rs
@@ -727,16 +727,7 @@ impl<'a> TryFrom<Any<'a>> for BerObject<'a> {
     type Error = asn1_rs::Error;
 
     fn try_from(any: Any<'a>) -> Result<Self, Self::Error> {
-        let (header, data) = (any.header, any.data);
-        let (_, content) = ber_read_element_content_as(
-            data,
-            header.tag(),
-            header.length(),
-            header.constructed(),
-            MAX_RECURSION,
-        )?;
-        let obj = BerObject::from_header_and_content(header, content);
-        Ok(obj)
+        BerObject::try_from(&any)
     }
 }
 
@@ -745,10 +736,15 @@ impl<'a, 'b> TryFrom<&'b Any<'a>> for BerObject<'a> {
 
     fn try_from(any: &'b Any<'a>) -> Result<Self, Self::Error> {
         let (header, data) = (any.header.clone(), any.data);
+        if header.class() != Class::Universal {
+            let content = BerObjectContent::Unknown(any.clone());
+            return Ok(BerObject::from_header_and_content(header, content));
+        }
+        // the content was already extracted, without the end-of-contents marker if any
         let (_, content) = ber_read_element_content_as(
             data,
             header.tag(),
-            header.length(),
+            Length::Definite(data.len()),
             header.constructed(),
             MAX_RECURSION,
         )?;
-- 
2.43.0


From dd626e7ae1cc2fe10cd6dea23b42c3f217dc7539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:25 +0000
Subject: [PATCH 15/16] fix: MAX_OBJECT_SIZE applies to every DER type,
 including BIT STRING

---
 src/der/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/der/parser.rs b/src/der/parser.rs
index 3c779a7..a877839 100644
--- a/src/der/parser.rs
+++ b/src/der/parser.rs
@@ -493,6 +493,7 @@ pub fn der_read_element_content_as(
 ) -> BerResult<'_, DerObjectContent<'_>> {
     // Indefinite lengths are not allowed in DER (X.690 section 10.1)
     let l = length.definite()?;
+    custom_check!(i, l > MAX_OBJECT_SIZE, BerError::InvalidLength)?;
     if i.len() < l {
         return Err(Err::Incomplete(Needed::new(l)));
     }
@@ -544,7 +545,6 @@ pub fn der_read_element_content_as(
             der_constraint_fail_if!(i, constructed, DerConstraint::Constructed);
         }
         Tag::Sequence | Tag::Set => {
-            custom_check!(i, l > MAX_OBJECT_SIZE, BerError::InvalidLength)?;
             custom_check!(i, !constructed, BerError::ConstructExpected)?;
             // exception: nested elements must also follow the DER rules
             let (rem, mut data) = take(l)(i)?;
-- 
2.43.0


From 9d52b21e190de99c30f2a7ff5749a6c849049b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:33 +0000
Subject: [PATCH 16/16] fix: der-oid-macro: reject first components whose
 combined value overflows

---
 der-oid-macro/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/der-oid-macro/src/lib.rs b/der-oid-macro/src/lib.rs
index afac8c2..85495ba 100644
--- a/der-oid-macro/src/lib.rs
+++ b/der-oid-macro/src/lib.rs
@@ -15,7 +15,11 @@ fn encode_components(components: &[num_bigint::BigUint], relative: bool) -> Vec<
         if dec[0] >= 7u8.into() || dec[1] >= 40u8.into() {
             panic!("First components are too big");
         }
-        enc.push(dec[0].to_u8().unwrap() * 40 + dec[1].to_u8().unwrap());
+        let first = dec[0].to_u8().unwrap() * 40;
+        match first.checked_add(dec[1].to_u8().unwrap()) {
+            Some(first) => enc.push(first),
+            None => panic!("First components are too big"),
+        }
         dec = &dec[2..];
     }
 
-- 
2.43.0

