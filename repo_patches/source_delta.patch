From 11a8c30b00a45254ef7f3853bb6f5b5b14ec6c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:23 +0000
Subject: [PATCH 01/46] fix: reject Boolean content of wrong length in DER
 constraints check instead of panicking

---
 src/asn1_types/boolean.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/asn1_types/boolean.rs b/src/asn1_types/boolean.rs
index e23d8fd..d3b48ea 100644
--- a/src/asn1_types/boolean.rs
+++ b/src/asn1_types/boolean.rs
@@ -74,12 +74,12 @@ impl<'i> DerParser<'i> for Boolean {
 
 impl CheckDerConstraints for Boolean {
     fn check_constraints(any: &Any) -> Result<()> {
-        let c = any.data.as_bytes()[0];
-        // X.690 section 11.1
-        if !(c == 0 || c == 0xff) {
-            return Err(Error::DerConstraintFailed(DerConstraint::InvalidBoolean));
+        // content shall be a single octet, 0x00 or 0xff (X.690 sections 8.2.1 and 11.1)
+        match any.data.as_bytes() {
+            [0x00] | [0xff] => Ok(()),
+            [_] => Err(Error::DerConstraintFailed(DerConstraint::InvalidBoolean)),
+            _ => Err(Error::InvalidLength),
         }
-        Ok(())
     }
 }
 
@@ -135,12 +135,12 @@ impl_tryfrom_any!(bool);
 
 impl CheckDerConstraints for bool {
     fn check_constraints(any: &Any) -> Result<()> {
-        let c = any.data.as_bytes()[0];
-        // X.690 section 11.1
-        if !(c == 0 || c == 0xff) {
-            return Err(Error::DerConstraintFailed(DerConstraint::InvalidBoolean));
+        // content shall be a single octet, 0x00 or 0xff (X.690 sections 8.2.1 and 11.1)
+        match any.data.as_bytes() {
+            [0x00] | [0xff] => Ok(()),
+            [_] => Err(Error::DerConstraintFailed(DerConstraint::InvalidBoolean)),
+            _ => Err(Error::InvalidLength),
         }
-        Ok(())
     }
 }
 
-- 
2.43.0


From 6f8837c1bbe0f357a81cd5a13b3b8dc57399e261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:23 +0000
Subject: [PATCH 02/46] fix: compute the size of long-form lengths above
 0xff_ffff

---
 src/to_ber.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/to_ber.rs b/src/to_ber.rs
index fb6482b..9c8f844 100644
--- a/src/to_ber.rs
+++ b/src/to_ber.rs
@@ -174,8 +174,9 @@ pub fn ber_length_length(length: Length) -> Result<usize, InnerError> {
             0..=0x7f => Ok(1),
             0x80..=0xff => Ok(2),
             0x100..=0xffff => Ok(3),
-            0x1_0000..=0xffff_ffff => Ok(4),
-            _ => Err(InnerError::InvalidLength),
+            0x1_0000..=0xff_ffff => Ok(4),
+            // long form: one octet, followed by the minimal big-endian encoding of the length
+            _ => Ok(1 + ((usize::BITS - l.leading_zeros()) as usize + 7) / 8),
         },
     }
 }
-- 
2.43.0


From 19ec528236eb2fc46bd1525a32e74a021c92062f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:23 +0000
Subject: [PATCH 03/46] fix: do not extract object content twice for OPTIONAL
 values

---
 src/asn1_types/optional.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/asn1_types/optional.rs b/src/asn1_types/optional.rs
index 49cb61a..7b1098f 100644
--- a/src/asn1_types/optional.rs
+++ b/src/asn1_types/optional.rs
@@ -70,9 +70,8 @@ where
         if !T::accept_tag(header.tag) {
             return Ok((input, None));
         }
-        let (rem, data) =
-            BerMode::get_object_content(header, input, MAX_RECURSION).map_err(Err::convert)?;
-        let (_, obj) = T::from_ber_content(header, data).map_err(Err::convert)?;
+        // note: `input` is the object content
+        let (rem, obj) = T::from_ber_content(header, input)?;
         Ok((rem, Some(obj)))
     }
 }
@@ -114,9 +113,8 @@ where
         if !T::accept_tag(header.tag) {
             return Ok((input, None));
         }
-        let (rem, data) =
-            BerMode::get_object_content(header, input, MAX_RECURSION).map_err(Err::convert)?;
-        let (_, obj) = T::from_der_content(header, data).map_err(Err::convert)?;
+        // note: `input` is the object content
+        let (rem, obj) = T::from_der_content(header, input)?;
         Ok((rem, Some(obj)))
     }
 }
-- 
2.43.0


From e15bb1320ca6dfdd0874e2b043f7ff83e53c3e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:36 +0000
Subject: [PATCH 04/46] fix: infinite recursion in DynTagged::tag for OPTIONAL
 values

---
 src/asn1_types/optional.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/asn1_types/optional.rs b/src/asn1_types/optional.rs
index 7b1098f..0786aee 100644
--- a/src/asn1_types/optional.rs
+++ b/src/asn1_types/optional.rs
@@ -154,11 +154,24 @@ impl<T> DynTagged for Option<T>
 where
     T: DynTagged,
 {
+    fn class(&self) -> Class {
+        match self {
+            Some(t) => t.class(),
+            None => Class::Universal,
+        }
+    }
+
+    fn constructed(&self) -> bool {
+        match self {
+            Some(t) => t.constructed(),
+            None => false,
+        }
+    }
+
     fn tag(&self) -> Tag {
-        if self.is_some() {
-            self.tag()
-        } else {
-            Tag(0)
+        match self {
+            Some(t) => t.tag(),
+            None => Tag(0),
         }
     }
 
-- 
2.43.0


From 7be1b25068deed51ad1ea21755948c6cb58ca832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:36 +0000
Subject: [PATCH 05/46] fix: total length of an absent OPTIONAL value is 0

---
 src/asn1_types/optional.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/asn1_types/optional.rs b/src/asn1_types/optional.rs
index 0786aee..6d5683c 100644
--- a/src/asn1_types/optional.rs
+++ b/src/asn1_types/optional.rs
@@ -197,6 +197,14 @@ const _: () = {
             }
         }
 
+        fn ber_total_len(&self) -> Length {
+            match self {
+                Some(t) => t.ber_total_len(),
+                // an absent value is not encoded
+                None => Length::Definite(0),
+            }
+        }
+
         fn ber_write_content<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
             match self {
                 Some(t) => t.ber_write_content(target),
@@ -229,6 +237,14 @@ const _: () = {
             }
         }
 
+        fn der_total_len(&self) -> Length {
+            match self {
+                Some(t) => t.der_total_len(),
+                // an absent value is not encoded
+                None => Length::Definite(0),
+            }
+        }
+
         fn der_write_content<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
             match self {
                 Some(t) => t.der_write_content(target),
-- 
2.43.0


From 84628d78bfae3419bdd17cf4e7d478dc149706f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:13 +0000
Subject: [PATCH 06/46] fix: reject long-form tag numbers larger than u32::MAX
 instead of truncating them

---
 src/header.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/header.rs b/src/header.rs
index 1be4e9a..2385da9 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -521,6 +521,10 @@ pub(crate) fn parse_header(
             if tag_byte_count > 5 {
                 return Err(BerError::nom_err_input(&input, InnerError::InvalidTag));
             }
+            // Reject tags that do not fit in u32 (do not silently drop high-order bits)
+            if c > (u32::MAX >> 7) {
+                return Err(BerError::nom_err_input(&input, InnerError::InvalidTag));
+            }
 
             c = (c << 7) | (u32::from(b) & 0x7f);
             let done = b & 0x80 == 0;
-- 
2.43.0


From 7478d1736dfa2b75166807e8d393d6901da79955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:13 +0000
Subject: [PATCH 07/46] fix: only a universal primitive header is
 End-of-contents

---
 src/ber/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ber/parser.rs b/src/ber/parser.rs
index a12a84e..c2f48fb 100644
--- a/src/ber/parser.rs
+++ b/src/ber/parser.rs
@@ -93,7 +93,7 @@ fn ber_skip_object_content<'a>(
     }
     match hdr.length {
         Length::Definite(l) => {
-            if l == 0 && hdr.tag == Tag::EndOfContent {
+            if l == 0 && hdr.tag == Tag::EndOfContent && hdr.is_universal() && hdr.is_primitive() {
                 return Ok((i, true));
             }
             let (i, _) = take(l)(i)?;
-- 
2.43.0


From 7e9883983f61bac25f9be0c7f6f8be32458c5112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:49 +0000
Subject: [PATCH 08/46] fix: BmpString/UniversalString: swapped handling of
 primitive and constructed encodings

---
 src/asn1_types/strings/bmpstring.rs       | 2 +-
 src/asn1_types/strings/universalstring.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/asn1_types/strings/bmpstring.rs b/src/asn1_types/strings/bmpstring.rs
index c53ee4f..7b7b76f 100644
--- a/src/asn1_types/strings/bmpstring.rs
+++ b/src/asn1_types/strings/bmpstring.rs
@@ -60,7 +60,7 @@ impl<'i> BerParser<'i> for BmpString<'i> {
         input: Input<'i>,
     ) -> IResult<Input<'i>, Self, Self::Error> {
         // Encoding shall either be primitive or constructed (X.690: 8.20)
-        let (rem, data) = if header.is_constructed() {
+        let (rem, data) = if !header.is_constructed() {
             let (rem, data) = input.take_split(input.len());
             (rem, Cow::Borrowed(data.as_bytes2()))
         } else {
diff --git a/src/asn1_types/strings/universalstring.rs b/src/asn1_types/strings/universalstring.rs
index 3da718c..ce40d2c 100644
--- a/src/asn1_types/strings/universalstring.rs
+++ b/src/asn1_types/strings/universalstring.rs
@@ -60,7 +60,7 @@ impl<'i> BerParser<'i> for UniversalString<'i> {
         input: Input<'i>,
     ) -> IResult<Input<'i>, Self, Self::Error> {
         // Encoding shall either be primitive or constructed (X.690: 8.20)
-        let (rem, data) = if header.is_constructed() {
+        let (rem, data) = if !header.is_constructed() {
             let (rem, data) = input.take_split(input.len());
             (rem, Cow::Borrowed(data.as_bytes2()))
         } else {
-- 
2.43.0


From 814e5970aa7de9ff4433a0d01b10da649d345392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:49 +0000
Subject: [PATCH 09/46] fix: reject BmpString content with an odd number of
 octets

---
 src/asn1_types/strings/bmpstring.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/asn1_types/strings/bmpstring.rs b/src/asn1_types/strings/bmpstring.rs
index 7b7b76f..3c387b3 100644
--- a/src/asn1_types/strings/bmpstring.rs
+++ b/src/asn1_types/strings/bmpstring.rs
@@ -70,13 +70,19 @@ impl<'i> BerParser<'i> for BmpString<'i> {
             (rem, s)
         };
 
+        if data.len() % 2 != 0 {
+            return Err(BerError::nom_err_input(
+                &rem,
+                InnerError::StringInvalidCharset,
+            ));
+        }
+
         // read slice as big-endian UTF-16 string
         let v = data
             .as_ref()
             .chunks(2)
             .map(|s| match s {
                 [a, b] => ((*a as u16) << 8) | (*b as u16),
-                [a] => *a as u16,
                 _ => unreachable!(),
             })
             .collect::<Vec<_>>();
-- 
2.43.0


From d04993cdefd5832e50d9a2f7eb3bd556824a9fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:49 +0000
Subject: [PATCH 10/46] fix: UniversalString content length is 4 octets per
 character, not per UTF-8 byte

---
 src/asn1_types/strings/universalstring.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/asn1_types/strings/universalstring.rs b/src/asn1_types/strings/universalstring.rs
index ce40d2c..623f4c0 100644
--- a/src/asn1_types/strings/universalstring.rs
+++ b/src/asn1_types/strings/universalstring.rs
@@ -137,15 +137,17 @@ const _: () = {
 
         fn ber_content_len(&self) -> Length {
             // UCS-4: 4 bytes per character
-            let sz = self.data.len() * 4;
+            let sz = self.data.chars().count() * 4;
             Length::Definite(sz)
         }
 
         fn ber_write_content<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
-            self.data
-                .chars()
-                .try_for_each(|c| target.write_all(&(c as u32).to_be_bytes()[..]))?;
-            Ok(self.data.len() * 4)
+            let mut sz = 0;
+            for c in self.data.chars() {
+                target.write_all(&(c as u32).to_be_bytes()[..])?;
+                sz += 4;
+            }
+            Ok(sz)
         }
 
         fn ber_tag_info(&self) -> (Class, bool, Tag) {
-- 
2.43.0


From cc904c0eaa8e2e8e1c733b06efa41ba3ecfd0492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:49 +0000
Subject: [PATCH 11/46] fix: SetOf is a constructed type

---
 src/asn1_types/set/set_of.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/asn1_types/set/set_of.rs b/src/asn1_types/set/set_of.rs
index 396fc87..08057fd 100644
--- a/src/asn1_types/set/set_of.rs
+++ b/src/asn1_types/set/set_of.rs
@@ -198,6 +198,7 @@ where
 }
 
 impl<T> Tagged for SetOf<T> {
+    const CONSTRUCTED: bool = true;
     const TAG: Tag = Tag::Set;
 }
 
-- 
2.43.0


From ba7852c42db12ad7df1fa579ffedb9fe4a539e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:00 +0000
Subject: [PATCH 12/46] fix: VisibleString does not contain DEL (0x7f)

---
 src/asn1_types/strings/visiblestring.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asn1_types/strings/visiblestring.rs b/src/asn1_types/strings/visiblestring.rs
index 13c6ca8..9112561 100644
--- a/src/asn1_types/strings/visiblestring.rs
+++ b/src/asn1_types/strings/visiblestring.rs
@@ -9,7 +9,7 @@ impl TestValidCharset for VisibleString<'_> {
     fn test_valid_charset(i: &[u8]) -> Result<()> {
         #[allow(clippy::trivially_copy_pass_by_ref)]
         fn is_visible(b: &u8) -> bool {
-            0x20 <= *b && *b <= 0x7f
+            0x20 <= *b && *b <= 0x7e
         }
         if !i.iter().all(is_visible) {
             return Err(Error::StringInvalidCharset);
-- 
2.43.0


From 5d73f75c6c9ee5edfa94e03a252ef0a77d0c5980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:00 +0000
Subject: [PATCH 13/46] fix: int! macro: encode zero and values with the high
 bit set

---
 impl/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/impl/src/lib.rs b/impl/src/lib.rs
index ea635cc..59cf42c 100644
--- a/impl/src/lib.rs
+++ b/impl/src/lib.rs
@@ -114,7 +114,11 @@ fn impl_encode_int(lit: LitInt) -> Result<TokenStream, Error> {
     let value = lit.base10_parse::<u64>()?;
 
     let bytes = value.to_be_bytes();
-    let v: Vec<_> = bytes.iter().skip_while(|&c| *c == 0).collect();
+    let mut v: Vec<u8> = bytes.iter().copied().skip_while(|&c| c == 0).collect();
+    // content cannot be empty, and a leading 0 is required if the high bit is set (value is positive)
+    if v.first().map_or(true, |&c| c >= 0x80) {
+        v.insert(0, 0);
+    }
 
     let mut s = String::with_capacity(2 + 6 * v.len());
     s.push('[');
-- 
2.43.0


From 7edef2eb2299a50592c57c1e8129d97b4f75028a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:00 +0000
Subject: [PATCH 14/46] fix: reject empty INTEGER content when decoding
 primitive integer types

---
 src/asn1_types/integer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/asn1_types/integer.rs b/src/asn1_types/integer.rs
index ffc581e..4058963 100644
--- a/src/asn1_types/integer.rs
+++ b/src/asn1_types/integer.rs
@@ -41,6 +41,10 @@ fn trim_slice(bytes: &[u8]) -> &[u8] {
 /// Decode an unsigned integer into a byte array of the requested size
 /// containing a big endian integer.
 fn decode_array_uint<const N: usize>(bytes: &[u8]) -> Result<[u8; N]> {
+    // contents shall consist of one or more octets (X.690: 8.3.1)
+    if bytes.is_empty() {
+        return Err(Error::InvalidLength);
+    }
     if is_highest_bit_set(bytes) {
         return Err(Error::IntegerNegative);
     }
-- 
2.43.0


From 62a806581d7b6af680e4e0fc9cb07f36f0d18753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:00 +0000
Subject: [PATCH 15/46] fix: DerParser for BitString: check that unused bits
 are zero

---
 src/asn1_types/bitstring.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/asn1_types/bitstring.rs b/src/asn1_types/bitstring.rs
index f7e93f6..b74a1e6 100644
--- a/src/asn1_types/bitstring.rs
+++ b/src/asn1_types/bitstring.rs
@@ -136,6 +136,17 @@ impl<'i> DerParser<'i> for BitString {
         // Encoding shall be primitive (X.690: 10.2)
         header.assert_primitive_input(&input).map_err(Err::Error)?;
 
+        // Unused bits shall all be 0 (X.690: 11.2.1)
+        // note: other constraints on unused bits are tested by the BER parser
+        if let [unused_bits, .., last_byte] = input.as_bytes2() {
+            if last_byte.trailing_zeros() < u32::from(*unused_bits).min(7) {
+                return Err(BerError::nom_err_input(
+                    &input,
+                    InnerError::DerConstraintFailed(DerConstraint::UnusedBitsNotZero),
+                ));
+            }
+        }
+
         <BitString>::from_ber_content(header, input)
     }
 }
-- 
2.43.0


From 02829c07fb0e7664a7481334d0291000b36ebb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:00 +0000
Subject: [PATCH 16/46] fix: align bits when building a BitString from a bit
 slice

---
 src/asn1_types/bitstring.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/asn1_types/bitstring.rs b/src/asn1_types/bitstring.rs
index b74a1e6..626ccfc 100644
--- a/src/asn1_types/bitstring.rs
+++ b/src/asn1_types/bitstring.rs
@@ -78,7 +78,9 @@ impl_tryfrom_any!(BitString);
 
 impl From<&BitSlice<u8, Msb0>> for BitString {
     fn from(slice: &BitSlice<u8, Msb0>) -> Self {
-        let bitvec = BitVec::from_bitslice(slice);
+        let mut bitvec = BitVec::from_bitslice(slice);
+        // the slice may start anywhere in its first element
+        bitvec.force_align();
         Self { bitvec }
     }
 }
-- 
2.43.0


From dab80f74deb8aa26c61906702a04ab15e9933b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:00 +0000
Subject: [PATCH 17/46] fix: write unused bits of BitString as zero

---
 src/asn1_types/bitstring.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/asn1_types/bitstring.rs b/src/asn1_types/bitstring.rs
index 626ccfc..08cee80 100644
--- a/src/asn1_types/bitstring.rs
+++ b/src/asn1_types/bitstring.rs
@@ -211,8 +211,11 @@ const _: () = {
             // ignored bits
             let ignored = (8 * data.len()) - self.len();
             target.write_all(&[ignored as u8])?;
-            // content
-            target.write_all(data)?;
+            // content (unused bits are written as 0: X.690: 11.2.1)
+            if let Some((last_byte, start)) = data.split_last() {
+                target.write_all(start)?;
+                target.write_all(&[last_byte & (0xff << ignored)])?;
+            }
 
             Ok(1 + data.len())
         }
-- 
2.43.0


From 7ad9456a2c3e53e23a47ce0e0db3a9b1549eced2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:00 +0000
Subject: [PATCH 18/46] fix: encode and decode the first two arcs of an OID as
 a single sub-identifier

The first sub-identifier is 40*X+Y and can use several bytes (arcs 2.48 and
above), and iterators report the exact number of remaining arcs.
---
 src/asn1_types/oid.rs | 133 +++++++++++++++++++++---------------------
 1 file changed, 65 insertions(+), 68 deletions(-)

diff --git a/src/asn1_types/oid.rs b/src/asn1_types/oid.rs
index 8f83713..5a59864 100644
--- a/src/asn1_types/oid.rs
+++ b/src/asn1_types/oid.rs
@@ -6,7 +6,7 @@ use alloc::format;
 use alloc::string::{String, ToString};
 #[cfg(not(feature = "std"))]
 use alloc::vec::Vec;
-use core::{fmt, iter::FusedIterator, marker::PhantomData, ops::Shl, str::FromStr};
+use core::{fmt, iter::FusedIterator, ops::Shl, str::FromStr};
 use displaydoc::Display;
 use nom::Input as _;
 use num_traits::Num;
@@ -18,8 +18,8 @@ pub enum OidParseError {
     /// Encoded data length too short
     TooShort,
     /** Signalizes that the first or second component is too large.
-     * The first must be within the range 0 to 6 (inclusive).
-     * The second component must be less than 40.
+     * The first must be within the range 0 to 2 (inclusive).
+     * The second component must be less than 40 if the first is 0 or 1.
      */
     FirstComponentsTooLarge,
     /// a
@@ -165,12 +165,15 @@ impl<'a> Oid<'a> {
             }
             return Err(OidParseError::TooShort);
         }
-        if s[0] >= 7 || s[1] >= 40 {
+        // The first arc is 0, 1 or 2. If it is 0 or 1, the second arc is less than 40 (X.660)
+        if s[0] > 2 || (s[0] < 2 && s[1] >= 40) {
             return Err(OidParseError::FirstComponentsTooLarge);
         }
-        let asn1_encoded: Vec<u8> = [(s[0] * 40 + s[1]) as u8]
-            .iter()
-            .copied()
+        // The two first arcs are encoded as a single sub-identifier (X.690: 8.19.4)
+        let first = (s[0] * 40)
+            .checked_add(s[1])
+            .ok_or(OidParseError::FirstComponentsTooLarge)?;
+        let asn1_encoded: Vec<u8> = encode_relative(&[first])
             .chain(encode_relative(&s[2..]))
             .collect();
         Ok(Oid {
@@ -259,8 +262,7 @@ impl<'a> Oid<'a> {
         SubIdentifierIterator {
             oid: self,
             pos: 0,
-            first: false,
-            n: PhantomData,
+            second: None,
         }
     }
 
@@ -268,33 +270,21 @@ impl<'a> Oid<'a> {
     /// Returns `None` if at least one arc does not fit into `u64`.
     pub fn iter(&'_ self) -> Option<impl FusedIterator<Item = u64> + ExactSizeIterator + '_> {
         // Check that every arc fits into u64
-        let bytes = if self.relative {
-            &self.asn1
-        } else if self.asn1.is_empty() {
-            &[]
-        } else {
-            &self.asn1[1..]
-        };
-        let max_bits = bytes
-            .iter()
-            .fold((0usize, 0usize), |(max, cur), c| {
-                let is_end = (c >> 7) == 0u8;
-                if is_end {
-                    (max.max(cur + 7), 0)
-                } else {
-                    (max, cur + 7)
-                }
-            })
-            .0;
-        if max_bits > 64 {
-            return None;
+        let mut value = 0u64;
+        for o in self.asn1.iter() {
+            if value > (u64::MAX >> 7) {
+                return None;
+            }
+            value = (value << 7) | u64::from(o & 0b111_1111);
+            if o >> 7 == 0 {
+                value = 0;
+            }
         }
 
         Some(SubIdentifierIterator {
             oid: self,
             pos: 0,
-            first: false,
-            n: PhantomData,
+            second: None,
         })
     }
 
@@ -320,14 +310,14 @@ impl<'a> Oid<'a> {
     }
 }
 
-trait Repr: Num + Shl<usize, Output = Self> + From<u8> {}
-impl<N> Repr for N where N: Num + Shl<usize, Output = N> + From<u8> {}
+trait Repr: Num + PartialOrd + Shl<usize, Output = Self> + From<u8> {}
+impl<N> Repr for N where N: Num + PartialOrd + Shl<usize, Output = N> + From<u8> {}
 
 struct SubIdentifierIterator<'a, N: Repr> {
     oid: &'a Oid<'a>,
     pos: usize,
-    first: bool,
-    n: PhantomData<&'a N>,
+    // second arc, if the first sub-identifier was decoded and only the first arc was returned
+    second: Option<N>,
 }
 
 impl<N: Repr> Iterator for SubIdentifierIterator<'_, N> {
@@ -336,22 +326,13 @@ impl<N: Repr> Iterator for SubIdentifierIterator<'_, N> {
     fn next(&mut self) -> Option<Self::Item> {
         use num_traits::identities::Zero;
 
+        if let Some(n) = self.second.take() {
+            return Some(n);
+        }
         if self.pos == self.oid.asn1.len() {
             return None;
         }
-        if !self.oid.relative {
-            if !self.first {
-                debug_assert!(self.pos == 0);
-                self.first = true;
-                return Some((self.oid.asn1[0] / 40).into());
-            } else if self.pos == 0 {
-                self.pos += 1;
-                if self.oid.asn1[0] == 0 && self.oid.asn1.len() == 1 {
-                    return None;
-                }
-                return Some((self.oid.asn1[0] % 40).into());
-            }
-        }
+        let is_first = !self.oid.relative && self.pos == 0;
         // decode objet sub-identifier according to the asn.1 standard
         let mut res = <N as Zero>::zero();
         for o in self.oid.asn1[self.pos..].iter() {
@@ -362,33 +343,49 @@ impl<N: Repr> Iterator for SubIdentifierIterator<'_, N> {
                 break;
             }
         }
+        if is_first {
+            if self.oid.asn1.as_ref() == [0] {
+                return Some(res);
+            }
+            // the first sub-identifier contains the two first arcs (X.690: 8.19.4)
+            let (first, base) = if res < 40.into() {
+                (0, 0)
+            } else if res < 80.into() {
+                (1, 40)
+            } else {
+                (2, 80)
+            };
+            self.second = Some(res - base.into());
+            return Some(first.into());
+        }
         Some(res)
     }
-}
-
-impl<N: Repr> FusedIterator for SubIdentifierIterator<'_, N> {}
 
-impl<N: Repr> ExactSizeIterator for SubIdentifierIterator<'_, N> {
-    fn len(&self) -> usize {
-        if self.oid.relative {
-            self.oid.asn1.iter().filter(|o| (*o >> 7) == 0u8).count()
-        } else if self.oid.asn1.is_empty() {
-            0
-        } else if self.oid.asn1.len() == 1 {
-            if self.oid.asn1[0] == 0 {
-                1
-            } else {
-                2
-            }
-        } else {
-            2 + self.oid.asn1[2..]
-                .iter()
-                .filter(|o| (*o >> 7) == 0u8)
-                .count()
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        // number of sub-identifiers in remaining bytes
+        let rem = &self.oid.asn1[self.pos..];
+        let mut count = rem.iter().filter(|o| (*o >> 7) == 0u8).count();
+        if rem.last().map_or(false, |o| (o >> 7) != 0u8) {
+            // truncated last sub-identifier
+            count += 1;
+        }
+        // first sub-identifier contains two arcs
+        if self.second.is_some()
+            || (!self.oid.relative
+                && self.pos == 0
+                && !rem.is_empty()
+                && self.oid.asn1.as_ref() != [0])
+        {
+            count += 1;
         }
+        (count, Some(count))
     }
 }
 
+impl<N: Repr> FusedIterator for SubIdentifierIterator<'_, N> {}
+
+impl<N: Repr> ExactSizeIterator for SubIdentifierIterator<'_, N> {}
+
 impl fmt::Display for Oid<'_> {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         if self.relative {
-- 
2.43.0


From e9ab3117f92bb8db3980d7b37c73a060cc094e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:20 +0000
Subject: [PATCH 19/46] fix: keep the RELATIVE-OID type when parsing with
 BerParser/DerParser

---
 src/asn1_types/oid.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/asn1_types/oid.rs b/src/asn1_types/oid.rs
index 5a59864..4fbcb49 100644
--- a/src/asn1_types/oid.rs
+++ b/src/asn1_types/oid.rs
@@ -59,7 +59,11 @@ impl<'i> BerParser<'i> for Oid<'i> {
         }
 
         let (rem, data) = input.take_split(input.len());
-        Ok((rem, Oid::new(Cow::Borrowed(data.as_bytes2()))))
+        let asn1 = Cow::Borrowed(data.as_bytes2());
+        if header.is_universal() && header.tag() == Tag::RelativeOid {
+            return Ok((rem, Oid::new_relative(asn1)));
+        }
+        Ok((rem, Oid::new(asn1)))
     }
 }
 
-- 
2.43.0


From 7347aa183fec9f541ef7d92af73b96b3b22d9a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:00 +0000
Subject: [PATCH 20/46] fix: decode REAL exponents with an explicit number of
 octets

---
 src/asn1_types/real.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/asn1_types/real.rs b/src/asn1_types/real.rs
index f28c756..3a67fd6 100644
--- a/src/asn1_types/real.rs
+++ b/src/asn1_types/real.rs
@@ -213,7 +213,8 @@ fn decode_real(header: &Header, bytes: &[u8]) -> Result<Real, InnerError> {
         // binary encoding (X.690 section 8.5.6)
         // format of exponent
         let (n, rem) = match first & 0x03 {
-            4 => {
+            3 => {
+                // number of octets of exponent is encoded in next octet (X.690: 8.5.7.4)
                 let (b, rem) = rem
                     .split_first()
                     .ok_or_else(|| Error::Incomplete(Needed::new(1)))?;
@@ -221,13 +222,13 @@ fn decode_real(header: &Header, bytes: &[u8]) -> Result<Real, InnerError> {
             }
             b => (b as usize + 1, rem),
         };
-        if n >= rem.len() {
+        if n == 0 || n >= rem.len() {
             return Err(InnerError::invalid_value(
                 header.tag,
                 "Invalid float value(exponent)",
             ));
         }
-        // n cannot be 0 (see the +1 above)
+        // n cannot be 0 (tested above)
         let (eo, rem) = rem.split_at(n);
         // so 'eo' cannot be empty
         let mut e = if eo[0] & 0x80 != 0 { -1 } else { 0 };
-- 
2.43.0


From e728d40ea8e47d740fa414b3088aea2d13c16750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:00 +0000
Subject: [PATCH 21/46] fix: arithmetic overflows when decoding the exponent
 and mantissa of a REAL

---
 src/asn1_types/real.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/asn1_types/real.rs b/src/asn1_types/real.rs
index 3a67fd6..bca589a 100644
--- a/src/asn1_types/real.rs
+++ b/src/asn1_types/real.rs
@@ -257,33 +257,35 @@ fn decode_real(header: &Header, bytes: &[u8]) -> Result<Real, InnerError> {
         };
         let e = match b {
             // base 2
-            0 => e,
+            0 => Some(e),
             // base 8
-            1 => e * 3,
+            1 => e.checked_mul(3),
             // base 16
-            2 => e * 4,
+            2 => e.checked_mul(4),
             _ => return Err(InnerError::invalid_value(header.tag, "Illegal REAL base")),
-        };
+        }
+        .ok_or_else(|| InnerError::invalid_value(header.tag, "Exponent too large (REAL)"))?;
         if rem.len() > 8 {
             return Err(InnerError::invalid_value(
                 header.tag,
                 "Mantissa too large (REAL)",
             ));
         }
-        let mut p = 0;
+        let mut p = 0u64;
         for b in rem {
-            p = (p << 8) | (*b as i64);
+            p = (p << 8) | u64::from(*b);
         }
         // sign bit
+        let p = p as f64;
         let p = if first & 0x40 != 0 { -p } else { p };
         // scale bits
         let sf = (first >> 2) & 0x03;
         let p = match sf {
-            0 => p as f64,
+            0 => p,
             sf => {
                 // 2^sf: cannot overflow, sf is between 0 and 3
                 let scale = 2_f64.powi(sf as _);
-                (p as f64) * scale
+                p * scale
             }
         };
         Ok(Real::Binary {
-- 
2.43.0


From d7a5a9e6e896072776e84c9b7b90c824f8605a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:00 +0000
Subject: [PATCH 22/46] fix: accept negative and large integers in NR1 form of
 REAL

---
 src/asn1_types/real.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/asn1_types/real.rs b/src/asn1_types/real.rs
index bca589a..c44c9a1 100644
--- a/src/asn1_types/real.rs
+++ b/src/asn1_types/real.rs
@@ -316,9 +316,9 @@ fn decode_real(header: &Header, bytes: &[u8]) -> Result<Real, InnerError> {
         match first & 0x03 {
             0x1 => {
                 // NR1
-                match s.parse::<u32>() {
+                match s.parse::<i64>() {
                     Err(_) => Err(InnerError::invalid_value(header.tag,"Invalid float string encoding")),
-                    Ok(v) => Ok(Real::new(v.into())),
+                    Ok(v) => Ok(Real::new(v as f64)),
                 }
             }
             0x2 /* NR2 */ | 0x3 /* NR3 */=> {
-- 
2.43.0


From 70020b909f59fa674d17d1e5816aafa28359ed8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:00 +0000
Subject: [PATCH 23/46] fix: number of octets of the exponent when encoding a
 REAL

---
 src/asn1_types/real.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/asn1_types/real.rs b/src/asn1_types/real.rs
index c44c9a1..3c30861 100644
--- a/src/asn1_types/real.rs
+++ b/src/asn1_types/real.rs
@@ -426,10 +426,11 @@ const _: () = {
                     }
                     first |= sf << 2;
                     // exponent length and bytes
-                    let len_e = match e.abs() {
-                        0..=0xff => 1,
-                        0x100..=0xffff => 2,
-                        0x1_0000..=0xff_ffff => 3,
+                    // note: exponent is a signed number (two's complement)
+                    let len_e = match e {
+                        -0x80..=0x7f => 1,
+                        -0x8000..=0x7fff => 2,
+                        -0x80_0000..=0x7f_ffff => 3,
                         // e is an `i32` so it can't be longer than 4 bytes
                         // use 4, so `first` is ORed with 3
                         _ => 4,
-- 
2.43.0


From b508706c98a810d4b57739b77022a17ffd7f1b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:00 +0000
Subject: [PATCH 24/46] fix: wrong value when encoding a REAL in base 8 or 16

---
 src/asn1_types/real.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/asn1_types/real.rs b/src/asn1_types/real.rs
index 3c30861..ace324e 100644
--- a/src/asn1_types/real.rs
+++ b/src/asn1_types/real.rs
@@ -504,16 +504,17 @@ impl From<Real> for f64 {
 #[cfg(feature = "std")]
 fn drop_floating_point(m: f64, b: u8, e: i32) -> (i8, u64, u8, i32) {
     let ms = if m.is_sign_positive() { 1 } else { -1 };
-    let es = if e.is_positive() { 1 } else { -1 };
     let mut m = m.abs();
     let mut e = e;
     //
     if b == 8 {
-        m *= 2_f64.powi((e.abs() / 3) * es);
-        e = (e.abs() / 3) * es;
+        // m * 2^e == (m * 2^(e % 3)) * 8^(e / 3)
+        m *= 2_f64.powi(e % 3);
+        e /= 3;
     } else if b == 16 {
-        m *= 2_f64.powi((e.abs() / 4) * es);
-        e = (e.abs() / 4) * es;
+        // m * 2^e == (m * 2^(e % 4)) * 16^(e / 4)
+        m *= 2_f64.powi(e % 4);
+        e /= 4;
     }
     //
     while m.abs() > f64::EPSILON {
-- 
2.43.0


From 755bf3b6126dc07ba72cf303034de4aa31d0e3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:00 +0000
Subject: [PATCH 25/46] fix: panic when encoding a REAL with a null, very small
 or non-finite mantissa

---
 src/asn1_types/real.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/asn1_types/real.rs b/src/asn1_types/real.rs
index ace324e..ce3ca3c 100644
--- a/src/asn1_types/real.rs
+++ b/src/asn1_types/real.rs
@@ -390,7 +390,9 @@ const _: () = {
                     let enc_base = *_enc_base;
                     let (ms, mut m, enc_base, mut e) =
                         drop_floating_point(*mantissa, enc_base, *exponent);
-                    assert!(m != 0);
+                    if m == 0 || !mantissa.is_finite() {
+                        return Err(Self::TAG.invalid_value("Invalid mantissa for REAL").into());
+                    }
                     if ms < 0 {
                         first |= 0x40
                     };
@@ -517,13 +519,14 @@ fn drop_floating_point(m: f64, b: u8, e: i32) -> (i8, u64, u8, i32) {
         e /= 4;
     }
     //
-    while m.abs() > f64::EPSILON {
-        if m.fract() != 0.0 {
-            m *= b as f64;
-            e -= 1;
-        } else {
-            break;
-        }
+    while m.is_finite() && m.fract() != 0.0 {
+        m *= b as f64;
+        e = e.saturating_sub(1);
+    }
+    // keep only bits that fit in the integer mantissa (2^64 is an exact f64)
+    while m.is_finite() && m >= 2_f64.powi(64) {
+        m /= b as f64;
+        e = e.saturating_add(1);
     }
     (ms, m as u64, b, e)
 }
-- 
2.43.0


From 4af96934002febed29e5777061012ab3ac48ad78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:04 +0000
Subject: [PATCH 26/46] fix: keep the sign of time zone offsets smaller than
 one hour

---
 src/asn1_types/generalizedtime.rs | 7 +++++--
 src/asn1_types/utctime.rs         | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/asn1_types/generalizedtime.rs b/src/asn1_types/generalizedtime.rs
index 949c6f8..b9025a7 100644
--- a/src/asn1_types/generalizedtime.rs
+++ b/src/asn1_types/generalizedtime.rs
@@ -147,7 +147,9 @@ impl GeneralizedTime {
             [b'-', h1, h2, m1, m2] => {
                 let hh = decode_decimal(Self::TAG, *h1, *h2)?;
                 let mm = decode_decimal(Self::TAG, *m1, *m2)?;
-                ASN1TimeZone::Offset(-(hh as i8), mm as i8)
+                // keep the sign of offsets smaller than one hour
+                let mm = if hh == 0 { -(mm as i8) } else { mm as i8 };
+                ASN1TimeZone::Offset(-(hh as i8), mm)
             }
             _ => return Err(Self::TAG.invalid_value("malformed time string: no time zone")),
         };
@@ -267,7 +269,8 @@ impl fmt::Display for GeneralizedTime {
                 dt.year, dt.month, dt.day, dt.hour, dt.minute, dt.second, fsec
             ),
             ASN1TimeZone::Offset(hh, mm) => {
-                let (s, hh) = if hh > 0 { ('+', hh) } else { ('-', -hh) };
+                let s = if hh < 0 || mm < 0 { '-' } else { '+' };
+                let (hh, mm) = (hh.unsigned_abs(), mm.unsigned_abs());
                 write!(
                     f,
                     "{:04}-{:02}-{:02} {:02}:{:02}:{:02}{}{}{:02}{:02}",
diff --git a/src/asn1_types/utctime.rs b/src/asn1_types/utctime.rs
index e45b9b3..64bae2d 100644
--- a/src/asn1_types/utctime.rs
+++ b/src/asn1_types/utctime.rs
@@ -63,7 +63,9 @@ impl UtcTime {
             [b'-', h1, h2, m1, m2] => {
                 let hh = decode_decimal(Self::TAG, *h1, *h2)?;
                 let mm = decode_decimal(Self::TAG, *m1, *m2)?;
-                ASN1TimeZone::Offset(-(hh as i8), mm as i8)
+                // keep the sign of offsets smaller than one hour
+                let mm = if hh == 0 { -(mm as i8) } else { mm as i8 };
+                ASN1TimeZone::Offset(-(hh as i8), mm)
             }
             _ => return Err(Self::TAG.invalid_value("malformed time string: no time zone")),
         };
@@ -200,7 +202,8 @@ impl fmt::Display for UtcTime {
                 dt.year, dt.month, dt.day, dt.hour, dt.minute, dt.second
             ),
             ASN1TimeZone::Offset(hh, mm) => {
-                let (s, hh) = if hh > 0 { ('+', hh) } else { ('-', -hh) };
+                let s = if hh < 0 || mm < 0 { '-' } else { '+' };
+                let (hh, mm) = (hh.unsigned_abs(), mm.unsigned_abs());
                 write!(
                     f,
                     "{:04}-{:02}-{:02} {:02}:{:02}:{:02}{}{:02}{:02}",
-- 
2.43.0


From a7e21fb5d0167a0435e14c24f56d45adade44c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:04 +0000
Subject: [PATCH 27/46] fix: reject month and day 0 in GeneralizedTime and
 UtcTime

---
 src/asn1_types/generalizedtime.rs | 9 ++++++++-
 src/asn1_types/utctime.rs         | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/asn1_types/generalizedtime.rs b/src/asn1_types/generalizedtime.rs
index b9025a7..7eabd4d 100644
--- a/src/asn1_types/generalizedtime.rs
+++ b/src/asn1_types/generalizedtime.rs
@@ -51,7 +51,14 @@ impl GeneralizedTime {
             }
             _ => (0, rem),
         };
-        if month > 12 || day > 31 || hour > 23 || minute > 59 || second > 59 {
+        if month == 0
+            || month > 12
+            || day == 0
+            || day > 31
+            || hour > 23
+            || minute > 59
+            || second > 59
+        {
             // eprintln!("GeneralizedTime: time checks failed");
             // eprintln!(" month:{}", month);
             // eprintln!(" day:{}", day);
diff --git a/src/asn1_types/utctime.rs b/src/asn1_types/utctime.rs
index 64bae2d..d23cbaf 100644
--- a/src/asn1_types/utctime.rs
+++ b/src/asn1_types/utctime.rs
@@ -47,7 +47,14 @@ impl UtcTime {
             }
             _ => (0, rem),
         };
-        if month > 12 || day > 31 || hour > 23 || minute > 59 || second > 59 {
+        if month == 0
+            || month > 12
+            || day == 0
+            || day > 31
+            || hour > 23
+            || minute > 59
+            || second > 59
+        {
             return Err(Self::TAG.invalid_value("time components with invalid values"));
         }
         if rem.is_empty() {
-- 
2.43.0


From 20b0a267f36fcddd24249d349bb5fff4c92571cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:04 +0000
Subject: [PATCH 28/46] fix: write milliseconds of GeneralizedTime as a decimal
 fraction of second

---
 src/asn1_types/generalizedtime.rs | 30 ++++++++++++++++++++++--------
 src/datetime.rs                   |  2 +-
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/asn1_types/generalizedtime.rs b/src/asn1_types/generalizedtime.rs
index 7eabd4d..7f2e8dc 100644
--- a/src/asn1_types/generalizedtime.rs
+++ b/src/asn1_types/generalizedtime.rs
@@ -180,6 +180,17 @@ impl GeneralizedTime {
     }
 }
 
+/// Number of digits of the fractional part, without trailing zeros (X.690 section 11.7.3)
+#[cfg(feature = "std")]
+fn fractional_digits(millisecond: Option<u16>) -> usize {
+    match millisecond {
+        None | Some(0) => 0,
+        Some(v) if v % 100 == 0 => 1,
+        Some(v) if v % 10 == 0 => 2,
+        Some(_) => 3,
+    }
+}
+
 impl_tryfrom_any!(GeneralizedTime);
 
 impl<'i> BerParser<'i> for GeneralizedTime {
@@ -261,7 +272,7 @@ impl fmt::Display for GeneralizedTime {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         let dt = &self.0;
         let fsec = match self.0.millisecond {
-            Some(v) => format!(".{v}"),
+            Some(v) => format!(".{v:03}"),
             None => String::new(),
         };
         match dt.tz {
@@ -324,19 +335,22 @@ const _: () = {
             // - (variable) the fractional part, without trailing zeros, with a point "."
             // - 1 for the character Z in DER (X.690 section 11.7.1)
             // data length: 15 + fractional part
-            let num_digits = match self.0.millisecond {
-                None => 0,
-                Some(v) => 1 + v.to_string().len(),
+            let num_digits = match fractional_digits(self.0.millisecond) {
+                0 => 0,
+                n => 1 + n,
             };
 
             Length::Definite(15 + num_digits)
         }
 
         fn ber_write_content<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
-            let fractional = match self.0.millisecond {
-                None => "".to_string(),
-                Some(v) => format!(".{v}"),
-            };
+            let mut fractional = String::new();
+            let digits = fractional_digits(self.0.millisecond);
+            if digits > 0 {
+                // milliseconds are always 3 digits (for ex: 5 is "005")
+                fractional = format!(".{:03}", self.0.millisecond.unwrap_or(0) % 1000);
+                fractional.truncate(1 + digits);
+            }
             let num_digits = fractional.len();
             write!(
                 target,
diff --git a/src/datetime.rs b/src/datetime.rs
index 03f5a1d..c0fcefc 100644
--- a/src/datetime.rs
+++ b/src/datetime.rs
@@ -89,7 +89,7 @@ impl fmt::Display for ASN1DateTime {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         let fractional = match self.millisecond {
             None => "".to_string(),
-            Some(v) => format!(".{v}"),
+            Some(v) => format!(".{v:03}"),
         };
         write!(
             f,
-- 
2.43.0


From 48ff3be3f64307be4679cc6c5c47db918a24b6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:04 +0000
Subject: [PATCH 29/46] fix: UtcTime: write the two low-order digits of the
 year

---
 src/asn1_types/utctime.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/asn1_types/utctime.rs b/src/asn1_types/utctime.rs
index d23cbaf..ee18dd9 100644
--- a/src/asn1_types/utctime.rs
+++ b/src/asn1_types/utctime.rs
@@ -253,7 +253,12 @@ const _: () = {
             write!(
                 target,
                 "{:02}{:02}{:02}{:02}{:02}{:02}Z",
-                self.0.year, self.0.month, self.0.day, self.0.hour, self.0.minute, self.0.second,
+                self.0.year % 100,
+                self.0.month,
+                self.0.day,
+                self.0.hour,
+                self.0.minute,
+                self.0.second,
             )?;
             // write_fmt returns (), see above for length value
             Ok(13)
-- 
2.43.0


From 8f85cec1d3444f74efb5a06e97454db4dc478f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:39 +0000
Subject: [PATCH 30/46] fix: reject End-of-contents inside a segmented string
 of definite length

---
 src/ber/appendable.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ber/appendable.rs b/src/ber/appendable.rs
index 84e1a1e..95312a9 100644
--- a/src/ber/appendable.rs
+++ b/src/ber/appendable.rs
@@ -42,7 +42,7 @@ where
         let mut v = T::default();
         for res in AnyIterator::<BerMode>::new(data) {
             let (_, obj) = res.map_err(Err::Error)?;
-            if obj.header.tag() == Tag::EndOfContent {
+            if !header.length.is_definite() && obj.header.tag() == Tag::EndOfContent {
                 break;
             }
             let Any {
-- 
2.43.0


From 7ab09cf2cb80fca39e9c097515b15895b111a715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:05 +0000
Subject: [PATCH 31/46] fix: check tag of elements in SequenceIteratorInput

---
 src/asn1_types/sequence/iterator.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/asn1_types/sequence/iterator.rs b/src/asn1_types/sequence/iterator.rs
index 122867b..3ba4c35 100644
--- a/src/asn1_types/sequence/iterator.rs
+++ b/src/asn1_types/sequence/iterator.rs
@@ -142,6 +142,10 @@ where
 
     fn next(&mut self) -> Option<Self::Item> {
         match self.iter.next() {
+            Some(Ok((_, any))) if !T::accept_tag(any.tag()) => {
+                let tag = any.tag();
+                Some(Err(BerError::unexpected_tag(any.data, None, tag).into()))
+            }
             Some(Ok((_, any))) => match T::from_ber_content(&any.header, any.data) {
                 Ok((_, obj)) => Some(Ok(obj)),
                 Err(e) => {
@@ -173,6 +177,10 @@ where
 
     fn next(&mut self) -> Option<Self::Item> {
         match self.iter.next() {
+            Some(Ok((_, any))) if !T::accept_tag(any.tag()) => {
+                let tag = any.tag();
+                Some(Err(BerError::unexpected_tag(any.data, None, tag).into()))
+            }
             Some(Ok((_, any))) => match T::from_der_content(&any.header, any.data) {
                 Ok((_, obj)) => Some(Ok(obj)),
                 Err(e) => {
-- 
2.43.0


From e6124dba099e7dfbe5a35044e32f57b5ec2f8b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:46 +0000
Subject: [PATCH 32/46] fix: Any::iter_elements uses the requested mode (BER or
 DER)

---
 src/asn1_types/any.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/asn1_types/any.rs b/src/asn1_types/any.rs
index 8c4285f..688f12c 100644
--- a/src/asn1_types/any.rs
+++ b/src/asn1_types/any.rs
@@ -137,8 +137,8 @@ impl<'a> Any<'a> {
     ///
     /// This makes sense only if `Self` is constructed, but the constructed bit is
     /// _not_ checked by this function.
-    pub fn iter_elements<Mode: ASN1Mode>(&'a self) -> AnyIterator<'a, BerMode> {
-        AnyIterator::<BerMode>::new(self.data.clone())
+    pub fn iter_elements<Mode: ASN1Mode>(&'a self) -> AnyIterator<'a, Mode> {
+        AnyIterator::<Mode>::new(self.data.clone())
     }
 }
 
-- 
2.43.0


From 381a5cdc7f5eaa2d74d6e15998fa6080d7718c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:00 +0000
Subject: [PATCH 33/46] fix: End-of-contents must be exactly two octets, or
 content span includes part of it

---
 src/ber/parser.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ber/parser.rs b/src/ber/parser.rs
index c2f48fb..7117684 100644
--- a/src/ber/parser.rs
+++ b/src/ber/parser.rs
@@ -106,9 +106,15 @@ fn ber_skip_object_content<'a>(
             // this is recursive
             let mut i = i;
             loop {
+                let start = i.start();
                 let (i2, header2) = Header::parse_ber(i)?;
+                let header_len = i2.start() - start;
                 let (i3, eoc) = ber_skip_object_content(i2, &header2, max_depth - 1)?;
                 if eoc {
+                    // X.690 (8.1.5): End-Of-Content is exactly 2 octets
+                    if header_len != 2 {
+                        return Err(Err::Error(BerError::new(i3, InnerError::InvalidLength)));
+                    }
                     // return false, since top object was not EndOfContent
                     return Ok((i3, false));
                 }
-- 
2.43.0


From ae5e21521121da107c804549bc3e56cb55fa4ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:00 +0000
Subject: [PATCH 34/46] fix: elements with tag 0 which are not End-of-contents
 do not end a segmented string

---
 src/ber/appendable.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ber/appendable.rs b/src/ber/appendable.rs
index 95312a9..390afb8 100644
--- a/src/ber/appendable.rs
+++ b/src/ber/appendable.rs
@@ -42,7 +42,12 @@ where
         let mut v = T::default();
         for res in AnyIterator::<BerMode>::new(data) {
             let (_, obj) = res.map_err(Err::Error)?;
-            if !header.length.is_definite() && obj.header.tag() == Tag::EndOfContent {
+            if !header.length.is_definite()
+                && obj.header.tag() == Tag::EndOfContent
+                && obj.header.is_universal()
+                && obj.header.is_primitive()
+                && obj.header.length().is_null()
+            {
                 break;
             }
             let Any {
-- 
2.43.0


From 867433aa463dc1d904814b6a009ff0fad17406d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:11 +0000
Subject: [PATCH 35/46] fix: value of a REAL with a null mantissa, or with an
 exponent close to the limits

---
 src/asn1_types/real.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/asn1_types/real.rs b/src/asn1_types/real.rs
index ce3ca3c..dae0853 100644
--- a/src/asn1_types/real.rs
+++ b/src/asn1_types/real.rs
@@ -136,9 +136,19 @@ impl Real {
                 exponent,
                 ..
             } => {
-                let f = mantissa;
-                let exp = (*base as f64).powi(*exponent);
-                f * exp
+                let f = *mantissa;
+                let base = *base as f64;
+                let exp = base.powi(*exponent);
+                if f == 0.0 {
+                    // the power may be infinite
+                    return f;
+                }
+                if exp.is_normal() {
+                    return f * exp;
+                }
+                // the power alone is out of range, but the product may not be
+                let half = *exponent / 2;
+                f * base.powi(half) * base.powi(*exponent - half)
             }
             Real::Zero => 0.0_f64,
             Real::NaN => f64::NAN,
-- 
2.43.0


From 3213a74d124d17dc74c523b6a8032277660c02cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:11 +0000
Subject: [PATCH 36/46] fix: UtcTime::timestamp uses the adjusted year

---
 src/asn1_types/utctime.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asn1_types/utctime.rs b/src/asn1_types/utctime.rs
index ee18dd9..724d489 100644
--- a/src/asn1_types/utctime.rs
+++ b/src/asn1_types/utctime.rs
@@ -134,7 +134,7 @@ impl UtcTime {
     #[cfg(feature = "datetime")]
     #[cfg_attr(docsrs, doc(cfg(feature = "datetime")))]
     pub fn timestamp(&self) -> Result<i64> {
-        let dt = self.0.to_datetime()?;
+        let dt = self.utc_adjusted_datetime()?;
         Ok(dt.unix_timestamp())
     }
 }
-- 
2.43.0


From 8b2aa57081914dc3bfd719d1f7ebf9ab4020e72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:11 +0000
Subject: [PATCH 37/46] fix: GeneralizedTime: reject a fractional part without
 digits, or with more than 3 digits

---
 src/asn1_types/generalizedtime.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/asn1_types/generalizedtime.rs b/src/asn1_types/generalizedtime.rs
index 7f2e8dc..1a24669 100644
--- a/src/asn1_types/generalizedtime.rs
+++ b/src/asn1_types/generalizedtime.rs
@@ -87,21 +87,21 @@ impl GeneralizedTime {
                 let mut rem = rem;
                 let mut digits = 0;
                 for idx in 0..=4 {
-                    if rem.is_empty() {
-                        if idx == 0 {
-                            // dot or comma, but no following digit
-                            return Err(Self::TAG.invalid_value(
-                                "malformed time string (dot or comma but no digits)",
-                            ));
-                        }
-                        digits = idx;
-                        break;
+                    if idx == 0 && !matches!(rem.first(), Some(b'0'..=b'9')) {
+                        // dot or comma, but no following digit
+                        return Err(Self::TAG.invalid_value(
+                            "malformed time string (dot or comma but no digits)",
+                        ));
                     }
                     if idx == 4 {
                         return Err(
                             Self::TAG.invalid_value("malformed time string (invalid milliseconds)")
                         );
                     }
+                    if rem.is_empty() {
+                        digits = idx;
+                        break;
+                    }
                     match rem[0] {
                         b'0'..=b'9' => {
                             // cannot overflow, max 4 digits will be read
-- 
2.43.0


From 8679148884e0a8709ff7d0794fe19d7d85469d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:01 +0000
Subject: [PATCH 38/46] fix: check that SEQUENCE OF and SET OF are constructed
 in from_der

---
 src/asn1_types/sequence/sequence_of.rs | 3 +++
 src/asn1_types/sequence/vec.rs         | 3 +++
 src/asn1_types/set/set_of.rs           | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/asn1_types/sequence/sequence_of.rs b/src/asn1_types/sequence/sequence_of.rs
index 6814286..a210858 100644
--- a/src/asn1_types/sequence/sequence_of.rs
+++ b/src/asn1_types/sequence/sequence_of.rs
@@ -185,6 +185,9 @@ where
                 any.header
                     .assert_tag(Self::TAG)
                     .map_err(|e| Err::Error(e.into()))?;
+                any.header
+                    .assert_constructed()
+                    .map_err(|e| Err::Error(e.into()))?;
                 let items = SequenceIterator::<T, DerMode, E>::new(any.data.as_bytes2())
                     .collect::<Result<Vec<T>, E>>()
                     .map_err(Err::Error)?;
diff --git a/src/asn1_types/sequence/vec.rs b/src/asn1_types/sequence/vec.rs
index 1a67883..095d011 100644
--- a/src/asn1_types/sequence/vec.rs
+++ b/src/asn1_types/sequence/vec.rs
@@ -166,6 +166,9 @@ where
                 any.header
                     .assert_tag(Self::TAG)
                     .map_err(|e| Err::Error(e.into()))?;
+                any.header
+                    .assert_constructed()
+                    .map_err(|e| Err::Error(e.into()))?;
                 let v = SequenceIterator::<T, DerMode, E>::new(any.data.as_bytes2())
                     .collect::<Result<Vec<T>, E>>()
                     .map_err(Err::Error)?;
diff --git a/src/asn1_types/set/set_of.rs b/src/asn1_types/set/set_of.rs
index 08057fd..63af243 100644
--- a/src/asn1_types/set/set_of.rs
+++ b/src/asn1_types/set/set_of.rs
@@ -187,6 +187,9 @@ where
                 any.header
                     .assert_tag(Self::TAG)
                     .map_err(|e| Err::Error(e.into()))?;
+                any.header
+                    .assert_constructed()
+                    .map_err(|e| Err::Error(e.into()))?;
                 let items = SetIterator::<T, DerMode, E>::new(any.data.as_bytes2())
                     .collect::<Result<Vec<T>, E>>()
                     .map_err(Err::Error)?;
-- 
2.43.0


From 168c0f4cd723a1dab4356730ca6c3969d0bf1191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:00 +0000
Subject: [PATCH 39/46] fix: TaggedParser Explicit: check that tagged value is
 constructed

---
 src/asn1_types/tagged/explicit.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/asn1_types/tagged/explicit.rs b/src/asn1_types/tagged/explicit.rs
index 69cff8b..dd90602 100644
--- a/src/asn1_types/tagged/explicit.rs
+++ b/src/asn1_types/tagged/explicit.rs
@@ -300,6 +300,9 @@ where
     fn from_ber(bytes: &'a [u8]) -> ParseResult<'a, Self, E> {
         let (rem, any) = Any::from_ber(bytes).map_err(Err::convert)?;
         let header = any.header;
+        header
+            .assert_constructed()
+            .map_err(|e| Err::Error(e.into()))?;
         let (_, inner) = T::from_ber(any.data.as_bytes2())?;
         let tagged = TaggedParser {
             header,
@@ -319,6 +322,9 @@ where
     fn from_der(bytes: &'a [u8]) -> ParseResult<'a, Self, E> {
         let (rem, any) = Any::from_der(bytes).map_err(Err::convert)?;
         let header = any.header;
+        header
+            .assert_constructed()
+            .map_err(|e| Err::Error(e.into()))?;
         let (_, inner) = T::from_der(any.data.as_bytes2())?;
         let tagged = TaggedParser {
             header,
-- 
2.43.0


From 2fbb96bf700141850b62043b0762ddb1cf4ffca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:40 +0000
Subject: [PATCH 40/46] fix: length and encoding of tagged fields in derived
 sequences (absent values, implicit tags)

---
 derive/src/container.rs    | 16 ++++++++-----
 src/asn1_types/optional.rs | 48 ++++++++++++++++++++++++++++++++++++++
 2 files changed, 58 insertions(+), 6 deletions(-)

diff --git a/derive/src/container.rs b/derive/src/container.rs
index e78c045..e12360a 100644
--- a/derive/src/container.rs
+++ b/derive/src/container.rs
@@ -525,22 +525,26 @@ impl Container {
             match tag_kind {
                 Some((Asn1TagKind::Explicit, _class, tag)) => {
                     // TAGGED EXPLICIT: add length required to encode tag header
+                    // Note: only an absent (OPTIONAL) value has length 0, and it is not encoded
                     let tag = u32::from(tag);
                     quote! {
-                        #acc
-                            + asn1_rs::ber_header_length(asn1_rs::Tag(#tag), #bi.#total_len()).unwrap_or_default()
-                            + #bi.#total_len()
+                        #acc + match #bi.#total_len() {
+                            asn1_rs::Length::Definite(0) => asn1_rs::Length::Definite(0),
+                            len => len + asn1_rs::ber_header_length(asn1_rs::Tag(#tag), len).unwrap_or_default(),
+                        }
                     }
                 }
                 Some((Asn1TagKind::Implicit, _class, tag)) => {
                     // TAGGED IMPLICIT: add length required to encode tag header
                     // This could be different from `#bi.#total_len()` in the specific case one of
                     // (implicit tag, object tag) is long and the other is not
+                    // Note: only an absent (OPTIONAL) value has length 0, and it is not encoded
                     let tag = u32::from(tag);
                     quote! {
-                        #acc
-                            + asn1_rs::ber_header_length(asn1_rs::Tag(#tag), #bi.#total_len()).unwrap_or_default()
-                            + #bi.#content_len()
+                        #acc + match (#bi.#total_len(), #bi.#content_len()) {
+                            (asn1_rs::Length::Definite(0), _) => asn1_rs::Length::Definite(0),
+                            (_, len) => len + asn1_rs::ber_header_length(asn1_rs::Tag(#tag), len).unwrap_or_default(),
+                        }
                     }
                 }
                 None => quote! {
diff --git a/src/asn1_types/optional.rs b/src/asn1_types/optional.rs
index 6d5683c..98c5bef 100644
--- a/src/asn1_types/optional.rs
+++ b/src/asn1_types/optional.rs
@@ -222,6 +222,30 @@ const _: () = {
                 None => Ok(0),
             }
         }
+
+        fn ber_encode_tagged_explicit<W: Write>(
+            &self,
+            class: Class,
+            tag_number: u32,
+            target: &mut W,
+        ) -> SerializeResult<usize> {
+            match self {
+                Some(t) => t.ber_encode_tagged_explicit(class, tag_number, target),
+                None => Ok(0),
+            }
+        }
+
+        fn ber_encode_tagged_implicit<W: Write>(
+            &self,
+            class: Class,
+            tag_number: u32,
+            target: &mut W,
+        ) -> SerializeResult<usize> {
+            match self {
+                Some(t) => t.ber_encode_tagged_implicit(class, tag_number, target),
+                None => Ok(0),
+            }
+        }
     }
 
     impl<T> ToDer for Option<T>
@@ -262,6 +286,30 @@ const _: () = {
                 None => Ok(0),
             }
         }
+
+        fn der_encode_tagged_explicit<W: Write>(
+            &self,
+            class: Class,
+            tag_number: u32,
+            target: &mut W,
+        ) -> SerializeResult<usize> {
+            match self {
+                Some(t) => t.der_encode_tagged_explicit(class, tag_number, target),
+                None => Ok(0),
+            }
+        }
+
+        fn der_encode_tagged_implicit<W: Write>(
+            &self,
+            class: Class,
+            tag_number: u32,
+            target: &mut W,
+        ) -> SerializeResult<usize> {
+            match self {
+                Some(t) => t.der_encode_tagged_implicit(class, tag_number, target),
+                None => Ok(0),
+            }
+        }
     }
 };
 
-- 
2.43.0


From 7de92d65c0e2871ffec1b989985cb08d336ab7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:54 +0000
Subject: [PATCH 41/46] fix: derived BerSequence/DerSequence (and sets): check
 that the object is constructed

---
 derive/src/container.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/derive/src/container.rs b/derive/src/container.rs
index e12360a..b4216fd 100644
--- a/derive/src/container.rs
+++ b/derive/src/container.rs
@@ -185,6 +185,7 @@ impl Container {
             quote! {
                 use asn1_rs::nom::*;
                 any.tag().assert_eq(Self::TAG)?;
+                any.header.assert_constructed()?;
 
                 // no need to parse sequence, we already have content
                 let i = any.data.as_bytes2();
@@ -481,6 +482,7 @@ impl Container {
             quote! {
                 let (rem, any) = asn1_rs::Any::from_der(bytes).map_err(asn1_rs::nom::Err::convert)?;
                 any.header.assert_tag(Self::TAG).map_err(|e| asn1_rs::nom::Err::Error(e.into()))?;
+                any.header.assert_constructed().map_err(|e| asn1_rs::nom::Err::Error(e.into()))?;
                 let i = any.data.as_bytes2();
                 //
                 #parse_content
-- 
2.43.0


From 280daee6e3f260c07276ff1638a64256cc074427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:21 +0000
Subject: [PATCH 42/46] fix: ToBer/ToDer for references: forward all methods
 (absent optional values were encoded)

---
 src/to_ber.rs | 32 ++++++++++++++++++++++++++++++++
 src/to_der.rs | 32 ++++++++++++++++++++++++++++++++
 2 files changed, 64 insertions(+)

diff --git a/src/to_ber.rs b/src/to_ber.rs
index 9c8f844..6c66ff0 100644
--- a/src/to_ber.rs
+++ b/src/to_ber.rs
@@ -143,6 +143,38 @@ where
     fn ber_write_content<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
         (*self).ber_write_content(target)
     }
+
+    // note: forward the methods that a type can override (for ex. `Option<T>`)
+
+    fn ber_total_len(&self) -> Length {
+        (*self).ber_total_len()
+    }
+
+    fn ber_write_header<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
+        (*self).ber_write_header(target)
+    }
+
+    fn ber_encode<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
+        (*self).ber_encode(target)
+    }
+
+    fn ber_encode_tagged_explicit<W: Write>(
+        &self,
+        class: Class,
+        tag_number: u32,
+        target: &mut W,
+    ) -> SerializeResult<usize> {
+        (*self).ber_encode_tagged_explicit(class, tag_number, target)
+    }
+
+    fn ber_encode_tagged_implicit<W: Write>(
+        &self,
+        class: Class,
+        tag_number: u32,
+        target: &mut W,
+    ) -> SerializeResult<usize> {
+        (*self).ber_encode_tagged_implicit(class, tag_number, target)
+    }
 }
 
 //--- helper functions
diff --git a/src/to_der.rs b/src/to_der.rs
index 1000391..5a807bb 100644
--- a/src/to_der.rs
+++ b/src/to_der.rs
@@ -177,6 +177,38 @@ where
     fn der_write_content<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
         (*self).der_write_content(target)
     }
+
+    // note: forward the methods that a type can override (for ex. `Option<T>`)
+
+    fn der_total_len(&self) -> Length {
+        (*self).der_total_len()
+    }
+
+    fn der_write_header<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
+        (*self).der_write_header(target)
+    }
+
+    fn der_encode<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
+        (*self).der_encode(target)
+    }
+
+    fn der_encode_tagged_explicit<W: Write>(
+        &self,
+        class: Class,
+        tag_number: u32,
+        target: &mut W,
+    ) -> SerializeResult<usize> {
+        (*self).der_encode_tagged_explicit(class, tag_number, target)
+    }
+
+    fn der_encode_tagged_implicit<W: Write>(
+        &self,
+        class: Class,
+        tag_number: u32,
+        target: &mut W,
+    ) -> SerializeResult<usize> {
+        (*self).der_encode_tagged_implicit(class, tag_number, target)
+    }
 }
 
 //--- Macros
-- 
2.43.0


From 467cd0f750256793c83e44e76b11f6c4e949efb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:51 +0000
Subject: [PATCH 43/46] fix: AnySequence and AnySet are constructed types

---
 src/asn1_types/sequence/any_sequence.rs | 1 +
 src/asn1_types/set/any_set.rs           | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/asn1_types/sequence/any_sequence.rs b/src/asn1_types/sequence/any_sequence.rs
index cc05c01..aec1f33 100644
--- a/src/asn1_types/sequence/any_sequence.rs
+++ b/src/asn1_types/sequence/any_sequence.rs
@@ -54,6 +54,7 @@ impl<'a> AnySequence<'a> {
 }
 
 impl Tagged for AnySequence<'_> {
+    const CONSTRUCTED: bool = true;
     const TAG: Tag = Tag::Sequence;
 }
 
diff --git a/src/asn1_types/set/any_set.rs b/src/asn1_types/set/any_set.rs
index 9ac666e..90477c9 100644
--- a/src/asn1_types/set/any_set.rs
+++ b/src/asn1_types/set/any_set.rs
@@ -59,6 +59,7 @@ impl<'a, S: BuildHasher> AnySet<'a, S> {
 }
 
 impl<S> Tagged for AnySet<'_, S> {
+    const CONSTRUCTED: bool = true;
     const TAG: Tag = Tag::Set;
 }
 
-- 
2.43.0


From 29d704028b21a1fdb2895c097a99704981370868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:54 +0000
Subject: [PATCH 44/46] fix: SequenceIteratorInput: stop after an error, like
 the other iterators

---
 src/asn1_types/sequence/iterator.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/asn1_types/sequence/iterator.rs b/src/asn1_types/sequence/iterator.rs
index 3ba4c35..372d3de 100644
--- a/src/asn1_types/sequence/iterator.rs
+++ b/src/asn1_types/sequence/iterator.rs
@@ -114,6 +114,7 @@ where
     Mode: ASN1Mode,
 {
     iter: AnyIterator<'a, Mode>,
+    has_error: bool,
     t: PhantomData<*const T>,
     e: PhantomData<*const E>,
 }
@@ -126,6 +127,7 @@ where
         let iter = AnyIterator::new(input);
         Self {
             iter,
+            has_error: false,
             t: PhantomData,
             e: PhantomData,
         }
@@ -141,7 +143,10 @@ where
     type Item = Result<T, E>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        match self.iter.next() {
+        if self.has_error {
+            return None;
+        }
+        let item = match self.iter.next() {
             Some(Ok((_, any))) if !T::accept_tag(any.tag()) => {
                 let tag = any.tag();
                 Some(Err(BerError::unexpected_tag(any.data, None, tag).into()))
@@ -162,7 +167,9 @@ where
             },
             Some(Err(e)) => Some(Err(e.into())),
             None => None,
-        }
+        };
+        self.has_error = matches!(item, Some(Err(_)));
+        item
     }
 }
 
@@ -176,7 +183,10 @@ where
     type Item = Result<T, E>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        match self.iter.next() {
+        if self.has_error {
+            return None;
+        }
+        let item = match self.iter.next() {
             Some(Ok((_, any))) if !T::accept_tag(any.tag()) => {
                 let tag = any.tag();
                 Some(Err(BerError::unexpected_tag(any.data, None, tag).into()))
@@ -197,7 +207,9 @@ where
             },
             Some(Err(e)) => Some(Err(e.into())),
             None => None,
-        }
+        };
+        self.has_error = matches!(item, Some(Err(_)));
+        item
     }
 }
 
-- 
2.43.0


From 850793d177d8a6929945ae446f15ec9b2aab0775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:23 +0000
Subject: [PATCH 45/46] fix: REAL: exponent overflow when encoding a value with
 a large exponent

---
 src/asn1_types/real.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/asn1_types/real.rs b/src/asn1_types/real.rs
index dae0853..599a5c2 100644
--- a/src/asn1_types/real.rs
+++ b/src/asn1_types/real.rs
@@ -429,6 +429,8 @@ const _: () = {
                             first |= 0x20;
                         }
                     }
+                    let e = <i32 as core::convert::TryFrom<i64>>::try_from(e)
+                        .map_err(|_| Self::TAG.invalid_value("Exponent too large (REAL)"))?;
                     // scale factor
                     // XXX in DER, sf is always 0 (11.3.1)
                     let mut sf = 0;
@@ -514,7 +516,7 @@ impl From<Real> for f64 {
 }
 
 #[cfg(feature = "std")]
-fn drop_floating_point(m: f64, b: u8, e: i32) -> (i8, u64, u8, i32) {
+fn drop_floating_point(m: f64, b: u8, e: i32) -> (i8, u64, u8, i64) {
     let ms = if m.is_sign_positive() { 1 } else { -1 };
     let mut m = m.abs();
     let mut e = e;
@@ -528,15 +530,17 @@ fn drop_floating_point(m: f64, b: u8, e: i32) -> (i8, u64, u8, i32) {
         m *= 2_f64.powi(e % 4);
         e /= 4;
     }
+    // the adjusted exponent may be out of the range of `i32`
+    let mut e = i64::from(e);
     //
     while m.is_finite() && m.fract() != 0.0 {
         m *= b as f64;
-        e = e.saturating_sub(1);
+        e -= 1;
     }
     // keep only bits that fit in the integer mantissa (2^64 is an exact f64)
     while m.is_finite() && m >= 2_f64.powi(64) {
         m /= b as f64;
-        e = e.saturating_add(1);
+        e += 1;
     }
     (ms, m as u64, b, e)
 }
-- 
2.43.0


From 42f85aba3da436f6cb472905b829e71ca83639bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:14 +0000
Subject: [PATCH 46/46] fix: TaggedParser: class, and constructed bit of the
 encoding

DynTagged::class() of a TaggedParser was always Universal, and an implicit
TaggedParser around a constructed type (SEQUENCE, SET OF, ...) was encoded with
the constructed bit cleared.
---
 src/asn1_types/tagged/implicit.rs | 8 ++++++--
 src/asn1_types/tagged/parser.rs   | 8 ++++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/asn1_types/tagged/implicit.rs b/src/asn1_types/tagged/implicit.rs
index aab89e9..603f8b8 100644
--- a/src/asn1_types/tagged/implicit.rs
+++ b/src/asn1_types/tagged/implicit.rs
@@ -357,7 +357,9 @@ const _: () = {
         }
 
         fn ber_tag_info(&self) -> (Class, bool, Tag) {
-            (self.class(), self.constructed(), self.tag())
+            // X.690 section 8.14.3: the encoding is constructed if the base encoding is constructed
+            let (_, constructed, _) = self.inner.ber_tag_info();
+            (self.class(), constructed, self.tag())
         }
     }
 
@@ -376,7 +378,9 @@ const _: () = {
         }
 
         fn der_tag_info(&self) -> (Class, bool, Tag) {
-            (self.class(), self.constructed(), self.tag())
+            // X.690 section 8.14.3: the encoding is constructed if the base encoding is constructed
+            let (_, constructed, _) = self.inner.der_tag_info();
+            (self.class(), constructed, self.tag())
         }
     }
 };
diff --git a/src/asn1_types/tagged/parser.rs b/src/asn1_types/tagged/parser.rs
index 922f0eb..27f2f07 100644
--- a/src/asn1_types/tagged/parser.rs
+++ b/src/asn1_types/tagged/parser.rs
@@ -72,6 +72,14 @@ where
 }
 
 impl<TagKind, T, E> DynTagged for TaggedParser<'_, TagKind, T, E> {
+    fn class(&self) -> Class {
+        self.class()
+    }
+
+    fn constructed(&self) -> bool {
+        self.header.constructed
+    }
+
     fn tag(&self) -> Tag {
         self.tag()
     }
-- 
2.43.0

