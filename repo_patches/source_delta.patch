From 4cbe28ff124c7356a8cec135bf3b5862e71ecdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:14 +0000
Subject: [PATCH 01/16] fix: reject a bit string that leaves bits of no octet
 unused

ASNBitString::size() subtracted the unused bits from a length of zero and
panicked, for example while decoding the key usage 03 01 05.
---
 rx509/src/der/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rx509/src/der/parser.rs b/rx509/src/der/parser.rs
index 0d78e35..9947211 100644
--- a/rx509/src/der/parser.rs
+++ b/rx509/src/der/parser.rs
@@ -151,7 +151,8 @@ fn parse_bit_string(contents: &[u8]) -> ASNResult {
     }
 
     let unused_bits = contents[0];
-    if unused_bits > 7 {
+    // there are no bits to leave unused when no octets follow
+    if unused_bits > 7 || (unused_bits > 0 && contents.len() == 1) {
         return Err(ASNErrorVariant::BitStringUnusedBitsTooLarge(unused_bits));
     }
 
-- 
2.43.0


From a8ec32bf8081d7e0ad0b0c3d1c3d78d121365026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:15 +0000
Subject: [PATCH 02/16] fix: do not exhaust the stack on deeply nested input

parse_all() recursed once per nesting level, so about 150 kB of nested
sequences aborted the process.
---
 rx509/src/der/parse_all.rs | 48 ++++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 23 deletions(-)

diff --git a/rx509/src/der/parse_all.rs b/rx509/src/der/parse_all.rs
index b57017a..c7354e9 100644
--- a/rx509/src/der/parse_all.rs
+++ b/rx509/src/der/parse_all.rs
@@ -9,38 +9,40 @@ pub trait ParseHandler {
 }
 
 pub fn parse_all(input: &[u8], handler: &mut dyn ParseHandler) -> Result<(), ASNError> {
-    for result in Parser::new(input) {
-        match result {
-            Err(err) => {
+    // The input decides how deeply types are nested: keep the parsers of the
+    // enclosing types on the heap instead of recursing.
+    let mut parents: Vec<Parser> = Vec::new();
+    let mut parser = Parser::new(input);
+
+    loop {
+        match parser.next() {
+            Some(Err(err)) => {
                 let err = err.into();
                 handler.on_error(&err);
                 return Err(err);
             }
-            Ok(asn) => {
+            Some(Ok(asn)) => {
                 handler.on_type(&asn);
-                match asn {
-                    ASNType::Sequence(wrapper) => {
-                        handler.begin_constructed();
-                        parse_all(wrapper.value, handler)?;
-                        handler.end_constructed();
-                    }
-                    ASNType::ExplicitTag(wrapper) => {
-                        handler.begin_constructed();
-                        parse_all(wrapper.value.contents, handler)?;
-                        handler.end_constructed();
-                    }
-                    ASNType::Set(wrapper) => {
-                        handler.begin_constructed();
-                        parse_all(wrapper.value, handler)?;
-                        handler.end_constructed();
-                    }
-                    _ => (),
+                let contents = match asn {
+                    ASNType::Sequence(wrapper) => Some(wrapper.value),
+                    ASNType::ExplicitTag(wrapper) => Some(wrapper.value.contents),
+                    ASNType::Set(wrapper) => Some(wrapper.value),
+                    _ => None,
+                };
+                if let Some(contents) = contents {
+                    handler.begin_constructed();
+                    parents.push(core::mem::replace(&mut parser, Parser::new(contents)));
                 }
             }
+            None => match parents.pop() {
+                Some(parent) => {
+                    handler.end_constructed();
+                    parser = parent;
+                }
+                None => return Ok(()),
+            },
         }
     }
-
-    Ok(())
 }
 
 #[cfg(test)]
-- 
2.43.0


From 85547a438a3fccd3080d747c84df4dfb074a3b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:16 +0000
Subject: [PATCH 03/16] fix: advance through the bits of a key usage

The offset stayed 0, so every bit was assigned to digital_signature and
no other usage was ever reported.
---
 rx509/src/x509/ext.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rx509/src/x509/ext.rs b/rx509/src/x509/ext.rs
index f7a4e09..86a8b8b 100644
--- a/rx509/src/x509/ext.rs
+++ b/rx509/src/x509/ext.rs
@@ -185,7 +185,7 @@ impl KeyUsage {
                 8 => key_usage.decipher_only = bit,
                 _ => {}
             }
-            offset += offset;
+            offset += 1;
         }
         Ok(key_usage)
     }
-- 
2.43.0


From 305ce8a78151bf89f13eec487dcc93a8a031d1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:17 +0000
Subject: [PATCH 04/16] fix: convert four byte integers to i32

The range of valid lengths excluded its documented upper bound.
---
 rx509/src/der/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rx509/src/der/types.rs b/rx509/src/der/types.rs
index 63870dc..02c4700 100644
--- a/rx509/src/der/types.rs
+++ b/rx509/src/der/types.rs
@@ -53,7 +53,7 @@ impl Identifier {
 }
 
 impl<'a> ASNInteger<'a> {
-    const VALID_I32_LENGTHS: core::ops::Range<usize> = 1usize..4usize;
+    const VALID_I32_LENGTHS: core::ops::RangeInclusive<usize> = 1usize..=4usize;
 
     pub fn new(bytes: &'a [u8]) -> ASNInteger {
         ASNInteger { bytes }
-- 
2.43.0


From 2d1def61c3e9bd9eacfbe39489f08ca48f3d227c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:18 +0000
Subject: [PATCH 05/16] fix: sign-extend integers when converting them to i32

Negative values of less than four bytes were returned as positive ones.
---
 rx509/src/der/types.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rx509/src/der/types.rs b/rx509/src/der/types.rs
index 02c4700..f53872e 100644
--- a/rx509/src/der/types.rs
+++ b/rx509/src/der/types.rs
@@ -65,7 +65,8 @@ impl<'a> ASNInteger<'a> {
             return None;
         }
 
-        let mut acc: i32 = 0;
+        // the top bit of the first byte is the sign of the two's complement value
+        let mut acc: i32 = if self.bytes[0] & 0x80 != 0 { -1 } else { 0 };
         for byte in self.bytes {
             acc <<= 8;
             acc |= *byte as i32;
-- 
2.43.0


From d6c374f5ec37122c8bcd64b003f9513473a32777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:19 +0000
Subject: [PATCH 06/16] fix: reject trailing bytes after the time zone of a
 time

---
 rx509/src/der/parser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rx509/src/der/parser.rs b/rx509/src/der/parser.rs
index 9947211..d3f2e4d 100644
--- a/rx509/src/der/parser.rs
+++ b/rx509/src/der/parser.rs
@@ -134,6 +134,11 @@ fn parse_time(contents: &[u8], time_type: TimeType) -> ASNResult {
         return Err(ASNErrorVariant::BadUTCTime);
     }
 
+    // the time zone ends the string
+    if !reader.is_empty() {
+        return Err(ASNErrorVariant::BadUTCTime);
+    }
+
     calendar::time_from_ymdhms_utc(year, month, day_of_month, hours, minutes, seconds)
         .map(ASNType::UTCTime)
 }
-- 
2.43.0


From afe73f9828fadd8ddf8eb920ad055fca3c90da4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:20 +0000
Subject: [PATCH 07/16] fix: decode object identifiers below arc 2

The first octet was always split by 40, so 2.999 (88 37) was decoded as
3.16.55 and 2.40 (78) as 3.0.
---
 rx509/src/der/parser.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rx509/src/der/parser.rs b/rx509/src/der/parser.rs
index d3f2e4d..58ccb21 100644
--- a/rx509/src/der/parser.rs
+++ b/rx509/src/der/parser.rs
@@ -196,10 +196,13 @@ fn parse_object_identifier(contents: &[u8]) -> ASNResult {
 
     let mut items: Vec<u32> = Vec::new();
 
-    let first_byte = reader.read_byte()?;
+    // the first subidentifier encodes the first two arcs. The first arc can only
+    // be 0, 1, or 2 and the second one is only limited to 39 below 0 and 1.
+    let first = parse_one(&mut reader)?;
+    let root = if first < 80 { first / 40 } else { 2 };
 
-    items.push((first_byte / 40) as u32);
-    items.push((first_byte % 40) as u32);
+    items.push(root);
+    items.push(first - root * 40);
 
     while !reader.is_empty() {
         items.push(parse_one(&mut reader)?);
-- 
2.43.0


From fb4b120b0a08cf6b8318fd8d184c6ce97c1ce29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:21 +0000
Subject: [PATCH 08/16] fix: reject padded object identifiers

DER does not allow a subidentifier to start with the octet 80: with it one
identifier has many encodings.
---
 rx509/src/der/parser.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rx509/src/der/parser.rs b/rx509/src/der/parser.rs
index 58ccb21..e52198e 100644
--- a/rx509/src/der/parser.rs
+++ b/rx509/src/der/parser.rs
@@ -178,6 +178,12 @@ fn parse_object_identifier(contents: &[u8]) -> ASNResult {
             };
 
             let next_byte = reader.read_byte()?;
+
+            // a subidentifier must be encoded in the fewest possible bytes
+            if count == 0 && next_byte == 0b1000_0000 {
+                return Err(ASNErrorVariant::BadOidLength);
+            }
+
             let has_next: bool = (next_byte & 0b1000_0000) != 0;
             let value: u32 = (next_byte & 0b0111_1111) as u32;
 
-- 
2.43.0


From de1a850479869abfa36a984a5690fe6fabd10356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:22 +0000
Subject: [PATCH 09/16] fix: do not take a truncated element for the end of a
 list

expect_or_end() treated every EndOfStream error as the end, also one from
within an element, so truncated extension lists, names and the like were
silently shortened.
---
 rx509/src/der/parser.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rx509/src/der/parser.rs b/rx509/src/der/parser.rs
index e52198e..6acce79 100644
--- a/rx509/src/der/parser.rs
+++ b/rx509/src/der/parser.rs
@@ -447,11 +447,11 @@ impl<'a> Parser<'a> {
     pub(crate) fn expect_or_end<T: ASNWrapperType<'a>>(
         &mut self,
     ) -> Result<Option<T::Item>, ASNErrorVariant> {
-        match self.expect::<T>() {
-            Ok(value) => Ok(Some(value)),
-            Err(ASNErrorVariant::EndOfStream) => Ok(None),
-            Err(err) => Err(err),
+        if self.reader.is_empty() {
+            return Ok(None);
         }
+
+        Ok(Some(self.expect::<T>()?))
     }
 
     pub(crate) fn expect_any(&mut self) -> Result<ASNType<'a>, ASNErrorVariant> {
-- 
2.43.0


From 6ea4352a5f4c14a54de95e803489eec657fe3017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:23 +0000
Subject: [PATCH 10/16] fix: reject trailing elements in an algorithm
 identifier

---
 rx509/src/x509/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rx509/src/x509/mod.rs b/rx509/src/x509/mod.rs
index 4a1d470..94d5449 100644
--- a/rx509/src/x509/mod.rs
+++ b/rx509/src/x509/mod.rs
@@ -394,12 +394,12 @@ impl<'a> Certificate<'a> {
 
 impl<'a> AlgorithmIdentifier<'a> {
     fn parse(input: &[u8]) -> Result<AlgorithmIdentifier, ASNErrorVariant> {
-        let mut parser = Parser::new(input);
-
-        Ok(AlgorithmIdentifier::new(
-            parser.expect::<ObjectIdentifier>()?,
-            parser.expect_any_or_end()?,
-        ))
+        Parser::parse_all(input, |parser| {
+            Ok(AlgorithmIdentifier::new(
+                parser.expect::<ObjectIdentifier>()?,
+                parser.expect_any_or_end()?,
+            ))
+        })
     }
 
     pub fn new(algorithm: ASNObjectIdentifier, parameters: Option<ASNType>) -> AlgorithmIdentifier {
-- 
2.43.0


From 5bfb2996c2514ad8b43c8f66dc95bcdbbc26651e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:44 +0000
Subject: [PATCH 11/16] fix: reject trailing elements in the version tag of a
 certificate

---
 rx509/src/der/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rx509/src/der/parser.rs b/rx509/src/der/parser.rs
index 6acce79..ec96291 100644
--- a/rx509/src/der/parser.rs
+++ b/rx509/src/der/parser.rs
@@ -369,7 +369,9 @@ impl<'a> Parser<'a> {
         match self.get_optional_explicit_tag(tag)? {
             Some(tag) => {
                 let mut parser = Parser::new(tag.contents);
-                Ok(Some(parser.expect::<T>()?))
+                let value = parser.expect::<T>()?;
+                parser.expect_end()?;
+                Ok(Some(value))
             }
             None => Ok(None),
         }
-- 
2.43.0


From acd82a1491ed2c42bae1a7b908bb040a73fd3693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:45 +0000
Subject: [PATCH 12/16] fix: decode the unique identifiers of a certificate as
 implicitly tagged

RFC 5280 defines issuerUniqueID and subjectUniqueID as [1] and [2] IMPLICIT
BIT STRINGs, so certificates that have them were rejected.
---
 rx509/src/x509/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rx509/src/x509/mod.rs b/rx509/src/x509/mod.rs
index 94d5449..6753e90 100644
--- a/rx509/src/x509/mod.rs
+++ b/rx509/src/x509/mod.rs
@@ -459,9 +459,10 @@ impl<'a> TBSCertificate<'a> {
         ) -> Result<Option<ASNBitString<'a>>, ASNErrorVariant> {
             // TODO: check minimum version
             match parser.get_optional_explicit_tag(tag)? {
-                Some(tag) => Parser::parse_all(tag.contents, |parser| {
-                    Ok(Some(parser.expect::<BitString>()?))
-                }),
+                // the tags of the unique identifiers are implicit
+                Some(tag) => Ok(Some(
+                    Parser::new(tag.contents).parse_implicit::<BitString>()?,
+                )),
                 None => Ok(None),
             }
         }
-- 
2.43.0


From f5cd0cccaa01f8e3b6d15fe6324497f89ed79f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:46 +0000
Subject: [PATCH 13/16] fix: reject trailing elements in the contents of
 extensions

They were ignored in subject key identifiers, key usages and basic
constraints.
---
 rx509/src/x509/ext.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/rx509/src/x509/ext.rs b/rx509/src/x509/ext.rs
index 86a8b8b..5ec7795 100644
--- a/rx509/src/x509/ext.rs
+++ b/rx509/src/x509/ext.rs
@@ -124,8 +124,7 @@ pub struct SubjectKeyIdentifier<'a> {
 
 impl<'a> SubjectKeyIdentifier<'a> {
     fn parse(input: &[u8]) -> Result<SubjectKeyIdentifier, ASNErrorVariant> {
-        let mut parser = Parser::new(input);
-        let key_identifier = parser.expect::<OctetString>()?;
+        let key_identifier = Parser::parse_all(input, |parser| parser.expect::<OctetString>())?;
         Ok(SubjectKeyIdentifier { key_identifier })
     }
 }
@@ -157,8 +156,7 @@ pub struct KeyUsage {
 
 impl KeyUsage {
     fn parse(input: &[u8]) -> Result<KeyUsage, ASNErrorVariant> {
-        let mut parser = Parser::new(input);
-        let bit_string = parser.expect::<BitString>()?;
+        let bit_string = Parser::parse_all(input, |parser| parser.expect::<BitString>())?;
 
         let mut key_usage = KeyUsage {
             digital_signature: false,
@@ -346,6 +344,7 @@ impl BasicConstraints {
             },
             None => Ok(None),
         }?;
+        parser.expect_end()?;
 
         Ok(BasicConstraints {
             ca,
-- 
2.43.0


From 37cbf0520144c7b140232f9d1a8599cbfb5c9470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:47 +0000
Subject: [PATCH 14/16] fix: reject the multi-byte form of context-specific
 tags

The first byte of the tag number was taken for the length of the contents.
---
 rx509/src/der/parser.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rx509/src/der/parser.rs b/rx509/src/der/parser.rs
index ec96291..27b2f8f 100644
--- a/rx509/src/der/parser.rs
+++ b/rx509/src/der/parser.rs
@@ -299,6 +299,13 @@ fn read_type(id: &Identifier) -> Option<(ASNTypeId, u8)> {
             _ => None,
         },
 
+        // announces a tag number in the following bytes, which isn't supported
+        Identifier {
+            class: TagClass::ContextSpecific,
+            tag: 0x1F,
+            ..
+        } => None,
+
         Identifier {
             class: TagClass::ContextSpecific,
             tag,
-- 
2.43.0


From f2a359f1c8919531311bd66dc549e2998e34e490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:13 +0000
Subject: [PATCH 15/16] fix: count the bits of a key usage without overflow

The offset was an i32, so a key usage of 2^31 bits or more panicked or, with
overflow checks off, had its usages overwritten by bits 2^32 and up.
---
 rx509/src/x509/ext.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rx509/src/x509/ext.rs b/rx509/src/x509/ext.rs
index 5ec7795..d7ff0ae 100644
--- a/rx509/src/x509/ext.rs
+++ b/rx509/src/x509/ext.rs
@@ -169,7 +169,7 @@ impl KeyUsage {
             encipher_only: false,
             decipher_only: false,
         };
-        let mut offset = 0;
+        let mut offset: usize = 0;
         for bit in bit_string.iter() {
             match offset {
                 0 => key_usage.digital_signature = bit,
-- 
2.43.0


From 285c0445530c99d1396c36ca0b55df31cacf13e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:58 +0000
Subject: [PATCH 16/16] fix: the decoder accepts file names that are not
 Unicode

---
 decoder/src/main.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/decoder/src/main.rs b/decoder/src/main.rs
index 2027dcc..31b80ce 100644
--- a/decoder/src/main.rs
+++ b/decoder/src/main.rs
@@ -1,6 +1,7 @@
 mod der_printer;
 
 use std::env;
+use std::ffi::{OsStr, OsString};
 use std::fs::File;
 use std::io::prelude::*;
 use std::process;
@@ -9,7 +10,7 @@ use rx509::der::parse_all;
 use rx509::x509::printer::{ConsoleLinePrinter, Printable};
 use rx509::x509::Certificate;
 
-fn get_bytes(file: &str) -> Result<Vec<u8>, std::io::Error> {
+fn get_bytes(file: &OsStr) -> Result<Vec<u8>, std::io::Error> {
     let mut f = File::open(file)?;
     let mut vec: Vec<u8> = Vec::new();
     f.read_to_end(&mut vec)?;
@@ -33,14 +34,14 @@ pub fn main() -> Result<(), std::io::Error> {
         Ok(())
     }
 
-    let args: Vec<String> = env::args().collect();
+    let args: Vec<OsString> = env::args_os().collect();
 
     if args.len() != 3 {
         eprintln!("requires exactly 2 arguments: decoder <--der | --certs> <filename>");
         process::exit(-1);
     }
 
-    match args[1].as_str() {
+    match args[1].to_string_lossy().as_ref() {
         "--der" => parse_der(&get_bytes(&args[2])?),
         "--certs" => parse_x509(&get_bytes(&args[2])?),
         unknown => {
-- 
2.43.0

