From f59645fb3b155be1eba6dd42e76a5995e1f15cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:29 +0000
Subject: [PATCH 01/32] hook: deterministic hash tables under cfg(rexpat_symx)
 for symbolic execution

---
 src/lib.rs          |  2 +
 src/lib/xmlparse.rs |  6 ++-
 src/symx_hash.rs    | 98 +++++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 105 insertions(+), 1 deletion(-)
 create mode 100644 src/symx_hash.rs

diff --git a/src/lib.rs b/src/lib.rs
index fce252d..c3b36cb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -34,6 +34,8 @@ pub mod xmltchar_h;
 pub mod xmltok_impl_h;
 
 mod fallible_rc;
+#[cfg(rexpat_symx)]
+mod symx_hash;
 
 pub mod lib {
     pub mod nametab;
diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 4aaba1b..5b033d5 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -71,7 +71,11 @@ use fallible_collections::FallibleBox;
 use std::alloc::{self, Layout};
 use std::cell::{Cell, RefCell};
 use std::cmp;
-use std::collections::{HashMap, HashSet, TryReserveError, hash_map};
+#[cfg(rexpat_symx)]
+use crate::symx_hash::{HashMap, HashSet};
+#[cfg(not(rexpat_symx))]
+use std::collections::{HashMap, HashSet};
+use std::collections::{TryReserveError, hash_map};
 use std::convert::{TryFrom, TryInto};
 use std::mem;
 use std::ops;
diff --git a/src/symx_hash.rs b/src/symx_hash.rs
new file mode 100644
index 0000000..7bc0553
--- /dev/null
+++ b/src/symx_hash.rs
@@ -0,0 +1,98 @@
+//! Hook for symbolic execution, compiled only with `--cfg rexpat_symx`: `HashMap` and
+//! `HashSet` with a hasher that depends only on the amount of data hashed, so that a
+//! table lookup with symbolic key bytes is decided by key equality alone.
+use std::collections::{hash_map, hash_set};
+use std::hash::{BuildHasherDefault, Hash, Hasher};
+use std::ops::{Deref, DerefMut};
+
+#[derive(Clone, Default)]
+pub struct LenHasher(u64);
+
+impl Hasher for LenHasher {
+    fn finish(&self) -> u64 {
+        self.0.wrapping_mul(0x9e37_79b9_7f4a_7c15)
+    }
+    fn write(&mut self, bytes: &[u8]) {
+        self.0 = self.0.wrapping_add(bytes.len() as u64);
+    }
+}
+
+type Build = BuildHasherDefault<LenHasher>;
+
+#[derive(Clone)]
+pub struct HashMap<K, V>(hash_map::HashMap<K, V, Build>);
+
+impl<K: Hash + Eq, V> HashMap<K, V> {
+    pub fn new() -> Self {
+        Self::default()
+    }
+}
+impl<K, V> Default for HashMap<K, V> {
+    fn default() -> Self {
+        HashMap(hash_map::HashMap::with_hasher(Build::default()))
+    }
+}
+impl<K, V> Deref for HashMap<K, V> {
+    type Target = hash_map::HashMap<K, V, Build>;
+    fn deref(&self) -> &Self::Target {
+        &self.0
+    }
+}
+impl<K, V> DerefMut for HashMap<K, V> {
+    fn deref_mut(&mut self) -> &mut Self::Target {
+        &mut self.0
+    }
+}
+impl<'a, K, V> IntoIterator for &'a HashMap<K, V> {
+    type Item = (&'a K, &'a V);
+    type IntoIter = hash_map::Iter<'a, K, V>;
+    fn into_iter(self) -> Self::IntoIter {
+        self.0.iter()
+    }
+}
+impl<'a, K, V> IntoIterator for &'a mut HashMap<K, V> {
+    type Item = (&'a K, &'a mut V);
+    type IntoIter = hash_map::IterMut<'a, K, V>;
+    fn into_iter(self) -> Self::IntoIter {
+        self.0.iter_mut()
+    }
+}
+impl<K, V> IntoIterator for HashMap<K, V> {
+    type Item = (K, V);
+    type IntoIter = hash_map::IntoIter<K, V>;
+    fn into_iter(self) -> Self::IntoIter {
+        self.0.into_iter()
+    }
+}
+
+#[derive(Clone)]
+pub struct HashSet<T>(hash_set::HashSet<T, Build>);
+
+impl<T: Hash + Eq> HashSet<T> {
+    pub fn new() -> Self {
+        Self::default()
+    }
+}
+impl<T> Default for HashSet<T> {
+    fn default() -> Self {
+        HashSet(hash_set::HashSet::with_hasher(Build::default()))
+    }
+}
+impl<T> Deref for HashSet<T> {
+    type Target = hash_set::HashSet<T, Build>;
+    fn deref(&self) -> &Self::Target {
+        &self.0
+    }
+}
+impl<T> DerefMut for HashSet<T> {
+    fn deref_mut(&mut self) -> &mut Self::Target {
+        &mut self.0
+    }
+}
+impl<'a, T> IntoIterator for &'a HashSet<T> {
+    type Item = &'a T;
+    type IntoIter = hash_set::Iter<'a, T>;
+    fn into_iter(self) -> Self::IntoIter {
+        self.0.iter()
+    }
+}
-- 
2.43.0


From d5f554ebe89c8b6257d857c02b71afe81876fab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:46 +0000
Subject: [PATCH 02/32] fix: reject malformed UTF-8 sequences in names

Names made of 2-, 3- and 4-byte sequences were only checked against the name
character tables, which mask off the marker bits of the continuation bytes, so
ill-formed sequences were accepted and passed on to the application
(libexpat: CVE-2022-25235).
---
 src/lib/xmltok_impl.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib/xmltok_impl.rs b/src/lib/xmltok_impl.rs
index 5d41751..4aebb61 100644
--- a/src/lib/xmltok_impl.rs
+++ b/src/lib/xmltok_impl.rs
@@ -68,7 +68,7 @@ macro_rules! CHECK_NAME_CASES {
                 if $buf.len() < n as usize {
                     return XML_TOK::PARTIAL_CHAR;
                 }
-                if !$self.is_name_char($buf.as_ptr(), n) {
+                if $self.is_invalid_char($buf.as_ptr(), n) || !$self.is_name_char($buf.as_ptr(), n) {
                     *$nextTokPtr = $buf.as_ptr();
                     return XML_TOK::INVALID;
                 }
@@ -98,7 +98,7 @@ macro_rules! CHECK_NMSTRT_CASES {
                 if $buf.len() < n as usize {
                     return XML_TOK::PARTIAL_CHAR;
                 }
-                if !$self.is_nmstrt_char($buf.as_ptr(), n) {
+                if $self.is_invalid_char($buf.as_ptr(), n) || !$self.is_nmstrt_char($buf.as_ptr(), n) {
                     *$nextTokPtr = $buf.as_ptr();
                     return XML_TOK::INVALID;
                 }
@@ -1062,6 +1062,10 @@ impl<T: XmlEncodingImpl+XmlTokImpl> XmlEncoding for T {
                 if (buf.len() as c_long) < n as c_long {
                     return XML_TOK::PARTIAL_CHAR;
                 }
+                if self.is_invalid_char(buf.as_ptr(), n) {
+                    *nextTokPtr = buf.as_ptr();
+                    return XML_TOK::INVALID;
+                }
                 if self.is_nmstrt_char(buf.as_ptr(), n) {
                     buf = buf.inc_start(n as isize);
                     tok = XML_TOK::NAME;
-- 
2.43.0


From 13058418ec5d3f73b32803a80af9244566ea4031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:20:00 +0000
Subject: [PATCH 03/32] fix: do not sign-extend the byte indexing the UTF-16BE
 byte type table

Characters U+0080 to U+00FF in a big-endian UTF-16 document indexed the
table with a sign-extended char and panicked.
---
 src/lib/xmltok.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/xmltok.rs b/src/lib/xmltok.rs
index aaf97f9..09702c2 100644
--- a/src/lib/xmltok.rs
+++ b/src/lib/xmltok.rs
@@ -1019,7 +1019,7 @@ impl<T: NormalEncodingTable> XmlEncodingImpl for Big2EncodingImpl<T> {
     fn byte_type(&self, p: *const c_char) -> ByteType {
         let bytes = unsafe { (*p, *p.offset(1)) };
         if bytes.0 == 0 {
-            T::types[bytes.1 as usize]
+            T::types[bytes.1 as u8 as usize]
         } else {
             unicode_byte_type(bytes.0, bytes.1)
         }
-- 
2.43.0


From bf3afc383d1ffcedf69368bc5b35dac1abd4fca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:32:34 +0000
Subject: [PATCH 04/32] fix: end the reported XML declaration version before
 its closing quote

---
 src/lib/xmltok.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/xmltok.rs b/src/lib/xmltok.rs
index 09702c2..591e535 100644
--- a/src/lib/xmltok.rs
+++ b/src/lib/xmltok.rs
@@ -3013,7 +3013,11 @@ fn doParseXmlDecl<'a>(
             return 0;
         }
     } else {
-        *versionBuf = val_buf;
+        // the value ends before its closing quote
+        *versionBuf = val_buf.map(|val| {
+            val.with_end(pseudo_ptr)
+                .dec_end((*enc).minBytesPerChar() as usize)
+        });
         #[cfg(feature = "mozilla")]
         {
             if !(*enc).nameMatchesAscii(val_buf
-- 
2.43.0


From 6d28c54402a9b6e72d993b9a9697c2340bc32e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:32:34 +0000
Subject: [PATCH 05/32] fix: keep the encoding and version strings passed to
 the XmlDecl handler apart

---
 src/lib/xmlparse.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 5b033d5..e734571 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -5269,7 +5269,7 @@ impl XML_ParserStruct {
                     return XML_Error::NO_MEMORY;
                 }
 
-                storedEncName = self.m_temp2Pool.current_start();
+                storedEncName = self.m_temp2Pool.finish_string().as_ptr();
             }
             if let Some(version_buf) = version_buf {
                 let successful = self.m_temp2Pool.store_c_string(
@@ -5280,7 +5280,7 @@ impl XML_ParserStruct {
                     return XML_Error::NO_MEMORY;
                 }
 
-                storedversion = self.m_temp2Pool.current_start();
+                storedversion = self.m_temp2Pool.finish_string().as_ptr();
             }
             self.m_handlers.xmlDecl(
                 storedversion,
-- 
2.43.0


From 787b419a0930b295708c3954f870e3f57cc73e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:36:16 +0000
Subject: [PATCH 06/32] fix: detect duplicate expanded attribute names when
 reporting triplets

---
 src/lib/xmlparse.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index e734571..303fb45 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -4530,6 +4530,8 @@ impl XML_ParserStruct {
                     if ret != XML_Error::NONE {
                         return ret;
                     }
+                    /* length of the expanded name without its prefix and null terminator */
+                    let uriNameLen = self.m_tempPool.len() - 1;
                     if self.m_ns_triplets {
                         /* append namespace separator and prefix */
                         self.m_tempPool.replace_last_char(self.m_namespaceSeparator);
@@ -4548,7 +4550,8 @@ impl XML_ParserStruct {
                     if ret != XML_Error::NONE { return ret; }
                     /* store expanded name in attribute list */
                     self.m_atts[i].name = self.m_tempPool.finish_string().as_ptr();
-                    let hk = HashKey::from(self.m_atts[i].name as KEY);
+                    /* the prefix of a triplet takes no part in duplicate detection */
+                    let hk = HashKey(std::slice::from_raw_parts(self.m_atts[i].name as KEY, uriNameLen));
                     self.m_nsAtts.insert(hk);
                     nPrefixes -= 1;
                     if nPrefixes == 0 && nXMLNSDeclarations == 0 {
-- 
2.43.0


From b3b5244ce8238c083e60f82433bf21928841f3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:57:08 +0000
Subject: [PATCH 07/32] fix: advance past multi-byte characters when converting
 UTF-8 to UTF-16

---
 src/lib/xmltok.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/xmltok.rs b/src/lib/xmltok.rs
index 591e535..c37026a 100644
--- a/src/lib/xmltok.rs
+++ b/src/lib/xmltok.rs
@@ -601,7 +601,7 @@ impl<T: NormalEncodingTable> XmlEncodingImpl for Utf8EncodingImpl<T> {
                                  | from[1] as c_int & 0x3f)
                             as c_ushort;
                         to.inc_start(1);
-                        from.inc_start(2);
+                        *from = from.inc_start(2)
                     }
                 }
                 6 => {
@@ -614,7 +614,7 @@ impl<T: NormalEncodingTable> XmlEncodingImpl for Utf8EncodingImpl<T> {
                                  | from[2] as c_int & 0x3f)
                             as c_ushort;
                         to.inc_start(1);
-                        from.inc_start(3);
+                        *from = from.inc_start(3)
                     }
                 }
                 7 => {
@@ -644,7 +644,7 @@ impl<T: NormalEncodingTable> XmlEncodingImpl for Utf8EncodingImpl<T> {
                 }
             }
         }
-        if !from.is_empty() {
+        if res == XML_Convert_Result::COMPLETED && !from.is_empty() {
             res = XML_Convert_Result::OUTPUT_EXHAUSTED
         }
         res
-- 
2.43.0


From 62dd3fbfe98b8d374b314903ee9b743f44ab1123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:58:09 +0000
Subject: [PATCH 08/32] fix: convert Latin-1 to UTF-16 while there is room in
 the output, without sign extension

---
 src/lib/xmltok.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/xmltok.rs b/src/lib/xmltok.rs
index c37026a..7279aa9 100644
--- a/src/lib/xmltok.rs
+++ b/src/lib/xmltok.rs
@@ -1919,8 +1919,8 @@ fn latin1_toUtf16(
     mut from: &mut ExpatBufRef,
     to: &mut ExpatBufRefMut<u16>,
 ) -> XML_Convert_Result {
-    while !from.is_empty() && to.is_empty() {
-        to[0] = from[0] as u16;
+    while !from.is_empty() && !to.is_empty() {
+        to[0] = from[0] as c_uchar as u16;
         to.inc_start(1);
         *from = from.inc_start(1);
     }
-- 
2.43.0


From 8c5e705b4b0044e9fca4ca405c168f3c7c16bf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:58:35 +0000
Subject: [PATCH 09/32] fix: U+00AA, U+00B5 and U+00BA are not name characters
 in Latin-1 and UTF-16 documents either

---
 src/lib/xmltok.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/lib/xmltok.rs b/src/lib/xmltok.rs
index 7279aa9..5855b04 100644
--- a/src/lib/xmltok.rs
+++ b/src/lib/xmltok.rs
@@ -1519,11 +1519,11 @@ impl NormalEncodingTable for Latin1EncodingTable {
         /* 0x9C */ ByteType::OTHER, ByteType::OTHER, ByteType::OTHER, ByteType::OTHER,
         /* 0xA0 */ ByteType::OTHER, ByteType::OTHER, ByteType::OTHER, ByteType::OTHER,
         /* 0xA4 */ ByteType::OTHER, ByteType::OTHER, ByteType::OTHER, ByteType::OTHER,
-        /* 0xA8 */ ByteType::OTHER, ByteType::OTHER, ByteType::NMSTRT, ByteType::OTHER,
+        /* 0xA8 */ ByteType::OTHER, ByteType::OTHER, ByteType::OTHER, ByteType::OTHER,
         /* 0xAC */ ByteType::OTHER, ByteType::OTHER, ByteType::OTHER, ByteType::OTHER,
         /* 0xB0 */ ByteType::OTHER, ByteType::OTHER, ByteType::OTHER, ByteType::OTHER,
-        /* 0xB4 */ ByteType::OTHER, ByteType::NMSTRT, ByteType::OTHER, ByteType::NAME,
-        /* 0xB8 */ ByteType::OTHER, ByteType::OTHER, ByteType::NMSTRT, ByteType::OTHER,
+        /* 0xB4 */ ByteType::OTHER, ByteType::OTHER, ByteType::OTHER, ByteType::NAME,
+        /* 0xB8 */ ByteType::OTHER, ByteType::OTHER, ByteType::OTHER, ByteType::OTHER,
         /* 0xBC */ ByteType::OTHER, ByteType::OTHER, ByteType::OTHER, ByteType::OTHER,
         /* 0xC0 */ ByteType::NMSTRT, ByteType::NMSTRT, ByteType::NMSTRT, ByteType::NMSTRT,
         /* 0xC4 */ ByteType::NMSTRT, ByteType::NMSTRT, ByteType::NMSTRT, ByteType::NMSTRT,
@@ -1593,11 +1593,11 @@ impl NormalEncodingTable for Latin1EncodingTableNS {
         /* 0x9C */ ByteType::OTHER, ByteType::OTHER, ByteType::OTHER, ByteType::OTHER,
         /* 0xA0 */ ByteType::OTHER, ByteType::OTHER, ByteType::OTHER, ByteType::OTHER,
         /* 0xA4 */ ByteType::OTHER, ByteType::OTHER, ByteType::OTHER, ByteType::OTHER,
-        /* 0xA8 */ ByteType::OTHER, ByteType::OTHER, ByteType::NMSTRT, ByteType::OTHER,
+        /* 0xA8 */ ByteType::OTHER, ByteType::OTHER, ByteType::OTHER, ByteType::OTHER,
         /* 0xAC */ ByteType::OTHER, ByteType::OTHER, ByteType::OTHER, ByteType::OTHER,
         /* 0xB0 */ ByteType::OTHER, ByteType::OTHER, ByteType::OTHER, ByteType::OTHER,
-        /* 0xB4 */ ByteType::OTHER, ByteType::NMSTRT, ByteType::OTHER, ByteType::NAME,
-        /* 0xB8 */ ByteType::OTHER, ByteType::OTHER, ByteType::NMSTRT, ByteType::OTHER,
+        /* 0xB4 */ ByteType::OTHER, ByteType::OTHER, ByteType::OTHER, ByteType::NAME,
+        /* 0xB8 */ ByteType::OTHER, ByteType::OTHER, ByteType::OTHER, ByteType::OTHER,
         /* 0xBC */ ByteType::OTHER, ByteType::OTHER, ByteType::OTHER, ByteType::OTHER,
         /* 0xC0 */ ByteType::NMSTRT, ByteType::NMSTRT, ByteType::NMSTRT, ByteType::NMSTRT,
         /* 0xC4 */ ByteType::NMSTRT, ByteType::NMSTRT, ByteType::NMSTRT, ByteType::NMSTRT,
@@ -1668,11 +1668,11 @@ impl NormalEncodingTable for InternalLatin1EncodingTable {
         /* 0x9C */ ByteType::OTHER, ByteType::OTHER, ByteType::OTHER, ByteType::OTHER,
         /* 0xA0 */ ByteType::OTHER, ByteType::OTHER, ByteType::OTHER, ByteType::OTHER,
         /* 0xA4 */ ByteType::OTHER, ByteType::OTHER, ByteType::OTHER, ByteType::OTHER,
-        /* 0xA8 */ ByteType::OTHER, ByteType::OTHER, ByteType::NMSTRT, ByteType::OTHER,
+        /* 0xA8 */ ByteType::OTHER, ByteType::OTHER, ByteType::OTHER, ByteType::OTHER,
         /* 0xAC */ ByteType::OTHER, ByteType::OTHER, ByteType::OTHER, ByteType::OTHER,
         /* 0xB0 */ ByteType::OTHER, ByteType::OTHER, ByteType::OTHER, ByteType::OTHER,
-        /* 0xB4 */ ByteType::OTHER, ByteType::NMSTRT, ByteType::OTHER, ByteType::NAME,
-        /* 0xB8 */ ByteType::OTHER, ByteType::OTHER, ByteType::NMSTRT, ByteType::OTHER,
+        /* 0xB4 */ ByteType::OTHER, ByteType::OTHER, ByteType::OTHER, ByteType::NAME,
+        /* 0xB8 */ ByteType::OTHER, ByteType::OTHER, ByteType::OTHER, ByteType::OTHER,
         /* 0xBC */ ByteType::OTHER, ByteType::OTHER, ByteType::OTHER, ByteType::OTHER,
         /* 0xC0 */ ByteType::NMSTRT, ByteType::NMSTRT, ByteType::NMSTRT, ByteType::NMSTRT,
         /* 0xC4 */ ByteType::NMSTRT, ByteType::NMSTRT, ByteType::NMSTRT, ByteType::NMSTRT,
@@ -1743,11 +1743,11 @@ impl NormalEncodingTable for InternalLatin1EncodingTableNS {
         /* 0x9C */ ByteType::OTHER, ByteType::OTHER, ByteType::OTHER, ByteType::OTHER,
         /* 0xA0 */ ByteType::OTHER, ByteType::OTHER, ByteType::OTHER, ByteType::OTHER,
         /* 0xA4 */ ByteType::OTHER, ByteType::OTHER, ByteType::OTHER, ByteType::OTHER,
-        /* 0xA8 */ ByteType::OTHER, ByteType::OTHER, ByteType::NMSTRT, ByteType::OTHER,
+        /* 0xA8 */ ByteType::OTHER, ByteType::OTHER, ByteType::OTHER, ByteType::OTHER,
         /* 0xAC */ ByteType::OTHER, ByteType::OTHER, ByteType::OTHER, ByteType::OTHER,
         /* 0xB0 */ ByteType::OTHER, ByteType::OTHER, ByteType::OTHER, ByteType::OTHER,
-        /* 0xB4 */ ByteType::OTHER, ByteType::NMSTRT, ByteType::OTHER, ByteType::NAME,
-        /* 0xB8 */ ByteType::OTHER, ByteType::OTHER, ByteType::NMSTRT, ByteType::OTHER,
+        /* 0xB4 */ ByteType::OTHER, ByteType::OTHER, ByteType::OTHER, ByteType::NAME,
+        /* 0xB8 */ ByteType::OTHER, ByteType::OTHER, ByteType::OTHER, ByteType::OTHER,
         /* 0xBC */ ByteType::OTHER, ByteType::OTHER, ByteType::OTHER, ByteType::OTHER,
         /* 0xC0 */ ByteType::NMSTRT, ByteType::NMSTRT, ByteType::NMSTRT, ByteType::NMSTRT,
         /* 0xC4 */ ByteType::NMSTRT, ByteType::NMSTRT, ByteType::NMSTRT, ByteType::NMSTRT,
-- 
2.43.0


From af9a4bfae395e8f0cf2ddcc9d9d9be7bf531f5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:37:47 +0000
Subject: [PATCH 10/32] fix: remember where a resumed parser stopped reading
 its buffer

---
 src/lib/xmlparse.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 303fb45..548bc5b 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -2946,11 +2946,15 @@ impl XML_ParserStruct {
             return XML_Status::ERROR;
         }
         self.m_parsingStatus.parsing = XML_Parsing::PARSING;
+        // convert in-out parameter `start` from index to pointer
+        let mut start: *const c_char = self.m_buffer.as_ptr().add(self.m_bufferStart);
         self.m_errorCode = self.m_processor.expect("non-null function pointer")(
             self,
             self.m_buffer[self.m_bufferStart..self.m_parseEndIdx].into(),
-            &mut (&self.m_buffer[self.m_bufferStart] as *const _),
+            &mut start,
         );
+        // convert in-out parameter `start` from pointer back to index
+        self.m_bufferStart = start.wrapping_offset_from(self.m_buffer.as_ptr()) as usize;
         if self.m_errorCode != XML_Error::NONE {
             self.m_eventEndPtr = self.m_eventPtr;
             self.m_processor = Some(errorProcessor as Processor);
-- 
2.43.0


From 2aa5437188029f49c6cd2380e90f22eabb808b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:42:25 +0000
Subject: [PATCH 11/32] fix: keep internal entities open while the parser is
 suspended in them

---
 src/lib/xmlparse.rs | 84 ++++++++++++++++++++++++---------------------
 1 file changed, 44 insertions(+), 40 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 548bc5b..1852869 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -7018,7 +7018,9 @@ impl XML_ParserStruct {
             )
         }
         if result == XML_Error::NONE {
-            if text_buf.end() != next && self.m_parsingStatus.parsing == XML_Parsing::SUSPENDED {
+            /* A suspended entity stays open even if nothing is left of its text: it may contain
+            an inner entity that is still open, and its end has not been checked yet. */
+            if self.m_parsingStatus.parsing == XML_Parsing::SUSPENDED {
                 (*entity).processed = next.wrapping_offset_from(text_buf.as_ptr()) as i32;
                 self.m_processor = Some(internalEntityProcessor as Processor)
             } else {
@@ -7068,49 +7070,51 @@ unsafe extern "C" fn internalEntityProcessor(
     if openEntity.is_null() {
         return XML_Error::UNEXPECTED_STATE;
     }
-    entity = (*openEntity).entity;
-    let text_buf = ExpatBufRef::new(
-        ((*entity).textPtr as *mut c_char).offset((*entity).processed as isize),
-        (*entity).textPtr.offset((*entity).textLen as isize) as *mut c_char,
-    );
-    /* Set a safe default value in case 'next' does not get set */
-    next = text_buf.as_ptr();
-    if (*entity).is_param {
-        let mut tok =
-            (*(*parser).m_internalEncoding).xmlTok(XML_STATE::PROLOG, text_buf, &mut next);
-        result = (*parser).doProlog(
-            EncodingType::Internal,
-            text_buf,
-            tok,
-            next,
-            &mut next,
-            false,
-            true,
-        )
-    } else {
-        /* XML_DTD */
-        result = (*parser).doContent(
-            (*openEntity).startTagLevel,
-            EncodingType::Internal,
-            text_buf,
-            &mut next,
-            false,
-        )
-    }
-    if result != XML_Error::NONE {
-        return result;
-    } else {
-        if text_buf.end() != next && (*parser).m_parsingStatus.parsing == XML_Parsing::SUSPENDED {
+    /* Finish all entities that were open when the parser was suspended, the innermost first */
+    while !openEntity.is_null() {
+        entity = (*openEntity).entity;
+        let text_buf = ExpatBufRef::new(
+            ((*entity).textPtr as *mut c_char).offset((*entity).processed as isize),
+            (*entity).textPtr.offset((*entity).textLen as isize) as *mut c_char,
+        );
+        /* Set a safe default value in case 'next' does not get set */
+        next = text_buf.as_ptr();
+        if (*entity).is_param {
+            let mut tok =
+                (*(*parser).m_internalEncoding).xmlTok(XML_STATE::PROLOG, text_buf, &mut next);
+            result = (*parser).doProlog(
+                EncodingType::Internal,
+                text_buf,
+                tok,
+                next,
+                &mut next,
+                false,
+                true,
+            )
+        } else {
+            /* XML_DTD */
+            result = (*parser).doContent(
+                (*openEntity).startTagLevel,
+                EncodingType::Internal,
+                text_buf,
+                &mut next,
+                false,
+            )
+        }
+        if result != XML_Error::NONE {
+            return result;
+        }
+        if (*parser).m_parsingStatus.parsing == XML_Parsing::SUSPENDED {
             (*entity).processed =
                 next.wrapping_offset_from((*entity).textPtr as *mut c_char) as c_int;
             return result;
-        } else {
-            (*entity).open = false;
-            (*parser).m_openInternalEntities = (*openEntity).next;
-            /* put openEntity back in list of free instances */
-            (*openEntity).next = (*parser).m_freeInternalEntities;
-            (*parser).m_freeInternalEntities = openEntity
         }
+        (*entity).open = false;
+        (*parser).m_openInternalEntities = (*openEntity).next;
+        /* put openEntity back in list of free instances */
+        (*openEntity).next = (*parser).m_freeInternalEntities;
+        (*parser).m_freeInternalEntities = openEntity;
+        openEntity = (*parser).m_openInternalEntities;
     }
     if (*entity).is_param {
         (*parser).m_processor = Some(prologProcessor as Processor);
-- 
2.43.0


From 227ac482114123a2bc63537ed5b458b1030117c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:46:38 +0000
Subject: [PATCH 12/32] fix: do not panic when asked for a position after
 XML_GetBuffer moved the buffer

---
 src/lib/xmlparse.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 1852869..e53b14d 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -3109,7 +3109,11 @@ pub unsafe extern "C" fn XML_GetCurrentLineNumber(mut parser: XML_Parser) -> XML
     if parser.is_null() {
         return 0;
     }
-    let positionPtr = (*parser).m_buffer.as_ptr().wrapping_add((*parser).m_positionIdx.unwrap());
+    /* There is neither a position nor an event while XML_GetBuffer() has moved the buffer */
+    let positionPtr = match (*parser).m_positionIdx {
+        Some(idx) => (*parser).m_buffer.as_ptr().wrapping_add(idx),
+        None => ptr::null(),
+    };
     if !(*parser).m_eventPtr.is_null() && (*parser).m_eventPtr >= positionPtr {
         (*(*parser).m_encoding).updatePosition(
             ExpatBufRef::new(
@@ -3129,7 +3133,11 @@ pub unsafe extern "C" fn XML_GetCurrentColumnNumber(mut parser: XML_Parser) -> X
     if parser.is_null() {
         return 0;
     }
-    let positionPtr = (*parser).m_buffer.as_ptr().wrapping_add((*parser).m_positionIdx.unwrap());
+    /* There is neither a position nor an event while XML_GetBuffer() has moved the buffer */
+    let positionPtr = match (*parser).m_positionIdx {
+        Some(idx) => (*parser).m_buffer.as_ptr().wrapping_add(idx),
+        None => ptr::null(),
+    };
     if !(*parser).m_eventPtr.is_null() && (*parser).m_eventPtr >= positionPtr {
         (*(*parser).m_encoding).updatePosition(
             ExpatBufRef::new(
-- 
2.43.0


From b442eee6020c489229aa801c43e4768a502cabb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:47:55 +0000
Subject: [PATCH 13/32] fix: report an allocation failure for the prefix of an
 xmlns attribute

---
 src/lib/xmlparse.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index e53b14d..d986637 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -7890,6 +7890,9 @@ impl XML_ParserStruct {
                             &name[6] as *const _,
                             Prefix
                         ).0;
+                        if (*id).prefix.is_null() {
+                            return ptr::null_mut();
+                        }
                     }
                     (*id).xmlns = true
                 } else {
-- 
2.43.0


From 13cd5f1b6f6be0cb4154eb50cafc324d9ae7ac49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:47:55 +0000
Subject: [PATCH 14/32] fix: allow the byte index of an event at the end of a
 full buffer

---
 src/lib/xmlparse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index d986637..a4b75f2 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -854,7 +854,7 @@ impl XML_ParserStruct {
     // TODO(SJC): add a better err type
     fn buffer_index(&self, p: *const c_char) -> Result<usize, ()> {
         if p < self.m_buffer.as_ptr()
-            || p >= self.m_buffer.as_ptr().wrapping_add(self.m_buffer.len())
+            || p > self.m_buffer.as_ptr().wrapping_add(self.m_buffer.len())
         {
             Err(())
         } else {
-- 
2.43.0


From 50aa3d7e935cf1882f4f8376cad45a90c8c18b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:48:12 +0000
Subject: [PATCH 15/32] fix: count a CR LF pair split between two buffers as
 one line

---
 src/lib/xmltok.rs      |  2 ++
 src/lib/xmltok_impl.rs | 12 ++++++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/lib/xmltok.rs b/src/lib/xmltok.rs
index 5855b04..6e582fe 100644
--- a/src/lib/xmltok.rs
+++ b/src/lib/xmltok.rs
@@ -186,6 +186,8 @@ pub struct Position {
     /* first line and first column are 0 not 1 */
     pub lineNumber: XML_Size,
     pub columnNumber: XML_Size,
+    /* a CR was the last character counted: an LF right after it belongs to it */
+    pub afterCR: bool,
 }
 
 #[repr(C)]
diff --git a/src/lib/xmltok_impl.rs b/src/lib/xmltok_impl.rs
index 4aebb61..01d0c5c 100644
--- a/src/lib/xmltok_impl.rs
+++ b/src/lib/xmltok_impl.rs
@@ -1780,6 +1780,13 @@ impl<T: XmlEncodingImpl+XmlTokImpl> XmlEncoding for T {
         mut buf: ExpatBufRef,
         mut pos: &mut Position,
     ) {
+        if (*pos).afterCR && HAS_CHAR!(buf, self) {
+            /* the CR/LF pair was split between two buffers */
+            (*pos).afterCR = false;
+            if self.byte_type(buf.as_ptr()) == ByteType::LF {
+                buf = buf.inc_start(self.MINBPC() as isize)
+            }
+        }
         while HAS_CHAR!(buf, self) {
             MATCH_LEAD_CASES! {
                 self.byte_type(buf.as_ptr()),
@@ -1794,8 +1801,9 @@ impl<T: XmlEncodingImpl+XmlTokImpl> XmlEncoding for T {
                 ByteType::CR => {
                     (*pos).lineNumber = (*pos).lineNumber.wrapping_add(1);
                     buf = buf.inc_start(self.MINBPC() as isize);
-                    if HAS_CHAR!(buf, self) &&
-                           self.byte_type(buf.as_ptr()) == ByteType::LF {
+                    if !HAS_CHAR!(buf, self) {
+                        (*pos).afterCR = true
+                    } else if self.byte_type(buf.as_ptr()) == ByteType::LF {
                         buf = buf.inc_start(self.MINBPC() as isize)
                     }
                     (*pos).columnNumber = -(1 as libc::c_int) as XML_Size
-- 
2.43.0


From dc76fefae2f82f450c3e8250a5f2331723bc95f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:04:06 +0000
Subject: [PATCH 16/32] fix: a parser suspended at the end of a CDATA section
 must not go on

---
 src/lib/xmlparse.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index a4b75f2..361df26 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -4928,11 +4928,14 @@ unsafe extern "C" fn cdataSectionProcessor(
         if (*parser).is_child_parser {
             /* we are parsing an external entity */
             (*parser).m_processor = Some(externalEntityContentProcessor as Processor);
-            return externalEntityContentProcessor(parser, buf, endPtr);
         } else {
             (*parser).m_processor = Some(contentProcessor as Processor);
-            return contentProcessor(parser, buf, endPtr);
         }
+        if (*parser).m_parsingStatus.parsing == XML_Parsing::SUSPENDED {
+            /* suspended by the end of the section: endPtr says where to go on */
+            return XML_Error::NONE;
+        }
+        return (*parser).m_processor.expect("non-null function pointer")(parser, buf, endPtr);
     }
     result
 }
-- 
2.43.0


From c95dba00465cc5c9e2655f7d809ed176fdc125c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:17:51 +0000
Subject: [PATCH 17/32] fix: byte counts of a trailing ] and of an entity
 declaration in error

---
 src/lib/xmlparse.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 361df26..9b2d714 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -4122,6 +4122,8 @@ impl XML_ParserStruct {
                         *nextPtr = buf.as_ptr();
                         return XML_Error::NONE;
                     }
+                    /* the tokenizer does not say where this token ends */
+                    *eventEndPP = buf.end();
                     if self.m_handlers.hasCharacterData() {
                         if MUST_CONVERT!(enc, buf.as_ptr()) {
                             let dataStart = self.m_dataBuf.as_ptr();
@@ -6139,7 +6141,8 @@ impl XML_ParserStruct {
                             (*self.m_declEntity).textLen = self.m_dtd.entityValuePool.len() as c_int;
                             (*self.m_declEntity).textPtr = self.m_dtd.entityValuePool.finish_string().as_ptr();
                             if self.m_handlers.hasEntityDecl() {
-                                *eventEndPP = buf.as_ptr();
+                                /* an error in the value has moved the event */
+                                *eventEndPP = *eventPP;
                                 self.m_handlers.entityDecl(
                                     (*self.m_declEntity).name,
                                     (*self.m_declEntity).is_param as c_int,
-- 
2.43.0


From 102d4f26177765246a12039b9ef2f5de7f97165e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:19:25 +0000
Subject: [PATCH 18/32] fix: keep the input context when the buffer grows after
 all data has been parsed

---
 src/lib/xmlparse.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 9b2d714..cafc5f6 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -2827,15 +2827,10 @@ impl  XML_ParserStruct {
                     return None;
                 }
                 self.m_buffer.resize(bufferSize, 0);
-                if self.m_bufferStart < self.m_bufferEnd {
-                    self.m_buffer.copy_within(self.m_bufferStart-keep..self.m_bufferEnd, 0);
-                    self.m_bufferEnd = self.m_bufferEnd - self.m_bufferStart + keep;
-                    self.m_bufferStart = keep;
-                } else {
-                    /* This must be a brand new buffer with no data in it yet */
-                    self.m_bufferStart = 0;
-                    self.m_bufferEnd = 0;
-                }
+                /* keep the context even if all of the data has been parsed */
+                self.m_buffer.copy_within(self.m_bufferStart-keep..self.m_bufferEnd, 0);
+                self.m_bufferEnd = self.m_bufferEnd - self.m_bufferStart + keep;
+                self.m_bufferStart = keep;
             }
             self.m_eventEndPtr = ptr::null();
             self.m_eventPtr = ptr::null();
-- 
2.43.0


From dd625af3a1e15cab05f95fd53548ff9fc5da6a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:25:25 +0000
Subject: [PATCH 19/32] fix: keep the unknown-encoding handler when a parser is
 reset

---
 src/lib/xmlparse.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index cafc5f6..983be44 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -1766,7 +1766,12 @@ impl XML_ParserStruct {
         self.m_initEncoding = InitEncoding::new(&mut self.m_encoding, ptr::null());
         self.m_encoding = &*self.m_initEncoding.as_ref().unwrap();
         self.m_userData = ptr::null_mut();
-        self.m_handlers = Default::default();
+        /* the unknown-encoding handler is kept when a parser is reset */
+        self.m_handlers = CXmlHandlers {
+            m_unknownEncodingHandler: self.m_handlers.m_unknownEncodingHandler,
+            m_unknownEncodingHandlerData: self.m_handlers.m_unknownEncodingHandlerData,
+            ..Default::default()
+        };
         self.m_handlers.m_externalEntityRefHandlerArg = self as XML_Parser;
         self.m_bufferStart = 0;
         self.m_bufferEnd = 0;
-- 
2.43.0


From aabd6a7aeec928af68de9dac259cc32b22355d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:25:25 +0000
Subject: [PATCH 20/32] fix: nested parsers inherit the unknown-encoding
 handler's data

---
 src/lib/xmlparse.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 983be44..d066d3f 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -1999,6 +1999,7 @@ pub unsafe extern "C" fn XML_ExternalEntityParserCreate(
     (*parser).m_handlers.setExternalEntityRef(oldParser.m_handlers.m_externalEntityRefHandler);
     (*parser).m_handlers.setSkippedEntity(oldParser.m_handlers.m_skippedEntityHandler);
     (*parser).m_handlers.setUnknownEncoding(oldParser.m_handlers.m_unknownEncodingHandler);
+    (*parser).m_handlers.m_unknownEncodingHandlerData = oldParser.m_handlers.m_unknownEncodingHandlerData;
     (*parser).m_handlers.setElementDecl(oldParser.m_handlers.m_elementDeclHandler);
     (*parser).m_handlers.setAttlistDecl(oldParser.m_handlers.m_attlistDeclHandler);
     (*parser).m_handlers.setEntityDecl(oldParser.m_handlers.m_entityDeclHandler);
-- 
2.43.0


From 4f488d772d2bf16d82676d424e97be9f6b2ed1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:25:25 +0000
Subject: [PATCH 21/32] fix: XML_ParseBuffer refuses a length outside its
 buffer

---
 src/lib/xmlparse.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index d066d3f..2b9b2b4 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -2766,6 +2766,11 @@ pub unsafe extern "C" fn XML_ParseBuffer(
     if parser.is_null() {
         return XML_Status::ERROR;
     }
+    /* more than the buffer has room for was never written by the caller */
+    if len < 0 || len as usize > (*parser).m_buffer.len() - (*parser).m_bufferEnd {
+        (*parser).m_errorCode = XML_Error::INVALID_ARGUMENT;
+        return XML_Status::ERROR;
+    }
 
     (*parser).parseBuffer(len, isFinal)
 }
-- 
2.43.0


From 6bbad369870bfd2d860fc5084054e99d96468291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:37:16 +0000
Subject: [PATCH 22/32] fix: keep the start of an external entity's text inside
 an entity value

entityValueInitProcessor and entityValueProcessor scan ahead token by token
and must keep (on a partial token) or store (at the end) everything from where
they started.  They used the scan position instead, so text fed in pieces, and
all text behind a text declaration, was lost.
---
 src/lib/xmlparse.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 2b9b2b4..764f14f 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -5468,7 +5468,7 @@ unsafe extern "C" fn entityValueInitProcessor(
         (*parser).m_eventEndPtr = next;
         if tok.to_i32().unwrap() <= 0 {
             if !(*parser).m_parsingStatus.finalBuffer && tok != XML_TOK::INVALID {
-                *nextPtr = buf.as_ptr();
+                *nextPtr = init_buf.as_ptr();
                 return XML_Error::NONE;
             }
             match tok {
@@ -5565,9 +5565,10 @@ unsafe extern "C" fn externalParEntProcessor(
 
 unsafe extern "C" fn entityValueProcessor(
     mut parser: XML_Parser,
-    mut buf: ExpatBufRef,
+    init_buf: ExpatBufRef,
     mut nextPtr: *mut *const c_char,
 ) -> XML_Error {
+    let mut buf = init_buf.clone();
     let mut next: *const c_char = buf.as_ptr();
     let mut enc: &ENCODING = &*(*parser).m_encoding;
     let mut tok = XML_TOK::INVALID;
@@ -5575,7 +5576,7 @@ unsafe extern "C" fn entityValueProcessor(
         tok = (*enc).xmlTok(XML_STATE::PROLOG, buf, &mut next);
         if tok.to_i32().unwrap() <= 0 {
             if !(*parser).m_parsingStatus.finalBuffer && tok != XML_TOK::INVALID {
-                *nextPtr = buf.as_ptr();
+                *nextPtr = init_buf.as_ptr();
                 return XML_Error::NONE;
             }
             match tok {
@@ -5589,7 +5590,7 @@ unsafe extern "C" fn entityValueProcessor(
                as valid, and report a syntax error, so we have to skip the BOM
             */
             /* found end of entity value - can store it now */
-            return storeEntityValue(parser, EncodingType::Normal, buf);
+            return storeEntityValue(parser, EncodingType::Normal, init_buf);
         }
         buf = buf.with_start(next);
     }
-- 
2.43.0


From b4041749bbd56722e6e25bd98d988a3ae9ca7958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:38:26 +0000
Subject: [PATCH 23/32] fix: leave the byte order mark out of entity values

The byte order mark of an external parameter entity referenced in an entity
value became part of the value, unless the first chunk ended right behind it.
---
 src/lib/xmlparse.rs | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 764f14f..18b5f4c 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -5457,7 +5457,7 @@ unsafe extern "C" fn externalParEntInitProcessor(
 
 unsafe extern "C" fn entityValueInitProcessor(
     mut parser: XML_Parser,
-    init_buf: ExpatBufRef,
+    mut init_buf: ExpatBufRef,
     mut nextPtr: *mut *const c_char,
 ) -> XML_Error {
     let mut buf = init_buf.clone();
@@ -5499,19 +5499,11 @@ unsafe extern "C" fn entityValueInitProcessor(
                 (*parser).m_processor = Some(entityValueProcessor as Processor);
                 return entityValueProcessor(parser, buf.with_start(next), nextPtr);
             } else {
-                /* If we are at the end of the buffer, this would cause XmlPrologTok to
-                   return XML_TOK::NONE on the next call, which would then cause the
-                   function to exit with *nextPtr set to s - that is what we want for other
-                   tokens, but not for the BOM - we would rather like to skip it;
-                   then, when this routine is entered the next time, XmlPrologTok will
-                   return XML_TOK::INVALID, since the BOM is still in the buffer
+                /* The BOM is not part of the value, nor does it have to be scanned again
+                   when this routine is entered the next time.
                 */
-                if tok == XML_TOK::BOM
-                    && next == buf.end()
-                    && !(*parser).m_parsingStatus.finalBuffer
-                {
-                    *nextPtr = next;
-                    return XML_Error::NONE;
+                if tok == XML_TOK::BOM {
+                    init_buf = buf.with_start(next);
                 } else {
                     /* If we get this token, we have the start of what might be a
                        normal tag, but not a declaration (i.e. it doesn't begin with
-- 
2.43.0


From 2532eeda3d30cb1b1ad900769a6c6aebbbd77f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:40:43 +0000
Subject: [PATCH 24/32] fix: call the not-standalone handler once per parameter
 entity that was read

---
 src/lib/xmlparse.rs | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 18b5f4c..71414ca 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -6593,10 +6593,6 @@ impl XML_ParserStruct {
                             if let Some(r) = self.doPrologHandleEntityRef(entity, role, &mut handleDefault) {
                                 return r;
                             }
-                            /* XML_DTD */
-                            if !self.m_dtd.standalone.get() && self.m_handlers.notStandalone() == Ok(0) {
-                                return XML_Error::NOT_STANDALONE;
-                            }
                         } else if entity.is_null() {
                             self.m_dtd.keepProcessing.set(self.m_dtd.standalone.get());
                             /* cannot report skipped entities in declarations */
@@ -6614,10 +6610,6 @@ impl XML_ParserStruct {
                             if let Some(r) = self.doPrologHandleEntityRef(entity, role, &mut handleDefault) {
                                 return r;
                             }
-                            /* XML_DTD */
-                            if !self.m_dtd.standalone.get() && self.m_handlers.notStandalone() == Ok(0) {
-                                return XML_Error::NOT_STANDALONE;
-                            }
                         }
                     }
                 }
-- 
2.43.0


From b18e5e37882d214465ceec71559da1b5e2bfd611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:44:43 +0000
Subject: [PATCH 25/32] fix: recognise the end of an ignored section behind
 more than two brackets

---
 src/lib/xmltok_impl.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib/xmltok_impl.rs b/src/lib/xmltok_impl.rs
index 01d0c5c..9a85a05 100644
--- a/src/lib/xmltok_impl.rs
+++ b/src/lib/xmltok_impl.rs
@@ -1466,8 +1466,12 @@ impl<T: XmlEncodingImpl+XmlTokImpl> XmlEncoding for T {
                     buf = buf.inc_start(self.MINBPC() as isize);
                     REQUIRE_CHAR!(buf, self);
                     if self.char_matches(buf.as_ptr(), ASCII_RSQB) {
-                        buf = buf.inc_start(self.MINBPC() as isize);
-                        REQUIRE_CHAR!(buf, self);
+                        /* A third bracket makes the second and the third the ones that may
+                        close the section. */
+                        while self.char_matches(buf.as_ptr(), ASCII_RSQB) {
+                            buf = buf.inc_start(self.MINBPC() as isize);
+                            REQUIRE_CHAR!(buf, self);
+                        }
                         if self.char_matches(buf.as_ptr(), ASCII_GT) {
                             buf = buf.inc_start(self.MINBPC() as isize);
                             if level == 0 as libc::c_int {
-- 
2.43.0


From 0d05a8df9fc9cf285a8cc7f265e47d10238e7f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:44:43 +0000
Subject: [PATCH 26/32] fix: process internal parameter entities within an
 INCLUDE section

---
 src/lib/xmlparse.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 71414ca..83224c6 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -7003,6 +7003,9 @@ impl XML_ParserStruct {
         if (*entity).is_param {
             let mut tok =
                 (*self.m_internalEncoding).xmlTok(XML_STATE::PROLOG, text_buf, &mut next);
+            /* The conditional sections open around the reference neither end within the
+            entity's text nor make that text incomplete. */
+            let includeLevel = mem::replace(&mut self.m_prologState.includeLevel, 0);
             result = self.doProlog(
                 EncodingType::Internal,
                 text_buf,
@@ -7011,7 +7014,8 @@ impl XML_ParserStruct {
                 &mut next,
                 false,
                 false,
-            )
+            );
+            self.m_prologState.includeLevel = includeLevel;
         } else {
             /* XML_DTD */
             result = self.doContent(
-- 
2.43.0


From c606d2e8fdee447ea1c0b9750178882b5001ca22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:46:59 +0000
Subject: [PATCH 27/32] fix: accept an empty external entity inside an entity
 value

---
 src/lib/xmlparse.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 83224c6..ffdbc25 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -5477,6 +5477,10 @@ unsafe extern "C" fn entityValueInitProcessor(
                 XML_TOK::PARTIAL_CHAR => return XML_Error::PARTIAL_CHAR,
                 XML_TOK::NONE | _ => {}
             }
+            /* an empty entity adds nothing, and its encoding is still to be detected */
+            if init_buf.is_empty() {
+                return XML_Error::NONE;
+            }
             /* found end of entity value - can store it now */
             return storeEntityValue(parser, EncodingType::Normal, init_buf);
         } else {
-- 
2.43.0


From f48689af6f102766f4a7801d9d8f538e1543c0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:47:53 +0000
Subject: [PATCH 28/32] fix: end the scan of an external entity value at the
 start of a tag

---
 src/lib/xmlparse.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index ffdbc25..53553a8 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -5588,6 +5588,11 @@ unsafe extern "C" fn entityValueProcessor(
             /* found end of entity value - can store it now */
             return storeEntityValue(parser, EncodingType::Normal, init_buf);
         }
+        /* The start of a tag is no token of a DTD, and nothing is consumed for it. */
+        if tok == XML_TOK::INSTANCE_START {
+            *nextPtr = next;
+            return XML_Error::SYNTAX;
+        }
         buf = buf.with_start(next);
     }
 }
-- 
2.43.0


From d9dd9171802c9b96b9071c2b45a52b2acf46e900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:57:38 +0000
Subject: [PATCH 29/32] fix: do not take a multi-byte sequence for an ASCII
 character in XML declarations

---
 src/lib/xmltok.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/xmltok.rs b/src/lib/xmltok.rs
index 6e582fe..e904842 100644
--- a/src/lib/xmltok.rs
+++ b/src/lib/xmltok.rs
@@ -2851,8 +2851,11 @@ fn toAscii(
         &mut out_buf[0],
         out_buf[1..].as_mut_ptr(),
     );
+    let next = buf.as_ptr().wrapping_offset((*enc).minBytesPerChar() as isize);
     (*enc).utf8Convert(&mut buf, &mut p);
-    if p.as_ptr() == out_buf.as_ptr() {
+    /* The callers go on behind the shortest sequence: a longer one of an encoding supplied by
+       the application is not one of the characters they look for, whatever it stands for. */
+    if p.as_ptr() == out_buf.as_ptr() || buf.as_ptr() != next {
         return -1;
     } else {
         return out_buf[0] as c_int;
-- 
2.43.0


From 25d8b4034279c78e3a412fa7b1a8a88286c51936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:48:27 +0000
Subject: [PATCH 30/32] fix: report errors in the text of an external entity
 value where they are

---
 src/lib/xmlparse.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 53553a8..5bc878a 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -5575,6 +5575,9 @@ unsafe extern "C" fn entityValueProcessor(
                 *nextPtr = init_buf.as_ptr();
                 return XML_Error::NONE;
             }
+            /* an event of an earlier call says nothing about this text */
+            (*parser).m_eventPtr = buf.as_ptr();
+            (*parser).m_eventEndPtr = next;
             match tok {
                 XML_TOK::INVALID => return XML_Error::INVALID_TOKEN,
                 XML_TOK::PARTIAL => return XML_Error::UNCLOSED_TOKEN,
@@ -5590,6 +5593,8 @@ unsafe extern "C" fn entityValueProcessor(
         }
         /* The start of a tag is no token of a DTD, and nothing is consumed for it. */
         if tok == XML_TOK::INSTANCE_START {
+            (*parser).m_eventPtr = buf.as_ptr();
+            (*parser).m_eventEndPtr = next;
             *nextPtr = next;
             return XML_Error::SYNTAX;
         }
-- 
2.43.0


From d3590599076f80f5edc316aa6129fba4b7ac41de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:48:27 +0000
Subject: [PATCH 31/32] fix: go on after a suspended internal entity as with
 any other content

---
 src/lib/xmlparse.rs | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 5bc878a..f036743 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -7153,19 +7153,15 @@ unsafe extern "C" fn internalEntityProcessor(
         )
     } else {
         /* XML_DTD */
-        (*parser).m_processor = Some(contentProcessor as Processor);
-        /* see externalEntityContentProcessor vs contentProcessor */
-        (*parser).doContent(
-            if (*parser).is_child_parser {
-                1i32
-            } else {
-                0i32
-            },
-            EncodingType::Normal,
-            buf,
-            nextPtr,
-            !(*parser).m_parsingStatus.finalBuffer,
-        )
+        /* what follows the entity is content like any other: the start tags in it have to keep
+           their names, and an external entity has no document element of its own */
+        let mut processor: Processor = if (*parser).is_child_parser {
+            externalEntityContentProcessor
+        } else {
+            contentProcessor
+        };
+        (*parser).m_processor = Some(processor);
+        processor(parser, buf, nextPtr)
     } /* save one level of indirection */
 }
 
-- 
2.43.0


From 27d575d6ed338525bbbb51c1559a4570f47b0ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:48:49 +0000
Subject: [PATCH 32/32] fix: report an abort in the last handler of an entity's
 text

---
 src/lib/xmlparse.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index f036743..d08e66e 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -2588,6 +2588,14 @@ pub unsafe extern "C" fn XML_SetHashSalt(_: XML_Parser, _: c_ulong) -> c_int {
 */
 
 impl XML_ParserStruct {
+    /* Nothing but XML_StopParser() finishes a parser while it is at work. A processor that was at its
+       end anyway may not have looked. */
+    fn noteAbort(&mut self) {
+        if self.m_errorCode == XML_Error::NONE && self.m_parsingStatus.parsing == XML_Parsing::FINISHED {
+            self.m_errorCode = XML_Error::ABORTED;
+        }
+    }
+
     pub unsafe fn parse(&mut self, s: *const c_char, len: c_int, isFinal: c_int) -> XML_Status {
         if len < 0 || s.is_null() && len != 0 {
             return XML_Status::ERROR;
@@ -2629,6 +2637,7 @@ impl XML_ParserStruct {
                 &mut start_ptr,
             );
             self.m_bufferStart = start_ptr.wrapping_offset_from(self.m_buffer.as_ptr()) as usize;
+            self.noteAbort();
             if self.m_errorCode == XML_Error::NONE {
                 match self.m_parsingStatus.parsing {
                     XML_Parsing::SUSPENDED => {
@@ -2729,6 +2738,7 @@ impl XML_ParserStruct {
         );
         // convert in-out parameter `start` from pointer back to index
         self.m_bufferStart = start.wrapping_offset_from(self.m_buffer.as_ptr()) as usize;
+        self.noteAbort();
         if self.m_errorCode != XML_Error::NONE {
             self.m_eventEndPtr = self.m_eventPtr;
             self.m_processor = Some(errorProcessor as Processor);
@@ -2961,6 +2971,7 @@ impl XML_ParserStruct {
         );
         // convert in-out parameter `start` from pointer back to index
         self.m_bufferStart = start.wrapping_offset_from(self.m_buffer.as_ptr()) as usize;
+        self.noteAbort();
         if self.m_errorCode != XML_Error::NONE {
             self.m_eventEndPtr = self.m_eventPtr;
             self.m_processor = Some(errorProcessor as Processor);
-- 
2.43.0

