From 59e1f8de33e71f322316d5c1711d2a1fdea53d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:18:22 +0000
Subject: [PATCH 01/42] fix: report the version and encoding of the XML
 declaration, not stale or overlong text

The encoding name stored for the XmlDecl handler (and for the unknown
encoding handler) was never finished as a pool string, so storing the
version after it reallocated and overwrote it; the version itself was
stored up to the end of the declaration instead of up to its closing
quotation mark.
---
 src/lib/xmlparse.rs | 2 +-
 src/lib/xmltok.rs   | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 4aaba1b..a028929 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -5265,7 +5265,7 @@ impl XML_ParserStruct {
                     return XML_Error::NO_MEMORY;
                 }
 
-                storedEncName = self.m_temp2Pool.current_start();
+                storedEncName = self.m_temp2Pool.finish_string().as_ptr();
             }
             if let Some(version_buf) = version_buf {
                 let successful = self.m_temp2Pool.store_c_string(
diff --git a/src/lib/xmltok.rs b/src/lib/xmltok.rs
index aaf97f9..a5a52f5 100644
--- a/src/lib/xmltok.rs
+++ b/src/lib/xmltok.rs
@@ -3013,7 +3013,11 @@ fn doParseXmlDecl<'a>(
             return 0;
         }
     } else {
-        *versionBuf = val_buf;
+        /* the version ends before its closing quotation mark */
+        *versionBuf = val_buf.map(|val| {
+            val.with_end(pseudo_ptr)
+                .dec_end((*enc).minBytesPerChar() as usize)
+        });
         #[cfg(feature = "mozilla")]
         {
             if !(*enc).nameMatchesAscii(val_buf
-- 
2.43.0


From 373f6277661837f9191a831f8b10374a10ab245c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:23:07 +0000
Subject: [PATCH 02/42] fix: reject malformed UTF-8 sequences in names

Name tokens classified multi-byte sequences without first checking that they
are valid, so e.g. <\xe0\x80\x80/> was accepted as a name.
---
 src/lib/xmltok_impl.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib/xmltok_impl.rs b/src/lib/xmltok_impl.rs
index 5d41751..76c3223 100644
--- a/src/lib/xmltok_impl.rs
+++ b/src/lib/xmltok_impl.rs
@@ -68,7 +68,7 @@ macro_rules! CHECK_NAME_CASES {
                 if $buf.len() < n as usize {
                     return XML_TOK::PARTIAL_CHAR;
                 }
-                if !$self.is_name_char($buf.as_ptr(), n) {
+                if $self.is_invalid_char($buf.as_ptr(), n) || !$self.is_name_char($buf.as_ptr(), n) {
                     *$nextTokPtr = $buf.as_ptr();
                     return XML_TOK::INVALID;
                 }
@@ -98,7 +98,7 @@ macro_rules! CHECK_NMSTRT_CASES {
                 if $buf.len() < n as usize {
                     return XML_TOK::PARTIAL_CHAR;
                 }
-                if !$self.is_nmstrt_char($buf.as_ptr(), n) {
+                if $self.is_invalid_char($buf.as_ptr(), n) || !$self.is_nmstrt_char($buf.as_ptr(), n) {
                     *$nextTokPtr = $buf.as_ptr();
                     return XML_TOK::INVALID;
                 }
@@ -1062,6 +1062,10 @@ impl<T: XmlEncodingImpl+XmlTokImpl> XmlEncoding for T {
                 if (buf.len() as c_long) < n as c_long {
                     return XML_TOK::PARTIAL_CHAR;
                 }
+                if self.is_invalid_char(buf.as_ptr(), n) {
+                    *nextTokPtr = buf.as_ptr();
+                    return XML_TOK::INVALID
+                }
                 if self.is_nmstrt_char(buf.as_ptr(), n) {
                     buf = buf.inc_start(n as isize);
                     tok = XML_TOK::NAME;
-- 
2.43.0


From c9ad09448d8ef15a9ccd626c8ae20fa789c4d929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:32:50 +0000
Subject: [PATCH 03/42] fix: call the notStandalone handler only for external
 parameter entities that are read

The handler was also called after internal parameter entities and after
unread external ones, and twice for those that were read.
---
 src/lib/xmlparse.rs | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index a028929..30513bf 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -6569,10 +6569,6 @@ impl XML_ParserStruct {
                             if let Some(r) = self.doPrologHandleEntityRef(entity, role, &mut handleDefault) {
                                 return r;
                             }
-                            /* XML_DTD */
-                            if !self.m_dtd.standalone.get() && self.m_handlers.notStandalone() == Ok(0) {
-                                return XML_Error::NOT_STANDALONE;
-                            }
                         } else if entity.is_null() {
                             self.m_dtd.keepProcessing.set(self.m_dtd.standalone.get());
                             /* cannot report skipped entities in declarations */
@@ -6590,10 +6586,6 @@ impl XML_ParserStruct {
                             if let Some(r) = self.doPrologHandleEntityRef(entity, role, &mut handleDefault) {
                                 return r;
                             }
-                            /* XML_DTD */
-                            if !self.m_dtd.standalone.get() && self.m_handlers.notStandalone() == Ok(0) {
-                                return XML_Error::NOT_STANDALONE;
-                            }
                         }
                     }
                 }
-- 
2.43.0


From ee962401e9e62abb31e217010380fad243c42b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:31 +0000
Subject: [PATCH 04/42] fix: position queries no longer panic without a current
 event in the buffer

---
 src/lib/xmlparse.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 30513bf..75d9cb1 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -850,7 +850,7 @@ impl XML_ParserStruct {
     // TODO(SJC): add a better err type
     fn buffer_index(&self, p: *const c_char) -> Result<usize, ()> {
         if p < self.m_buffer.as_ptr()
-            || p >= self.m_buffer.as_ptr().wrapping_add(self.m_buffer.len())
+            || p > self.m_buffer.as_ptr().wrapping_add(self.m_buffer.len())
         {
             Err(())
         } else {
@@ -3021,7 +3021,9 @@ pub unsafe extern "C" fn XML_GetCurrentByteIndex(mut parser: XML_Parser) -> XML_
         return -1;
     }
     if !(*parser).m_eventPtr.is_null() {
-        return ((*parser).m_parseEndByteIndex - ((*parser).m_parseEndIdx - (*parser).buffer_index((*parser).m_eventPtr).unwrap())) as XML_Index;
+        if let Ok(eventIdx) = (*parser).buffer_index((*parser).m_eventPtr) {
+            return ((*parser).m_parseEndByteIndex + eventIdx).wrapping_sub((*parser).m_parseEndIdx) as XML_Index;
+        }
     }
     if cfg!(feature = "mozilla") {
         return (*parser).m_parseEndByteIndex as XML_Index;
@@ -3101,7 +3103,8 @@ pub unsafe extern "C" fn XML_GetCurrentLineNumber(mut parser: XML_Parser) -> XML
     if parser.is_null() {
         return 0;
     }
-    let positionPtr = (*parser).m_buffer.as_ptr().wrapping_add((*parser).m_positionIdx.unwrap());
+    // REXPAT: a missing position always comes with a null event pointer (see `getBuffer`)
+    let positionPtr = (*parser).m_buffer.as_ptr().wrapping_add((*parser).m_positionIdx.unwrap_or(0));
     if !(*parser).m_eventPtr.is_null() && (*parser).m_eventPtr >= positionPtr {
         (*(*parser).m_encoding).updatePosition(
             ExpatBufRef::new(
@@ -3121,7 +3124,8 @@ pub unsafe extern "C" fn XML_GetCurrentColumnNumber(mut parser: XML_Parser) -> X
     if parser.is_null() {
         return 0;
     }
-    let positionPtr = (*parser).m_buffer.as_ptr().wrapping_add((*parser).m_positionIdx.unwrap());
+    // REXPAT: a missing position always comes with a null event pointer (see `getBuffer`)
+    let positionPtr = (*parser).m_buffer.as_ptr().wrapping_add((*parser).m_positionIdx.unwrap_or(0));
     if !(*parser).m_eventPtr.is_null() && (*parser).m_eventPtr >= positionPtr {
         (*(*parser).m_encoding).updatePosition(
             ExpatBufRef::new(
-- 
2.43.0


From f2f24de1272df7e01af231f8fdb2b73df9cb429c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:33 +0000
Subject: [PATCH 05/42] fix: report the position of the offending character in
 a malformed XML declaration

---
 src/lib/xmltok.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/xmltok.rs b/src/lib/xmltok.rs
index a5a52f5..e3173dd 100644
--- a/src/lib/xmltok.rs
+++ b/src/lib/xmltok.rs
@@ -3063,7 +3063,7 @@ fn doParseXmlDecl<'a>(
         ) };
         let mut pseudo_ptr = buf.as_ptr();
         if parsePseudoAttribute(enc, buf, &mut name, &mut val_buf, &mut pseudo_ptr) == 0 {
-            *badPtr = buf.as_ptr();
+            *badPtr = pseudo_ptr;
             return 0;
         }
         buf = buf.with_start(pseudo_ptr);
-- 
2.43.0


From 4c461617b8d70e40eafa2f7682573df134f28a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:33 +0000
Subject: [PATCH 06/42] fix: keep the whole text of an external parameter
 entity in an entity value

The text after a text declaration, or before the last token of a chunk, was
dropped from the value.
---
 src/lib/xmlparse.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 75d9cb1..7561d00 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -5442,7 +5442,7 @@ unsafe extern "C" fn entityValueInitProcessor(
         (*parser).m_eventEndPtr = next;
         if tok.to_i32().unwrap() <= 0 {
             if !(*parser).m_parsingStatus.finalBuffer && tok != XML_TOK::INVALID {
-                *nextPtr = buf.as_ptr();
+                *nextPtr = init_buf.as_ptr();
                 return XML_Error::NONE;
             }
             match tok {
@@ -5539,9 +5539,10 @@ unsafe extern "C" fn externalParEntProcessor(
 
 unsafe extern "C" fn entityValueProcessor(
     mut parser: XML_Parser,
-    mut buf: ExpatBufRef,
+    init_buf: ExpatBufRef,
     mut nextPtr: *mut *const c_char,
 ) -> XML_Error {
+    let mut buf = init_buf.clone();
     let mut next: *const c_char = buf.as_ptr();
     let mut enc: &ENCODING = &*(*parser).m_encoding;
     let mut tok = XML_TOK::INVALID;
@@ -5549,7 +5550,7 @@ unsafe extern "C" fn entityValueProcessor(
         tok = (*enc).xmlTok(XML_STATE::PROLOG, buf, &mut next);
         if tok.to_i32().unwrap() <= 0 {
             if !(*parser).m_parsingStatus.finalBuffer && tok != XML_TOK::INVALID {
-                *nextPtr = buf.as_ptr();
+                *nextPtr = init_buf.as_ptr();
                 return XML_Error::NONE;
             }
             match tok {
@@ -5563,7 +5564,7 @@ unsafe extern "C" fn entityValueProcessor(
                as valid, and report a syntax error, so we have to skip the BOM
             */
             /* found end of entity value - can store it now */
-            return storeEntityValue(parser, EncodingType::Normal, buf);
+            return storeEntityValue(parser, EncodingType::Normal, init_buf);
         }
         buf = buf.with_start(next);
     }
-- 
2.43.0


From 2cf5e794e2c6734c25ee036374743776d901a80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:42 +0000
Subject: [PATCH 07/42] fix: keep the default prefix of a cloned DTD in place

Attribute ids of the clone made for an external entity parser pointed at the
default prefix of a DTD that was then moved, so that default namespace
declarations in external entities were lost or read freed memory.
---
 src/lib/xmlparse.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 7561d00..a4e7e4a 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -1154,8 +1154,9 @@ impl DTD {
         self.standalone.set(false);
     }
 
-    fn try_clone(&self) -> Result<DTD, TryReserveError> {
-        let mut newDtd = DTD {
+    fn try_clone(&self) -> Result<Rc<DTD>, TryReserveError> {
+        // The attribute ids point at the default prefix, so it must not move from here on
+        let newDtd = Rc::try_new(DTD {
             pool: StringPool::try_new().map_err(|_| TryReserveError::CapacityOverflow)?,
             entityValuePool: StringPool::try_new().map_err(|_| TryReserveError::CapacityOverflow)?,
             tables: Default::default(),
@@ -1168,7 +1169,7 @@ impl DTD {
             /* Don't want deep copying for scaffolding */
             scaffold: Rc::clone(&self.scaffold),
             contentStringLen: self.contentStringLen.clone(),
-        };
+        })?;
 
         unsafe {
             let mut new_tables = newDtd.tables.borrow_mut();
@@ -1274,7 +1275,7 @@ impl DTD {
             /* Copy the entity tables. */
             if copyEntityTable(
                 &mut new_tables.generalEntities,
-                &mut newDtd.pool,
+                &newDtd.pool,
                 &old_tables.generalEntities,
             ) == 0
             {
@@ -1282,7 +1283,7 @@ impl DTD {
             }
             if copyEntityTable(
                 &mut new_tables.paramEntities,
-                &mut newDtd.pool,
+                &newDtd.pool,
                 &old_tables.paramEntities,
             ) == 0
             {
@@ -1948,7 +1949,7 @@ pub unsafe extern "C" fn XML_ExternalEntityParserCreate(
     let newDtd = if context.is_null() {
         Rc::clone(&oldParser.m_dtd)
     } else {
-        match oldParser.m_dtd.try_clone().and_then(Rc::try_new) {
+        match oldParser.m_dtd.try_clone() {
             Ok(newDtd) => newDtd,
             Err(_) => return ptr::null_mut()
         }
-- 
2.43.0


From 57c10863ff4de01e252235b0b47bcb1b7fe89096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:52 +0000
Subject: [PATCH 08/42] fix: detect duplicate attributes also when namespace
 triplets are returned

---
 src/lib/xmlparse.rs | 40 ++++++++++++++--------------------------
 1 file changed, 14 insertions(+), 26 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index a4e7e4a..ef148eb 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -4521,36 +4521,24 @@ impl XML_ParserStruct {
                     /* Check hash table for duplicate of expanded name (uriName).
                     Derived from code in lookup(parser, HASH_TABLE *table, ...).
                      */
-                    let ret = self.m_tempPool.current_slice(|name| {
-                        let hk = HashKey::from(name.as_ptr() as KEY);
-                        if self.m_nsAtts.contains(&hk) {
-                            return XML_Error::DUPLICATE_ATTRIBUTE;
-                        }
-                        XML_Error::NONE
-                    });
-                    if ret != XML_Error::NONE {
-                        return ret;
+                    let uriName = self.m_tempPool.finish_string().as_ptr();
+                    if !self.m_nsAtts.insert(HashKey::from(uriName as KEY)) {
+                        return XML_Error::DUPLICATE_ATTRIBUTE;
                     }
+                    /* store expanded name in attribute list */
+                    self.m_atts[i].name = uriName;
                     if self.m_ns_triplets {
-                        /* append namespace separator and prefix */
-                        self.m_tempPool.replace_last_char(self.m_namespaceSeparator);
-                        s = (*(*b).prefix).name;
-                        loop {
-                            if !self.m_tempPool.append_char(*s) {
-                                return XML_Error::NO_MEMORY;
-                            }
-                            let fresh26 = s;
-                            s = s.offset(1);
-                            if !(*fresh26 != 0) {
-                                break;
-                            }
+                        /* append namespace separator and prefix; the hash table
+                        keeps the name without them */
+                        if !self.m_tempPool.append_c_string(uriName)
+                            || !self.m_tempPool.append_char(self.m_namespaceSeparator)
+                            || !self.m_tempPool.append_c_string((*(*b).prefix).name)
+                            || !self.m_tempPool.append_char('\u{0}' as XML_Char)
+                        {
+                            return XML_Error::NO_MEMORY;
                         }
+                        self.m_atts[i].name = self.m_tempPool.finish_string().as_ptr();
                     }
-                    if ret != XML_Error::NONE { return ret; }
-                    /* store expanded name in attribute list */
-                    self.m_atts[i].name = self.m_tempPool.finish_string().as_ptr();
-                    let hk = HashKey::from(self.m_atts[i].name as KEY);
-                    self.m_nsAtts.insert(hk);
                     nPrefixes -= 1;
                     if nPrefixes == 0 && nXMLNSDeclarations == 0 {
                         i += 1;
-- 
2.43.0


From 374c0ca6894c57838c0a9ba5197f04018e05d81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:43 +0000
Subject: [PATCH 09/42] fix: accept an empty external parameter entity in an
 entity value

---
 src/lib/xmltok.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lib/xmltok.rs b/src/lib/xmltok.rs
index e3173dd..8f8daf2 100644
--- a/src/lib/xmltok.rs
+++ b/src/lib/xmltok.rs
@@ -2149,10 +2149,15 @@ impl XmlEncoding for InitEncoding {
     }
     fn entityValueTok(
         &self,
-        _buf: ExpatBufRef,
+        buf: ExpatBufRef,
         _nextTokPtr: &mut *const libc::c_char,
     ) -> XML_TOK {
-        XML_TOK::INVALID
+        /* the encoding of an empty entity is never detected */
+        if buf.is_empty() {
+            XML_TOK::NONE
+        } else {
+            XML_TOK::INVALID
+        }
     }
 
     fn nameMatchesAscii(
-- 
2.43.0


From b1f71b1f50e871c499d5afc4d9bf3d43381218c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:15 +0000
Subject: [PATCH 10/42] fix: classify U+0080 to U+00FF in big-endian UTF-16
 without a panic

---
 src/lib/xmltok.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/xmltok.rs b/src/lib/xmltok.rs
index 8f8daf2..9447045 100644
--- a/src/lib/xmltok.rs
+++ b/src/lib/xmltok.rs
@@ -1019,7 +1019,7 @@ impl<T: NormalEncodingTable> XmlEncodingImpl for Big2EncodingImpl<T> {
     fn byte_type(&self, p: *const c_char) -> ByteType {
         let bytes = unsafe { (*p, *p.offset(1)) };
         if bytes.0 == 0 {
-            T::types[bytes.1 as usize]
+            T::types[bytes.1 as u8 as usize]
         } else {
             unicode_byte_type(bytes.0, bytes.1)
         }
-- 
2.43.0


From a5740904577e5bf4f4d4774be9f6c8886d395ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:10 +0000
Subject: [PATCH 11/42] fix: XML_DefaultCurrent no longer panics when the event
 has moved past its end

---
 src/lib/xmlparse.rs | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index ef148eb..62d7dc9 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -3184,24 +3184,23 @@ pub unsafe extern "C" fn XML_DefaultCurrent(mut parser: XML_Parser) {
         return;
     }
     if (*parser).m_handlers.hasDefault() {
-        if !(*parser).m_openInternalEntities.is_null() {
-            reportDefault(
-                parser,
+        let (enc_type, start, end) = if !(*parser).m_openInternalEntities.is_null() {
+            (
                 EncodingType::Internal,
-                ExpatBufRef::new(
-                    (*(*parser).m_openInternalEntities).internalEventPtr,
-                    (*(*parser).m_openInternalEntities).internalEventEndPtr,
-                ),
-            );
+                (*(*parser).m_openInternalEntities).internalEventPtr,
+                (*(*parser).m_openInternalEntities).internalEventEndPtr,
+            )
         } else {
-            reportDefault(
-                parser,
+            (
                 EncodingType::Normal,
-                ExpatBufRef::new(
-                    (*parser).m_eventPtr,
-                    (*parser).m_eventEndPtr,
-                ),
-            );
+                (*parser).m_eventPtr,
+                (*parser).m_eventEndPtr,
+            )
+        };
+        /* An error inside an entity value moves the event pointer past the
+         * end of the current event: there is nothing to report then. */
+        if start <= end {
+            reportDefault(parser, enc_type, ExpatBufRef::new(start, end));
         }
     };
 }
-- 
2.43.0


From 9fc6397b6d8fecd5a914cb09825e1c9cf5d4962c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:25 +0000
Subject: [PATCH 12/42] fix: never take a byte order mark for part of an
 external entity value

---
 src/lib/xmlparse.rs | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 62d7dc9..62e5eda 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -5419,7 +5419,7 @@ unsafe extern "C" fn externalParEntInitProcessor(
 
 unsafe extern "C" fn entityValueInitProcessor(
     mut parser: XML_Parser,
-    init_buf: ExpatBufRef,
+    mut init_buf: ExpatBufRef,
     mut nextPtr: *mut *const c_char,
 ) -> XML_Error {
     let mut buf = init_buf.clone();
@@ -5461,19 +5461,12 @@ unsafe extern "C" fn entityValueInitProcessor(
                 (*parser).m_processor = Some(entityValueProcessor as Processor);
                 return entityValueProcessor(parser, buf.with_start(next), nextPtr);
             } else {
-                /* If we are at the end of the buffer, this would cause XmlPrologTok to
-                   return XML_TOK::NONE on the next call, which would then cause the
-                   function to exit with *nextPtr set to s - that is what we want for other
-                   tokens, but not for the BOM - we would rather like to skip it;
-                   then, when this routine is entered the next time, XmlPrologTok will
-                   return XML_TOK::INVALID, since the BOM is still in the buffer
-                */
-                if tok == XML_TOK::BOM
-                    && next == buf.end()
-                    && !(*parser).m_parsingStatus.finalBuffer
-                {
-                    *nextPtr = next;
-                    return XML_Error::NONE;
+                if tok == XML_TOK::BOM {
+                    /* The byte order mark is not part of the entity value, and must not
+                       be scanned again (XmlPrologTok would return XML_TOK::INVALID then)
+                       when this routine is entered the next time
+                    */
+                    init_buf = init_buf.with_start(next);
                 } else {
                     /* If we get this token, we have the start of what might be a
                        normal tag, but not a declaration (i.e. it doesn't begin with
-- 
2.43.0


From 015948789cfb992ae814f0fb6957f920370c03ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:42 +0000
Subject: [PATCH 13/42] fix: XML_ResumeParser takes over how far the resumed
 parse got

---
 src/lib/xmlparse.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 62e5eda..2bef275 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -2943,11 +2943,15 @@ impl XML_ParserStruct {
             return XML_Status::ERROR;
         }
         self.m_parsingStatus.parsing = XML_Parsing::PARSING;
+        // convert in-out parameter `start` from index to pointer
+        let mut start: *const c_char = self.m_buffer.as_ptr().add(self.m_bufferStart);
         self.m_errorCode = self.m_processor.expect("non-null function pointer")(
             self,
             self.m_buffer[self.m_bufferStart..self.m_parseEndIdx].into(),
-            &mut (&self.m_buffer[self.m_bufferStart] as *const _),
+            &mut start,
         );
+        // convert in-out parameter `start` from pointer back to index
+        self.m_bufferStart = start.wrapping_offset_from(self.m_buffer.as_ptr()) as usize;
         if self.m_errorCode != XML_Error::NONE {
             self.m_eventEndPtr = self.m_eventPtr;
             self.m_processor = Some(errorProcessor as Processor);
@@ -2972,8 +2976,8 @@ impl XML_ParserStruct {
 
         #[cfg(feature = "mozilla")]
         {
-            self.m_eventPtr = &self.m_buffer[self.m_bufferStart];
-            self.m_eventEndPtr = &self.m_buffer[self.m_bufferStart];
+            self.m_eventPtr = self.m_buffer.as_ptr().add(self.m_bufferStart);
+            self.m_eventEndPtr = self.m_eventPtr;
         }
 
         result
-- 
2.43.0


From 8ed38b352f6a0e99391a265c8fa31c5a930e963e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:14 +0000
Subject: [PATCH 14/42] fix: store raw names and keep the tag level after
 resuming in an internal entity

---
 src/lib/xmlparse.rs | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 2bef275..9a7493c 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -7097,19 +7097,13 @@ unsafe extern "C" fn internalEntityProcessor(
         )
     } else {
         /* XML_DTD */
-        (*parser).m_processor = Some(contentProcessor as Processor);
-        /* see externalEntityContentProcessor vs contentProcessor */
-        (*parser).doContent(
-            if (*parser).is_child_parser {
-                1i32
-            } else {
-                0i32
-            },
-            EncodingType::Normal,
-            buf,
-            nextPtr,
-            !(*parser).m_parsingStatus.finalBuffer,
-        )
+        if (*parser).is_child_parser {
+            (*parser).m_processor = Some(externalEntityContentProcessor as Processor);
+            externalEntityContentProcessor(parser, buf, nextPtr)
+        } else {
+            (*parser).m_processor = Some(contentProcessor as Processor);
+            contentProcessor(parser, buf, nextPtr)
+        }
     } /* save one level of indirection */
 }
 
-- 
2.43.0


From e24dc6c77ac8e813a003d603a82fe5532a4651fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:12:09 +0000
Subject: [PATCH 15/42] fix: resume every open internal entity, up to and
 including its end

---
 src/lib/xmlparse.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 9a7493c..640657c 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -6989,7 +6989,9 @@ impl XML_ParserStruct {
             )
         }
         if result == XML_Error::NONE {
-            if text_buf.end() != next && self.m_parsingStatus.parsing == XML_Parsing::SUSPENDED {
+            /* An entity stays open until all of it has been parsed, its end included:
+               that checks its nesting, and an inner entity may still be open. */
+            if self.m_parsingStatus.parsing == XML_Parsing::SUSPENDED {
                 (*entity).processed = next.wrapping_offset_from(text_buf.as_ptr()) as i32;
                 self.m_processor = Some(internalEntityProcessor as Processor)
             } else {
@@ -7071,7 +7073,7 @@ unsafe extern "C" fn internalEntityProcessor(
     if result != XML_Error::NONE {
         return result;
     } else {
-        if text_buf.end() != next && (*parser).m_parsingStatus.parsing == XML_Parsing::SUSPENDED {
+        if (*parser).m_parsingStatus.parsing == XML_Parsing::SUSPENDED {
             (*entity).processed =
                 next.wrapping_offset_from((*entity).textPtr as *mut c_char) as c_int;
             return result;
@@ -7083,6 +7085,10 @@ unsafe extern "C" fn internalEntityProcessor(
             (*parser).m_freeInternalEntities = openEntity
         }
     }
+    if !(*parser).m_openInternalEntities.is_null() {
+        /* The rest of the entity around this one comes next */
+        return internalEntityProcessor(parser, buf, nextPtr);
+    }
     if (*entity).is_param {
         (*parser).m_processor = Some(prologProcessor as Processor);
         let tok_0 = (*(*parser).m_encoding).xmlTok(XML_STATE::PROLOG, buf, &mut next);
-- 
2.43.0


From 8ca6b4db2c25308a11535437956350b6539203d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:26 +0000
Subject: [PATCH 16/42] fix: resume inside a CDATA section of an internal
 entity

---
 src/lib/xmlparse.rs | 39 ++++++++++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 640657c..1ce872f 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -1414,6 +1414,8 @@ pub struct OpenInternalEntity {
     pub entity: *mut Entity,
     pub startTagLevel: c_int,
     pub betweenDecl: XML_Bool,
+    /* parsing was suspended inside a CDATA section of the entity */
+    pub inCdataSection: XML_Bool,
 }
 
 pub type Processor = unsafe extern "C" fn(
@@ -4105,6 +4107,9 @@ impl XML_ParserStruct {
                     if result_2 != XML_Error::NONE {
                         return result_2;
                     } else if next.is_null() {
+                        if enc_type.is_internal() {
+                            (*self.m_openInternalEntities).inCdataSection = true;
+                        }
                         self.m_processor = Some(cdataSectionProcessor as Processor);
                         return result_2;
                     }
@@ -6958,6 +6963,7 @@ impl XML_ParserStruct {
         (*openEntity).entity = entity;
         (*openEntity).startTagLevel = self.m_tagLevel;
         (*openEntity).betweenDecl = betweenDecl;
+        (*openEntity).inCdataSection = false;
         (*openEntity).internalEventPtr = ptr::null();
         (*openEntity).internalEventEndPtr = ptr::null();
         let text_buf = ExpatBufRef::new(
@@ -7062,13 +7068,32 @@ unsafe extern "C" fn internalEntityProcessor(
         )
     } else {
         /* XML_DTD */
-        result = (*parser).doContent(
-            (*openEntity).startTagLevel,
-            EncodingType::Internal,
-            text_buf,
-            &mut next,
-            false,
-        )
+        let mut content_buf = Some(text_buf);
+        if (*openEntity).inCdataSection {
+            result = doCdataSection(
+                parser,
+                EncodingType::Internal,
+                &mut content_buf,
+                &mut next,
+                false,
+            );
+            (*openEntity).inCdataSection = content_buf.is_none();
+        }
+        if let Some(content_buf) = content_buf {
+            if result == XML_Error::NONE
+                && (*parser).m_parsingStatus.parsing != XML_Parsing::SUSPENDED
+            {
+                result = (*parser).doContent(
+                    (*openEntity).startTagLevel,
+                    EncodingType::Internal,
+                    content_buf,
+                    &mut next,
+                    false,
+                );
+            }
+        }
+        /* doContent sets another processor when it stops inside a CDATA section */
+        (*parser).m_processor = Some(internalEntityProcessor as Processor);
     }
     if result != XML_Error::NONE {
         return result;
-- 
2.43.0


From 11494c8e1e7175d9bf3d1540fce148b7881a6c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:38 +0000
Subject: [PATCH 17/42] fix: let the skippedEntity handler use the DTD string
 pool

---
 src/lib/xmlparse.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 1ce872f..535943e 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -3721,11 +3721,11 @@ impl XML_ParserStruct {
                                 }
                             }
                         } else if entity.is_null() {
-                            let skippedHandlerRan = self.m_dtd.pool.current_slice(|name| {
-                                self.m_handlers.skippedEntity(name.as_ptr(), 0)
-                            });
-
+                            // The text stays valid until the pool is used again; the handler
+                            // itself may use the pool (XML_SetBase), so do not borrow it here.
+                            let name = self.m_dtd.pool.current_slice(|name| name.as_ptr());
                             self.m_dtd.pool.clear_current();
+                            let skippedHandlerRan = self.m_handlers.skippedEntity(name, 0);
 
                             if !skippedHandlerRan && self.m_handlers.hasDefault() {
                                 if !cfg!(feature = "mozilla") {
@@ -6570,12 +6570,14 @@ impl XML_ParserStruct {
                             if role == super::xmlrole::XML_ROLE::PARAM_ENTITY_REF
                                 && self.m_handlers.hasSkippedEntity()
                             {
-                                self.m_dtd.pool.current_slice(|name| {
-                                    self.m_handlers.skippedEntity(name.as_ptr(), 1);
-                                });
+                                // See above: the handler may use the pool.
+                                let name = self.m_dtd.pool.current_slice(|name| name.as_ptr());
+                                self.m_dtd.pool.clear_current();
+                                self.m_handlers.skippedEntity(name, 1);
                                 handleDefault = false;
+                            } else {
+                                self.m_dtd.pool.clear_current();
                             }
-                            self.m_dtd.pool.clear_current();
                         } else {
                             self.m_dtd.pool.clear_current();
                             if let Some(r) = self.doPrologHandleEntityRef(entity, role, &mut handleDefault) {
-- 
2.43.0


From a7e4b6e4e6e43903c903b265d9538c19876cb02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:31:08 +0000
Subject: [PATCH 18/42] fix: XML_ParserReset keeps the unknownEncodingHandler

---
 src/lib/xmlparse.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 535943e..c2b1887 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -1765,7 +1765,12 @@ impl XML_ParserStruct {
         self.m_initEncoding = InitEncoding::new(&mut self.m_encoding, ptr::null());
         self.m_encoding = &*self.m_initEncoding.as_ref().unwrap();
         self.m_userData = ptr::null_mut();
+        /* XML_ParserReset clears all handlers except for the unknownEncodingHandler */
+        let unknownEncodingHandler = self.m_handlers.m_unknownEncodingHandler;
+        let unknownEncodingHandlerData = self.m_handlers.m_unknownEncodingHandlerData;
         self.m_handlers = Default::default();
+        self.m_handlers.m_unknownEncodingHandler = unknownEncodingHandler;
+        self.m_handlers.m_unknownEncodingHandlerData = unknownEncodingHandlerData;
         self.m_handlers.m_externalEntityRefHandlerArg = self as XML_Parser;
         self.m_bufferStart = 0;
         self.m_bufferEnd = 0;
-- 
2.43.0


From d5614ac6c05712f431c08277bdb5b60c575dc403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:34:40 +0000
Subject: [PATCH 19/42] fix: keep the text of an external entity whose first
 piece is empty

---
 src/lib/xmlparse.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index c2b1887..c7f92f5 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -3506,6 +3506,12 @@ unsafe extern "C" fn externalEntityInitProcessor2(
             }
             buf = buf.with_start(next);
         }
+        XML_TOK::NONE if !(*parser).m_parsingStatus.finalBuffer => {
+            /* The encoding is not known before there is any text; do not pass
+               the initial encoding on to doContent. */
+            *endPtr = buf.as_ptr();
+            return XML_Error::NONE;
+        }
         XML_TOK::PARTIAL => {
             if !(*parser).m_parsingStatus.finalBuffer {
                 *endPtr = buf.as_ptr();
-- 
2.43.0


From 94faba47645f9b5221aed1970a5a927fb4d30570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:42:04 +0000
Subject: [PATCH 20/42] fix: report an abort requested in the last callback of
 a piece

A handler that called XML_StopParser(parser, XML_FALSE) from the last
callback made for a piece of input left the processor with nothing to do,
so that XML_Parse reported success and the abort was lost.
---
 src/lib/xmlparse.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index c7f92f5..26af29f 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -2627,6 +2627,7 @@ impl XML_ParserStruct {
                 &mut start_ptr,
             );
             self.m_bufferStart = start_ptr.wrapping_offset_from(self.m_buffer.as_ptr()) as usize;
+            self.reportAbort();
             if self.m_errorCode == XML_Error::NONE {
                 match self.m_parsingStatus.parsing {
                     XML_Parsing::SUSPENDED => {
@@ -2690,6 +2691,17 @@ pub unsafe extern "C" fn XML_Parse(
 }
 
 impl XML_ParserStruct {
+    /* A processor that was aborted in the last callback it had to make may
+       have had nothing left to do, and so returned no error.
+    */
+    fn reportAbort(&mut self) {
+        if self.m_errorCode == XML_Error::NONE
+            && self.m_parsingStatus.parsing == XML_Parsing::FINISHED
+        {
+            self.m_errorCode = XML_Error::ABORTED;
+        }
+    }
+
     pub unsafe fn parseBuffer(&mut self, len: c_int, isFinal: c_int) -> XML_Status {
         let mut start: *const c_char = ptr::null();
         let mut result: XML_Status = XML_Status::OK;
@@ -2727,6 +2739,7 @@ impl XML_ParserStruct {
         );
         // convert in-out parameter `start` from pointer back to index
         self.m_bufferStart = start.wrapping_offset_from(self.m_buffer.as_ptr()) as usize;
+        self.reportAbort();
         if self.m_errorCode != XML_Error::NONE {
             self.m_eventEndPtr = self.m_eventPtr;
             self.m_processor = Some(errorProcessor as Processor);
@@ -2959,6 +2972,7 @@ impl XML_ParserStruct {
         );
         // convert in-out parameter `start` from pointer back to index
         self.m_bufferStart = start.wrapping_offset_from(self.m_buffer.as_ptr()) as usize;
+        self.reportAbort();
         if self.m_errorCode != XML_Error::NONE {
             self.m_eventEndPtr = self.m_eventPtr;
             self.m_processor = Some(errorProcessor as Processor);
-- 
2.43.0


From ad42362585e3d2e4ac4af76732b1921e7b50ea4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:43:06 +0000
Subject: [PATCH 21/42] fix: count a CR LF split between two pieces of input as
 one line end

---
 src/lib/xmltok.rs      |  2 ++
 src/lib/xmltok_impl.rs | 11 +++++++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/lib/xmltok.rs b/src/lib/xmltok.rs
index 9447045..4405002 100644
--- a/src/lib/xmltok.rs
+++ b/src/lib/xmltok.rs
@@ -186,6 +186,8 @@ pub struct Position {
     /* first line and first column are 0 not 1 */
     pub lineNumber: XML_Size,
     pub columnNumber: XML_Size,
+    /* the last character counted was a CR: an LF next belongs to it */
+    pub afterCR: bool,
 }
 
 #[repr(C)]
diff --git a/src/lib/xmltok_impl.rs b/src/lib/xmltok_impl.rs
index 76c3223..95eee5f 100644
--- a/src/lib/xmltok_impl.rs
+++ b/src/lib/xmltok_impl.rs
@@ -1780,6 +1780,12 @@ impl<T: XmlEncodingImpl+XmlTokImpl> XmlEncoding for T {
         mut buf: ExpatBufRef,
         mut pos: &mut Position,
     ) {
+        if pos.afterCR && HAS_CHAR!(buf, self) {
+            pos.afterCR = false;
+            if self.byte_type(buf.as_ptr()) == ByteType::LF {
+                buf = buf.inc_start(self.MINBPC() as isize)
+            }
+        }
         while HAS_CHAR!(buf, self) {
             MATCH_LEAD_CASES! {
                 self.byte_type(buf.as_ptr()),
@@ -1794,8 +1800,9 @@ impl<T: XmlEncodingImpl+XmlTokImpl> XmlEncoding for T {
                 ByteType::CR => {
                     (*pos).lineNumber = (*pos).lineNumber.wrapping_add(1);
                     buf = buf.inc_start(self.MINBPC() as isize);
-                    if HAS_CHAR!(buf, self) &&
-                           self.byte_type(buf.as_ptr()) == ByteType::LF {
+                    if !HAS_CHAR!(buf, self) {
+                        pos.afterCR = true;
+                    } else if self.byte_type(buf.as_ptr()) == ByteType::LF {
                         buf = buf.inc_start(self.MINBPC() as isize)
                     }
                     (*pos).columnNumber = -(1 as libc::c_int) as XML_Size
-- 
2.43.0


From 2dc5db87b59f63a7564ed9ed7e54f31e54e9a52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:49:41 +0000
Subject: [PATCH 22/42] fix: reject markup after the text declaration of an
 entity value instead of hanging

---
 src/lib/xmlparse.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 26af29f..44bade8 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -5580,6 +5580,12 @@ unsafe extern "C" fn entityValueProcessor(
             */
             /* found end of entity value - can store it now */
             return storeEntityValue(parser, EncodingType::Normal, init_buf);
+        } else if tok == XML_TOK::INSTANCE_START {
+            /* Not legal in a DTD context, as in entityValueInitProcessor, and
+               the token is empty: scanning on would never end.
+            */
+            *nextPtr = next;
+            return XML_Error::SYNTAX;
         }
         buf = buf.with_start(next);
     }
-- 
2.43.0


From 2a2fe2d38e7522f52861d0a434aff6f575397d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:54:01 +0000
Subject: [PATCH 23/42] fix: convert two- and three-byte UTF-8 sequences to
 UTF-16 without looping

---
 src/lib/xmltok.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/xmltok.rs b/src/lib/xmltok.rs
index 4405002..70e9232 100644
--- a/src/lib/xmltok.rs
+++ b/src/lib/xmltok.rs
@@ -603,7 +603,7 @@ impl<T: NormalEncodingTable> XmlEncodingImpl for Utf8EncodingImpl<T> {
                                  | from[1] as c_int & 0x3f)
                             as c_ushort;
                         to.inc_start(1);
-                        from.inc_start(2);
+                        *from = from.inc_start(2);
                     }
                 }
                 6 => {
@@ -616,7 +616,7 @@ impl<T: NormalEncodingTable> XmlEncodingImpl for Utf8EncodingImpl<T> {
                                  | from[2] as c_int & 0x3f)
                             as c_ushort;
                         to.inc_start(1);
-                        from.inc_start(3);
+                        *from = from.inc_start(3);
                     }
                 }
                 7 => {
@@ -646,7 +646,7 @@ impl<T: NormalEncodingTable> XmlEncodingImpl for Utf8EncodingImpl<T> {
                 }
             }
         }
-        if !from.is_empty() {
+        if res == XML_Convert_Result::COMPLETED && !from.is_empty() {
             res = XML_Convert_Result::OUTPUT_EXHAUSTED
         }
         res
-- 
2.43.0


From efeaff4b4997f5a5a027fe513541845db8561800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:54:14 +0000
Subject: [PATCH 24/42] fix: keep the local part of a name in place when its
 raw name is stored in the unicode build

---
 src/lib/xmlparse.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 44bade8..9030265 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -3444,12 +3444,12 @@ impl XML_ParserStruct {
                 then update it as well, since it will always point into tag->buf
                 */
                 if !tag.name.localPart.is_null() {
-                    tag.name.localPart = (temp).offset(
+                    tag.name.localPart = (temp as *const XML_Char).offset(
                         tag
                             .name
                             .localPart
                             .wrapping_offset_from(tag.buf as *const XML_Char),
-                    ) as *const XML_Char
+                    )
                 } /* XmlContentTok doesn't always set the last arg */
                 tag.buf = temp;
                 tag.bufEnd = temp.offset(bufSize as isize);
-- 
2.43.0


From f2a78ce86614e064bef58697f4aec6a3193339b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:56:10 +0000
Subject: [PATCH 25/42] fix: convert ISO-8859-1 and US-ASCII text to UTF-16

---
 src/lib/xmltok.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/xmltok.rs b/src/lib/xmltok.rs
index 70e9232..747125b 100644
--- a/src/lib/xmltok.rs
+++ b/src/lib/xmltok.rs
@@ -1921,8 +1921,8 @@ fn latin1_toUtf16(
     mut from: &mut ExpatBufRef,
     to: &mut ExpatBufRefMut<u16>,
 ) -> XML_Convert_Result {
-    while !from.is_empty() && to.is_empty() {
-        to[0] = from[0] as u16;
+    while !from.is_empty() && !to.is_empty() {
+        to[0] = from[0] as u8 as u16;
         to.inc_start(1);
         *from = from.inc_start(1);
     }
-- 
2.43.0


From 3fb72e56ff9d6d0d116d385e6a84cc0a495f96c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:57:24 +0000
Subject: [PATCH 26/42] fix: a default handler may remove itself while a long
 token is passed on in pieces

---
 src/lib/xmlparse.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 9030265..e14c6a9 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -7761,9 +7761,9 @@ unsafe extern "C" fn reportDefault(
                 data_buf.as_ptr().wrapping_offset_from((*parser).m_dataBuf.as_ptr()).try_into().unwrap(),
             );
 
-            // Previously unwrapped an Option
+            // The handler may have removed itself; nobody wants the rest then
             if !defaultRan {
-                panic!("Expected default handler to be set");
+                break;
             }
 
             *eventPP = buf.as_ptr();
-- 
2.43.0


From 7be571b9dfe523560d35abf821e6bb73009c2db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:12:17 +0000
Subject: [PATCH 27/42] fix: position of an error after ']' when the input ends
 inside a UTF-16 code unit

---
 src/lib/xmlparse.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index e14c6a9..d7c8bdd 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -4144,6 +4144,8 @@ impl XML_ParserStruct {
                         *nextPtr = buf.as_ptr();
                         return XML_Error::NONE;
                     }
+                    // XmlConvert! below may leave off half a UTF-16 code unit
+                    let end = buf.end();
                     if self.m_handlers.hasCharacterData() {
                         if MUST_CONVERT!(enc, buf.as_ptr()) {
                             let dataStart = self.m_dataBuf.as_ptr();
@@ -4165,14 +4167,14 @@ impl XML_ParserStruct {
                        XML_Parsing::SUSPENDED, XML_Parsing::FINISHED?
                     */
                     if startTagLevel == 0 {
-                        *eventPP = buf.end();
+                        *eventPP = end;
                         return XML_Error::NO_ELEMENTS;
                     }
                     if self.m_tagLevel != startTagLevel {
-                        *eventPP = buf.end();
+                        *eventPP = end;
                         return XML_Error::ASYNC_ENTITY;
                     }
-                    *nextPtr = buf.end();
+                    *nextPtr = end;
                     return XML_Error::NONE;
                 }
                 XML_TOK::DATA_CHARS => {
-- 
2.43.0


From 801b7da406622130e9b5e806532299706229a4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:05:00 +0000
Subject: [PATCH 28/42] fix: an encoding name of 127 characters in the
 declaration no longer panics

---
 src/lib/xmltok.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/xmltok.rs b/src/lib/xmltok.rs
index 747125b..21f80c1 100644
--- a/src/lib/xmltok.rs
+++ b/src/lib/xmltok.rs
@@ -2566,7 +2566,7 @@ pub fn findEncoding(
     if !buf.is_empty() {
         return None;
     }
-    p[0] = 0;
+    // out_buf is still zero behind the converted name (which may fill all of p)
     unsafe {
         if streqci(out_buf.as_ptr(), KW_UTF_16.as_ptr()) != 0 && (*enc).minBytesPerChar() == 2 {
             return Some(enc.clone());
@@ -2594,7 +2594,7 @@ pub fn findEncodingNS(
     if !buf.is_empty() {
         return None;
     }
-    p[0] = 0;
+    // out_buf is still zero behind the converted name (which may fill all of p)
     unsafe {
         if streqci(out_buf.as_ptr(), KW_UTF_16.as_ptr()) != 0 && (*enc).minBytesPerChar() == 2 {
             return Some(enc.clone());
-- 
2.43.0


From 2c283fa33ca8b0f2dcad58482666ea2d7dca01ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:05:00 +0000
Subject: [PATCH 29/42] fix: UTF-16 text longer than the conversion buffer
 keeps its last surrogate

---
 src/lib/xmltok.rs | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/src/lib/xmltok.rs b/src/lib/xmltok.rs
index 21f80c1..326778d 100644
--- a/src/lib/xmltok.rs
+++ b/src/lib/xmltok.rs
@@ -978,15 +978,12 @@ impl<T: NormalEncodingTable> XmlEncodingImpl for Little2EncodingImpl<T> {
         from: &mut ExpatBufRef,
         to: &mut ExpatBufRefMut<u16>,
     ) -> XML_Convert_Result {
-        let mut res: XML_Convert_Result = XML_Convert_Result::COMPLETED;
         *from = from.with_len(((from.len() as c_long >> 1) << 1) as usize);
-        if from.len() as c_long > ((to.len() as c_long) << 1)
-            && from[from.len()-1] as c_uchar as c_int & 0xf8 == 0xd8
-        {
-            *from = from.dec_end(2);
-            res = XML_Convert_Result::INPUT_INCOMPLETE
-        }
         while !from.is_empty() && !to.is_empty() {
+            // Avoid copying the first half only of a surrogate pair
+            if to.len() == 1 && from.len() > 2 && from[1] as c_uchar as c_int & 0xfc == 0xd8 {
+                return XML_Convert_Result::OUTPUT_EXHAUSTED;
+            }
             to[0] = ((from[1] as c_uchar as c_int) << 8
                      | from[0] as c_uchar as c_int) as c_ushort;
             to.inc_start(1);
@@ -995,7 +992,7 @@ impl<T: NormalEncodingTable> XmlEncodingImpl for Little2EncodingImpl<T> {
         if to.is_empty() && !from.is_empty() {
             XML_Convert_Result::OUTPUT_EXHAUSTED
         } else {
-            res
+            XML_Convert_Result::COMPLETED
         }
     }
 }
@@ -1152,15 +1149,12 @@ impl<T: NormalEncodingTable> XmlEncodingImpl for Big2EncodingImpl<T> {
         from: &mut ExpatBufRef,
         to: &mut ExpatBufRefMut<u16>,
     ) -> XML_Convert_Result {
-        let mut res: XML_Convert_Result = XML_Convert_Result::COMPLETED;
         *from = from.with_len(((from.len() as c_long >> 1) << 1) as usize);
-        if from.len() as c_long > ((to.len() as c_long) << 1)
-            && from[from.len()-2] as c_uchar as c_int & 0xf8 == 0xd8
-        {
-            *from = from.dec_end(2);
-            res = XML_Convert_Result::INPUT_INCOMPLETE
-        }
         while !from.is_empty() && !to.is_empty() {
+            // Avoid copying the first half only of a surrogate pair
+            if to.len() == 1 && from.len() > 2 && from[0] as c_uchar as c_int & 0xfc == 0xd8 {
+                return XML_Convert_Result::OUTPUT_EXHAUSTED;
+            }
             to[0] = ((from[0] as c_uchar as c_int) << 8
                      | from[1] as c_uchar as c_int) as c_ushort;
             to.inc_start(1);
@@ -1169,7 +1163,7 @@ impl<T: NormalEncodingTable> XmlEncodingImpl for Big2EncodingImpl<T> {
         if to.is_empty() && !from.is_empty() {
             XML_Convert_Result::OUTPUT_EXHAUSTED
         } else {
-            res
+            XML_Convert_Result::COMPLETED
         }
     }
 }
-- 
2.43.0


From e9c4b55f0f23f0d1fd9b357bf51db0a2380d2ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:09:00 +0000
Subject: [PATCH 30/42] fix: text of an attribute type is dropped also when the
 attlistDecl handler has been removed

---
 src/lib/xmlparse.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index d7c8bdd..1da84f0 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -6070,10 +6070,11 @@ impl XML_ParserStruct {
                                 ptr::null(),
                                 (role == super::xmlrole::XML_ROLE::REQUIRED_ATTRIBUTE_VALUE) as c_int,
                             );
-                            self.m_tempPool.clear();
                             handleDefault = false
                         }
                     }
+                    // also when the handler was removed after the type had been collected
+                    self.m_tempPool.clear();
                 }
                 XML_ROLE::DEFAULT_ATTRIBUTE_VALUE | XML_ROLE::FIXED_ATTRIBUTE_VALUE => {
                     if self.m_dtd.keepProcessing.get() {
@@ -6125,10 +6126,11 @@ impl XML_ParserStruct {
                                 attVal,
                                 (role == super::xmlrole::XML_ROLE::FIXED_ATTRIBUTE_VALUE) as c_int,
                             );
-                            self.m_tempPool.clear();
                             handleDefault = false
                         }
                     }
+                    // also when the handler was removed after the type had been collected
+                    self.m_tempPool.clear();
                 }
                 XML_ROLE::ENTITY_VALUE => {
                     if self.m_dtd.keepProcessing.get() {
-- 
2.43.0


From a09fd7ac1e53efa0dbc8dc7b50787aafabb3508d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:27:25 +0000
Subject: [PATCH 31/42] fix: the parser of an external general entity shares
 nothing with its parent, not even a reference count

---
 src/lib/xmlparse.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 1da84f0..e0f9e2b 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -1089,7 +1089,7 @@ pub struct DTD {
     // that can't be stored in `Cell`s below
     tables: RefCell<DTDTables>,
 
-    scaffold: Rc<RefCell<DTDScaffold>>,
+    scaffold: RefCell<DTDScaffold>,
     keepProcessing: Cell<XML_Bool>,
     hasParamEntityRefs: Cell<XML_Bool>,
     standalone: Cell<XML_Bool>,
@@ -1125,7 +1125,7 @@ impl DTD {
             paramEntityRead: Cell::new(false),
             defaultPrefix: Default::default(),
             in_eldecl: Cell::new(false),
-            scaffold: Rc::try_new(Default::default())?,
+            scaffold: Default::default(),
             contentStringLen: Cell::new(0),
         })
     }
@@ -1166,8 +1166,9 @@ impl DTD {
             paramEntityRead: self.paramEntityRead.clone(),
             defaultPrefix: Default::default(),
             in_eldecl: self.in_eldecl.clone(),
-            /* Don't want deep copying for scaffolding */
-            scaffold: Rc::clone(&self.scaffold),
+            /* Don't want copying for scaffolding: nothing may be shared, the
+               new parser can be used in another thread */
+            scaffold: Default::default(),
             contentStringLen: self.contentStringLen.clone(),
         })?;
 
-- 
2.43.0


From d99ffd53ab12dd193b938e31b6cb886503e73f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:58:56 +0000
Subject: [PATCH 32/42] fix: running out of memory for the prefix of a
 namespace declaration is an error

---
 src/lib/xmlparse.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index e0f9e2b..9353ee6 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -7912,6 +7912,9 @@ impl XML_ParserStruct {
                             &name[6] as *const _,
                             Prefix
                         ).0;
+                        if (*id).prefix.is_null() {
+                            return ptr::null_mut();
+                        }
                     }
                     (*id).xmlns = true
                 } else {
-- 
2.43.0


From 65785331f5376f96626cc25c952d5906f98785d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:15:04 +0000
Subject: [PATCH 33/42] fix: xmlwf accepts file names that are not UTF-8

---
 src/xmlwf/xmlwf.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/xmlwf/xmlwf.rs b/src/xmlwf/xmlwf.rs
index ba2cc5c..ff40976 100644
--- a/src/xmlwf/xmlwf.rs
+++ b/src/xmlwf/xmlwf.rs
@@ -1563,9 +1563,10 @@ unsafe fn main_0(mut argc: c_int, mut argv: *mut *mut XML_Char) -> c_int {
 #[main]
 pub fn main() {
     let mut args: Vec<*mut libc::c_char> = Vec::new();
-    for arg in ::std::env::args() {
+    // A file name is any sequence of bytes, not necessarily UTF-8
+    for arg in ::std::env::args_os() {
         args.push(
-            ::std::ffi::CString::new(arg)
+            ::std::ffi::CString::new(::std::os::unix::ffi::OsStringExt::into_vec(arg))
                 .expect("Failed to convert argument into CString.")
                 .into_raw(),
         );
-- 
2.43.0


From 91307693b0921d58ea6d2b6e335bd5063d38e9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:38:03 +0000
Subject: [PATCH 34/42] fix: a position inside a multi-byte character no longer
 panics

XmlUpdatePosition may be asked for a position in the middle of a
character when an application encoding gives ASCII characters to
multi-byte sequences in an XML or text declaration.
---
 src/lib/xmltok_impl.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/xmltok_impl.rs b/src/lib/xmltok_impl.rs
index 95eee5f..4b1846c 100644
--- a/src/lib/xmltok_impl.rs
+++ b/src/lib/xmltok_impl.rs
@@ -1790,7 +1790,8 @@ impl<T: XmlEncodingImpl+XmlTokImpl> XmlEncoding for T {
             MATCH_LEAD_CASES! {
                 self.byte_type(buf.as_ptr()),
                 LEAD_CASE(n) => {
-                    buf = buf.inc_start(n as isize);
+                    // the position asked for may lie inside a character
+                    buf = buf.inc_start(std::cmp::min(n as isize, buf.len() as isize));
                 }
                 ByteType::LF => {
                     (*pos).columnNumber = -(1 as libc::c_int) as XML_Size;
-- 
2.43.0


From d228043b81b1b901e07fc6d709e8e8c4b09309e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:14:40 +0000
Subject: [PATCH 35/42] fix: a parameter entity may be referenced inside an
 INCLUDE section

---
 src/lib/xmlparse.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 9353ee6..81105f9 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -1415,6 +1415,8 @@ pub struct OpenInternalEntity {
     pub entity: *mut Entity,
     pub startTagLevel: c_int,
     pub betweenDecl: XML_Bool,
+    /* INCLUDE sections open around a reference between declarations */
+    pub includeLevel: c_uint,
     /* parsing was suspended inside a CDATA section of the entity */
     pub inCdataSection: XML_Bool,
 }
@@ -5753,6 +5755,10 @@ impl XML_ParserStruct {
                             {
                                 return XML_Error::INCOMPLETE_PE;
                             }
+                            if enc_type.is_internal() {
+                                self.m_prologState.includeLevel =
+                                    (*self.m_openInternalEntities).includeLevel;
+                            }
                             *nextPtr = buf.as_ptr();
                             return XML_Error::NONE;
                         }
@@ -7001,6 +7007,12 @@ impl XML_ParserStruct {
         (*openEntity).entity = entity;
         (*openEntity).startTagLevel = self.m_tagLevel;
         (*openEntity).betweenDecl = betweenDecl;
+        (*openEntity).includeLevel = 0;
+        if (*entity).is_param && betweenDecl {
+            /* the entity must close the sections it opens, and only those */
+            (*openEntity).includeLevel = self.m_prologState.includeLevel;
+            self.m_prologState.includeLevel = 0;
+        }
         (*openEntity).inCdataSection = false;
         (*openEntity).internalEventPtr = ptr::null();
         (*openEntity).internalEventEndPtr = ptr::null();
-- 
2.43.0


From f250e6f96f1190132fc38e9e67fa5152f745463f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:14:52 +0000
Subject: [PATCH 36/42] fix: an ignored section may contain a bracket before
 its end

---
 src/lib/xmltok_impl.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/lib/xmltok_impl.rs b/src/lib/xmltok_impl.rs
index 4b1846c..0ad7eea 100644
--- a/src/lib/xmltok_impl.rs
+++ b/src/lib/xmltok_impl.rs
@@ -1466,10 +1466,11 @@ impl<T: XmlEncodingImpl+XmlTokImpl> XmlEncoding for T {
                     buf = buf.inc_start(self.MINBPC() as isize);
                     REQUIRE_CHAR!(buf, self);
                     if self.char_matches(buf.as_ptr(), ASCII_RSQB) {
-                        buf = buf.inc_start(self.MINBPC() as isize);
-                        REQUIRE_CHAR!(buf, self);
-                        if self.char_matches(buf.as_ptr(), ASCII_GT) {
-                            buf = buf.inc_start(self.MINBPC() as isize);
+                        /* a further bracket may be the second of "]]>" */
+                        let after = buf.inc_start(self.MINBPC() as isize);
+                        REQUIRE_CHAR!(after, self);
+                        if self.char_matches(after.as_ptr(), ASCII_GT) {
+                            buf = after.inc_start(self.MINBPC() as isize);
                             if level == 0 as libc::c_int {
                                 *nextTokPtr = buf.as_ptr();
                                 return XML_TOK::IGNORE_SECT
-- 
2.43.0


From ec2f2ee9374989785543c361e2cc1cb72d142fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:33:52 +0000
Subject: [PATCH 37/42] fix: a parameter entity's unfinished declaration no
 longer aborts the parser that goes on

---
 src/lib/xmlparse.rs | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 81105f9..13fe869 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -6097,6 +6097,8 @@ impl XML_ParserStruct {
                             &self.m_dtd.pool,
                         );
                         if result_1 as u64 != 0 {
+                            // the pool is shared with the parsers of other entities
+                            self.m_dtd.pool.clear_current();
                             return result_1;
                         }
                         attVal = self.m_dtd.pool.finish_string().as_ptr();
@@ -6523,12 +6525,14 @@ impl XML_ParserStruct {
                         == 0
                     {
                         let mut scf = self.m_dtd.scaffold.borrow_mut();
-                        let idx = scf.index.last().copied().unwrap();
-                        if scf.scaffold[idx].type_0 != XML_Content_Type::MIXED
-                        {
-                            scf.scaffold[idx].type_0 = XML_Content_Type::CHOICE;
-                            if self.m_handlers.hasElementDecl() {
-                                handleDefault = false
+                        // empty when a parameter entity left a declaration of its own unfinished
+                        if let Some(idx) = scf.index.last().copied() {
+                            if scf.scaffold[idx].type_0 != XML_Content_Type::MIXED
+                            {
+                                scf.scaffold[idx].type_0 = XML_Content_Type::CHOICE;
+                                if self.m_handlers.hasElementDecl() {
+                                    handleDefault = false
+                                }
                             }
                         }
                     }
@@ -6669,8 +6673,9 @@ impl XML_ParserStruct {
                 XML_ROLE::CONTENT_PCDATA => {
                     if self.m_dtd.in_eldecl.get() {
                         let mut scf = self.m_dtd.scaffold.borrow_mut();
-                        let idx = scf.index.last().copied().unwrap();
-                        scf.scaffold[idx].type_0 = XML_Content_Type::MIXED;
+                        if let Some(idx) = scf.index.last().copied() {
+                            scf.scaffold[idx].type_0 = XML_Content_Type::MIXED;
+                        }
                         if self.m_handlers.hasElementDecl() {
                             handleDefault = false
                         }
@@ -6813,8 +6818,11 @@ impl XML_ParserStruct {
                         }
                         let empty_scaffold = {
                             let mut scf = self.m_dtd.scaffold.borrow_mut();
-                            let idx = scf.index.pop().unwrap();
-                            scf.scaffold[idx].quant = quant;
+                            match scf.index.pop() {
+                                Some(idx) => scf.scaffold[idx].quant = quant,
+                                // the model is lost, nothing can be reported for it
+                                None => handleDefault = true,
+                            }
                             scf.index.is_empty()
                         };
                         if empty_scaffold {
-- 
2.43.0


From 0565ebf7236408a0c053434c67078218b1c3a5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:53:35 +0000
Subject: [PATCH 38/42] fix: resetting a parser while a parameter entity's
 parser is alive no longer aborts

---
 src/lib/xmlparse.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 13fe869..f5bcebd 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -1841,6 +1841,14 @@ impl XML_ParserStruct {
         if self.is_child_parser {
             return false;
         }
+        // The parser of a parameter entity that was not freed yet keeps using the DTD it shares
+        let own_dtd = match Rc::get_mut(&mut self.m_dtd) {
+            Some(_) => None,
+            None => match DTD::try_new().and_then(Rc::try_new) {
+                Ok(dtd) => Some(dtd),
+                Err(_) => return false,
+            },
+        };
         /* move m_tagStack to m_freeTagList */
         let mut tStk = self.m_tagStack.take();
         while let Some(mut tag) = tStk {
@@ -1870,7 +1878,10 @@ impl XML_ParserStruct {
         FREE!(self.m_protocolEncodingName);
         self.m_protocolEncodingName = ptr::null();
         self.init(encodingName);
-        Rc::get_mut(&mut self.m_dtd).unwrap().reset();
+        match own_dtd {
+            Some(dtd) => self.m_dtd = dtd,
+            None => Rc::get_mut(&mut self.m_dtd).unwrap().reset(),
+        }
         true
     }
 }
-- 
2.43.0


From 407dc2127a3cda2c7295624361a0da727480a55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:00:19 +0000
Subject: [PATCH 39/42] fix: a string a failing parser left unfinished in the
 shared pool is dropped

---
 src/lib/xmlparse.rs | 12 ++++++++++--
 src/string_pool.rs  |  2 ++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index f5bcebd..c85cbf2 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -2674,6 +2674,7 @@ impl XML_ParserStruct {
                 return XML_Status::OK;
             }
             self.m_eventEndPtr = self.m_eventPtr;
+            self.dropUnfinishedString();
             self.m_processor = Some(errorProcessor as Processor);
             XML_Status::ERROR
         } else {
@@ -2705,6 +2706,13 @@ pub unsafe extern "C" fn XML_Parse(
 }
 
 impl XML_ParserStruct {
+    /* What a parser that fails has not finished is not the start of the next
+       string: a parameter entity's parser shares the pool with its parent, which
+       may go on if the application ignores the failure. */
+    fn dropUnfinishedString(&self) {
+        self.m_dtd.pool.clear_current();
+    }
+
     /* A processor that was aborted in the last callback it had to make may
        have had nothing left to do, and so returned no error.
     */
@@ -2756,6 +2764,7 @@ impl XML_ParserStruct {
         self.reportAbort();
         if self.m_errorCode != XML_Error::NONE {
             self.m_eventEndPtr = self.m_eventPtr;
+            self.dropUnfinishedString();
             self.m_processor = Some(errorProcessor as Processor);
             return XML_Status::ERROR as XML_Status;
         } else {
@@ -2989,6 +2998,7 @@ impl XML_ParserStruct {
         self.reportAbort();
         if self.m_errorCode != XML_Error::NONE {
             self.m_eventEndPtr = self.m_eventPtr;
+            self.dropUnfinishedString();
             self.m_processor = Some(errorProcessor as Processor);
             return XML_Status::ERROR;
         } else {
@@ -6108,8 +6118,6 @@ impl XML_ParserStruct {
                             &self.m_dtd.pool,
                         );
                         if result_1 as u64 != 0 {
-                            // the pool is shared with the parsers of other entities
-                            self.m_dtd.pool.clear_current();
                             return result_1;
                         }
                         attVal = self.m_dtd.pool.finish_string().as_ptr();
diff --git a/src/string_pool.rs b/src/string_pool.rs
index f1726a5..3cdb9ef 100644
--- a/src/string_pool.rs
+++ b/src/string_pool.rs
@@ -216,6 +216,8 @@ impl StringPool {
 
             loop {
                 if !vec.append_char(*s) {
+                    // not the start of the next string
+                    vec.0.clear();
                     return false;
                 }
                 if *s == 0 {
-- 
2.43.0


From f0f20af69e1c1fd7f5bfbb1cc5ab8e52844bd487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:28:23 +0000
Subject: [PATCH 40/42] fix: freeing a parser inside deeply nested elements no
 longer overflows the stack

---
 src/lib/xmlparse.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index c85cbf2..3ba131c 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -1549,6 +1549,11 @@ impl Drop for Tag {
             FREE!(self.buf);
             destroyBindings(self.bindings);
         }
+        // not recursively: elements can be nested deeper than the stack allows
+        let mut parent = self.parent.take();
+        while let Some(mut tag) = parent {
+            parent = tag.parent.take();
+        }
     }
 }
 
-- 
2.43.0


From 58655c55f0eb9b643c609ee09064ea9c14c671c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:29:59 +0000
Subject: [PATCH 41/42] fix: a deeply nested content model no longer overflows
 the stack

---
 src/lib/xmlparse.rs | 96 ++++++++++++++++++++-------------------------
 1 file changed, 42 insertions(+), 54 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 3ba131c..477ace7 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -8323,70 +8323,58 @@ unsafe extern "C" fn keylen(mut s: KEY) -> size_t {
 
 
 impl XML_ParserStruct {
-    fn build_node<'a, 'b>(
-        &self,
-        src_node: usize,
-        dest: &mut XML_Content,
-        mut contpos: &'a mut [XML_Content],
-        mut strpos: &'b mut [XML_Char],
-    ) -> (&'a mut [XML_Content], &'b mut [XML_Char]) {
-        let scf = RefCell::borrow(&self.m_dtd.scaffold);
-        dest.type_0 = scf.scaffold[src_node].type_0;
-        dest.quant = scf.scaffold[src_node].quant;
-        if dest.type_0 == XML_Content_Type::NAME {
-            dest.name = (*strpos).as_ptr() as *mut XML_Char;
-            dest.numchildren = 0;
-            dest.children = ptr::null_mut();
-
-            let mut src = scf.scaffold[src_node].name;
-            loop {
-                let (first, rest) = strpos.split_first_mut().unwrap();
-                *first = unsafe { *src };
-                if *first == 0 {
-                    return (contpos, rest);
-                }
-                unsafe { src = src.offset(1) };
-                strpos = rest;
-            }
-        } else {
-            let (children, rest) = contpos.split_at_mut(scf.scaffold[src_node].childcnt);
-            contpos = rest;
-
-            dest.name = ptr::null_mut();
-            dest.numchildren = children.len().try_into().unwrap();
-            dest.children = children.as_ptr() as *mut XML_Content;
-
-            let mut cn = scf.scaffold[src_node].firstchild;
-            for child in children {
-                let (ncp, nsp) = self.build_node(cn, child, contpos, strpos);
-                cn = scf.scaffold[cn].nextsib;
-                contpos = ncp;
-                strpos = nsp;
-            }
-        }
-        (contpos, strpos)
-    }
-
     unsafe fn build_model(&mut self) -> *mut XML_Content {
-        let mut ret: *mut XML_Content = ptr::null_mut();
-        let scaffold_len = self.m_dtd.scaffold.borrow().scaffold.len();
+        let scf = RefCell::borrow(&self.m_dtd.scaffold);
+        let scaffold_len = scf.scaffold.len();
         let mut allocsize: c_int = (scaffold_len as c_ulong)
             .wrapping_mul(::std::mem::size_of::<XML_Content>() as c_ulong)
             .wrapping_add(
                 (self.m_dtd.contentStringLen.get() as c_ulong)
                     .wrapping_mul(::std::mem::size_of::<XML_Char>() as c_ulong),
             ) as c_int;
-        ret = MALLOC!(allocsize as size_t) as *mut XML_Content;
+        let ret = MALLOC!(allocsize as size_t) as *mut XML_Content;
         if ret.is_null() {
             return ptr::null_mut();
         }
-        let str = std::slice::from_raw_parts_mut(
-            ret.add(scaffold_len) as *mut XML_Char,
-            self.m_dtd.contentStringLen.get() as usize);
-        let cpos = std::slice::from_raw_parts_mut(
-            ret.offset(1) as *mut XML_Content,
-            scaffold_len as usize - 1);
-        self.build_node(0, &mut *ret, cpos, str);
+        let mut strpos = ret.add(scaffold_len) as *mut XML_Char;
+        /* Not recursively, as groups can be nested deeper than the stack allows:
+           nodes are laid out level by level, and until a node is built its
+           numchildren holds the index of its source in the scaffold. */
+        let mut dest = ret;
+        let mut contpos = ret.add(1);
+        (*ret).numchildren = 0;
+        while dest != contpos {
+            let src = &scf.scaffold[(*dest).numchildren as usize];
+            (*dest).type_0 = src.type_0;
+            (*dest).quant = src.quant;
+            if src.type_0 == XML_Content_Type::NAME {
+                (*dest).name = strpos;
+                (*dest).numchildren = 0;
+                (*dest).children = ptr::null_mut();
+
+                let mut name = src.name;
+                loop {
+                    *strpos = *name;
+                    strpos = strpos.offset(1);
+                    if *name == 0 {
+                        break;
+                    }
+                    name = name.offset(1);
+                }
+            } else {
+                (*dest).name = ptr::null_mut();
+                (*dest).numchildren = src.childcnt.try_into().unwrap();
+                (*dest).children = contpos;
+
+                let mut cn = src.firstchild;
+                for _ in 0..src.childcnt {
+                    (*contpos).numchildren = cn.try_into().unwrap();
+                    contpos = contpos.offset(1);
+                    cn = scf.scaffold[cn].nextsib;
+                }
+            }
+            dest = dest.offset(1);
+        }
         ret
     }
 
-- 
2.43.0


From c214a4f01e0715f9ddbab7b34dacd55851795444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:39:45 +0000
Subject: [PATCH 42/42] fix: XML_ParseBuffer rejects a length its buffer does
 not hold

---
 src/lib/xmlparse.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 477ace7..13459dc 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -2732,6 +2732,10 @@ impl XML_ParserStruct {
     pub unsafe fn parseBuffer(&mut self, len: c_int, isFinal: c_int) -> XML_Status {
         let mut start: *const c_char = ptr::null();
         let mut result: XML_Status = XML_Status::OK;
+        if len < 0 {
+            self.m_errorCode = XML_Error::INVALID_ARGUMENT;
+            return XML_Status::ERROR;
+        }
         match self.m_parsingStatus.parsing {
             XML_Parsing::SUSPENDED => {
                 self.m_errorCode = XML_Error::SUSPENDED;
@@ -2741,6 +2745,11 @@ impl XML_ParserStruct {
                 self.m_errorCode = XML_Error::FINISHED;
                 return XML_Status::ERROR as XML_Status;
             }
+            /* there is no more than the buffer handed out by XML_GetBuffer holds */
+            _ if len as usize > self.m_buffer.len() - self.m_bufferEnd => {
+                self.m_errorCode = XML_Error::INVALID_ARGUMENT;
+                return XML_Status::ERROR;
+            }
             XML_Parsing::INITIALIZED => {
                 if !self.is_child_parser && !self.startParsing() {
                     self.m_errorCode = XML_Error::NO_MEMORY;
-- 
2.43.0

