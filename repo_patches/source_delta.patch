From 0f5330b76b6fab2e6ab160dd8618a98f959c7688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:18:21 +0000
Subject: [PATCH 01/37] fix: report the version and encoding of an XML or text
 declaration as the declared strings

The version buffer ran on to the end of the declaration, and both strings were
built in the same unfinished pool string, so the handler got a version of
"1.0'" or two wrong pointers when an encoding was present.
---
 src/lib/xmlparse.rs | 4 ++--
 src/lib/xmltok.rs   | 5 ++++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 4aaba1b..7efa71e 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -5265,7 +5265,7 @@ impl XML_ParserStruct {
                     return XML_Error::NO_MEMORY;
                 }
 
-                storedEncName = self.m_temp2Pool.current_start();
+                storedEncName = self.m_temp2Pool.finish_string().as_ptr();
             }
             if let Some(version_buf) = version_buf {
                 let successful = self.m_temp2Pool.store_c_string(
@@ -5276,7 +5276,7 @@ impl XML_ParserStruct {
                     return XML_Error::NO_MEMORY;
                 }
 
-                storedversion = self.m_temp2Pool.current_start();
+                storedversion = self.m_temp2Pool.finish_string().as_ptr();
             }
             self.m_handlers.xmlDecl(
                 storedversion,
diff --git a/src/lib/xmltok.rs b/src/lib/xmltok.rs
index aaf97f9..6c6ab34 100644
--- a/src/lib/xmltok.rs
+++ b/src/lib/xmltok.rs
@@ -3013,7 +3013,10 @@ fn doParseXmlDecl<'a>(
             return 0;
         }
     } else {
-        *versionBuf = val_buf;
+        *versionBuf = val_buf.map(|val| {
+            val.with_end(pseudo_ptr)
+                .dec_end((*enc).minBytesPerChar() as usize)
+        });
         #[cfg(feature = "mozilla")]
         {
             if !(*enc).nameMatchesAscii(val_buf
-- 
2.43.0


From d9f4e00984f60f5bf0816989e367f30ab47a0fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:18:21 +0000
Subject: [PATCH 02/37] fix: call the not-standalone handler once, and only for
 external parameter entities

doPrologHandleEntityRef already calls it when an external parameter entity has
been read; its callers called it again, and for internal entities too.
---
 src/lib/xmlparse.rs | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 7efa71e..9da8e56 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -6569,10 +6569,6 @@ impl XML_ParserStruct {
                             if let Some(r) = self.doPrologHandleEntityRef(entity, role, &mut handleDefault) {
                                 return r;
                             }
-                            /* XML_DTD */
-                            if !self.m_dtd.standalone.get() && self.m_handlers.notStandalone() == Ok(0) {
-                                return XML_Error::NOT_STANDALONE;
-                            }
                         } else if entity.is_null() {
                             self.m_dtd.keepProcessing.set(self.m_dtd.standalone.get());
                             /* cannot report skipped entities in declarations */
@@ -6590,10 +6586,6 @@ impl XML_ParserStruct {
                             if let Some(r) = self.doPrologHandleEntityRef(entity, role, &mut handleDefault) {
                                 return r;
                             }
-                            /* XML_DTD */
-                            if !self.m_dtd.standalone.get() && self.m_handlers.notStandalone() == Ok(0) {
-                                return XML_Error::NOT_STANDALONE;
-                            }
                         }
                     }
                 }
-- 
2.43.0


From 69c6085550c61f7f47bc5fb2f904759b60a0ac5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:19:40 +0000
Subject: [PATCH 03/37] fix: XML_GetCurrentByteIndex with the current event at
 the end of the buffer

An event position one past the last buffered byte ("no element found" on an
empty input, or on one that fills the buffer exactly) made it panic.
---
 src/lib/xmlparse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 9da8e56..0fce4d6 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -850,7 +850,7 @@ impl XML_ParserStruct {
     // TODO(SJC): add a better err type
     fn buffer_index(&self, p: *const c_char) -> Result<usize, ()> {
         if p < self.m_buffer.as_ptr()
-            || p >= self.m_buffer.as_ptr().wrapping_add(self.m_buffer.len())
+            || p > self.m_buffer.as_ptr().wrapping_add(self.m_buffer.len())
         {
             Err(())
         } else {
-- 
2.43.0


From f221b899d9e60061e66d9e28b8c668748bed6988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:19:40 +0000
Subject: [PATCH 04/37] fix: XML_GetCurrentLineNumber/ColumnNumber before
 parsing and after XML_GetBuffer

Both unwrapped the position index, which is unset on a new parser and after
XML_GetBuffer has moved or grown the buffer.
---
 src/lib/xmlparse.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 0fce4d6..94ebc07 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -3101,7 +3101,11 @@ pub unsafe extern "C" fn XML_GetCurrentLineNumber(mut parser: XML_Parser) -> XML
     if parser.is_null() {
         return 0;
     }
-    let positionPtr = (*parser).m_buffer.as_ptr().wrapping_add((*parser).m_positionIdx.unwrap());
+    // REXPAT: there is no position before parsing starts and after XML_GetBuffer moved the buffer
+    let positionPtr = match (*parser).m_positionIdx {
+        Some(idx) => (*parser).m_buffer.as_ptr().wrapping_add(idx),
+        None => ptr::null(),
+    };
     if !(*parser).m_eventPtr.is_null() && (*parser).m_eventPtr >= positionPtr {
         (*(*parser).m_encoding).updatePosition(
             ExpatBufRef::new(
@@ -3121,7 +3125,11 @@ pub unsafe extern "C" fn XML_GetCurrentColumnNumber(mut parser: XML_Parser) -> X
     if parser.is_null() {
         return 0;
     }
-    let positionPtr = (*parser).m_buffer.as_ptr().wrapping_add((*parser).m_positionIdx.unwrap());
+    // REXPAT: there is no position before parsing starts and after XML_GetBuffer moved the buffer
+    let positionPtr = match (*parser).m_positionIdx {
+        Some(idx) => (*parser).m_buffer.as_ptr().wrapping_add(idx),
+        None => ptr::null(),
+    };
     if !(*parser).m_eventPtr.is_null() && (*parser).m_eventPtr >= positionPtr {
         (*(*parser).m_encoding).updatePosition(
             ExpatBufRef::new(
-- 
2.43.0


From c6072dc35bf6381a99948596a7e8e9aa5f22077a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:19:41 +0000
Subject: [PATCH 05/37] fix: XML_ResumeParser records how far parsing got

The end pointer of the resumed run went to a temporary, so a second suspension
or a further XML_Parse handled the same input again; with nothing left in the
buffer it panicked.
---
 src/lib/xmlparse.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 94ebc07..1011f96 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -2942,11 +2942,15 @@ impl XML_ParserStruct {
             return XML_Status::ERROR;
         }
         self.m_parsingStatus.parsing = XML_Parsing::PARSING;
+        // convert in-out parameter `start` from index to pointer
+        let mut start = self.m_buffer.as_ptr().add(self.m_bufferStart);
         self.m_errorCode = self.m_processor.expect("non-null function pointer")(
             self,
             self.m_buffer[self.m_bufferStart..self.m_parseEndIdx].into(),
-            &mut (&self.m_buffer[self.m_bufferStart] as *const _),
+            &mut start,
         );
+        // convert in-out parameter `start` from pointer back to index
+        self.m_bufferStart = start.wrapping_offset_from(self.m_buffer.as_ptr()) as usize;
         if self.m_errorCode != XML_Error::NONE {
             self.m_eventEndPtr = self.m_eventPtr;
             self.m_processor = Some(errorProcessor as Processor);
@@ -2971,8 +2975,8 @@ impl XML_ParserStruct {
 
         #[cfg(feature = "mozilla")]
         {
-            self.m_eventPtr = &self.m_buffer[self.m_bufferStart];
-            self.m_eventEndPtr = &self.m_buffer[self.m_bufferStart];
+            self.m_eventPtr = self.m_buffer.as_ptr().add(self.m_bufferStart);
+            self.m_eventEndPtr = self.m_eventPtr;
         }
 
         result
-- 
2.43.0


From 66401bdaf1f7f49887aa8064926cb7dbdf057a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:21:27 +0000
Subject: [PATCH 06/37] fix: let the skipped-entity handler call XML_SetBase

The handler ran while the string pool that XML_SetBase adds to was borrowed for
the entity's name, so the call panicked.
---
 src/lib/xmlparse.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 1011f96..6298fdd 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -3723,11 +3723,14 @@ impl XML_ParserStruct {
                                 }
                             }
                         } else if entity.is_null() {
-                            let skippedHandlerRan = self.m_dtd.pool.current_slice(|name| {
-                                self.m_handlers.skippedEntity(name.as_ptr(), 0)
-                            });
-
-                            self.m_dtd.pool.clear_current();
+                            let skippedHandlerRan = if self.m_handlers.hasSkippedEntity() {
+                                // REXPAT: the handler may add to the pool (XML_SetBase)
+                                let name = self.m_dtd.pool.finish_string().as_ptr();
+                                self.m_handlers.skippedEntity(name, 0)
+                            } else {
+                                self.m_dtd.pool.clear_current();
+                                false
+                            };
 
                             if !skippedHandlerRan && self.m_handlers.hasDefault() {
                                 if !cfg!(feature = "mozilla") {
@@ -6587,12 +6590,13 @@ impl XML_ParserStruct {
                             if role == super::xmlrole::XML_ROLE::PARAM_ENTITY_REF
                                 && self.m_handlers.hasSkippedEntity()
                             {
-                                self.m_dtd.pool.current_slice(|name| {
-                                    self.m_handlers.skippedEntity(name.as_ptr(), 1);
-                                });
+                                // REXPAT: the handler may add to the pool (XML_SetBase)
+                                let name = self.m_dtd.pool.finish_string().as_ptr();
+                                self.m_handlers.skippedEntity(name, 1);
                                 handleDefault = false;
+                            } else {
+                                self.m_dtd.pool.clear_current();
                             }
-                            self.m_dtd.pool.clear_current();
                         } else {
                             self.m_dtd.pool.clear_current();
                             if let Some(r) = self.doPrologHandleEntityRef(entity, role, &mut handleDefault) {
-- 
2.43.0


From 550692a10450716bcd0dc57f5dcf5ef5de35bbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:21:55 +0000
Subject: [PATCH 07/37] fix: XML_ParserReset keeps the unknown-encoding handler

All handlers are cleared on reset except this one (see the comment on
XML_ParserReset); resetting the whole handler table dropped it too.
---
 src/lib/xmlparse.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 6298fdd..95ac166 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -1762,7 +1762,12 @@ impl XML_ParserStruct {
         self.m_initEncoding = InitEncoding::new(&mut self.m_encoding, ptr::null());
         self.m_encoding = &*self.m_initEncoding.as_ref().unwrap();
         self.m_userData = ptr::null_mut();
+        // XML_ParserReset keeps the unknown-encoding handler
+        let unknownEncodingHandler = self.m_handlers.m_unknownEncodingHandler;
+        let unknownEncodingHandlerData = self.m_handlers.m_unknownEncodingHandlerData;
         self.m_handlers = Default::default();
+        self.m_handlers.m_unknownEncodingHandler = unknownEncodingHandler;
+        self.m_handlers.m_unknownEncodingHandlerData = unknownEncodingHandlerData;
         self.m_handlers.m_externalEntityRefHandlerArg = self as XML_Parser;
         self.m_bufferStart = 0;
         self.m_bufferEnd = 0;
-- 
2.43.0


From a0e91ea45f61ae795925394f8e5230c424d83df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:22:17 +0000
Subject: [PATCH 08/37] fix: external entity parsers inherit the
 unknown-encoding handler's data

The handler itself was inherited, but was then called with a null pointer.
---
 src/lib/xmlparse.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 95ac166..f0a2bbb 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -1995,6 +1995,7 @@ pub unsafe extern "C" fn XML_ExternalEntityParserCreate(
     (*parser).m_handlers.setExternalEntityRef(oldParser.m_handlers.m_externalEntityRefHandler);
     (*parser).m_handlers.setSkippedEntity(oldParser.m_handlers.m_skippedEntityHandler);
     (*parser).m_handlers.setUnknownEncoding(oldParser.m_handlers.m_unknownEncodingHandler);
+    (*parser).m_handlers.m_unknownEncodingHandlerData = oldParser.m_handlers.m_unknownEncodingHandlerData;
     (*parser).m_handlers.setElementDecl(oldParser.m_handlers.m_elementDeclHandler);
     (*parser).m_handlers.setAttlistDecl(oldParser.m_handlers.m_attlistDeclHandler);
     (*parser).m_handlers.setEntityDecl(oldParser.m_handlers.m_entityDeclHandler);
-- 
2.43.0


From 00a7078b082e52ec0e6266e5a44ba1682714c50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:59 +0000
Subject: [PATCH 09/37] fix: resuming a parser that was suspended inside
 internal entities

---
 src/lib/xmlparse.rs | 186 ++++++++++++++++++++++++--------------------
 1 file changed, 100 insertions(+), 86 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index f0a2bbb..dbbf8c3 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -1413,6 +1413,8 @@ pub struct OpenInternalEntity {
     pub entity: *mut Entity,
     pub startTagLevel: c_int,
     pub betweenDecl: XML_Bool,
+    /// Parsing was suspended inside a CDATA section of the entity
+    pub inCdataSection: XML_Bool,
 }
 
 pub type Processor = unsafe extern "C" fn(
@@ -4118,7 +4120,11 @@ impl XML_ParserStruct {
                     if result_2 != XML_Error::NONE {
                         return result_2;
                     } else if next.is_null() {
-                        self.m_processor = Some(cdataSectionProcessor as Processor);
+                        if enc_type.is_internal() {
+                            (*self.m_openInternalEntities).inCdataSection = true;
+                        } else {
+                            self.m_processor = Some(cdataSectionProcessor as Processor);
+                        }
                         return result_2;
                     }
                 }
@@ -6990,6 +6996,7 @@ impl XML_ParserStruct {
         (*openEntity).entity = entity;
         (*openEntity).startTagLevel = self.m_tagLevel;
         (*openEntity).betweenDecl = betweenDecl;
+        (*openEntity).inCdataSection = false;
         (*openEntity).internalEventPtr = ptr::null();
         (*openEntity).internalEventEndPtr = ptr::null();
         let text_buf = ExpatBufRef::new(
@@ -7021,35 +7028,81 @@ impl XML_ParserStruct {
             )
         }
         if result == XML_Error::NONE {
-            if text_buf.end() != next && self.m_parsingStatus.parsing == XML_Parsing::SUSPENDED {
-                (*entity).processed = next.wrapping_offset_from(text_buf.as_ptr()) as i32;
-                self.m_processor = Some(internalEntityProcessor as Processor)
+            if self.m_parsingStatus.parsing == XML_Parsing::SUSPENDED {
+                self.suspendInternalEntity(openEntity, next);
             } else {
                 (*entity).open = false;
-                if cfg!(feature = "mozilla") {
-                    if self.m_openInternalEntities == openEntity {
-                        self.m_openInternalEntities = (*openEntity).next;
-                    } else {
-			/* openEntity should be closed, but it contains an inner entity that is
-			still open. Remove openEntity from the openInternalEntities linked
-			list by looking for the inner entity in the list that links to
-			openEntity and fixing up its 'next' member
-			 */
-                        let mut innerOpenEntity = self.m_openInternalEntities;
-                        loop {
-                            if (*innerOpenEntity).next == openEntity {
-                                (*innerOpenEntity).next = (*openEntity).next;
-                                break;
-                            }
-                            innerOpenEntity = (*innerOpenEntity).next;
-                            if innerOpenEntity.is_null() {
-                                break;
-                            }
-                        }
-                    }
-                } else {
-                    self.m_openInternalEntities = (*openEntity).next;
-                }
+                self.m_openInternalEntities = (*openEntity).next;
+                /* put openEntity back in list of free instances */
+                (*openEntity).next = self.m_freeInternalEntities;
+                self.m_freeInternalEntities = openEntity
+            }
+        }
+        result
+    }
+
+    /// Parsing was suspended while the entity was being processed: it stays open (even at its end, where
+    /// its completeness is still to be checked), and XML_ResumeParser continues with the innermost open
+    /// entity.
+    unsafe fn suspendInternalEntity(
+        &mut self,
+        openEntity: *mut OpenInternalEntity,
+        next: *const c_char,
+    ) {
+        let entity = (*openEntity).entity;
+        (*entity).processed = next.wrapping_offset_from((*entity).textPtr as *mut c_char) as c_int;
+        self.m_processor = Some(internalEntityProcessor as Processor);
+    }
+
+    /// Continues the innermost open entity after a suspension.
+    unsafe fn resumeInternalEntity(&mut self, openEntity: *mut OpenInternalEntity) -> XML_Error {
+        let entity = (*openEntity).entity;
+        let mut text_buf = ExpatBufRef::new(
+            ((*entity).textPtr as *mut c_char).offset((*entity).processed as isize),
+            (*entity).textPtr.offset((*entity).textLen as isize) as *mut c_char,
+        );
+        /* Set a safe default value in case 'next' does not get set */
+        let mut next: *const c_char = text_buf.as_ptr();
+        let mut result = XML_Error::NONE;
+        if (*openEntity).inCdataSection {
+            let mut opt_buf = Some(text_buf);
+            result =
+                doCdataSection(self, EncodingType::Internal, &mut opt_buf, &mut next, false);
+            if let Some(buf) = opt_buf {
+                text_buf = buf;
+                (*openEntity).inCdataSection = false;
+            }
+        }
+        if result == XML_Error::NONE && !(*openEntity).inCdataSection {
+            if (*entity).is_param {
+                let tok =
+                    (*self.m_internalEncoding).xmlTok(XML_STATE::PROLOG, text_buf, &mut next);
+                result = self.doProlog(
+                    EncodingType::Internal,
+                    text_buf,
+                    tok,
+                    next,
+                    &mut next,
+                    false,
+                    false,
+                )
+            } else {
+                /* XML_DTD */
+                result = self.doContent(
+                    (*openEntity).startTagLevel,
+                    EncodingType::Internal,
+                    text_buf,
+                    &mut next,
+                    false,
+                )
+            }
+        }
+        if result == XML_Error::NONE {
+            if self.m_parsingStatus.parsing == XML_Parsing::SUSPENDED {
+                self.suspendInternalEntity(openEntity, next);
+            } else {
+                (*entity).open = false;
+                self.m_openInternalEntities = (*openEntity).next;
                 /* put openEntity back in list of free instances */
                 (*openEntity).next = self.m_freeInternalEntities;
                 self.m_freeInternalEntities = openEntity
@@ -7066,53 +7119,19 @@ unsafe extern "C" fn internalEntityProcessor(
 ) -> XML_Error {
     let mut entity: *mut Entity = ptr::null_mut();
     let mut next: *const c_char = ptr::null();
-    let mut result: XML_Error = XML_Error::NONE;
-    let mut openEntity: *mut OpenInternalEntity = (*parser).m_openInternalEntities;
-    if openEntity.is_null() {
+    if (*parser).m_openInternalEntities.is_null() {
         return XML_Error::UNEXPECTED_STATE;
     }
-    entity = (*openEntity).entity;
-    let text_buf = ExpatBufRef::new(
-        ((*entity).textPtr as *mut c_char).offset((*entity).processed as isize),
-        (*entity).textPtr.offset((*entity).textLen as isize) as *mut c_char,
-    );
-    /* Set a safe default value in case 'next' does not get set */
-    next = text_buf.as_ptr();
-    if (*entity).is_param {
-        let mut tok =
-            (*(*parser).m_internalEncoding).xmlTok(XML_STATE::PROLOG, text_buf, &mut next);
-        result = (*parser).doProlog(
-            EncodingType::Internal,
-            text_buf,
-            tok,
-            next,
-            &mut next,
-            false,
-            true,
-        )
-    } else {
-        /* XML_DTD */
-        result = (*parser).doContent(
-            (*openEntity).startTagLevel,
-            EncodingType::Internal,
-            text_buf,
-            &mut next,
-            false,
-        )
-    }
-    if result != XML_Error::NONE {
-        return result;
-    } else {
-        if text_buf.end() != next && (*parser).m_parsingStatus.parsing == XML_Parsing::SUSPENDED {
-            (*entity).processed =
-                next.wrapping_offset_from((*entity).textPtr as *mut c_char) as c_int;
+    /* the entities that were open at the suspension, innermost first */
+    while !(*parser).m_openInternalEntities.is_null() {
+        let openEntity = (*parser).m_openInternalEntities;
+        entity = (*openEntity).entity;
+        let result = (*parser).resumeInternalEntity(openEntity);
+        if result != XML_Error::NONE
+            || (*parser).m_parsingStatus.parsing == XML_Parsing::SUSPENDED
+        {
+            *nextPtr = buf.as_ptr();
             return result;
-        } else {
-            (*entity).open = false;
-            (*parser).m_openInternalEntities = (*openEntity).next;
-            /* put openEntity back in list of free instances */
-            (*openEntity).next = (*parser).m_freeInternalEntities;
-            (*parser).m_freeInternalEntities = openEntity
         }
     }
     if (*entity).is_param {
@@ -7129,20 +7148,15 @@ unsafe extern "C" fn internalEntityProcessor(
         )
     } else {
         /* XML_DTD */
-        (*parser).m_processor = Some(contentProcessor as Processor);
-        /* see externalEntityContentProcessor vs contentProcessor */
-        (*parser).doContent(
-            if (*parser).is_child_parser {
-                1i32
-            } else {
-                0i32
-            },
-            EncodingType::Normal,
-            buf,
-            nextPtr,
-            !(*parser).m_parsingStatus.finalBuffer,
-        )
-    } /* save one level of indirection */
+        if (*parser).is_child_parser {
+            /* we are parsing an external entity */
+            (*parser).m_processor = Some(externalEntityContentProcessor as Processor);
+            externalEntityContentProcessor(parser, buf, nextPtr)
+        } else {
+            (*parser).m_processor = Some(contentProcessor as Processor);
+            contentProcessor(parser, buf, nextPtr)
+        }
+    }
 }
 
 unsafe extern "C" fn errorProcessor(
-- 
2.43.0


From 243e4c7c256592daf658a8546365e1a3a57c6acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:22 +0000
Subject: [PATCH 10/37] fix: reject malformed UTF-8 in names

---
 src/lib/xmltok.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib/xmltok.rs b/src/lib/xmltok.rs
index 6c6ab34..99ad37b 100644
--- a/src/lib/xmltok.rs
+++ b/src/lib/xmltok.rs
@@ -411,6 +411,10 @@ impl<T: NormalEncodingTable> XmlEncodingImpl for Utf8EncodingImpl<T> {
 
     #[inline]
     fn is_name_char(&self, p: *const c_char, n: isize) -> bool {
+        /* the tables below look at the payload bits only */
+        if self.is_invalid_char(p, n) {
+            return false;
+        }
         unsafe {
             match n {
                 2 => {
@@ -443,6 +447,9 @@ impl<T: NormalEncodingTable> XmlEncodingImpl for Utf8EncodingImpl<T> {
     }
     #[inline]
     fn is_nmstrt_char(&self, p: *const c_char, n: isize) -> bool {
+        if self.is_invalid_char(p, n) {
+            return false;
+        }
         unsafe {
             match n {
                 2 => {
-- 
2.43.0


From 05108f3991f25c4d797451ac87655d3f754d0d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:22 +0000
Subject: [PATCH 11/37] fix: XML_ParseBuffer refuses lengths that are negative
 or exceed the buffer

---
 src/lib/xmlparse.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index dbbf8c3..71680c6 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -2693,6 +2693,10 @@ impl XML_ParserStruct {
     pub unsafe fn parseBuffer(&mut self, len: c_int, isFinal: c_int) -> XML_Status {
         let mut start: *const c_char = ptr::null();
         let mut result: XML_Status = XML_Status::OK;
+        if len < 0 {
+            self.m_errorCode = XML_Error::INVALID_ARGUMENT;
+            return XML_Status::ERROR;
+        }
         match self.m_parsingStatus.parsing {
             XML_Parsing::SUSPENDED => {
                 self.m_errorCode = XML_Error::SUSPENDED;
@@ -2702,6 +2706,11 @@ impl XML_ParserStruct {
                 self.m_errorCode = XML_Error::FINISHED;
                 return XML_Status::ERROR as XML_Status;
             }
+            _ if len as usize > self.m_buffer.len() - self.m_bufferEnd => {
+                /* more than XML_GetBuffer made room for */
+                self.m_errorCode = XML_Error::INVALID_ARGUMENT;
+                return XML_Status::ERROR;
+            }
             XML_Parsing::INITIALIZED => {
                 if !self.is_child_parser && !self.startParsing() {
                     self.m_errorCode = XML_Error::NO_MEMORY;
-- 
2.43.0


From 399b85336de5171c9eae11f950da1518e964a9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:22 +0000
Subject: [PATCH 12/37] fix: free long lists of tags iteratively

---
 src/lib/xmlparse.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 71680c6..08c93c3 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -1545,6 +1545,11 @@ impl Drop for Tag {
             FREE!(self.buf);
             destroyBindings(self.bindings);
         }
+        /* the list of parents can be too long to be dropped recursively */
+        let mut parent = self.parent.take();
+        while let Some(mut tag) = parent {
+            parent = tag.parent.take();
+        }
     }
 }
 
-- 
2.43.0


From 81ff78c48c43aa66a66829aa9cd11a738514d899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:50 +0000
Subject: [PATCH 13/37] fix: XML_ParserReset while a parameter entity parser is
 alive

---
 src/lib/xmlparse.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 08c93c3..69b8a81 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -1871,8 +1871,18 @@ impl XML_ParserStruct {
         FREE!(self.m_protocolEncodingName);
         self.m_protocolEncodingName = ptr::null();
         self.init(encodingName);
-        Rc::get_mut(&mut self.m_dtd).unwrap().reset();
-        true
+        if let Some(dtd) = Rc::get_mut(&mut self.m_dtd) {
+            dtd.reset();
+            return true;
+        }
+        /* a parameter entity parser that was not freed yet keeps the old DTD */
+        match DTD::try_new().and_then(Rc::try_new) {
+            Ok(dtd) => {
+                self.m_dtd = dtd;
+                true
+            }
+            Err(_) => false,
+        }
     }
 }
 
-- 
2.43.0


From c6a75e268081136602716f21134a81842efdd10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:50 +0000
Subject: [PATCH 14/37] fix: build deeply nested content models without
 recursion

---
 src/lib/xmlparse.rs | 87 +++++++++++++++++++--------------------------
 1 file changed, 36 insertions(+), 51 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 69b8a81..2e3635d 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -8283,50 +8283,6 @@ unsafe extern "C" fn keylen(mut s: KEY) -> size_t {
 
 
 impl XML_ParserStruct {
-    fn build_node<'a, 'b>(
-        &self,
-        src_node: usize,
-        dest: &mut XML_Content,
-        mut contpos: &'a mut [XML_Content],
-        mut strpos: &'b mut [XML_Char],
-    ) -> (&'a mut [XML_Content], &'b mut [XML_Char]) {
-        let scf = RefCell::borrow(&self.m_dtd.scaffold);
-        dest.type_0 = scf.scaffold[src_node].type_0;
-        dest.quant = scf.scaffold[src_node].quant;
-        if dest.type_0 == XML_Content_Type::NAME {
-            dest.name = (*strpos).as_ptr() as *mut XML_Char;
-            dest.numchildren = 0;
-            dest.children = ptr::null_mut();
-
-            let mut src = scf.scaffold[src_node].name;
-            loop {
-                let (first, rest) = strpos.split_first_mut().unwrap();
-                *first = unsafe { *src };
-                if *first == 0 {
-                    return (contpos, rest);
-                }
-                unsafe { src = src.offset(1) };
-                strpos = rest;
-            }
-        } else {
-            let (children, rest) = contpos.split_at_mut(scf.scaffold[src_node].childcnt);
-            contpos = rest;
-
-            dest.name = ptr::null_mut();
-            dest.numchildren = children.len().try_into().unwrap();
-            dest.children = children.as_ptr() as *mut XML_Content;
-
-            let mut cn = scf.scaffold[src_node].firstchild;
-            for child in children {
-                let (ncp, nsp) = self.build_node(cn, child, contpos, strpos);
-                cn = scf.scaffold[cn].nextsib;
-                contpos = ncp;
-                strpos = nsp;
-            }
-        }
-        (contpos, strpos)
-    }
-
     unsafe fn build_model(&mut self) -> *mut XML_Content {
         let mut ret: *mut XML_Content = ptr::null_mut();
         let scaffold_len = self.m_dtd.scaffold.borrow().scaffold.len();
@@ -8340,13 +8296,42 @@ impl XML_ParserStruct {
         if ret.is_null() {
             return ptr::null_mut();
         }
-        let str = std::slice::from_raw_parts_mut(
-            ret.add(scaffold_len) as *mut XML_Char,
-            self.m_dtd.contentStringLen.get() as usize);
-        let cpos = std::slice::from_raw_parts_mut(
-            ret.offset(1) as *mut XML_Content,
-            scaffold_len as usize - 1);
-        self.build_node(0, &mut *ret, cpos, str);
+        let mut strpos = ret.add(scaffold_len) as *mut XML_Char;
+        let scf = RefCell::borrow(&self.m_dtd.scaffold);
+        /* Nodes are filled in breadth first, as models can be nested deeply.  Until a node is filled in, its
+           numchildren holds the index of its source. */
+        (*ret).numchildren = 0;
+        let mut contpos = ret.add(1);
+        for i in 0..scaffold_len {
+            let dest = ret.add(i);
+            let src = &scf.scaffold[(*dest).numchildren as usize];
+            (*dest).type_0 = src.type_0;
+            (*dest).quant = src.quant;
+            if src.type_0 == XML_Content_Type::NAME {
+                (*dest).name = strpos;
+                (*dest).numchildren = 0;
+                (*dest).children = ptr::null_mut();
+                let mut name = src.name;
+                loop {
+                    *strpos = *name;
+                    strpos = strpos.add(1);
+                    if *name == 0 {
+                        break;
+                    }
+                    name = name.add(1);
+                }
+            } else {
+                (*dest).name = ptr::null_mut();
+                (*dest).numchildren = src.childcnt as c_uint;
+                (*dest).children = contpos;
+                let mut cn = src.firstchild;
+                for _ in 0..src.childcnt {
+                    (*contpos).numchildren = cn as c_uint;
+                    contpos = contpos.add(1);
+                    cn = scf.scaffold[cn].nextsib;
+                }
+            }
+        }
         ret
     }
 
-- 
2.43.0


From 45f7d7ed9c4e7d9d04773b8d91bc1fb6a641f2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:13 +0000
Subject: [PATCH 15/37] fix: refuse namespace URIs that contain the separator
 of expanded names

---
 src/lib/xmlparse.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 2e3635d..14359c4 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -4804,6 +4804,17 @@ impl XML_ParserStruct {
    Therefore one must keep track of the old value outside of addBinding().
 */
 
+/// The characters a URI (RFC 3986) consists of
+fn isUriChar(c: XML_Char) -> bool {
+    match c as u32 {
+        c if c < 0x80 => {
+            let c = c as u8;
+            c.is_ascii_alphanumeric() || b"%-._~:/?#[]@!$&'()*+,;=".contains(&c)
+        }
+        _ => false,
+    }
+}
+
 unsafe extern "C" fn addBinding(
     mut parser: XML_Parser,
     mut prefix: *mut Prefix,
@@ -4850,6 +4861,14 @@ unsafe extern "C" fn addBinding(
     }
     let mut len = 0;
     while *uri.add(len) != 0 {
+        /* The separator inside of a namespace URI makes expanded names ambiguous, and lets a document forge
+           them when the application relies on a separator that no URI contains */
+        if (*parser).m_ns
+            && *uri.add(len) == (*parser).m_namespaceSeparator
+            && !isUriChar(*uri.add(len))
+        {
+            return XML_Error::SYNTAX;
+        }
         if isXML && (len >= xmlNamespace.len()
                 || *uri.add(len) as c_int != xmlNamespace[len] as c_int)
         {
-- 
2.43.0


From 677fcea18a49e880d2394c3d12e21af02f2f7a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:55:02 +0000
Subject: [PATCH 16/37] fix: UTF-16BE characters U+0080 to U+00FF

---
 src/lib/xmltok.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/xmltok.rs b/src/lib/xmltok.rs
index 99ad37b..937cf78 100644
--- a/src/lib/xmltok.rs
+++ b/src/lib/xmltok.rs
@@ -1026,7 +1026,7 @@ impl<T: NormalEncodingTable> XmlEncodingImpl for Big2EncodingImpl<T> {
     fn byte_type(&self, p: *const c_char) -> ByteType {
         let bytes = unsafe { (*p, *p.offset(1)) };
         if bytes.0 == 0 {
-            T::types[bytes.1 as usize]
+            T::types[bytes.1 as u8 as usize]
         } else {
             unicode_byte_type(bytes.0, bytes.1)
         }
-- 
2.43.0


From 1d5ba5b0915b1aaa5b54f81c3853e8a1ca4f5eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:12:00 +0000
Subject: [PATCH 17/37] fix: a second text declaration after a suspension in
 the first one's handler

---
 src/lib/xmlparse.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 14359c4..79ad598 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -3576,6 +3576,8 @@ unsafe extern "C" fn externalEntityInitProcessor3(
             match (*parser).m_parsingStatus.parsing {
                 XML_Parsing::SUSPENDED => {
                     *endPtr = next;
+                    (*parser).m_processor = Some(externalEntityContentProcessor as Processor);
+                    (*parser).m_tagLevel = 1;
                     return XML_Error::NONE;
                 }
                 XML_Parsing::FINISHED => return XML_Error::ABORTED,
-- 
2.43.0


From 8f0d7084988406e5784b181f2f4807367d34207a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:12:00 +0000
Subject: [PATCH 18/37] fix: an abort in the character data handler of a
 trailing CR or ]

---
 src/lib/xmlparse.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 79ad598..483aa51 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -3665,9 +3665,10 @@ impl XML_ParserStruct {
                         reportDefault(self, enc_type, buf);
                     }
                     /* LCOV_EXCL_STOP */
-                    /* We are at the end of the final buffer, should we check for
-                       XML_Parsing::SUSPENDED, XML_Parsing::FINISHED?
-                    */
+                    /* We are at the end of the final buffer */
+                    if self.m_parsingStatus.parsing == XML_Parsing::FINISHED {
+                        return XML_Error::ABORTED;
+                    }
                     if startTagLevel == 0 {
                         return XML_Error::NO_ELEMENTS;
                     }
@@ -4176,9 +4177,10 @@ impl XML_ParserStruct {
                     } else if self.m_handlers.hasDefault() {
                         reportDefault(self, enc_type, buf);
                     }
-                    /* We are at the end of the final buffer, should we check for
-                       XML_Parsing::SUSPENDED, XML_Parsing::FINISHED?
-                    */
+                    /* We are at the end of the final buffer */
+                    if self.m_parsingStatus.parsing == XML_Parsing::FINISHED {
+                        return XML_Error::ABORTED;
+                    }
                     if startTagLevel == 0 {
                         *eventPP = buf.end();
                         return XML_Error::NO_ELEMENTS;
-- 
2.43.0


From 25ff1b8060e2f36431b47305346f9a1774adae3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:12:00 +0000
Subject: [PATCH 19/37] fix: stopping the parser in a handler at the edge of a
 CDATA section takes effect at once

---
 src/lib/xmlparse.rs | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 483aa51..2d15f48 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -4141,9 +4141,18 @@ impl XML_ParserStruct {
                     } else if self.m_handlers.hasDefault() {
                         reportDefault(self, enc_type, buf.with_end(next));
                     }
-                    let mut new_buf = Some(buf.with_start(next));
-                    result_2 = doCdataSection(self, enc_type, &mut new_buf, nextPtr, haveMore);
-                    next = new_buf.map_or(ptr::null(), |x| x.as_ptr());
+                    if self.m_parsingStatus.parsing == XML_Parsing::FINISHED {
+                        return XML_Error::ABORTED;
+                    }
+                    if self.m_parsingStatus.parsing == XML_Parsing::SUSPENDED {
+                        *eventPP = next;
+                        *nextPtr = next;
+                        next = ptr::null();
+                    } else {
+                        let mut new_buf = Some(buf.with_start(next));
+                        result_2 = doCdataSection(self, enc_type, &mut new_buf, nextPtr, haveMore);
+                        next = new_buf.map_or(ptr::null(), |x| x.as_ptr());
+                    }
                     if result_2 != XML_Error::NONE {
                         return result_2;
                     } else if next.is_null() {
@@ -4980,14 +4989,17 @@ unsafe extern "C" fn cdataSectionProcessor(
         return result;
     }
     if let Some(buf) = opt_buf {
-        if (*parser).is_child_parser {
+        let processor = if (*parser).is_child_parser {
             /* we are parsing an external entity */
-            (*parser).m_processor = Some(externalEntityContentProcessor as Processor);
-            return externalEntityContentProcessor(parser, buf, endPtr);
+            externalEntityContentProcessor as Processor
         } else {
-            (*parser).m_processor = Some(contentProcessor as Processor);
-            return contentProcessor(parser, buf, endPtr);
+            contentProcessor as Processor
+        };
+        (*parser).m_processor = Some(processor);
+        if (*parser).m_parsingStatus.parsing == XML_Parsing::SUSPENDED {
+            return XML_Error::NONE;
         }
+        return processor(parser, buf, endPtr);
     }
     result
 }
@@ -7120,7 +7132,10 @@ impl XML_ParserStruct {
                 (*openEntity).inCdataSection = false;
             }
         }
-        if result == XML_Error::NONE && !(*openEntity).inCdataSection {
+        if result == XML_Error::NONE
+            && !(*openEntity).inCdataSection
+            && self.m_parsingStatus.parsing != XML_Parsing::SUSPENDED
+        {
             if (*entity).is_param {
                 let tok =
                     (*self.m_internalEncoding).xmlTok(XML_STATE::PROLOG, text_buf, &mut next);
-- 
2.43.0


From bf9fa84a7ae04136a4052cf05ba43a7d3086f355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:12:00 +0000
Subject: [PATCH 20/37] fix: stopping the parser while the foreign DTD is read
 takes effect before the content

---
 src/lib/xmlparse.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 2d15f48..0b4e7c0 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -6027,6 +6027,14 @@ impl XML_ParserStruct {
                     }
                     /* XML_DTD */
                     self.m_processor = Some(contentProcessor as Processor);
+                    match self.m_parsingStatus.parsing {
+                        XML_Parsing::SUSPENDED => {
+                            *nextPtr = buf.as_ptr();
+                            return XML_Error::NONE;
+                        }
+                        XML_Parsing::FINISHED => return XML_Error::ABORTED,
+                        _ => {}
+                    }
                     return contentProcessor(self, buf, nextPtr);
                 }
                 XML_ROLE::ATTLIST_ELEMENT_NAME => {
-- 
2.43.0


From f8824d33a947b45f3306e16cd7f9f1d8d0f67217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:12:00 +0000
Subject: [PATCH 21/37] fix: an abort in the default handler of an ignored
 section's start

---
 src/lib/xmlparse.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 0b4e7c0..a8197ce 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -6497,6 +6497,9 @@ impl XML_ParserStruct {
                         reportDefault(self, enc_type, buf.with_end(next));
                     }
                     handleDefault = false;
+                    if self.m_parsingStatus.parsing == XML_Parsing::FINISHED {
+                        return XML_Error::ABORTED;
+                    }
                     let mut ignore_buf = Some(buf.with_start(next));
                     result_3 = doIgnoreSection(self, enc_type, &mut ignore_buf, nextPtr, haveMore);
                     if result_3 != XML_Error::NONE {
-- 
2.43.0


From 5f854cf639c2aa4eeb4e2c7808d256e644e5e76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:50 +0000
Subject: [PATCH 22/37] fix: an allocation failure while a namespace
 declaration's prefix is stored

getAttributeId left the prefix of an xmlns:p attribute null when the hash
table insertion failed, which declared the default namespace instead.
---
 src/lib/xmlparse.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index a8197ce..1c0535a 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -7968,6 +7968,9 @@ impl XML_ParserStruct {
                             &name[6] as *const _,
                             Prefix
                         ).0;
+                        if (*id).prefix.is_null() {
+                            return ptr::null_mut();
+                        }
                     }
                     (*id).xmlns = true
                 } else {
-- 
2.43.0


From 7544dada9611ceee4af8b6c0c65767ee9157e5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:18:31 +0000
Subject: [PATCH 23/37] fix: do not report an entity whose value could not be
 stored

When storing an entity's value ran out of memory, the entity declaration
handler was still called, with the part of the value stored so far.
---
 src/lib/xmlparse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 1c0535a..259de8b 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -6210,7 +6210,7 @@ impl XML_ParserStruct {
                         if !self.m_declEntity.is_null() {
                             (*self.m_declEntity).textLen = self.m_dtd.entityValuePool.len() as c_int;
                             (*self.m_declEntity).textPtr = self.m_dtd.entityValuePool.finish_string().as_ptr();
-                            if self.m_handlers.hasEntityDecl() {
+                            if result_2 != XML_Error::NO_MEMORY && self.m_handlers.hasEntityDecl() {
                                 *eventEndPP = buf.as_ptr();
                                 self.m_handlers.entityDecl(
                                     (*self.m_declEntity).name,
-- 
2.43.0


From 30df45df82ad0d02fe4eb9a1cb8a4d70388369df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:37:25 +0000
Subject: [PATCH 24/37] fix: detect duplicate attributes when names come as
 triplets

---
 src/lib/xmlparse.rs | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 259de8b..3575bb0 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -4590,26 +4590,22 @@ impl XML_ParserStruct {
                     if ret != XML_Error::NONE {
                         return ret;
                     }
+                    /* the duplicate check is about the name without the prefix */
+                    let mut name = self.m_tempPool.finish_string().as_ptr();
+                    self.m_nsAtts.insert(HashKey::from(name as KEY));
                     if self.m_ns_triplets {
-                        /* append namespace separator and prefix */
-                        self.m_tempPool.replace_last_char(self.m_namespaceSeparator);
-                        s = (*(*b).prefix).name;
-                        loop {
-                            if !self.m_tempPool.append_char(*s) {
-                                return XML_Error::NO_MEMORY;
-                            }
-                            let fresh26 = s;
-                            s = s.offset(1);
-                            if !(*fresh26 != 0) {
-                                break;
-                            }
+                        /* append namespace separator and prefix to a copy */
+                        if !self.m_tempPool.append_c_string(name)
+                            || !self.m_tempPool.append_char(self.m_namespaceSeparator)
+                            || !self.m_tempPool.append_c_string((*(*b).prefix).name)
+                            || !self.m_tempPool.append_char('\u{0}' as XML_Char)
+                        {
+                            return XML_Error::NO_MEMORY;
                         }
+                        name = self.m_tempPool.finish_string().as_ptr();
                     }
-                    if ret != XML_Error::NONE { return ret; }
                     /* store expanded name in attribute list */
-                    self.m_atts[i].name = self.m_tempPool.finish_string().as_ptr();
-                    let hk = HashKey::from(self.m_atts[i].name as KEY);
-                    self.m_nsAtts.insert(hk);
+                    self.m_atts[i].name = name;
                     nPrefixes -= 1;
                     if nPrefixes == 0 && nXMLNSDeclarations == 0 {
                         i += 1;
-- 
2.43.0


From 1a3657a0c66f19ca99d5d3a9a07511c531a229b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:38:13 +0000
Subject: [PATCH 25/37] fix: position of an error after the encoding in an XML
 declaration

---
 src/lib/xmltok.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/xmltok.rs b/src/lib/xmltok.rs
index 937cf78..765c355 100644
--- a/src/lib/xmltok.rs
+++ b/src/lib/xmltok.rs
@@ -3069,7 +3069,7 @@ fn doParseXmlDecl<'a>(
         ) };
         let mut pseudo_ptr = buf.as_ptr();
         if parsePseudoAttribute(enc, buf, &mut name, &mut val_buf, &mut pseudo_ptr) == 0 {
-            *badPtr = buf.as_ptr();
+            *badPtr = pseudo_ptr;
             return 0;
         }
         buf = buf.with_start(pseudo_ptr);
-- 
2.43.0


From 0f5e658c61ad7954aaa39fbeda33ac7feee600b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:55:37 +0000
Subject: [PATCH 26/37] fix: build the DTD copy of an external entity parser
 where it stays

---
 src/lib/xmlparse.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 3575bb0..695c53f 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -1154,8 +1154,10 @@ impl DTD {
         self.standalone.set(false);
     }
 
-    fn try_clone(&self) -> Result<DTD, TryReserveError> {
-        let mut newDtd = DTD {
+    fn try_clone(&self) -> Result<Rc<DTD>, TryReserveError> {
+        /* The attribute ids point to the default prefix inside of the new DTD,
+           which therefore has to be where it stays before they are copied */
+        let mut newDtdRc = Rc::try_new(DTD {
             pool: StringPool::try_new().map_err(|_| TryReserveError::CapacityOverflow)?,
             entityValuePool: StringPool::try_new().map_err(|_| TryReserveError::CapacityOverflow)?,
             tables: Default::default(),
@@ -1168,7 +1170,8 @@ impl DTD {
             /* Don't want deep copying for scaffolding */
             scaffold: Rc::clone(&self.scaffold),
             contentStringLen: self.contentStringLen.clone(),
-        };
+        })?;
+        let newDtd = Rc::get_mut(&mut newDtdRc).unwrap();
 
         unsafe {
             let mut new_tables = newDtd.tables.borrow_mut();
@@ -1290,7 +1293,7 @@ impl DTD {
             }
         }
 
-        Ok(newDtd)
+        Ok(newDtdRc)
     }
 }
 
@@ -1970,7 +1973,7 @@ pub unsafe extern "C" fn XML_ExternalEntityParserCreate(
     let newDtd = if context.is_null() {
         Rc::clone(&oldParser.m_dtd)
     } else {
-        match oldParser.m_dtd.try_clone().and_then(Rc::try_new) {
+        match oldParser.m_dtd.try_clone() {
             Ok(newDtd) => newDtd,
             Err(_) => return ptr::null_mut()
         }
-- 
2.43.0


From 1efad9cedb054ec148ff5564d64eca61820a23ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:13:56 +0000
Subject: [PATCH 27/37] fix: a UTF-16 high surrogate that no low surrogate
 follows is not a character

---
 src/lib/xmltok.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/lib/xmltok.rs b/src/lib/xmltok.rs
index 765c355..e34b5b9 100644
--- a/src/lib/xmltok.rs
+++ b/src/lib/xmltok.rs
@@ -878,8 +878,9 @@ impl<T: NormalEncodingTable> XmlEncodingImpl for Little2EncodingImpl<T> {
     }
 
     #[inline]
-    fn is_invalid_char(&self, _p: *const c_char, _n: isize) -> bool {
-        false
+    fn is_invalid_char(&self, p: *const c_char, n: isize) -> bool {
+        /* a high surrogate has to be followed by a low one */
+        n == 4 && unsafe { *p.offset(3) as u8 & 0xfc != 0xdc }
     }
 
     #[inline]
@@ -1052,8 +1053,9 @@ impl<T: NormalEncodingTable> XmlEncodingImpl for Big2EncodingImpl<T> {
     }
 
     #[inline]
-    fn is_invalid_char(&self, _p: *const c_char, _n: isize) -> bool {
-        false
+    fn is_invalid_char(&self, p: *const c_char, n: isize) -> bool {
+        /* a high surrogate has to be followed by a low one */
+        n == 4 && unsafe { *p.offset(2) as u8 & 0xfc != 0xdc }
     }
 
     #[inline]
-- 
2.43.0


From 5dc946dc0b7ed031896d90475fe36a618c5d970e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:18:53 +0000
Subject: [PATCH 28/37] fix: keep the input context when the buffer grows after
 all of it has been parsed

---
 src/lib/xmlparse.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 695c53f..06199cf 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -2858,15 +2858,9 @@ impl  XML_ParserStruct {
                     return None;
                 }
                 self.m_buffer.resize(bufferSize, 0);
-                if self.m_bufferStart < self.m_bufferEnd {
-                    self.m_buffer.copy_within(self.m_bufferStart-keep..self.m_bufferEnd, 0);
-                    self.m_bufferEnd = self.m_bufferEnd - self.m_bufferStart + keep;
-                    self.m_bufferStart = keep;
-                } else {
-                    /* This must be a brand new buffer with no data in it yet */
-                    self.m_bufferStart = 0;
-                    self.m_bufferEnd = 0;
-                }
+                self.m_buffer.copy_within(self.m_bufferStart-keep..self.m_bufferEnd, 0);
+                self.m_bufferEnd = self.m_bufferEnd - self.m_bufferStart + keep;
+                self.m_bufferStart = keep;
             }
             self.m_eventEndPtr = ptr::null();
             self.m_eventPtr = ptr::null();
-- 
2.43.0


From 6a26137dba208416f69f14a3368e6ce742a6817e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:49:04 +0000
Subject: [PATCH 29/37] fix: a parser stopped outside a handler can be resumed

Stopping a parser that has not started left out what starting does, and a
buffer moved by XML_GetBuffer before the resumption made it panic.
---
 src/lib/xmlparse.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 06199cf..dffd523 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -2862,6 +2862,7 @@ impl  XML_ParserStruct {
                 self.m_bufferEnd = self.m_bufferEnd - self.m_bufferStart + keep;
                 self.m_bufferStart = keep;
             }
+            self.m_parseEndIdx = self.m_bufferEnd;
             self.m_eventEndPtr = ptr::null();
             self.m_eventPtr = ptr::null();
             self.m_positionIdx = None;
@@ -2934,6 +2935,13 @@ impl XML_ParserStruct {
                         self.m_errorCode = XML_Error::SUSPEND_PE;
                         return XML_Status::ERROR;
                     }
+                    if self.m_parsingStatus.parsing == XML_Parsing::INITIALIZED
+                        && !self.is_child_parser
+                        && !self.startParsing()
+                    {
+                        self.m_errorCode = XML_Error::NO_MEMORY;
+                        return XML_Status::ERROR;
+                    }
                     self.m_parsingStatus.parsing = XML_Parsing::SUSPENDED
                 } else {
                     self.m_parsingStatus.parsing = XML_Parsing::FINISHED
@@ -2971,6 +2979,10 @@ impl XML_ParserStruct {
             return XML_Status::ERROR;
         }
         self.m_parsingStatus.parsing = XML_Parsing::PARSING;
+        if self.m_positionIdx.is_none() {
+            /* the buffer has moved since the last call that parsed */
+            self.m_positionIdx = Some(self.m_bufferStart);
+        }
         // convert in-out parameter `start` from index to pointer
         let mut start = self.m_buffer.as_ptr().add(self.m_bufferStart);
         self.m_errorCode = self.m_processor.expect("non-null function pointer")(
-- 
2.43.0


From 060086c3c4545047c064f26625d48d8946e01243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:16:54 +0000
Subject: [PATCH 30/37] fix: a piece of converted CDATA ends where the piece
 ends

---
 src/lib/xmlparse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index dffd523..9034ed5 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -5079,7 +5079,7 @@ unsafe extern "C" fn doCdataSection(
                                 &mut to_buf,
                             );
                             buf = buf.with_start(from_buf.as_ptr());
-                            *eventEndPP = next;
+                            *eventEndPP = buf.as_ptr();
                             handlers.characterData(
                                 &ExpatBufRef::new(
                                     (*parser).m_dataBuf.as_ptr(),
-- 
2.43.0


From 58e5201e1361079023771e585bdee012170668f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:14:04 +0000
Subject: [PATCH 31/37] fix: xmlwf takes arguments that are not UTF-8

---
 src/xmlwf/xmlwf.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/xmlwf/xmlwf.rs b/src/xmlwf/xmlwf.rs
index ba2cc5c..5c1e512 100644
--- a/src/xmlwf/xmlwf.rs
+++ b/src/xmlwf/xmlwf.rs
@@ -1563,9 +1563,10 @@ unsafe fn main_0(mut argc: c_int, mut argv: *mut *mut XML_Char) -> c_int {
 #[main]
 pub fn main() {
     let mut args: Vec<*mut libc::c_char> = Vec::new();
-    for arg in ::std::env::args() {
+    for arg in ::std::env::args_os() {
+        /* An argument is any sequence of bytes, it need not be UTF-8 */
         args.push(
-            ::std::ffi::CString::new(arg)
+            ::std::ffi::CString::new(::std::os::unix::ffi::OsStringExt::into_vec(arg))
                 .expect("Failed to convert argument into CString.")
                 .into_raw(),
         );
-- 
2.43.0


From 2fd372e9497f4e7e57db614d4361f1fc003a5674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:21:17 +0000
Subject: [PATCH 32/37] fix: text that ends in ']' at the end of an entity has
 the extent of its bytes

---
 src/lib/xmlparse.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 9034ed5..158a7b0 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -4178,6 +4178,7 @@ impl XML_ParserStruct {
                         *nextPtr = buf.as_ptr();
                         return XML_Error::NONE;
                     }
+                    *eventEndPP = buf.end();
                     if self.m_handlers.hasCharacterData() {
                         if MUST_CONVERT!(enc, buf.as_ptr()) {
                             let dataStart = self.m_dataBuf.as_ptr();
-- 
2.43.0


From eda934f7b6f7d1b1c06a838155f9b1dea885a812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:49:22 +0000
Subject: [PATCH 33/37] fix: appending to a string pool took time in the size
 of the whole string

Each append cleared the rest of the pool's capacity, so that a long attribute
value, entity value or enumeration made of many pieces took quadratic time.
---
 src/string_pool.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/string_pool.rs b/src/string_pool.rs
index f1726a5..cb5d85c 100644
--- a/src/string_pool.rs
+++ b/src/string_pool.rs
@@ -282,14 +282,15 @@ impl<'bump> RentedBumpVec<'bump> {
         loop {
             // REXPAT: always reserve at least 4 bytes,
             // so at least one character gets converted every iteration
-            if self.0.try_reserve(read_buf.len().max(4)).is_err() {
+            let room = read_buf.len().max(4);
+            if self.0.try_reserve(room).is_err() {
                 return false;
             }
 
             let start_len = self.0.len();
-            let cap = self.0.capacity();
 
-            self.0.resize(cap, 0);
+            // REXPAT: not the whole capacity, many short appends would take quadratic time
+            self.0.resize(start_len + room, 0);
 
             let mut write_buf = ExpatBufRefMut::from(&mut self.0[start_len..]);
             let write_buf_len = write_buf.len();
-- 
2.43.0


From 93e7b0dca9ac41c879d97165ac0cf33607c53aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:26:57 +0000
Subject: [PATCH 34/37] fix: a default handler that removed itself within a
 long token crashed the parser

---
 src/lib/xmlparse.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 158a7b0..541dceb 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -7828,9 +7828,9 @@ unsafe extern "C" fn reportDefault(
                 data_buf.as_ptr().wrapping_offset_from((*parser).m_dataBuf.as_ptr()).try_into().unwrap(),
             );
 
-            // Previously unwrapped an Option
+            // The handler may have been removed by its own call for the piece before
             if !defaultRan {
-                panic!("Expected default handler to be set");
+                break;
             }
 
             *eventPP = buf.as_ptr();
-- 
2.43.0


From d31d8a165eb3e6dfc6b084c67311ed7cf44b44de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:26:58 +0000
Subject: [PATCH 35/37] fix: the event of an entity whose value has an error
 had a negative extent; passing it on crashed

---
 src/lib/xmlparse.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 541dceb..f675072 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -6217,7 +6217,8 @@ impl XML_ParserStruct {
                             (*self.m_declEntity).textLen = self.m_dtd.entityValuePool.len() as c_int;
                             (*self.m_declEntity).textPtr = self.m_dtd.entityValuePool.finish_string().as_ptr();
                             if result_2 != XML_Error::NO_MEMORY && self.m_handlers.hasEntityDecl() {
-                                *eventEndPP = buf.as_ptr();
+                                /* an error in the value has moved the event's start */
+                                *eventEndPP = if result_2 == XML_Error::NONE { buf.as_ptr() } else { *eventPP };
                                 self.m_handlers.entityDecl(
                                     (*self.m_declEntity).name,
                                     (*self.m_declEntity).is_param as c_int,
-- 
2.43.0


From 5af71567da5d44e49b2e8d8f3ace498968826526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:34:46 +0000
Subject: [PATCH 36/37] fix: the values of an enumerated attribute that is not
 reported became part of the next name

---
 src/lib/xmlparse.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index f675072..18c0b7e 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -6146,6 +6146,10 @@ impl XML_ParserStruct {
                             handleDefault = false
                         }
                     }
+                    if handleDefault {
+                        /* not reported: drop the list of values put together so far */
+                        self.m_tempPool.clear_current();
+                    }
                 }
                 XML_ROLE::DEFAULT_ATTRIBUTE_VALUE | XML_ROLE::FIXED_ATTRIBUTE_VALUE => {
                     if self.m_dtd.keepProcessing.get() {
@@ -6201,6 +6205,10 @@ impl XML_ParserStruct {
                             handleDefault = false
                         }
                     }
+                    if handleDefault {
+                        /* not reported: drop the list of values put together so far */
+                        self.m_tempPool.clear_current();
+                    }
                 }
                 XML_ROLE::ENTITY_VALUE => {
                     if self.m_dtd.keepProcessing.get() {
-- 
2.43.0


From d6ec748b57f6c62c1c6367dc5f814fa1afdad25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:35:58 +0000
Subject: [PATCH 37/37] fix: the names of skipped entities stayed in the DTD's
 string pool

---
 src/lib/xmlparse.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 18c0b7e..1a742d7 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -3768,9 +3768,18 @@ impl XML_ParserStruct {
                             }
                         } else if entity.is_null() {
                             let skippedHandlerRan = if self.m_handlers.hasSkippedEntity() {
-                                // REXPAT: the handler may add to the pool (XML_SetBase)
-                                let name = self.m_dtd.pool.finish_string().as_ptr();
-                                self.m_handlers.skippedEntity(name, 0)
+                                // REXPAT: the handler may add to the DTD's pool (XML_SetBase)
+                                let name = self.m_dtd.pool.current_slice(|name| {
+                                    self.m_tempPool.copy_c_string(name.as_ptr()).map(|name| name.as_ptr())
+                                });
+                                self.m_dtd.pool.clear_current();
+                                let name = match name {
+                                    Some(name) => name,
+                                    None => return XML_Error::NO_MEMORY,
+                                };
+                                let skippedHandlerRan = self.m_handlers.skippedEntity(name, 0);
+                                self.m_tempPool.clear();
+                                skippedHandlerRan
                             } else {
                                 self.m_dtd.pool.clear_current();
                                 false
@@ -6687,9 +6696,17 @@ impl XML_ParserStruct {
                             if role == super::xmlrole::XML_ROLE::PARAM_ENTITY_REF
                                 && self.m_handlers.hasSkippedEntity()
                             {
-                                // REXPAT: the handler may add to the pool (XML_SetBase)
-                                let name = self.m_dtd.pool.finish_string().as_ptr();
+                                // REXPAT: the handler may add to the DTD's pool (XML_SetBase)
+                                let name = self.m_dtd.pool.current_slice(|name| {
+                                    self.m_tempPool.copy_c_string(name.as_ptr()).map(|name| name.as_ptr())
+                                });
+                                self.m_dtd.pool.clear_current();
+                                let name = match name {
+                                    Some(name) => name,
+                                    None => return XML_Error::NO_MEMORY,
+                                };
                                 self.m_handlers.skippedEntity(name, 1);
+                                self.m_tempPool.clear();
                                 handleDefault = false;
                             } else {
                                 self.m_dtd.pool.clear_current();
-- 
2.43.0

