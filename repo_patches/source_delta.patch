From 88caa59bfba045aead34063ff45bd982f2a822dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:50:51 +0000
Subject: [PATCH 01/33] fix: cache only the bytes a short read delivered

The header reader recorded the whole caller buffer even when the
source returned fewer bytes, so the header checksum failed for
sources that deliver data in small pieces.
---
 src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 9098635..54a2eff 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -49,7 +49,7 @@ where
 impl<'a, I: io::Read> io::Read for CachingReader<'a, I> {
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
         let size = self.inner.read(buf)?;
-        self.data.extend(buf.iter().cloned());
+        self.data.extend_from_slice(&buf[..size]);
         Ok(size)
     }
 }
-- 
2.43.0


From 3e05b87b93a31dea52e736ef98d0e0281e0b2c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:51:07 +0000
Subject: [PATCH 02/33] fix: do not return padding bytes from the block cipher
 reader

Reads that ended inside the last block were followed by reads that
handed out the PKCS#7 padding as if it were content. Padding appeared
in the raw XML and broke gzip compressed archives.
---
 src/stream/block_cipher.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/stream/block_cipher.rs b/src/stream/block_cipher.rs
index 3fc9e8a..192a5ae 100644
--- a/src/stream/block_cipher.rs
+++ b/src/stream/block_cipher.rs
@@ -19,6 +19,7 @@ where
     inner: R,
     buffer: GenericArray<u8, C::BlockSize>,
     buf_idx: usize,
+    buf_len: usize,
     cipher: cbc::Decryptor<C>,
     first_read: bool,
     peek_byte: Option<u8>,
@@ -39,6 +40,7 @@ where
             cipher: cbc::Decryptor::new_from_slices(&key.0, iv)?,
             buffer: GenericArray::default(),
             buf_idx: 0,
+            buf_len: 0,
             first_read: true,
             peek_byte: None,
         })
@@ -52,6 +54,7 @@ where
 {
     fn buffer_next_block(&mut self) -> io::Result<usize> {
         self.buf_idx = 0;
+        self.buf_len = 0;
         let mut buffered_bytes = 0;
 
         if let Some(byte) = self.peek_byte {
@@ -94,10 +97,11 @@ where
         if self.peek_byte.is_none() {
             let unpadded = Pkcs7::unpad(&self.buffer)
                 .map_err(|_| io::Error::new(io::ErrorKind::InvalidData, "Bad padding"))?;
-            Ok(unpadded.len())
+            self.buf_len = unpadded.len();
         } else {
-            Ok(buffered_bytes)
+            self.buf_len = buffered_bytes;
         }
+        Ok(self.buf_len)
     }
 }
 
@@ -107,9 +111,9 @@ where
     C: BlockCipher + BlockDecryptMut,
 {
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
-        let mut remaining_in_buffer = self.buffer.len() - self.buf_idx;
+        let mut remaining_in_buffer = self.buf_len - self.buf_idx;
 
-        if remaining_in_buffer == 0 || self.first_read {
+        if remaining_in_buffer == 0 {
             remaining_in_buffer = self.buffer_next_block()?;
         }
         let copy_len = usize::min(remaining_in_buffer, buf.len());
-- 
2.43.0


From b7f260a3c6db512147a77c22afe7fa705212b687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:51:08 +0000
Subject: [PATCH 03/33] fix: accept data when an HMAC block is exactly full

A write that found the block buffer filled to the last byte reported
zero bytes written, so saving more than 1 MiB failed.
---
 src/stream/hmac.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/stream/hmac.rs b/src/stream/hmac.rs
index a7ea352..cb64135 100644
--- a/src/stream/hmac.rs
+++ b/src/stream/hmac.rs
@@ -121,14 +121,13 @@ where
 
 impl<'a, W: 'a + io::Write> io::Write for HmacWriter<'a, W> {
     fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
-        let space_in_buffer = HMAC_WRITE_BLOCK_SIZE - self.buffer.len();
-        let write_size = usize::min(buf.len(), space_in_buffer);
-        self.buffer.extend_from_slice(&buf[0..write_size]);
-        if write_size < buf.len() {
+        if self.buffer.len() == HMAC_WRITE_BLOCK_SIZE {
             // Internal buffer full, write it out
             self.write_block()?;
-            self.buffer.clear();
         }
+        let space_in_buffer = HMAC_WRITE_BLOCK_SIZE - self.buffer.len();
+        let write_size = usize::min(buf.len(), space_in_buffer);
+        self.buffer.extend_from_slice(&buf[0..write_size]);
         Ok(write_size)
     }
 
-- 
2.43.0


From fea0634f5a8d9b0f81fe6f693015a948aa38fe3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:51:08 +0000
Subject: [PATCH 04/33] fix: flushing an HMAC stream must not end it

A flush wrote the current buffer as a block. With nothing buffered
that block was empty, which readers take for the end of the stream.
---
 src/stream/hmac.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/stream/hmac.rs b/src/stream/hmac.rs
index cb64135..541409e 100644
--- a/src/stream/hmac.rs
+++ b/src/stream/hmac.rs
@@ -132,7 +132,6 @@ impl<'a, W: 'a + io::Write> io::Write for HmacWriter<'a, W> {
     }
 
     fn flush(&mut self) -> io::Result<()> {
-        self.write_block()?;
-        Ok(())
+        self.inner.flush()
     }
 }
-- 
2.43.0


From 3486edc936fc357ab8ff3578a79bffa4592b171b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:51:18 +0000
Subject: [PATCH 05/33] fix: keep leading and trailing whitespace of stored
 text

Names and values lost surrounding whitespace when read, and values
of whitespace only came back empty. Only encoded values such as
numbers, dates and identifiers are trimmed now.
---
 src/xml/parse.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/xml/parse.rs b/src/xml/parse.rs
index b4f9f6c..0597f1a 100644
--- a/src/xml/parse.rs
+++ b/src/xml/parse.rs
@@ -61,10 +61,17 @@ fn parse_string<R: Read>(xml_event_reader: &mut EventReader<R>) -> Result<Option
     Ok(content)
 }
 
+/// Parse the text of an encoded value, where surrounding whitespace has no meaning
+fn parse_token<R: Read>(xml_event_reader: &mut EventReader<R>) -> Result<Option<String>> {
+    Ok(parse_string(xml_event_reader)?
+        .map(|s| s.trim().to_string())
+        .filter(|s| !s.is_empty()))
+}
+
 macro_rules! parse_numeric_type {
     ($name:ident, $ty:ty) => {
         fn $name<R: Read>(xml_event_reader: &mut EventReader<R>) -> Result<Option<$ty>> {
-            parse_string(xml_event_reader)?
+            parse_token(xml_event_reader)?
                 .map(|num| num.parse())
                 .transpose()
                 .map_err(|_| Error::InvalidNumber)
@@ -75,19 +82,19 @@ macro_rules! parse_numeric_type {
 parse_numeric_type!(parse_u32, u32);
 
 fn parse_uuid<R: Read>(xml_event_reader: &mut EventReader<R>) -> Result<Uuid> {
-    parse_string(xml_event_reader)?
+    parse_token(xml_event_reader)?
         .and_then(|uuid| decode_uuid(&uuid))
         .ok_or(Error::InvalidUuid)
 }
 
 fn parse_datetime<R: Read>(xml_event_reader: &mut EventReader<R>) -> Result<NaiveDateTime> {
-    parse_string(xml_event_reader)?
+    parse_token(xml_event_reader)?
         .and_then(|dt| decode_datetime(&dt))
         .ok_or(Error::InvalidDatetime)
 }
 
 fn parse_bool<R: Read>(xml_event_reader: &mut EventReader<R>) -> Result<bool> {
-    Ok(parse_string(xml_event_reader)?
+    Ok(parse_token(xml_event_reader)?
         .map(|b| b.to_lowercase() == "true")
         .unwrap_or_default())
 }
@@ -115,7 +122,7 @@ fn parse_field<R: Read, S: StreamCipher + ?Sized>(
                     if protected {
                         // Would be nice to avoid the clone but it gets moved into the map_err closure
                         let key_clone = field.key.clone();
-                        match BASE64_STANDARD.decode(&contents) {
+                        match BASE64_STANDARD.decode(contents.trim()) {
                             Ok(mut decoded) => {
                                 stream_cipher
                                     .try_apply_keystream(decoded.as_mut())
@@ -370,7 +377,8 @@ pub fn parse_xml<R: Read, S: StreamCipher + ?Sized>(
     stream_cipher: &mut S,
 ) -> Result<Database> {
     let xml_config = xml::ParserConfig::new()
-        .trim_whitespace(true)
+        .trim_whitespace(false)
+        .whitespace_to_characters(true)
         .cdata_to_characters(true);
     let mut xml_event_reader = EventReader::new_with_config(xml_data, xml_config);
     parse_file(&mut xml_event_reader, stream_cipher)
-- 
2.43.0


From f51b42c695ced9ad2fefea728d81d644013d19c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:51:43 +0000
Subject: [PATCH 06/33] fix: keep the protection of empty fields

A protected field without content was reported, saved and reloaded
as unprotected. The next value set on it was then stored in the
clear inside the document.
---
 src/database.rs      | 2 +-
 src/xml/parse.rs     | 2 ++
 src/xml/serialize.rs | 6 +++++-
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/database.rs b/src/database.rs
index 9bc2c4b..587d623 100644
--- a/src/database.rs
+++ b/src/database.rs
@@ -178,7 +178,7 @@ impl Field {
     /// Note: This is instructional for official clients, this library does not
     /// support memory protection
     pub fn protected(&self) -> bool {
-        matches!(self.value, Value::Protected(_))
+        matches!(self.value, Value::Protected(_) | Value::ProtectEmpty)
     }
 
     /// Set whether memory protection and extra encryption should be applied
diff --git a/src/xml/parse.rs b/src/xml/parse.rs
index 0597f1a..956fa02 100644
--- a/src/xml/parse.rs
+++ b/src/xml/parse.rs
@@ -141,6 +141,8 @@ fn parse_field<R: Read, S: StreamCipher + ?Sized>(
                     } else {
                         Value::Standard(contents)
                     }
+                } else if protected {
+                    Value::ProtectEmpty
                 } else {
                     Value::Empty
                 }
diff --git a/src/xml/serialize.rs b/src/xml/serialize.rs
index f021aa7..e074884 100644
--- a/src/xml/serialize.rs
+++ b/src/xml/serialize.rs
@@ -58,10 +58,14 @@ fn write_field<W: Write, S: StreamCipher + ?Sized>(
             writer.write(XmlEvent::end_element())?;
         }
         Value::Standard(v) => write_string_tag(writer, "Value", v)?,
-        Value::Empty | Value::ProtectEmpty => {
+        Value::Empty => {
             writer.write(XmlEvent::start_element("Value"))?;
             writer.write(XmlEvent::end_element())?;
         }
+        Value::ProtectEmpty => {
+            writer.write(XmlEvent::start_element("Value").attr("Protected", "True"))?;
+            writer.write(XmlEvent::end_element())?;
+        }
     }
     writer.write(XmlEvent::end_element())?;
     Ok(())
-- 
2.43.0


From b53374ca76a029a6e1b4ecdf96ebe72afcce1331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:09 +0000
Subject: [PATCH 07/33] fix: refuse to save text that cannot be read back

Control characters in unprotected text and fields without a name
were written without an error, but the resulting archive could not
be opened again.
---
 src/xml/serialize.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/xml/serialize.rs b/src/xml/serialize.rs
index e074884..99c25f7 100644
--- a/src/xml/serialize.rs
+++ b/src/xml/serialize.rs
@@ -20,6 +20,27 @@ pub enum Error {
 
 type Result<T> = std::result::Result<T, Error>;
 
+fn invalid_content(message: String) -> Error {
+    let io_error = std::io::Error::new(std::io::ErrorKind::InvalidInput, message);
+    Error::Xml(xml::writer::Error::from(io_error))
+}
+
+/// Check that XML is able to represent the given text
+fn check_text(text: &str) -> Result<()> {
+    let is_xml_char = |c: char| match c {
+        '\t' | '\n' | '\r' => true,
+        '\u{FFFE}' | '\u{FFFF}' => false,
+        c => c >= ' ',
+    };
+    match text.chars().find(|c| !is_xml_char(*c)) {
+        Some(c) => Err(invalid_content(format!(
+            "Character {:?} can only be stored in protected values",
+            c
+        ))),
+        None => Ok(()),
+    }
+}
+
 fn write_bool_tag<W: Write>(writer: &mut XmlWriter<W>, name: &str, value: bool) -> Result<()> {
     writer.write(XmlEvent::start_element(name))?;
     writer.write(XmlEvent::characters(if value { "True" } else { "False" }))?;
@@ -32,6 +53,7 @@ fn write_string_tag<W: Write, S: AsRef<str>>(
     name: &str,
     value: S,
 ) -> Result<()> {
+    check_text(value.as_ref())?;
     writer.write(XmlEvent::start_element(name))?;
     writer.write(XmlEvent::characters(value.as_ref()))?;
     writer.write(XmlEvent::end_element())?;
@@ -44,6 +66,9 @@ fn write_field<W: Write, S: StreamCipher + ?Sized>(
     field: &Field,
     stream_cipher: &mut S,
 ) -> Result<()> {
+    if field.key.is_empty() {
+        return Err(invalid_content("A field has an empty name".to_string()));
+    }
     writer.write(XmlEvent::start_element(wrapper))?;
     write_string_tag(writer, "Key", &field.key)?;
     match &field.value {
-- 
2.43.0


From 972a3bd170865c813e325f6a913c3d67e6136d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:15:53 +0000
Subject: [PATCH 08/33] fix: accept the final block of a KDBX 3 archive

The block that ends the hashed block stream is empty and has 32 zero bytes
in place of its hash. Reading it failed hash verification, so archives
without compression could not be unlocked.
---
 src/stream/kdbx3.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/stream/kdbx3.rs b/src/stream/kdbx3.rs
index 3d256cc..14f5c4e 100644
--- a/src/stream/kdbx3.rs
+++ b/src/stream/kdbx3.rs
@@ -8,6 +8,7 @@ where
     inner: R,
     buffer: Vec<u8>,
     buf_idx: usize,
+    finished: bool,
 }
 
 impl<R> HashedBlockReader<R>
@@ -19,10 +20,14 @@ where
             inner,
             buffer: Vec::new(),
             buf_idx: 0,
+            finished: false,
         }
     }
 
     fn buffer_next_block(&mut self) -> io::Result<usize> {
+        if self.finished {
+            return Ok(0);
+        }
         let mut id_buf = [0u8; 4];
         self.inner.read_exact(&mut id_buf)?;
         let mut hash_buf = [0u8; 32];
@@ -33,7 +38,10 @@ where
         self.buffer.resize_with(len, Default::default);
         self.inner.read_exact(&mut self.buffer)?;
         self.buf_idx = 0;
-        if crypto::verify_sha256(&self.buffer, &hash_buf) {
+        // The final block is empty and has zeroes in place of a hash
+        let is_final = len == 0 && hash_buf == [0u8; 32];
+        if is_final || crypto::verify_sha256(&self.buffer, &hash_buf) {
+            self.finished = len == 0;
             Ok(len)
         } else {
             Err(io::Error::new(
-- 
2.43.0


From 2d85036b5529337ea3788bbc11e1b92e2deac6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:16:32 +0000
Subject: [PATCH 09/33] fix: do not allocate memory for lengths that the input
 does not have

Length fields of headers, variant dictionaries and data blocks were used to
allocate a buffer before anything was read. A damaged length made the
process run out of memory or panic with a capacity overflow.
---
 src/binary/header.rs       |  3 +--
 src/binary/variant_dict.rs |  8 +++-----
 src/stream/hmac.rs         |  4 ++--
 src/stream/kdbx3.rs        |  4 ++--
 src/utils.rs               | 15 ++++++++++++++-
 5 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/binary/header.rs b/src/binary/header.rs
index 4de6ceb..1c0cb14 100644
--- a/src/binary/header.rs
+++ b/src/binary/header.rs
@@ -184,8 +184,7 @@ where
             self.reader.read_exact(&mut len_buffer)?;
             u16::from_le_bytes(len_buffer) as u32
         };
-        let mut header_buffer = utils::buffer(len as usize);
-        self.reader.read_exact(&mut header_buffer)?;
+        let header_buffer = utils::read_vec(self.reader, len as usize)?;
 
         Ok(HeaderField {
             ty,
diff --git a/src/binary/variant_dict.rs b/src/binary/variant_dict.rs
index 7e4e078..a4fcbae 100644
--- a/src/binary/variant_dict.rs
+++ b/src/binary/variant_dict.rs
@@ -1,4 +1,4 @@
-use crate::utils::buffer;
+use crate::utils::read_vec;
 use derive_more::TryInto;
 use std::collections::HashMap;
 use std::io::{self, Read};
@@ -151,14 +151,12 @@ fn parse_variant_dict_entry<T: Read>(ty: u8, input: &mut T) -> Result<(String, V
 
     input.read_exact(&mut length_buffer)?;
     let key_length = i32::from_le_bytes(length_buffer);
-    let mut key_buffer: Vec<u8> = buffer(key_length as usize);
-    input.read_exact(&mut key_buffer)?;
+    let key_buffer = read_vec(input, key_length as usize)?;
     let key = String::from_utf8(key_buffer)?;
 
     input.read_exact(&mut length_buffer)?;
     let value_length = i32::from_le_bytes(length_buffer);
-    let mut value_buffer: Vec<u8> = buffer(value_length as usize);
-    input.read_exact(&mut value_buffer)?;
+    let value_buffer = read_vec(input, value_length as usize)?;
 
     let value = Value::from_bytes(ty, value_buffer)?;
 
diff --git a/src/stream/hmac.rs b/src/stream/hmac.rs
index 541409e..71769aa 100644
--- a/src/stream/hmac.rs
+++ b/src/stream/hmac.rs
@@ -1,6 +1,7 @@
 pub const HMAC_WRITE_BLOCK_SIZE: usize = 1024 * 1024;
 
 use crate::crypto::HmacKey;
+use crate::utils;
 use std::io::{self, Read, Write};
 
 pub(crate) struct HMacReader<R>
@@ -31,8 +32,7 @@ impl<R: io::Read> HMacReader<R> {
         let mut len_buffer = [0u8; 4];
         self.inner.read_exact(&mut len_buffer)?;
         let len = u32::from_le_bytes(len_buffer) as usize;
-        self.buffer.resize_with(len, Default::default);
-        self.inner.read_exact(&mut self.buffer)?;
+        self.buffer = utils::read_vec(&mut self.inner, len)?;
         if !self
             .hmac_key
             .block_key(self.block_idx)
diff --git a/src/stream/kdbx3.rs b/src/stream/kdbx3.rs
index 14f5c4e..9bef356 100644
--- a/src/stream/kdbx3.rs
+++ b/src/stream/kdbx3.rs
@@ -1,4 +1,5 @@
 use crate::crypto;
+use crate::utils;
 use std::io::{self, Read};
 
 pub struct HashedBlockReader<R>
@@ -35,8 +36,7 @@ where
         let mut len_buf = [0u8; 4];
         self.inner.read_exact(&mut len_buf)?;
         let len = u32::from_le_bytes(len_buf) as usize;
-        self.buffer.resize_with(len, Default::default);
-        self.inner.read_exact(&mut self.buffer)?;
+        self.buffer = utils::read_vec(&mut self.inner, len)?;
         self.buf_idx = 0;
         // The final block is empty and has zeroes in place of a hash
         let is_final = len == 0 && hash_buf == [0u8; 32];
diff --git a/src/utils.rs b/src/utils.rs
index 54a2eff..5dc8c37 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -1,7 +1,7 @@
 //! Utilities to help working with kdbx-rs
 
 use std::fmt::Write;
-use std::io;
+use std::io::{self, Read};
 use uuid::Uuid;
 
 use crate::binary::KdfAlgorithm;
@@ -38,6 +38,19 @@ pub(crate) fn buffer(len: usize) -> Vec<u8> {
     v
 }
 
+/// Read exactly `len` bytes, without trusting `len` to be present in the input
+pub(crate) fn read_vec<R: io::Read>(input: &mut R, len: usize) -> io::Result<Vec<u8>> {
+    let mut data = Vec::new();
+    input.take(len as u64).read_to_end(&mut data)?;
+    if data.len() < len {
+        return Err(io::Error::new(
+            io::ErrorKind::UnexpectedEof,
+            "Data ended before its stated length",
+        ));
+    }
+    Ok(data)
+}
+
 pub(crate) struct CachingReader<'a, I>
 where
     I: io::Read,
-- 
2.43.0


From 2c00c33964599d555be53405e0f24036002d0863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:16:41 +0000
Subject: [PATCH 10/33] fix: report malformed header fields and dates instead
 of panicking

Too short round counts and cipher ids, key derivation seeds and IVs of the
wrong size, missing start bytes and dates out of range all panicked while
opening or unlocking an archive.
---
 src/binary/header.rs   | 41 +++++++++++++++++++++++++----------------
 src/binary/kdbx.rs     |  5 ++++-
 src/crypto.rs          |  3 ++-
 src/stream/pipeline.rs | 13 +++++++++++--
 src/xml/decoders.rs    |  2 +-
 5 files changed, 43 insertions(+), 21 deletions(-)

diff --git a/src/binary/header.rs b/src/binary/header.rs
index 1c0cb14..49e7052 100644
--- a/src/binary/header.rs
+++ b/src/binary/header.rs
@@ -265,34 +265,41 @@ impl KdbxHeaderBuilder {
         Ok(())
     }
 
-    fn get_kdf_params(&mut self) -> Option<header_fields::KdfParams> {
+    fn get_kdf_params(&mut self) -> Result<Option<header_fields::KdfParams>> {
         if self.kdf_params.is_some() {
-            self.kdf_params.take()
+            Ok(self.kdf_params.take())
         } else {
             let rounds = self
                 .other_headers
                 .iter()
                 .find(|h| h.ty == OuterHeaderId::LegacyTransformRounds)
-                .map(|h| {
-                    let mut buf = [0u8; 8];
-                    buf.clone_from_slice(&h.data[0..8]);
-                    u64::from_le_bytes(buf)
-                });
+                .map(|h| match h.data.get(0..8) {
+                    Some(data) => {
+                        let mut buf = [0u8; 8];
+                        buf.clone_from_slice(data);
+                        Ok(u64::from_le_bytes(buf))
+                    }
+                    None => Err(Error::MalformedField(
+                        OuterHeaderId::LegacyTransformRounds,
+                        "Wrong size for number of rounds".into(),
+                    )),
+                })
+                .transpose()?;
             let seed = self
                 .other_headers
                 .iter()
                 .find(|h| h.ty == OuterHeaderId::LegacyTransformSeed)
                 .map(|h| h.data.clone());
 
-            match (rounds, seed) {
+            Ok(match (rounds, seed) {
                 (Some(r), Some(s)) => Some(header_fields::KdfParams::Aes { rounds: r, salt: s }),
                 _ => None,
-            }
+            })
         }
     }
 
     fn build(mut self) -> Result<KdbxHeader> {
-        let kdf_params = self.get_kdf_params();
+        let kdf_params = self.get_kdf_params()?;
         Ok(KdbxHeader {
             cipher: self
                 .cipher
@@ -432,6 +439,12 @@ impl KdbxHeader {
     }
 }
 
+fn read_inner_cipher_id(mut data: &[u8]) -> Result<u32> {
+    let mut buf = [0u8; 4];
+    data.read_exact(&mut buf)?;
+    Ok(u32::from_le_bytes(buf))
+}
+
 #[derive(Default)]
 pub struct KdbxInnerHeaderBuilder {
     pub inner_stream_cipher: Option<header_fields::InnerStreamCipherAlgorithm>,
@@ -444,9 +457,7 @@ impl KdbxInnerHeaderBuilder {
     fn add_header(&mut self, header: HeaderField<InnerHeaderId>) -> Result<()> {
         match header.ty {
             InnerHeaderId::InnerRandomStreamCipherId => {
-                let d = header.data;
-                self.inner_stream_cipher =
-                    Some(u32::from_le_bytes([d[0], d[1], d[2], d[3]]).into());
+                self.inner_stream_cipher = Some(read_inner_cipher_id(&header.data)?.into());
             }
             InnerHeaderId::InnerRandomStreamKey => self.inner_stream_key = Some(header.data),
             _ => self.other_headers.push(header),
@@ -500,9 +511,7 @@ impl KdbxInnerHeader {
             ))?
             .data
             .clone();
-        let mut cipher_id_buf = [0u8; 4];
-        cipher_id_buf.clone_from_slice(&cipher[0..4]);
-        let cipher_id = u32::from_le_bytes(cipher_id_buf);
+        let cipher_id = read_inner_cipher_id(cipher)?;
 
         Ok(KdbxInnerHeader {
             inner_stream_cipher: cipher_id.into(),
diff --git a/src/binary/kdbx.rs b/src/binary/kdbx.rs
index 6059ae6..5b8ed65 100644
--- a/src/binary/kdbx.rs
+++ b/src/binary/kdbx.rs
@@ -337,13 +337,16 @@ impl Kdbx<Locked> {
         master_key: &crypto::MasterKey,
     ) -> Result<(header::KdbxInnerHeader, Vec<u8>), errors::UnlockError> {
         let cipher_key = master_key.cipher_key(&self.state.header.master_seed);
+        let start_bytes = self.state.header.stream_start_bytes.as_ref().ok_or(
+            errors::HeaderError::MissingRequiredField(header::OuterHeaderId::StreamStartBytes),
+        )?;
         let mut input_stream = stream::kdbx3_read_stream(
             &*self.state.encrypted_data,
             cipher_key,
             self.state.header.cipher,
             &self.state.header.encryption_iv,
             self.state.header.compression_type,
-            self.header().stream_start_bytes.as_ref().unwrap(),
+            start_bytes,
         )?;
         let inner_header = header::KdbxInnerHeader::from_legacy_fields(&self.state.header)?;
         let mut output_buffer = Vec::new();
diff --git a/src/crypto.rs b/src/crypto.rs
index 0870566..7f50c53 100644
--- a/src/crypto.rs
+++ b/src/crypto.rs
@@ -90,7 +90,8 @@ impl ComposedKey {
             }
             binary::KdfParams::Aes { rounds, salt } => {
                 use cipher::KeyInit;
-                let mut cipher = Aes256::new_from_slice(salt).unwrap();
+                let mut cipher = Aes256::new_from_slice(salt)
+                    .map_err(|e| KeyGenerationError::KeyGeneration(e.to_string()))?;
                 let chunked: Vec<GenericArray<u8, _>> = self
                     .0
                     .chunks_exact(16)
diff --git a/src/stream/pipeline.rs b/src/stream/pipeline.rs
index 0d5981f..e558271 100644
--- a/src/stream/pipeline.rs
+++ b/src/stream/pipeline.rs
@@ -34,6 +34,15 @@ where
     })
 }
 
+fn chacha20_cipher(key: &crypto::CipherKey, iv: &[u8]) -> io::Result<ChaCha20> {
+    ChaCha20::new_from_slices(&key.0, iv).map_err(|_| {
+        io::Error::new(
+            io::ErrorKind::InvalidInput,
+            "Invalid cipher params - Could not create ChaCha20 stream",
+        )
+    })
+}
+
 pub(crate) fn decryption_stream<'a, R: io::Read + 'a>(
     inner: R,
     cipher_key: crypto::CipherKey,
@@ -51,7 +60,7 @@ pub(crate) fn decryption_stream<'a, R: io::Read + 'a>(
             inner, cipher_key, iv,
         )?),
         binary::Cipher::ChaCha20 => {
-            let cipher = ChaCha20::new_from_slices(&cipher_key.0, iv).unwrap();
+            let cipher = chacha20_cipher(&cipher_key, iv)?;
             Box::new(super::StreamCipherReader::new(inner, cipher))
         }
         _ => {
@@ -243,7 +252,7 @@ pub(crate) fn kdbx4_write_stream<'a, W: 'a + io::Write>(
             block_cipher_write_stream::<Twofish, _>(verified, cipher_key, iv)?
         }
         binary::Cipher::ChaCha20 => {
-            let cipher = ChaCha20::new_from_slices(&cipher_key.0, iv).unwrap();
+            let cipher = chacha20_cipher(&cipher_key, iv)?;
             EncryptWrite::Stream(Box::new(super::StreamCipherWriter::new(verified, cipher)))
         }
         _ => {
diff --git a/src/xml/decoders.rs b/src/xml/decoders.rs
index 376a303..f125f7c 100644
--- a/src/xml/decoders.rs
+++ b/src/xml/decoders.rs
@@ -22,7 +22,7 @@ pub(crate) fn decode_datetime_b64(b64date: &str) -> Option<NaiveDateTime> {
     let mut bytes = [0u8; 8];
     let copy_size = usize::min(bytes.len(), decoded.len());
     bytes[..copy_size].copy_from_slice(&decoded[..copy_size]);
-    let timestamp = Duration::seconds(i64::from_le_bytes(bytes));
+    let timestamp = Duration::try_seconds(i64::from_le_bytes(bytes))?;
 
     keepass_epoch().checked_add_signed(timestamp)
 }
-- 
2.43.0


From 5eb5d414118b265a3f1d28a5d5d5db46a459e3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:16:49 +0000
Subject: [PATCH 11/33] fix: refuse to derive keys with an unknown key
 derivation function

Unknown functions produced an empty master key. An archive naming one could
be forged by anyone and was accepted with any credentials.
---
 src/crypto.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/crypto.rs b/src/crypto.rs
index 7f50c53..433e48c 100644
--- a/src/crypto.rs
+++ b/src/crypto.rs
@@ -108,7 +108,9 @@ impl ComposedKey {
 
                 Ok(MasterKey(transformed))
             }
-            _ => Ok(MasterKey(Vec::new())),
+            binary::KdfParams::Unknown { .. } => Err(KeyGenerationError::UnimplementedKdfOptions(
+                kdf_options.clone(),
+            )),
         }
     }
 }
-- 
2.43.0


From b5b31699e778d7d203b6e015c910e0e5d8686252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:17:13 +0000
Subject: [PATCH 12/33] fix: refuse Argon2 options that cannot be used or
 stored

Argon2i has no identifier in the KDBX format, so saving with it panicked.
Memory and iteration counts over 32 bits were silently truncated, which
weakens the key.
---
 src/crypto.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/crypto.rs b/src/crypto.rs
index 433e48c..0a78384 100644
--- a/src/crypto.rs
+++ b/src/crypto.rs
@@ -74,13 +74,18 @@ impl ComposedKey {
                 lanes,
                 salt,
             } => {
+                let unsupported =
+                    || KeyGenerationError::UnimplementedKdfOptions(kdf_options.clone());
+                if *variant == argon2::Variant::Argon2i {
+                    return Err(unsupported());
+                }
                 let config = argon2::Config {
                     variant: *variant,
                     version: argon2::Version::from_u32(*version)
                         .map_err(|e| KeyGenerationError::KeyGeneration(e.to_string()))?,
                     lanes: *lanes,
-                    mem_cost: (memory_bytes / 1024) as u32,
-                    time_cost: *iterations as u32,
+                    mem_cost: u32::try_from(memory_bytes / 1024).map_err(|_| unsupported())?,
+                    time_cost: u32::try_from(*iterations).map_err(|_| unsupported())?,
                     ..Default::default()
                 };
                 let hash = argon2::hash_raw(&self.0, salt, &config)
-- 
2.43.0


From 3bb43a03a43f9b7330bc51edcb15a966007f49e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:17:13 +0000
Subject: [PATCH 13/33] fix: write locked archives as they were read

The header was serialised again, in another order and without the length and
fields that KDBX 3 needs. The copy could then not be opened, or failed its
header checks. The output was also never flushed, so a failure to store
buffered data went unreported.
---
 src/binary/kdbx.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/binary/kdbx.rs b/src/binary/kdbx.rs
index 5b8ed65..4051f19 100644
--- a/src/binary/kdbx.rs
+++ b/src/binary/kdbx.rs
@@ -281,19 +281,13 @@ impl KdbxState for Locked {
     }
 
     fn write<W: Write>(&self, mut output: W) -> Result<(), errors::WriteError> {
-        let mut header_buf = Vec::new();
-        let header_writer = &mut header_buf as &mut dyn Write;
-        header_writer.write_all(&super::KEEPASS_MAGIC_NUMBER.to_le_bytes())?;
-        header_writer.write_all(&super::KDBX_MAGIC_NUMBER.to_le_bytes())?;
-        header_writer.write_all(&self.minor_version.to_le_bytes())?;
-        header_writer.write_all(&self.major_version.to_le_bytes())?;
-        self.header.write(&mut header_buf)?;
-        output.write_all(&header_buf)?;
+        output.write_all(&self.header_data)?;
         if self.major_version >= 4 {
-            output.write_all(&crypto::sha256(&header_buf))?;
+            output.write_all(&crypto::sha256(&self.header_data))?;
             output.write_all(self.hmac.as_ref().unwrap())?;
         }
         output.write_all(&self.encrypted_data)?;
+        output.flush()?;
         Ok(())
     }
 }
-- 
2.43.0


From 16b96674ecec38c39f54df33715ae0f2c907ec06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:17:14 +0000
Subject: [PATCH 14/33] fix: refuse to save unlocked KDBX 3 archives

They were written with the structure of a KDBX 4 archive and the version
number of a KDBX 3 archive, which nothing can open. Report an error before
anything reaches the output instead.
---
 src/binary/kdbx.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/binary/kdbx.rs b/src/binary/kdbx.rs
index 4051f19..91c13e5 100644
--- a/src/binary/kdbx.rs
+++ b/src/binary/kdbx.rs
@@ -141,6 +141,12 @@ impl KdbxState for Unlocked {
     }
 
     fn write<W: Write>(&self, mut output: W) -> Result<(), errors::WriteError> {
+        if self.major_version < 4 {
+            return Err(errors::WriteError::Io(std::io::Error::new(
+                std::io::ErrorKind::InvalidInput,
+                "Saving KDBX 3 archives is not supported",
+            )));
+        }
         let master_key = self
             .master_key
             .as_ref()
-- 
2.43.0


From 6fe797842ff1cc7331597f4f20c6ed8afa70b577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:17:14 +0000
Subject: [PATCH 15/33] fix: encrypt before writing and flush the output of a
 save

A database that cannot be encrypted left a header without content in the
output. The output was never flushed, so a failure to store buffered data
was reported as a successful save.
---
 src/binary/kdbx.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/binary/kdbx.rs b/src/binary/kdbx.rs
index 91c13e5..34e1012 100644
--- a/src/binary/kdbx.rs
+++ b/src/binary/kdbx.rs
@@ -158,16 +158,17 @@ impl KdbxState for Unlocked {
         header_writer.write_all(&self.minor_version.to_le_bytes())?;
         header_writer.write_all(&self.major_version.to_le_bytes())?;
         self.header.write(&mut header_buf)?;
-        output.write_all(&header_buf)?;
-        output.write_all(&crypto::sha256(&header_buf))?;
+        let encrypted_xml = self.encrypt_inner(master_key)?;
         let hmac_key = master_key.hmac_key(&self.header.master_seed);
         let hmac = hmac_key
             .block_key(u64::MAX)
             .calculate_header_hmac(&header_buf)
             .map_err(|_| errors::WriteError::MissingKeys)?;
+        output.write_all(&header_buf)?;
+        output.write_all(&crypto::sha256(&header_buf))?;
         output.write_all(&hmac.into_bytes())?;
-        let encrypted_xml = self.encrypt_inner(master_key)?;
         output.write_all(&encrypted_xml)?;
+        output.flush()?;
         Ok(())
     }
 }
-- 
2.43.0


From 50e633269dd8ea99ff0182641b139ba20f0e1663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:17:43 +0000
Subject: [PATCH 16/33] fix: derive the key again when its options change
 before a save

Changing the key derivation options after setting a key wrote a header that
did not match the key, so the archive could never be opened again. A failing
set_key also left a new key half set, with the previous one still in use.
---
 src/binary/kdbx.rs | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/binary/kdbx.rs b/src/binary/kdbx.rs
index 34e1012..e419d6c 100644
--- a/src/binary/kdbx.rs
+++ b/src/binary/kdbx.rs
@@ -1,4 +1,4 @@
-use super::{errors, header};
+use super::{errors, header, header_fields};
 use crate::{crypto, database, stream};
 use std::io::{Read, Write};
 use std::ops::{Deref, DerefMut};
@@ -88,8 +88,8 @@ pub struct Unlocked {
     pub(crate) minor_version: u16,
     /// Master key used to derive other keys
     pub(crate) composed_key: Option<crypto::ComposedKey>,
-    /// Master key used to derive other keys
-    pub(crate) master_key: Option<crypto::MasterKey>,
+    /// Master key used to derive other keys, and the options it was derived with
+    pub(crate) master_key: Option<(crypto::MasterKey, header_fields::KdfParams)>,
     /// Unencrypted unparsed XML data
     pub(crate) xml_data: Option<Vec<u8>>,
     /// Actual password database data
@@ -147,10 +147,18 @@ impl KdbxState for Unlocked {
                 "Saving KDBX 3 archives is not supported",
             )));
         }
-        let master_key = self
-            .master_key
-            .as_ref()
-            .ok_or(errors::WriteError::MissingKeys)?;
+        let new_master_key;
+        let master_key = match (&self.master_key, &self.composed_key) {
+            (Some((key, params)), _) if *params == self.header.kdf_params => key,
+            (_, Some(composed_key)) => {
+                // The options changed since the key was set
+                new_master_key = composed_key
+                    .master_key(&self.header.kdf_params)
+                    .map_err(|e| std::io::Error::new(std::io::ErrorKind::InvalidInput, e))?;
+                &new_master_key
+            }
+            _ => return Err(errors::WriteError::MissingKeys),
+        };
         let mut header_buf = Vec::new();
         let header_writer = &mut header_buf as &mut dyn Write;
         header_writer.write_all(&super::KEEPASS_MAGIC_NUMBER.to_le_bytes())?;
@@ -189,9 +197,10 @@ impl Kdbx<Unlocked> {
         &mut self,
         key: crypto::CompositeKey,
     ) -> Result<(), crate::errors::KeyGenerationError> {
-        self.state.composed_key = Some(key.composed());
-        let composed_key = self.state.composed_key.as_ref().unwrap();
-        self.state.master_key = Some(composed_key.master_key(&self.header().kdf_params)?);
+        let composed_key = key.composed();
+        let kdf_params = self.header().kdf_params.clone();
+        self.state.master_key = Some((composed_key.master_key(&kdf_params)?, kdf_params));
+        self.state.composed_key = Some(composed_key);
 
         Ok(())
     }
@@ -376,11 +385,11 @@ impl Kdbx<Locked> {
             Ok((inner_header, data, db)) => Ok(Kdbx {
                 state: Unlocked {
                     inner_header,
+                    master_key: Some((master_key, self.state.header.kdf_params.clone())),
                     header: self.state.header,
                     major_version: self.state.major_version,
                     minor_version: self.state.minor_version,
                     composed_key: Some(composed_key),
-                    master_key: Some(master_key),
                     database: db,
                     xml_data: Some(data),
                 },
@@ -416,11 +425,11 @@ impl Kdbx<Locked> {
                 Ok((inner_header, data, db)) => Ok(Kdbx {
                     state: Unlocked {
                         inner_header,
+                        master_key: Some((master_key, self.state.header.kdf_params.clone())),
                         header: self.state.header,
                         major_version: self.state.major_version,
                         minor_version: self.state.minor_version,
                         composed_key: Some(composed_key),
-                        master_key: Some(master_key),
                         database: db,
                         xml_data: Some(data),
                     },
-- 
2.43.0


From a78cca7eb14003750a0a140ee6e389916d1f7114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:17:44 +0000
Subject: [PATCH 17/33] fix: use a new seed and IV for every save

Saving an archive more than once encrypted different content with the same
key and IV. With ChaCha20 that reveals the content to whoever has two saves,
and blocks of one save were accepted in another. It also makes the IV fit
the cipher when the cipher was changed.
---
 src/binary/header.rs | 15 ++++++++++++++-
 src/binary/kdbx.rs   | 24 +++++++++++++++---------
 2 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/src/binary/header.rs b/src/binary/header.rs
index 49e7052..f5373bc 100644
--- a/src/binary/header.rs
+++ b/src/binary/header.rs
@@ -321,7 +321,7 @@ impl KdbxHeaderBuilder {
     }
 }
 
-#[derive(Debug, PartialEq, Eq)]
+#[derive(Clone, Debug, PartialEq, Eq)]
 /// Unencrypted database configuration and custom data
 ///
 /// [`KdbxHeader::from_os_random()`] will provide a header with
@@ -382,6 +382,19 @@ impl KdbxHeader {
         }
     }
 
+    /// Replace the seed and IV, which must not be used to encrypt more than once
+    pub(crate) fn refresh_seeds(&mut self) -> std::io::Result<()> {
+        let iv_size = match self.cipher {
+            header_fields::Cipher::ChaCha20 => 12,
+            _ => 16,
+        };
+        self.master_seed = vec![0u8; 32];
+        self.encryption_iv = vec![0u8; iv_size];
+        OsRng.try_fill_bytes(&mut self.master_seed)?;
+        OsRng.try_fill_bytes(&mut self.encryption_iv)?;
+        Ok(())
+    }
+
     pub(crate) fn read<R: Read>(
         mut caching_reader: utils::CachingReader<R>,
         major_version: u16,
diff --git a/src/binary/kdbx.rs b/src/binary/kdbx.rs
index e419d6c..96389b0 100644
--- a/src/binary/kdbx.rs
+++ b/src/binary/kdbx.rs
@@ -97,15 +97,19 @@ pub struct Unlocked {
 }
 
 impl Unlocked {
-    fn encrypt_inner(&self, key: &crypto::MasterKey) -> Result<Vec<u8>, super::errors::WriteError> {
+    fn encrypt_inner(
+        &self,
+        header: &header::KdbxHeader,
+        key: &crypto::MasterKey,
+    ) -> Result<Vec<u8>, super::errors::WriteError> {
         let mut encrypted_buf = Vec::new();
         let mut encrypted_stream = crate::stream::kdbx4_write_stream(
             &mut encrypted_buf,
-            key.hmac_key(&self.header.master_seed),
-            key.cipher_key(&self.header.master_seed),
-            self.header.cipher,
-            &self.header.encryption_iv,
-            self.header.compression_type,
+            key.hmac_key(&header.master_seed),
+            key.cipher_key(&header.master_seed),
+            header.cipher,
+            &header.encryption_iv,
+            header.compression_type,
         )?;
         self.inner_header.write(&mut encrypted_stream)?;
         let mut stream_cipher = self
@@ -159,15 +163,17 @@ impl KdbxState for Unlocked {
             }
             _ => return Err(errors::WriteError::MissingKeys),
         };
+        let mut header = self.header.clone();
+        header.refresh_seeds()?;
         let mut header_buf = Vec::new();
         let header_writer = &mut header_buf as &mut dyn Write;
         header_writer.write_all(&super::KEEPASS_MAGIC_NUMBER.to_le_bytes())?;
         header_writer.write_all(&super::KDBX_MAGIC_NUMBER.to_le_bytes())?;
         header_writer.write_all(&self.minor_version.to_le_bytes())?;
         header_writer.write_all(&self.major_version.to_le_bytes())?;
-        self.header.write(&mut header_buf)?;
-        let encrypted_xml = self.encrypt_inner(master_key)?;
-        let hmac_key = master_key.hmac_key(&self.header.master_seed);
+        header.write(&mut header_buf)?;
+        let encrypted_xml = self.encrypt_inner(&header, master_key)?;
+        let hmac_key = master_key.hmac_key(&header.master_seed);
         let hmac = hmac_key
             .block_key(u64::MAX)
             .calculate_header_hmac(&header_buf)
-- 
2.43.0


From b66f27f88657aefc43abf4d6f37e166d9cffd293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:17:59 +0000
Subject: [PATCH 18/33] fix: verify the end of compressed archives

Reading stopped at the end of the compressed data, so the block that ends
the archive was never checked. An archive that was cut off after its last
data block was accepted.
---
 src/stream/hmac.rs     |  6 ++++++
 src/stream/pipeline.rs | 23 +++++++++++++++++++++--
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/stream/hmac.rs b/src/stream/hmac.rs
index 71769aa..313fdfd 100644
--- a/src/stream/hmac.rs
+++ b/src/stream/hmac.rs
@@ -11,6 +11,7 @@ where
     block_idx: u64,
     buf_idx: usize,
     buffer: Vec<u8>,
+    finished: bool,
     inner: R,
     hmac_key: HmacKey,
 }
@@ -21,12 +22,16 @@ impl<R: io::Read> HMacReader<R> {
             block_idx: 0,
             buf_idx: 0,
             buffer: Vec::new(),
+            finished: false,
             inner,
             hmac_key,
         }
     }
 
     fn buffer_next_block(&mut self) -> io::Result<usize> {
+        if self.finished {
+            return Ok(0);
+        }
         let mut hmac = [0u8; 32];
         self.inner.read_exact(&mut hmac)?;
         let mut len_buffer = [0u8; 4];
@@ -45,6 +50,7 @@ impl<R: io::Read> HMacReader<R> {
         }
         self.buf_idx = 0;
         self.block_idx += 1;
+        self.finished = len == 0;
         Ok(len)
     }
 }
diff --git a/src/stream/pipeline.rs b/src/stream/pipeline.rs
index e558271..d6702f9 100644
--- a/src/stream/pipeline.rs
+++ b/src/stream/pipeline.rs
@@ -34,6 +34,25 @@ where
     })
 }
 
+/// Decompresses data, then reads what follows it so that all of the input is verified
+struct GzipReader<R: io::Read>(libflate::gzip::Decoder<R>);
+
+impl<R: io::Read> GzipReader<R> {
+    fn new(inner: R) -> io::Result<GzipReader<R>> {
+        libflate::gzip::Decoder::new(inner).map(GzipReader)
+    }
+}
+
+impl<R: io::Read> io::Read for GzipReader<R> {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        let size = self.0.read(buf)?;
+        if size == 0 && !buf.is_empty() {
+            io::copy(self.0.as_inner_mut(), &mut io::sink())?;
+        }
+        Ok(size)
+    }
+}
+
 fn chacha20_cipher(key: &crypto::CipherKey, iv: &[u8]) -> io::Result<ChaCha20> {
     ChaCha20::new_from_slices(&key.0, iv).map_err(|_| {
         io::Error::new(
@@ -95,7 +114,7 @@ pub(crate) fn kdbx3_read_stream<'a, R: io::Read + 'a>(
     let verified = HashedBlockReader::new(decrypted);
     let decompressed: Box<dyn io::Read> = match compression {
         binary::CompressionType::None => Box::new(verified),
-        binary::CompressionType::Gzip => Box::new(libflate::gzip::Decoder::new(verified)?),
+        binary::CompressionType::Gzip => Box::new(GzipReader::new(verified)?),
         binary::CompressionType::Unknown(_) => {
             return Err(io::Error::new(
                 io::ErrorKind::InvalidInput,
@@ -120,7 +139,7 @@ pub(crate) fn kdbx4_read_stream<'a, R: io::Read + 'a>(
     let decrypted = decryption_stream(verified, cipher_key, cipher, iv)?;
     let decompressed: Box<dyn io::Read> = match compression {
         binary::CompressionType::None => Box::new(decrypted),
-        binary::CompressionType::Gzip => Box::new(libflate::gzip::Decoder::new(decrypted)?),
+        binary::CompressionType::Gzip => Box::new(GzipReader::new(decrypted)?),
         binary::CompressionType::Unknown(_) => {
             return Err(io::Error::new(
                 io::ErrorKind::InvalidInput,
-- 
2.43.0


From fc41622516c15b5ccf2a36e577f707d77bc36099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:18:27 +0000
Subject: [PATCH 19/33] fix: report XML without a KeePassFile element

The end of the document was waited for forever.
---
 src/xml/parse.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/xml/parse.rs b/src/xml/parse.rs
index 956fa02..a98f940 100644
--- a/src/xml/parse.rs
+++ b/src/xml/parse.rs
@@ -362,6 +362,9 @@ fn parse_file<R: Read, S: StreamCipher + ?Sized>(
                 db.meta = parse_meta(xml_event_reader, stream_cipher)?;
             }
             XmlEvent::EndElement { name, .. } if &name.local_name == "KeePassFile" => break,
+            XmlEvent::EndDocument => {
+                return Err(Error::Xml("KeePassFile element is missing".to_string()))
+            }
             _ => {}
         }
     }
-- 
2.43.0


From c6b69b3532cde4c41df0a9dff91f8220cc5801ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:18:28 +0000
Subject: [PATCH 20/33] fix: keep the default root group when the XML has no
 groups

Accessing the root group of such a database panicked.
---
 src/xml/parse.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/xml/parse.rs b/src/xml/parse.rs
index a98f940..ea32462 100644
--- a/src/xml/parse.rs
+++ b/src/xml/parse.rs
@@ -356,7 +356,11 @@ fn parse_file<R: Read, S: StreamCipher + ?Sized>(
     loop {
         match xml_event_reader.next()? {
             XmlEvent::StartElement { name, .. } if &name.local_name == "Root" => {
-                db.groups = parse_root(xml_event_reader, stream_cipher)?;
+                let groups = parse_root(xml_event_reader, stream_cipher)?;
+                // There is always a root group
+                if !groups.is_empty() {
+                    db.groups = groups;
+                }
             }
             XmlEvent::StartElement { name, .. } if &name.local_name == "Meta" => {
                 db.meta = parse_meta(xml_event_reader, stream_cipher)?;
-- 
2.43.0


From 2a6bd16676ee7bc7d4dc662363404b086757fb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:18:44 +0000
Subject: [PATCH 21/33] fix: skip unsupported XML elements as a whole

Children of elements this library does not know were read as if they
belonged to the surrounding element. Protected values inside them were not
decrypted, so every protected value after them came out wrong.
---
 src/xml/parse.rs | 105 ++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 90 insertions(+), 15 deletions(-)

diff --git a/src/xml/parse.rs b/src/xml/parse.rs
index ea32462..296f34f 100644
--- a/src/xml/parse.rs
+++ b/src/xml/parse.rs
@@ -8,6 +8,7 @@ use cipher::StreamCipher;
 use std::io::Read;
 use thiserror::Error;
 use uuid::Uuid;
+use xml::attribute::OwnedAttribute;
 use xml::reader::{EventReader, XmlEvent};
 
 #[derive(Debug, Error)]
@@ -99,6 +100,45 @@ fn parse_bool<R: Read>(xml_event_reader: &mut EventReader<R>) -> Result<bool> {
         .unwrap_or_default())
 }
 
+fn is_protected(attributes: &[OwnedAttribute]) -> bool {
+    attributes
+        .iter()
+        .any(|attr| attr.name.local_name == "Protected" && attr.value.to_lowercase() == "true")
+}
+
+/// Skip the rest of an element not supported by this library
+///
+/// All protected values share one stream, so those inside the element have to be decrypted.
+fn skip_element<R: Read, S: StreamCipher + ?Sized>(
+    xml_event_reader: &mut EventReader<R>,
+    attributes: &[OwnedAttribute],
+    stream_cipher: &mut S,
+) -> Result<()> {
+    let mut open_elements = vec![(is_protected(attributes), String::new())];
+    while let Some((protected, content)) = open_elements.last_mut() {
+        match xml_event_reader.next()? {
+            XmlEvent::StartElement { attributes, .. } => {
+                open_elements.push((is_protected(&attributes), String::new()));
+            }
+            XmlEvent::Characters(chardata) if *protected => content.push_str(&chardata),
+            XmlEvent::EndElement { name } => {
+                if *protected {
+                    let decrypt_failed = || Error::DecryptFailed(name.local_name.clone());
+                    let mut decoded = BASE64_STANDARD
+                        .decode(content.trim())
+                        .map_err(|_| decrypt_failed())?;
+                    stream_cipher
+                        .try_apply_keystream(decoded.as_mut())
+                        .map_err(|_| decrypt_failed())?;
+                }
+                open_elements.pop();
+            }
+            _ => {}
+        }
+    }
+    Ok(())
+}
+
 fn parse_field<R: Read, S: StreamCipher + ?Sized>(
     xml_event_reader: &mut EventReader<R>,
     tag_name: &str,
@@ -115,9 +155,7 @@ fn parse_field<R: Read, S: StreamCipher + ?Sized>(
             XmlEvent::StartElement {
                 name, attributes, ..
             } if &name.local_name == "Value" => {
-                let protected = attributes.iter().any(|attr| {
-                    attr.name.local_name == "Protected" && attr.value.to_lowercase() == "true"
-                });
+                let protected = is_protected(&attributes);
                 field.value = if let Some(contents) = parse_string(xml_event_reader)? {
                     if protected {
                         // Would be nice to avoid the clone but it gets moved into the map_err closure
@@ -147,6 +185,9 @@ fn parse_field<R: Read, S: StreamCipher + ?Sized>(
                     Value::Empty
                 }
             }
+            XmlEvent::StartElement { attributes, .. } => {
+                skip_element(xml_event_reader, &attributes, stream_cipher)?;
+            }
             XmlEvent::EndElement { name, .. } if name.local_name == tag_name => break,
             _ => {}
         }
@@ -164,6 +205,9 @@ fn parse_history<R: Read, S: StreamCipher + ?Sized>(
             XmlEvent::StartElement { name, .. } if &name.local_name == "Entry" => {
                 history.push(parse_entry(xml_event_reader, stream_cipher)?);
             }
+            XmlEvent::StartElement { attributes, .. } => {
+                skip_element(xml_event_reader, &attributes, stream_cipher)?;
+            }
             XmlEvent::EndElement { name, .. } if &name.local_name == "History" => break,
             _ => {}
         }
@@ -171,11 +215,16 @@ fn parse_history<R: Read, S: StreamCipher + ?Sized>(
     Ok(history)
 }
 
-fn parse_times<R: Read>(xml_event_reader: &mut EventReader<R>) -> Result<Times> {
+fn parse_times<R: Read, S: StreamCipher + ?Sized>(
+    xml_event_reader: &mut EventReader<R>,
+    stream_cipher: &mut S,
+) -> Result<Times> {
     let mut times = Times::default();
     loop {
         match xml_event_reader.next()? {
-            XmlEvent::StartElement { name, .. } => {
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } => {
                 if &name.local_name == "LastModificationTime" {
                     times.last_modification_time = parse_datetime(xml_event_reader)?;
                 } else if &name.local_name == "LastAccessTime" {
@@ -190,6 +239,8 @@ fn parse_times<R: Read>(xml_event_reader: &mut EventReader<R>) -> Result<Times>
                     times.expires = parse_bool(xml_event_reader)?;
                 } else if &name.local_name == "UsageCount" {
                     times.usage_count = parse_u32(xml_event_reader)?.unwrap_or_default();
+                } else {
+                    skip_element(xml_event_reader, &attributes, stream_cipher)?;
                 }
             }
             XmlEvent::EndElement { name, .. } if &name.local_name == "Times" => break,
@@ -206,7 +257,9 @@ fn parse_entry<R: Read, S: StreamCipher + ?Sized>(
     let mut entry = Entry::default();
     loop {
         match xml_event_reader.next()? {
-            XmlEvent::StartElement { name, .. } => {
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } => {
                 if &name.local_name == "History" {
                     entry.history = parse_history(xml_event_reader, stream_cipher)?;
                 } else if &name.local_name == "String" {
@@ -214,7 +267,9 @@ fn parse_entry<R: Read, S: StreamCipher + ?Sized>(
                 } else if &name.local_name == "UUID" {
                     entry.set_uuid(parse_uuid(xml_event_reader)?);
                 } else if &name.local_name == "Times" {
-                    entry.times = parse_times(xml_event_reader)?;
+                    entry.times = parse_times(xml_event_reader, stream_cipher)?;
+                } else {
+                    skip_element(xml_event_reader, &attributes, stream_cipher)?;
                 }
             }
             XmlEvent::EndElement { name, .. } if &name.local_name == "Entry" => break,
@@ -231,7 +286,9 @@ fn parse_group<R: Read, S: StreamCipher + ?Sized>(
     let mut group = Group::default();
     loop {
         match xml_event_reader.next()? {
-            XmlEvent::StartElement { name, .. } => {
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } => {
                 if &name.local_name == "Group" {
                     group.add_group(parse_group(xml_event_reader, stream_cipher)?);
                 } else if &name.local_name == "Entry" {
@@ -241,7 +298,9 @@ fn parse_group<R: Read, S: StreamCipher + ?Sized>(
                 } else if &name.local_name == "Name" {
                     group.set_name(parse_string(xml_event_reader)?.unwrap_or_default());
                 } else if &name.local_name == "Times" {
-                    group.times = parse_times(xml_event_reader)?;
+                    group.times = parse_times(xml_event_reader, stream_cipher)?;
+                } else {
+                    skip_element(xml_event_reader, &attributes, stream_cipher)?;
                 }
             }
             XmlEvent::EndElement { name, .. } if &name.local_name == "Group" => break,
@@ -261,6 +320,9 @@ fn parse_root<R: Read, S: StreamCipher + ?Sized>(
             XmlEvent::StartElement { name, .. } if &name.local_name == "Group" => {
                 groups.push(parse_group(xml_event_reader, stream_cipher)?);
             }
+            XmlEvent::StartElement { attributes, .. } => {
+                skip_element(xml_event_reader, &attributes, stream_cipher)?;
+            }
             XmlEvent::EndElement { name, .. } if &name.local_name == "Root" => break,
             _ => {}
         }
@@ -278,6 +340,9 @@ fn parse_custom_data<R: Read, S: StreamCipher + ?Sized>(
             XmlEvent::StartElement { name, .. } if &name.local_name == "Item" => {
                 fields.push(parse_field(xml_event_reader, "Item", stream_cipher)?);
             }
+            XmlEvent::StartElement { attributes, .. } => {
+                skip_element(xml_event_reader, &attributes, stream_cipher)?;
+            }
             XmlEvent::EndElement { name, .. } if &name.local_name == "CustomData" => break,
             _ => {}
         }
@@ -285,13 +350,16 @@ fn parse_custom_data<R: Read, S: StreamCipher + ?Sized>(
     Ok(fields)
 }
 
-fn parse_memory_protection<R: Read>(
+fn parse_memory_protection<R: Read, S: StreamCipher + ?Sized>(
     xml_event_reader: &mut EventReader<R>,
+    stream_cipher: &mut S,
 ) -> Result<MemoryProtection> {
     let mut protection = MemoryProtection::default();
     loop {
         match xml_event_reader.next()? {
-            XmlEvent::StartElement { name, .. } => match name.local_name.as_ref() {
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } => match name.local_name.as_ref() {
                 "ProtectTitle" => {
                     protection.protect_title = parse_bool(xml_event_reader)?;
                 }
@@ -307,7 +375,7 @@ fn parse_memory_protection<R: Read>(
                 "ProtectNotes" => {
                     protection.protect_notes = parse_bool(xml_event_reader)?;
                 }
-                _ => {}
+                _ => skip_element(xml_event_reader, &attributes, stream_cipher)?,
             },
             XmlEvent::EndElement { name, .. } if &name.local_name == "MemoryProtection" => break,
             _ => {}
@@ -323,7 +391,9 @@ fn parse_meta<R: Read, S: StreamCipher + ?Sized>(
     let mut meta = Meta::default();
     loop {
         match xml_event_reader.next()? {
-            XmlEvent::StartElement { name, .. } => match name.local_name.as_ref() {
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } => match name.local_name.as_ref() {
                 "Generator" => {
                     meta.generator = parse_string(xml_event_reader)?.unwrap_or_default();
                 }
@@ -337,9 +407,10 @@ fn parse_meta<R: Read, S: StreamCipher + ?Sized>(
                     meta.custom_data = parse_custom_data(xml_event_reader, stream_cipher)?;
                 }
                 "MemoryProtection" => {
-                    meta.memory_protection = parse_memory_protection(xml_event_reader)?;
+                    meta.memory_protection =
+                        parse_memory_protection(xml_event_reader, stream_cipher)?;
                 }
-                _ => {}
+                _ => skip_element(xml_event_reader, &attributes, stream_cipher)?,
             },
             XmlEvent::EndElement { name, .. } if &name.local_name == "Meta" => break,
             _ => {}
@@ -365,6 +436,10 @@ fn parse_file<R: Read, S: StreamCipher + ?Sized>(
             XmlEvent::StartElement { name, .. } if &name.local_name == "Meta" => {
                 db.meta = parse_meta(xml_event_reader, stream_cipher)?;
             }
+            XmlEvent::StartElement { name, .. } if &name.local_name == "KeePassFile" => {}
+            XmlEvent::StartElement { attributes, .. } => {
+                skip_element(xml_event_reader, &attributes, stream_cipher)?;
+            }
             XmlEvent::EndElement { name, .. } if &name.local_name == "KeePassFile" => break,
             XmlEvent::EndDocument => {
                 return Err(Error::Xml("KeePassFile element is missing".to_string()))
-- 
2.43.0


From fd4682476e9a9cb0931c262b2fb58abdc8c92c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:19:18 +0000
Subject: [PATCH 22/33] fix: flush the output of an XML export

A failure to store buffered data was reported as a successful export.
---
 src/xml/serialize.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/xml/serialize.rs b/src/xml/serialize.rs
index 99c25f7..8029d4d 100644
--- a/src/xml/serialize.rs
+++ b/src/xml/serialize.rs
@@ -218,5 +218,9 @@ pub fn write_xml<W: Write, S: StreamCipher + ?Sized>(
     }
     writer.write(XmlEvent::end_element())?;
     writer.write(XmlEvent::end_element())?;
+    writer
+        .into_inner()
+        .flush()
+        .map_err(xml::writer::Error::from)?;
     Ok(())
 }
-- 
2.43.0


From 8606bfba6cc0ebf7f53ef5d1bfe856f902b67f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:19:26 +0000
Subject: [PATCH 23/33] fix: keep carriage returns in saved text

They were written literally, and every conforming XML reader turns them into
line feeds. Other clients saw different passwords and notes.
---
 src/xml/serialize.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/xml/serialize.rs b/src/xml/serialize.rs
index 8029d4d..62c0398 100644
--- a/src/xml/serialize.rs
+++ b/src/xml/serialize.rs
@@ -4,6 +4,7 @@ use base64::prelude::{Engine, BASE64_STANDARD};
 use cipher::StreamCipher;
 use std::io::Write;
 use thiserror::Error;
+use xml::escape::escape_str_pcdata;
 use xml::writer::events::XmlEvent;
 use xml::writer::EventWriter as XmlWriter;
 
@@ -54,8 +55,10 @@ fn write_string_tag<W: Write, S: AsRef<str>>(
     value: S,
 ) -> Result<()> {
     check_text(value.as_ref())?;
+    // Readers turn literal carriage returns into line feeds
+    let escaped = escape_str_pcdata(value.as_ref()).replace('\r', "&#xD;");
     writer.write(XmlEvent::start_element(name))?;
-    writer.write(XmlEvent::characters(value.as_ref()))?;
+    writer.write(XmlEvent::characters(&escaped))?;
     writer.write(XmlEvent::end_element())?;
     Ok(())
 }
@@ -206,9 +209,10 @@ pub fn write_xml<W: Write, S: StreamCipher + ?Sized>(
     database: &Database,
     stream_cipher: &mut S,
 ) -> Result<()> {
-    let config = xml::EmitterConfig::default()
+    let mut config = xml::EmitterConfig::default()
         .perform_indent(true)
         .indent_string("\t");
+    config.perform_escaping = false; // Done in write_string_tag
     let mut writer = xml::EventWriter::new_with_config(output, config);
     writer.write(XmlEvent::start_element("KeePassFile"))?;
     write_meta(&mut writer, &database.meta, stream_cipher)?;
-- 
2.43.0


From e24ccb383f6c59fef2a1793d9cb8c893ae9e7b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:19:27 +0000
Subject: [PATCH 24/33] fix: read line breaks in XML as line feeds

Clients on Windows write line breaks as carriage return and line feed, which
XML defines as a single line feed. The carriage returns ended up in values.
---
 src/xml/parse.rs | 44 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/src/xml/parse.rs b/src/xml/parse.rs
index 296f34f..86b1b27 100644
--- a/src/xml/parse.rs
+++ b/src/xml/parse.rs
@@ -450,6 +450,44 @@ fn parse_file<R: Read, S: StreamCipher + ?Sized>(
     Ok(db)
 }
 
+/// Turns literal line breaks into line feeds, as XML requires before parsing
+struct LineFeedReader<R: Read> {
+    inner: R,
+    is_first: bool,
+    is_utf16: bool,
+    after_cr: bool,
+}
+
+impl<R: Read> Read for LineFeedReader<R> {
+    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
+        loop {
+            let size = self.inner.read(buf)?;
+            if size == 0 {
+                return Ok(0);
+            }
+            if self.is_first {
+                self.is_utf16 = matches!(buf[0], 0xFE | 0xFF);
+                self.is_first = false;
+            }
+            if self.is_utf16 {
+                return Ok(size);
+            }
+            let mut kept = 0;
+            for i in 0..size {
+                let byte = buf[i];
+                if !(byte == b'\n' && self.after_cr) {
+                    buf[kept] = if byte == b'\r' { b'\n' } else { byte };
+                    kept += 1;
+                }
+                self.after_cr = byte == b'\r';
+            }
+            if kept > 0 {
+                return Ok(kept);
+            }
+        }
+    }
+}
+
 /// Parse decrypted XML into a database
 ///
 /// If you need to obtain a stream cipher, consider using
@@ -464,6 +502,12 @@ pub fn parse_xml<R: Read, S: StreamCipher + ?Sized>(
         .trim_whitespace(false)
         .whitespace_to_characters(true)
         .cdata_to_characters(true);
+    let xml_data = LineFeedReader {
+        inner: xml_data,
+        is_first: true,
+        is_utf16: false,
+        after_cr: false,
+    };
     let mut xml_event_reader = EventReader::new_with_config(xml_data, xml_config);
     parse_file(&mut xml_event_reader, stream_cipher)
 }
-- 
2.43.0


From 4cd383b16f7348448ab5c8094e52c7dce7e65b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:19:52 +0000
Subject: [PATCH 25/33] fix: read the period of a one time password from its
 own parameter

The secret was parsed in place of the period.
---
 src/database.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/database.rs b/src/database.rs
index 587d623..0620443 100644
--- a/src/database.rs
+++ b/src/database.rs
@@ -908,7 +908,7 @@ impl<'a> Otp<'a> {
 
     /// Return the period for which passwords are valid
     pub fn period(&self) -> Option<u32> {
-        self.find_url_param("secret").and_then(|p| p.parse().ok())
+        self.find_url_param("period").and_then(|p| p.parse().ok())
     }
 
     /// Return the number of digits in the resulting code
-- 
2.43.0


From 378e55a5694d17888ab6bae5e4d8c174404d78f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:19:52 +0000
Subject: [PATCH 26/33] fix: record the times of new items in UTC

KDBX times are in UTC, but the local time was stored as if it was UTC.
---
 src/database.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/database.rs b/src/database.rs
index 0620443..b64de1f 100644
--- a/src/database.rs
+++ b/src/database.rs
@@ -752,10 +752,7 @@ pub struct Times {
 
 impl Default for Times {
     fn default() -> Times {
-        let now = chrono::Local::now()
-            .naive_local()
-            .with_nanosecond(0)
-            .unwrap();
+        let now = chrono::Utc::now().naive_utc().with_nanosecond(0).unwrap();
         Times {
             expires: false,
             usage_count: 0,
-- 
2.43.0


From acf7d5138f03b1a9a300206d88a3799260d61cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:19:53 +0000
Subject: [PATCH 27/33] fix: keep protection when setting title, username or
 URL

Setting one of these dropped the protection of an existing field.
---
 src/database.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/database.rs b/src/database.rs
index b64de1f..43d6b00 100644
--- a/src/database.rs
+++ b/src/database.rs
@@ -364,7 +364,7 @@ impl Entry {
     pub fn set_title<S: ToString>(&mut self, title: S) {
         let title = title.to_string();
         match self.find_mut("Title") {
-            Some(f) => f.value = Value::Standard(title),
+            Some(f) => f.set_value(&title),
             None => self.fields.push(Field::new("Title", &title)),
         }
     }
@@ -378,7 +378,7 @@ impl Entry {
     pub fn set_username<S: ToString>(&mut self, username: S) {
         let username = username.to_string();
         match self.find_mut("UserName") {
-            Some(f) => f.value = Value::Standard(username),
+            Some(f) => f.set_value(&username),
             None => self.fields.push(Field::new("UserName", &username)),
         }
     }
@@ -392,7 +392,7 @@ impl Entry {
     pub fn set_url<S: ToString>(&mut self, url: S) {
         let url = url.to_string();
         match self.find_mut("URL") {
-            Some(f) => f.value = Value::Standard(url),
+            Some(f) => f.set_value(&url),
             None => self.fields.push(Field::new("URL", &url)),
         }
     }
-- 
2.43.0


From e02a51a33c1671c8725b6218aea903b68076817d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:20:39 +0000
Subject: [PATCH 28/33] fix: limit how deep groups and histories may be nested

Every level is a recursive call, so deeply nested XML overflowed the stack
and ended the process. Nesting of more than 128 levels is now an error when
reading and when saving.
---
 src/xml.rs           |  3 +++
 src/xml/parse.rs     | 24 +++++++++++++++++++-----
 src/xml/serialize.rs | 21 +++++++++++++++++----
 3 files changed, 39 insertions(+), 9 deletions(-)

diff --git a/src/xml.rs b/src/xml.rs
index 357a44a..4814ccc 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -1,5 +1,8 @@
 //! Work directly with the KDBX decrypted inner XML format
 
+/// Most levels that groups or entry history may be nested, to bound the stack in use
+pub(crate) const MAX_NESTING: usize = 128;
+
 mod decoders;
 pub(crate) mod parse;
 pub(crate) mod serialize;
diff --git a/src/xml/parse.rs b/src/xml/parse.rs
index 86b1b27..4482426 100644
--- a/src/xml/parse.rs
+++ b/src/xml/parse.rs
@@ -1,4 +1,5 @@
 use super::decoders::{decode_datetime, decode_uuid};
+use super::MAX_NESTING;
 use crate::database::{
     Database, Entry, Field, Group, History, MemoryProtection, Meta, Times, Value,
 };
@@ -195,15 +196,24 @@ fn parse_field<R: Read, S: StreamCipher + ?Sized>(
     Ok(field)
 }
 
+fn check_nesting(nesting: usize) -> Result<()> {
+    if nesting < MAX_NESTING {
+        Ok(())
+    } else {
+        Err(Error::Xml("Too many nested elements".to_string()))
+    }
+}
+
 fn parse_history<R: Read, S: StreamCipher + ?Sized>(
     xml_event_reader: &mut EventReader<R>,
     stream_cipher: &mut S,
+    nesting: usize,
 ) -> Result<History> {
     let mut history = History::default();
     loop {
         match xml_event_reader.next()? {
             XmlEvent::StartElement { name, .. } if &name.local_name == "Entry" => {
-                history.push(parse_entry(xml_event_reader, stream_cipher)?);
+                history.push(parse_entry(xml_event_reader, stream_cipher, nesting)?);
             }
             XmlEvent::StartElement { attributes, .. } => {
                 skip_element(xml_event_reader, &attributes, stream_cipher)?;
@@ -253,7 +263,9 @@ fn parse_times<R: Read, S: StreamCipher + ?Sized>(
 fn parse_entry<R: Read, S: StreamCipher + ?Sized>(
     xml_event_reader: &mut EventReader<R>,
     stream_cipher: &mut S,
+    nesting: usize,
 ) -> Result<Entry> {
+    check_nesting(nesting)?;
     let mut entry = Entry::default();
     loop {
         match xml_event_reader.next()? {
@@ -261,7 +273,7 @@ fn parse_entry<R: Read, S: StreamCipher + ?Sized>(
                 name, attributes, ..
             } => {
                 if &name.local_name == "History" {
-                    entry.history = parse_history(xml_event_reader, stream_cipher)?;
+                    entry.history = parse_history(xml_event_reader, stream_cipher, nesting + 1)?;
                 } else if &name.local_name == "String" {
                     entry.add_field(parse_field(xml_event_reader, "String", stream_cipher)?);
                 } else if &name.local_name == "UUID" {
@@ -282,7 +294,9 @@ fn parse_entry<R: Read, S: StreamCipher + ?Sized>(
 fn parse_group<R: Read, S: StreamCipher + ?Sized>(
     xml_event_reader: &mut EventReader<R>,
     stream_cipher: &mut S,
+    nesting: usize,
 ) -> Result<Group> {
+    check_nesting(nesting)?;
     let mut group = Group::default();
     loop {
         match xml_event_reader.next()? {
@@ -290,9 +304,9 @@ fn parse_group<R: Read, S: StreamCipher + ?Sized>(
                 name, attributes, ..
             } => {
                 if &name.local_name == "Group" {
-                    group.add_group(parse_group(xml_event_reader, stream_cipher)?);
+                    group.add_group(parse_group(xml_event_reader, stream_cipher, nesting + 1)?);
                 } else if &name.local_name == "Entry" {
-                    group.add_entry(parse_entry(xml_event_reader, stream_cipher)?);
+                    group.add_entry(parse_entry(xml_event_reader, stream_cipher, 0)?);
                 } else if &name.local_name == "UUID" {
                     group.set_uuid(parse_uuid(xml_event_reader)?);
                 } else if &name.local_name == "Name" {
@@ -318,7 +332,7 @@ fn parse_root<R: Read, S: StreamCipher + ?Sized>(
     loop {
         match xml_event_reader.next()? {
             XmlEvent::StartElement { name, .. } if &name.local_name == "Group" => {
-                groups.push(parse_group(xml_event_reader, stream_cipher)?);
+                groups.push(parse_group(xml_event_reader, stream_cipher, 0)?);
             }
             XmlEvent::StartElement { attributes, .. } => {
                 skip_element(xml_event_reader, &attributes, stream_cipher)?;
diff --git a/src/xml/serialize.rs b/src/xml/serialize.rs
index 62c0398..f98e601 100644
--- a/src/xml/serialize.rs
+++ b/src/xml/serialize.rs
@@ -1,4 +1,5 @@
 use super::decoders::{encode_datetime, encode_uuid};
+use super::MAX_NESTING;
 use crate::database::{Database, Entry, Field, Group, MemoryProtection, Meta, Times, Value};
 use base64::prelude::{Engine, BASE64_STANDARD};
 use cipher::StreamCipher;
@@ -157,11 +158,21 @@ fn write_times<W: Write>(writer: &mut XmlWriter<W>, times: &Times) -> Result<()>
     Ok(())
 }
 
+fn check_nesting(nesting: usize) -> Result<()> {
+    if nesting < MAX_NESTING {
+        Ok(())
+    } else {
+        Err(invalid_content("Too many nested items".to_string()))
+    }
+}
+
 fn write_entry<W: Write, S: StreamCipher + ?Sized>(
     writer: &mut XmlWriter<W>,
     entry: &Entry,
     stream_cipher: &mut S,
+    nesting: usize,
 ) -> Result<()> {
+    check_nesting(nesting)?;
     writer.write(XmlEvent::start_element("Entry"))?;
     write_string_tag(writer, "UUID", &encode_uuid(entry.uuid()))?;
     write_times(writer, &entry.times)?;
@@ -171,7 +182,7 @@ fn write_entry<W: Write, S: StreamCipher + ?Sized>(
     if !entry.history.is_empty() {
         writer.write(XmlEvent::start_element("History"))?;
         for old_entry in entry.history.entries() {
-            write_entry(writer, old_entry, stream_cipher)?;
+            write_entry(writer, old_entry, stream_cipher, nesting + 1)?;
         }
         writer.write(XmlEvent::end_element())?;
     }
@@ -183,16 +194,18 @@ fn write_group<W: Write, S: StreamCipher + ?Sized>(
     writer: &mut XmlWriter<W>,
     group: &Group,
     stream_cipher: &mut S,
+    nesting: usize,
 ) -> Result<()> {
+    check_nesting(nesting)?;
     writer.write(XmlEvent::start_element("Group"))?;
     write_string_tag(writer, "UUID", encode_uuid(group.uuid()))?;
     write_string_tag(writer, "Name", group.name())?;
     write_times(writer, &group.times)?;
     for entry in group.entries() {
-        write_entry(writer, entry, stream_cipher)?;
+        write_entry(writer, entry, stream_cipher, 0)?;
     }
     for group in group.groups() {
-        write_group(writer, group, stream_cipher)?;
+        write_group(writer, group, stream_cipher, nesting + 1)?;
     }
     writer.write(XmlEvent::end_element())?;
     Ok(())
@@ -218,7 +231,7 @@ pub fn write_xml<W: Write, S: StreamCipher + ?Sized>(
     write_meta(&mut writer, &database.meta, stream_cipher)?;
     writer.write(XmlEvent::start_element("Root"))?;
     for group in &database.groups {
-        write_group(&mut writer, group, stream_cipher)?;
+        write_group(&mut writer, group, stream_cipher, 0)?;
     }
     writer.write(XmlEvent::end_element())?;
     writer.write(XmlEvent::end_element())?;
-- 
2.43.0


From c196beff44603f515665e7220238eb3b7c0cd222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:20:40 +0000
Subject: [PATCH 29/33] fix: check the header hash of KDBX 3 archives

The XML of a KDBX 3 archive has a hash of the header, which is not protected
by anything else. Damage to the header that did not affect decryption was
not noticed.
---
 src/binary/kdbx.rs | 12 +++++++++++-
 src/xml/parse.rs   | 19 ++++++++++++++++---
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/binary/kdbx.rs b/src/binary/kdbx.rs
index 96389b0..9740e29 100644
--- a/src/binary/kdbx.rs
+++ b/src/binary/kdbx.rs
@@ -1,5 +1,6 @@
 use super::{errors, header, header_fields};
 use crate::{crypto, database, stream};
+use base64::prelude::{Engine, BASE64_STANDARD};
 use std::io::{Read, Write};
 use std::ops::{Deref, DerefMut};
 
@@ -384,7 +385,16 @@ impl Kdbx<Locked> {
                 let mut stream_cipher = inner_header
                     .inner_stream_cipher
                     .stream_cipher(inner_header.inner_stream_key.as_ref())?;
-                let parsed = crate::xml::parse_xml(data.as_slice(), stream_cipher.as_mut())?;
+                let (parsed, header_hash) = crate::xml::parse::parse_xml_and_header_hash(
+                    data.as_slice(),
+                    stream_cipher.as_mut(),
+                )?;
+                if let Some(hash) = header_hash {
+                    let expected = BASE64_STANDARD.encode(crypto::sha256(&self.state.header_data));
+                    if hash != expected {
+                        return Err(errors::HeaderError::ChecksumFailed.into());
+                    }
+                }
                 Ok((inner_header, data, parsed))
             });
         match parsed {
diff --git a/src/xml/parse.rs b/src/xml/parse.rs
index 4482426..9d3a29d 100644
--- a/src/xml/parse.rs
+++ b/src/xml/parse.rs
@@ -401,6 +401,7 @@ fn parse_memory_protection<R: Read, S: StreamCipher + ?Sized>(
 fn parse_meta<R: Read, S: StreamCipher + ?Sized>(
     xml_event_reader: &mut EventReader<R>,
     stream_cipher: &mut S,
+    header_hash: &mut Option<String>,
 ) -> Result<Meta> {
     let mut meta = Meta::default();
     loop {
@@ -411,6 +412,9 @@ fn parse_meta<R: Read, S: StreamCipher + ?Sized>(
                 "Generator" => {
                     meta.generator = parse_string(xml_event_reader)?.unwrap_or_default();
                 }
+                "HeaderHash" => {
+                    *header_hash = parse_token(xml_event_reader)?;
+                }
                 "DatabaseName" => {
                     meta.database_name = parse_string(xml_event_reader)?.unwrap_or_default();
                 }
@@ -436,8 +440,9 @@ fn parse_meta<R: Read, S: StreamCipher + ?Sized>(
 fn parse_file<R: Read, S: StreamCipher + ?Sized>(
     xml_event_reader: &mut EventReader<R>,
     stream_cipher: &mut S,
-) -> Result<Database> {
+) -> Result<(Database, Option<String>)> {
     let mut db = Database::default();
+    let mut header_hash = None;
     loop {
         match xml_event_reader.next()? {
             XmlEvent::StartElement { name, .. } if &name.local_name == "Root" => {
@@ -448,7 +453,7 @@ fn parse_file<R: Read, S: StreamCipher + ?Sized>(
                 }
             }
             XmlEvent::StartElement { name, .. } if &name.local_name == "Meta" => {
-                db.meta = parse_meta(xml_event_reader, stream_cipher)?;
+                db.meta = parse_meta(xml_event_reader, stream_cipher, &mut header_hash)?;
             }
             XmlEvent::StartElement { name, .. } if &name.local_name == "KeePassFile" => {}
             XmlEvent::StartElement { attributes, .. } => {
@@ -461,7 +466,7 @@ fn parse_file<R: Read, S: StreamCipher + ?Sized>(
             _ => {}
         }
     }
-    Ok(db)
+    Ok((db, header_hash))
 }
 
 /// Turns literal line breaks into line feeds, as XML requires before parsing
@@ -512,6 +517,14 @@ pub fn parse_xml<R: Read, S: StreamCipher + ?Sized>(
     xml_data: R,
     stream_cipher: &mut S,
 ) -> Result<Database> {
+    parse_xml_and_header_hash(xml_data, stream_cipher).map(|(db, _)| db)
+}
+
+/// Parse decrypted XML into a database and the base64 hash of the outer header, if it has one
+pub(crate) fn parse_xml_and_header_hash<R: Read, S: StreamCipher + ?Sized>(
+    xml_data: R,
+    stream_cipher: &mut S,
+) -> Result<(Database, Option<String>)> {
     let xml_config = xml::ParserConfig::new()
         .trim_whitespace(false)
         .whitespace_to_characters(true)
-- 
2.43.0


From 18bf9e03c8a88d8243fa77d8b826538b37d850e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:44:25 +0000
Subject: [PATCH 30/33] fix: keep the padding of one-time password secrets

The value of an OTP URL parameter ended at its first '=', so a padded
base32 secret lost its padding when read.
---
 src/database.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/database.rs b/src/database.rs
index 43d6b00..27cd415 100644
--- a/src/database.rs
+++ b/src/database.rs
@@ -889,7 +889,7 @@ impl<'a> Otp<'a> {
         let params = params.split('&');
 
         for param in params {
-            let mut param_parts = param.split('=');
+            let mut param_parts = param.splitn(2, '=');
             let pkey = param_parts.next()?;
             if pkey == key {
                 return param_parts.next();
-- 
2.43.0


From 38279d2664df51504ff368cb01d4e4cd1d168af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:24:28 +0000
Subject: [PATCH 31/33] fix: do not print to the standard streams while reading
 a header

Printing panics when the stream cannot be written, for example when the
reader of a pipe has gone. The reason is now part of the error.
---
 src/binary/header.rs       | 3 +--
 src/binary/variant_dict.rs | 3 ---
 2 files changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/binary/header.rs b/src/binary/header.rs
index f5373bc..41be43d 100644
--- a/src/binary/header.rs
+++ b/src/binary/header.rs
@@ -234,10 +234,9 @@ impl KdbxHeaderBuilder {
                 self.kdf_params = match variant_dict::parse_variant_dict(&*header.data) {
                     Ok(vdict) => Some(vdict.try_into()?),
                     Err(e) => {
-                        println!("Malformed field: {}", e);
                         return Err(Error::MalformedField(
                             OuterHeaderId::KdfParameters,
-                            "Corrupt variant dictionary".into(),
+                            format!("Corrupt variant dictionary: {}", e),
                         ));
                     }
                 };
diff --git a/src/binary/variant_dict.rs b/src/binary/variant_dict.rs
index a4fcbae..e1277c5 100644
--- a/src/binary/variant_dict.rs
+++ b/src/binary/variant_dict.rs
@@ -179,9 +179,6 @@ pub(crate) fn parse_variant_dict<T: Read>(mut input: T) -> Result<VariantDict> {
     while ty != 0 {
         match parse_variant_dict_entry(ty, &mut input) {
             Ok((key, value)) => {
-                if let Value::Unknown(ty, _) = value {
-                    eprintln!("Warning: Unknown field type {:?}", ty)
-                }
                 map.insert(key, value);
             }
             Err(e) => return Err(e),
-- 
2.43.0


From dbade52fd198c1e5a0a5d4b3ed4726afd82a0ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:18:37 +0000
Subject: [PATCH 32/33] fix: show the usage of the command line programs when
 called without a file

---
 src/bin/kdbx_decrypt.rs     | 3 ++-
 src/bin/kdbx_dump_header.rs | 3 ++-
 src/bin/kdbx_parse.rs       | 5 +++--
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/bin/kdbx_decrypt.rs b/src/bin/kdbx_decrypt.rs
index 87c47f9..6afd7d2 100644
--- a/src/bin/kdbx_decrypt.rs
+++ b/src/bin/kdbx_decrypt.rs
@@ -5,8 +5,9 @@
 
 fn main() -> Result<(), kdbx_rs::Error> {
     let args: Vec<String> = std::env::args().collect();
-    if args.is_empty() {
+    if args.len() < 2 {
         println!("Usage: kdbx-decrypt <path to kdbx file> <password>");
+        return Ok(());
     }
     let kdbx = kdbx_rs::open(&args[1])?;
     let key = kdbx_rs::CompositeKey::from_password(args.get(2).unwrap_or(&"kdbxrs".to_string()));
diff --git a/src/bin/kdbx_dump_header.rs b/src/bin/kdbx_dump_header.rs
index 5582ac6..8550aa0 100644
--- a/src/bin/kdbx_dump_header.rs
+++ b/src/bin/kdbx_dump_header.rs
@@ -39,8 +39,9 @@ fn print_kdf(params: &kdbx_rs::binary::KdfParams) {
 
 fn main() -> Result<(), kdbx_rs::Error> {
     let args: Vec<String> = std::env::args().collect();
-    if args.is_empty() {
+    if args.len() < 2 {
         println!("Usage: kdbx-dump-header <path to kdbx file>");
+        return Ok(());
     }
     let kdbx = kdbx_rs::open(&args[1])?;
     let header = kdbx.header();
diff --git a/src/bin/kdbx_parse.rs b/src/bin/kdbx_parse.rs
index 4e1e525..d70d684 100644
--- a/src/bin/kdbx_parse.rs
+++ b/src/bin/kdbx_parse.rs
@@ -5,8 +5,9 @@
 
 fn main() -> Result<(), kdbx_rs::Error> {
     let args: Vec<String> = std::env::args().collect();
-    if args.is_empty() {
-        println!("Usage: kdbx-decrypt <path to kdbx file> <password>");
+    if args.len() < 2 {
+        println!("Usage: kdbx-parse <path to kdbx file> <password>");
+        return Ok(());
     }
     let kdbx = kdbx_rs::open(&args[1])?;
     let key = kdbx_rs::CompositeKey::from_password(args.get(2).unwrap_or(&"kdbxrs".to_string()));
-- 
2.43.0


From 1468ada9b3abf500162bd4e85a6391f363959696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:45:56 +0000
Subject: [PATCH 33/33] fix: report wrong credentials of KDBX 3 archives as
 StartBytesInvalid

The start bytes check failed with a generic decryption error, so callers
could not tell a wrong password from an unreadable archive. The error
documented for this case was never returned.
---
 src/stream/pipeline.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/stream/pipeline.rs b/src/stream/pipeline.rs
index d6702f9..b1d8497 100644
--- a/src/stream/pipeline.rs
+++ b/src/stream/pipeline.rs
@@ -1,4 +1,5 @@
 use crate::binary;
+use crate::binary::errors::UnlockError;
 use crate::crypto;
 use std::io;
 
@@ -100,16 +101,13 @@ pub(crate) fn kdbx3_read_stream<'a, R: io::Read + 'a>(
     iv: &[u8],
     compression: binary::CompressionType,
     expected_start_bytes: &[u8],
-) -> io::Result<Box<dyn io::Read + 'a>> {
+) -> Result<Box<dyn io::Read + 'a>, UnlockError> {
     let buffered = io::BufReader::new(inner);
     let mut decrypted = decryption_stream(buffered, cipher_key, cipher, iv)?;
     let mut start_bytes = [0u8; 32];
     decrypted.read_exact(&mut start_bytes)?;
     if start_bytes != expected_start_bytes {
-        return Err(io::Error::new(
-            io::ErrorKind::InvalidData,
-            "Could not validate start bytes",
-        ));
+        return Err(UnlockError::StartBytesInvalid);
     }
     let verified = HashedBlockReader::new(decrypted);
     let decompressed: Box<dyn io::Read> = match compression {
@@ -119,7 +117,8 @@ pub(crate) fn kdbx3_read_stream<'a, R: io::Read + 'a>(
             return Err(io::Error::new(
                 io::ErrorKind::InvalidInput,
                 format!("Unsupported compression type {:?}", compression),
-            ))
+            )
+            .into())
         }
     };
 
-- 
2.43.0

