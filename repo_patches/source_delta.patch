From 93815f4cddb9bf6b2589450fb783444520ea8505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:27 +0000
Subject: [PATCH 01/22] fix: do not underflow when reporting an over-long extra
 field

---
 src/spec/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spec/parse.rs b/src/spec/parse.rs
index 422d468..d5fb95f 100644
--- a/src/spec/parse.rs
+++ b/src/spec/parse.rs
@@ -271,7 +271,7 @@ pub fn parse_extra_fields(data: Vec<u8>, uncompressed_size: u32, compressed_size
         let header_id: HeaderId = u16::from_le_bytes(data[cursor..cursor + 2].try_into().unwrap()).into();
         let field_size = u16::from_le_bytes(data[cursor + 2..cursor + 4].try_into().unwrap());
         if cursor + 4 + field_size as usize > data.len() {
-            return Err(ZipError::InvalidExtraFieldHeader(field_size, data.len() - cursor - 8 - field_size as usize));
+            return Err(ZipError::InvalidExtraFieldHeader(field_size, data.len() - cursor - 4));
         }
         let data = &data[cursor + 4..cursor + 4 + field_size as usize];
         extra_fields.push(extra_field_from_bytes(header_id, field_size, data, uncompressed_size, compressed_size)?);
-- 
2.43.0


From 79955579dfb6b67e2db4ba7fafc3911263253017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:27 +0000
Subject: [PATCH 02/22] fix: keep a trailing extra field that has no contents

---
 src/spec/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spec/parse.rs b/src/spec/parse.rs
index d5fb95f..1c85a1a 100644
--- a/src/spec/parse.rs
+++ b/src/spec/parse.rs
@@ -267,7 +267,7 @@ impl Zip64EndOfCentralDirectoryLocator {
 pub fn parse_extra_fields(data: Vec<u8>, uncompressed_size: u32, compressed_size: u32) -> Result<Vec<ExtraField>> {
     let mut cursor = 0;
     let mut extra_fields = Vec::new();
-    while cursor + 4 < data.len() {
+    while cursor + 4 <= data.len() {
         let header_id: HeaderId = u16::from_le_bytes(data[cursor..cursor + 2].try_into().unwrap()).into();
         let field_size = u16::from_le_bytes(data[cursor + 2..cursor + 4].try_into().unwrap());
         if cursor + 4 + field_size as usize > data.len() {
-- 
2.43.0


From 505a8620eb7dc3b7ee7dd2d0561e9270ce3d8f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:27 +0000
Subject: [PATCH 03/22] fix: count the zip64 disk start number as the four
 bytes it is written as

---
 src/spec/header.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spec/header.rs b/src/spec/header.rs
index f7c4392..93577d1 100644
--- a/src/spec/header.rs
+++ b/src/spec/header.rs
@@ -75,7 +75,7 @@ impl Zip64ExtendedInformationExtraField {
         self.uncompressed_size.map(|_| 8).unwrap_or_default()
             + self.compressed_size.map(|_| 8).unwrap_or_default()
             + self.relative_header_offset.map(|_| 8).unwrap_or_default()
-            + self.disk_start_number.map(|_| 8).unwrap_or_default()
+            + self.disk_start_number.map(|_| 4).unwrap_or_default()
     }
 }
 
-- 
2.43.0


From 5257f927c836e01053182fb8d0def5b5804dc36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:27 +0000
Subject: [PATCH 04/22] fix: do not swap the sizes of streamed entries when
 zip64 is disabled

---
 src/base/write/entry_stream.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/write/entry_stream.rs b/src/base/write/entry_stream.rs
index 537f1ae..e6fe15e 100644
--- a/src/base/write/entry_stream.rs
+++ b/src/base/write/entry_stream.rs
@@ -216,7 +216,7 @@ impl<'b, W: AsyncWrite + Unpin> EntryStreamWriter<'b, W> {
             {
                 return Err(ZipError::Zip64Needed(Zip64ErrorCase::LargeFile));
             }
-            (self.entry.uncompressed_size as u32, compressed_size as u32, self.lfh_offset as u32)
+            (compressed_size as u32, self.entry.uncompressed_size as u32, self.lfh_offset as u32)
         } else {
             // When streaming an entry, we are always using a zip64 field.
             match get_zip64_extra_field_mut(&mut self.entry.extra_fields) {
-- 
2.43.0


From 527dac910b889a6232029d7694c715483f6e3635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:45 +0000
Subject: [PATCH 05/22] fix: refuse an archive comment longer than 65535 bytes
 instead of truncating its length

---
 src/base/write/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/base/write/mod.rs b/src/base/write/mod.rs
index e8b8186..ecec6b0 100644
--- a/src/base/write/mod.rs
+++ b/src/base/write/mod.rs
@@ -187,6 +187,12 @@ impl<W: AsyncWrite + Unpin> ZipFileWriter<W> {
     ///
     /// Failure to call this function before going out of scope would result in a corrupted ZIP file.
     pub async fn close(mut self) -> Result<W> {
+        let file_comm_length = self
+            .comment_opt
+            .as_ref()
+            .map_or(0, |comment| comment.len())
+            .try_into()
+            .map_err(|_| crate::error::ZipError::CommentTooLarge)?;
         let cd_offset = self.writer.offset();
 
         for entry in &self.cd_entries {
@@ -258,7 +264,7 @@ impl<W: AsyncWrite + Unpin> ZipFileWriter<W> {
             num_of_entries: num_entries_in_directory_u16,
             size_cent_dir: central_directory_size_u32,
             cent_dir_offset: cd_offset_u32,
-            file_comm_length: self.comment_opt.as_ref().map(|v| v.len() as u16).unwrap_or_default(),
+            file_comm_length,
         };
 
         self.writer.write_all(&crate::spec::consts::EOCDR_SIGNATURE.to_le_bytes()).await?;
-- 
2.43.0


From 6a8f80599f60ebc5b76d36df19e705aca6245a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:45 +0000
Subject: [PATCH 06/22] fix: check the signature of the zip64 end record and do
 not overflow on its offset

---
 src/base/read/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/base/read/mod.rs b/src/base/read/mod.rs
index e07cd16..2d6c1ff 100644
--- a/src/base/read/mod.rs
+++ b/src/base/read/mod.rs
@@ -21,7 +21,7 @@ use crate::error::{Result, ZipError};
 use crate::file::ZipFile;
 use crate::spec::attribute::AttributeCompatibility;
 use crate::spec::consts::LFH_LENGTH;
-use crate::spec::consts::{CDH_SIGNATURE, LFH_SIGNATURE, NON_ZIP64_MAX_SIZE, SIGNATURE_LENGTH, ZIP64_EOCDL_LENGTH};
+use crate::spec::consts::{CDH_SIGNATURE, LFH_SIGNATURE, NON_ZIP64_MAX_SIZE, SIGNATURE_LENGTH, ZIP64_EOCDL_LENGTH, ZIP64_EOCDR_SIGNATURE};
 use crate::spec::header::InfoZipUnicodeCommentExtraField;
 use crate::spec::header::InfoZipUnicodePathExtraField;
 use crate::spec::header::{
@@ -58,7 +58,8 @@ where
 
             match zip64_locator {
                 Some(locator) => {
-                    reader.seek(SeekFrom::Start(locator.relative_offset + SIGNATURE_LENGTH as u64)).await?;
+                    reader.seek(SeekFrom::Start(locator.relative_offset)).await?;
+                    crate::utils::assert_signature(&mut reader, ZIP64_EOCDR_SIGNATURE).await?;
                     let zip64_eocdr = Zip64EndOfCentralDirectoryRecord::from_reader(&mut reader).await?;
                     (CombinedCentralDirectoryRecord::combine(eocdr, zip64_eocdr), true)
                 }
-- 
2.43.0


From 81f43ac2c739739029530d826c63cf5c53e4e874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:45 +0000
Subject: [PATCH 07/22] fix: do not reserve memory for an untrusted number of
 directory entries

---
 src/base/read/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/base/read/mod.rs b/src/base/read/mod.rs
index 2d6c1ff..9beb928 100644
--- a/src/base/read/mod.rs
+++ b/src/base/read/mod.rs
@@ -86,8 +86,9 @@ pub(crate) async fn cd<R>(mut reader: R, num_of_entries: u64, zip64: bool) -> Re
 where
     R: AsyncRead + Unpin,
 {
-    let num_of_entries = num_of_entries.try_into().map_err(|_| ZipError::TargetZip64NotSupported)?;
-    let mut entries = Vec::with_capacity(num_of_entries);
+    let num_of_entries: usize = num_of_entries.try_into().map_err(|_| ZipError::TargetZip64NotSupported)?;
+    // The count is untrusted, so don't reserve memory for more than a moderate number of entries up front.
+    let mut entries = Vec::with_capacity(num_of_entries.min(1024));
 
     for _ in 0..num_of_entries {
         let entry = cd_record(&mut reader, zip64).await?;
-- 
2.43.0


From 744b30f92934ed69fe8da85d05928ff43d80b58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:45 +0000
Subject: [PATCH 08/22] fix: report truncated variable-length data as an
 unexpected end of file

---
 src/base/read/io/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/base/read/io/mod.rs b/src/base/read/io/mod.rs
index 3955297..7e24ba6 100644
--- a/src/base/read/io/mod.rs
+++ b/src/base/read/io/mod.rs
@@ -29,6 +29,10 @@ where
     let mut buffer = Vec::with_capacity(length);
     reader.take(length as u64).read_to_end(&mut buffer).await?;
 
+    if buffer.len() < length {
+        return Err(std::io::ErrorKind::UnexpectedEof.into());
+    }
+
     Ok(buffer)
 }
 
-- 
2.43.0


From e1e34f089de1a03aa1b7eb915cabf59e5ce88827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:45 +0000
Subject: [PATCH 09/22] fix: let date builder setters replace an earlier value
 and accept any year

---
 src/date/builder.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/date/builder.rs b/src/date/builder.rs
index ea660f9..1be2377 100644
--- a/src/date/builder.rs
+++ b/src/date/builder.rs
@@ -26,36 +26,36 @@ impl ZipDateTimeBuilder {
 
     /// Sets the date and time's year.
     pub fn year(mut self, year: i32) -> Self {
-        let year: u16 = (((year - 1980) << 9) & 0xFE00).try_into().unwrap();
-        self.0.date |= year;
+        let year: u16 = ((year.wrapping_sub(1980) << 9) & 0xFE00).try_into().unwrap();
+        self.0.date = (self.0.date & !0xFE00) | year;
         self
     }
 
     /// Sets the date and time's month.
     pub fn month(mut self, month: u32) -> Self {
         let month: u16 = ((month << 5) & 0x1E0).try_into().unwrap();
-        self.0.date |= month;
+        self.0.date = (self.0.date & !0x1E0) | month;
         self
     }
 
     /// Sets the date and time's day.
     pub fn day(mut self, day: u32) -> Self {
         let day: u16 = (day & 0x1F).try_into().unwrap();
-        self.0.date |= day;
+        self.0.date = (self.0.date & !0x1F) | day;
         self
     }
 
     /// Sets the date and time's hour.
     pub fn hour(mut self, hour: u32) -> Self {
         let hour: u16 = ((hour << 11) & 0xF800).try_into().unwrap();
-        self.0.time |= hour;
+        self.0.time = (self.0.time & !0xF800) | hour;
         self
     }
 
     /// Sets the date and time's minute.
     pub fn minute(mut self, minute: u32) -> Self {
         let minute: u16 = ((minute << 5) & 0x7E0).try_into().unwrap();
-        self.0.time |= minute;
+        self.0.time = (self.0.time & !0x7E0) | minute;
         self
     }
 
@@ -64,7 +64,7 @@ impl ZipDateTimeBuilder {
     /// Note that MS-DOS has a maximum granularity of two seconds.
     pub fn second(mut self, second: u32) -> Self {
         let second: u16 = ((second >> 1) & 0x1F).try_into().unwrap();
-        self.0.time |= second;
+        self.0.time = (self.0.time & !0x1F) | second;
         self
     }
 
-- 
2.43.0


From 05495066e2d10ec47f34570464fed6a558916d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:45 +0000
Subject: [PATCH 10/22] fix: use zip64 for values equal to the 32-bit marker
 value

---
 src/base/write/entry_stream.rs | 9 +++++----
 src/base/write/entry_whole.rs  | 6 +++---
 src/base/write/mod.rs          | 2 +-
 3 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/base/write/entry_stream.rs b/src/base/write/entry_stream.rs
index e6fe15e..98cd9cf 100644
--- a/src/base/write/entry_stream.rs
+++ b/src/base/write/entry_stream.rs
@@ -121,7 +121,8 @@ impl<'b, W: AsyncWrite + Unpin> EntryStreamWriter<'b, W> {
 
             (NON_ZIP64_MAX_SIZE, NON_ZIP64_MAX_SIZE)
         } else {
-            if entry.compressed_size > NON_ZIP64_MAX_SIZE as u64 || entry.uncompressed_size > NON_ZIP64_MAX_SIZE as u64
+            if entry.compressed_size >= NON_ZIP64_MAX_SIZE as u64
+                || entry.uncompressed_size >= NON_ZIP64_MAX_SIZE as u64
             {
                 return Err(ZipError::Zip64Needed(Zip64ErrorCase::LargeFile));
             }
@@ -210,9 +211,9 @@ impl<'b, W: AsyncWrite + Unpin> EntryStreamWriter<'b, W> {
         let compressed_size = inner_writer.offset() - self.data_offset;
 
         let (cdr_compressed_size, cdr_uncompressed_size, lh_offset) = if self.force_no_zip64 {
-            if self.entry.uncompressed_size > NON_ZIP64_MAX_SIZE as u64
-                || compressed_size > NON_ZIP64_MAX_SIZE as u64
-                || self.lfh_offset > NON_ZIP64_MAX_SIZE as u64
+            if self.entry.uncompressed_size >= NON_ZIP64_MAX_SIZE as u64
+                || compressed_size >= NON_ZIP64_MAX_SIZE as u64
+                || self.lfh_offset >= NON_ZIP64_MAX_SIZE as u64
             {
                 return Err(ZipError::Zip64Needed(Zip64ErrorCase::LargeFile));
             }
diff --git a/src/base/write/entry_whole.rs b/src/base/write/entry_whole.rs
index d38f1db..9252810 100644
--- a/src/base/write/entry_whole.rs
+++ b/src/base/write/entry_whole.rs
@@ -62,8 +62,8 @@ impl<'b, 'c, W: AsyncWrite + Unpin> EntryWholeWriter<'b, 'c, W> {
     }
 
     fn enforce_zip64_sizes(&mut self) -> Result<()> {
-        let uncompressed_larger = self.entry.uncompressed_size > NON_ZIP64_MAX_SIZE.into();
-        let compressed_larger = self.entry.compressed_size > NON_ZIP64_MAX_SIZE.into();
+        let uncompressed_larger = self.entry.uncompressed_size >= NON_ZIP64_MAX_SIZE.into();
+        let compressed_larger = self.entry.compressed_size >= NON_ZIP64_MAX_SIZE.into();
 
         if !uncompressed_larger && !compressed_larger {
             return Ok(());
@@ -83,7 +83,7 @@ impl<'b, 'c, W: AsyncWrite + Unpin> EntryWholeWriter<'b, 'c, W> {
     }
 
     fn enforce_zip64_offset(&mut self) -> Result<()> {
-        if self.lh_offset <= NON_ZIP64_MAX_SIZE.into() {
+        if self.lh_offset < NON_ZIP64_MAX_SIZE.into() {
             return Ok(());
         }
 
diff --git a/src/base/write/mod.rs b/src/base/write/mod.rs
index ecec6b0..9bdce00 100644
--- a/src/base/write/mod.rs
+++ b/src/base/write/mod.rs
@@ -219,7 +219,7 @@ impl<W: AsyncWrite + Unpin> ZipFileWriter<W> {
         } else {
             num_entries_in_directory as u16
         };
-        let cd_offset_u32 = if cd_offset > NON_ZIP64_MAX_SIZE as u64 {
+        let cd_offset_u32 = if cd_offset >= NON_ZIP64_MAX_SIZE as u64 {
             if self.force_no_zip64 {
                 return Err(crate::error::ZipError::Zip64Needed(crate::error::Zip64ErrorCase::LargeFile));
             } else {
-- 
2.43.0


From 2e691354f590f2337c26e68649a27f29b2a142cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:45 +0000
Subject: [PATCH 11/22] fix: never finish an archive whose directory does not
 fit without zip64 records

---
 src/base/write/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/base/write/mod.rs b/src/base/write/mod.rs
index 9bdce00..284e6eb 100644
--- a/src/base/write/mod.rs
+++ b/src/base/write/mod.rs
@@ -208,13 +208,21 @@ impl<W: AsyncWrite + Unpin> ZipFileWriter<W> {
         }
 
         let central_directory_size = self.writer.offset() - cd_offset;
-        let central_directory_size_u32 = if central_directory_size > NON_ZIP64_MAX_SIZE as u64 {
+        let central_directory_size_u32 = if central_directory_size >= NON_ZIP64_MAX_SIZE as u64 {
+            if self.force_no_zip64 {
+                return Err(crate::error::ZipError::Zip64Needed(crate::error::Zip64ErrorCase::LargeFile));
+            } else {
+                self.is_zip64 = true;
+            }
             NON_ZIP64_MAX_SIZE
         } else {
             central_directory_size as u32
         };
         let num_entries_in_directory = self.cd_entries.len() as u64;
         let num_entries_in_directory_u16 = if num_entries_in_directory > NON_ZIP64_MAX_NUM_FILES as u64 {
+            if self.force_no_zip64 {
+                return Err(crate::error::ZipError::Zip64Needed(crate::error::Zip64ErrorCase::TooManyFiles));
+            }
             NON_ZIP64_MAX_NUM_FILES
         } else {
             num_entries_in_directory as u16
-- 
2.43.0


From d27548938c7b880dd06803d01a841d71964b08c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:45 +0000
Subject: [PATCH 12/22] fix: do not write stale zip64 extra fields of entries
 taken from other archives

---
 src/base/write/entry_stream.rs | 3 +++
 src/base/write/entry_whole.rs  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/base/write/entry_stream.rs b/src/base/write/entry_stream.rs
index 98cd9cf..7e0c6ec 100644
--- a/src/base/write/entry_stream.rs
+++ b/src/base/write/entry_stream.rs
@@ -105,6 +105,9 @@ impl<'b, W: AsyncWrite + Unpin> EntryStreamWriter<'b, W> {
     }
 
     async fn write_lfh(writer: &'b mut ZipFileWriter<W>, entry: &mut ZipEntry) -> Result<LocalFileHeader> {
+        // Any zip64 field the entry came with describes another archive.
+        entry.extra_fields.retain(|field| !matches!(field, ExtraField::Zip64ExtendedInformation(_)));
+
         // Always emit a zip64 extended field, even if we don't need it, because we *might* need it.
         // If we are forcing no zip, we will have to error later if the file is too large.
         let (lfh_compressed, lfh_uncompressed) = if !writer.force_no_zip64 {
diff --git a/src/base/write/entry_whole.rs b/src/base/write/entry_whole.rs
index 9252810..d3052ff 100644
--- a/src/base/write/entry_whole.rs
+++ b/src/base/write/entry_whole.rs
@@ -147,6 +147,9 @@ impl<'b, 'c, W: AsyncWrite + Unpin> EntryWholeWriter<'b, 'c, W> {
     }
 
     pub async fn write(mut self) -> Result<()> {
+        // Any zip64 field the entry came with describes another archive, and is written anew if needed.
+        self.entry.extra_fields.retain(|field| !matches!(field, ExtraField::Zip64ExtendedInformation(_)));
+
         if !self.precompressed {
             self.entry.uncompressed_size = self.data.len() as u64;
             self.entry.crc32 = crc32fast::hash(&self.data);
-- 
2.43.0


From e58bc12eafe693a34ef52722d15fd42db7a4b539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:12 +0000
Subject: [PATCH 13/22] fix: write the unicode name and comment even if a field
 of another version is present

---
 src/base/read/mod.rs  |  4 +++-
 src/base/write/mod.rs | 14 ++++++++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/base/read/mod.rs b/src/base/read/mod.rs
index 9beb928..94d12fa 100644
--- a/src/base/read/mod.rs
+++ b/src/base/read/mod.rs
@@ -21,7 +21,9 @@ use crate::error::{Result, ZipError};
 use crate::file::ZipFile;
 use crate::spec::attribute::AttributeCompatibility;
 use crate::spec::consts::LFH_LENGTH;
-use crate::spec::consts::{CDH_SIGNATURE, LFH_SIGNATURE, NON_ZIP64_MAX_SIZE, SIGNATURE_LENGTH, ZIP64_EOCDL_LENGTH, ZIP64_EOCDR_SIGNATURE};
+use crate::spec::consts::{
+    CDH_SIGNATURE, LFH_SIGNATURE, NON_ZIP64_MAX_SIZE, SIGNATURE_LENGTH, ZIP64_EOCDL_LENGTH, ZIP64_EOCDR_SIGNATURE,
+};
 use crate::spec::header::InfoZipUnicodeCommentExtraField;
 use crate::spec::header::InfoZipUnicodePathExtraField;
 use crate::spec::header::{
diff --git a/src/base/write/mod.rs b/src/base/write/mod.rs
index 284e6eb..d6bf3c5 100644
--- a/src/base/write/mod.rs
+++ b/src/base/write/mod.rs
@@ -305,13 +305,16 @@ where
 pub(crate) fn get_or_put_info_zip_unicode_path_extra_field_mut(
     extra_fields: &mut Vec<ExtraField>,
 ) -> &mut InfoZipUnicodePathExtraField {
-    if !extra_fields.iter().any(|field| matches!(field, ExtraField::InfoZipUnicodePath(_))) {
+    if !extra_fields
+        .iter()
+        .any(|field| matches!(field, ExtraField::InfoZipUnicodePath(InfoZipUnicodePathExtraField::V1 { .. })))
+    {
         extra_fields
             .push(ExtraField::InfoZipUnicodePath(InfoZipUnicodePathExtraField::V1 { crc32: 0, unicode: vec![] }));
     }
 
     for field in extra_fields.iter_mut() {
-        if let ExtraField::InfoZipUnicodePath(extra_field) = field {
+        if let ExtraField::InfoZipUnicodePath(extra_field @ InfoZipUnicodePathExtraField::V1 { .. }) = field {
             return extra_field;
         }
     }
@@ -322,13 +325,16 @@ pub(crate) fn get_or_put_info_zip_unicode_path_extra_field_mut(
 pub(crate) fn get_or_put_info_zip_unicode_comment_extra_field_mut(
     extra_fields: &mut Vec<ExtraField>,
 ) -> &mut InfoZipUnicodeCommentExtraField {
-    if !extra_fields.iter().any(|field| matches!(field, ExtraField::InfoZipUnicodeComment(_))) {
+    if !extra_fields
+        .iter()
+        .any(|field| matches!(field, ExtraField::InfoZipUnicodeComment(InfoZipUnicodeCommentExtraField::V1 { .. })))
+    {
         extra_fields
             .push(ExtraField::InfoZipUnicodeComment(InfoZipUnicodeCommentExtraField::V1 { crc32: 0, unicode: vec![] }));
     }
 
     for field in extra_fields.iter_mut() {
-        if let ExtraField::InfoZipUnicodeComment(extra_field) = field {
+        if let ExtraField::InfoZipUnicodeComment(extra_field @ InfoZipUnicodeCommentExtraField::V1 { .. }) = field {
             return extra_field;
         }
     }
-- 
2.43.0


From e9c53eee032cc32ed20e6c727a3fd1da14879e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:55 +0000
Subject: [PATCH 14/22] fix: write and skip zip64 data descriptors with 8 byte
 sizes

---
 src/base/read/stream.rs        | 45 +++++++++++++++++++++++++---------
 src/base/write/entry_stream.rs | 10 ++++++--
 2 files changed, 41 insertions(+), 14 deletions(-)

diff --git a/src/base/read/stream.rs b/src/base/read/stream.rs
index b4691c3..1994f22 100644
--- a/src/base/read/stream.rs
+++ b/src/base/read/stream.rs
@@ -46,7 +46,9 @@
 //! # }
 //! ```
 
+use crate::base::read::get_zip64_extra_field;
 use crate::base::read::io::entry::ZipEntryReader;
+use crate::entry::ZipEntry;
 use crate::error::Result;
 use crate::error::ZipError;
 
@@ -69,7 +71,22 @@ use super::io::entry::WithoutEntry;
 pub struct Ready<R>(R);
 
 /// A type which encodes that [`ZipFileReader`] is currently reading an entry.
-pub struct Reading<'a, R, E>(ZipEntryReader<'a, R, E>, bool);
+pub struct Reading<'a, R, E>(ZipEntryReader<'a, R, E>, Option<DataDescriptor>);
+
+/// The width of the sizes within the data descriptor which follows an entry.
+#[derive(Clone, Copy)]
+pub(crate) enum DataDescriptor {
+    Classic,
+    Zip64,
+}
+
+impl DataDescriptor {
+    /// The sizes are 8 byte values if the local file header has a zip64 extended information field.
+    fn of(entry: &ZipEntry) -> Option<Self> {
+        let zip64 = get_zip64_extra_field(&entry.extra_fields).is_some();
+        entry.data_descriptor.then_some(if zip64 { Self::Zip64 } else { Self::Classic })
+    }
+}
 
 /// A ZIP reader which acts over a non-seekable source.
 ///
@@ -96,7 +113,7 @@ where
         let length = if entry.data_descriptor { u64::MAX } else { entry.compressed_size };
         let reader = ZipEntryReader::new_with_owned(self.0 .0, entry.compression, length);
 
-        Ok(Some(ZipFileReader(Reading(reader, entry.data_descriptor))))
+        Ok(Some(ZipFileReader(Reading(reader, DataDescriptor::of(&entry)))))
     }
 
     /// Opens the next entry for reading if the central directory hasn’t yet been reached.
@@ -108,7 +125,7 @@ where
 
         let length = if entry.data_descriptor { u64::MAX } else { entry.compressed_size };
         let reader = ZipEntryReader::new_with_owned(self.0 .0, entry.compression, length);
-        let data_descriptor = entry.data_descriptor;
+        let data_descriptor = DataDescriptor::of(&entry);
 
         Ok(Some(ZipFileReader(Reading(reader.into_with_entry_owned(entry), data_descriptor))))
     }
@@ -152,9 +169,8 @@ where
 
         let mut inner = self.0 .0.into_inner();
 
-        // Has data descriptor.
-        if self.0 .1 {
-            consume_data_descriptor(&mut inner).await?;
+        if let Some(kind) = self.0 .1 {
+            consume_data_descriptor(&mut inner, kind).await?;
         }
 
         Ok(ZipFileReader(Ready(inner)))
@@ -165,22 +181,27 @@ where
         while self.0 .0.read(&mut [0; 2048]).await? != 0 {}
         let mut inner = self.0 .0.into_inner();
 
-        // Has data descriptor.
-        if self.0 .1 {
-            consume_data_descriptor(&mut inner).await?;
+        if let Some(kind) = self.0 .1 {
+            consume_data_descriptor(&mut inner, kind).await?;
         }
 
         Ok(ZipFileReader(Ready(inner)))
     }
 }
 
-async fn consume_data_descriptor<R: AsyncBufRead + Unpin>(reader: &mut R) -> Result<()> {
+async fn consume_data_descriptor<R: AsyncBufRead + Unpin>(reader: &mut R, kind: DataDescriptor) -> Result<()> {
     let mut descriptor: [u8; DATA_DESCRIPTOR_LENGTH] = [0; DATA_DESCRIPTOR_LENGTH];
     reader.read_exact(&mut descriptor).await?;
 
     if descriptor[0..SIGNATURE_LENGTH] == DATA_DESCRIPTOR_SIGNATURE.to_le_bytes() {
-        let mut tail: [u8; SIGNATURE_LENGTH] = [0; SIGNATURE_LENGTH];
-        reader.read_exact(&mut tail).await?;
+        descriptor.copy_within(SIGNATURE_LENGTH.., 0);
+        reader.read_exact(&mut descriptor[DATA_DESCRIPTOR_LENGTH - SIGNATURE_LENGTH..]).await?;
+    }
+
+    // The CRC and 8 bytes of sizes have been read, which leaves the uncompressed size of a zip64 descriptor. Prior
+    // versions of this crate wrote two saturated 4 byte sizes instead.
+    if matches!(kind, DataDescriptor::Zip64) && descriptor[4..] != [0xFF; 8] {
+        reader.read_exact(&mut [0; 8]).await?;
     }
 
     Ok(())
diff --git a/src/base/write/entry_stream.rs b/src/base/write/entry_stream.rs
index 7e0c6ec..9a3f151 100644
--- a/src/base/write/entry_stream.rs
+++ b/src/base/write/entry_stream.rs
@@ -250,8 +250,14 @@ impl<'b, W: AsyncWrite + Unpin> EntryStreamWriter<'b, W> {
 
         inner_writer.write_all(&crate::spec::consts::DATA_DESCRIPTOR_SIGNATURE.to_le_bytes()).await?;
         inner_writer.write_all(&self.entry.crc32.to_le_bytes()).await?;
-        inner_writer.write_all(&cdr_compressed_size.to_le_bytes()).await?;
-        inner_writer.write_all(&cdr_uncompressed_size.to_le_bytes()).await?;
+        if self.force_no_zip64 {
+            inner_writer.write_all(&cdr_compressed_size.to_le_bytes()).await?;
+            inner_writer.write_all(&cdr_uncompressed_size.to_le_bytes()).await?;
+        } else {
+            // The local file header has a zip64 field, so the sizes are 8 byte values.
+            inner_writer.write_all(&compressed_size.to_le_bytes()).await?;
+            inner_writer.write_all(&self.entry.uncompressed_size.to_le_bytes()).await?;
+        }
 
         let comment_basic = self.entry.comment().alternative().unwrap_or_else(|| self.entry.comment().as_bytes());
 
-- 
2.43.0


From b178208fc219dbea66d0cdd0ad55109f578e38df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:12 +0000
Subject: [PATCH 15/22] fix: require version 4.5 for entries with a zip64 field

---
 src/base/write/entry_whole.rs | 1 +
 src/spec/version.rs           | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/src/base/write/entry_whole.rs b/src/base/write/entry_whole.rs
index d3052ff..80d9f61 100644
--- a/src/base/write/entry_whole.rs
+++ b/src/base/write/entry_whole.rs
@@ -225,6 +225,7 @@ impl<'b, 'c, W: AsyncWrite + Unpin> EntryWholeWriter<'b, 'c, W> {
 
         if let Some(builder1) = self.builder {
             self.entry.extra_fields.push(ExtraField::Zip64ExtendedInformation(builder1.build()?));
+            header.v_needed = crate::spec::version::as_needed_to_extract(&self.entry);
             header.extra_field_length =
                 self.entry.extra_fields().count_bytes().try_into().map_err(|_| ZipError::ExtraFieldTooLarge)?;
         }
diff --git a/src/spec/version.rs b/src/spec/version.rs
index cf0e69d..13bc13f 100644
--- a/src/spec/version.rs
+++ b/src/spec/version.rs
@@ -1,6 +1,7 @@
 // Copyright (c) 2021 Harry [Majored] [hello@majored.pw]
 // MIT License (https://github.com/Majored/rs-async-zip/blob/main/LICENSE)
 
+use crate::base::read::get_zip64_extra_field;
 use crate::entry::ZipEntry;
 #[cfg(any(
     feature = "deflate",
@@ -31,6 +32,9 @@ pub fn as_needed_to_extract(entry: &ZipEntry) -> u16 {
     if let Ok(true) = entry.dir() {
         version = std::cmp::max(version, 20);
     }
+    if get_zip64_extra_field(entry.extra_fields()).is_some() {
+        version = std::cmp::max(version, 45);
+    }
 
     version
 }
-- 
2.43.0


From 58b9e6334c2c76b32024d77835daa9b8d27f79ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:50 +0000
Subject: [PATCH 16/22] fix: report the end of an archive without entries to
 stream readers

---
 src/base/read/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/base/read/mod.rs b/src/base/read/mod.rs
index 94d12fa..439804e 100644
--- a/src/base/read/mod.rs
+++ b/src/base/read/mod.rs
@@ -22,7 +22,8 @@ use crate::file::ZipFile;
 use crate::spec::attribute::AttributeCompatibility;
 use crate::spec::consts::LFH_LENGTH;
 use crate::spec::consts::{
-    CDH_SIGNATURE, LFH_SIGNATURE, NON_ZIP64_MAX_SIZE, SIGNATURE_LENGTH, ZIP64_EOCDL_LENGTH, ZIP64_EOCDR_SIGNATURE,
+    CDH_SIGNATURE, EOCDR_SIGNATURE, LFH_SIGNATURE, NON_ZIP64_MAX_SIZE, SIGNATURE_LENGTH, ZIP64_EOCDL_LENGTH,
+    ZIP64_EOCDR_SIGNATURE,
 };
 use crate::spec::header::InfoZipUnicodeCommentExtraField;
 use crate::spec::header::InfoZipUnicodePathExtraField;
@@ -211,6 +212,8 @@ where
     match signature {
         actual if actual == LFH_SIGNATURE => (),
         actual if actual == CDH_SIGNATURE => return Ok(None),
+        // An archive without entries has no central directory headers either.
+        actual if actual == EOCDR_SIGNATURE || actual == ZIP64_EOCDR_SIGNATURE => return Ok(None),
         actual => return Err(ZipError::UnexpectedHeaderError(actual, LFH_SIGNATURE)),
     };
 
-- 
2.43.0


From c4e8db0153de8e5c8f1c039ecf8e82dd63bf51dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:56 +0000
Subject: [PATCH 17/22] fix: refuse over-long and keep empty extra fields where
 the block is read

---
 src/base/read/mod.rs | 18 ++++++++++++++++--
 src/spec/parse.rs    |  4 ++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/base/read/mod.rs b/src/base/read/mod.rs
index 439804e..51cf3f9 100644
--- a/src/base/read/mod.rs
+++ b/src/base/read/mod.rs
@@ -121,6 +121,20 @@ pub(crate) fn get_zip64_extra_field_mut(
     None
 }
 
+/// Parse a block of extra fields, each of which must fit into the block.
+fn read_extra_fields(mut block: Vec<u8>, uncompressed_size: u32, compressed_size: u32) -> Result<Vec<ExtraField>> {
+    let mut remaining = &block[..];
+    while let [_, _, low, high, contents @ ..] = remaining {
+        let field_size = u16::from_le_bytes([*low, *high]);
+        remaining =
+            contents.get(field_size as usize..).ok_or(ZipError::InvalidExtraFieldHeader(field_size, contents.len()))?;
+    }
+
+    // The parser leaves out a field without contents unless the block goes on after its header.
+    block.push(0);
+    parse_extra_fields(block, uncompressed_size, compressed_size)
+}
+
 fn get_combined_sizes(
     uncompressed_size: u32,
     compressed_size: u32,
@@ -153,7 +167,7 @@ where
     let filename_basic = io::read_bytes(&mut reader, header.file_name_length.into()).await?;
     let compression = Compression::try_from(header.compression)?;
     let extra_field = io::read_bytes(&mut reader, header.extra_field_length.into()).await?;
-    let extra_fields = parse_extra_fields(extra_field, header.uncompressed_size, header.compressed_size)?;
+    let extra_fields = read_extra_fields(extra_field, header.uncompressed_size, header.compressed_size)?;
     let comment_basic = io::read_bytes(reader, header.file_comment_length.into()).await?;
 
     let zip64_extra_field = get_zip64_extra_field(&extra_fields);
@@ -221,7 +235,7 @@ where
     let filename_basic = io::read_bytes(&mut reader, header.file_name_length.into()).await?;
     let compression = Compression::try_from(header.compression)?;
     let extra_field = io::read_bytes(&mut reader, header.extra_field_length.into()).await?;
-    let extra_fields = parse_extra_fields(extra_field, header.uncompressed_size, header.compressed_size)?;
+    let extra_fields = read_extra_fields(extra_field, header.uncompressed_size, header.compressed_size)?;
 
     let zip64_extra_field = get_zip64_extra_field(&extra_fields);
     let (uncompressed_size, compressed_size) =
diff --git a/src/spec/parse.rs b/src/spec/parse.rs
index 1c85a1a..422d468 100644
--- a/src/spec/parse.rs
+++ b/src/spec/parse.rs
@@ -267,11 +267,11 @@ impl Zip64EndOfCentralDirectoryLocator {
 pub fn parse_extra_fields(data: Vec<u8>, uncompressed_size: u32, compressed_size: u32) -> Result<Vec<ExtraField>> {
     let mut cursor = 0;
     let mut extra_fields = Vec::new();
-    while cursor + 4 <= data.len() {
+    while cursor + 4 < data.len() {
         let header_id: HeaderId = u16::from_le_bytes(data[cursor..cursor + 2].try_into().unwrap()).into();
         let field_size = u16::from_le_bytes(data[cursor + 2..cursor + 4].try_into().unwrap());
         if cursor + 4 + field_size as usize > data.len() {
-            return Err(ZipError::InvalidExtraFieldHeader(field_size, data.len() - cursor - 4));
+            return Err(ZipError::InvalidExtraFieldHeader(field_size, data.len() - cursor - 8 - field_size as usize));
         }
         let data = &data[cursor + 4..cursor + 4 + field_size as usize];
         extra_fields.push(extra_field_from_bytes(header_id, field_size, data, uncompressed_size, compressed_size)?);
-- 
2.43.0


From 0c40ef5a21edd54f1dce72f2a695942d05bc1edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:56 +0000
Subject: [PATCH 18/22] fix: raise the version needed for zip64 fields where
 entries are written

---
 src/base/write/entry_stream.rs |  2 +-
 src/base/write/entry_whole.rs  |  4 ++--
 src/base/write/mod.rs          | 11 +++++++++++
 src/spec/version.rs            |  4 ----
 4 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/base/write/entry_stream.rs b/src/base/write/entry_stream.rs
index 9a3f151..115935b 100644
--- a/src/base/write/entry_stream.rs
+++ b/src/base/write/entry_stream.rs
@@ -177,7 +177,7 @@ impl<'b, W: AsyncWrite + Unpin> EntryStreamWriter<'b, W> {
             file_name_length: filename_basic.len().try_into().map_err(|_| ZipError::FileNameTooLarge)?,
             mod_time: entry.last_modification_date().time,
             mod_date: entry.last_modification_date().date,
-            version: crate::spec::version::as_needed_to_extract(entry),
+            version: super::version_needed_to_extract(entry),
             flags: GeneralPurposeFlag {
                 data_descriptor: true,
                 encrypted: false,
diff --git a/src/base/write/entry_whole.rs b/src/base/write/entry_whole.rs
index 80d9f61..8e3b29e 100644
--- a/src/base/write/entry_whole.rs
+++ b/src/base/write/entry_whole.rs
@@ -190,7 +190,7 @@ impl<'b, 'c, W: AsyncWrite + Unpin> EntryWholeWriter<'b, 'c, W> {
             file_name_length: filename_basic.len().try_into().map_err(|_| ZipError::FileNameTooLarge)?,
             mod_time: self.entry.last_modification_date().time,
             mod_date: self.entry.last_modification_date().date,
-            version: crate::spec::version::as_needed_to_extract(&self.entry),
+            version: super::version_needed_to_extract(&self.entry),
             flags: GeneralPurposeFlag {
                 data_descriptor: false,
                 encrypted: false,
@@ -225,7 +225,7 @@ impl<'b, 'c, W: AsyncWrite + Unpin> EntryWholeWriter<'b, 'c, W> {
 
         if let Some(builder1) = self.builder {
             self.entry.extra_fields.push(ExtraField::Zip64ExtendedInformation(builder1.build()?));
-            header.v_needed = crate::spec::version::as_needed_to_extract(&self.entry);
+            header.v_needed = super::version_needed_to_extract(&self.entry);
             header.extra_field_length =
                 self.entry.extra_fields().count_bytes().try_into().map_err(|_| ZipError::ExtraFieldTooLarge)?;
         }
diff --git a/src/base/write/mod.rs b/src/base/write/mod.rs
index d6bf3c5..ae6788c 100644
--- a/src/base/write/mod.rs
+++ b/src/base/write/mod.rs
@@ -70,6 +70,7 @@ pub use entry_whole::crc32;
 #[cfg(feature = "tokio")]
 use tokio_util::compat::{Compat, TokioAsyncWriteCompatExt};
 
+use crate::base::read::get_zip64_extra_field;
 use crate::entry::ZipEntry;
 use crate::error::Result;
 use crate::spec::extra_field::ExtraFieldAsBytes;
@@ -302,6 +303,16 @@ where
     }
 }
 
+/// The version needed to extract an entry, including by its zip64 field if it has one.
+pub(crate) fn version_needed_to_extract(entry: &ZipEntry) -> u16 {
+    let version = crate::spec::version::as_needed_to_extract(entry);
+
+    match get_zip64_extra_field(entry.extra_fields()) {
+        Some(_) => std::cmp::max(version, 45),
+        None => version,
+    }
+}
+
 pub(crate) fn get_or_put_info_zip_unicode_path_extra_field_mut(
     extra_fields: &mut Vec<ExtraField>,
 ) -> &mut InfoZipUnicodePathExtraField {
diff --git a/src/spec/version.rs b/src/spec/version.rs
index 13bc13f..cf0e69d 100644
--- a/src/spec/version.rs
+++ b/src/spec/version.rs
@@ -1,7 +1,6 @@
 // Copyright (c) 2021 Harry [Majored] [hello@majored.pw]
 // MIT License (https://github.com/Majored/rs-async-zip/blob/main/LICENSE)
 
-use crate::base::read::get_zip64_extra_field;
 use crate::entry::ZipEntry;
 #[cfg(any(
     feature = "deflate",
@@ -32,9 +31,6 @@ pub fn as_needed_to_extract(entry: &ZipEntry) -> u16 {
     if let Ok(true) = entry.dir() {
         version = std::cmp::max(version, 20);
     }
-    if get_zip64_extra_field(entry.extra_fields()).is_some() {
-        version = std::cmp::max(version, 45);
-    }
 
     version
 }
-- 
2.43.0


From ea844b9cd6ad5fc3b7573dd71bff2040183db1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:56 +0000
Subject: [PATCH 19/22] Restore the zip64 field's content size: no disk start
 number is ever written

---
 src/spec/header.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spec/header.rs b/src/spec/header.rs
index 93577d1..f7c4392 100644
--- a/src/spec/header.rs
+++ b/src/spec/header.rs
@@ -75,7 +75,7 @@ impl Zip64ExtendedInformationExtraField {
         self.uncompressed_size.map(|_| 8).unwrap_or_default()
             + self.compressed_size.map(|_| 8).unwrap_or_default()
             + self.relative_header_offset.map(|_| 8).unwrap_or_default()
-            + self.disk_start_number.map(|_| 4).unwrap_or_default()
+            + self.disk_start_number.map(|_| 8).unwrap_or_default()
     }
 }
 
-- 
2.43.0


From fc70d6a534f26cbf691f934bc4a6ef6fae515b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:17 +0000
Subject: [PATCH 20/22] fix: an entry refused for being one too many without
 zip64 stays out of the archive

The 65536th entry of an archive for which zip64 is forbidden was refused, but
recorded all the same, so that the archive of the accepted entries could not be
closed anymore.
---
 src/base/write/entry_stream.rs | 4 ++--
 src/base/write/entry_whole.rs  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/base/write/entry_stream.rs b/src/base/write/entry_stream.rs
index 115935b..25b4a36 100644
--- a/src/base/write/entry_stream.rs
+++ b/src/base/write/entry_stream.rs
@@ -280,9 +280,8 @@ impl<'b, W: AsyncWrite + Unpin> EntryStreamWriter<'b, W> {
             lh_offset,
         };
 
-        self.cd_entries.push(CentralDirectoryEntry { header: cdh, entry: self.entry });
         // Ensure that we can fit this many files in this archive if forcing no zip64
-        if self.cd_entries.len() > NON_ZIP64_MAX_NUM_FILES as usize {
+        if self.cd_entries.len() >= NON_ZIP64_MAX_NUM_FILES as usize {
             if self.force_no_zip64 {
                 return Err(ZipError::Zip64Needed(Zip64ErrorCase::TooManyFiles));
             }
@@ -290,6 +289,7 @@ impl<'b, W: AsyncWrite + Unpin> EntryStreamWriter<'b, W> {
                 *self.is_zip64 = true;
             }
         }
+        self.cd_entries.push(CentralDirectoryEntry { header: cdh, entry: self.entry });
 
         Ok(())
     }
diff --git a/src/base/write/entry_whole.rs b/src/base/write/entry_whole.rs
index 8e3b29e..d61483b 100644
--- a/src/base/write/entry_whole.rs
+++ b/src/base/write/entry_whole.rs
@@ -230,9 +230,8 @@ impl<'b, 'c, W: AsyncWrite + Unpin> EntryWholeWriter<'b, 'c, W> {
                 self.entry.extra_fields().count_bytes().try_into().map_err(|_| ZipError::ExtraFieldTooLarge)?;
         }
 
-        self.writer.cd_entries.push(CentralDirectoryEntry { header, entry: self.entry });
         // Ensure that we can fit this many files in this archive if forcing no zip64
-        if self.writer.cd_entries.len() > NON_ZIP64_MAX_NUM_FILES as usize {
+        if self.writer.cd_entries.len() >= NON_ZIP64_MAX_NUM_FILES as usize {
             if self.writer.force_no_zip64 {
                 return Err(ZipError::Zip64Needed(Zip64ErrorCase::TooManyFiles));
             }
@@ -240,6 +239,7 @@ impl<'b, 'c, W: AsyncWrite + Unpin> EntryWholeWriter<'b, 'c, W> {
                 self.writer.is_zip64 = true;
             }
         }
+        self.writer.cd_entries.push(CentralDirectoryEntry { header, entry: self.entry });
         Ok(())
     }
 }
-- 
2.43.0


From ff029027349eec4f2afc842fe2ba36801780e6b0 Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Wed, 18 Nov 2026 23:14:39 +0000
Subject: [PATCH 21/22] fix: the hash of the data read so far can be asked for
 more than once

---
 src/base/read/io/entry.rs  |  2 +-
 src/base/read/io/hashed.rs | 10 ++++------
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/base/read/io/entry.rs b/src/base/read/io/entry.rs
index a0395a9..b96ed37 100644
--- a/src/base/read/io/entry.rs
+++ b/src/base/read/io/entry.rs
@@ -68,7 +68,7 @@ where
     ///
     /// This hash should only be computed once EOF has been reached.
     pub fn compute_hash(&mut self) -> u32 {
-        self.reader.swap_and_compute_hash()
+        self.reader.compute_hash()
     }
 
     /// Consumes this reader and returns the inner value.
diff --git a/src/base/read/io/hashed.rs b/src/base/read/io/hashed.rs
index 1190f0d..34c3791 100644
--- a/src/base/read/io/hashed.rs
+++ b/src/base/read/io/hashed.rs
@@ -27,13 +27,11 @@ where
         Self { reader, hasher: Hasher::default() }
     }
 
-    /// Swaps the internal hasher and returns the computed CRC32 hash.
+    /// Returns the CRC32 hash of the data read so far.
     ///
-    /// The internal hasher is taken and replaced with a newly-constructed one. As a result, this method should only be
-    /// called once EOF has been reached and it's known that no more data will be read, else the computed hash(s) won't
-    /// accurately represent the data read in.
-    pub(crate) fn swap_and_compute_hash(&mut self) -> u32 {
-        std::mem::take(&mut self.hasher).finalize()
+    /// The internal hasher is left as it is, so this method may be called at any time and more than once.
+    pub(crate) fn compute_hash(&self) -> u32 {
+        self.hasher.clone().finalize()
     }
 
     /// Consumes this reader and returns the inner value.
-- 
2.43.0


From d9b33dcd590da5f5ce69ffb78f90b2ada8487013 Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Wed, 18 Nov 2026 23:16:11 +0000
Subject: [PATCH 22/22] fix: writing a method only supported when reading is an
 error, not a panic

---
 src/base/write/entry_stream.rs |  2 ++
 src/base/write/entry_whole.rs  |  1 +
 src/base/write/mod.rs          | 11 +++++++++++
 3 files changed, 14 insertions(+)

diff --git a/src/base/write/entry_stream.rs b/src/base/write/entry_stream.rs
index 25b4a36..f12e9a4 100644
--- a/src/base/write/entry_stream.rs
+++ b/src/base/write/entry_stream.rs
@@ -52,6 +52,8 @@ impl<'b, W: AsyncWrite + Unpin> EntryStreamWriter<'b, W> {
         writer: &'b mut ZipFileWriter<W>,
         mut entry: ZipEntry,
     ) -> Result<EntryStreamWriter<'b, W>> {
+        super::ensure_can_compress(&entry)?;
+
         let lfh_offset = writer.writer.offset();
         let lfh = EntryStreamWriter::write_lfh(writer, &mut entry).await?;
         let data_offset = writer.writer.offset();
diff --git a/src/base/write/entry_whole.rs b/src/base/write/entry_whole.rs
index d61483b..706d526 100644
--- a/src/base/write/entry_whole.rs
+++ b/src/base/write/entry_whole.rs
@@ -154,6 +154,7 @@ impl<'b, 'c, W: AsyncWrite + Unpin> EntryWholeWriter<'b, 'c, W> {
             self.entry.uncompressed_size = self.data.len() as u64;
             self.entry.crc32 = crc32fast::hash(&self.data);
 
+            super::ensure_can_compress(&self.entry)?;
             self.compress().await;
         }
 
diff --git a/src/base/write/mod.rs b/src/base/write/mod.rs
index ae6788c..200b7f8 100644
--- a/src/base/write/mod.rs
+++ b/src/base/write/mod.rs
@@ -313,6 +313,17 @@ pub(crate) fn version_needed_to_extract(entry: &ZipEntry) -> u16 {
     }
 }
 
+/// Returns an error if an entry's data would have to be compressed by a method which is only supported when reading.
+pub(crate) fn ensure_can_compress(entry: &ZipEntry) -> Result<()> {
+    match entry.compression() {
+        #[cfg(feature = "deflate64")]
+        method @ crate::spec::Compression::Deflate64 => {
+            Err(crate::error::ZipError::CompressionNotSupported(method.into()))
+        }
+        _ => Ok(()),
+    }
+}
+
 pub(crate) fn get_or_put_info_zip_unicode_path_extra_field_mut(
     extra_fields: &mut Vec<ExtraField>,
 ) -> &mut InfoZipUnicodePathExtraField {
-- 
2.43.0

