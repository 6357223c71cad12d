From 18d47741cc8a12fd9a6e5c60e3e0cb539c235f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:11 +0000
Subject: [PATCH 1/9] fix: arithmetic overflow on the size of an ASF header
 object

---
 src/readers.rs | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/readers.rs b/src/readers.rs
index ce1318c..e3edad3 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -92,12 +92,20 @@ impl crate::FileFormat {
 
         // Iterates through the header objects.
         for _ in 0..std::cmp::min(OBJECT_LIMIT, number_of_header_objects as usize) {
+            // Retrieves the object offset.
+            let object_offset = reader.stream_position()?;
+
             // Reads the object GUID.
             let guid = reader.read_guid()?;
 
             // Reads the object size.
             let size = reader.read_u64_le()?;
 
+            // Calculates the next object offset.
+            let next_object_offset = object_offset
+                .checked_add(size)
+                .ok_or_else(|| Error::new(ErrorKind::InvalidData, "invalid object size"))?;
+
             // Checks the object GUID.
             match guid.as_str() {
                 STREAM_PROPERTIES_OBJECT_GUID => {
@@ -110,17 +118,11 @@ impl crate::FileFormat {
                         VIDEO_MEDIA_GUID => video_stream = true,
                         _ => {}
                     }
-
-                    // Seeks to the next object.
-                    reader.seek(SeekFrom::Current(size as i64 - 40))?;
                 }
                 EXTENDED_CONTENT_DESCRIPTION_OBJECT_GUID => {
                     // Reads the content descriptors count.
                     let count = reader.read_u16_le()?;
 
-                    // Calculates the offset of the content descriptors.
-                    let offset = reader.stream_position()?;
-
                     // Iterates through the content descriptors.
                     for _ in 0..std::cmp::min(DESCRIPTOR_LIMIT, count as usize) {
                         // Reads the descriptor name length.
@@ -145,15 +147,12 @@ impl crate::FileFormat {
                         // Seeks to the next content descriptor.
                         reader.seek(SeekFrom::Current(len as i64))?;
                     }
-
-                    // Seeks to the next object.
-                    reader.seek(SeekFrom::Start(offset + size - 26))?;
-                }
-                _ => {
-                    // Seeks to the next object.
-                    reader.seek(SeekFrom::Current(size as i64 - 24))?;
                 }
+                _ => {}
             }
+
+            // Seeks to the next object.
+            reader.seek(SeekFrom::Start(next_object_offset))?;
         }
 
         // Determines the file format based on the identified streams.
-- 
2.43.0


From ceff67e52627026e7b6a23d14910958c1049755b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:15 +0000
Subject: [PATCH 2/9] fix: overflow and wrong next offset of MP4 boxes with an
 extended size

---
 src/readers.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/readers.rs b/src/readers.rs
index e3edad3..7b65b4a 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -551,6 +551,9 @@ impl crate::FileFormat {
         // Iterates through boxes.
         let mut box_count = 0;
         while box_count < BOX_LIMIT && reader.stream_position()? < len {
+            // Retrieves the box offset.
+            let box_offset = reader.stream_position()?;
+
             // Reads the box size.
             let size = reader.read_u32_be()?;
 
@@ -564,6 +567,11 @@ impl crate::FileFormat {
                 size as u64
             };
 
+            // Calculates the next box offset.
+            let next_box_offset = box_offset
+                .checked_add(size)
+                .ok_or_else(|| Error::new(ErrorKind::InvalidData, "invalid box size"))?;
+
             // Checks the box type.
             match box_type.as_slice() {
                 b"moov" | b"trak" | b"mdia" => {}
@@ -581,11 +589,11 @@ impl crate::FileFormat {
                     }
 
                     // Seeks to the next box.
-                    reader.seek(SeekFrom::Current(size as i64 - 20))?;
+                    reader.seek(SeekFrom::Start(next_box_offset))?;
                 }
                 _ => {
                     // Seeks to the next box.
-                    reader.seek(SeekFrom::Current(size as i64 - 8))?;
+                    reader.seek(SeekFrom::Start(next_box_offset))?;
                 }
             }
 
-- 
2.43.0


From 02fafce77453b63f1a81a8706ac9d9e9d5c69eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:20 +0000
Subject: [PATCH 3/9] fix: arithmetic overflow on the offset of the ZIP64 EOCD
 record

---
 src/readers.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/readers.rs b/src/readers.rs
index 7b65b4a..265eec0 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -916,7 +916,10 @@ impl crate::FileFormat {
             let eocd64_offset = reader.read_u64_le()?;
 
             // Reads the number of entries.
-            reader.seek(SeekFrom::Start(eocd64_offset + 32))?;
+            let offset = eocd64_offset
+                .checked_add(32)
+                .ok_or_else(|| Error::new(ErrorKind::InvalidData, "invalid EOCD64 offset"))?;
+            reader.seek(SeekFrom::Start(offset))?;
             let number_of_entries = reader.read_u64_le()?;
 
             // Reads the start of central directory offset.
-- 
2.43.0


From 1d52a55ecf0505aaddee63045e1b00ae8db7c91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:24 +0000
Subject: [PATCH 4/9] fix: allocation of up to 4 GB for the mimetype entry of a
 ZIP archive

---
 src/readers.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/readers.rs b/src/readers.rs
index 265eec0..cc642c1 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -864,6 +864,9 @@ impl crate::FileFormat {
         // Maximum number of entries that can be processed by the reader.
         const ENTRY_LIMIT: usize = 1024;
 
+        // Maximum size of a mimetype entry that can be handled by the reader.
+        const MIMETYPE_LIMIT: usize = 256;
+
         // Signature of the ZIP64 end of central directory locator.
         const EOCD64_LOCATOR_SIGNATURE: &[u8] = b"PK\x06\x07";
 
@@ -1005,7 +1008,8 @@ impl crate::FileFormat {
                     ))?;
 
                     // Reads the data.
-                    let data = reader.read_string(compressed_size as usize)?;
+                    let data = reader
+                        .read_string(std::cmp::min(MIMETYPE_LIMIT, compressed_size as usize))?;
 
                     // Checks the trimmed data.
                     return Ok(match data.trim() {
-- 
2.43.0


From 7667ec3f42c2cf730e0bcb73252f6a11c8cf5177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:29 +0000
Subject: [PATCH 5/9] fix: extended header of an ID3v2 tag counted twice

---
 src/readers.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/readers.rs b/src/readers.rs
index cc642c1..cef031c 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -482,19 +482,12 @@ impl crate::FileFormat {
                 | ((buf[8] as u64 & 0x7F) << 7)
                 | (buf[9] as u64 & 0x7F);
 
-            // Checks for extended header flag.
-            let flags = buf[5];
-            let extended_header_present = (flags & 0x40) != 0;
-            let footer_present = (flags & 0x10) != 0;
+            // Checks for footer flag.
+            let footer_present = (buf[5] & 0x10) != 0;
 
-            // Calculates next offset.
+            // Calculates next offset (the tag size includes the extended header).
             let mut next_offset = offset + 10 + tag_size;
 
-            // Skips extended header if present.
-            if extended_header_present {
-                next_offset += reader.read_u32_be()? as u64;
-            }
-
             // Adds footer size if present.
             if footer_present {
                 next_offset += 10;
-- 
2.43.0


From 924e93a3f4d23f7ab551d47d124ba04396d9a233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:33 +0000
Subject: [PATCH 6/9] fix: unbounded number of ID3v2 tags and overflow of their
 offset

---
 src/readers.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/readers.rs b/src/readers.rs
index cef031c..13ad093 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -464,9 +464,12 @@ impl crate::FileFormat {
     /// Determines file format from an ID3v2 reader.
     #[cfg(feature = "reader-id3v2")]
     pub(crate) fn from_id3v2_reader<R: Read + Seek>(mut reader: R) -> Result<Self> {
+        // Maximum number of tags that can be processed by the reader.
+        const TAG_LIMIT: usize = 64;
+
         // Loops while in ID3v2 segment.
         let mut offset = 0;
-        loop {
+        for _ in 0..TAG_LIMIT {
             // Reads first 10 bytes.
             reader.seek(SeekFrom::Start(offset))?;
             let buf = reader.read_bytes(10)?;
-- 
2.43.0


From 0fbe2a83b090a5c00b6848cee1381cc768047ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:37 +0000
Subject: [PATCH 7/9] fix: size of the EBML StereoMode element ignored

---
 src/readers.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/readers.rs b/src/readers.rs
index 13ad093..3854843 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -271,6 +271,9 @@ impl crate::FileFormat {
         // Maximum size of a DocType that can be processed by the reader.
         const DOC_TYPE_LIMIT: usize = 8;
 
+        // Maximum size of a StereoMode that can be processed by the reader.
+        const STEREO_MODE_LIMIT: usize = 8;
+
         // DocType element ID.
         const DOC_TYPE_ELEMENT_ID: u32 = 0x4282;
 
@@ -390,12 +393,17 @@ impl crate::FileFormat {
                 }
                 STEREO_MODE_ELEMENT_ID => {
                     // Reads the StereoMode.
-                    let stereo_mode = reader.read_u8()?;
+                    let stereo_mode =
+                        reader.read_bytes(std::cmp::min(STEREO_MODE_LIMIT, size as usize))?;
 
                     // Checks the StereoMode.
-                    if stereo_mode > 0 {
+                    if stereo_mode.iter().any(|&byte| byte > 0) {
                         return Ok(Self::Matroska3dVideo);
                     }
+
+                    // Skips the remaining size.
+                    let remaining_size = size.saturating_sub(STEREO_MODE_LIMIT as u64);
+                    reader.seek(SeekFrom::Current(remaining_size as i64))?;
                 }
                 CLUSTER_ELEMENT_ID => break,
                 _ => {
-- 
2.43.0


From abdb06ff8ba1efd3783008bfcc740a92e828e209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:42 +0000
Subject: [PATCH 8/9] fix: UTF-8 text reported as binary when the read limit
 cuts a character

---
 src/readers.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/readers.rs b/src/readers.rs
index 3854843..3937192 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -768,13 +768,20 @@ impl crate::FileFormat {
         // Creates a buffered reader.
         let mut reader = BufReader::new(reader);
 
+        // Extends the limit to the end of the character it would cut, if any.
+        reader.seek(SeekFrom::Start(READ_LIMIT))?;
+        let mut limit = READ_LIMIT;
+        while limit < READ_LIMIT + 3 && matches!(reader.read_u8(), Ok(0x80..=0xBF)) {
+            limit += 1;
+        }
+
         // Rewinds to the beginning of the stream.
         reader.rewind()?;
 
         // Determines if the reader contains only ASCII/UTF-8-encoded text by checking the first
         // lines for control characters other than whitespaces.
         reader
-            .take(READ_LIMIT)
+            .take(limit)
             .lines()
             .take(LINE_LIMIT)
             .try_for_each(|line| {
-- 
2.43.0


From 658a81026ba2e45367a5d4c8f7243148ddbbd682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:14 +0000
Subject: [PATCH 9/9] fix: answer depends on short or interrupted reads

---
 src/lib.rs     |  6 +++---
 src/readers.rs | 29 ++++++++++++++---------------
 2 files changed, 17 insertions(+), 18 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index b5f26ed..22b948f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -291,13 +291,13 @@ impl FileFormat {
     ///```
     pub fn from_reader<R: Read + Seek>(mut reader: R) -> Result<Self> {
         // Creates and fills a buffer.
-        let mut buf = [0; 36_870];
-        let nread = reader.read(&mut buf)?;
+        let mut buf = Vec::new();
+        let nread = reader.by_ref().take(36_870).read_to_end(&mut buf)?;
 
         // Determines file format.
         Ok(if nread == 0 {
             Self::Empty
-        } else if let Some(fmt) = Self::from_signature(&buf[..nread]) {
+        } else if let Some(fmt) = Self::from_signature(&buf) {
             Self::from_fmt_reader(fmt, &mut reader)
                 .unwrap_or_else(|_| Self::from_generic_reader(&mut reader))
         } else {
diff --git a/src/readers.rs b/src/readers.rs
index 3937192..5c8b644 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -636,28 +636,28 @@ impl crate::FileFormat {
         reader.seek(SeekFrom::Start(5))?;
 
         // Creates a buffer to hold the chunk of data being read.
-        let mut buf = [0; OVERLAP_SIZE + CHUNK_SIZE];
+        let mut buf = Vec::with_capacity(OVERLAP_SIZE + CHUNK_SIZE);
 
         // Reads the data from the stream in chunks.
         let mut total_nread = 0;
         while total_nread < READ_LIMIT {
+            // Keeps only the end of the previous chunk.
+            buf.drain(..buf.len().saturating_sub(OVERLAP_SIZE));
+
             // Reads a chunk of the stream into the buffer.
-            let nread = reader.read(&mut buf[OVERLAP_SIZE..])?;
+            let nread = reader
+                .by_ref()
+                .take(CHUNK_SIZE as u64)
+                .read_to_end(&mut buf)?;
             if nread == 0 {
                 break;
             }
 
-            // Determines the start index for searching the buffer.
-            let start = if total_nread == 0 { OVERLAP_SIZE } else { 0 };
-
             // Checks if the buffer holds the AI file format marker.
-            if buf[start..OVERLAP_SIZE + nread].holds(AI_MARKER) {
+            if buf.holds(AI_MARKER) {
                 return Ok(Self::AdobeIllustratorArtwork);
             }
 
-            // Rotates the buffer to the right by the overlap size.
-            buf[..OVERLAP_SIZE + nread].rotate_right(OVERLAP_SIZE);
-
             // Updates the total bytes read.
             total_nread += nread;
         }
@@ -744,11 +744,11 @@ impl crate::FileFormat {
         reader.seek(SeekFrom::Start(100))?;
 
         // Creates and fills a buffer.
-        let mut buf = [0; 32_768];
-        let nread = reader.read(&mut buf)?;
+        let mut buf = Vec::new();
+        reader.take(32_768).read_to_end(&mut buf)?;
 
         // Checks if the buffer holds the Sketch file format marker.
-        if buf[..nread].holds(SKETCH_MARKER) {
+        if buf.holds(SKETCH_MARKER) {
             return Ok(Self::Sketch);
         }
 
@@ -801,9 +801,8 @@ impl crate::FileFormat {
         reader.seek(SeekFrom::Start(5))?;
 
         // Creates and fills a buffer.
-        let mut buf = [0; 8192];
-        let nread = reader.read(&mut buf)?;
-        let buf = &buf[..nread];
+        let mut buf = Vec::new();
+        reader.take(8192).read_to_end(&mut buf)?;
 
         // Checks if the buffer holds markers indicating the presence of various file formats.
         Ok(if buf.holds("<abiword template=\"false\"") {
-- 
2.43.0

