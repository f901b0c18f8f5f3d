From 87ba44098a68e41a3e697a70cbaadfd393e9671f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:38 +0000
Subject: [PATCH 01/21] fix: SigningBlock::from_u8 underflows on a magic near
 the start or a tiny size

---
 src/signing_block/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/signing_block/mod.rs b/src/signing_block/mod.rs
index 1ef991c..5e0ac3d 100644
--- a/src/signing_block/mod.rs
+++ b/src/signing_block/mod.rs
@@ -620,7 +620,10 @@ impl SigningBlock {
                 }
             };
             if magic == MAGIC {
-                let size_part = match data.get(start_magic - SIZE_UINT64..start_magic) {
+                let size_part = match start_magic
+                    .checked_sub(SIZE_UINT64)
+                    .and_then(|size_pos| data.get(size_pos..start_magic))
+                {
                     Some(v) => v,
                     None => {
                         return Err(format!(
@@ -639,8 +642,7 @@ impl SigningBlock {
                     ));
                 }
 
-                let start_full_block = match start_magic.checked_sub(size - MAGIC_LEN + SIZE_UINT64)
-                {
+                let start_full_block = match end_magic.checked_sub(size + SIZE_UINT64) {
                     Some(v) => v,
                     None => {
                         return Err(format!(
-- 
2.43.0


From e56f89b418bc5e7e05c7999a3e3f534b8177c211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:38 +0000
Subject: [PATCH 02/21] fix: mismatched block sizes in untrusted data trip a
 debug assertion

---
 src/signing_block/mod.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/signing_block/mod.rs b/src/signing_block/mod.rs
index 5e0ac3d..870e601 100644
--- a/src/signing_block/mod.rs
+++ b/src/signing_block/mod.rs
@@ -535,7 +535,6 @@ impl SigningBlock {
                 }
             };
         let end_block_size = u64::from_le_bytes(create_fixed_buffer_8(end_size)) as usize;
-        debug_assert_eq!(start_block_size, end_block_size);
         if start_block_size != end_block_size {
             return Err(format!(
                 "Error: start_block_size {} is different from end_block_size {}",
-- 
2.43.0


From f4a0d90698ae01d1f4f84b1d3dffde787fd0533f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:38 +0000
Subject: [PATCH 03/21] fix: ElfSectionInfo::parse allocates for an untrusted
 section count

---
 src/signing_block/elf_section_info.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/signing_block/elf_section_info.rs b/src/signing_block/elf_section_info.rs
index adef9e9..2e63666 100644
--- a/src/signing_block/elf_section_info.rs
+++ b/src/signing_block/elf_section_info.rs
@@ -132,7 +132,8 @@ impl ElfSectionInfo {
     /// Returns error if parsing fails
     pub fn parse(size: usize, id: u32, data: &mut MyReader) -> Result<Self, String> {
         let section_count = data.read_u32()?;
-        let mut sections = Vec::with_capacity(section_count as usize);
+        // section_count is untrusted: let the vector grow with the entries actually present
+        let mut sections = Vec::new();
         for _ in 0..section_count {
             sections.push(SectionEntry::parse(data)?);
         }
-- 
2.43.0


From d4f91643ef42258368e5695e130d4017523f7493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:25 +0000
Subject: [PATCH 04/21] fix: nested records may claim a size beyond the data
 that holds them

---
 src/common.rs                  | 14 ++++++++------
 src/signing_block/scheme_v2.rs |  1 +
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/common.rs b/src/common.rs
index 3fede1c..1bbab57 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -37,6 +37,7 @@ impl Digest {
     /// Returns a string if the data is not valid.
     pub fn parse(data: &mut MyReader) -> Result<Self, String> {
         let size = data.read_size()?;
+        let data = &mut data.as_slice(size)?;
         let signature_algorithm_id = data.read_u32()?;
         let algo = Algorithms::from(signature_algorithm_id);
         let digest_size = data.read_size()?;
@@ -153,8 +154,8 @@ impl Certificates {
             size: size_certificates,
             certificates_data: Vec::new(),
         };
-        let pos_max_cert = data.get_pos() + size_certificates;
-        while data.get_pos() < pos_max_cert {
+        let data = &mut data.as_slice(size_certificates)?;
+        while data.get_pos() < data.len() {
             certificates
                 .certificates_data
                 .push(Certificate::parse(data)?);
@@ -279,8 +280,8 @@ impl Signatures {
         if size == 0 {
             return Ok(signatures);
         }
-        let max_signatures = data.get_pos() + size;
-        while data.get_pos() < max_signatures {
+        let data = &mut data.as_slice(size)?;
+        while data.get_pos() < data.len() {
             signatures.signatures_data.push(Signature::parse(data)?);
         }
         Ok(signatures)
@@ -332,6 +333,7 @@ impl Signature {
     /// Returns a string if the data is not valid.
     pub fn parse(data: &mut MyReader) -> Result<Self, String> {
         let size = data.read_size()?;
+        let data = &mut data.as_slice(size)?;
         let signature_algorithm_id = data.read_u32()?;
         let algo = Algorithms::from(signature_algorithm_id);
         let signature_size = data.read_size()?;
@@ -394,8 +396,8 @@ impl AdditionalAttributes {
             size: size_additional_attributes,
             additional_attributes_data: Vec::new(),
         };
-        let max_pos_attributes = data.get_pos() + size_additional_attributes;
-        while data.get_pos() < max_pos_attributes {
+        let data = &mut data.as_slice(size_additional_attributes)?;
+        while data.get_pos() < data.len() {
             additional_attributes
                 .additional_attributes_data
                 .push(AdditionalAttribute::parse(data)?);
diff --git a/src/signing_block/scheme_v2.rs b/src/signing_block/scheme_v2.rs
index 6363254..9960397 100644
--- a/src/signing_block/scheme_v2.rs
+++ b/src/signing_block/scheme_v2.rs
@@ -122,6 +122,7 @@ impl Signer {
     /// Returns a string if the parsing fails.
     pub fn parse(data: &mut MyReader) -> Result<Self, String> {
         let size_one_signer = data.read_size()?;
+        let data = &mut data.as_slice(size_one_signer)?;
         let signed_data = SignedData::parse(data)?;
         let signatures = Signatures::parse(data)?;
         let pub_key = PubKey::parse(data)?;
-- 
2.43.0


From df3ea931c34813d56632e4ea5f902ca839104fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:25 +0000
Subject: [PATCH 05/21] fix: decoder silently drops bytes it does not
 understand inside known pairs

---
 src/signing_block/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/signing_block/mod.rs b/src/signing_block/mod.rs
index 870e601..c9c9fca 100644
--- a/src/signing_block/mod.rs
+++ b/src/signing_block/mod.rs
@@ -178,6 +178,14 @@ impl ValueSigningBlock {
                 data: block_value.to_vec(),
             }),
         };
+        // Signatures are verified over the re-serialized value: accept only bytes it reproduces exactly
+        let header_len = SIZE_UINT64 + mem::size_of::<u32>();
+        if block_to_add.to_u8().get(header_len..) != Some(block_value.to_vec().as_slice()) {
+            return Err(format!(
+                "Error: non-canonical encoding of pair 0x{:08x}",
+                pair_id
+            ));
+        }
         Ok(block_to_add)
     }
 
-- 
2.43.0


From e228ba76d80226be055650c358b4c32c6655d8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:16 +0000
Subject: [PATCH 06/21] fix: module whose central directory offset lies beyond
 the EOCD makes digest computation underflow

---
 src/file_formats/module/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/file_formats/module/mod.rs b/src/file_formats/module/mod.rs
index e436a67..1ff736f 100644
--- a/src/file_formats/module/mod.rs
+++ b/src/file_formats/module/mod.rs
@@ -247,7 +247,14 @@ impl Module {
     /// Or a problem occurs
     pub fn find_eocd(&self) -> Result<EndOfCentralDirectoryRecord, std::io::Error> {
         let mut file = File::open(&self.path)?;
-        find_eocd(&mut file, self.file_len)
+        let eocd = find_eocd(&mut file, self.file_len)?;
+        if eocd.cd_offset as usize > eocd.file_offset {
+            return Err(std::io::Error::new(
+                std::io::ErrorKind::InvalidData,
+                "Central directory offset lies beyond the EOCD",
+            ));
+        }
+        Ok(eocd)
     }
 
     /// Get the offsets of the Module file.
-- 
2.43.0


From 310835d22c5fc7a1f8706a3cf1c5c8c8dcaa6d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:16 +0000
Subject: [PATCH 07/21] fix: a signing block magic inside module content is
 mistaken for the module's own signing block

---
 src/file_formats/module/mod.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/file_formats/module/mod.rs b/src/file_formats/module/mod.rs
index 1ff736f..91a9ce1 100644
--- a/src/file_formats/module/mod.rs
+++ b/src/file_formats/module/mod.rs
@@ -11,7 +11,7 @@ use std::{
     path::PathBuf,
 };
 
-use crate::SigningBlock;
+use crate::{SigningBlock, MAGIC, MAGIC_LEN};
 use zip::{find_eocd, EndOfCentralDirectoryRecord, FileOffsets};
 
 #[cfg(feature = "hash")]
@@ -91,7 +91,21 @@ impl Module {
                 // This tells from_reader to stop searching at the Central Directory position
                 let end_offset = self.file_len.saturating_sub(cd_offset);
 
-                let file = File::open(&self.path)?;
+                let mut file = File::open(&self.path)?;
+
+                // The block ends exactly where the Central Directory starts.
+                // A magic anywhere else is ordinary content (e.g. a stored signed file).
+                let mut magic = [0u8; MAGIC_LEN];
+                if let Some(magic_offset) = cd_offset.checked_sub(MAGIC_LEN) {
+                    file.seek(std::io::SeekFrom::Start(magic_offset as u64))?;
+                    file.read_exact(&mut magic)?;
+                }
+                if magic != *MAGIC {
+                    return Err(std::io::Error::other(
+                        "Magic not found before the Central Directory",
+                    ));
+                }
+
                 let sig = SigningBlock::from_reader(file, self.file_len, end_offset)?;
                 Ok(sig)
             }
-- 
2.43.0


From 3281fa8de00b1124783fb0b6e6d1a375a785d287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:31 +0000
Subject: [PATCH 08/21] fix: reporting that a block cannot be padded underflows
 instead of returning the error

---
 src/signing_block/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/signing_block/mod.rs b/src/signing_block/mod.rs
index c9c9fca..8f9cd6f 100644
--- a/src/signing_block/mod.rs
+++ b/src/signing_block/mod.rs
@@ -300,7 +300,7 @@ impl SigningBlock {
                         return Err(std::io::Error::other(
                             format!(
                                 "Error: remaining size {} is too low to add padding block - try to manually pad the inner block",
-                                4096 - v - mem::size_of::<u32>() - mem::size_of::<u64>()
+                                4096 - v
                             ),
                         ));
                     }
-- 
2.43.0


From 8327b4b262da51c9c27dccbeee4d4a27624d94cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:31 +0000
Subject: [PATCH 09/21] fix: digests depend on how the underlying reader splits
 its reads

---
 src/file_formats/elf/digest.rs    | 13 +++++++-----
 src/file_formats/module/digest.rs | 35 +++++++++++++++++--------------
 2 files changed, 27 insertions(+), 21 deletions(-)

diff --git a/src/file_formats/elf/digest.rs b/src/file_formats/elf/digest.rs
index 947e502..e233ba6 100644
--- a/src/file_formats/elf/digest.rs
+++ b/src/file_formats/elf/digest.rs
@@ -2,7 +2,7 @@
 
 #![cfg(feature = "elf")]
 
-use std::io::{self, BufRead, BufReader, Read, Seek, SeekFrom};
+use std::io::{self, BufReader, Read, Seek, SeekFrom};
 
 use crate::signing_block::algorithms::Algorithms;
 
@@ -59,13 +59,16 @@ pub fn digest_elf_sections<R: Read + Seek>(
         let mut reader = BufReader::with_capacity(CHUNK_SIZE, taker);
 
         loop {
-            let chunk = reader.fill_buf()?;
-            let length = chunk.len();
+            // full sized chunks unless the section ends, however the reader splits its reads
+            let mut chunk = Vec::new();
+            let length = reader
+                .by_ref()
+                .take(CHUNK_SIZE as u64)
+                .read_to_end(&mut chunk)?;
             if length == 0 {
                 break;
             }
-            all_chunk_digests.push(digest_chunk(chunk, algo));
-            reader.consume(length);
+            all_chunk_digests.push(digest_chunk(&chunk, algo));
         }
 
         // Reset for next section
diff --git a/src/file_formats/module/digest.rs b/src/file_formats/module/digest.rs
index 382b72b..d800e2c 100644
--- a/src/file_formats/module/digest.rs
+++ b/src/file_formats/module/digest.rs
@@ -2,7 +2,7 @@
 //!
 //! Gated behind the `hash` feature
 
-use std::io::{self, BufRead, BufReader, Read, Seek, SeekFrom};
+use std::io::{self, BufReader, Read, Seek, SeekFrom};
 
 use super::zip::FileOffsets;
 use crate::signing_block::algorithms::Algorithms;
@@ -24,6 +24,15 @@ fn digest_chunk(chunk: &[u8], sig: &Algorithms) -> Vec<u8> {
     sig.hash(&data)
 }
 
+/// Read the next chunk: full sized unless the data ends, however the reader splits its reads
+/// # Errors
+/// Returns an error if the file cannot be read
+fn read_chunk<R: Read>(reader: &mut R) -> Result<Vec<u8>, io::Error> {
+    let mut chunk = Vec::new();
+    reader.take(CHUNK_SIZE as u64).read_to_end(&mut chunk)?;
+    Ok(chunk)
+}
+
 /// Digest the contents of ZIP entries
 /// # Errors
 /// Returns an error if the file cannot be read
@@ -40,13 +49,11 @@ pub fn digest_zip_contents<R: Read + Seek>(
     let mut reader = BufReader::with_capacity(CHUNK_SIZE, taker);
     let mut digestives = Vec::new();
     loop {
-        let chunk = reader.fill_buf()?;
-        let length = chunk.len();
-        if length == 0 {
+        let chunk = read_chunk(&mut reader)?;
+        if chunk.is_empty() {
             break;
         }
-        digestives.push(digest_chunk(chunk, sig));
-        reader.consume(length);
+        digestives.push(digest_chunk(&chunk, sig));
     }
     Ok(digestives)
 }
@@ -66,13 +73,11 @@ pub fn digest_central_directory<R: Read + Seek>(
     let mut reader = BufReader::with_capacity(CHUNK_SIZE, taker);
     let mut digestives = Vec::new();
     loop {
-        let chunk = reader.fill_buf()?;
-        let length = chunk.len();
-        if length == 0 {
+        let chunk = read_chunk(&mut reader)?;
+        if chunk.is_empty() {
             break;
         }
-        digestives.push(digest_chunk(chunk, sig));
-        reader.consume(length);
+        digestives.push(digest_chunk(&chunk, sig));
     }
     Ok(digestives)
 }
@@ -110,14 +115,12 @@ pub fn digest_end_of_central_directory<R: Read + Seek>(
     let mut reader = BufReader::with_capacity(CHUNK_SIZE, reader);
     let mut digestives = Vec::new();
     loop {
-        let chunk = reader.fill_buf()?;
-        let length = chunk.len();
-        if length == 0 {
+        let chunk = read_chunk(&mut reader)?;
+        if chunk.is_empty() {
             break;
         }
-        let digest = digest_chunk(chunk, sig);
+        let digest = digest_chunk(&chunk, sig);
         digestives.push(digest);
-        reader.consume(length);
     }
     Ok(digestives)
 }
-- 
2.43.0


From 9f213a4490a71524da4b430f77464d80880b5a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:45 +0000
Subject: [PATCH 10/21] fix: bytes after the EOCD are covered by the digest but
 lost or misplaced when signing and stripping

---
 src/file_formats/module/mod.rs | 33 +++++++++++++++++++++------------
 src/signable.rs                |  8 +++++++-
 2 files changed, 28 insertions(+), 13 deletions(-)

diff --git a/src/file_formats/module/mod.rs b/src/file_formats/module/mod.rs
index 91a9ce1..1cfff25 100644
--- a/src/file_formats/module/mod.rs
+++ b/src/file_formats/module/mod.rs
@@ -366,19 +366,28 @@ impl Module {
 
         let eocd_serialized = eocd.to_u8();
 
-        let end_without_sig =
-            match full_raw_file.get(end_sig..(full_raw_file.len() - eocd_serialized.len())) {
-                Some(data) => data,
-                None => {
-                    return Err(std::io::Error::new(
-                        std::io::ErrorKind::InvalidData,
-                        "Invalid end signature",
-                    ))
-                }
-            };
+        let end_without_sig = match full_raw_file.get(end_sig..eocd.file_offset) {
+            Some(data) => data,
+            None => {
+                return Err(std::io::Error::new(
+                    std::io::ErrorKind::InvalidData,
+                    "Invalid end signature",
+                ))
+            }
+        };
 
-        let module_without_signature =
-            [start_without_sig, end_without_sig, &eocd_serialized].concat();
+        // bytes after the EOCD belong to the file and to its digest
+        let trailing = full_raw_file
+            .get(eocd.file_offset + eocd_serialized.len()..)
+            .unwrap_or_default();
+
+        let module_without_signature = [
+            start_without_sig,
+            end_without_sig,
+            &eocd_serialized,
+            trailing,
+        ]
+        .concat();
 
         Ok(module_without_signature)
     }
diff --git a/src/signable.rs b/src/signable.rs
index 3309b75..d334189 100644
--- a/src/signable.rs
+++ b/src/signable.rs
@@ -380,7 +380,13 @@ impl Signable for Module {
         eocd.cd_offset = new_cd_offset as u32;
 
         debug_assert_eq!(cd_size + eocd_size + cd_offset, raw_bytes.len());
-        writer.write_all(&eocd.to_u8())?;
+        let eocd_bytes = eocd.to_u8();
+        writer.write_all(&eocd_bytes)?;
+        // bytes after the EOCD belong to the file and to its digest
+        let trailing_slice = raw_bytes
+            .get(eocd_offset + eocd_bytes.len()..)
+            .unwrap_or_default();
+        writer.write_all(trailing_slice)?;
         Ok(())
     }
 }
-- 
2.43.0


From bc8df6b182e2f48ed0432e08e89d0cd2f32bb5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:01 +0000
Subject: [PATCH 11/21] fix: a module signed in memory is digested and written
 with the layout of a file that does not exist yet

---
 src/file_formats/module/mod.rs | 38 +++++++++++++++++++++++-----------
 src/signable.rs                |  4 ++--
 2 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/src/file_formats/module/mod.rs b/src/file_formats/module/mod.rs
index 1cfff25..4c87935 100644
--- a/src/file_formats/module/mod.rs
+++ b/src/file_formats/module/mod.rs
@@ -62,6 +62,16 @@ impl Module {
         })
     }
 
+    /// The Module file as it is on disk, without a signing block kept in memory
+    pub(crate) fn on_disk(&self) -> Self {
+        Self {
+            raw: self.raw,
+            path: self.path.clone(),
+            file_len: self.file_len,
+            sig: None,
+        }
+    }
+
     /// Decode the signing block of the Module file.
     ///
     /// The signing block is located between the ZIP content and the Central Directory.
@@ -327,7 +337,7 @@ impl Module {
     #[cfg(feature = "hash")]
     pub fn digest(&self, algo: &Algorithms) -> Result<Vec<u8>, std::io::Error> {
         let mut file = File::open(&self.path)?;
-        let offsets = self.get_offsets()?;
+        let offsets = self.on_disk().get_offsets()?;
         digest_module(&mut file, &offsets, algo)
     }
 
@@ -341,7 +351,7 @@ impl Module {
             return Ok(full_raw_file);
         }
 
-        let sig = self.get_signing_block()?;
+        let sig = self.on_disk().get_signing_block()?;
 
         let start_sig = sig.file_offset_start;
         let end_sig = sig.file_offset_end;
@@ -397,12 +407,11 @@ impl Module {
     /// Returns a string if the writing fails.
     pub fn write_with_signature<W: Write>(&self, writer: &mut W) -> Result<(), std::io::Error> {
         let sig = self.get_signing_block()?;
-        let offsets = self.get_offsets()?;
+        // a signing block already in the file is replaced
+        let offsets = self.on_disk().get_offsets()?;
         let mut eocd = self.find_eocd()?;
-        eocd.cd_offset = eocd
-            .cd_offset
-            .checked_add(sig.get_full_size() as u32)
-            .ok_or_else(|| {
+        eocd.cd_offset =
+            u32::try_from(offsets.stop_content + sig.get_full_size()).map_err(|_| {
                 std::io::Error::new(
                     std::io::ErrorKind::InvalidData,
                     "Invalid signing block: offset overflow when adding signature",
@@ -421,15 +430,20 @@ impl Module {
 
         // copy zip central directory
         let mut file_reader_end = File::open(&self.path)?;
-        let seek_end = (offsets.start_cd - sig.get_full_size()) as u64;
-        file_reader_end.seek(std::io::SeekFrom::Start(seek_end))?;
-        let take = (offsets.stop_eocd - offsets.start_cd - eocd_len) as u64;
+        file_reader_end.seek(std::io::SeekFrom::Start(offsets.start_cd as u64))?;
+        let take = (offsets.stop_cd - offsets.start_cd) as u64;
         let mut file_reader_end = file_reader_end.take(take);
         copy(&mut file_reader_end, writer)?;
 
         // copy end of central directory
         writer.write_all(&oecd_serialized)?;
 
+        // copy what follows the end of central directory
+        let mut file_reader_end = file_reader_end.into_inner();
+        let seek_end = (offsets.start_eocd + eocd_len) as u64;
+        file_reader_end.seek(std::io::SeekFrom::Start(seek_end))?;
+        copy(&mut file_reader_end, writer)?;
+
         Ok(())
     }
 
@@ -480,8 +494,8 @@ impl Module {
             SigningBlock::new_with_padding(vec![ValueSigningBlock::new_v2(Signers::new(vec![
                 one_signer,
             ]))])?;
-        let eocd = self.find_eocd()?;
-        signing_block.offset_by(eocd.cd_offset as usize);
+        let offsets = self.on_disk().get_offsets()?;
+        signing_block.offset_by(offsets.stop_content);
 
         self.sig = Some(signing_block);
         Ok(())
diff --git a/src/signable.rs b/src/signable.rs
index d334189..6a0b8f2 100644
--- a/src/signable.rs
+++ b/src/signable.rs
@@ -280,7 +280,7 @@ impl Signable for Module {
     }
 
     fn digest_regions(&self) -> Result<Vec<DigestRegion>, Self::Error> {
-        let offsets = Self::get_offsets(self)?;
+        let offsets = Self::get_offsets(&self.on_disk())?;
         Ok(vec![
             DigestRegion {
                 name: "zip_entries".to_string(),
@@ -328,7 +328,7 @@ impl Signable for Module {
 
         let signing_block_bytes = signing_block.to_u8();
 
-        let (raw_bytes, mut eocd) = match Self::get_signing_block(self) {
+        let (raw_bytes, mut eocd) = match Self::get_signing_block(&self.on_disk()) {
             Ok(_) => {
                 // Existing valid signature - strip it via get_raw_module
                 let bytes = Self::get_raw_module(self)?;
-- 
2.43.0


From d4b5932f74bd6a838a152b7cbadbb42c04cc25b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:27 +0000
Subject: [PATCH 12/21] fix: an untrusted section alignment makes ELF signing
 overflow or allocate without bound

---
 src/file_formats/elf/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/file_formats/elf/mod.rs b/src/file_formats/elf/mod.rs
index 7c48044..82f7471 100644
--- a/src/file_formats/elf/mod.rs
+++ b/src/file_formats/elf/mod.rs
@@ -27,6 +27,9 @@ pub const DEFAULT_SIGNED_SECTIONS: &[&str] = &[".text", ".rodata"];
 /// KSU signature section name
 pub const KSU_SIGN_SECTION: &str = ".ksu_sign";
 
+/// Largest alignment honoured when moving the section name table (64 KiB)
+const MAX_SECTION_ALIGN: usize = 1 << 16;
+
 /// ELF-specific error type
 #[derive(Debug)]
 pub enum ElfError {
@@ -224,6 +227,12 @@ impl ElfFile {
         let shstr_align = usize::try_from(shstrtab_header.sh_addralign)
             .unwrap_or(1)
             .max(1);
+        if shstr_align > MAX_SECTION_ALIGN {
+            return Err(ElfError::Value(format!(
+                "section name 表对齐过大: {}",
+                shstr_align
+            )));
+        }
 
         if shstrtab_bytes.len() as u64 != shstrtab_header.sh_size {
             let new_offset = append_aligned(&mut output, &shstrtab_bytes, shstr_align);
-- 
2.43.0


From 499c1eae0fb0f844a58532f3dc4940439f17f243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:27 +0000
Subject: [PATCH 13/21] fix: an ELF section reaching beyond the end of the file
 is digested as if it were shorter

---
 src/file_formats/elf/digest.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/file_formats/elf/digest.rs b/src/file_formats/elf/digest.rs
index e233ba6..5a4fb25 100644
--- a/src/file_formats/elf/digest.rs
+++ b/src/file_formats/elf/digest.rs
@@ -52,11 +52,12 @@ pub fn digest_elf_sections<R: Read + Seek>(
     let mut all_chunk_digests = Vec::new();
 
     // Note: sections are expected to be pre-sorted by offset from collect_sections()
-    for (_name, offset, size) in sections {
+    for (name, offset, size) in sections {
         // Calculate chunked digest for each section
         file.seek(SeekFrom::Start(*offset))?;
         let taker = file.take(*size);
         let mut reader = BufReader::with_capacity(CHUNK_SIZE, taker);
+        let mut remaining = *size;
 
         loop {
             // full sized chunks unless the section ends, however the reader splits its reads
@@ -68,9 +69,17 @@ pub fn digest_elf_sections<R: Read + Seek>(
             if length == 0 {
                 break;
             }
+            remaining = remaining.saturating_sub(length as u64);
             all_chunk_digests.push(digest_chunk(&chunk, algo));
         }
 
+        if remaining > 0 {
+            return Err(io::Error::new(
+                io::ErrorKind::UnexpectedEof,
+                format!("section {} extends beyond the end of the file", name),
+            ));
+        }
+
         // Reset for next section
         file.seek(SeekFrom::Start(0))?;
     }
-- 
2.43.0


From 736e2b49fc7eac0f6dbd81144e766522ad30fa68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:09 +0000
Subject: [PATCH 14/21] fix: a damaged certificate in a chain file silently
 shortens the chain

---
 src/keystore.rs | 23 ++---------------------
 1 file changed, 2 insertions(+), 21 deletions(-)

diff --git a/src/keystore.rs b/src/keystore.rs
index b79599e..87081f6 100644
--- a/src/keystore.rs
+++ b/src/keystore.rs
@@ -191,22 +191,6 @@ fn parse_private_key_pem(
     ))
 }
 
-/// Parse a certificate from PEM format and return DER bytes
-/// # Errors
-/// Returns an error if the PEM data is invalid
-fn parse_certificate_pem(pem_data: &[u8]) -> Result<Vec<u8>, KeystoreError> {
-    let pem = pem::parse(pem_data).map_err(|e| KeystoreError::PemError(e.to_string()))?;
-
-    if pem.tag() != "CERTIFICATE" {
-        return Err(KeystoreError::CertError(format!(
-            "Expected CERTIFICATE, got {}",
-            pem.tag()
-        )));
-    }
-
-    Ok(pem.into_contents())
-}
-
 /// Parse certificate chain from PEM format
 ///
 /// Supports both single certificate and certificate chain files.
@@ -254,11 +238,8 @@ fn parse_certificate_chain_pem(pem_data: &[u8]) -> Result<(Vec<u8>, Vec<Vec<u8>>
 
             Ok((end_entity, chain))
         }
-        Err(_) => {
-            // Fallback: try to parse as single certificate
-            let cert = parse_certificate_pem(pem_data)?;
-            Ok((cert, Vec::new()))
-        }
+        // Falling back to the first certificate alone would silently shorten the chain
+        Err(e) => Err(KeystoreError::PemError(e.to_string())),
     }
 }
 
-- 
2.43.0


From 3c8d4ff110c02e72871a99b96f73cd94e4ebb449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:04 +0000
Subject: [PATCH 15/21] fix: signing a file in place truncates it before it has
 been read

---
 src/cli/sign.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/cli/sign.rs b/src/cli/sign.rs
index c0b7876..a072ce0 100644
--- a/src/cli/sign.rs
+++ b/src/cli/sign.rs
@@ -7,8 +7,6 @@ use ksusig::{
 };
 #[cfg(feature = "elf")]
 use ksusig::{signing_block::elf_section_info::ElfSectionInfo, ValueSigningBlock};
-use std::fs::File;
-use std::io::{BufWriter, Write};
 use std::path::PathBuf;
 
 /// Arguments for the sign command
@@ -201,9 +199,10 @@ pub fn execute(args: SignArgs) -> Result<(), Box<dyn std::error::Error>> {
 
     // Write output file
     println!("Writing signed module...");
-    let mut writer = BufWriter::new(File::create(&args.output)?);
-    signable.write_with_signature(&mut writer, &signing_block)?;
-    writer.flush()?;
+    // The output may be the input itself: finish reading it before anything is overwritten
+    let mut signed = Vec::new();
+    signable.write_with_signature(&mut signed, &signing_block)?;
+    std::fs::write(&args.output, signed)?;
 
     println!("✓ Signing successful!");
     println!("Output file: {}", args.output.display());
-- 
2.43.0


From 435d36ec6f24063841c865f2e7426dc3fbac5e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:45 +0000
Subject: [PATCH 16/21] fix: signed ELF loses its block alignment and may
 exceed the block size limit

---
 src/cli/sign.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/cli/sign.rs b/src/cli/sign.rs
index a072ce0..a8521df 100644
--- a/src/cli/sign.rs
+++ b/src/cli/sign.rs
@@ -6,7 +6,10 @@ use ksusig::{
     load_p12, load_pem, FileFormat, ModuleSigner, ModuleSignerConfig, SignableFile,
 };
 #[cfg(feature = "elf")]
-use ksusig::{signing_block::elf_section_info::ElfSectionInfo, ValueSigningBlock};
+use ksusig::{
+    signing_block::{elf_section_info::ElfSectionInfo, VERITY_PADDING_BLOCK_ID},
+    SigningBlock, ValueSigningBlock,
+};
 use std::path::PathBuf;
 
 /// Arguments for the sign command
@@ -185,10 +188,11 @@ pub fn execute(args: SignArgs) -> Result<(), Box<dyn std::error::Error>> {
                 .map(|(name, offset, size)| (name.as_str(), *offset, *size))
                 .collect(),
         );
-        signing_block
-            .content
-            .push(ValueSigningBlock::ElfSectionInfoBlock(section_info));
-        signing_block.recalculate_size();
+        // Rebuild the block, so that the section list counts against its size limit and padding
+        let mut content = signing_block.content;
+        content.retain(|block| block.id() != VERITY_PADDING_BLOCK_ID);
+        content.push(ValueSigningBlock::ElfSectionInfoBlock(section_info));
+        signing_block = SigningBlock::new_with_padding(content)?;
     }
 
     let signing_block_size = signing_block.to_u8().len();
-- 
2.43.0


From 073092778802cb8a59df1364968f93f92c4ee3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:52 +0000
Subject: [PATCH 17/21] fix: a signer without any signature is reported as
 having a valid signature

---
 src/verifier.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/verifier.rs b/src/verifier.rs
index 5177e15..a4559f8 100644
--- a/src/verifier.rs
+++ b/src/verifier.rs
@@ -695,8 +695,8 @@ impl SignatureVerifier {
                         }
                     };
 
-                    // Verify each signature
-                    let mut sig_valid = true;
+                    // Verify each signature (a signer without any signature is not valid)
+                    let mut sig_valid = !signer.signatures.signatures_data.is_empty();
                     for sig in signer.signatures.signatures_data.iter() {
                         let algo = &sig.signature_algorithm_id;
 
@@ -848,8 +848,8 @@ impl SignatureVerifier {
                     }
                 };
 
-                // Verify each signature and digest
-                let mut sig_valid = true;
+                // Verify each signature and digest (a stamp without any signature is not valid)
+                let mut sig_valid = !stamp_block.signatures.signatures_data.is_empty();
                 let mut digest_verified = false;
 
                 for sig in &stamp_block.signatures.signatures_data {
-- 
2.43.0


From d69b94713b9c30506e29f48f1250d76f6c09b3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:52 +0000
Subject: [PATCH 18/21] fix: a block without any signature is reported as fully
 verified

---
 src/verifier.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/verifier.rs b/src/verifier.rs
index a4559f8..20911a9 100644
--- a/src/verifier.rs
+++ b/src/verifier.rs
@@ -192,7 +192,7 @@ impl VerifyAllResult {
     /// - Certificate chain is valid
     /// - Certificate is trusted (signed by a trusted root)
     ///
-    /// Blocks that are not present (NoSignature) are ignored.
+    /// Blocks that are not present (NoSignature) are ignored, but at least one must be present.
     ///
     /// **Important**: If you call verification without a digest context, `digest_valid`
     /// will be false and this method will return false. Use `verify_all_with_digest`
@@ -203,7 +203,7 @@ impl VerifyAllResult {
             || matches!(&self.v2, Err(VerifyError::NoSignature));
         let stamp_ok = matches!(&self.source_stamp, Ok(r) if r.signature_valid && r.digest_valid && r.cert_chain_valid && r.is_trusted)
             || matches!(&self.source_stamp, Err(VerifyError::NoSignature));
-        v2_ok && stamp_ok
+        v2_ok && stamp_ok && (self.has_v2() || self.has_source_stamp())
     }
 
     /// Check if V2 signature exists (regardless of validity)
-- 
2.43.0


From 437baa9fae093850506d9c444e62d21feaad3140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:55 +0000
Subject: [PATCH 19/21] fix: dumping regions onto the input file destroys it

---
 src/cli/digest.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cli/digest.rs b/src/cli/digest.rs
index b520720..3d19e47 100644
--- a/src/cli/digest.rs
+++ b/src/cli/digest.rs
@@ -128,6 +128,12 @@ fn dump_regions(
     output_path: &PathBuf,
 ) -> Result<(), Box<dyn std::error::Error>> {
     let mut input = File::open(input_path)?;
+    // Creating the output truncates it: it must not be the file that is still to be read
+    if let Ok(existing) = output_path.canonicalize() {
+        if existing == input_path.canonicalize()? {
+            return Err("Cannot dump regions onto the input file itself".into());
+        }
+    }
     let mut output = File::create(output_path)?;
 
     // Use a fixed-size buffer for streaming copy to avoid OOM on large files
-- 
2.43.0


From 0ba460c2fb66ac2e30db569c6b78873ce0661d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:39 +0000
Subject: [PATCH 20/21] fix: the signing block of an ELF is reported at the
 wrong file offset

---
 src/file_formats/elf/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/file_formats/elf/mod.rs b/src/file_formats/elf/mod.rs
index 82f7471..da04908 100644
--- a/src/file_formats/elf/mod.rs
+++ b/src/file_formats/elf/mod.rs
@@ -181,7 +181,10 @@ impl ElfFile {
                 .get(start..end)
                 .ok_or_else(|| ElfError::Value("签名段范围越界".to_string()))?;
             return SigningBlock::from_u8(bytes)
-                .map(Some)
+                .map(|mut block| {
+                    block.offset_by(start);
+                    Some(block)
+                })
                 .map_err(|e| ElfError::Value(format!("无法解析签名块: {}", e)));
         }
         Ok(None)
-- 
2.43.0


From 71244887756249f48efb38610664ddf75b0c8baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:39 +0000
Subject: [PATCH 21/21] fix: info reports any bytes that look like a signing
 block

---
 src/cli/info.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/cli/info.rs b/src/cli/info.rs
index 2381ab0..49d0640 100644
--- a/src/cli/info.rs
+++ b/src/cli/info.rs
@@ -1,9 +1,7 @@
 //! Info command - Display signing block information
 
 use clap::Args;
-use ksusig::{SignatureVerifier, SigningBlock};
-use std::fs::File;
-use std::io::{BufReader, Seek, SeekFrom};
+use ksusig::{SignableFile, SignatureVerifier};
 use std::path::PathBuf;
 
 use super::cert::{describe_certificate, describe_chain};
@@ -18,16 +16,25 @@ pub struct InfoArgs {
 
 /// Execute the info command
 pub fn execute(args: InfoArgs) -> Result<(), Box<dyn std::error::Error>> {
-    let file = File::open(&args.module)?;
-    let mut reader = BufReader::new(file);
-
-    let file_len = reader.seek(SeekFrom::End(0))? as usize;
+    let file_len = std::fs::metadata(&args.module)?.len();
 
     println!("File: {}", args.module.display());
     println!("File size: {} bytes", file_len);
     println!();
 
-    match SigningBlock::from_reader(reader, file_len, 0) {
+    // Only the block at the signature's place counts: the same bytes elsewhere are ordinary content
+    let sig_block = match SignableFile::open(&args.module)? {
+        SignableFile::Module(module) => module.get_signing_block(),
+        #[cfg(feature = "elf")]
+        SignableFile::Elf(elf) => elf
+            .get_signing_block()
+            .map_err(std::io::Error::other)
+            .and_then(|block| {
+                block.ok_or_else(|| std::io::Error::other("No signing block in the ELF file"))
+            }),
+    };
+
+    match sig_block {
         Ok(sig_block) => {
             println!("✓ KSU signing block found");
             println!(
-- 
2.43.0

