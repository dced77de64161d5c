From 7499987fb4c964f6a348ce48f2183a9a3a016cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:47 +0000
Subject: [PATCH 01/29] fix: detect chain loops when opening a writer

ChainWriter::new() followed the chain to its tail without loop detection,
so opening a writer for a file with a cyclic sector chain never returned.
Report ChainLoop, as ChainIterator does.
---
 src/disk/chain.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/disk/chain.rs b/src/disk/chain.rs
index 03e3365..bba0119 100644
--- a/src/disk/chain.rs
+++ b/src/disk/chain.rs
@@ -220,7 +220,13 @@ impl ChainWriter {
 
             let mut block = blocks.sector(start)?;
             tail_location = start;
+            let mut visited_sectors = HashSet::new();
+            visited_sectors.insert(start);
             while let ChainLink::Next(location) = ChainLink::new(block)? {
+                // Loop detection.
+                if !visited_sectors.insert(location) {
+                    return Err(DiskError::ChainLoop.into());
+                }
                 block = blocks.sector(location)?;
                 tail_location = location;
             }
-- 
2.43.0


From 943772a8c3f67cca2bdab593e4414f2caecccefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:58 +0000
Subject: [PATCH 02/29] fix: write the record length of REL directory entries

RelativeExtra::to_bytes() never stored record_length, so an edited record
length was silently dropped, and Convert-style serializations into a fresh
buffer lost it.
---
 src/disk/directory.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/disk/directory.rs b/src/disk/directory.rs
index 3ccc898..0252f93 100644
--- a/src/disk/directory.rs
+++ b/src/disk/directory.rs
@@ -282,6 +282,7 @@ impl RelativeExtra {
         assert_eq!(bytes.len(), EXTRA_SIZE);
         bytes[Self::FIRST_SIDE_SECTOR_OFFSET] = self.first_side_sector.0;
         bytes[Self::FIRST_SIDE_SECTOR_OFFSET + 1] = self.first_side_sector.1;
+        bytes[Self::RECORD_LENGTH_OFFSET] = self.record_length;
         (&mut bytes[Self::UNUSED_OFFSET..EXTRA_SIZE]).copy_from_slice(&self.unused);
     }
 }
-- 
2.43.0


From 4596b0ced1c92f69789b2c81d61776aacef99db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:08 +0000
Subject: [PATCH 03/29] fix: reject malformed REL files instead of panicking

Opening a REL file whose directory entry has a record length of zero divided
by zero, and a side sector whose tail link leaves fewer than 16 bytes in use
was sliced out of bounds.  Both now return InvalidRelativeFile.
---
 src/disk/file.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/disk/file.rs b/src/disk/file.rs
index 35b6c9c..fbbc652 100644
--- a/src/disk/file.rs
+++ b/src/disk/file.rs
@@ -340,6 +340,9 @@ impl RelativeFile {
             Extra::Relative(ref e) => (e.record_length as usize, e.first_side_sector),
             _ => return Err(DiskError::InvalidRelativeFile.into()),
         };
+        if record_size == 0 {
+            return Err(DiskError::InvalidRelativeFile.into());
+        }
 
         // Find side sectors.  Side sector locations are stored redundantly -- once as
         // a linked chain of sectors, and also as a list within each side
@@ -354,6 +357,11 @@ impl RelativeFile {
             let sector = sector?;
             side_sectors.push(sector.location);
 
+            // The side sector header must be present in its entirety.
+            if sector.data.len() < SIDE_SECTOR_DATA_OFFSET {
+                return Err(DiskError::InvalidRelativeFile.into());
+            }
+
             // Process the list of side sectors which is contained within each side sector.
             let list_bytes = &sector.data
                 [SIDE_SECTOR_SSLIST_OFFSET..SIDE_SECTOR_SSLIST_OFFSET + MAX_SIDE_SECTORS * 2];
-- 
2.43.0


From e1875397249bb7dddf639801c42717026934ceaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:17 +0000
Subject: [PATCH 04/29] fix: do not treat the VLIR index block's link as a
 record

GEOSFile::new() parsed the index block from offset 0, so the (0x00,0xFF) link
bytes showed up as a bogus empty record 0 and every real record was shifted
by one, in disagreement with GEOSReader and with the GEOS format.
---
 src/disk/geos/file.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/disk/geos/file.rs b/src/disk/geos/file.rs
index 7970c11..a9a524d 100644
--- a/src/disk/geos/file.rs
+++ b/src/disk/geos/file.rs
@@ -28,7 +28,8 @@ impl GEOSFile {
         let vlir = if entry.is_vlir()? {
             let blocks = blocks.borrow();
             let index_block = blocks.sector(entry.first_sector)?;
-            let records: Vec<Option<Location>> = index_block
+            // The first two bytes are the index block's own chain link, not a record.
+            let records: Vec<Option<Location>> = index_block[2..]
                 .chunks(2)
                 .take_while(|chunk| chunk[0] != 0x00 || chunk[1] != 0x00)
                 .map(|chunk| {
-- 
2.43.0


From a08d3c9527e0676868914482f1d05eb50757fa42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:22 +0000
Subject: [PATCH 05/29] fix: bounds-check locations passed to the BAM

Bam::entry(), allocate() and free() indexed the entry table and shifted the
bitmap without checking the location, so track 0, tracks 36-40 of a 40-track
D64 (reachable by deleting a file stored there), or a nonexistent sector
panicked or corrupted the free count.  Return InvalidLocation.
---
 src/disk/bam.rs | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/disk/bam.rs b/src/disk/bam.rs
index ef90a2f..8d61737 100644
--- a/src/disk/bam.rs
+++ b/src/disk/bam.rs
@@ -273,24 +273,48 @@ impl Bam {
         blocks_free
     }
 
+    /// Return the index of the entry for the specified track.  Not every track
+    /// of an image is necessarily tracked in BAM.  (E.g. tracks 36-40 of a
+    /// 40-track D64 image.)
+    fn entry_index(&self, track: u8) -> io::Result<usize> {
+        let index = track as usize;
+        if index < 1 || index > self.entries.len() {
+            return Err(DiskError::InvalidLocation.into());
+        }
+        Ok(index - 1)
+    }
+
+    /// Confirm that the specified location is tracked in this BAM.
+    fn check_location(&self, location: Location) -> io::Result<()> {
+        self.entry_index(location.0)?;
+        if location.1 >= self.format.sectors_in_track(location.0) {
+            return Err(DiskError::InvalidLocation.into());
+        }
+        Ok(())
+    }
+
     pub fn entry(&self, track: u8) -> io::Result<&BamEntry> {
         self.check_validity()?;
-        Ok(&self.entries[(track - 1) as usize])
+        let index = self.entry_index(track)?;
+        Ok(&self.entries[index])
     }
 
     pub fn entry_mut(&mut self, track: u8) -> io::Result<&mut BamEntry> {
         self.check_validity()?;
-        Ok(&mut self.entries[(track - 1) as usize])
+        let index = self.entry_index(track)?;
+        Ok(&mut self.entries[index])
     }
 
     pub fn allocate(&mut self, location: Location) -> io::Result<()> {
         self.check_validity()?;
+        self.check_location(location)?;
         self.entry_mut(location.0)?.allocate(location.1);
         Ok(())
     }
 
     pub fn free(&mut self, location: Location) -> io::Result<()> {
         self.check_validity()?;
+        self.check_location(location)?;
         self.entry_mut(location.0)?.free(location.1);
         Ok(())
     }
-- 
2.43.0


From b7ef6f13c94937e34afd0c12a83e4681ae6a6c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:33 +0000
Subject: [PATCH 06/29] fix: make deletion all-or-nothing and flush every freed
 sector

Deleting a REL file freed its side sectors, and deleting a GEOS sequential
file freed its info block, only in memory: the on-image BAM was flushed
before and the sectors stayed allocated after reopening the image.  A
corrupt VLIR record chain made delete() fail after the other sectors were
already freed, and on a read-only image the in-memory BAM was changed before
the ReadOnly error.  Collect all sectors first, check that they can be
freed, then free and flush them together.
---
 src/disk/bam.rs       | 13 +++++++++++++
 src/disk/chain.rs     | 18 ++++++------------
 src/disk/file.rs      | 27 ++++++++++-----------------
 src/disk/geos/file.rs | 21 ++++-----------------
 4 files changed, 33 insertions(+), 46 deletions(-)

diff --git a/src/disk/bam.rs b/src/disk/bam.rs
index 8d61737..4e57262 100644
--- a/src/disk/bam.rs
+++ b/src/disk/bam.rs
@@ -319,6 +319,19 @@ impl Bam {
         Ok(())
     }
 
+    /// Mark all of the provided locations as free, or none of them if any of
+    /// them is not tracked in this BAM.
+    pub fn free_all(&mut self, locations: &[Location]) -> io::Result<()> {
+        self.check_validity()?;
+        for location in locations {
+            self.check_location(*location)?;
+        }
+        for location in locations {
+            self.free(*location)?;
+        }
+        Ok(())
+    }
+
     pub fn next_free_block(&self, previous: Option<Location>) -> io::Result<Location> {
         self.check_validity()?;
         self.format.next_free_block(self, previous)
diff --git a/src/disk/chain.rs b/src/disk/chain.rs
index bba0119..d63792f 100644
--- a/src/disk/chain.rs
+++ b/src/disk/chain.rs
@@ -369,17 +369,11 @@ impl io::Write for ChainWriter {
     }
 }
 
-pub fn remove_chain(blocks: BlockDeviceRef, bam: BamRef, start: Location) -> io::Result<()> {
-    // Read the whole chain first to be sure we can visit every block with no
-    // errors.
-    let locations = ChainIterator::new(blocks, start).locations()?;
-
-    // Deallocate
+/// Deallocate the provided sectors.  Either all of them are deallocated and
+/// the BAM is updated on the disk image, or nothing is changed.
+pub fn free_sectors(blocks: BlockDeviceRef, bam: BamRef, locations: &[Location]) -> io::Result<()> {
+    blocks.borrow().check_writability()?;
     let mut bam = bam.borrow_mut();
-    for location in locations {
-        bam.free(location)?;
-    }
-    bam.flush()?;
-
-    Ok(())
+    bam.free_all(locations)?;
+    bam.flush()
 }
diff --git a/src/disk/file.rs b/src/disk/file.rs
index fbbc652..5a5739d 100644
--- a/src/disk/file.rs
+++ b/src/disk/file.rs
@@ -236,12 +236,11 @@ impl FileOps for LinearFile {
     }
 
     fn delete(&mut self) -> io::Result<()> {
-        // Deallocate the chain.
-        chain::remove_chain(
-            self.blocks.clone(),
-            self.bam.clone(),
-            self.entry.first_sector,
-        )?;
+        // Read the whole chain first to be sure we can visit every block with no
+        // errors, and then deallocate it.
+        let locations = self.occupied_sectors()?;
+        chain::free_sectors(self.blocks.clone(), self.bam.clone(), &locations)?;
+
         // Mark the file as "DEL" and "open" (*DEL) in the directory.
         self.entry.file_attributes.file_type = FileType::DEL;
         self.entry.file_attributes.closed_flag = false;
@@ -477,17 +476,11 @@ impl FileOps for RelativeFile {
     }
 
     fn delete(&mut self) -> io::Result<()> {
-        // Deallocate the chain.
-        chain::remove_chain(
-            self.blocks.clone(),
-            self.bam.clone(),
-            self.entry.first_sector,
-        )?;
-
-        // Deallocate side sectors
-        for side_sector in self.side_sectors.iter() {
-            self.bam.borrow_mut().free(*side_sector)?
-        }
+        // Deallocate the chain and the side sectors.
+        let mut locations =
+            ChainIterator::new(self.blocks.clone(), self.entry.first_sector).locations()?;
+        locations.extend(self.side_sectors.iter());
+        chain::free_sectors(self.blocks.clone(), self.bam.clone(), &locations)?;
 
         // Mark the file as "DEL" and "open" (*DEL) in the directory.
         self.entry.file_attributes.file_type = FileType::DEL;
diff --git a/src/disk/geos/file.rs b/src/disk/geos/file.rs
index a9a524d..34c6a77 100644
--- a/src/disk/geos/file.rs
+++ b/src/disk/geos/file.rs
@@ -89,24 +89,11 @@ impl FileOps for GEOSFile {
     }
 
     fn delete(&mut self) -> io::Result<()> {
-        // Deallocate the main chain (Sequential) or index block (VLIR).
-        chain::remove_chain(
-            self.blocks.clone(),
-            self.bam.clone(),
-            self.entry.first_sector,
-        )?;
-
-        // Deallocate the info block, if present.
-        if let Some(info_location) = self.entry.info_location()? {
-            self.bam.borrow_mut().free(info_location)?
-        }
+        // Deallocate the main chain (Sequential) or index block (VLIR), the info
+        // block (if present), and the VLIR records (if this is a VLIR file).
+        let locations = self.occupied_sectors()?;
+        chain::free_sectors(self.blocks.clone(), self.bam.clone(), &locations)?;
 
-        // If this is a VLIR file, deallocate the VLIR records.
-        if let Some(ref records) = self.vlir {
-            for record in records.iter().flatten() {
-                chain::remove_chain(self.blocks.clone(), self.bam.clone(), *record)?;
-            }
-        }
         // Mark the file as "DEL" and "open" (*DEL) in the directory.
         self.entry.file_attributes.file_type = FileType::DEL;
         self.entry.file_attributes.closed_flag = false;
-- 
2.43.0


From 789bfa90f9527280491dc8241f1cec19df8e16c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:27 +0000
Subject: [PATCH 07/29] fix: keep the on-image BAM and directory consistent in
 create_file

create_file() (and next_free_directory_entry(), when it extends the
directory) allocated sectors only in memory, so unless a writer was opened
later the image was left with a file occupying sectors marked free, which a
later session would hand out again.  On a read-only image the in-memory BAM
lost a block before the ReadOnly error, and on a full disk the directory
could be extended before DiskFull was reported.  Check writability and space
first, and flush the BAM after each allocation.
---
 src/disk/directory.rs |  1 +
 src/disk/mod.rs       | 11 ++++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/disk/directory.rs b/src/disk/directory.rs
index 0252f93..dd7bfc2 100644
--- a/src/disk/directory.rs
+++ b/src/disk/directory.rs
@@ -772,6 +772,7 @@ where
     {
         let mut bam = bam.borrow_mut();
         bam.allocate(new_sector)?;
+        bam.flush()?;
     }
 
     // Link to the new sector from the old sector
diff --git a/src/disk/mod.rs b/src/disk/mod.rs
index 856d63f..2f5f1e8 100644
--- a/src/disk/mod.rs
+++ b/src/disk/mod.rs
@@ -423,18 +423,25 @@ pub trait Disk {
         // Only Scheme::Linear files allow writing at present.
         assert_eq!(scheme, Scheme::Linear);
 
+        // Don't change any state if we can't write to this disk.
+        self.blocks_ref().check_writability()?;
+
         // Assure the filename is valid and available.
         directory::check_filename_validity(filename)?;
         self.check_filename_availability(filename)?;
 
+        // Make sure a data block is available before possibly extending the directory.
+        let bam = self.bam()?;
+        bam.borrow().next_free_block(None)?;
+
         // Find the next available directory slot
         let mut entry = self.next_free_directory_entry()?;
 
         // Find and allocate the first sector for this new file
-        let bam = self.bam()?;
         let mut bam = bam.borrow_mut();
         let first_sector = bam.next_free_block(None)?;
         bam.allocate(first_sector)?;
+        bam.flush()?;
 
         // Initialize the first sector with link bytes [0x00,0x01] to indicate that it
         // is a tail block of zero length.
@@ -461,7 +468,9 @@ pub trait Disk {
             Err(e) => {
                 // If the directory entry could not be written, roll back the BAM allocation
                 // before returning an error.
+                drop(blocks);
                 bam.free(first_sector)?;
+                bam.flush()?;
                 return Err(e);
             }
         }
-- 
2.43.0


From 2dd5377f98381d2af352b49295368a9fa8ccfc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:36 +0000
Subject: [PATCH 08/29] fix: do not return the same GEOS stream bytes twice

GEOSReader::read() left the bytes it had just returned in its buffer whenever
they exactly filled the caller's buffer, so reading with a buffer smaller
than the current segment repeated data forever.
---
 src/disk/geos/reader.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/disk/geos/reader.rs b/src/disk/geos/reader.rs
index dfa2a1c..347adb0 100644
--- a/src/disk/geos/reader.rs
+++ b/src/disk/geos/reader.rs
@@ -213,6 +213,9 @@ impl Read for GEOSReader {
             let _ = &mut buf[..bytes].copy_from_slice(&self.buffer[..bytes]);
             bytes_written += bytes;
 
+            // Reduce the input buffer
+            self.buffer.drain(0..bytes);
+
             if bytes == buf.len() {
                 // Output buffer filled -- nothing more to do for now.
                 break;
@@ -223,9 +226,6 @@ impl Read for GEOSReader {
             let value: &mut [u8] = std::mem::take(buf_ref);
             *buf_ref = &mut value[bytes..];
 
-            // Reduce the input buffer
-            self.buffer.drain(0..bytes);
-
             // Input buffer drained -- transition to next step
             if self.buffer.is_empty() {
                 // State transition
-- 
2.43.0


From 5b3e0e4bc4abeae7e3fe6180d3d7d83e6b68319e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:46 +0000
Subject: [PATCH 09/29] fix: serialize the GEOS info description into its own
 field

GEOSInfo::to_bytes() wrote the 96-byte description into the 20-byte
application field, which always panicked.
---
 src/disk/geos/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disk/geos/mod.rs b/src/disk/geos/mod.rs
index 924f454..09cd212 100644
--- a/src/disk/geos/mod.rs
+++ b/src/disk/geos/mod.rs
@@ -331,7 +331,7 @@ impl GEOSInfo {
             .slice_mut(Self::RESERVED_OFFSET, Self::RESERVED_SIZE)
             .copy_from_slice(&self.reserved);
         self.description
-            .to_bytes(bytes.slice_mut(Self::APPLICATION_OFFSET, Self::APPLICATION_SIZE));
+            .to_bytes(bytes.slice_mut(Self::DESCRIPTION_OFFSET, Self::DESCRIPTION_SIZE));
     }
 }
 
-- 
2.43.0


From 9f7a4e575f44df9bfbd94c79954ed8992bd7ffc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:57 +0000
Subject: [PATCH 10/29] fix: skip partial directory entries when looking for a
 free slot

next_free_directory_entry() panicked when the last directory sector's tail
link left a partial 32-byte entry at the end.  Skip it, as DirectoryIterator
does.
---
 src/disk/directory.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/disk/directory.rs b/src/disk/directory.rs
index dd7bfc2..3323c5a 100644
--- a/src/disk/directory.rs
+++ b/src/disk/directory.rs
@@ -717,7 +717,8 @@ where
             let ChainSector { data, location } = chain_block?;
             last_sector = location;
             let mut offset: u8 = 0;
-            for chunk in data.chunks(ENTRY_SIZE) {
+            // Ignore any partial entry at the end of a short tail block.
+            for chunk in data.chunks_exact(ENTRY_SIZE) {
                 let entry = DirectoryEntry::from_positioned_bytes(
                     chunk,
                     Position {
-- 
2.43.0


From e66f342d0518c52da3e134e4d04fa12c3674161f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:08 +0000
Subject: [PATCH 11/29] fix: reset the storage scheme along with the directory
 entry

DirectoryEntry::reset() replaced the extra bytes with linear ones but kept
the scheme of the scratched file whose slot is reused, so a file created in
the slot of a deleted GEOS or REL file could not be opened through its
entry (and panicked for GEOS).
---
 src/disk/directory.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/disk/directory.rs b/src/disk/directory.rs
index 3323c5a..e471417 100644
--- a/src/disk/directory.rs
+++ b/src/disk/directory.rs
@@ -457,6 +457,7 @@ impl DirectoryEntry {
         self.first_sector = Location::new(0, 0);
         self.filename = Petscii::from_bytes(&[0u8; ENTRY_FILENAME_LENGTH]);
         self.extra = Extra::default();
+        self.scheme = Scheme::Linear;
         self.file_size = 0;
         // The position field must be left untouched.
     }
-- 
2.43.0


From edbc4eb50e92dfd0705422a782bedbd924645325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:59 +0000
Subject: [PATCH 12/29] fix: reject an overlong disk name before erasing the
 disk

write_format() zeroed every sector and only then failed with FilenameTooLong
while writing the header, destroying the disk's contents on a failed call.
---
 src/disk/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/disk/mod.rs b/src/disk/mod.rs
index 2f5f1e8..0965d22 100644
--- a/src/disk/mod.rs
+++ b/src/disk/mod.rs
@@ -285,6 +285,11 @@ pub trait Disk {
     fn write_format(&mut self, name: &Petscii, id: &Id) -> io::Result<()> {
         let disk_format = self.native_disk_format();
 
+        // Validate the disk name before destroying anything.
+        if name.len() > DISK_NAME_SIZE {
+            return Err(DiskError::FilenameTooLong.into());
+        }
+
         // Zero all sectors
         let track_count = self.blocks_ref().geometry().tracks;
         for track in disk_format.first_track..=track_count {
-- 
2.43.0


From 1b058f8bccec3562dd4009242f1e74c79981b729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:08 +0000
Subject: [PATCH 13/29] fix: create or overwrite the image file when create_new
 is false

Disk image create() with create_new=false failed if the file did not exist,
and kept the previous file's bytes if it did, although it is documented to
overwrite any existing file.
---
 src/disk/image.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/disk/image.rs b/src/disk/image.rs
index ccad6ed..136f11b 100644
--- a/src/disk/image.rs
+++ b/src/disk/image.rs
@@ -34,6 +34,8 @@ impl Image {
         let file = OpenOptions::new()
             .read(true)
             .write(true)
+            .create(true)
+            .truncate(true)
             .create_new(create_new)
             .open(path)?;
         file.set_len(length as u64)?;
-- 
2.43.0


From e4f1f5032ec94f3c86ec88d6d03d95512eea88f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:18 +0000
Subject: [PATCH 14/29] fix: ignore trailing padding bytes when looking up a
 filename

Filenames are stored padded with 0xA0, so a name ending in 0xA0 reads back
without it.  Looking up such a name never matched: the file could not be
opened by the name it was created with, and a second file with the same
stored name could be created.
---
 src/disk/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/disk/mod.rs b/src/disk/mod.rs
index 0965d22..cc46b70 100644
--- a/src/disk/mod.rs
+++ b/src/disk/mod.rs
@@ -351,10 +351,13 @@ pub trait Disk {
 
     /// Locate a directory entry based on its filename.
     fn find_directory_entry(&self, filename: &Petscii) -> io::Result<DirectoryEntry> {
+        // Filenames are stored with trailing padding, so any trailing padding bytes
+        // are not significant.
+        let filename = Petscii::from_padded_bytes(filename.as_bytes(), PADDING_BYTE);
         self.iter()
             .find(|x| match x {
                 Err(_) => true,
-                Ok(ref entry) => entry.filename == *filename,
+                Ok(ref entry) => entry.filename == filename,
             })
             .unwrap_or_else(|| Err(DiskError::NotFound.into()))
     }
-- 
2.43.0


From 54eca64bfe55274ad1902d792b6d3a582385d079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:26 +0000
Subject: [PATCH 15/29] fix: reject out-of-range records of GEOS sequential
 files

record() returned the whole file for any index, although record_count() is 1.
---
 src/disk/geos/file.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/disk/geos/file.rs b/src/disk/geos/file.rs
index 34c6a77..fdf2001 100644
--- a/src/disk/geos/file.rs
+++ b/src/disk/geos/file.rs
@@ -60,7 +60,8 @@ impl GEOSFile {
                 Some(location) => *location,
                 None => return Err(DiskError::InvalidRecordIndex.into()),
             },
-            None => Some(self.entry.first_sector),
+            None if index == 0 => Some(self.entry.first_sector),
+            None => return Err(DiskError::InvalidRecordIndex.into()),
         })
     }
 
-- 
2.43.0


From ecf67418477388b5bcbe62db209da828af5f73f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:35 +0000
Subject: [PATCH 16/29] fix: report partial reads and writes instead of losing
 them

ChainWriter::write() returned an error (e.g. DiskFull) even when part of the
buffer had already been accepted and stored, and ChainReader::read() dropped
bytes it had already copied when a later link of the chain was bad.  The io
traits require an error to mean that no bytes were transferred: return the
partial count and the error on the following call.
---
 src/disk/chain.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/disk/chain.rs b/src/disk/chain.rs
index d63792f..5042871 100644
--- a/src/disk/chain.rs
+++ b/src/disk/chain.rs
@@ -133,6 +133,7 @@ impl Iterator for ChainIterator {
 pub struct ChainReader {
     chain: ChainIterator,
     block: Option<Vec<u8>>,
+    error: Option<io::Error>,
     eof: bool,
 }
 
@@ -142,6 +143,7 @@ impl ChainReader {
         ChainReader {
             chain,
             block: None,
+            error: None,
             eof: false,
         }
     }
@@ -150,6 +152,13 @@ impl ChainReader {
 impl io::Read for ChainReader {
     fn read(&mut self, mut buf: &mut [u8]) -> io::Result<usize> {
         let mut total_nbytes = 0;
+        if !buf.is_empty() {
+            // Return any error encountered after the bytes of the previous read.
+            if let Some(e) = self.error.take() {
+                self.eof = true;
+                return Err(e);
+            }
+        }
         while !buf.is_empty() && !self.eof {
             match self.block.take() {
                 Some(mut block) => {
@@ -182,6 +191,12 @@ impl io::Read for ChainReader {
                             // Loop back to the Some(_) case to process the block.
                         }
                         Some(Err(e)) => {
+                            if total_nbytes > 0 {
+                                // Deliver the bytes already read.  The error will be
+                                // returned from the next read.
+                                self.error = Some(e);
+                                return Ok(total_nbytes);
+                            }
                             self.eof = true;
                             return Err(e);
                         }
@@ -330,7 +345,13 @@ impl io::Write for ChainWriter {
                 ChainLink::Next(_) => unreachable!(), // The stored buffer is always a tail block.
                 ChainLink::Tail(nbytes) if nbytes == BLOCK_SIZE => {
                     // Allocate a new block
-                    let remaining = self.allocate_next_block()?;
+                    let remaining = match self.allocate_next_block() {
+                        Ok(remaining) => remaining,
+                        // Report the bytes already accepted.  The error will be returned from
+                        // the next write.
+                        Err(_) if total_nbytes > 0 => return Ok(total_nbytes),
+                        Err(e) => return Err(e),
+                    };
                     (BLOCK_SIZE - remaining, remaining)
                 }
                 ChainLink::Tail(nbytes) => (nbytes, BLOCK_SIZE - nbytes),
-- 
2.43.0


From 840ddaa5cee529c7e36c316d7bc9614f2eb01a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:07 +0000
Subject: [PATCH 17/29] fix: do not overflow the directory entry's block count

Appending to a file whose directory entry claims 65535 blocks overflowed:
a panic in debug builds, and a count of 0 in release builds.
---
 src/disk/chain.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/disk/chain.rs b/src/disk/chain.rs
index 5042871..9a083db 100644
--- a/src/disk/chain.rs
+++ b/src/disk/chain.rs
@@ -261,7 +261,8 @@ impl ChainWriter {
     fn increment_entry_blocks(&mut self) -> io::Result<()> {
         let mut blocks = self.blocks.borrow_mut();
         blocks.positioned_read(&mut self.entry)?;
-        self.entry.file_size += 1;
+        // The recorded size is only informational, and may already be bogus.
+        self.entry.file_size = self.entry.file_size.saturating_add(1);
         blocks.positioned_write(&self.entry)?;
         Ok(())
     }
-- 
2.43.0


From 7ad5225a9665a7466e7a829a734c6c987cbdeca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:15 +0000
Subject: [PATCH 18/29] fix: return FilenameTooLong from write_directory_entry

Writing an entry whose (public) filename exceeds 16 bytes panicked while
serializing it.
---
 src/disk/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/disk/mod.rs b/src/disk/mod.rs
index cc46b70..2f1aeda 100644
--- a/src/disk/mod.rs
+++ b/src/disk/mod.rs
@@ -373,6 +373,7 @@ pub trait Disk {
     /// Write the provided directory entry to disk, using the same slot as it was
     /// originally read from.
     fn write_directory_entry(&mut self, entry: &DirectoryEntry) -> io::Result<()> {
+        directory::check_filename_validity(&entry.filename)?;
         let mut blocks = self.blocks_ref_mut();
         blocks.positioned_write(entry)?;
         Ok(())
-- 
2.43.0


From 3f4a64a55b947353acfea19d717974882a5c15da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:24 +0000
Subject: [PATCH 19/29] fix: use the next-available-sector algorithm when
 extending files

The crate documents that it emulates the CBM DOS (or GEOS) "next available
track and sector" algorithm when writing files, but ChainWriter asked for a
first block each time, ignoring the previous block, so files were written
without any interleave and did not grow away from the directory track.
---
 src/disk/bam.rs   | 10 ++++++++++
 src/disk/chain.rs |  2 +-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/disk/bam.rs b/src/disk/bam.rs
index 4e57262..53567c2 100644
--- a/src/disk/bam.rs
+++ b/src/disk/bam.rs
@@ -337,6 +337,16 @@ impl Bam {
         self.format.next_free_block(self, previous)
     }
 
+    /// Return the next free block for extending a file whose last block is at
+    /// the provided location.  If that location isn't within the area where
+    /// files are allocated, treat this as a fresh allocation.
+    pub fn next_free_data_block(&self, previous: Location) -> io::Result<Location> {
+        let is_data_track = previous.0 >= self.format.first_track
+            && previous.0 <= self.format.last_track
+            && !self.format.is_reserved_track(previous.0);
+        self.next_free_block(if is_data_track { Some(previous) } else { None })
+    }
+
     pub fn flush(&mut self) -> io::Result<()> {
         self.check_validity()?;
         self.bam_rw.write(&self.entries)
diff --git a/src/disk/chain.rs b/src/disk/chain.rs
index 9a083db..138db53 100644
--- a/src/disk/chain.rs
+++ b/src/disk/chain.rs
@@ -276,7 +276,7 @@ impl ChainWriter {
         self.write_current_block()?;
 
         // Find a new block.
-        let next_location = self.bam.borrow_mut().next_free_block(None)?;
+        let next_location = self.bam.borrow().next_free_data_block(self.location)?;
 
         // Initialize a fresh block in memory with a link indicating a tail block with
         // zero bytes used. (Really, two bytes used for the link, but zero data
-- 
2.43.0


From 5ee17b2bd7b20177e4bbf71464f02aca9cc3b535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:04 +0000
Subject: [PATCH 20/29] fix: open the disk image for writing in cdisk append

The append command opened the image read-only, so it could never work.
---
 src/bin/cdisk.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/bin/cdisk.rs b/src/bin/cdisk.rs
index 9551127..ce6dcb7 100644
--- a/src/bin/cdisk.rs
+++ b/src/bin/cdisk.rs
@@ -305,21 +305,21 @@ fn cmd_bam_edit(
     bam.flush()
 }
 
-/// Open an existing CBM file from the specified disk image for reading.
-fn open_cbm_file(diskimage: &str, filename: &str) -> io::Result<File> {
+/// Open an existing CBM file from the specified disk image.
+fn open_cbm_file(diskimage: &str, filename: &str, writable: bool) -> io::Result<File> {
     // Open the CBM file
-    let disk = disk::open(diskimage, false)?;
+    let disk = disk::open(diskimage, writable)?;
     disk.open_file(&filename.into())
 }
 
 /// Open a file on a CBM disk image for reading.
 fn open_cbm_reader(diskimage: &str, filename: &str) -> io::Result<Box<dyn Read>> {
-    Ok(Box::new(open_cbm_file(diskimage, filename)?.reader()?))
+    Ok(Box::new(open_cbm_file(diskimage, filename, false)?.reader()?))
 }
 
 /// Open a file on a CBM disk image for appending.
 fn open_cbm_appender(diskimage: &str, filename: &str) -> io::Result<Box<dyn Write>> {
-    Ok(Box::new(open_cbm_file(diskimage, filename)?.writer()?))
+    Ok(Box::new(open_cbm_file(diskimage, filename, true)?.writer()?))
 }
 
 /// Open an existing GEOS file from the specified disk image for reading.
-- 
2.43.0


From e5c550496f255c3f2dc9e542a26d3ea95f917c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:12 +0000
Subject: [PATCH 21/29] fix: report an error for cdisk geosread on a non-GEOS
 file

It panicked in unreachable!() instead.
---
 src/bin/cdisk.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/bin/cdisk.rs b/src/bin/cdisk.rs
index ce6dcb7..d32dbe1 100644
--- a/src/bin/cdisk.rs
+++ b/src/bin/cdisk.rs
@@ -330,7 +330,12 @@ fn open_geos_file(diskimage: &str, filename: &str) -> io::Result<GEOSFile> {
     let file = match file {
         File::GEOSVLIR(f) => f,
         File::GEOSSequential(f) => f,
-        _ => unreachable!(),
+        _ => {
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidInput,
+                "not a GEOS file",
+            ))
+        }
     };
     Ok(file)
 }
-- 
2.43.0


From a4f11abcca3f1be3f0a2c9366cdac82e9a7a7dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:20 +0000
Subject: [PATCH 22/29] fix: exit with a failure status when a cdisk command
 fails

cdisk printed the error but exited with status 0.
---
 src/bin/cdisk.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bin/cdisk.rs b/src/bin/cdisk.rs
index d32dbe1..9c9cf1b 100644
--- a/src/bin/cdisk.rs
+++ b/src/bin/cdisk.rs
@@ -200,6 +200,7 @@ fn main() {
     };
     if let Err(e) = result {
         eprintln!("Error: {}", e);
+        process::exit(EXIT_FAILURE);
     }
 }
 
-- 
2.43.0


From 9dbb0b40c61887496a1fe84b3f35862d69a69b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:28 +0000
Subject: [PATCH 23/29] fix: only edit sectors that exist in cdisk bam
 allocate/free

Freeing e.g. sector 20 of a 17-sector track set a bit for a nonexistent
sector and inflated the free count, and "all" tracks only covered 1-35 on
D71 and D81 images.
---
 src/bin/cdisk.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/bin/cdisk.rs b/src/bin/cdisk.rs
index 9c9cf1b..7c51143 100644
--- a/src/bin/cdisk.rs
+++ b/src/bin/cdisk.rs
@@ -6,7 +6,7 @@ use std::process;
 use cbm::disk::directory::FileType;
 use cbm::disk::file::{File, FileOps, Scheme};
 use cbm::disk::geos::GEOSFile;
-use cbm::disk::{self, D64, D71, D81, DiskType};
+use cbm::disk::{self, DiskError, DiskType, D64, D71, D81};
 use cbm::Petscii;
 
 // Possible exit codes
@@ -286,13 +286,17 @@ fn cmd_bam_edit(
     let mut bam = bam.borrow_mut();
     let track_range = match track {
         Some(t) => t..=t,
-        None => 1..=35,
+        None => format.first_track..=format.last_track,
     };
-    for track in track_range {
-        let entry = bam.entry_mut(track)?;
+    for current_track in track_range {
+        let entry = bam.entry_mut(current_track)?;
+        let sectors = format.sectors_in_track(current_track);
         let sector_range = match sector {
-            Some(s) => s..=s,
-            None => 0..=(format.sectors_in_track(track) - 1),
+            Some(s) if s < sectors => s..=s,
+            // When editing all tracks, skip the ones that don't have this sector.
+            Some(_) if track.is_none() => continue,
+            Some(_) => return Err(DiskError::InvalidLocation.into()),
+            None => 0..=(sectors - 1),
         };
         for sector in sector_range {
             if allocate {
-- 
2.43.0


From 9abf88278ba96b12be8789a59feeb18b7b666a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:47 +0000
Subject: [PATCH 24/29] hooks: block device observation hooks behind --cfg
 cbm_verif

---
 src/disk/block.rs  | 15 +++++++++++++++
 src/lib.rs         |  5 +++++
 src/verif_hooks.rs | 45 +++++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 65 insertions(+)
 create mode 100644 src/verif_hooks.rs

diff --git a/src/disk/block.rs b/src/disk/block.rs
index 97e4292..642295b 100644
--- a/src/disk/block.rs
+++ b/src/disk/block.rs
@@ -111,6 +111,11 @@ impl BlockDevice for ImageBlockDevice {
     }
 
     fn sector(&self, location: Location) -> io::Result<&[u8]> {
+        #[cfg(cbm_verif)]
+        crate::verif_hooks::emit(&crate::verif_hooks::Event::Read {
+            track: location.0,
+            sector: location.1,
+        });
         let offset = self.get_offset(location)?;
         self.image.slice(offset, BLOCK_SIZE)
     }
@@ -118,6 +123,12 @@ impl BlockDevice for ImageBlockDevice {
     fn sector_mut(&mut self, location: Location) -> io::Result<&mut [u8]> {
         self.image.check_writability()?;
         let offset = self.get_offset(location)?;
+        #[cfg(cbm_verif)]
+        crate::verif_hooks::emit(&crate::verif_hooks::Event::Write {
+            track: location.0,
+            sector: location.1,
+            image: self.image.slice(0, self.image.len())?,
+        });
         self.image.slice_mut(offset, BLOCK_SIZE)
     }
 
@@ -141,6 +152,10 @@ impl BlockDevice for ImageBlockDevice {
 
     fn flush(&mut self) -> io::Result<()> {
         self.image.check_writability()?;
+        #[cfg(cbm_verif)]
+        crate::verif_hooks::emit(&crate::verif_hooks::Event::Flush {
+            image: self.image.slice(0, self.image.len())?,
+        });
         self.image.flush()
     }
 }
diff --git a/src/lib.rs b/src/lib.rs
index 207734a..b3835c8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -182,7 +182,12 @@
 //!
 //! See LICENSE-APACHE and LICENSE-MIT for details.
 
+// Observation hooks for runtime verification.  (Absent from normal builds.)
+#![allow(unexpected_cfgs)]
+
 pub mod disk;
+#[cfg(cbm_verif)]
+pub mod verif_hooks;
 
 mod petscii;
 mod sprite;
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..cb064a3
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,45 @@
+//! Observation hooks for runtime verification.  This module only exists when
+//! the crate is compiled with `--cfg cbm_verif`.
+
+use std::cell::RefCell;
+
+/// An access to the underlying block device.
+#[derive(Clone, Copy)]
+pub enum Event<'a> {
+    /// A sector is about to be read.
+    Read { track: u8, sector: u8 },
+    /// A sector is about to be handed out for modification.  `image` is the
+    /// complete image as it stands before that modification, i.e. what a
+    /// crash at this point would leave behind.
+    Write {
+        track: u8,
+        sector: u8,
+        image: &'a [u8],
+    },
+    /// The image is about to be flushed to its medium.
+    Flush { image: &'a [u8] },
+}
+
+/// A callback observing block device accesses.
+pub type Hook = Box<dyn FnMut(&Event)>;
+
+thread_local! {
+    static HOOK: RefCell<Option<Hook>> = RefCell::new(None);
+}
+
+/// Install (or remove) the hook of the current thread, returning the previous
+/// one.
+pub fn set(hook: Option<Hook>) -> Option<Hook> {
+    HOOK.with(|h| h.replace(hook))
+}
+
+/// Deliver an event to the hook of the current thread, if one is installed.
+pub fn emit(event: &Event) {
+    HOOK.with(|h| {
+        if let Ok(mut h) = h.try_borrow_mut() {
+            if let Some(ref mut hook) = *h {
+                hook(event);
+            }
+        }
+    });
+}
-- 
2.43.0


From 353a2121b425661e318be0aaf52c3b37afd4a9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:03 +0000
Subject: [PATCH 25/29] fix: treat U+FFFD as untranslatable in
 Petscii::from_str_lossy

The table's placeholder for codes without a Unicode equivalent matched a
U+FFFD in the input, so such a character became a NUL byte instead of the
documented substitute for untranslatable characters.
---
 src/petscii.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/petscii.rs b/src/petscii.rs
index 563f4fe..7deef89 100644
--- a/src/petscii.rs
+++ b/src/petscii.rs
@@ -124,7 +124,8 @@ impl Petscii {
         'outer: for c in string.chars() {
             // This is inefficient, but hopefully seldom used.
             for (p, mapping) in PETSCII_TO_CHAR_MAP.iter().enumerate() {
-                if *mapping == c {
+                // The placeholder is not a translation of anything.
+                if *mapping == c && c != NONE {
                     petscii_bytes.push(p as u8);
                     continue 'outer;
                 }
-- 
2.43.0


From e4253dc701d0c22ac47a592f11db0a253b5cef2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:16 +0000
Subject: [PATCH 26/29] fix: cdisk dir -vv shows the details of the listed
 file, not of its namesake

The details were looked up by name, so for several files of one name the
first file's details were shown for each of them.
---
 src/bin/cdisk.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/cdisk.rs b/src/bin/cdisk.rs
index 7c51143..4ab0e17 100644
--- a/src/bin/cdisk.rs
+++ b/src/bin/cdisk.rs
@@ -457,7 +457,7 @@ fn cmd_dir(diskimage: &str, verbosity: u64) -> io::Result<()> {
             let entry = entry?;
             println!("{:#}", entry);
             if verbosity > 1 {
-                let file = disk.open_file(&entry.filename)?;
+                let file = disk.open_file_from_entry(&entry)?;
                 file.details(&mut io::stdout(), (verbosity as usize) - 2)?;
                 println!();
             }
-- 
2.43.0


From b79a9cb908e7d7f56a5ec78797a3549cdd5364d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:16 +0000
Subject: [PATCH 27/29] fix: deliver the bytes in front of an error when
 converting GEOS files

GEOSReader::read() returned an error even if it had already copied bytes to
the caller's buffer, so those bytes were lost.
---
 src/disk/geos/reader.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/disk/geos/reader.rs b/src/disk/geos/reader.rs
index 347adb0..0ce4bb6 100644
--- a/src/disk/geos/reader.rs
+++ b/src/disk/geos/reader.rs
@@ -33,6 +33,7 @@ pub struct GEOSReader {
     info_location: Location,
     start_location: Location,
     chains: VecDeque<ChainReader>,
+    error: Option<io::Error>,
 }
 
 impl GEOSReader {
@@ -78,6 +79,7 @@ impl GEOSReader {
                 .ok_or_else(|| DiskError::GEOSInfoNotFound.to_io_error())?,
             start_location: entry.first_sector,
             chains: VecDeque::new(),
+            error: None,
         })
     }
 
@@ -229,7 +231,19 @@ impl Read for GEOSReader {
             // Input buffer drained -- transition to next step
             if self.buffer.is_empty() {
                 // State transition
-                self.next_state()?;
+                if self.error.is_none() {
+                    self.error = self.next_state().err();
+                }
+                if self.buffer.is_empty() {
+                    // Deliver any bytes already read before returning an error.
+                    if bytes_written > 0 && self.error.is_some() {
+                        break;
+                    }
+                    if let Some(e) = self.error.take() {
+                        self.state = GEOSReaderState::Finished;
+                        return Err(e);
+                    }
+                }
                 if let GEOSReaderState::Finished = self.state {
                     break;
                 }
-- 
2.43.0


From 0bff02ae150994ba8e10068f7b2d14b83bfaa040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:03 +0000
Subject: [PATCH 28/29] fix: cdisk write leaves no file behind when its source
 cannot be read

---
 src/bin/cdisk.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/bin/cdisk.rs b/src/bin/cdisk.rs
index 4ab0e17..1efa589 100644
--- a/src/bin/cdisk.rs
+++ b/src/bin/cdisk.rs
@@ -371,6 +371,18 @@ fn open_fs_reader(filename: &str) -> io::Result<Box<dyn Read>> {
     }
 }
 
+/// Read a source file in its entirety, so that a source which cannot be read
+/// is noticed before the disk image is changed.
+fn read_fs_source(filename: &str) -> io::Result<Vec<u8>> {
+    // No disk image can hold more than this, so there is no need to read further.
+    const SOURCE_LIMIT: u64 = 1024 * 1024;
+    let mut data = vec![];
+    open_fs_reader(filename)?
+        .take(SOURCE_LIMIT)
+        .read_to_end(&mut data)?;
+    Ok(data)
+}
+
 /// Open a file for writing
 fn open_fs_writer(filename: &str) -> io::Result<Box<dyn Write>> {
     if filename == STDINOUT_PSEUDOFILENAME {
@@ -399,9 +411,9 @@ fn cmd_write(
     file_type: FileType,
 ) -> io::Result<()> {
     let destination_filename = destination_filename.unwrap_or(source_filename);
-    let mut reader = open_fs_reader(source_filename)?;
+    let source = read_fs_source(source_filename)?;
     let mut writer = open_cbm_writer(diskimage, destination_filename, file_type)?;
-    io::copy(&mut reader, &mut writer)?;
+    writer.write_all(&source)?;
     writer.flush()
 }
 
@@ -411,9 +423,9 @@ fn cmd_append(
     destination_filename: Option<&str>,
 ) -> io::Result<()> {
     let destination_filename = destination_filename.unwrap_or(source_filename);
-    let mut reader = open_fs_reader(source_filename)?;
+    let source = read_fs_source(source_filename)?;
     let mut writer = open_cbm_appender(diskimage, destination_filename)?;
-    io::copy(&mut reader, &mut writer)?;
+    writer.write_all(&source)?;
     writer.flush()
 }
 
-- 
2.43.0


From 358aeea3fcb8d93143f6ac96d12f1c0f2a7b9962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:06 +0000
Subject: [PATCH 29/29] fix: reject REL files whose side sectors do not list
 the data chain

---
 src/disk/file.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/disk/file.rs b/src/disk/file.rs
index 5a5739d..41ca25d 100644
--- a/src/disk/file.rs
+++ b/src/disk/file.rs
@@ -399,6 +399,14 @@ impl RelativeFile {
             }
         }
 
+        // The data sectors listed in the side sectors must be those of the data chain.
+        if !data_sectors.is_empty() {
+            let chain = ChainIterator::new(blocks.clone(), entry.first_sector);
+            if chain.locations()? != data_sectors {
+                return Err(DiskError::InvalidRelativeFile.into());
+            }
+        }
+
         // Determine the total number of records
         let data_bytes_in_last_block = match data_sectors.last() {
             Some(location) => {
-- 
2.43.0

