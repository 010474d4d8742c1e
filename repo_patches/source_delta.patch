From a18dfd3c25ec6f61e3575b845a44bb25b1478a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:23 +0000
Subject: [PATCH 01/22] fix: check the whole range in add_partition_at

Only the start and the length were compared with a free section, so a
partition starting in the middle of one could reach into the next
partition or past the usable range.
---
 src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0ca48a1..2f78f1f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -603,7 +603,10 @@ where
         }
 
         for (starting_lba, length) in self.find_free_sectors() {
-            if !(first_lba >= starting_lba && length_lba <= length) {
+            // the whole range needs to be inside of this free section
+            if !(first_lba >= starting_lba && length_lba <= length)
+                || first_lba - starting_lba > length - length_lba
+            {
                 continue;
             }
 
-- 
2.43.0


From aa0fec4eb92055f151da09f6b380e14e00717110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:23 +0000
Subject: [PATCH 02/22] fix: find_free_sectors with overlapping or out of range
 partitions

Pairing up sorted boundaries is only right for disjoint partitions inside of
the usable range, else used sectors were reported as free (or an arithmetic
overflow happened).
---
 src/lib.rs | 50 ++++++++++++++++++++++++++++++--------------------
 1 file changed, 30 insertions(+), 20 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2f78f1f..97880f3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -712,34 +712,44 @@ where
         let header = self.header();
 
         trace!("first_usable: {}", header.first_usable);
-        // a list of boundaries between partitions each point is a used lba
-        let mut disk_positions = vec![header.first_usable - 1];
+        // the (first, last) lba's of all used partitions ordered by their start
+        let mut used = vec![];
         for part in self.partitions().iter().filter(|p| p.1.is_used()) {
             trace!(
                 "used partition: ({}, {})",
                 part.1.first_lba,
                 part.1.last_lba
             );
-            disk_positions.push(part.1.first_lba);
-            disk_positions.push(part.1.last_lba);
+            used.push((
+                part.1.first_lba.min(part.1.last_lba),
+                part.1.first_lba.max(part.1.last_lba),
+            ));
         }
-        disk_positions.push(header.last_usable + 1);
         trace!("last_usable: {}", header.last_usable);
-        disk_positions.sort_unstable();
-
-        disk_positions
-            // Walk through the LBA's in chunks of 2 (ending, starting).
-            .chunks_exact(2)
-            // Add 1 to the ending and then subtract the starting if NOT the first usable sector
-            .filter_map(|p| {
-                // free lba
-                let start = p[0] + 1;
-                let end = p[1] - 1;
-
-                #[allow(clippy::unnecessary_lazy_evaluations)]
-                (start <= end).then(|| (start, end - start + 1))
-            })
-            .collect()
+        used.sort_unstable();
+
+        let mut free = vec![];
+        // the lowest lba which is not known to be used, partitions may overlap or
+        // stick out of the usable range
+        let mut start = header.first_usable;
+        for (first, last) in used {
+            if first > header.last_usable {
+                break;
+            }
+            if first > start {
+                free.push((start, first - start));
+            }
+            start = match last.checked_add(1) {
+                Some(next) => start.max(next),
+                // everything up to the last possible lba is used
+                None => return free,
+            };
+        }
+        if start <= header.last_usable {
+            free.push((start, (header.last_usable - start).saturating_add(1)));
+        }
+
+        free
     }
 
     /// Find next highest partition id.
-- 
2.43.0


From 247fe11c8f753db387027c3059070d4b748a5a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:23 +0000
Subject: [PATCH 03/22] fix: write the disk guid set by update_guid

The guid was taken from the old header, so a changed guid only got written
if the headers were rebuilt for some other reason.
---
 src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.rs b/src/lib.rs
index 97880f3..a83bde7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -887,6 +887,7 @@ where
         trace!("old backup lba: {}", bak);
 
         let primary_header = header::HeaderBuilder::from_header(self.header())
+            .disk_guid(self.guid)
             .primary(true)
             .build(self.config.lb_size)?;
         let primary_header = self.primary_header.insert_ok(primary_header);
-- 
2.43.0


From 24b4bcd459d0b9162523508d327eb982e7f1c92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:17 +0000
Subject: [PATCH 04/22] fix: never build a header with a usable range that does
 not fit

last_usable was raised to at least the highest possible value, so any bigger
value (set by hand or kept while the entry count grows) overlapped the backup
array and header. The size of the array could overflow 32 bits as well.
---
 src/header/builder.rs | 34 +++++++++++++++++++++++++---------
 src/lib.rs            |  2 +-
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/header/builder.rs b/src/header/builder.rs
index d56b9a8..7e5af17 100644
--- a/src/header/builder.rs
+++ b/src/header/builder.rs
@@ -81,6 +81,15 @@ impl HeaderBuilder {
         self
     }
 
+    /// Same as `backup_lba` but if the position changes last_usable get's calculated
+    /// for the new position
+    pub(crate) fn move_backup_lba(&mut self, backup_lba: u64) -> &mut Self {
+        if self.backup_lba != backup_lba {
+            self.last_usable = 0;
+        }
+        self.backup_lba(backup_lba)
+    }
+
     /// If you don't set this it will get calculated automatically
     ///
     /// It might still be calculated if the value is not sufficient
@@ -132,27 +141,34 @@ impl HeaderBuilder {
             (self.backup_lba, self.primary_lba)
         };
 
-        let part_array_size = self.num_parts * self.part_size;
-        let part_array_lbs = u64_div_ceil(part_array_size as u64, lb_size.as_u64());
+        let part_array_size = u64::from(self.num_parts) * u64::from(self.part_size);
+        let part_array_lbs = u64_div_ceil(part_array_size, lb_size.as_u64());
 
         let first_usable = self.first_usable.max(
             // mbr, header, part_array
             1 + 1 + part_array_lbs,
         );
 
-        let last_usable = self.last_usable.max(
-            // last is inclusive: end of disk is (partition array) (backup header)
-            self.backup_lba
-                .checked_sub(part_array_lbs + 1)
-                .ok_or(HeaderError::BackupLbaToEarly)?,
-        );
+        // last is inclusive: end of disk is (partition array) (backup header)
+        let max_last_usable = self
+            .backup_lba
+            .checked_sub(part_array_lbs + 1)
+            .ok_or(HeaderError::BackupLbaToEarly)?;
+        let last_usable = if self.last_usable < first_usable {
+            // not set or not sufficient
+            max_last_usable
+        } else {
+            self.last_usable.min(max_last_usable)
+        };
 
         if first_usable > last_usable {
             return Err(HeaderError::BackupLbaToEarly);
         }
 
         let part_start = if self.primary {
-            self.primary_lba + 1
+            self.primary_lba
+                .checked_add(1)
+                .ok_or(HeaderError::Overflow("header builder: primary lba"))?
         } else {
             last_usable + 1
         };
diff --git a/src/lib.rs b/src/lib.rs
index a83bde7..7e2602c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -832,7 +832,7 @@ where
 
         let h1 = header::HeaderBuilder::from_maybe_header(self.try_header())
             .num_parts(num_parts)
-            .backup_lba(bak)
+            .move_backup_lba(bak)
             .disk_guid(self.guid)
             .primary(true)
             .build(self.config.lb_size)?;
-- 
2.43.0


From 16f6680d2eb67dc86adf2cc1142824c9aa594f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:21 +0000
Subject: [PATCH 05/22] fix: write the backup copy to the end of a grown device

write kept the position of the old backup header, where no reader looks for
it once the device is larger.
---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7e2602c..aec0431 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -884,9 +884,10 @@ where
         trace!("old primary header: {:?}", self.primary_header);
         trace!("old backup header: {:?}", self.backup_header);
         let bak = header::find_backup_lba(&mut self.device, self.config.lb_size)?;
-        trace!("old backup lba: {}", bak);
+        trace!("backup lba: {}", bak);
 
         let primary_header = header::HeaderBuilder::from_header(self.header())
+            .move_backup_lba(bak)
             .disk_guid(self.guid)
             .primary(true)
             .build(self.config.lb_size)?;
-- 
2.43.0


From 5e035688cd2bf93940fa9c3c10d28f99ba7f476c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:14 +0000
Subject: [PATCH 06/22] fix: return an error for an unsupported partition entry
 size

A header with another entry size than 128 panicked while opening the disk.
---
 src/partition.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/partition.rs b/src/partition.rs
index e8df308..ec55c0b 100644
--- a/src/partition.rs
+++ b/src/partition.rs
@@ -258,7 +258,12 @@ pub fn file_read_partitions<D: Read + Seek>(
     let mut parts: BTreeMap<u32, Partition> = BTreeMap::new();
 
     // todo how should we deal with unuals part_sizes?
-    assert_eq!(header.part_size, 128);
+    if header.part_size != 128 {
+        return Err(Error::new(
+            ErrorKind::Other,
+            "unsupported partition entry size (must be 128)",
+        ));
+    }
 
     trace!("scanning {} partitions", header.num_parts);
     let mut empty_parts = 0;
-- 
2.43.0


From d9fcba818b7f5df91086282e02f27812aa94bf97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:19 +0000
Subject: [PATCH 07/22] fix: use the backup copy if the primary partition array
 is damaged

If both headers were fine but the primary partition array was not, opening
failed although the backup copy is intact and only one of them is required
to be valid by default.
---
 src/lib.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index aec0431..d54d6b7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -274,7 +274,7 @@ impl GptConfig {
         let h1 = header::read_primary_header(&mut device, self.lb_size);
         let h2 = header::read_backup_header(&mut device, self.lb_size);
 
-        let (h1, h2) = if self.only_valid_headers {
+        let (mut h1, h2) = if self.only_valid_headers {
             (Ok(h1?), Ok(h2?))
         } else if h1.is_err() && h2.is_err() {
             return Err(h1.unwrap_err().into());
@@ -283,7 +283,22 @@ impl GptConfig {
         };
 
         let header = h1.as_ref().or(h2.as_ref()).unwrap();
-        let table = partition::file_read_partitions(&mut device, header, self.lb_size)?;
+        let table = match partition::file_read_partitions(&mut device, header, self.lb_size) {
+            Ok(table) => table,
+            // the primary copy is not usable without its partition array, use the backup
+            Err(e) if h1.is_ok() && h2.is_ok() && !self.only_valid_headers => {
+                let backup = h2.as_ref().unwrap();
+                match partition::file_read_partitions(&mut device, backup, self.lb_size) {
+                    Ok(table) => {
+                        h1 = Err(e.into());
+                        table
+                    }
+                    Err(_) => return Err(e.into()),
+                }
+            }
+            Err(e) => return Err(e.into()),
+        };
+        let header = h1.as_ref().or(h2.as_ref()).unwrap();
 
         let disk = GptDisk {
             config: self,
-- 
2.43.0


From f120725387a14b5dea419b3f58b56cdd57859b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:24 +0000
Subject: [PATCH 08/22] fix: never shrink the partition count

Replacing the partitions of a disk with more than 128 entries reset the
count to the number of partitions.
---
 src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index d54d6b7..f955a72 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -843,7 +843,9 @@ where
     /// header.
     pub(crate) fn init_headers(&mut self) -> Result<(), GptError> {
         let bak = header::find_backup_lba(&mut self.device, self.config.lb_size)?;
-        let num_parts = self.partitions.len() as u32;
+        // the count never shrinks
+        let num_parts = (self.partitions.len() as u32)
+            .max(self.try_header().map_or(0, |h| h.num_parts));
 
         let h1 = header::HeaderBuilder::from_maybe_header(self.try_header())
             .num_parts(num_parts)
-- 
2.43.0


From 6e1fe11708c047ffd9ec0d5a3f5b90fe41f29c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:28 +0000
Subject: [PATCH 09/22] fix: add_partition with a zero alignment or a huge size
 or alignment

Zero divided by zero, and the sum of size and alignment offset overflowed.
---
 src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index f955a72..4b3e27f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -534,8 +534,9 @@ where
             // We don't need to do any checked math here because we guarantee that with `(A % B)`,
             // `A` will always be between 0 and `B-1`.
             let alignment_offset_lba = match part_alignment {
+                // no alignment
+                Some(0) | None => 0_u64,
                 Some(alignment) => (alignment - (starting_lba % alignment)) % alignment,
-                None => 0_u64,
             };
 
             debug!(
@@ -543,7 +544,7 @@ where
                 starting_lba, length, alignment_offset_lba
             );
 
-            if length >= (alignment_offset_lba + size_lba) {
+            if length >= alignment_offset_lba.saturating_add(size_lba) {
                 let starting_lba = starting_lba + alignment_offset_lba;
                 // Found our free slice.
                 let partition_id = self
-- 
2.43.0


From 5752d99170d5c6812a638dedf1efbe86ab14db52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:33 +0000
Subject: [PATCH 10/22] fix: report a failed seek to a header

The error was ignored and whatever the device was positioned at got read as
header.
---
 src/header/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/header/mod.rs b/src/header/mod.rs
index 222478c..a322aa2 100644
--- a/src/header/mod.rs
+++ b/src/header/mod.rs
@@ -322,7 +322,7 @@ pub(crate) fn file_read_header<D: Read + Seek>(
     file: &mut D,
     offset: u64,
 ) -> Result<Header, HeaderError> {
-    let _ = file.seek(SeekFrom::Start(offset));
+    let _ = file.seek(SeekFrom::Start(offset))?;
 
     let mut bytes = BytesArray::from([0u8; 92]);
     file.read_exact(bytes.as_mut())?;
-- 
2.43.0


From a16778b03cdc80fe74862c74ad12a26365656ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:37 +0000
Subject: [PATCH 11/22] fix: write partition entries without overflows

The offset could overflow, and zeroing a huge number of entries tried to
allocate all of them at once.
---
 src/partition.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/partition.rs b/src/partition.rs
index ec55c0b..9176e69 100644
--- a/src/partition.rs
+++ b/src/partition.rs
@@ -126,8 +126,11 @@ impl Partition {
         let offset = partition_index
             .checked_mul(u64::from(bytes_per_partition))
             .ok_or_else(|| Error::new(ErrorKind::Other, "partition overflow"))?;
-        trace!("seeking to partition start: {}", pstart + offset);
-        device.seek(SeekFrom::Start(pstart + offset))?;
+        let pos = pstart
+            .checked_add(offset)
+            .ok_or_else(|| Error::new(ErrorKind::Other, "partition overflow"))?;
+        trace!("seeking to partition start: {}", pos);
+        device.seek(SeekFrom::Start(pos))?;
         trace!("writing {:?}", &self.as_bytes(bytes_per_partition));
         device.write_all(&self.as_bytes(bytes_per_partition)?)?;
 
@@ -156,13 +159,21 @@ impl Partition {
         let offset = starting_partition_index
             .checked_mul(u64::from(bytes_per_partition))
             .ok_or_else(|| Error::new(ErrorKind::Other, "partition overflow"))?;
-        trace!("seeking to starting partition start: {}", pstart + offset);
-        device.seek(SeekFrom::Start(pstart + offset))?;
-        let bytes_to_zero = u64::from(bytes_per_partition)
+        let pos = pstart
+            .checked_add(offset)
+            .ok_or_else(|| Error::new(ErrorKind::Other, "partition overflow"))?;
+        trace!("seeking to starting partition start: {}", pos);
+        device.seek(SeekFrom::Start(pos))?;
+        let mut bytes_to_zero = u64::from(bytes_per_partition)
             .checked_mul(number_entries)
-            .and_then(|x| usize::try_from(x).ok())
             .ok_or_else(|| Error::new(ErrorKind::Other, "partition overflow - bytes to zero"))?;
-        device.write_all(&vec![0_u8; bytes_to_zero])?;
+        // the number of entries might be too big to hold all of them in memory
+        let zeros = vec![0_u8; bytes_to_zero.min(1 << 20) as usize];
+        while bytes_to_zero > 0 {
+            let len = bytes_to_zero.min(zeros.len() as u64);
+            device.write_all(&zeros[..len as usize])?;
+            bytes_to_zero -= len;
+        }
         Ok(())
     }
 
-- 
2.43.0


From 1a3d05c13213c16b89cf1b6c7a8daed31e6db7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:41 +0000
Subject: [PATCH 12/22] fix: compute the table checksum in bounded memory

A header with a huge entry count made write_primary and write_backup abort
because they allocated the whole table.
---
 src/header/mod.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/header/mod.rs b/src/header/mod.rs
index a322aa2..f3ce4fb 100644
--- a/src/header/mod.rs
+++ b/src/header/mod.rs
@@ -431,12 +431,19 @@ pub(crate) fn partentry_checksum<D: Read + Seek>(
         .checked_mul(hdr.part_size.into())
         .ok_or(HeaderError::Overflow("partition table - size"))?;
     trace!("Reading {} bytes", pt_len);
-    let mut buf = vec![0; pt_len as usize];
-    file.read_exact(&mut buf)?;
+    // the table might be too big to hold it in memory
+    let mut buf = vec![0; pt_len.min(1 << 20) as usize];
+    let mut remaining = pt_len;
 
-    //trace!("Buffer before checksum: {:?}", buf);
     // Compute CRC32 over all table bits.
-    Ok(calculate_crc32(&buf))
+    let mut digest = CRC_32.digest();
+    while remaining > 0 {
+        let len = remaining.min(buf.len() as u64) as usize;
+        file.read_exact(&mut buf[..len])?;
+        digest.update(&buf[..len]);
+        remaining -= len as u64;
+    }
+    Ok(digest.finalize())
 }
 
 /// A helper function to create a new header and write it to disk.
-- 
2.43.0


From ccfbbead7f203f5e9b95965ee34c2825abe70c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:46 +0000
Subject: [PATCH 13/22] fix: recognise well-known types in every GUID notation

Parsing a well-known GUID without hyphens or in braces lost its operating
system.
---
 src/macros.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/macros.rs b/src/macros.rs
index 00447a9..586b695 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -36,10 +36,7 @@ pub mod pub_macros {
                         )+
                         _ => {
                             match ::uuid::Uuid::from_str(s) {
-                                Ok(u) => Ok(Type {
-                                    guid: u,
-                                    os: OperatingSystem::None,
-                                }),
+                                Ok(u) => Ok(Type::from(u)),
                                 Err(_) => Err("Invalid Partition Type GUID.".to_string()),
                             }
                         }
-- 
2.43.0


From eecf0ac75ae378e25704b42818a1883850610f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:37 +0000
Subject: [PATCH 14/22] fix: leave the disk unchanged if the partition count
 can not grow

A failing add_partition, add_partition_at or update_partitions had already
inserted the partitions, and maybe replaced the primary header.
---
 src/lib.rs | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4b3e27f..055996a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -333,7 +333,7 @@ impl GptConfig {
             sync_all: None,
         };
         // setup default headers
-        disk.init_headers()?;
+        disk.init_headers(0)?;
         Ok(disk)
     }
 }
@@ -573,12 +573,12 @@ where
                     flags,
                     name: name.to_string(),
                 };
-                if let Some(p) = self.partitions.insert(partition_id, part.clone()) {
-                    debug!("Replacing\n{}\nwith\n{}", p, part);
-                }
                 if num_parts_changes {
                     // update headers
-                    self.init_headers()?;
+                    self.init_headers(self.partitions.len() as u32 + 1)?;
+                }
+                if let Some(p) = self.partitions.insert(partition_id, part.clone()) {
+                    debug!("Replacing\n{}\nwith\n{}", p, part);
                 }
                 return Ok(partition_id);
             }
@@ -656,13 +656,13 @@ where
                 name: name.to_string(),
             };
 
-            if let Some(p) = self.partitions.insert(id, part.clone()) {
-                debug!("Replacing\n{}\nwith\n{}", p, part);
-            }
-
             if num_parts_changes {
                 // update headers
-                self.init_headers()?;
+                self.init_headers(self.partitions.len() as u32 + 1)?;
+            }
+
+            if let Some(p) = self.partitions.insert(id, part.clone()) {
+                debug!("Replacing\n{}\nwith\n{}", p, part);
             }
 
             return Ok(id);
@@ -835,18 +835,20 @@ where
             return Err(GptError::PartitionCountWouldChange);
         }
 
+        self.init_headers(num_parts)?;
         self.partitions = pp;
 
-        self.init_headers()
+        Ok(())
     }
 
     /// Makes sure there exists a primary header and if allowed also creates the backup
-    /// header.
-    pub(crate) fn init_headers(&mut self) -> Result<(), GptError> {
+    /// header with room for `num_parts` partitions.
+    ///
+    /// If this fails nothing was changed.
+    pub(crate) fn init_headers(&mut self, num_parts: u32) -> Result<(), GptError> {
         let bak = header::find_backup_lba(&mut self.device, self.config.lb_size)?;
         // the count never shrinks
-        let num_parts = (self.partitions.len() as u32)
-            .max(self.try_header().map_or(0, |h| h.num_parts));
+        let num_parts = num_parts.max(self.try_header().map_or(0, |h| h.num_parts));
 
         let h1 = header::HeaderBuilder::from_maybe_header(self.try_header())
             .num_parts(num_parts)
@@ -854,14 +856,14 @@ where
             .disk_guid(self.guid)
             .primary(true)
             .build(self.config.lb_size)?;
-        let header = self.primary_header.insert_ok(h1);
 
         if !self.config.readonly_backup {
-            let h2 = header::HeaderBuilder::from_header(header)
+            let h2 = header::HeaderBuilder::from_header(&h1)
                 .primary(false)
                 .build(self.config.lb_size)?;
             self.backup_header = Ok(h2);
         }
+        self.primary_header = Ok(h1);
 
         Ok(())
     }
-- 
2.43.0


From 1da0f6e56e122e3fcb6702293c065ebebf477c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:42 +0000
Subject: [PATCH 15/22] fix: account for partitions with ids above the entry
 count

add_partition replaced a used partition if its id was the one after the last
entry, and more partitions than entries could be added, which write can only
refuse.
---
 src/lib.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 055996a..157ba1f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -549,7 +549,12 @@ where
                 // Found our free slice.
                 let partition_id = self
                     .find_next_partition_id()
-                    .unwrap_or_else(|| self.header().num_parts + 1);
+                    .or_else(|| {
+                        // all slots are used, there might be partitions with higher ids
+                        (self.header().num_parts.checked_add(1)?..=u32::MAX)
+                            .find(|id| !self.partitions.get(id).map_or(false, |p| p.is_used()))
+                    })
+                    .ok_or(GptError::OverflowPartitionCount)?;
                 debug!(
                     "Adding partition id: {} {:?}.  first_lba: {} last_lba: {}",
                     partition_id,
@@ -560,7 +565,9 @@ where
 
                 // let's try to increase the num parts
                 // because partition_id 0 will never exist the num_parts is without + 1
-                let num_parts_changes = self.header().num_parts_would_change(partition_id);
+                let num_parts_changes = self
+                    .header()
+                    .num_parts_would_change(partition_id.max(self.used_partitions() + 1));
                 if num_parts_changes && !self.config.change_partition_count {
                     return Err(GptError::PartitionCountWouldChange);
                 }
@@ -641,7 +648,9 @@ where
 
             // let's try to increase the num parts
             // because partition_id 0 will never exist the num_parts is without + 1
-            let num_parts_changes = self.header().num_parts_would_change(id);
+            let num_parts_changes = self
+                .header()
+                .num_parts_would_change(id.max(self.used_partitions() + 1));
 
             if num_parts_changes && !self.config.change_partition_count {
                 return Err(GptError::PartitionCountWouldChange);
@@ -768,6 +777,11 @@ where
         free
     }
 
+    /// The number of used partitions, each of them needs an entry once written.
+    fn used_partitions(&self) -> u32 {
+        self.partitions.values().filter(|p| p.is_used()).count() as u32
+    }
+
     /// Find next highest partition id.
     /// Will always return > 0
     ///
-- 
2.43.0


From a07aac90d346b9d03ccf2342d435f8224435f2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:44 +0000
Subject: [PATCH 16/22] fix: keep one copy valid at any point of a write

Both partition arrays were rewritten before any of the headers, so a crash in
between left neither the old nor the new table readable. Write (and sync) one
copy after the other, starting with the one which isn't needed to read the
current table. A refused write no longer changes headers or the device.
---
 src/lib.rs    | 114 +++++++++++++++++++++++++-------------------------
 src/macros.rs |  13 ------
 2 files changed, 58 insertions(+), 69 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 157ba1f..cee09d2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -85,7 +85,6 @@ pub mod partition;
 pub mod partition_types;
 
 use header::HeaderError;
-use macros::ResultInsert;
 
 /// A generic device that we can read/write partitions from/to.
 pub trait DiskDevice: Read + Write + Seek + std::fmt::Debug {}
@@ -920,100 +919,103 @@ where
         let bak = header::find_backup_lba(&mut self.device, self.config.lb_size)?;
         trace!("backup lba: {}", bak);
 
-        let primary_header = header::HeaderBuilder::from_header(self.header())
+        let mut primary_header = header::HeaderBuilder::from_header(self.header())
             .move_backup_lba(bak)
             .disk_guid(self.guid)
             .primary(true)
             .build(self.config.lb_size)?;
-        let primary_header = self.primary_header.insert_ok(primary_header);
 
         let backup_header = if !self.config.readonly_backup {
-            let header = header::HeaderBuilder::from_header(primary_header)
+            let header = header::HeaderBuilder::from_header(&primary_header)
                 .primary(false)
                 .build(self.config.lb_size)?;
 
-            Some(self.backup_header.insert_ok(header))
+            Some(header)
         } else {
             None
         };
 
+        // don't allow us to overflow partition array...
+        // todo this should not be possible since we
+        // check in add partition that it is valid
+        if self.used_partitions() > primary_header.num_parts {
+            return Err(GptError::OverflowPartitionCount);
+        }
+
+        // Write one copy completely before touching the other one, so that one of them is
+        // valid at any time. The primary copy is only written first if the backup copy is
+        // the only intact one and thereby the one holding the current table.
+        let h1 = header::read_primary_header(&mut self.device, self.config.lb_size);
+        let h2 = header::read_backup_header(&mut self.device, self.config.lb_size);
+        let primary_first = !self.is_intact(h1) && self.is_intact(h2);
+
+        if primary_first {
+            debug!("Writing primary header");
+            self.write_copy(&mut primary_header)?;
+        }
+        if let Some(mut backup_header) = backup_header {
+            debug!("Writing backup header");
+            let pos = self.device.stream_position()?;
+            self.write_copy(&mut backup_header)?;
+            self.device.seek(io::SeekFrom::Start(pos))?;
+            self.backup_header = Ok(backup_header);
+        }
+        if !primary_first {
+            debug!("Writing primary header");
+            self.write_copy(&mut primary_header)?;
+        }
+        self.primary_header = Ok(primary_header);
+
+        Ok(())
+    }
+
+    /// Whether the header and the partition array it points to are valid on the device.
+    fn is_intact(&mut self, header: Result<header::Header, HeaderError>) -> bool {
+        header.map_or(false, |h| {
+            partition::file_read_partitions(&mut self.device, &h, self.config.lb_size).is_ok()
+        })
+    }
+
+    /// Write the partition array and the header of one copy and make sure they reached the
+    /// device.
+    fn write_copy(&mut self, header: &mut header::Header) -> Result<(), GptError> {
         // Write all of the used partitions at the start of the partition array.
         let mut next_partition_index = 0;
         for (part_idx, partition) in self
             .partitions
-            .clone()
             .iter()
             .filter(|p| p.1.is_used())
             .enumerate()
         {
-            // don't allow us to overflow partition array...
-            // todo this should not be possible since we
-            // check in add partition that it is valid
-            if part_idx >= primary_header.num_parts as usize {
-                return Err(GptError::OverflowPartitionCount);
-            }
-
-            // Write to primary partition array
             partition.1.write_to_device(
                 &mut self.device,
                 part_idx as u64,
-                primary_header.part_start,
+                header.part_start,
                 self.config.lb_size,
-                primary_header.part_size,
+                header.part_size,
             )?;
-            // IMPORTANT: must also write it to the backup header if it uses a different
-            // area to store the partition array; otherwise backup header will not point
-            // to an up to date partition array on disk.
-            if let Some(backup_header) = &backup_header {
-                if part_idx >= backup_header.num_parts as usize {
-                    return Err(GptError::OverflowPartitionCount);
-                }
-
-                if primary_header.part_start != backup_header.part_start {
-                    partition.1.write_to_device(
-                        &mut self.device,
-                        part_idx as u64,
-                        backup_header.part_start,
-                        self.config.lb_size,
-                        backup_header.part_size,
-                    )?;
-                }
-            }
             next_partition_index = part_idx + 1;
         }
 
-        // Next, write zeros to the rest of the primary/backup partition array
+        // Next, write zeros to the rest of the partition array
         // (ensures any newly deleted partitions are truly removed from disk, etc.)
-        // NOTE: we should never underflow here because of boundary checking in loop above.
+        // NOTE: we should never underflow here because of boundary checking before writing.
         partition::Partition::write_zero_entries_to_device(
             &mut self.device,
             next_partition_index as u64,
-            (primary_header.num_parts as u64)
+            (header.num_parts as u64)
                 .checked_sub(next_partition_index as u64)
                 .unwrap(),
-            primary_header.part_start,
+            header.part_start,
             self.config.lb_size,
-            primary_header.part_size,
+            header.part_size,
         )?;
-        if let Some(backup_header) = &backup_header {
-            partition::Partition::write_zero_entries_to_device(
-                &mut self.device,
-                next_partition_index as u64,
-                (backup_header.num_parts as u64)
-                    .checked_sub(next_partition_index as u64)
-                    .unwrap(),
-                backup_header.part_start,
-                self.config.lb_size,
-                backup_header.part_size,
-            )?;
-        }
 
-        if let Some(backup_header) = backup_header {
-            debug!("Writing backup header");
-            backup_header.write_backup(&mut self.device, self.config.lb_size)?;
+        if header.current_lba < header.backup_lba {
+            header.write_primary(&mut self.device, self.config.lb_size)?;
+        } else {
+            header.write_backup(&mut self.device, self.config.lb_size)?;
         }
-        debug!("Writing primary header");
-        primary_header.write_primary(&mut self.device, self.config.lb_size)?;
 
         self.device.flush()?;
 
diff --git a/src/macros.rs b/src/macros.rs
index 586b695..a20bc0c 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -59,16 +59,3 @@ pub mod pub_macros {
         }
     }
 }
-
-pub(crate) trait ResultInsert<T> {
-    fn insert_ok(&mut self, value: T) -> &mut T;
-}
-
-impl<T, E> ResultInsert<T> for Result<T, E> {
-    fn insert_ok(&mut self, value: T) -> &mut T {
-        *self = Ok(value);
-
-        // SAFETY: the code above just filled the option
-        unsafe { self.as_mut().unwrap_unchecked() }
-    }
-}
-- 
2.43.0


From f8c4eb5229e5fa877b18497115a7bb4b9445b48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:44 +0000
Subject: [PATCH 17/22] fix: do not cut a partition name inside of a surrogate
 pair

---
 src/partition.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/partition.rs b/src/partition.rs
index 9176e69..690cfd1 100644
--- a/src/partition.rs
+++ b/src/partition.rs
@@ -85,8 +85,16 @@ impl Partition {
         buf.write_all(&self.flags.to_le_bytes())?;
 
         // Partition name as UTF16-LE.
-        for utf16_char in self.name.encode_utf16().take(36) {
-            buf.write_all(&utf16_char.to_le_bytes())?; // TODO: Check this
+        let mut name_len = 0;
+        for c in self.name.chars() {
+            // a name which is too long gets cut, but never inside of a surrogate pair
+            name_len += c.len_utf16();
+            if name_len > 36 {
+                break;
+            }
+            for utf16_char in c.encode_utf16(&mut [0; 2]) {
+                buf.write_all(&utf16_char.to_le_bytes())?; // TODO: Check this
+            }
         }
 
         // Resize buffer to exact entry size.
-- 
2.43.0


From 04d07c864d15bc72f0f30f79d6e45e212f5f8ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:00 +0000
Subject: [PATCH 18/22] fix: write the primary header to block 1 whatever
 location it claims

---
 src/header/builder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/header/builder.rs b/src/header/builder.rs
index 7e5af17..fef54dc 100644
--- a/src/header/builder.rs
+++ b/src/header/builder.rs
@@ -83,7 +83,11 @@ impl HeaderBuilder {
 
     /// Same as `backup_lba` but if the position changes last_usable get's calculated
     /// for the new position
+    ///
+    /// The primary header gets placed at lba 1, a header which was read might claim to be
+    /// at any other lba.
     pub(crate) fn move_backup_lba(&mut self, backup_lba: u64) -> &mut Self {
+        self.primary_lba = 1;
         if self.backup_lba != backup_lba {
             self.last_usable = 0;
         }
-- 
2.43.0


From d812f78f3016a953a11c3e4d3cad41b8274259b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:55 +0000
Subject: [PATCH 19/22] fix: erase a broken primary header before rewriting its
 array

---
 src/lib.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index cee09d2..f4c8ed3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -950,6 +950,15 @@ where
         let primary_first = !self.is_intact(h1) && self.is_intact(h2);
 
         if primary_first {
+            // What is left of an older header must not become valid again together with a
+            // partially written array.
+            debug!("Erasing primary header");
+            let zeros = vec![0; self.config.lb_size.as_usize()];
+            self.device
+                .seek(io::SeekFrom::Start(self.config.lb_size.into()))?;
+            self.device.write_all(&zeros)?;
+            self.flush_device()?;
+
             debug!("Writing primary header");
             self.write_copy(&mut primary_header)?;
         }
@@ -1017,6 +1026,11 @@ where
             header.write_backup(&mut self.device, self.config.lb_size)?;
         }
 
+        self.flush_device()
+    }
+
+    /// Make sure that everything written reached the device.
+    fn flush_device(&mut self) -> Result<(), GptError> {
         self.device.flush()?;
 
         if let Some(sync_all) = self.sync_all {
-- 
2.43.0


From ed82b71fc347f571b95bb6f2de6e766190233a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:59 +0000
Subject: [PATCH 20/22] fix: refuse to write a header without a signature of 8
 bytes

---
 src/header/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/header/mod.rs b/src/header/mod.rs
index f3ce4fb..35cbbde 100644
--- a/src/header/mod.rs
+++ b/src/header/mod.rs
@@ -170,6 +170,10 @@ impl Header {
         lba: u64,
         lb_size: disk::LogicalBlockSize,
     ) -> Result<usize, HeaderError> {
+        // a signature of any other length would shift all other fields
+        if self.signature.len() != 8 {
+            return Err(HeaderError::InvalidGptSignature);
+        }
         // Build up byte array in memory
         let parts_checksum = partentry_checksum(file, self, lb_size)?;
         self.crc32_parts = parts_checksum;
-- 
2.43.0


From 693190098b9fc5e3423a8f9ecd392dab6c3e1941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:38 +0000
Subject: [PATCH 21/22] fix: add_partition at the last sector of the number
 range

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index f4c8ed3..1ab4256 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -559,7 +559,7 @@ where
                     partition_id,
                     part_type,
                     starting_lba,
-                    starting_lba + size_lba - 1_u64
+                    starting_lba + (size_lba - 1_u64)
                 );
 
                 // let's try to increase the num parts
@@ -575,7 +575,7 @@ where
                     part_type_guid: part_type,
                     part_guid: uuid::Uuid::new_v4(),
                     first_lba: starting_lba,
-                    last_lba: starting_lba + size_lba - 1_u64,
+                    last_lba: starting_lba + (size_lba - 1_u64),
                     flags,
                     name: name.to_string(),
                 };
-- 
2.43.0


From 70b7e77a56da4ab44436d3734f4549f8d6a8be71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:41 +0000
Subject: [PATCH 22/22] fix: add_partition_at at the last sector of the number
 range

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1ab4256..9fd8cfa 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -642,7 +642,7 @@ where
                 id,
                 part_type,
                 first_lba,
-                first_lba + length_lba - 1_u64
+                first_lba + (length_lba - 1_u64)
             );
 
             // let's try to increase the num parts
@@ -659,7 +659,7 @@ where
                 part_type_guid: part_type,
                 part_guid: uuid::Uuid::new_v4(),
                 first_lba,
-                last_lba: first_lba + length_lba - 1_u64,
+                last_lba: first_lba + (length_lba - 1_u64),
                 flags,
                 name: name.to_string(),
             };
-- 
2.43.0

