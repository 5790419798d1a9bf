From 22e155bfd797950e4a8feb2e87c403685a61ec8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:21 +0000
Subject: [PATCH 01/14] fix: keep the backup partition array in front of the
 backup header

HeaderBuilder::build accepted a last usable block which left no room for the
backup array (for example the one inherited from a header with fewer
entries), placed the first usable block without regard to the position of
the primary header and overflowed while calculating the array size.
---
 src/header/builder.rs | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/header/builder.rs b/src/header/builder.rs
index d56b9a8..2bdc397 100644
--- a/src/header/builder.rs
+++ b/src/header/builder.rs
@@ -51,7 +51,8 @@ impl HeaderBuilder {
             primary_lba,
             backup_lba,
             first_usable: header.first_usable,
-            last_usable: header.last_usable,
+            // recalculated by build, it depends on num_parts and backup_lba
+            last_usable: 0,
             num_parts: header.num_parts,
             part_size: header.part_size,
         }
@@ -132,27 +133,34 @@ impl HeaderBuilder {
             (self.backup_lba, self.primary_lba)
         };
 
-        let part_array_size = self.num_parts * self.part_size;
-        let part_array_lbs = u64_div_ceil(part_array_size as u64, lb_size.as_u64());
+        let part_array_size = u64::from(self.num_parts) * u64::from(self.part_size);
+        let part_array_lbs = u64_div_ceil(part_array_size, lb_size.as_u64());
 
+        let array_start = self
+            .primary_lba
+            .checked_add(1)
+            .ok_or(HeaderError::Overflow("primary lba"))?;
         let first_usable = self.first_usable.max(
             // mbr, header, part_array
-            1 + 1 + part_array_lbs,
+            array_start
+                .checked_add(part_array_lbs)
+                .ok_or(HeaderError::Overflow("primary partition array"))?,
         );
 
-        let last_usable = self.last_usable.max(
-            // last is inclusive: end of disk is (partition array) (backup header)
-            self.backup_lba
-                .checked_sub(part_array_lbs + 1)
-                .ok_or(HeaderError::BackupLbaToEarly)?,
-        );
+        // last is inclusive: end of disk is (partition array) (backup header)
+        let max_last_usable = self
+            .backup_lba
+            .checked_sub(part_array_lbs + 1)
+            .ok_or(HeaderError::BackupLbaToEarly)?;
+        let last_usable = self.last_usable.max(max_last_usable);
 
-        if first_usable > last_usable {
+        // the backup partition array needs to fit before the backup header
+        if last_usable > max_last_usable || first_usable > last_usable {
             return Err(HeaderError::BackupLbaToEarly);
         }
 
         let part_start = if self.primary {
-            self.primary_lba + 1
+            array_start
         } else {
             last_usable + 1
         };
-- 
2.43.0


From 2ad781a5ee2a2253243739d770f19b8abdaaf3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:21 +0000
Subject: [PATCH 02/14] fix: never build a header for block zero

A header read from a disk can claim any position, persisting one which
claims block zero replaced the protective MBR.
---
 src/header/builder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/header/builder.rs b/src/header/builder.rs
index 2bdc397..f7be709 100644
--- a/src/header/builder.rs
+++ b/src/header/builder.rs
@@ -123,6 +123,10 @@ impl HeaderBuilder {
     /// - backup_lba
     pub fn build(&mut self, lb_size: LogicalBlockSize) -> Result<Header, HeaderError> {
         // validate data
+        if self.primary_lba == 0 {
+            // block zero belongs to the protective mbr
+            return Err(HeaderError::WritingToWrongLba);
+        }
         if self.backup_lba < self.primary_lba {
             return Err(HeaderError::MissingBackupLba);
         }
-- 
2.43.0


From 8a3a2378088de7dffdff33a7b43ec94b912c729c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:21 +0000
Subject: [PATCH 03/14] fix: report an unsupported partition entry size as an
 error

The entry size comes from the device, opening a disk panicked if it was not
128. The counter of empty entries could overflow as well.
---
 src/partition.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/partition.rs b/src/partition.rs
index e8df308..faf93cd 100644
--- a/src/partition.rs
+++ b/src/partition.rs
@@ -258,10 +258,15 @@ pub fn file_read_partitions<D: Read + Seek>(
     let mut parts: BTreeMap<u32, Partition> = BTreeMap::new();
 
     // todo how should we deal with unuals part_sizes?
-    assert_eq!(header.part_size, 128);
+    if header.part_size != 128 {
+        return Err(Error::new(
+            ErrorKind::Other,
+            "partition entry size not supported",
+        ));
+    }
 
     trace!("scanning {} partitions", header.num_parts);
-    let mut empty_parts = 0;
+    let mut empty_parts = 0_u32;
     let empty_bytes = [0u8; 128];
     for i in 0..header.num_parts {
         let mut bytes = empty_bytes;
-- 
2.43.0


From e9c59c089501ec800b80244ee3dffa02fc7abd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:55 +0000
Subject: [PATCH 04/14] fix: check the position of a partition entry for
 overflow

The entry could be written to the wrong place if the sum wrapped.
---
 src/partition.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/partition.rs b/src/partition.rs
index faf93cd..48a1f9c 100644
--- a/src/partition.rs
+++ b/src/partition.rs
@@ -126,8 +126,11 @@ impl Partition {
         let offset = partition_index
             .checked_mul(u64::from(bytes_per_partition))
             .ok_or_else(|| Error::new(ErrorKind::Other, "partition overflow"))?;
-        trace!("seeking to partition start: {}", pstart + offset);
-        device.seek(SeekFrom::Start(pstart + offset))?;
+        let start = pstart
+            .checked_add(offset)
+            .ok_or_else(|| Error::new(ErrorKind::Other, "partition overflow"))?;
+        trace!("seeking to partition start: {}", start);
+        device.seek(SeekFrom::Start(start))?;
         trace!("writing {:?}", &self.as_bytes(bytes_per_partition));
         device.write_all(&self.as_bytes(bytes_per_partition)?)?;
 
@@ -156,8 +159,11 @@ impl Partition {
         let offset = starting_partition_index
             .checked_mul(u64::from(bytes_per_partition))
             .ok_or_else(|| Error::new(ErrorKind::Other, "partition overflow"))?;
-        trace!("seeking to starting partition start: {}", pstart + offset);
-        device.seek(SeekFrom::Start(pstart + offset))?;
+        let start = pstart
+            .checked_add(offset)
+            .ok_or_else(|| Error::new(ErrorKind::Other, "partition overflow"))?;
+        trace!("seeking to starting partition start: {}", start);
+        device.seek(SeekFrom::Start(start))?;
         let bytes_to_zero = u64::from(bytes_per_partition)
             .checked_mul(number_entries)
             .and_then(|x| usize::try_from(x).ok())
-- 
2.43.0


From 687c488cf3c64b07aa2b9c9cfff94bb4ab933ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:55 +0000
Subject: [PATCH 05/14] fix: report seek errors while reading a header

A failing seek was ignored and the header was read from wherever the device
was positioned.
---
 src/header/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/header/mod.rs b/src/header/mod.rs
index 222478c..a322aa2 100644
--- a/src/header/mod.rs
+++ b/src/header/mod.rs
@@ -322,7 +322,7 @@ pub(crate) fn file_read_header<D: Read + Seek>(
     file: &mut D,
     offset: u64,
 ) -> Result<Header, HeaderError> {
-    let _ = file.seek(SeekFrom::Start(offset));
+    let _ = file.seek(SeekFrom::Start(offset))?;
 
     let mut bytes = BytesArray::from([0u8; 92]);
     file.read_exact(bytes.as_mut())?;
-- 
2.43.0


From 837d98563e6e8f0b07a71548eb2d35f0a6288672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:55 +0000
Subject: [PATCH 06/14] fix: persist the identifier set by update_guid

The headers written by write_inplace kept the old identifier.
---
 src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.rs b/src/lib.rs
index 0ca48a1..cb3b4f1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -874,6 +874,7 @@ where
         trace!("old backup lba: {}", bak);
 
         let primary_header = header::HeaderBuilder::from_header(self.header())
+            .disk_guid(self.guid)
             .primary(true)
             .build(self.config.lb_size)?;
         let primary_header = self.primary_header.insert_ok(primary_header);
-- 
2.43.0


From 98f867b94a46d176b862c015f97d43dfee0537be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:55 +0000
Subject: [PATCH 07/14] fix: only add a partition at blocks which are free

add_partition_at did not consider the offset inside the free section, a
partition could reach into the following one.
---
 src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index cb3b4f1..63953dc 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -603,7 +603,12 @@ where
         }
 
         for (starting_lba, length) in self.find_free_sectors() {
-            if !(first_lba >= starting_lba && length_lba <= length) {
+            // the whole partition needs to be inside this section
+            let fits = first_lba
+                .checked_sub(starting_lba)
+                .and_then(|offset| length.checked_sub(offset))
+                .map_or(false, |available| length_lba <= available);
+            if !fits {
                 continue;
             }
 
-- 
2.43.0


From 2095b31acb5e99777ef8e9a7bcb92525e324a12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:55 +0000
Subject: [PATCH 08/14] fix: calculate free sections without overflow

The boundaries come from the device, finding free sections panicked (or
wrapped) if one of them was zero or the largest block number.
---
 src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 63953dc..e520829 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -715,7 +715,7 @@ where
 
         trace!("first_usable: {}", header.first_usable);
         // a list of boundaries between partitions each point is a used lba
-        let mut disk_positions = vec![header.first_usable - 1];
+        let mut disk_positions = vec![header.first_usable.saturating_sub(1)];
         for part in self.partitions().iter().filter(|p| p.1.is_used()) {
             trace!(
                 "used partition: ({}, {})",
@@ -725,7 +725,7 @@ where
             disk_positions.push(part.1.first_lba);
             disk_positions.push(part.1.last_lba);
         }
-        disk_positions.push(header.last_usable + 1);
+        disk_positions.push(header.last_usable.saturating_add(1));
         trace!("last_usable: {}", header.last_usable);
         disk_positions.sort_unstable();
 
@@ -735,8 +735,8 @@ where
             // Add 1 to the ending and then subtract the starting if NOT the first usable sector
             .filter_map(|p| {
                 // free lba
-                let start = p[0] + 1;
-                let end = p[1] - 1;
+                let start = p[0].checked_add(1)?;
+                let end = p[1].checked_sub(1)?;
 
                 #[allow(clippy::unnecessary_lazy_evaluations)]
                 (start <= end).then(|| (start, end - start + 1))
-- 
2.43.0


From 4c45a82671f88371931babf8fd530e0cf8a8634c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:55 +0000
Subject: [PATCH 09/14] fix: add_partition with a zero or a huge alignment

An alignment of zero (as calculated for a disk without partitions) divided
by zero and the sum of alignment and size could overflow.
---
 src/lib.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index e520829..1ab6da4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -519,8 +519,9 @@ where
             // We don't need to do any checked math here because we guarantee that with `(A % B)`,
             // `A` will always be between 0 and `B-1`.
             let alignment_offset_lba = match part_alignment {
+                // calculate_alignment returns zero if there are no partitions
+                None | Some(0) => 0_u64,
                 Some(alignment) => (alignment - (starting_lba % alignment)) % alignment,
-                None => 0_u64,
             };
 
             debug!(
@@ -528,7 +529,10 @@ where
                 starting_lba, length, alignment_offset_lba
             );
 
-            if length >= (alignment_offset_lba + size_lba) {
+            let fits = alignment_offset_lba
+                .checked_add(size_lba)
+                .map_or(false, |needed| length >= needed);
+            if fits {
                 let starting_lba = starting_lba + alignment_offset_lba;
                 // Found our free slice.
                 let partition_id = self
-- 
2.43.0


From 7e65f86128a7f1a635d1ac502f30a1cc35246bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:55 +0000
Subject: [PATCH 10/14] fix: do not replace a partition if all ids of the table
 are in use

The id following the entry count could belong to another partition.
---
 src/lib.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1ab6da4..89c72c2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -535,9 +535,18 @@ where
             if fits {
                 let starting_lba = starting_lba + alignment_offset_lba;
                 // Found our free slice.
-                let partition_id = self
-                    .find_next_partition_id()
-                    .unwrap_or_else(|| self.header().num_parts + 1);
+                let partition_id = match self.find_next_partition_id() {
+                    Some(id) => id,
+                    // all ids are in use, add one after the largest
+                    None => self
+                        .partitions
+                        .keys()
+                        .next_back()
+                        .map_or(0, |id| *id)
+                        .max(self.header().num_parts)
+                        .checked_add(1)
+                        .ok_or(GptError::OverflowPartitionCount)?,
+                };
                 debug!(
                     "Adding partition id: {} {:?}.  first_lba: {} last_lba: {}",
                     partition_id,
-- 
2.43.0


From 55d04a3dc4d4886cf40d49e9c8ecb1f6fa33bf45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:25 +0000
Subject: [PATCH 11/14] fix: leave the disk unchanged if an edit fails

The partitions and the primary header were modified before all headers could
be built.
---
 src/lib.rs | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 89c72c2..2769ce3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -318,7 +318,7 @@ impl GptConfig {
             sync_all: None,
         };
         // setup default headers
-        disk.init_headers()?;
+        disk.init_headers(0)?;
         Ok(disk)
     }
 }
@@ -570,12 +570,12 @@ where
                     flags,
                     name: name.to_string(),
                 };
-                if let Some(p) = self.partitions.insert(partition_id, part.clone()) {
-                    debug!("Replacing\n{}\nwith\n{}", p, part);
-                }
                 if num_parts_changes {
                     // update headers
-                    self.init_headers()?;
+                    self.init_headers(self.len_with(partition_id))?;
+                }
+                if let Some(p) = self.partitions.insert(partition_id, part.clone()) {
+                    debug!("Replacing\n{}\nwith\n{}", p, part);
                 }
                 return Ok(partition_id);
             }
@@ -655,13 +655,13 @@ where
                 name: name.to_string(),
             };
 
-            if let Some(p) = self.partitions.insert(id, part.clone()) {
-                debug!("Replacing\n{}\nwith\n{}", p, part);
-            }
-
             if num_parts_changes {
                 // update headers
-                self.init_headers()?;
+                self.init_headers(self.len_with(id))?;
+            }
+
+            if let Some(p) = self.partitions.insert(id, part.clone()) {
+                debug!("Replacing\n{}\nwith\n{}", p, part);
             }
 
             return Ok(id);
@@ -824,16 +824,22 @@ where
             return Err(GptError::PartitionCountWouldChange);
         }
 
+        self.init_headers(num_parts)?;
         self.partitions = pp;
 
-        self.init_headers()
+        Ok(())
+    }
+
+    /// The number of partition entries after inserting `id`
+    fn len_with(&self, id: u32) -> u32 {
+        let new = !self.partitions.contains_key(&id);
+        self.partitions.len() as u32 + new as u32
     }
 
     /// Makes sure there exists a primary header and if allowed also creates the backup
     /// header.
-    pub(crate) fn init_headers(&mut self) -> Result<(), GptError> {
+    pub(crate) fn init_headers(&mut self, num_parts: u32) -> Result<(), GptError> {
         let bak = header::find_backup_lba(&mut self.device, self.config.lb_size)?;
-        let num_parts = self.partitions.len() as u32;
 
         let h1 = header::HeaderBuilder::from_maybe_header(self.try_header())
             .num_parts(num_parts)
@@ -841,14 +847,14 @@ where
             .disk_guid(self.guid)
             .primary(true)
             .build(self.config.lb_size)?;
-        let header = self.primary_header.insert_ok(h1);
-
+        // don't change anything if the backup header can't be built
         if !self.config.readonly_backup {
-            let h2 = header::HeaderBuilder::from_header(header)
+            let h2 = header::HeaderBuilder::from_header(&h1)
                 .primary(false)
                 .build(self.config.lb_size)?;
             self.backup_header = Ok(h2);
         }
+        self.primary_header = Ok(h1);
 
         Ok(())
     }
-- 
2.43.0


From ee17409c4193705f14dc374332b9f240326114be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:25 +0000
Subject: [PATCH 12/14] fix: never lower the number of partition entries

Replacing the partitions or adding one shrank the partition array to the
number of partitions, though num_parts_would_change promises otherwise.
---
 src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2769ce3..e9eba8f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -837,9 +837,13 @@ where
     }
 
     /// Makes sure there exists a primary header and if allowed also creates the backup
-    /// header.
+    /// header. Both will have at least `num_parts` entries.
     pub(crate) fn init_headers(&mut self, num_parts: u32) -> Result<(), GptError> {
         let bak = header::find_backup_lba(&mut self.device, self.config.lb_size)?;
+        // never lower the number of entries
+        let num_parts = self
+            .try_header()
+            .map_or(num_parts, |h| h.num_parts.max(num_parts));
 
         let h1 = header::HeaderBuilder::from_maybe_header(self.try_header())
             .num_parts(num_parts)
-- 
2.43.0


From ed387c174540d367e931954594a7ecbf32e4070a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:25 +0000
Subject: [PATCH 13/14] fix: check the number of partitions before writing any
 of them

Persisting more partitions than entries failed with the partition arrays
already overwritten but the headers not updated.
---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index e9eba8f..fdbbb9a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -917,6 +917,12 @@ where
             None
         };
 
+        // fail before changing the device if the partition array is too small
+        let used = self.partitions.values().filter(|p| p.is_used()).count();
+        if used > primary_header.num_parts as usize {
+            return Err(GptError::OverflowPartitionCount);
+        }
+
         // Write all of the used partitions at the start of the partition array.
         let mut next_partition_index = 0;
         for (part_idx, partition) in self
-- 
2.43.0


From 85a8ae71e1657e3bbb4303c8c870f2a1361ca9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:37 +0000
Subject: [PATCH 14/14] fix: recognize known partition types in every uuid
 format

---
 src/macros.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/macros.rs b/src/macros.rs
index 00447a9..a01fe22 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -36,10 +36,8 @@ pub mod pub_macros {
                         )+
                         _ => {
                             match ::uuid::Uuid::from_str(s) {
-                                Ok(u) => Ok(Type {
-                                    guid: u,
-                                    os: OperatingSystem::None,
-                                }),
+                                // might be a known type, written in another format
+                                Ok(u) => Ok(Type::from(u)),
                                 Err(_) => Err("Invalid Partition Type GUID.".to_string()),
                             }
                         }
-- 
2.43.0

