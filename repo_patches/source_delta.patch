From 227599b8e0e70d03e95f14a238c8859f4dbf6afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:13 +0000
Subject: [PATCH 01/59] fix: cut file reads at the end of the file

---
 xdvdfs-core/src/layout.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/xdvdfs-core/src/layout.rs b/xdvdfs-core/src/layout.rs
index 6aaac26..d8e3e98 100644
--- a/xdvdfs-core/src/layout.rs
+++ b/xdvdfs-core/src/layout.rs
@@ -239,8 +239,12 @@ impl DirectoryEntryDiskData {
             return Ok(());
         }
 
+        // Never read past the end of the file
+        let size = core::cmp::min(buf.len(), self.data.size as usize);
         let offset = self.data.offset(0)?;
-        dev.read(offset, buf).await.map_err(util::Error::IOError)?;
+        dev.read(offset, &mut buf[..size])
+            .await
+            .map_err(util::Error::IOError)?;
         Ok(())
     }
 
@@ -273,11 +277,12 @@ impl DirectoryEntryDiskData {
         size: u64,
         offset: u64,
     ) -> Result<alloc::boxed::Box<[u8]>, util::Error<BDR::ReadError>> {
-        let size = core::cmp::min(size, self.data.size as u64);
+        let remaining = (self.data.size as u64).saturating_sub(offset);
+        let size = core::cmp::min(size, remaining);
         let buf = alloc::vec![0; size as usize];
         let mut buf = buf.into_boxed_slice();
 
-        if self.data.size == 0 {
+        if size == 0 {
             return Ok(buf);
         }
 
-- 
2.43.0


From 4a1bc3948f4076de28ac1b80b5a9343a4844ef50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:13 +0000
Subject: [PATCH 02/59] fix: report out of bounds instead of panicking on
 partial slice reads

---
 xdvdfs-core/src/blockdev.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/xdvdfs-core/src/blockdev.rs b/xdvdfs-core/src/blockdev.rs
index 722cf3c..b527b54 100644
--- a/xdvdfs-core/src/blockdev.rs
+++ b/xdvdfs-core/src/blockdev.rs
@@ -57,14 +57,13 @@ impl BlockDeviceRead for [u8] {
     type ReadError = OutOfBounds;
 
     async fn read(&mut self, offset: u64, buffer: &mut [u8]) -> Result<(), OutOfBounds> {
-        let offset = offset as usize;
-        if offset >= self.as_ref().len() {
+        let offset: usize = offset.try_into().map_err(|_| OutOfBounds)?;
+        let size = <[u8]>::len(buffer);
+        if offset >= self.as_ref().len() || self.as_ref().len() - offset < size {
             return Err(OutOfBounds);
         }
 
-        let size = core::cmp::min(self.as_ref().len() - offset, <[u8]>::len(buffer));
-        let range = offset..(offset + size);
-        buffer.copy_from_slice(&self[range]);
+        buffer.copy_from_slice(&self[offset..(offset + size)]);
         Ok(())
     }
 }
-- 
2.43.0


From c677bfced80b3db525fae966d1cbff25f5b14af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:14 +0000
Subject: [PATCH 03/59] fix: copy only file contents when compressing from an
 image

---
 xdvdfs-core/src/write/fs/sector_linear.rs | 16 ++++++++--------
 xdvdfs-core/src/write/fs/xdvdfs.rs        |  3 ++-
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/xdvdfs-core/src/write/fs/sector_linear.rs b/xdvdfs-core/src/write/fs/sector_linear.rs
index 24af142..ffc25da 100644
--- a/xdvdfs-core/src/write/fs/sector_linear.rs
+++ b/xdvdfs-core/src/write/fs/sector_linear.rs
@@ -17,6 +17,7 @@ pub enum SectorLinearBlockContents {
 #[derive(Clone, Debug, Default)]
 pub struct SectorLinearBlockDevice {
     contents: alloc::collections::BTreeMap<u64, SectorLinearBlockContents>,
+    file_sizes: alloc::collections::BTreeMap<PathVec, u64>,
 }
 
 pub struct SectorLinearBlockFilesystem<'a, F: ?Sized> {
@@ -131,6 +132,7 @@ where
             sector_span += 1;
         }
 
+        dest.file_sizes.insert(src.clone(), size);
         for i in 0..sector_span {
             if dest
                 .contents
@@ -195,18 +197,16 @@ where
                 buf.copy_from_slice(data.as_slice());
             }
             SectorLinearBlockContents::File(path, sector_idx) => {
+                // The last sector of a file may only be partially filled
+                let position = sector_size as u64 * sector_idx;
+                let file_size = self.linear.file_sizes.get(path).copied().unwrap_or(0);
+                let size = core::cmp::min(sector_size as u64, file_size.saturating_sub(position));
                 let bytes_read = self
                     .fs
                     .fs
-                    .copy_file_in(
-                        path,
-                        &mut buf,
-                        sector_size as u64 * sector_idx,
-                        0,
-                        sector_size as u64,
-                    )
+                    .copy_file_in(path, &mut buf[..(size as usize)], position, 0, size)
                     .await?;
-                assert_eq!(bytes_read, sector_size as u64);
+                assert_eq!(bytes_read, size);
             }
         };
 
diff --git a/xdvdfs-core/src/write/fs/xdvdfs.rs b/xdvdfs-core/src/write/fs/xdvdfs.rs
index 3de5119..c562867 100644
--- a/xdvdfs-core/src/write/fs/xdvdfs.rs
+++ b/xdvdfs-core/src/write/fs/xdvdfs.rs
@@ -306,7 +306,8 @@ where
                 util::Error::NoDirent,
             ))?;
 
-        let size_to_copy = core::cmp::min(size, dirent.node.dirent.data.size as u64);
+        let file_size = dirent.node.dirent.data.size as u64;
+        let size_to_copy = core::cmp::min(size, file_size.saturating_sub(input_offset));
         if size_to_copy == 0 {
             return Ok(0);
         }
-- 
2.43.0


From 10e75a7755e5253c850a542b070d4fd2595dfaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:15 +0000
Subject: [PATCH 04/59] fix: fill the whole destination slice when copying from
 StdFilesystem

---
 xdvdfs-core/src/write/fs/stdfs.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/xdvdfs-core/src/write/fs/stdfs.rs b/xdvdfs-core/src/write/fs/stdfs.rs
index f41179a..40186e9 100644
--- a/xdvdfs-core/src/write/fs/stdfs.rs
+++ b/xdvdfs-core/src/write/fs/stdfs.rs
@@ -124,8 +124,7 @@ impl FilesystemCopier<alloc::boxed::Box<[u8]>> for StdFilesystem {
         let size = core::cmp::min(size as usize, <[u8]>::len(dest) - output_offset);
 
         let dest = &mut dest[output_offset..(output_offset + size)];
-        let bytes_read = Read::read(&mut file, dest)?;
-        dest[(output_offset + bytes_read)..].fill(0);
+        Read::read_exact(&mut file, dest)?;
         Ok(<[u8]>::len(dest) as u64)
     }
 }
@@ -153,8 +152,7 @@ impl FilesystemCopier<[u8]> for StdFilesystem {
         let size = core::cmp::min(size as usize, <[u8]>::len(dest) - output_offset);
 
         let dest = &mut dest[output_offset..(output_offset + size)];
-        let bytes_read = Read::read(&mut file, dest)?;
-        dest[(output_offset + bytes_read)..].fill(0);
+        Read::read_exact(&mut file, dest)?;
         Ok(<[u8]>::len(dest) as u64)
     }
 }
-- 
2.43.0


From 1fa647fc9ef8361eb2c653bc2036f2451849f521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:31 +0000
Subject: [PATCH 05/59] fix: key path prefix tree by UTF-8 bytes to support all
 characters

---
 xdvdfs-core/src/write/fs/mod.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/xdvdfs-core/src/write/fs/mod.rs b/xdvdfs-core/src/write/fs/mod.rs
index aef75a2..d0b0a31 100644
--- a/xdvdfs-core/src/write/fs/mod.rs
+++ b/xdvdfs-core/src/write/fs/mod.rs
@@ -192,7 +192,7 @@ struct PathPrefixTree<T> {
 }
 
 struct PPTIter<'a, T> {
-    queue: Vec<(String, &'a PathPrefixTree<T>)>,
+    queue: Vec<(Vec<u8>, &'a PathPrefixTree<T>)>,
 }
 
 impl<'a, T> Iterator for PPTIter<'a, T> {
@@ -207,13 +207,14 @@ impl<'a, T> Iterator for PPTIter<'a, T> {
             for (ch, child) in node.children.iter().enumerate() {
                 if let Some(child) = child {
                     let mut name = name.to_owned();
-                    name.push(ch as u8 as char);
+                    name.push(ch as u8);
                     self.queue.push((name, child));
                 }
             }
 
             if let Some(record) = &node.record {
-                return Some((name.to_owned(), &record.0));
+                let name = String::from_utf8_lossy(name).into_owned();
+                return Some((name, &record.0));
             }
         }
 
@@ -237,7 +238,7 @@ impl<T> PathPrefixTree<T> {
 
         let mut component_iter = path.iter().peekable();
         while let Some(component) = component_iter.next() {
-            for ch in component.chars() {
+            for ch in component.bytes() {
                 let next = &node.children[ch as usize];
                 node = next.as_ref()?;
             }
@@ -258,7 +259,7 @@ impl<T> PathPrefixTree<T> {
 
         let mut component_iter = path.iter().peekable();
         while let Some(component) = component_iter.next() {
-            for ch in component.chars() {
+            for ch in component.bytes() {
                 let next = &mut node.children[ch as usize];
                 node = next.as_mut()?;
             }
@@ -278,7 +279,7 @@ impl<T> PathPrefixTree<T> {
         let mut node = self;
 
         for component in path.iter() {
-            for ch in component.chars() {
+            for ch in component.bytes() {
                 let next = &node.children[ch as usize];
                 node = next.as_ref()?;
             }
@@ -294,7 +295,7 @@ impl<T> PathPrefixTree<T> {
     pub fn insert_tail(&mut self, tail: &str, val: T) -> &mut Self {
         let mut node = self;
 
-        for ch in tail.chars() {
+        for ch in tail.bytes() {
             let next = &mut node.children[ch as usize];
             node = next.get_or_insert_with(|| Box::new(Self::default()));
         }
@@ -312,7 +313,7 @@ impl<T> PathPrefixTree<T> {
 
     pub fn iter(&self) -> PPTIter<'_, T> {
         PPTIter {
-            queue: alloc::vec![(String::new(), self)],
+            queue: alloc::vec![(Vec::new(), self)],
         }
     }
 }
-- 
2.43.0


From 9e03abd702030054a0e712f8a9626bd63c2cf550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:32 +0000
Subject: [PATCH 06/59] fix: report short copies when packing instead of
 dropping data

---
 xdvdfs-core/src/write/fs/stdfs.rs  |  7 ++++++-
 xdvdfs-core/src/write/fs/xdvdfs.rs | 22 ++++++++++++++++++----
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/xdvdfs-core/src/write/fs/stdfs.rs b/xdvdfs-core/src/write/fs/stdfs.rs
index 40186e9..ca6de53 100644
--- a/xdvdfs-core/src/write/fs/stdfs.rs
+++ b/xdvdfs-core/src/write/fs/stdfs.rs
@@ -97,7 +97,12 @@ where
         file.seek(SeekFrom::Start(input_offset))?;
 
         let mut file = std::io::BufReader::with_capacity(1024 * 1024, file.take(size));
-        std::io::copy(&mut file, dest)
+        let copied = std::io::copy(&mut file, dest)?;
+        if copied != size {
+            return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof));
+        }
+
+        Ok(copied)
     }
 }
 
diff --git a/xdvdfs-core/src/write/fs/xdvdfs.rs b/xdvdfs-core/src/write/fs/xdvdfs.rs
index c562867..1ac1748 100644
--- a/xdvdfs-core/src/write/fs/xdvdfs.rs
+++ b/xdvdfs-core/src/write/fs/xdvdfs.rs
@@ -150,8 +150,15 @@ where
 
         // Arbitrarily assign copy errors to the write side,
         // we can't differentiate them anyway
-        std::io::copy(&mut src.by_ref().take(size), dest)
-            .map_err(XDVDFSFilesystemError::BlockDevWriteErr)
+        let copied = std::io::copy(&mut src.by_ref().take(size), dest)
+            .map_err(XDVDFSFilesystemError::BlockDevWriteErr)?;
+        if copied != size {
+            return Err(XDVDFSFilesystemError::BlockDevReadErr(
+                std::io::Error::from(std::io::ErrorKind::UnexpectedEof),
+            ));
+        }
+
+        Ok(copied)
     }
 }
 
@@ -177,8 +184,15 @@ where
 
         // Arbitrarily assign copy errors to the write side,
         // we can't differentiate them anyway
-        std::io::copy(&mut src.get_mut().by_ref().take(size), dest)
-            .map_err(XDVDFSFilesystemError::BlockDevWriteErr)
+        let copied = std::io::copy(&mut src.get_mut().by_ref().take(size), dest)
+            .map_err(XDVDFSFilesystemError::BlockDevWriteErr)?;
+        if copied != size {
+            return Err(XDVDFSFilesystemError::BlockDevReadErr(
+                std::io::Error::from(std::io::ErrorKind::UnexpectedEof),
+            ));
+        }
+
+        Ok(copied)
     }
 }
 
-- 
2.43.0


From 84d812d9427e5fee64ba99d9a29f6f3c103c7cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:31 +0000
Subject: [PATCH 07/59] fix: treat child offset 0xffff as absent when looking
 up entries

---
 xdvdfs-core/src/read.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xdvdfs-core/src/read.rs b/xdvdfs-core/src/read.rs
index 3c827a5..78fdfd9 100644
--- a/xdvdfs-core/src/read.rs
+++ b/xdvdfs-core/src/read.rs
@@ -197,7 +197,7 @@ impl DirectoryEntryTable {
                 core::cmp::Ordering::Greater => dirent.node.right_entry_offset,
             };
 
-            if next_offset == 0 {
+            if next_offset == 0 || next_offset == 0xffff {
                 return Err(util::Error::DoesNotExist);
             }
 
-- 
2.43.0


From 3b18bd78f371a9260e58f1854c1bedb8bbf7821a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:31 +0000
Subject: [PATCH 08/59] fix: look up paths made only of slashes as the root

---
 xdvdfs-core/src/read.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xdvdfs-core/src/read.rs b/xdvdfs-core/src/read.rs
index 78fdfd9..75dd25e 100644
--- a/xdvdfs-core/src/read.rs
+++ b/xdvdfs-core/src/read.rs
@@ -217,7 +217,7 @@ impl DirectoryEntryTable {
         path: &str,
     ) -> Result<DirectoryEntryNode, util::Error<BDR::ReadError>> {
         debugln!("[walk_path] Called on {}", path);
-        if path.is_empty() || path == "/" {
+        if path.trim_start_matches('/').is_empty() {
             return Err(util::Error::NoDirent);
         }
 
-- 
2.43.0


From 8780182bf1f55d032e3b1b0c45dfe461c38da219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:31 +0000
Subject: [PATCH 09/59] fix: report the same entry offset from scans as from
 lookups

---
 xdvdfs-core/src/read.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xdvdfs-core/src/read.rs b/xdvdfs-core/src/read.rs
index 75dd25e..ea2eb76 100644
--- a/xdvdfs-core/src/read.rs
+++ b/xdvdfs-core/src/read.rs
@@ -49,7 +49,9 @@ impl<BDR: BlockDeviceRead> DirentScanIter<'_, BDR> {
             let mut buf = [0; 0xe];
             let name_offset = self.offset + 0xe;
             buf.copy_from_slice(&self.sector_buf[self.offset..name_offset]);
-            let dirent = deserialize_dirent_node(&buf, self.offset as u64)?;
+            let dirent_offset =
+                (self.sector as u64) * (layout::SECTOR_SIZE as u64) + self.offset as u64;
+            let dirent = deserialize_dirent_node(&buf, dirent_offset)?;
             let Some(mut dirent) = dirent else {
                 // If we find an empty record, but we still have sectors to go,
                 // advance the sector count and retry
-- 
2.43.0


From 6aec0f3ea25e9c4b0fc2f8597dbd17b9edf279ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:31 +0000
Subject: [PATCH 10/59] fix: report entries running over their sector instead
 of panicking

---
 xdvdfs-core/src/read.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xdvdfs-core/src/read.rs b/xdvdfs-core/src/read.rs
index ea2eb76..a520662 100644
--- a/xdvdfs-core/src/read.rs
+++ b/xdvdfs-core/src/read.rs
@@ -65,7 +65,12 @@ impl<BDR: BlockDeviceRead> DirentScanIter<'_, BDR> {
 
             let name_len = dirent.node.dirent.filename_length as usize;
             let name_buf = &mut dirent.name[0..name_len];
-            assert!(name_offset + name_len <= layout::SECTOR_SIZE as usize);
+            if name_offset + name_len > layout::SECTOR_SIZE as usize {
+                return Err(util::Error::SizeOutOfBounds(
+                    (name_offset + name_len) as u64,
+                    layout::SECTOR_SIZE,
+                ));
+            }
             name_buf.copy_from_slice(&self.sector_buf[name_offset..(name_offset + name_len)]);
 
             // Dirent is valid, advance cursor before returning
-- 
2.43.0


From 2b71d31131c0dd5d85eeeabddbf0626402825385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:54 +0000
Subject: [PATCH 11/59] fix: stop on self-referencing directory tables instead
 of looping forever

---
 xdvdfs-core/src/read.rs            | 16 +++++++++++++++-
 xdvdfs-core/src/util.rs            |  2 ++
 xdvdfs-core/src/write/fs/xdvdfs.rs | 15 +++++++++++++++
 3 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/xdvdfs-core/src/read.rs b/xdvdfs-core/src/read.rs
index a520662..ae12489 100644
--- a/xdvdfs-core/src/read.rs
+++ b/xdvdfs-core/src/read.rs
@@ -188,7 +188,8 @@ impl DirectoryEntryTable {
 
         let mut offset = self.offset(0)?;
 
-        loop {
+        // Entry offsets are 16 bits wide, a longer search must be revisiting entries
+        for _ in 0..=u16::MAX {
             let dirent = read_dirent(dev, offset).await?;
             let dirent = dirent.ok_or(util::Error::DoesNotExist)?;
             let dirent_name = dirent.name_str()?;
@@ -210,6 +211,8 @@ impl DirectoryEntryTable {
 
             offset = self.offset(4 * next_offset as u64)?;
         }
+
+        Err(util::Error::CyclicDirectory)
     }
 
     /// Retrieves the directory entry node corresponding to the provided path,
@@ -302,8 +305,13 @@ impl DirectoryEntryTable {
             return Ok(dirents);
         }
 
+        let mut visited = alloc::collections::BTreeSet::new();
         let mut stack = vec![0];
         while let Some(top) = stack.pop() {
+            if !visited.insert(top) {
+                return Err(util::Error::CyclicDirectory);
+            }
+
             let offset = self.offset(top)?;
             let dirent = read_dirent(dev, offset).await?;
 
@@ -342,10 +350,16 @@ impl DirectoryEntryTable {
 
         let mut dirents = vec![];
 
+        let mut visited = alloc::collections::BTreeSet::new();
         let mut stack = vec![(String::from(""), *self)];
         while let Some((parent, tree)) = stack.pop() {
             debugln!("[file_tree] Descending through {}", parent);
             let children = tree.walk_dirent_tree(dev).await?;
+            let sector = tree.region.sector;
+            if !children.is_empty() && !visited.insert(sector) {
+                return Err(util::Error::CyclicDirectory);
+            }
+
             for child in children.iter() {
                 if let Some(dirent_table) = child.node.dirent.dirent_table() {
                     let child_name = child.name_str()?;
diff --git a/xdvdfs-core/src/util.rs b/xdvdfs-core/src/util.rs
index ef107e7..f0c874d 100644
--- a/xdvdfs-core/src/util.rs
+++ b/xdvdfs-core/src/util.rs
@@ -16,6 +16,7 @@ pub enum Error<E> {
     InvalidFileName,
     TooManyDirectoryEntries,
     FileTooLarge,
+    CyclicDirectory,
 }
 
 impl<E> Error<E> {
@@ -34,6 +35,7 @@ impl<E> Error<E> {
             Self::InvalidFileName => "Invalid file name",
             Self::TooManyDirectoryEntries => "Too many entries in directory",
             Self::FileTooLarge => "File is too large",
+            Self::CyclicDirectory => "Directory structure contains a cycle",
         }
     }
 }
diff --git a/xdvdfs-core/src/write/fs/xdvdfs.rs b/xdvdfs-core/src/write/fs/xdvdfs.rs
index 1ac1748..8a3ce8d 100644
--- a/xdvdfs-core/src/write/fs/xdvdfs.rs
+++ b/xdvdfs-core/src/write/fs/xdvdfs.rs
@@ -1,3 +1,4 @@
+use alloc::collections::BTreeMap;
 use alloc::vec::Vec;
 use core::error::Error;
 use core::fmt::Debug;
@@ -206,6 +207,7 @@ where
     dev: D,
     volume: crate::layout::VolumeDescriptor,
     dirent_cache: PathPrefixTree<DirectoryEntryNode>,
+    visited_tables: BTreeMap<u32, PathVec>,
 
     w_type: core::marker::PhantomData<W>,
     copier_type: core::marker::PhantomData<Copier>,
@@ -226,6 +228,7 @@ where
                 dev,
                 volume,
                 dirent_cache: PathPrefixTree::default(),
+                visited_tables: BTreeMap::new(),
                 w_type: core::marker::PhantomData,
                 copier_type: core::marker::PhantomData,
             })
@@ -292,6 +295,18 @@ where
             });
         }
 
+        // A table found under two paths would make the hierarchy infinite
+        let sector = dirtab.region.sector;
+        if !entries.is_empty() {
+            let visited = self
+                .visited_tables
+                .entry(sector)
+                .or_insert_with(|| dir.clone());
+            if visited != dir {
+                return Err(util::Error::CyclicDirectory);
+            }
+        }
+
         Ok(entries)
     }
 }
-- 
2.43.0


From 329e42d5fe6e05d0f588053b9d4678031f10aa45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:22 +0000
Subject: [PATCH 12/59] fix: reject images with more data than sectors can
 address

---
 xdvdfs-core/src/write/dirtab.rs |  2 +-
 xdvdfs-core/src/write/img.rs    |  2 +-
 xdvdfs-core/src/write/sector.rs | 13 +++++++++----
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/xdvdfs-core/src/write/dirtab.rs b/xdvdfs-core/src/write/dirtab.rs
index 22edf31..da3b73f 100644
--- a/xdvdfs-core/src/write/dirtab.rs
+++ b/xdvdfs-core/src/write/dirtab.rs
@@ -189,7 +189,7 @@ impl DirectoryEntryTableWriter {
                 dirent,
             };
 
-            let sector = allocator.allocate_contiguous(dirent.dirent.data.size as u64);
+            let sector = allocator.allocate_contiguous(dirent.dirent.data.size as u64)?;
             dirent.dirent.data.sector = sector;
 
             file_listing.push(FileListingEntry {
diff --git a/xdvdfs-core/src/write/img.rs b/xdvdfs-core/src/write/img.rs
index 4e3499e..f361a55 100644
--- a/xdvdfs-core/src/write/img.rs
+++ b/xdvdfs-core/src/write/img.rs
@@ -137,7 +137,7 @@ pub async fn create_xdvdfs_image<
         .first_key_value()
         .expect("should always have one dirent at minimum (root)");
     let root_dirtab_size = root_dirtab.1.dirtab_size();
-    let root_sector = sector_allocator.allocate_contiguous(root_dirtab_size as u64);
+    let root_sector = sector_allocator.allocate_contiguous(root_dirtab_size as u64)?;
     let root_table = layout::DirectoryEntryTable::new(root_dirtab_size, root_sector);
     dir_sectors.insert((*root_dirtab.0).clone(), root_sector as u64);
 
diff --git a/xdvdfs-core/src/write/sector.rs b/xdvdfs-core/src/write/sector.rs
index 85715d9..28569a3 100644
--- a/xdvdfs-core/src/write/sector.rs
+++ b/xdvdfs-core/src/write/sector.rs
@@ -1,5 +1,7 @@
 use crate::layout::SECTOR_SIZE;
 
+use super::FileStructureError;
+
 pub struct SectorAllocator {
     next_free: u32,
 }
@@ -29,11 +31,14 @@ pub fn required_sectors(len: u64) -> u32 {
 
 impl SectorAllocator {
     /// Allocates a contiguous set of sectors, big enough to fit `bytes`.
-    /// Returns the number of the first sector in the allocation
-    pub fn allocate_contiguous(&mut self, bytes: u64) -> u32 {
+    /// Returns the number of the first sector in the allocation,
+    /// or an error if the allocation exceeds the addressable sectors
+    pub fn allocate_contiguous(&mut self, bytes: u64) -> Result<u32, FileStructureError> {
         let sectors = required_sectors(bytes);
         let allocation = self.next_free;
-        self.next_free += sectors;
-        allocation
+        self.next_free = allocation
+            .checked_add(sectors)
+            .ok_or(FileStructureError::FileTooLarge)?;
+        Ok(allocation)
     }
 }
-- 
2.43.0


From cfba3928602a00eb5b5ba66c49b642a8b8e720b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:31 +0000
Subject: [PATCH 13/59] fix: print child offsets past 64 KiB in info

---
 xdvdfs-cli/src/cmd_info.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xdvdfs-cli/src/cmd_info.rs b/xdvdfs-cli/src/cmd_info.rs
index 4c7c796..948c65b 100644
--- a/xdvdfs-cli/src/cmd_info.rs
+++ b/xdvdfs-cli/src/cmd_info.rs
@@ -42,7 +42,7 @@ fn print_dirent(dirent: &DirectoryEntryNode) -> Result<(), anyhow::Error> {
         "{0: <20} {1}",
         "Left Child Offset:",
         if dirent.node.left_entry_offset != 0 {
-            format!("{} bytes", 4 * dirent.node.left_entry_offset)
+            format!("{} bytes", 4 * dirent.node.left_entry_offset as u32)
         } else {
             String::from("None")
         }
@@ -51,7 +51,7 @@ fn print_dirent(dirent: &DirectoryEntryNode) -> Result<(), anyhow::Error> {
         "{0: <20} {1}",
         "Right Child Offset:",
         if dirent.node.right_entry_offset != 0 {
-            format!("{} bytes", 4 * dirent.node.right_entry_offset)
+            format!("{} bytes", 4 * dirent.node.right_entry_offset as u32)
         } else {
             String::from("None")
         }
-- 
2.43.0


From 9473016e1db304c7e50f2e7358ff28734f1351f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:31 +0000
Subject: [PATCH 14/59] fix: skip the file name when parsing multiple
 extract-xiso create jobs

---
 xdvdfs-cli/src/exiso_compat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xdvdfs-cli/src/exiso_compat.rs b/xdvdfs-cli/src/exiso_compat.rs
index 45d2fec..3750dae 100644
--- a/xdvdfs-cli/src/exiso_compat.rs
+++ b/xdvdfs-cli/src/exiso_compat.rs
@@ -117,7 +117,7 @@ async fn exiso_create(dir: &String, file: &Option<String>, rest: &[String]) -> a
 
         if i + 2 < rest.len() && rest[i + 2] != "-c" {
             tasks.push((&rest[i + 1], Some(rest[i + 2].clone())));
-            i += 2;
+            i += 3;
         } else {
             tasks.push((&rest[i + 1], None));
             i += 2;
-- 
2.43.0


From 4e19f24a1d108039c0c2b6bcfa27cd0521ac4ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:33 +0000
Subject: [PATCH 15/59] fix: rewrite into the directory given to extract-xiso
 -d

---
 xdvdfs-cli/src/exiso_compat.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/xdvdfs-cli/src/exiso_compat.rs b/xdvdfs-cli/src/exiso_compat.rs
index 3750dae..5d3ab80 100644
--- a/xdvdfs-cli/src/exiso_compat.rs
+++ b/xdvdfs-cli/src/exiso_compat.rs
@@ -179,9 +179,7 @@ async fn exiso_repack(
 
         // Pack using `input.old` as input, and source path as output
         let dest_path = match directory {
-            Some(d) => {
-                absolute_path(Path::new(d))?.with_file_name(source_path.file_name().unwrap())
-            }
+            Some(d) => absolute_path(Path::new(d))?.join(source_path.file_name().unwrap()),
             None => source_path,
         };
 
-- 
2.43.0


From d97d0b1473f0da10d34a0985a7853c6a32f0596a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:55 +0000
Subject: [PATCH 16/59] fix: refuse to extract entries outside of the
 destination directory

---
 xdvdfs-cli/src/cmd_unpack.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/xdvdfs-cli/src/cmd_unpack.rs b/xdvdfs-cli/src/cmd_unpack.rs
index 23e6a85..69de743 100644
--- a/xdvdfs-cli/src/cmd_unpack.rs
+++ b/xdvdfs-cli/src/cmd_unpack.rs
@@ -1,14 +1,23 @@
 use crate::img::open_image_raw;
+use anyhow::bail;
 use clap::Args;
 use maybe_async::maybe_async;
 use std::{
     fs::File,
     io::{BufReader, Read, Write},
-    path::{Path, PathBuf},
+    path::{Component, Path, PathBuf},
     str::FromStr,
 };
 use xdvdfs::{blockdev::OffsetWrapper, layout::DirectoryEntryTable};
 
+/// Returns whether `name` is a single path component, which does
+/// not refer to a parent directory or outside of its directory
+fn is_plain_file_name(name: &str) -> bool {
+    let mut components = Path::new(name).components();
+    matches!(components.next(), Some(Component::Normal(c)) if c == name)
+        && components.next().is_none()
+}
+
 #[maybe_async]
 async fn copyout_directory(
     img: &mut OffsetWrapper<BufReader<File>>,
@@ -24,6 +33,10 @@ async fn copyout_directory(
         let file_path = dirname.join(&*file_name);
         let is_dir = dirent.node.dirent.is_directory();
 
+        if !file_name.is_empty() && !is_plain_file_name(&file_name) {
+            bail!("Refusing to extract entry with invalid file name {file_name:?}");
+        }
+
         println!(
             "Extracting {} {}",
             if is_dir { "directory" } else { "file" },
-- 
2.43.0


From 098c07cce5f5e3214a9714fae391e36639ca5fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:57 +0000
Subject: [PATCH 17/59] fix: create the destination directory when extracting
 empty directories

---
 xdvdfs-cli/src/cmd_unpack.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xdvdfs-cli/src/cmd_unpack.rs b/xdvdfs-cli/src/cmd_unpack.rs
index 69de743..661dcb0 100644
--- a/xdvdfs-cli/src/cmd_unpack.rs
+++ b/xdvdfs-cli/src/cmd_unpack.rs
@@ -26,6 +26,7 @@ async fn copyout_directory(
 ) -> Result<(), anyhow::Error> {
     let tree = dirtab.file_tree(img).await?;
 
+    std::fs::create_dir_all(dest_dir)?;
     for (dir, dirent) in &tree {
         let dir = dir.trim_start_matches('/');
         let dirname = dest_dir.join(dir);
-- 
2.43.0


From c0333a6f0c0a64c153c45a30ff83a2bc7c9eb2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:58 +0000
Subject: [PATCH 18/59] fix: report truncated file data when extracting

---
 xdvdfs-cli/src/cmd_unpack.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/xdvdfs-cli/src/cmd_unpack.rs b/xdvdfs-cli/src/cmd_unpack.rs
index 661dcb0..9ef2cce 100644
--- a/xdvdfs-cli/src/cmd_unpack.rs
+++ b/xdvdfs-cli/src/cmd_unpack.rs
@@ -69,9 +69,12 @@ async fn copyout_directory(
         let data = img.get_ref().get_ref().try_clone();
         match data {
             Ok(data) => {
-                let data = data.take(dirent.node.dirent.data.size as u64);
+                let size = dirent.node.dirent.data.size as u64;
+                let data = data.take(size);
                 let mut data = std::io::BufReader::new(data);
-                std::io::copy(&mut data, &mut file)?;
+                if std::io::copy(&mut data, &mut file)? != size {
+                    bail!("Unexpected end of image");
+                }
             }
             Err(err) => {
                 eprintln!("Error in fast path, falling back to slow path: {:?}", err);
@@ -155,9 +158,12 @@ pub async fn cmd_copyout(args: &CopyOutArgs) -> Result<(), anyhow::Error> {
     let data = img.get_ref().get_ref().try_clone();
     match data {
         Ok(data) => {
-            let data = data.take(dirent.node.dirent.data.size as u64);
+            let size = dirent.node.dirent.data.size as u64;
+            let data = data.take(size);
             let mut data = std::io::BufReader::new(data);
-            std::io::copy(&mut data, &mut file)?;
+            if std::io::copy(&mut data, &mut file)? != size {
+                bail!("Unexpected end of image");
+            }
         }
         Err(err) => {
             eprintln!("Error in fast path, falling back to slow path: {:?}", err);
-- 
2.43.0


From 653f1aceab63a88932f67264cb65bc71023a4c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:26 +0000
Subject: [PATCH 19/59] fix: report errors in the last write of an output image

---
 xdvdfs-cli/src/cmd_build_image.rs |  2 ++
 xdvdfs-cli/src/cmd_compress.rs    | 16 +++++++++-------
 xdvdfs-cli/src/cmd_pack.rs        |  7 ++++++-
 3 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/xdvdfs-cli/src/cmd_build_image.rs b/xdvdfs-cli/src/cmd_build_image.rs
index 90dddbc..a99610a 100644
--- a/xdvdfs-cli/src/cmd_build_image.rs
+++ b/xdvdfs-cli/src/cmd_build_image.rs
@@ -244,6 +244,8 @@ pub async fn cmd_build_image(args: &BuildImageArgs) -> Result<(), anyhow::Error>
 
     write::img::create_xdvdfs_image(&mut remapfs, &mut image, progress_callback).await?;
 
+    // Dropping the writer would ignore errors in its last write
+    image.flush()?;
     Ok(())
 }
 
diff --git a/xdvdfs-cli/src/cmd_compress.rs b/xdvdfs-cli/src/cmd_compress.rs
index 68b55da..16487c1 100644
--- a/xdvdfs-cli/src/cmd_compress.rs
+++ b/xdvdfs-cli/src/cmd_compress.rs
@@ -22,7 +22,6 @@ pub struct CompressArgs {
 
 struct SplitStdFs;
 
-type BufFile = std::io::BufWriter<std::fs::File>;
 type BufFileSectorLinearFs<'a> = write::fs::SectorLinearBlockFilesystem<
     'a,
     write::fs::XDVDFSFilesystem<
@@ -33,14 +32,17 @@ type BufFileSectorLinearFs<'a> = write::fs::SectorLinearBlockFilesystem<
 >;
 
 #[maybe_async]
-impl ciso::split::SplitFilesystem<std::io::Error, BufFile> for SplitStdFs {
-    async fn create_file(&mut self, name: &std::ffi::OsStr) -> Result<BufFile, std::io::Error> {
-        let file = std::fs::File::create(name)?;
-        let bf: BufFile = std::io::BufWriter::new(file);
-        Ok(bf)
+impl ciso::split::SplitFilesystem<std::io::Error, std::fs::File> for SplitStdFs {
+    async fn create_file(
+        &mut self,
+        name: &std::ffi::OsStr,
+    ) -> Result<std::fs::File, std::io::Error> {
+        // Not buffered, since every write seeks, and a buffered
+        // writer would ignore errors in the last write when dropped
+        std::fs::File::create(name)
     }
 
-    async fn close(&mut self, _: BufFile) {}
+    async fn close(&mut self, _: std::fs::File) {}
 }
 
 fn get_default_image_path(source_path: &Path, is_dir: bool) -> Option<PathBuf> {
diff --git a/xdvdfs-cli/src/cmd_pack.rs b/xdvdfs-cli/src/cmd_pack.rs
index 2605c8e..0f8dbaf 100644
--- a/xdvdfs-cli/src/cmd_pack.rs
+++ b/xdvdfs-cli/src/cmd_pack.rs
@@ -1,4 +1,7 @@
-use std::path::{Path, PathBuf};
+use std::{
+    io::Write,
+    path::{Path, PathBuf},
+};
 
 use anyhow::bail;
 use clap::Args;
@@ -99,5 +102,7 @@ pub async fn cmd_pack_path(source_path: &Path, image_path: &Path) -> Result<(),
         return Err(anyhow::anyhow!("Symlink image sources are not supported"));
     }
 
+    // Dropping the writer would ignore errors in its last write
+    image.flush()?;
     Ok(())
 }
-- 
2.43.0


From f085f42dc16a05cc512e1c310db47c739af3341f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:28 +0000
Subject: [PATCH 20/59] fix: write compressed images to the directory of the
 output path

---
 xdvdfs-cli/src/cmd_compress.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/xdvdfs-cli/src/cmd_compress.rs b/xdvdfs-cli/src/cmd_compress.rs
index 16487c1..0ecb163 100644
--- a/xdvdfs-cli/src/cmd_compress.rs
+++ b/xdvdfs-cli/src/cmd_compress.rs
@@ -20,7 +20,9 @@ pub struct CompressArgs {
     image_path: Option<String>,
 }
 
-struct SplitStdFs;
+struct SplitStdFs {
+    dir: PathBuf,
+}
 
 type BufFileSectorLinearFs<'a> = write::fs::SectorLinearBlockFilesystem<
     'a,
@@ -39,7 +41,7 @@ impl ciso::split::SplitFilesystem<std::io::Error, std::fs::File> for SplitStdFs
     ) -> Result<std::fs::File, std::io::Error> {
         // Not buffered, since every write seeks, and a buffered
         // writer would ignore errors in the last write when dropped
-        std::fs::File::create(name)
+        std::fs::File::create(self.dir.join(name))
     }
 
     async fn close(&mut self, _: std::fs::File) {}
@@ -76,7 +78,8 @@ pub async fn cmd_compress(args: &CompressArgs) -> Result<(), anyhow::Error> {
         ));
     }
 
-    let mut output = ciso::split::SplitOutput::new(SplitStdFs, image_path);
+    let dir = image_path.parent().unwrap_or(Path::new("")).to_path_buf();
+    let mut output = ciso::split::SplitOutput::new(SplitStdFs { dir }, image_path);
 
     let progress_callback = |pi| match pi {
         ProgressInfo::DirAdded(path, sector) => {
-- 
2.43.0


From ac33ea7b9a3abbbbaa3441ac69fa57f58f297cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:29 +0000
Subject: [PATCH 21/59] fix: detect output paths inside the source through
 symlinks and relative paths

---
 xdvdfs-cli/src/cmd_compress.rs |  4 ++--
 xdvdfs-cli/src/img.rs          | 13 ++++++++++---
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/xdvdfs-cli/src/cmd_compress.rs b/xdvdfs-cli/src/cmd_compress.rs
index 0ecb163..076f18f 100644
--- a/xdvdfs-cli/src/cmd_compress.rs
+++ b/xdvdfs-cli/src/cmd_compress.rs
@@ -56,7 +56,7 @@ fn get_default_image_path(source_path: &Path, is_dir: bool) -> Option<PathBuf> {
 
 #[maybe_async]
 pub async fn cmd_compress(args: &CompressArgs) -> Result<(), anyhow::Error> {
-    let source_path = PathBuf::from(&args.source_path);
+    let source_path = absolute_path(Path::new(&args.source_path))?;
     let meta = std::fs::metadata(&source_path)?;
     let is_dir = meta.is_dir();
 
@@ -72,7 +72,7 @@ pub async fn cmd_compress(args: &CompressArgs) -> Result<(), anyhow::Error> {
         return Err(anyhow::anyhow!("Source and destination paths are the same"));
     }
 
-    if image_path.starts_with(&source_path) {
+    if absolute_path(&image_path)?.starts_with(&source_path) {
         return Err(anyhow::anyhow!(
             "Destination path is contained by source path"
         ));
diff --git a/xdvdfs-cli/src/img.rs b/xdvdfs-cli/src/img.rs
index f570ff6..0cc38ad 100644
--- a/xdvdfs-cli/src/img.rs
+++ b/xdvdfs-cli/src/img.rs
@@ -80,10 +80,17 @@ pub async fn open_image(
 /// otherwise returns the result of std::path::absolute
 /// std::fs::canonicalize will follow symlinks, but seems to error on some filesystems
 /// on Windows. Following symlinks is desirable, so it is attempted first
+///
+/// If the path does not exist, symlinks are followed in its parent directory
 pub fn absolute_path(path: &Path) -> std::io::Result<PathBuf> {
-    match std::fs::canonicalize(path) {
-        Err(_) => std::path::absolute(path),
-        ok => ok,
+    if let Ok(path) = std::fs::canonicalize(path) {
+        return Ok(path);
+    }
+
+    let path = std::path::absolute(path)?;
+    match (path.parent().map(std::fs::canonicalize), path.file_name()) {
+        (Some(Ok(parent)), Some(name)) => Ok(parent.join(name)),
+        _ => Ok(path),
     }
 }
 
-- 
2.43.0


From 5e918d902a9cbce72851e4a74b6e4cc5c8b396a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:04 +0000
Subject: [PATCH 22/59] fix: do not overwrite the source image when compressing

---
 xdvdfs-cli/src/cmd_compress.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/xdvdfs-cli/src/cmd_compress.rs b/xdvdfs-cli/src/cmd_compress.rs
index 076f18f..3927533 100644
--- a/xdvdfs-cli/src/cmd_compress.rs
+++ b/xdvdfs-cli/src/cmd_compress.rs
@@ -22,6 +22,7 @@ pub struct CompressArgs {
 
 struct SplitStdFs {
     dir: PathBuf,
+    source: PathBuf,
 }
 
 type BufFileSectorLinearFs<'a> = write::fs::SectorLinearBlockFilesystem<
@@ -39,9 +40,16 @@ impl ciso::split::SplitFilesystem<std::io::Error, std::fs::File> for SplitStdFs
         &mut self,
         name: &std::ffi::OsStr,
     ) -> Result<std::fs::File, std::io::Error> {
+        let path = self.dir.join(name);
+        if absolute_path(&path)? == self.source {
+            return Err(std::io::Error::other(
+                "Source and destination paths are the same",
+            ));
+        }
+
         // Not buffered, since every write seeks, and a buffered
         // writer would ignore errors in the last write when dropped
-        std::fs::File::create(self.dir.join(name))
+        std::fs::File::create(path)
     }
 
     async fn close(&mut self, _: std::fs::File) {}
@@ -78,8 +86,11 @@ pub async fn cmd_compress(args: &CompressArgs) -> Result<(), anyhow::Error> {
         ));
     }
 
-    let dir = image_path.parent().unwrap_or(Path::new("")).to_path_buf();
-    let mut output = ciso::split::SplitOutput::new(SplitStdFs { dir }, image_path);
+    let split_fs = SplitStdFs {
+        dir: image_path.parent().unwrap_or(Path::new("")).to_path_buf(),
+        source: source_path.clone(),
+    };
+    let mut output = ciso::split::SplitOutput::new(split_fs, image_path);
 
     let progress_callback = |pi| match pi {
         ProgressInfo::DirAdded(path, sector) => {
-- 
2.43.0


From 8f240eb86abe60e618482ce3870b04105bc4b7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:05 +0000
Subject: [PATCH 23/59] fix: honour the output option of build-image

---
 xdvdfs-cli/src/cmd_build_image.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xdvdfs-cli/src/cmd_build_image.rs b/xdvdfs-cli/src/cmd_build_image.rs
index a99610a..8ceb702 100644
--- a/xdvdfs-cli/src/cmd_build_image.rs
+++ b/xdvdfs-cli/src/cmd_build_image.rs
@@ -195,10 +195,10 @@ pub async fn cmd_build_image(args: &BuildImageArgs) -> Result<(), anyhow::Error>
     let image_path = if let Some(path) = &args.image_path {
         PathBuf::from_str(path)?
     } else {
-        let output_path = image_spec
+        let output_path = args.meta_output.as_ref().or(image_spec
             .as_ref()
             .and_then(|spec| spec.metadata.as_ref())
-            .and_then(|meta| meta.output.as_ref());
+            .and_then(|meta| meta.output.as_ref()));
 
         if let Some(output) = output_path {
             source_path.join(output)
-- 
2.43.0


From 8800a63db3a1818626f410b0b731bf13f580c592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:07 +0000
Subject: [PATCH 24/59] fix: do not overwrite mapped source files in
 build-image

---
 xdvdfs-cli/src/cmd_build_image.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/xdvdfs-cli/src/cmd_build_image.rs b/xdvdfs-cli/src/cmd_build_image.rs
index 8ceb702..1ca0faa 100644
--- a/xdvdfs-cli/src/cmd_build_image.rs
+++ b/xdvdfs-cli/src/cmd_build_image.rs
@@ -9,7 +9,7 @@ use xdvdfs::write::{
     img::ProgressInfo,
 };
 
-use crate::img::with_extension;
+use crate::img::{absolute_path, with_extension};
 
 #[derive(Args)]
 #[command(
@@ -219,6 +219,14 @@ pub async fn cmd_build_image(args: &BuildImageArgs) -> Result<(), anyhow::Error>
         return Ok(());
     }
 
+    // Opening the output truncates it, which must not destroy a file to be packed
+    let absolute_image_path = absolute_path(&image_path)?;
+    for (host, _) in remapfs.dump() {
+        if absolute_path(&host.as_path_buf(&source_path))? == absolute_image_path {
+            return Err(anyhow!("Output path is a mapped source file"));
+        }
+    }
+
     let image = std::fs::File::options()
         .write(true)
         .truncate(true)
-- 
2.43.0


From f0b5f790c755aefb60b8fd48555bece4ac4517a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:08 +0000
Subject: [PATCH 25/59] fix: reject repeated host paths when generating an
 image spec

---
 xdvdfs-cli/src/cmd_build_image.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xdvdfs-cli/src/cmd_build_image.rs b/xdvdfs-cli/src/cmd_build_image.rs
index 1ca0faa..4180b77 100644
--- a/xdvdfs-cli/src/cmd_build_image.rs
+++ b/xdvdfs-cli/src/cmd_build_image.rs
@@ -273,10 +273,15 @@ pub async fn cmd_image_spec(args: &ImageSpecArgs) -> Result<(), anyhow::Error> {
                 return Err(anyhow!("Map rule \"{host}\" must have an image path unless it is an exclusion rule (starting with '!')"));
             }
 
-            map_rules.insert(
+            let previous = map_rules.insert(
                 host.to_owned(),
                 toml::Value::String(image.map(|s| s.to_owned()).unwrap_or_default()),
             );
+            if previous.is_some() {
+                return Err(anyhow!(
+                    "Host path \"{host}\" cannot be repeated in an image spec"
+                ));
+            }
         }
 
         Some(map_rules)
-- 
2.43.0


From 259b79b4eda974e449852afe6da044a29aef62c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:23 +0000
Subject: [PATCH 26/59] fix: build images from a spec file in the current
 directory

---
 xdvdfs-cli/src/cmd_build_image.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xdvdfs-cli/src/cmd_build_image.rs b/xdvdfs-cli/src/cmd_build_image.rs
index 4180b77..fd52cff 100644
--- a/xdvdfs-cli/src/cmd_build_image.rs
+++ b/xdvdfs-cli/src/cmd_build_image.rs
@@ -149,6 +149,8 @@ pub async fn cmd_build_image(args: &BuildImageArgs) -> Result<(), anyhow::Error>
             .parent()
             .ok_or(anyhow!("Invalid source path"))?
             .to_path_buf();
+        // The parent of a bare file name is the current directory
+        let source = PathBuf::from(".").join(source);
         (source_path, source)
     };
 
@@ -203,7 +205,7 @@ pub async fn cmd_build_image(args: &BuildImageArgs) -> Result<(), anyhow::Error>
         if let Some(output) = output_path {
             source_path.join(output)
         } else {
-            with_extension(&source_path, "xiso.iso", true)
+            with_extension(&std::path::absolute(&source_path)?, "xiso.iso", true)
         }
     };
 
-- 
2.43.0


From 25a2e8e05ed7a585a7c1d1899a8761f7601681fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:09 +0000
Subject: [PATCH 27/59] fix: substitute glob matches in a single pass when
 remapping

---
 xdvdfs-core/src/write/fs/remap.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/xdvdfs-core/src/write/fs/remap.rs b/xdvdfs-core/src/write/fs/remap.rs
index 8305b05..634d8b1 100644
--- a/xdvdfs-core/src/write/fs/remap.rs
+++ b/xdvdfs-core/src/write/fs/remap.rs
@@ -229,11 +229,27 @@ where
                     continue;
                 }
 
-                let mut rewrite = cfg.map_rules[idx].1.clone();
-                let match_indices = Self::find_match_indices(&rewrite)?;
-                for index in match_indices {
-                    let replace = matched.get(index).unwrap_or("");
-                    rewrite = rewrite.replace(&alloc::format!("{{{index}}}"), replace);
+                let rewrite_rule = &cfg.map_rules[idx].1;
+                Self::find_match_indices(rewrite_rule)?;
+
+                // Substitute in a single pass, matched text is never substituted again
+                let mut rewrite = String::new();
+                for (i, part) in rewrite_rule.split('{').enumerate() {
+                    let substitution = part
+                        .split_once('}')
+                        .and_then(|(index, rest)| Some((index.parse().ok()?, rest)));
+                    match substitution {
+                        Some((index, rest)) if i > 0 => {
+                            rewrite.push_str(matched.get(index).unwrap_or(""));
+                            rewrite.push_str(rest);
+                        }
+                        _ => {
+                            if i > 0 {
+                                rewrite.push('{');
+                            }
+                            rewrite.push_str(part);
+                        }
+                    }
                 }
 
                 // If this path matched a prefix (e.g. the rule "bin") and has a suffix (e.g.
-- 
2.43.0


From aee8d9c7ae04c5083a977648fba97558fc0e038d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:10 +0000
Subject: [PATCH 28/59] fix: keep the leading dot of remapped file names

---
 xdvdfs-core/src/write/fs/remap.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xdvdfs-core/src/write/fs/remap.rs b/xdvdfs-core/src/write/fs/remap.rs
index 634d8b1..9ce0b47 100644
--- a/xdvdfs-core/src/write/fs/remap.rs
+++ b/xdvdfs-core/src/write/fs/remap.rs
@@ -259,11 +259,11 @@ where
                         alloc::format!("{}{}", rewrite.trim_end_matches('/'), suffix.as_string());
                 }
 
+                // Strip leading relative components, but not the dot of a hidden file
                 let rewrite = PathVec::from_iter(
                     rewrite
-                        .trim_start_matches('.')
-                        .trim_start_matches('/')
-                        .split('/'),
+                        .split('/')
+                        .skip_while(|component| matches!(*component, "" | "." | "..")),
                 );
                 rewritten_path = Some(rewrite);
             }
-- 
2.43.0


From 026fc22e06e7ad9c16965785fd94cbcdfd9a05e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:19 +0000
Subject: [PATCH 29/59] fix: report missing files as such in mounted images

---
 xdvdfs-fsd/src/img_fs.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xdvdfs-fsd/src/img_fs.rs b/xdvdfs-fsd/src/img_fs.rs
index 6112fc9..d7f28b9 100644
--- a/xdvdfs-fsd/src/img_fs.rs
+++ b/xdvdfs-fsd/src/img_fs.rs
@@ -212,6 +212,10 @@ impl fuser::Filesystem for FuseFilesystem {
         let dirent = self.rt.block_on(dirtab.walk_path(&mut self.device, name));
         let dirent = match dirent {
             Ok(dirent) => dirent,
+            Err(xdvdfs::util::Error::DoesNotExist | xdvdfs::util::Error::DirectoryEmpty) => {
+                reply.error(libc::ENOENT);
+                return;
+            }
             Err(_) => {
                 reply.error(libc::EIO);
                 return;
-- 
2.43.0


From 6e3d78d9b6f721e7de87b15b614c17ca8f27671f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:20 +0000
Subject: [PATCH 30/59] fix: reply to directory reads with small buffers

---
 xdvdfs-fsd/src/img_fs.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xdvdfs-fsd/src/img_fs.rs b/xdvdfs-fsd/src/img_fs.rs
index d7f28b9..ff8732d 100644
--- a/xdvdfs-fsd/src/img_fs.rs
+++ b/xdvdfs-fsd/src/img_fs.rs
@@ -364,11 +364,13 @@ impl fuser::Filesystem for FuseFilesystem {
 
         // Increment idx + 1 because 0 is special in FUSE
         if offset == 0 && reply.add(ino, idx + 1, fuser::FileType::Directory, ".") {
+            reply.ok();
             return;
         }
         idx += 1;
 
         if offset <= 1 && reply.add(ino, idx + 1, fuser::FileType::Directory, "..") {
+            reply.ok();
             return;
         }
         idx += 1;
-- 
2.43.0


From 789397b66df189a16d77296c2c55384a8b815e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:56 +0000
Subject: [PATCH 31/59] fix: limit file names by their length on disk

---
 xdvdfs-core/src/layout.rs       | 12 +++++++-----
 xdvdfs-core/src/write/dirtab.rs | 11 +++++------
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/xdvdfs-core/src/layout.rs b/xdvdfs-core/src/layout.rs
index d8e3e98..6ad866d 100644
--- a/xdvdfs-core/src/layout.rs
+++ b/xdvdfs-core/src/layout.rs
@@ -109,7 +109,8 @@ pub struct DirectoryEntryNode {
 #[cfg(feature = "write")]
 pub struct DirectoryEntryData {
     pub node: DirectoryEntryDiskData,
-    pub name: arrayvec::ArrayString<256>,
+    // UTF-8 encoded, up to 3 bytes for each of up to 255 bytes on disk
+    pub name: arrayvec::ArrayString<768>,
 }
 
 impl DiskRegion {
@@ -326,8 +327,7 @@ impl DirectoryEntryNode {
 #[cfg(feature = "write")]
 impl DirectoryEntryData {
     pub fn name_slice(&self) -> &[u8] {
-        let name_len = self.node.filename_length as usize;
-        &self.name.as_str().as_bytes()[0..name_len]
+        self.name.as_str().as_bytes()
     }
 
     pub fn name_str(&self) -> &str {
@@ -341,13 +341,15 @@ impl DirectoryEntryData {
             encoder.encode_from_utf8_without_replacement(self.name_str(), buffer, true);
         match result {
             encoding_rs::EncoderResult::InputEmpty => {}
+            encoding_rs::EncoderResult::OutputFull => {
+                return Err(FileStructureError::FileNameTooLong)
+            }
             _ => return Err(FileStructureError::StringEncodingError),
         }
         if bytes_read != self.name.len() {
             Err(FileStructureError::StringEncodingError)
         } else {
-            TryInto::<u8>::try_into(bytes_written)
-                .map_err(|_| FileStructureError::StringEncodingError)
+            TryInto::<u8>::try_into(bytes_written).map_err(|_| FileStructureError::FileNameTooLong)
         }
     }
 
diff --git a/xdvdfs-core/src/write/dirtab.rs b/xdvdfs-core/src/write/dirtab.rs
index da3b73f..131adc8 100644
--- a/xdvdfs-core/src/write/dirtab.rs
+++ b/xdvdfs-core/src/write/dirtab.rs
@@ -49,20 +49,19 @@ impl DirectoryEntryTableWriter {
     ) -> Result<(), FileStructureError> {
         let name =
             arrayvec::ArrayString::from(name).map_err(|_| FileStructureError::FileNameTooLong)?;
-        let filename_length = name
-            .len()
-            .try_into()
-            .map_err(|_| FileStructureError::FileNameTooLong)?;
 
-        let dirent = DirectoryEntryData {
+        let mut dirent = DirectoryEntryData {
             node: DirectoryEntryDiskData {
                 data: DiskRegion { sector: 0, size },
                 attributes,
-                filename_length,
+                filename_length: 0,
             },
             name,
         };
 
+        // The limit applies to the name as encoded on disk
+        dirent.node.filename_length = dirent.encode_name(&mut [0; 256])?;
+
         self.size = None;
         self.table
             .insert(dirent)
-- 
2.43.0


From b3a7565091a613b41bd3f4d991fa73940419831f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:03 +0000
Subject: [PATCH 32/59] fix: include buffered data in the length of a buffered
 file

---
 xdvdfs-core/src/blockdev.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xdvdfs-core/src/blockdev.rs b/xdvdfs-core/src/blockdev.rs
index b527b54..c98f9ef 100644
--- a/xdvdfs-core/src/blockdev.rs
+++ b/xdvdfs-core/src/blockdev.rs
@@ -271,6 +271,8 @@ impl BlockDeviceWrite for std::io::BufWriter<std::fs::File> {
     }
 
     async fn len(&mut self) -> Result<u64, std::io::Error> {
+        // The file does not include data that is still buffered
+        std::io::Write::flush(self)?;
         Ok(self.get_mut().metadata()?.len())
     }
 }
-- 
2.43.0


From 50cff170c4e89cba896fb587b2b2a2315bce23ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:03 +0000
Subject: [PATCH 33/59] fix: report the length of an offset device relative to
 its offset

---
 xdvdfs-core/src/blockdev.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xdvdfs-core/src/blockdev.rs b/xdvdfs-core/src/blockdev.rs
index c98f9ef..20b37cb 100644
--- a/xdvdfs-core/src/blockdev.rs
+++ b/xdvdfs-core/src/blockdev.rs
@@ -205,7 +205,8 @@ where
     }
 
     async fn len(&mut self) -> Result<u64, Self::WriteError> {
-        self.inner.len().await
+        let len = self.inner.len().await?;
+        Ok(len.saturating_sub(self.offset))
     }
 }
 
-- 
2.43.0


From c5295940fb1addb84b861b660a0b8bc485a9a2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:25 +0000
Subject: [PATCH 34/59] fix: treat offsets past the address space as out of
 bounds in OffsetWrapper

Adding the partition offset overflowed, which panics in debug builds
and wraps around to an unrelated position in release builds.
---
 xdvdfs-core/src/blockdev.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/xdvdfs-core/src/blockdev.rs b/xdvdfs-core/src/blockdev.rs
index 20b37cb..3dbe80f 100644
--- a/xdvdfs-core/src/blockdev.rs
+++ b/xdvdfs-core/src/blockdev.rs
@@ -188,7 +188,10 @@ where
     type ReadError = T::ReadError;
 
     async fn read(&mut self, offset: u64, buffer: &mut [u8]) -> Result<(), Self::ReadError> {
-        self.inner.read(offset + self.offset, buffer).await
+        // An offset past the end of the address space is out of bounds for any device
+        self.inner
+            .read(offset.saturating_add(self.offset), buffer)
+            .await
     }
 }
 
@@ -201,7 +204,9 @@ where
     type WriteError = <T as BlockDeviceWrite>::WriteError;
 
     async fn write(&mut self, offset: u64, buffer: &[u8]) -> Result<(), Self::WriteError> {
-        self.inner.write(offset + self.offset, buffer).await
+        self.inner
+            .write(offset.saturating_add(self.offset), buffer)
+            .await
     }
 
     async fn len(&mut self) -> Result<u64, Self::WriteError> {
@@ -218,7 +223,9 @@ where
     fn seek(&mut self, pos: std::io::SeekFrom) -> std::io::Result<u64> {
         use std::io::SeekFrom;
         match pos {
-            SeekFrom::Start(pos) => self.inner.seek(SeekFrom::Start(self.offset + pos)),
+            SeekFrom::Start(pos) => self
+                .inner
+                .seek(SeekFrom::Start(self.offset.saturating_add(pos))),
             pos => self.inner.seek(pos),
         }
     }
-- 
2.43.0


From 499e1a9ec2e37472741d80ab7ebe9b4425a58488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:38 +0000
Subject: [PATCH 35/59] fix: keep the full directory name in default
 extract-xiso output paths

Creating images from `game.a` and `game.b` wrote both to `game.iso`, the
second replacing the first.
---
 xdvdfs-cli/src/exiso_compat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xdvdfs-cli/src/exiso_compat.rs b/xdvdfs-cli/src/exiso_compat.rs
index 5d3ab80..14db68a 100644
--- a/xdvdfs-cli/src/exiso_compat.rs
+++ b/xdvdfs-cli/src/exiso_compat.rs
@@ -88,7 +88,7 @@ async fn exiso_create_single(dir: &String, file: &Option<String>) -> anyhow::Res
     let image_path = file
         .as_ref()
         .map(PathBuf::from)
-        .unwrap_or_else(|| dir.with_extension("iso"));
+        .unwrap_or_else(|| with_extension(&dir, "iso", true));
 
     use crate::cmd_pack::*;
     cmd_pack_path(&dir, &image_path).await
-- 
2.43.0


From d5e132f962376577366dfef63f0bc51b60c1a8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:56 +0000
Subject: [PATCH 36/59] fix: report an unreadable build-image source instead of
 packing its parent directory

---
 xdvdfs-cli/src/cmd_build_image.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xdvdfs-cli/src/cmd_build_image.rs b/xdvdfs-cli/src/cmd_build_image.rs
index fd52cff..740772a 100644
--- a/xdvdfs-cli/src/cmd_build_image.rs
+++ b/xdvdfs-cli/src/cmd_build_image.rs
@@ -142,7 +142,7 @@ pub async fn cmd_build_image(args: &BuildImageArgs) -> Result<(), anyhow::Error>
         std::env::current_dir()?
     };
 
-    let (spec_path, source_path) = if source_path.is_dir() {
+    let (spec_path, source_path) = if std::fs::metadata(&source_path)?.is_dir() {
         (source_path.join("xdvdfs.toml"), source_path)
     } else {
         let source = source_path
-- 
2.43.0


From f992701984766f5a4318f564217eb92181887845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:08 +0000
Subject: [PATCH 37/59] fix: read compressed images by whole sectors, other
 reads panicked or returned wrong data

---
 xdvdfs-cli/src/img.rs | 38 ++++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/xdvdfs-cli/src/img.rs b/xdvdfs-cli/src/img.rs
index 0cc38ad..f870487 100644
--- a/xdvdfs-cli/src/img.rs
+++ b/xdvdfs-cli/src/img.rs
@@ -5,7 +5,10 @@ use std::{
     io::BufReader,
     path::{Path, PathBuf},
 };
-use xdvdfs::blockdev::{BlockDeviceRead, OffsetWrapper};
+use xdvdfs::{
+    blockdev::{BlockDeviceRead, OffsetWrapper},
+    layout::SECTOR_SIZE,
+};
 
 pub struct CSOBlockDevice<R: ciso::read::Read<ReadError = std::io::Error>> {
     inner: CSOReader<std::io::Error, R>,
@@ -19,13 +22,32 @@ where
     type ReadError = std::io::Error;
 
     async fn read(&mut self, offset: u64, buffer: &mut [u8]) -> Result<(), std::io::Error> {
-        self.inner
-            .read_offset(offset, buffer)
-            .await
-            .map_err(|e| match e {
-                ciso::layout::Error::Other(e) => e,
-                e => std::io::Error::new(std::io::ErrorKind::Other, e),
-            })
+        // CSOReader only supports whole sectors inside of the image, it misreads
+        // or panics on a read starting or ending elsewhere
+        let mut sector = [0; SECTOR_SIZE as usize];
+        let mut copied = 0;
+        while copied < buffer.len() {
+            let position = offset + copied as u64;
+            if position >= self.inner.file_size() {
+                return Err(std::io::ErrorKind::UnexpectedEof.into());
+            }
+
+            let skip = position % SECTOR_SIZE as u64;
+            self.inner
+                .read_offset(position - skip, &mut sector)
+                .await
+                .map_err(|e| match e {
+                    ciso::layout::Error::Other(e) => e,
+                    e => std::io::Error::new(std::io::ErrorKind::Other, e),
+                })?;
+
+            let data = &sector[skip as usize..];
+            let len = core::cmp::min(data.len(), buffer.len() - copied);
+            buffer[copied..copied + len].copy_from_slice(&data[..len]);
+            copied += len;
+        }
+
+        Ok(())
     }
 }
 
-- 
2.43.0


From a7b6187922e4b858f6fbb57a0ff880d7809a3190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:18 +0000
Subject: [PATCH 38/59] fix: compressed images lost the last bytes of their
 last sector

---
 xdvdfs-cli/src/cmd_compress.rs | 40 +++++++++++++++++++++++++++++++++-
 1 file changed, 39 insertions(+), 1 deletion(-)

diff --git a/xdvdfs-cli/src/cmd_compress.rs b/xdvdfs-cli/src/cmd_compress.rs
index 3927533..554eea6 100644
--- a/xdvdfs-cli/src/cmd_compress.rs
+++ b/xdvdfs-cli/src/cmd_compress.rs
@@ -55,6 +55,40 @@ impl ciso::split::SplitFilesystem<std::io::Error, std::fs::File> for SplitStdFs
     async fn close(&mut self, _: std::fs::File) {}
 }
 
+/// Output of the compressor, keeping track of where the written data ends
+struct TrackedOutput<W> {
+    inner: W,
+    end: u64,
+}
+
+#[maybe_async]
+impl<W: ciso::write::AsyncWriter> ciso::write::AsyncWriter for TrackedOutput<W> {
+    type WriteError = W::WriteError;
+
+    async fn atomic_write(&mut self, position: u64, data: &[u8]) -> Result<(), W::WriteError> {
+        self.inner.atomic_write(position, data).await?;
+        self.end = core::cmp::max(self.end, position + data.len() as u64);
+        Ok(())
+    }
+}
+
+impl<W: ciso::write::AsyncWriter> TrackedOutput<W> {
+    /// The index counts in units of four bytes, and its last entry, the end of the last
+    /// sector, is rounded down, which cuts off the last bytes of the data. Round it up instead
+    #[maybe_async]
+    async fn align_end(&mut self, index_table_len: usize) -> Result<(), W::WriteError> {
+        let end = self.end.next_multiple_of(4);
+        let padding = vec![0; (end - self.end) as usize];
+        self.inner.atomic_write(self.end, &padding).await?;
+
+        let last_entry = 24 + 4 * (index_table_len as u64 - 1);
+        let end = (end >> 2) as u32;
+        self.inner
+            .atomic_write(last_entry, &end.to_le_bytes())
+            .await
+    }
+}
+
 fn get_default_image_path(source_path: &Path, is_dir: bool) -> Option<PathBuf> {
     let source_file_name = source_path.file_name()?;
     let output = with_extension(Path::new(source_file_name), "cso", is_dir);
@@ -90,7 +124,10 @@ pub async fn cmd_compress(args: &CompressArgs) -> Result<(), anyhow::Error> {
         dir: image_path.parent().unwrap_or(Path::new("")).to_path_buf(),
         source: source_path.clone(),
     };
-    let mut output = ciso::split::SplitOutput::new(split_fs, image_path);
+    let mut output = TrackedOutput {
+        inner: ciso::split::SplitOutput::new(split_fs, image_path),
+        end: 0,
+    };
 
     let progress_callback = |pi| match pi {
         ProgressInfo::DirAdded(path, sector) => {
@@ -146,5 +183,6 @@ pub async fn cmd_compress(args: &CompressArgs) -> Result<(), anyhow::Error> {
         return Err(anyhow::anyhow!("Symlink image sources are not supported"));
     }
 
+    output.align_end(total_sectors).await?;
     Ok(())
 }
-- 
2.43.0


From e74deedce9a8d663ccab45c2acfdbe1454195519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:56 +0000
Subject: [PATCH 39/59] fix: extract-xiso create accepts a first job without an
 output name

---
 xdvdfs-cli/src/exiso_compat.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/xdvdfs-cli/src/exiso_compat.rs b/xdvdfs-cli/src/exiso_compat.rs
index 14db68a..fb9be63 100644
--- a/xdvdfs-cli/src/exiso_compat.rs
+++ b/xdvdfs-cli/src/exiso_compat.rs
@@ -20,6 +20,9 @@ pub enum EXMode {
     )]
     C {
         dir: String,
+
+        // May also be the `-c` of the next job
+        #[arg(allow_hyphen_values = true)]
         file: Option<String>,
 
         #[arg(allow_hyphen_values = true, trailing_var_arg = true)]
@@ -96,8 +99,13 @@ async fn exiso_create_single(dir: &String, file: &Option<String>) -> anyhow::Res
 
 #[maybe_async]
 async fn exiso_create(dir: &String, file: &Option<String>, rest: &[String]) -> anyhow::Result<()> {
+    let (file, rest) = match file {
+        Some(file) if file == "-c" => (None, [&[file.clone()], rest].concat()),
+        file => (file.clone(), rest.to_vec()),
+    };
+
     let mut tasks = Vec::new();
-    tasks.push((dir, file.clone()));
+    tasks.push((dir, file));
 
     let mut i = 0;
     while i < rest.len() {
-- 
2.43.0


From fb422d1b649e8f1122bd7d3ffba65866ae77b7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:18 +0000
Subject: [PATCH 40/59] fix: report failures of the desktop commands as such

Every failed operation returned None, which the front end shows as success.
---
 xdvdfs-desktop/src/compress.rs | 31 +++++++++++++-------
 xdvdfs-desktop/src/pack.rs     | 32 +++++++++++---------
 xdvdfs-desktop/src/unpack.rs   | 53 +++++++++++++++++++++++++---------
 3 files changed, 79 insertions(+), 37 deletions(-)

diff --git a/xdvdfs-desktop/src/compress.rs b/xdvdfs-desktop/src/compress.rs
index bcfdc58..e2e5dd3 100644
--- a/xdvdfs-desktop/src/compress.rs
+++ b/xdvdfs-desktop/src/compress.rs
@@ -39,12 +39,17 @@ impl ciso::split::SplitFilesystem<std::io::Error, BufFile> for SplitStdFs {
     async fn close(&mut self, _: BufFile) {}
 }
 
+/// Returns an error message, or None if the image was compressed successfully
 #[tauri::command]
 pub async fn compress_image(
     window: Window,
     source_path: String,
     dest_path: String,
 ) -> Option<String> {
+    compress(window, source_path, dest_path).await.err()
+}
+
+async fn compress(window: Window, source_path: String, dest_path: String) -> Result<(), String> {
     let source_path = PathBuf::from(source_path);
     let dest_path = PathBuf::from(dest_path);
 
@@ -80,7 +85,7 @@ pub async fn compress_image(
             .expect("should be able to send event")
     };
 
-    let meta = std::fs::metadata(&source_path).ok()?;
+    let meta = std::fs::metadata(&source_path).map_err(|e| e.to_string())?;
     if meta.is_dir() {
         let mut fs = write::fs::StdFilesystem::create(&source_path);
         let mut slbd = write::fs::SectorLinearBlockDevice::default();
@@ -89,34 +94,38 @@ pub async fn compress_image(
 
         write::img::create_xdvdfs_image(&mut slbfs, &mut slbd, progress_callback)
             .await
-            .ok()?;
+            .map_err(|e| e.to_string())?;
 
         let mut input = write::fs::CisoSectorInput::new(slbd, slbfs);
         ciso::write::write_ciso_image(&mut input, &mut output, progress_callback_compression)
             .await
-            .ok()?;
+            .map_err(|e| e.to_string())?;
     } else if meta.is_file() {
-        let source = std::fs::File::options().read(true).open(source_path).ok()?;
+        let source = std::fs::File::options()
+            .read(true)
+            .open(source_path)
+            .map_err(|e| e.to_string())?;
         let source = std::io::BufReader::new(source);
-        let source = xdvdfs::blockdev::OffsetWrapper::new(source).await.ok()?;
+        let source = xdvdfs::blockdev::OffsetWrapper::new(source)
+            .await
+            .map_err(|e| e.to_string())?;
         let mut fs = write::fs::XDVDFSFilesystem::new(source)
             .await
-            .ok_or("Failed to create XDVDFS filesystem".to_string())
-            .ok()?;
+            .ok_or("Failed to create XDVDFS filesystem".to_string())?;
         let mut slbd = write::fs::SectorLinearBlockDevice::default();
         let mut slbfs: BufFileSectorLinearFs = write::fs::SectorLinearBlockFilesystem::new(&mut fs);
 
         write::img::create_xdvdfs_image(&mut slbfs, &mut slbd, progress_callback)
             .await
-            .ok()?;
+            .map_err(|e| e.to_string())?;
 
         let mut input = write::fs::CisoSectorInput::new(slbd, slbfs);
         ciso::write::write_ciso_image(&mut input, &mut output, progress_callback_compression)
             .await
-            .ok()?;
+            .map_err(|e| e.to_string())?;
     } else {
-        return Some("Symlink image sources are not supported".to_string());
+        return Err("Symlink image sources are not supported".to_string());
     }
 
-    None
+    Ok(())
 }
diff --git a/xdvdfs-desktop/src/pack.rs b/xdvdfs-desktop/src/pack.rs
index 5ab8a01..f8e6a26 100644
--- a/xdvdfs-desktop/src/pack.rs
+++ b/xdvdfs-desktop/src/pack.rs
@@ -1,8 +1,13 @@
 use std::path::PathBuf;
 use tauri::Window;
 
+/// Returns an error message, or None if the image was packed successfully
 #[tauri::command]
 pub async fn pack_image(window: Window, source_path: String, dest_path: String) -> Option<String> {
+    pack(window, source_path, dest_path).await.err()
+}
+
+async fn pack(window: Window, source_path: String, dest_path: String) -> Result<(), String> {
     let source_path = PathBuf::from(source_path);
     let dest_path = PathBuf::from(dest_path);
 
@@ -11,8 +16,7 @@ pub async fn pack_image(window: Window, source_path: String, dest_path: String)
         .truncate(true)
         .create(true)
         .open(dest_path)
-        .map_err(|e| e.to_string())
-        .ok()?;
+        .map_err(|e| e.to_string())?;
     let mut image = std::io::BufWriter::with_capacity(1024 * 1024, image);
 
     let progress_callback = |pi| {
@@ -21,31 +25,33 @@ pub async fn pack_image(window: Window, source_path: String, dest_path: String)
             .expect("should be able to send event");
     };
 
-    let meta = std::fs::metadata(&source_path)
-        .map_err(|e| e.to_string())
-        .ok()?;
+    let meta = std::fs::metadata(&source_path).map_err(|e| e.to_string())?;
     if meta.is_dir() {
         let mut fs = xdvdfs::write::fs::StdFilesystem::create(&source_path);
         xdvdfs::write::img::create_xdvdfs_image(&mut fs, &mut image, progress_callback)
             .await
-            .ok()?;
+            .map_err(|e| e.to_string())?;
     } else if meta.is_file() {
-        let source = std::fs::File::options().read(true).open(source_path).ok()?;
+        let source = std::fs::File::options()
+            .read(true)
+            .open(source_path)
+            .map_err(|e| e.to_string())?;
         let source = std::io::BufReader::new(source);
-        let source = xdvdfs::blockdev::OffsetWrapper::new(source).await.ok()?;
+        let source = xdvdfs::blockdev::OffsetWrapper::new(source)
+            .await
+            .map_err(|e| e.to_string())?;
         let mut fs =
             xdvdfs::write::fs::XDVDFSFilesystem::<_, _, xdvdfs::write::fs::StdIOCopier<_, _>>::new(
                 source,
             )
             .await
-            .ok_or("Failed to create XDVDFS filesystem".to_string())
-            .ok()?;
+            .ok_or("Failed to create XDVDFS filesystem".to_string())?;
         xdvdfs::write::img::create_xdvdfs_image(&mut fs, &mut image, progress_callback)
             .await
-            .ok()?;
+            .map_err(|e| e.to_string())?;
     } else {
-        return Some("Symlink image sources are not supported".to_string());
+        return Err("Symlink image sources are not supported".to_string());
     }
 
-    None
+    Ok(())
 }
diff --git a/xdvdfs-desktop/src/unpack.rs b/xdvdfs-desktop/src/unpack.rs
index caee664..bd03257 100644
--- a/xdvdfs-desktop/src/unpack.rs
+++ b/xdvdfs-desktop/src/unpack.rs
@@ -4,21 +4,37 @@ use std::path::PathBuf;
 use tauri::Window;
 use xdvdfs::write::img::ProgressInfo;
 
+/// Returns an error message, or None if the image was unpacked successfully
 #[tauri::command]
 pub async fn unpack_image(
     window: Window,
     source_path: String,
     dest_path: String,
 ) -> Option<String> {
+    unpack(window, source_path, dest_path).await.err()
+}
+
+async fn unpack(window: Window, source_path: String, dest_path: String) -> Result<(), String> {
     let source_path = PathBuf::from(source_path);
     let dest_path = PathBuf::from(dest_path);
 
-    let img = std::fs::File::options().read(true).open(source_path).ok()?;
+    let img = std::fs::File::options()
+        .read(true)
+        .open(source_path)
+        .map_err(|e| e.to_string())?;
     let img = std::io::BufReader::new(img);
-    let mut img = xdvdfs::blockdev::OffsetWrapper::new(img).await.ok()?;
+    let mut img = xdvdfs::blockdev::OffsetWrapper::new(img)
+        .await
+        .map_err(|e| e.to_string())?;
 
-    let volume = xdvdfs::read::read_volume(&mut img).await.ok()?;
-    let tree = volume.root_table.file_tree(&mut img).await.ok()?;
+    let volume = xdvdfs::read::read_volume(&mut img)
+        .await
+        .map_err(|e| e.to_string())?;
+    let tree = volume
+        .root_table
+        .file_tree(&mut img)
+        .await
+        .map_err(|e| e.to_string())?;
 
     window
         .emit("progress_callback", ProgressInfo::FileCount(tree.len()))
@@ -27,7 +43,9 @@ pub async fn unpack_image(
     for (dir, dirent) in &tree {
         let dir = dir.trim_start_matches('/');
         let dirname = dest_path.join(dir);
-        let file_name = dirent.name_str::<std::io::Error>().ok()?;
+        let file_name = dirent
+            .name_str::<std::io::Error>()
+            .map_err(|e| e.to_string())?;
         let file_path = dirname.join(&*file_name);
 
         window
@@ -37,9 +55,9 @@ pub async fn unpack_image(
             )
             .expect("should be able to send event");
 
-        std::fs::create_dir_all(dirname).ok()?;
+        std::fs::create_dir_all(dirname).map_err(|e| e.to_string())?;
         if dirent.node.dirent.is_directory() {
-            std::fs::create_dir(file_path).ok()?;
+            std::fs::create_dir(file_path).map_err(|e| e.to_string())?;
             continue;
         }
 
@@ -52,27 +70,36 @@ pub async fn unpack_image(
             .truncate(true)
             .create(true)
             .open(file_path)
-            .ok()?;
+            .map_err(|e| e.to_string())?;
 
         if dirent.node.dirent.is_empty() {
             continue;
         }
 
-        dirent.node.dirent.seek_to(&mut img).ok()?;
+        dirent
+            .node
+            .dirent
+            .seek_to(&mut img)
+            .map_err(|e| e.to_string())?;
         let data = img.get_ref().get_ref().try_clone();
         match data {
             Ok(data) => {
                 let data = data.take(dirent.node.dirent.data.size as u64);
                 let mut data = std::io::BufReader::new(data);
-                std::io::copy(&mut data, &mut file).ok()?;
+                std::io::copy(&mut data, &mut file).map_err(|e| e.to_string())?;
             }
             Err(err) => {
                 eprintln!("Error in fast path, falling back to slow path: {:?}", err);
-                let data = dirent.node.dirent.read_data_all(&mut img).await.ok()?;
-                file.write_all(&data).ok()?;
+                let data = dirent
+                    .node
+                    .dirent
+                    .read_data_all(&mut img)
+                    .await
+                    .map_err(|e| e.to_string())?;
+                file.write_all(&data).map_err(|e| e.to_string())?;
             }
         }
     }
 
-    None
+    Ok(())
 }
-- 
2.43.0


From 4c6ca185219ee5cd1fd13d1ac5ea3080faf38f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:10 +0000
Subject: [PATCH 41/59] fix: write compressed images to the directory chosen in
 the desktop app

They were written to the working directory of the application, under the name
of the chosen directory.
---
 xdvdfs-desktop/src/compress.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/xdvdfs-desktop/src/compress.rs b/xdvdfs-desktop/src/compress.rs
index e2e5dd3..b012440 100644
--- a/xdvdfs-desktop/src/compress.rs
+++ b/xdvdfs-desktop/src/compress.rs
@@ -1,5 +1,5 @@
 use serde::{Deserialize, Serialize};
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 use tauri::Window;
 
 use maybe_async::maybe_async;
@@ -16,7 +16,9 @@ pub enum CisoProgressInfo {
     Finished,
 }
 
-struct SplitStdFs;
+struct SplitStdFs {
+    dir: PathBuf,
+}
 
 type BufFile = std::io::BufWriter<std::fs::File>;
 type BufFileSectorLinearFs<'a> = write::fs::SectorLinearBlockFilesystem<
@@ -31,7 +33,7 @@ type BufFileSectorLinearFs<'a> = write::fs::SectorLinearBlockFilesystem<
 #[maybe_async]
 impl ciso::split::SplitFilesystem<std::io::Error, BufFile> for SplitStdFs {
     async fn create_file(&mut self, name: &std::ffi::OsStr) -> Result<BufFile, std::io::Error> {
-        let file = std::fs::File::create(name)?;
+        let file = std::fs::File::create(self.dir.join(name))?;
         let bf: BufFile = std::io::BufWriter::new(file);
         Ok(bf)
     }
@@ -53,7 +55,18 @@ async fn compress(window: Window, source_path: String, dest_path: String) -> Res
     let source_path = PathBuf::from(source_path);
     let dest_path = PathBuf::from(dest_path);
 
-    let mut output = ciso::split::SplitOutput::new(SplitStdFs, dest_path);
+    // The front end asks for the directory to place the image in, name the
+    // image like its source, as the browser version does
+    let (dir, file_name) = if dest_path.is_dir() {
+        let name = source_path
+            .file_name()
+            .ok_or("Failed to get file name from source path")?;
+        (dest_path, PathBuf::from(name))
+    } else {
+        let dir = dest_path.parent().unwrap_or(Path::new("")).to_path_buf();
+        (dir, dest_path)
+    };
+    let mut output = ciso::split::SplitOutput::new(SplitStdFs { dir }, file_name);
 
     let progress_callback = |pi: ProgressInfo| {
         window
-- 
2.43.0


From 24075f6682032183b27785ed7e6abdc1f03c4084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:11 +0000
Subject: [PATCH 42/59] fix: report errors in the last write of an image in the
 desktop app

---
 xdvdfs-desktop/src/compress.rs | 16 +++++++++-------
 xdvdfs-desktop/src/pack.rs     |  3 +++
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/xdvdfs-desktop/src/compress.rs b/xdvdfs-desktop/src/compress.rs
index b012440..4ec29a5 100644
--- a/xdvdfs-desktop/src/compress.rs
+++ b/xdvdfs-desktop/src/compress.rs
@@ -20,7 +20,6 @@ struct SplitStdFs {
     dir: PathBuf,
 }
 
-type BufFile = std::io::BufWriter<std::fs::File>;
 type BufFileSectorLinearFs<'a> = write::fs::SectorLinearBlockFilesystem<
     'a,
     write::fs::XDVDFSFilesystem<
@@ -31,14 +30,17 @@ type BufFileSectorLinearFs<'a> = write::fs::SectorLinearBlockFilesystem<
 >;
 
 #[maybe_async]
-impl ciso::split::SplitFilesystem<std::io::Error, BufFile> for SplitStdFs {
-    async fn create_file(&mut self, name: &std::ffi::OsStr) -> Result<BufFile, std::io::Error> {
-        let file = std::fs::File::create(self.dir.join(name))?;
-        let bf: BufFile = std::io::BufWriter::new(file);
-        Ok(bf)
+impl ciso::split::SplitFilesystem<std::io::Error, std::fs::File> for SplitStdFs {
+    async fn create_file(
+        &mut self,
+        name: &std::ffi::OsStr,
+    ) -> Result<std::fs::File, std::io::Error> {
+        // Not buffered, since every write seeks, and a buffered
+        // writer would ignore errors in the last write when dropped
+        std::fs::File::create(self.dir.join(name))
     }
 
-    async fn close(&mut self, _: BufFile) {}
+    async fn close(&mut self, _: std::fs::File) {}
 }
 
 /// Returns an error message, or None if the image was compressed successfully
diff --git a/xdvdfs-desktop/src/pack.rs b/xdvdfs-desktop/src/pack.rs
index f8e6a26..6560fca 100644
--- a/xdvdfs-desktop/src/pack.rs
+++ b/xdvdfs-desktop/src/pack.rs
@@ -1,3 +1,4 @@
+use std::io::Write;
 use std::path::PathBuf;
 use tauri::Window;
 
@@ -53,5 +54,7 @@ async fn pack(window: Window, source_path: String, dest_path: String) -> Result<
         return Err("Symlink image sources are not supported".to_string());
     }
 
+    // Dropping the writer would ignore errors in its last write
+    image.flush().map_err(|e| e.to_string())?;
     Ok(())
 }
-- 
2.43.0


From 08c0691cb7917a3cf5384b8890dc820fd2ebb159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:12 +0000
Subject: [PATCH 43/59] fix: images compressed in the desktop app lost the last
 bytes of their last sector

---
 xdvdfs-desktop/src/compress.rs | 50 ++++++++++++++++++++++++++++++++--
 1 file changed, 47 insertions(+), 3 deletions(-)

diff --git a/xdvdfs-desktop/src/compress.rs b/xdvdfs-desktop/src/compress.rs
index 4ec29a5..58e9005 100644
--- a/xdvdfs-desktop/src/compress.rs
+++ b/xdvdfs-desktop/src/compress.rs
@@ -29,6 +29,40 @@ type BufFileSectorLinearFs<'a> = write::fs::SectorLinearBlockFilesystem<
     >,
 >;
 
+/// Output of the compressor, keeping track of where the written data ends
+struct TrackedOutput<W> {
+    inner: W,
+    end: u64,
+}
+
+#[maybe_async]
+impl<W: ciso::write::AsyncWriter> ciso::write::AsyncWriter for TrackedOutput<W> {
+    type WriteError = W::WriteError;
+
+    async fn atomic_write(&mut self, position: u64, data: &[u8]) -> Result<(), W::WriteError> {
+        self.inner.atomic_write(position, data).await?;
+        self.end = core::cmp::max(self.end, position + data.len() as u64);
+        Ok(())
+    }
+}
+
+impl<W: ciso::write::AsyncWriter> TrackedOutput<W> {
+    /// The index counts in units of four bytes, and its last entry, the end of the last
+    /// sector, is rounded down, which cuts off the last bytes of the data. Round it up instead
+    #[maybe_async]
+    async fn align_end(&mut self, index_table_len: usize) -> Result<(), W::WriteError> {
+        let end = self.end.next_multiple_of(4);
+        let padding = vec![0; (end - self.end) as usize];
+        self.inner.atomic_write(self.end, &padding).await?;
+
+        let last_entry = 24 + 4 * (index_table_len as u64 - 1);
+        let end = (end >> 2) as u32;
+        self.inner
+            .atomic_write(last_entry, &end.to_le_bytes())
+            .await
+    }
+}
+
 #[maybe_async]
 impl ciso::split::SplitFilesystem<std::io::Error, std::fs::File> for SplitStdFs {
     async fn create_file(
@@ -68,7 +102,10 @@ async fn compress(window: Window, source_path: String, dest_path: String) -> Res
         let dir = dest_path.parent().unwrap_or(Path::new("")).to_path_buf();
         (dir, dest_path)
     };
-    let mut output = ciso::split::SplitOutput::new(SplitStdFs { dir }, file_name);
+    let mut output = TrackedOutput {
+        inner: ciso::split::SplitOutput::new(SplitStdFs { dir }, file_name),
+        end: 0,
+    };
 
     let progress_callback = |pi: ProgressInfo| {
         window
@@ -76,13 +113,17 @@ async fn compress(window: Window, source_path: String, dest_path: String) -> Res
             .expect("should be able to send event");
     };
 
+    let mut total_sectors = 0;
     let mut sectors_done = 0;
     let progress_callback_compression = |pi| {
         window
             .emit(
                 "compress_callback",
                 match pi {
-                    ciso::write::ProgressInfo::SectorCount(sc) => CisoProgressInfo::SectorCount(sc),
+                    ciso::write::ProgressInfo::SectorCount(sc) => {
+                        total_sectors = sc;
+                        CisoProgressInfo::SectorCount(sc)
+                    }
                     ciso::write::ProgressInfo::SectorFinished => {
                         sectors_done += 1;
                         if sectors_done % 739 == 0 {
@@ -142,5 +183,8 @@ async fn compress(window: Window, source_path: String, dest_path: String) -> Res
         return Err("Symlink image sources are not supported".to_string());
     }
 
-    Ok(())
+    output
+        .align_end(total_sectors)
+        .await
+        .map_err(|e| e.to_string())
 }
-- 
2.43.0


From 104ab3ca51a4bb00417bc9749c7d0f39eb0d6fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:29 +0000
Subject: [PATCH 44/59] fix: refuse to extract entries outside of the
 destination directory in the desktop app

---
 xdvdfs-desktop/src/unpack.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/xdvdfs-desktop/src/unpack.rs b/xdvdfs-desktop/src/unpack.rs
index bd03257..7cac78e 100644
--- a/xdvdfs-desktop/src/unpack.rs
+++ b/xdvdfs-desktop/src/unpack.rs
@@ -1,9 +1,17 @@
 use std::io::Read;
 use std::io::Write;
-use std::path::PathBuf;
+use std::path::{Component, Path, PathBuf};
 use tauri::Window;
 use xdvdfs::write::img::ProgressInfo;
 
+/// Returns whether `name` is a single path component, which does
+/// not refer to a parent directory or outside of its directory
+fn is_plain_file_name(name: &str) -> bool {
+    let mut components = Path::new(name).components();
+    matches!(components.next(), Some(Component::Normal(c)) if c == name)
+        && components.next().is_none()
+}
+
 /// Returns an error message, or None if the image was unpacked successfully
 #[tauri::command]
 pub async fn unpack_image(
@@ -48,6 +56,12 @@ async fn unpack(window: Window, source_path: String, dest_path: String) -> Resul
             .map_err(|e| e.to_string())?;
         let file_path = dirname.join(&*file_name);
 
+        if !file_name.is_empty() && !is_plain_file_name(&file_name) {
+            return Err(format!(
+                "Refusing to extract entry with invalid file name {file_name:?}"
+            ));
+        }
+
         window
             .emit(
                 "progress_callback",
-- 
2.43.0


From 41024b806f28b89df1cc6c4ca179ee327a6e4e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:29 +0000
Subject: [PATCH 45/59] fix: report truncated file data when extracting in the
 desktop app

---
 xdvdfs-desktop/src/unpack.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/xdvdfs-desktop/src/unpack.rs b/xdvdfs-desktop/src/unpack.rs
index 7cac78e..1ae51dc 100644
--- a/xdvdfs-desktop/src/unpack.rs
+++ b/xdvdfs-desktop/src/unpack.rs
@@ -98,9 +98,12 @@ async fn unpack(window: Window, source_path: String, dest_path: String) -> Resul
         let data = img.get_ref().get_ref().try_clone();
         match data {
             Ok(data) => {
-                let data = data.take(dirent.node.dirent.data.size as u64);
+                let size = dirent.node.dirent.data.size as u64;
+                let data = data.take(size);
                 let mut data = std::io::BufReader::new(data);
-                std::io::copy(&mut data, &mut file).map_err(|e| e.to_string())?;
+                if std::io::copy(&mut data, &mut file).map_err(|e| e.to_string())? != size {
+                    return Err("Unexpected end of image".to_string());
+                }
             }
             Err(err) => {
                 eprintln!("Error in fast path, falling back to slow path: {:?}", err);
-- 
2.43.0


From f094ea096a6a8d521c8c88a367fbd1785a6b7d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:29 +0000
Subject: [PATCH 46/59] fix: create the destination directory when extracting
 empty images in the desktop app

---
 xdvdfs-desktop/src/unpack.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xdvdfs-desktop/src/unpack.rs b/xdvdfs-desktop/src/unpack.rs
index 1ae51dc..6a8b1a2 100644
--- a/xdvdfs-desktop/src/unpack.rs
+++ b/xdvdfs-desktop/src/unpack.rs
@@ -48,6 +48,7 @@ async fn unpack(window: Window, source_path: String, dest_path: String) -> Resul
         .emit("progress_callback", ProgressInfo::FileCount(tree.len()))
         .expect("should be able to send event");
 
+    std::fs::create_dir_all(&dest_path).map_err(|e| e.to_string())?;
     for (dir, dirent) in &tree {
         let dir = dir.trim_start_matches('/');
         let dirname = dest_path.join(dir);
-- 
2.43.0


From b6a0154f983ee3605c3cc594af8aee3f4843cacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:53 +0000
Subject: [PATCH 47/59] fix: do not overwrite the source when packing or
 compressing in the desktop app

---
 xdvdfs-desktop/src/compress.rs | 13 +++++++++++--
 xdvdfs-desktop/src/main.rs     |  1 +
 xdvdfs-desktop/src/pack.rs     |  3 +++
 xdvdfs-desktop/src/path.rs     | 31 +++++++++++++++++++++++++++++++
 4 files changed, 46 insertions(+), 2 deletions(-)
 create mode 100644 xdvdfs-desktop/src/path.rs

diff --git a/xdvdfs-desktop/src/compress.rs b/xdvdfs-desktop/src/compress.rs
index 58e9005..ddf1969 100644
--- a/xdvdfs-desktop/src/compress.rs
+++ b/xdvdfs-desktop/src/compress.rs
@@ -4,6 +4,7 @@ use tauri::Window;
 
 use maybe_async::maybe_async;
 
+use crate::path::check_output_path;
 use xdvdfs::{
     blockdev,
     write::{self, img::ProgressInfo},
@@ -18,6 +19,7 @@ pub enum CisoProgressInfo {
 
 struct SplitStdFs {
     dir: PathBuf,
+    source: PathBuf,
 }
 
 type BufFileSectorLinearFs<'a> = write::fs::SectorLinearBlockFilesystem<
@@ -69,9 +71,12 @@ impl ciso::split::SplitFilesystem<std::io::Error, std::fs::File> for SplitStdFs
         &mut self,
         name: &std::ffi::OsStr,
     ) -> Result<std::fs::File, std::io::Error> {
+        let path = self.dir.join(name);
+        check_output_path(&self.source, &path).map_err(std::io::Error::other)?;
+
         // Not buffered, since every write seeks, and a buffered
         // writer would ignore errors in the last write when dropped
-        std::fs::File::create(self.dir.join(name))
+        std::fs::File::create(path)
     }
 
     async fn close(&mut self, _: std::fs::File) {}
@@ -102,8 +107,12 @@ async fn compress(window: Window, source_path: String, dest_path: String) -> Res
         let dir = dest_path.parent().unwrap_or(Path::new("")).to_path_buf();
         (dir, dest_path)
     };
+    let split_fs = SplitStdFs {
+        dir,
+        source: source_path.clone(),
+    };
     let mut output = TrackedOutput {
-        inner: ciso::split::SplitOutput::new(SplitStdFs { dir }, file_name),
+        inner: ciso::split::SplitOutput::new(split_fs, file_name),
         end: 0,
     };
 
diff --git a/xdvdfs-desktop/src/main.rs b/xdvdfs-desktop/src/main.rs
index f70e8e6..a83ae31 100644
--- a/xdvdfs-desktop/src/main.rs
+++ b/xdvdfs-desktop/src/main.rs
@@ -3,6 +3,7 @@
 
 mod compress;
 mod pack;
+mod path;
 mod unpack;
 
 fn main() {
diff --git a/xdvdfs-desktop/src/pack.rs b/xdvdfs-desktop/src/pack.rs
index 6560fca..8d94768 100644
--- a/xdvdfs-desktop/src/pack.rs
+++ b/xdvdfs-desktop/src/pack.rs
@@ -2,6 +2,8 @@ use std::io::Write;
 use std::path::PathBuf;
 use tauri::Window;
 
+use crate::path::check_output_path;
+
 /// Returns an error message, or None if the image was packed successfully
 #[tauri::command]
 pub async fn pack_image(window: Window, source_path: String, dest_path: String) -> Option<String> {
@@ -12,6 +14,7 @@ async fn pack(window: Window, source_path: String, dest_path: String) -> Result<
     let source_path = PathBuf::from(source_path);
     let dest_path = PathBuf::from(dest_path);
 
+    check_output_path(&source_path, &dest_path)?;
     let image = std::fs::File::options()
         .write(true)
         .truncate(true)
diff --git a/xdvdfs-desktop/src/path.rs b/xdvdfs-desktop/src/path.rs
new file mode 100644
index 0000000..73e916e
--- /dev/null
+++ b/xdvdfs-desktop/src/path.rs
@@ -0,0 +1,31 @@
+use std::path::{Path, PathBuf};
+
+/// Resolves symlinks where possible. If the path does not exist,
+/// symlinks are resolved in its parent directory
+fn absolute_path(path: &Path) -> std::io::Result<PathBuf> {
+    if let Ok(path) = std::fs::canonicalize(path) {
+        return Ok(path);
+    }
+
+    let path = std::path::absolute(path)?;
+    match (path.parent().map(std::fs::canonicalize), path.file_name()) {
+        (Some(Ok(parent)), Some(name)) => Ok(parent.join(name)),
+        _ => Ok(path),
+    }
+}
+
+/// Returns an error if writing to `dest` would overwrite the source or a part of it
+pub fn check_output_path(source: &Path, dest: &Path) -> Result<(), String> {
+    let source = absolute_path(source).map_err(|e| e.to_string())?;
+    let dest = absolute_path(dest).map_err(|e| e.to_string())?;
+
+    if dest == source {
+        return Err("Source and destination paths are the same".to_string());
+    }
+
+    if dest.starts_with(source) {
+        return Err("Destination path is contained by source path".to_string());
+    }
+
+    Ok(())
+}
-- 
2.43.0


From 62a89f36a240a23392d5f0bcbbbbe8ea9c042dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:59 +0000
Subject: [PATCH 48/59] fix: report an unreadable destination instead of
 compressing to another directory in the desktop app

---
 xdvdfs-desktop/src/compress.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xdvdfs-desktop/src/compress.rs b/xdvdfs-desktop/src/compress.rs
index ddf1969..62f3359 100644
--- a/xdvdfs-desktop/src/compress.rs
+++ b/xdvdfs-desktop/src/compress.rs
@@ -98,7 +98,12 @@ async fn compress(window: Window, source_path: String, dest_path: String) -> Res
 
     // The front end asks for the directory to place the image in, name the
     // image like its source, as the browser version does
-    let (dir, file_name) = if dest_path.is_dir() {
+    let is_dir = match std::fs::metadata(&dest_path) {
+        Ok(meta) => meta.is_dir(),
+        Err(e) if e.kind() == std::io::ErrorKind::NotFound => false,
+        Err(e) => return Err(e.to_string()),
+    };
+    let (dir, file_name) = if is_dir {
         let name = source_path
             .file_name()
             .ok_or("Failed to get file name from source path")?;
-- 
2.43.0


From 0415ce842cdd2fd96ae590f3d5edd2adf6b2d898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:45 +0000
Subject: [PATCH 49/59] fix: positions of streams with a partition offset
 included the offset

---
 xdvdfs-core/src/blockdev.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/xdvdfs-core/src/blockdev.rs b/xdvdfs-core/src/blockdev.rs
index 3dbe80f..5433611 100644
--- a/xdvdfs-core/src/blockdev.rs
+++ b/xdvdfs-core/src/blockdev.rs
@@ -222,12 +222,23 @@ where
 {
     fn seek(&mut self, pos: std::io::SeekFrom) -> std::io::Result<u64> {
         use std::io::SeekFrom;
-        match pos {
+        let position = match pos {
             SeekFrom::Start(pos) => self
                 .inner
-                .seek(SeekFrom::Start(self.offset.saturating_add(pos))),
-            pos => self.inner.seek(pos),
-        }
+                .seek(SeekFrom::Start(self.offset.saturating_add(pos)))?,
+            pos => {
+                let previous = self.inner.stream_position()?;
+                let position = self.inner.seek(pos)?;
+                if position < self.offset {
+                    self.inner.seek(SeekFrom::Start(previous))?;
+                    return Err(std::io::ErrorKind::InvalidInput.into());
+                }
+                position
+            }
+        };
+
+        // Positions are relative to the start of the volume
+        Ok(position - self.offset)
     }
 }
 
-- 
2.43.0


From 783e8f030f63c53b8511e60d3cb3950c8c5ba9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:11 +0000
Subject: [PATCH 50/59] fix: images compressed in the browser lost the last
 bytes of their last sector

---
 xdvdfs-web/src/fs/ciso.rs     | 41 +++++++++++++++++++++++++++++++++++
 xdvdfs-web/src/ops/browser.rs |  8 +++++--
 2 files changed, 47 insertions(+), 2 deletions(-)

diff --git a/xdvdfs-web/src/fs/ciso.rs b/xdvdfs-web/src/fs/ciso.rs
index b42c8e9..9e2cc4e 100644
--- a/xdvdfs-web/src/fs/ciso.rs
+++ b/xdvdfs-web/src/fs/ciso.rs
@@ -34,6 +34,47 @@ impl SplitFilesystem<String, FSWriteWrapper> for CisoOutputDirectory {
     }
 }
 
+/// Output of the compressor, keeping track of where the written data ends
+pub struct TrackedOutput<W> {
+    inner: W,
+    end: u64,
+}
+
+#[async_trait]
+impl<W: AsyncWriter> AsyncWriter for TrackedOutput<W> {
+    type WriteError = W::WriteError;
+
+    async fn atomic_write(&mut self, position: u64, data: &[u8]) -> Result<(), W::WriteError> {
+        self.inner.atomic_write(position, data).await?;
+        self.end = core::cmp::max(self.end, position + data.len() as u64);
+        Ok(())
+    }
+}
+
+impl<W: AsyncWriter> TrackedOutput<W> {
+    pub fn new(inner: W) -> Self {
+        Self { inner, end: 0 }
+    }
+
+    /// The index counts in units of four bytes, and its last entry, the end of the last
+    /// sector, is rounded down, which cuts off the last bytes of the data. Round it up instead
+    pub async fn align_end(&mut self, index_table_len: usize) -> Result<(), W::WriteError> {
+        let end = self.end.next_multiple_of(4);
+        let padding = vec![0; (end - self.end) as usize];
+        self.inner.atomic_write(self.end, &padding).await?;
+
+        let last_entry = 24 + 4 * (index_table_len as u64 - 1);
+        let end = (end >> 2) as u32;
+        self.inner
+            .atomic_write(last_entry, &end.to_le_bytes())
+            .await
+    }
+
+    pub fn into_inner(self) -> W {
+        self.inner
+    }
+}
+
 #[async_trait]
 impl AsyncWriter for FSWriteWrapper {
     type WriteError = String;
diff --git a/xdvdfs-web/src/ops/browser.rs b/xdvdfs-web/src/ops/browser.rs
index 6ce0341..30d7829 100644
--- a/xdvdfs-web/src/ops/browser.rs
+++ b/xdvdfs-web/src/ops/browser.rs
@@ -65,11 +65,14 @@ async fn compress_image_impl<
     state_change_callback.emit(WorkflowState::Compressing);
 
     let output = crate::fs::ciso::CisoOutputDirectory::new(dest);
-    let mut output = ciso::split::SplitOutput::new(output, PathBuf::from(name));
+    let output = ciso::split::SplitOutput::new(output, PathBuf::from(name));
+    let mut output = crate::fs::ciso::TrackedOutput::new(output);
     let mut input = xdvdfs::write::fs::CisoSectorInput::new(slbd, slbfs);
+    let mut index_table_len = 0;
     ciso::write::write_ciso_image(&mut input, &mut output, |pi| {
         let pi = match pi {
             ciso::write::ProgressInfo::SectorCount(sc) => {
+                index_table_len = sc;
                 crate::compress::CisoProgressInfo::SectorCount(sc)
             }
             ciso::write::ProgressInfo::SectorFinished => {
@@ -82,10 +85,11 @@ async fn compress_image_impl<
     })
     .await
     .map_err(|e| e.to_string())?;
+    output.align_end(index_table_len).await?;
 
     state_change_callback.emit(WorkflowState::Packing(ImageCreationState::WaitingForFlush));
 
-    output.close().await;
+    output.into_inner().close().await;
 
     Ok(())
 }
-- 
2.43.0


From ea9aad90b8a09760442576e122935079e7a2a5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:14 +0000
Subject: [PATCH 51/59] fix: write and count empty files when unpacking in the
 browser

---
 xdvdfs-web/src/ops/browser.rs | 38 +++++++++++++++++------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/xdvdfs-web/src/ops/browser.rs b/xdvdfs-web/src/ops/browser.rs
index 30d7829..a1efa5b 100644
--- a/xdvdfs-web/src/ops/browser.rs
+++ b/xdvdfs-web/src/ops/browser.rs
@@ -155,27 +155,27 @@ impl XDVDFSOperations<WebFSBackend> for WebXDVDFSOps {
                     .create_file(file_name.clone())
                     .await
                     .map_err(|_| "failed to create file")?;
-                if node.node.dirent.data.size == 0 {
-                    continue;
+                let writeable_stream = file.writable_stream().await?;
+
+                if node.node.dirent.data.size != 0 {
+                    let offset = node.node.dirent.data.offset::<String>(0)? as f64;
+                    let size = node.node.dirent.data.size as f64;
+                    let data = src_file
+                        .slice_with_f64_and_f64_and_content_type(
+                            img_offset + offset,
+                            img_offset + offset + size,
+                            "application/octet-stream",
+                        )
+                        .map_err(|_| "Failed to slice")?;
+                    let data = wasm_bindgen_futures::JsFuture::from(data.array_buffer())
+                        .await
+                        .map_err(|_| "Failed to obtain array buffer")?;
+                    let data = js_sys::Uint8Array::new(&data);
+                    wasm_bindgen_futures::JsFuture::from(writeable_stream.write_u8_array(data))
+                        .await
+                        .map_err(|_| "Failed to write file")?;
                 }
 
-                let offset = node.node.dirent.data.offset::<String>(0)? as f64;
-                let size = node.node.dirent.data.size as f64;
-                let data = src_file
-                    .slice_with_f64_and_f64_and_content_type(
-                        img_offset + offset,
-                        img_offset + offset + size,
-                        "application/octet-stream",
-                    )
-                    .map_err(|_| "Failed to slice")?;
-                let data = wasm_bindgen_futures::JsFuture::from(data.array_buffer())
-                    .await
-                    .map_err(|_| "Failed to obtain array buffer")?;
-                let data = js_sys::Uint8Array::new(&data);
-                let writeable_stream = file.writable_stream().await?;
-                wasm_bindgen_futures::JsFuture::from(writeable_stream.write_u8_array(data))
-                    .await
-                    .map_err(|_| "Failed to write file")?;
                 wasm_bindgen_futures::JsFuture::from(writeable_stream.close())
                     .await
                     .map_err(|_| "Failed to flush file")?;
-- 
2.43.0


From c9b6b91f283b21b842a6a106565ac8aaaaaf5d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:49 +0000
Subject: [PATCH 52/59] fix: show failures to read folders or to open and close
 outputs in the browser instead of crashing

---
 xdvdfs-web/src/fs/ciso.rs     | 28 ++++++++++++++++++++++++----
 xdvdfs-web/src/fs/mod.rs      | 19 +++++++++++--------
 xdvdfs-web/src/ops/browser.rs | 14 ++++++--------
 3 files changed, 41 insertions(+), 20 deletions(-)

diff --git a/xdvdfs-web/src/fs/ciso.rs b/xdvdfs-web/src/fs/ciso.rs
index 9e2cc4e..9478fd2 100644
--- a/xdvdfs-web/src/fs/ciso.rs
+++ b/xdvdfs-web/src/fs/ciso.rs
@@ -1,4 +1,5 @@
 use std::ffi::OsStr;
+use std::sync::{Arc, Mutex};
 
 use async_trait::async_trait;
 use ciso::{split::SplitFilesystem, write::AsyncWriter};
@@ -8,11 +9,27 @@ use super::{FSWriteWrapper, FileSystemDirectoryHandle};
 
 pub struct CisoOutputDirectory {
     dir: FileSystemDirectoryHandle,
+    close_result: CloseResult,
+}
+
+/// Result of closing all parts of the image. `SplitOutput::close` does not return it
+#[derive(Clone)]
+pub struct CloseResult(Arc<Mutex<Result<(), String>>>);
+
+impl CloseResult {
+    pub fn get(&self) -> Result<(), String> {
+        self.0.lock().map_err(|e| e.to_string())?.clone()
+    }
 }
 
 impl CisoOutputDirectory {
     pub fn new(dir: FileSystemDirectoryHandle) -> Self {
-        Self { dir }
+        let close_result = CloseResult(Arc::new(Mutex::new(Ok(()))));
+        Self { dir, close_result }
+    }
+
+    pub fn close_result(&self) -> CloseResult {
+        self.close_result.clone()
     }
 }
 
@@ -25,12 +42,15 @@ impl SplitFilesystem<String, FSWriteWrapper> for CisoOutputDirectory {
             .create_file(name.to_owned())
             .await
             .map_err(|_| "Failed to create file")?;
-        let file = FSWriteWrapper::new(&file).await;
-        Ok(file)
+        FSWriteWrapper::new(&file).await
     }
 
     async fn close(&mut self, f: FSWriteWrapper) {
-        f.close().await;
+        if let Err(e) = f.close().await {
+            if let Ok(mut result) = self.close_result.0.lock() {
+                *result = Err(e);
+            }
+        }
     }
 }
 
diff --git a/xdvdfs-web/src/fs/mod.rs b/xdvdfs-web/src/fs/mod.rs
index da06c30..8dfd86f 100644
--- a/xdvdfs-web/src/fs/mod.rs
+++ b/xdvdfs-web/src/fs/mod.rs
@@ -21,13 +21,16 @@ unsafe impl Send for FSWriteWrapper {}
 unsafe impl Sync for FSWriteWrapper {}
 
 impl FSWriteWrapper {
-    pub async fn new(fh: &FileSystemFileHandle) -> Self {
-        let stream = fh.writable_stream().await.unwrap();
-        Self { stream, len: 0 }
+    pub async fn new(fh: &FileSystemFileHandle) -> Result<Self, String> {
+        let stream = fh.writable_stream().await?;
+        Ok(Self { stream, len: 0 })
     }
 
-    pub async fn close(self) {
-        UnsafeJSFuture::from(self.stream.close()).await.unwrap();
+    pub async fn close(self) -> Result<(), String> {
+        UnsafeJSFuture::from(self.stream.close())
+            .await
+            .map_err(|_| "Failed to close file")?;
+        Ok(())
     }
 }
 
@@ -259,14 +262,14 @@ impl xdvdfs::write::fs::FilesystemCopier<[u8]> for WebFileSystem {
 }
 
 impl WebFileSystem {
-    pub async fn new(root_handle: FileSystemDirectoryHandle) -> Self {
+    pub async fn new(root_handle: FileSystemDirectoryHandle) -> Result<Self, String> {
         let mut root = FSTree {
             subtree: BTreeMap::new(),
             handle: util::HandleType::Directory(root_handle),
         };
 
-        root.populate().await.unwrap();
-        Self(root)
+        root.populate().await?;
+        Ok(Self(root))
     }
 
     fn walk(&self, path: &PathVec) -> Option<&FSTree> {
diff --git a/xdvdfs-web/src/ops/browser.rs b/xdvdfs-web/src/ops/browser.rs
index a1efa5b..803d243 100644
--- a/xdvdfs-web/src/ops/browser.rs
+++ b/xdvdfs-web/src/ops/browser.rs
@@ -28,16 +28,14 @@ async fn pack_image_impl<T: Display, V: Display>(
     use crate::packing::{ImageCreationState, WorkflowState};
 
     state_change_callback.emit(WorkflowState::Packing(ImageCreationState::PackingImage));
-    let mut dest = fs::FSWriteWrapper::new(&dest).await;
+    let mut dest = fs::FSWriteWrapper::new(&dest).await?;
 
     xdvdfs::write::img::create_xdvdfs_image(fs, &mut dest, |pi| progress_callback.emit(pi))
         .await
         .map_err(|e| e.to_string())?;
 
     state_change_callback.emit(WorkflowState::Packing(ImageCreationState::WaitingForFlush));
-    dest.close().await;
-
-    Ok(())
+    dest.close().await
 }
 
 async fn compress_image_impl<
@@ -65,6 +63,7 @@ async fn compress_image_impl<
     state_change_callback.emit(WorkflowState::Compressing);
 
     let output = crate::fs::ciso::CisoOutputDirectory::new(dest);
+    let close_result = output.close_result();
     let output = ciso::split::SplitOutput::new(output, PathBuf::from(name));
     let mut output = crate::fs::ciso::TrackedOutput::new(output);
     let mut input = xdvdfs::write::fs::CisoSectorInput::new(slbd, slbfs);
@@ -90,8 +89,7 @@ async fn compress_image_impl<
     state_change_callback.emit(WorkflowState::Packing(ImageCreationState::WaitingForFlush));
 
     output.into_inner().close().await;
-
-    Ok(())
+    close_result.get()
 }
 
 #[async_trait(?Send)]
@@ -104,7 +102,7 @@ impl XDVDFSOperations<WebFSBackend> for WebXDVDFSOps {
     ) -> Result<(), String> {
         match src {
             PickerResult::DirectoryHandle(dh) => {
-                let mut fs = fs::WebFileSystem::new(dh).await;
+                let mut fs = fs::WebFileSystem::new(dh).await?;
                 pack_image_impl(&mut fs, dest, progress_callback, state_change_callback).await
             }
             PickerResult::FileHandle(fh) => {
@@ -200,7 +198,7 @@ impl XDVDFSOperations<WebFSBackend> for WebXDVDFSOps {
         match src {
             PickerResult::DirectoryHandle(dh) => {
                 let name = dh.name();
-                let mut fs = fs::WebFileSystem::new(dh).await;
+                let mut fs = fs::WebFileSystem::new(dh).await?;
                 compress_image_impl(
                     &mut fs,
                     name,
-- 
2.43.0


From 42ec68ba907dfc44365d4b59f40f4edafa3fd72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:52 +0000
Subject: [PATCH 53/59] fix: show an error for files that became shorter when
 packing in the browser instead of crashing

---
 xdvdfs-web/src/fs/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/xdvdfs-web/src/fs/mod.rs b/xdvdfs-web/src/fs/mod.rs
index 8dfd86f..96bf808 100644
--- a/xdvdfs-web/src/fs/mod.rs
+++ b/xdvdfs-web/src/fs/mod.rs
@@ -197,8 +197,13 @@ impl xdvdfs::write::fs::FilesystemCopier<FSWriteWrapper> for WebFileSystem {
                 )
                 .map_err(|_| "Failed to slice file handle")
             })
-            .map(|blob| (blob.size() as u64, dest.stream.write_blob(blob)))?;
-        assert_eq!(file_size, size);
+            .and_then(|blob| {
+                let file_size = blob.size() as u64;
+                if file_size != size {
+                    return Err("File is shorter than expected");
+                }
+                Ok((file_size, dest.stream.write_blob(blob)))
+            })?;
 
         UnsafeJSFuture::from(write_promise)
             .await
-- 
2.43.0


From aaad5c305cf3182d624806fc705063acbe3d9ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:52 +0000
Subject: [PATCH 54/59] fix: show an error for files that became shorter when
 compressing in the browser

---
 xdvdfs-web/src/fs/mod.rs | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/xdvdfs-web/src/fs/mod.rs b/xdvdfs-web/src/fs/mod.rs
index 96bf808..a40e518 100644
--- a/xdvdfs-web/src/fs/mod.rs
+++ b/xdvdfs-web/src/fs/mod.rs
@@ -227,18 +227,19 @@ impl xdvdfs::write::fs::FilesystemCopier<[u8]> for WebFileSystem {
         size: u64,
     ) -> Result<u64, String> {
         let src_node = self.walk(src).ok_or("Failed to find src")?;
-        let size = core::cmp::min(size, dest.len() as u64);
         let util::HandleType::File(ref src_fh) = src_node.handle else {
             return Err(String::from("Not a file"));
         };
 
+        let output_offset = output_offset as usize;
+        let size = core::cmp::min(size as usize, dest.len() - output_offset);
+        let dest = &mut dest[output_offset..(output_offset + size)];
+
         let slice = src_fh
             .to_file()
             .await
             .map_err(|_| "Failed to get file from handle")
             .and_then(|file| {
-                let file_size = file.size() as u64;
-                let size = core::cmp::min(file_size, size);
                 file.slice_with_f64_and_f64_and_content_type(
                     input_offset as f64,
                     input_offset as f64 + size as f64,
@@ -252,17 +253,12 @@ impl xdvdfs::write::fs::FilesystemCopier<[u8]> for WebFileSystem {
             .await
             .map_err(|_| "failed to obtain array buffer")?;
         let slice_buf = js_sys::Uint8Array::new(&slice_buf);
-
-        // Now that we have the slice, readjust expected copy size
-        let output_offset = output_offset as usize;
-        let size = core::cmp::min(dest.len() - output_offset, slice_buf.byte_length() as usize);
-        slice_buf.copy_to(&mut dest[output_offset..(output_offset + size)]);
-
-        if size != dest.len() - output_offset {
-            dest[(output_offset + size)..].fill(0);
+        if slice_buf.byte_length() as usize != size {
+            return Err(String::from("File is shorter than expected"));
         }
 
-        Ok(dest.len() as u64)
+        slice_buf.copy_to(dest);
+        Ok(size as u64)
     }
 }
 
-- 
2.43.0


From 443877f60092a689a21b4510cb418581f7d3d0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:25 +0000
Subject: [PATCH 55/59] fix: show an error for truncated images when unpacking
 in the browser

---
 xdvdfs-web/src/ops/browser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xdvdfs-web/src/ops/browser.rs b/xdvdfs-web/src/ops/browser.rs
index 803d243..4869c75 100644
--- a/xdvdfs-web/src/ops/browser.rs
+++ b/xdvdfs-web/src/ops/browser.rs
@@ -169,6 +169,9 @@ impl XDVDFSOperations<WebFSBackend> for WebXDVDFSOps {
                         .await
                         .map_err(|_| "Failed to obtain array buffer")?;
                     let data = js_sys::Uint8Array::new(&data);
+                    if data.byte_length() != node.node.dirent.data.size {
+                        return Err(String::from("Image is truncated"));
+                    }
                     wasm_bindgen_futures::JsFuture::from(writeable_stream.write_u8_array(data))
                         .await
                         .map_err(|_| "Failed to write file")?;
-- 
2.43.0


From e93e2bb1717e199c31a953d7f7354e6006d56af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:00 +0000
Subject: [PATCH 56/59] fix: stop on self-referencing directory tables when
 unpacking in the browser

---
 xdvdfs-web/src/ops/browser.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/xdvdfs-web/src/ops/browser.rs b/xdvdfs-web/src/ops/browser.rs
index 4869c75..1537dbd 100644
--- a/xdvdfs-web/src/ops/browser.rs
+++ b/xdvdfs-web/src/ops/browser.rs
@@ -1,4 +1,4 @@
-use std::{fmt::Display, path::PathBuf};
+use std::{collections::BTreeSet, fmt::Display, path::PathBuf};
 
 use async_trait::async_trait;
 use xdvdfs::{
@@ -126,6 +126,8 @@ impl XDVDFSOperations<WebFSBackend> for WebXDVDFSOps {
         let volume = xdvdfs::read::read_volume(&mut img).await?;
         let img_offset = img.get_offset() as f64;
 
+        // A table that is reached twice may contain itself, and would never end
+        let mut visited = BTreeSet::from([volume.root_table.region.sector]);
         let mut stack: Vec<(FileSystemDirectoryHandle, DirectoryEntryNode)> = Vec::new();
         for entry in volume.root_table.walk_dirent_tree(&mut img).await? {
             stack.push((dest.clone(), entry));
@@ -142,6 +144,10 @@ impl XDVDFSOperations<WebFSBackend> for WebXDVDFSOps {
                     .await
                     .map_err(|_| "failed to create directory")?;
                 let entries = dirtab.walk_dirent_tree(&mut img).await?;
+                let sector = dirtab.region.sector;
+                if !entries.is_empty() && !visited.insert(sector) {
+                    return Err(xdvdfs::util::Error::<String>::CyclicDirectory.to_string());
+                }
                 file_count += entries.len();
                 progress_callback.emit(ProgressInfo::FileCount(file_count));
 
-- 
2.43.0


From 5b85b7c042fb52239233dfc42f7f7ea0972f669d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:16 +0000
Subject: [PATCH 57/59] fix: keep the whole name of a directory when
 compressing it in the browser and desktop apps

---
 xdvdfs-desktop/src/compress.rs | 9 +++++++--
 xdvdfs-web/src/ops/browser.rs  | 3 ++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/xdvdfs-desktop/src/compress.rs b/xdvdfs-desktop/src/compress.rs
index 62f3359..64fb963 100644
--- a/xdvdfs-desktop/src/compress.rs
+++ b/xdvdfs-desktop/src/compress.rs
@@ -104,9 +104,14 @@ async fn compress(window: Window, source_path: String, dest_path: String) -> Res
         Err(e) => return Err(e.to_string()),
     };
     let (dir, file_name) = if is_dir {
-        let name = source_path
+        let mut name = source_path
             .file_name()
-            .ok_or("Failed to get file name from source path")?;
+            .ok_or("Failed to get file name from source path")?
+            .to_owned();
+        if source_path.is_dir() {
+            // Directories have no extension to be replaced
+            name.push(".cso");
+        }
         (dest_path, PathBuf::from(name))
     } else {
         let dir = dest_path.parent().unwrap_or(Path::new("")).to_path_buf();
diff --git a/xdvdfs-web/src/ops/browser.rs b/xdvdfs-web/src/ops/browser.rs
index 1537dbd..dc1b4eb 100644
--- a/xdvdfs-web/src/ops/browser.rs
+++ b/xdvdfs-web/src/ops/browser.rs
@@ -206,7 +206,8 @@ impl XDVDFSOperations<WebFSBackend> for WebXDVDFSOps {
     ) -> Result<(), String> {
         match src {
             PickerResult::DirectoryHandle(dh) => {
-                let name = dh.name();
+                // Directories have no extension to be replaced
+                let name = dh.name() + ".cso";
                 let mut fs = fs::WebFileSystem::new(dh).await?;
                 compress_image_impl(
                     &mut fs,
-- 
2.43.0


From 1ea64a338f0d43ff216f7b6365df24d17e686b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:40 +0000
Subject: [PATCH 58/59] fix: unpacking the same image a second time crashed the
 browser app

---
 xdvdfs-web/src/unpacking.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xdvdfs-web/src/unpacking.rs b/xdvdfs-web/src/unpacking.rs
index 9d6a4f9..b8cc85a 100644
--- a/xdvdfs-web/src/unpacking.rs
+++ b/xdvdfs-web/src/unpacking.rs
@@ -195,7 +195,7 @@ where
                 self.workflow_state = WorkflowState::Unpacking;
 
                 wasm_bindgen_futures::spawn_local(unpack_image::<FPB, XO>(
-                    self.input_handle.take().unwrap(),
+                    FPB::clone_file_handle(self.input_handle.as_ref().unwrap()),
                     dh,
                     ctx.link().callback(WorkflowMessage::UpdateProgress),
                     ctx.link().callback(WorkflowMessage::ChangeState),
-- 
2.43.0


From 4ecab4d06a8aef6a4e3229e9f1b9c69d8ef3ba6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:40 +0000
Subject: [PATCH 59/59] fix: do not start over while an image is being
 compressed in the browser

---
 xdvdfs-web/src/compress.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xdvdfs-web/src/compress.rs b/xdvdfs-web/src/compress.rs
index 4703f7d..09cb9c7 100644
--- a/xdvdfs-web/src/compress.rs
+++ b/xdvdfs-web/src/compress.rs
@@ -190,7 +190,8 @@ where
     type Properties = ();
 
     fn view(&self, ctx: &Context<Self>) -> Html {
-        let is_packing = self.workflow_state.is_packing_and(|_| true);
+        let is_packing = self.workflow_state.is_packing_and(|_| true)
+            || self.workflow_state == WorkflowState::Compressing;
         let progress = if self.packing_file_count != 0 {
             (100 * self.packing_file_progress) / self.packing_file_count
         } else {
-- 
2.43.0

