From 9a5e26f7678cdcaa37a648dd8e5ed10f27dd48db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:58 +0000
Subject: [PATCH 01/22] fix: report errors in the middle of a local directory
 listing

---
 src/backend/local.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/backend/local.rs b/src/backend/local.rs
index c4d1c1d..7beafc7 100644
--- a/src/backend/local.rs
+++ b/src/backend/local.rs
@@ -28,6 +28,7 @@ use std::ffi::OsString;
 use std::fs::{self, File};
 use std::io;
 use std::path::{Path, PathBuf};
+use std::vec;
 
 /// Backend for some directory in the local file system.
 #[derive(Debug)]
@@ -36,7 +37,7 @@ pub struct LocalBackend {
 }
 
 /// Iterator over a set of file names.
-pub struct FileNameIterator(fs::ReadDir);
+pub struct FileNameIterator(vec::IntoIter<OsString>);
 
 impl LocalBackend {
     /// Creates a new local backend for the given directory.
@@ -53,8 +54,12 @@ impl Backend for LocalBackend {
     type FileStream = File;
 
     fn file_names(&self) -> io::Result<Self::FileNameIter> {
-        let dir = fs::read_dir(self.base_path.as_path())?;
-        Ok(FileNameIterator(dir))
+        // read the whole directory in advance, because an error in the middle of the listing can't
+        // be reported by the iterator and must not be mistaken for its end
+        let names = fs::read_dir(self.base_path.as_path())?
+            .map(|entry| entry.map(|e| e.file_name()))
+            .collect::<io::Result<Vec<_>>>()?;
+        Ok(FileNameIterator(names.into_iter()))
     }
 
     fn open_file(&self, name: &Path) -> io::Result<File> {
@@ -68,12 +73,7 @@ impl Iterator for FileNameIterator {
     type Item = OsString;
 
     fn next(&mut self) -> Option<OsString> {
-        for entry in &mut self.0 {
-            if let Ok(entry) = entry {
-                return Some(entry.file_name());
-            }
-        }
-        None
+        self.0.next()
     }
 }
 
-- 
2.43.0


From d68f5a82df72bb444bb18044e59c837e7a8b495b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:19 +0000
Subject: [PATCH 02/22] fix: reject a manifest whose last line is cut off

---
 src/manifest.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/manifest.rs b/src/manifest.rs
index 48276eb..530caeb 100644
--- a/src/manifest.rs
+++ b/src/manifest.rs
@@ -311,6 +311,12 @@ impl<R: BufRead> ManifestParser<R> {
         let mut len = self.input.read_until(b'\n', &mut self.buf)?;
         if len > 0 && self.buf[len - 1] == b'\n' {
             len -= 1;
+        } else if len > 0 {
+            // duplicity terminates every line: this one has been cut off
+            return Err(io::Error::new(
+                io::ErrorKind::UnexpectedEof,
+                "line ends unexpectedly",
+            ));
         }
         if len > 0 && self.buf[len - 1] == b'\r' {
             len -= 1;
-- 
2.43.0


From 3a17497aece4c21fd670339d0eb88b45beb3adda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:22 +0000
Subject: [PATCH 03/22] fix: look up volumes of a path in the order used by
 duplicity

---
 src/manifest.rs | 59 +++++++++++++++++++++++--------------------------
 1 file changed, 28 insertions(+), 31 deletions(-)

diff --git a/src/manifest.rs b/src/manifest.rs
index 530caeb..90e591e 100644
--- a/src/manifest.rs
+++ b/src/manifest.rs
@@ -103,20 +103,15 @@ impl Manifest {
     /// * duplicity supports non-UTF8 paths;
     /// * under Windows `Path` is not allowed to contain non-UTF8 sequences.
     pub fn first_volume_of_path(&self, path: &[u8]) -> Option<usize> {
-        self.volumes
-            .binary_search_by(|v| match path.cmp(v.start_path_bytes()) {
-                Ordering::Less => Ordering::Greater,
-                Ordering::Greater => match path.cmp(v.end_path_bytes()) {
-                    Ordering::Less | Ordering::Equal => Ordering::Equal,
-                    Ordering::Greater => Ordering::Less,
-                },
-                Ordering::Equal => match v.start_path.block {
-                    Some(n) if n > 0 => Ordering::Greater,
-                    _ => Ordering::Equal,
-                },
-            })
-            .map(|idx| idx + 1)
-            .ok()
+        // volumes are sorted: the first one that does not end before the path is the only candidate
+        let idx = self
+            .volumes
+            .iter()
+            .position(|v| cmp_paths(v.end_path_bytes(), path) != Ordering::Less)?;
+        match cmp_paths(self.volumes[idx].start_path_bytes(), path) {
+            Ordering::Greater => None,
+            _ => Some(idx + 1),
+        }
     }
 
     /// Returns the index of the last volume containing the given path, if present.
@@ -126,23 +121,15 @@ impl Manifest {
     /// * duplicity supports non-UTF8 paths;
     /// * under Windows `Path` is not allowed to contain non-UTF8 sequences.
     pub fn last_volume_of_path(&self, path: &[u8]) -> Option<usize> {
-        self.volumes
-            .binary_search_by(|v| match path.cmp(v.end_path_bytes()) {
-                Ordering::Greater => Ordering::Less,
-                Ordering::Less => match path.cmp(v.start_path_bytes()) {
-                    Ordering::Greater | Ordering::Equal => Ordering::Equal,
-                    Ordering::Less => Ordering::Greater,
-                },
-                Ordering::Equal => {
-                    if v.end_path.block.is_some() {
-                        Ordering::Less
-                    } else {
-                        Ordering::Equal
-                    }
-                }
-            })
-            .map(|idx| idx + 1)
-            .ok()
+        // volumes are sorted: the last one that does not start after the path is the only candidate
+        let idx = self
+            .volumes
+            .iter()
+            .rposition(|v| cmp_paths(v.start_path_bytes(), path) != Ordering::Greater)?;
+        match cmp_paths(self.volumes[idx].end_path_bytes(), path) {
+            Ordering::Less => None,
+            _ => Some(idx + 1),
+        }
     }
 }
 
@@ -431,6 +418,16 @@ impl<'a> Iterator for WordIter<'a> {
     }
 }
 
+/// Compares two paths in the order in which duplicity stores them in the volumes: component by
+/// component. The root path comes before the others, and it is represented with a dot in manifests.
+fn cmp_paths(a: &[u8], b: &[u8]) -> Ordering {
+    fn components(path: &[u8]) -> impl Iterator<Item = &[u8]> {
+        let path = if path == b"." { b"" } else { path };
+        path.split(|b| *b == b'/')
+    }
+    components(a).cmp(components(b))
+}
+
 fn unescape(mut buf: &[u8]) -> Vec<u8> {
     let mut result = Vec::with_capacity(buf.len());
     buf = match (buf.first().cloned(), buf.last().cloned()) {
-- 
2.43.0


From d78aa414b10d09e694e5837d1333426e84f04589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:41 +0000
Subject: [PATCH 04/22] fix: do not panic when displaying a time with an
 unrepresentable year

---
 src/timefmt.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/timefmt.rs b/src/timefmt.rs
index 0074ad2..f64efc1 100644
--- a/src/timefmt.rs
+++ b/src/timefmt.rs
@@ -49,15 +49,24 @@ pub fn parse_time_str(s: &str) -> Option<Timespec> {
         .map(|tm| tm.to_timespec())
 }
 
+/// Moves the given time to the closest one whose year can be represented.
+fn displayable(time: Timespec) -> Timespec {
+    const MAX_SEC: i64 = 1 << 55;
+    Timespec {
+        sec: time.sec.max(-MAX_SEC).min(MAX_SEC),
+        ..time
+    }
+}
+
 impl TimeDisplay for Timespec {
     type D = PrettyDisplay;
 
     fn into_local_display(self) -> Self::D {
-        PrettyDisplay(time::at(self))
+        PrettyDisplay(time::at(displayable(self)))
     }
 
     fn into_utc_display(self) -> Self::D {
-        PrettyDisplay(time::at_utc(self))
+        PrettyDisplay(time::at_utc(displayable(self)))
     }
 }
 
-- 
2.43.0


From 674660418dde823f3162287244a95e952bcf3eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:05 +0000
Subject: [PATCH 05/22] fix: count the volumes present instead of the highest
 volume number

---
 src/collections/mod.rs | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/collections/mod.rs b/src/collections/mod.rs
index 2e8ad86..ea7fae3 100644
--- a/src/collections/mod.rs
+++ b/src/collections/mod.rs
@@ -5,6 +5,7 @@
 
 mod file_naming;
 
+use std::collections::BTreeMap;
 use std::fmt::{Display, Error, Formatter};
 use std::path::Path;
 use std::slice;
@@ -56,7 +57,8 @@ pub struct BackupSet {
     encrypted: bool,
     partial: bool,
     manifest_path: String,
-    volumes_paths: Vec<Option<String>>,
+    // the volumes present, by number
+    volumes_paths: BTreeMap<usize, String>,
 }
 
 /// Information about a signature file.
@@ -142,9 +144,7 @@ impl BackupSet {
 
     /// Returns the path of the given volume.
     pub fn volume_path(&self, volume_num: usize) -> Option<&str> {
-        self.volumes_paths
-            .get(volume_num)
-            .and_then(|v| v.as_ref().map(AsRef::as_ref))
+        self.volumes_paths.get(&volume_num).map(AsRef::as_ref)
     }
 
     /// Returns the number of volumes in the set.
@@ -238,7 +238,7 @@ impl BackupSet {
             compressed: fname.info.compressed,
             encrypted: fname.info.encrypted,
             manifest_path: String::new(),
-            volumes_paths: Vec::new(),
+            volumes_paths: BTreeMap::new(),
         };
         result.add_filename(fname);
         result
@@ -259,14 +259,7 @@ impl BackupSet {
             // update info
             match pr.tp {
                 fnm::Type::Full { volume_number, .. } | fnm::Type::Inc { volume_number, .. } => {
-                    // resize volumes if necessary
-                    if volume_number >= self.volumes_paths.len() {
-                        self.volumes_paths.reserve(volume_number + 1);
-                        for _ in self.volumes_paths.len()..volume_number + 1 {
-                            self.volumes_paths.push(None);
-                        }
-                    }
-                    self.volumes_paths[volume_number] = Some(fname.to_owned());
+                    self.volumes_paths.insert(volume_number, fname.to_owned());
                 }
                 fnm::Type::FullManifest { .. } | fnm::Type::IncManifest { .. } => {
                     self.manifest_path = fname.to_owned();
-- 
2.43.0


From 3162394c224018ab30fe7b3d4fd832d587cd4308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:25 +0000
Subject: [PATCH 06/22] fix: make backup sets independent of the order in which
 files are listed

---
 src/collections/file_naming.rs | 10 ++++++++
 src/collections/mod.rs         | 47 +++++++++++++++-------------------
 2 files changed, 31 insertions(+), 26 deletions(-)

diff --git a/src/collections/file_naming.rs b/src/collections/file_naming.rs
index 5d65aeb..922f64d 100644
--- a/src/collections/file_naming.rs
+++ b/src/collections/file_naming.rs
@@ -70,6 +70,16 @@ impl<'a> FileNameInfo<'a> {
 }
 
 impl Type {
+    pub fn is_partial(&self) -> bool {
+        match *self {
+            Type::FullManifest { partial, .. }
+            | Type::IncManifest { partial, .. }
+            | Type::FullSig { partial, .. }
+            | Type::NewSig { partial, .. } => partial,
+            Type::Full { .. } | Type::Inc { .. } => false,
+        }
+    }
+
     pub fn time_range(&self) -> (Timespec, Timespec) {
         match *self {
             Type::Full { time, .. }
diff --git a/src/collections/mod.rs b/src/collections/mod.rs
index ea7fae3..4d8562d 100644
--- a/src/collections/mod.rs
+++ b/src/collections/mod.rs
@@ -221,22 +221,12 @@ impl BackupSet {
                 end_time: end_time,
             },
         };
-        // set partial
-        let partial = {
-            match fname.info.tp {
-                fnm::Type::FullManifest { partial, .. }
-                | fnm::Type::IncManifest { partial, .. }
-                | fnm::Type::FullSig { partial, .. }
-                | fnm::Type::NewSig { partial, .. } => partial,
-                _ => false,
-            }
-        };
 
         let mut result = BackupSet {
             tp: tp,
-            partial: partial,
-            compressed: fname.info.compressed,
-            encrypted: fname.info.encrypted,
+            partial: false,
+            compressed: false,
+            encrypted: false,
             manifest_path: String::new(),
             volumes_paths: BTreeMap::new(),
         };
@@ -247,8 +237,9 @@ impl BackupSet {
     /// Adds a filename to given set. Return true if it fits.
     ///
     /// The filename will match the given set if it has the right
-    /// times and is of the right type. The information will be set
-    /// from the first filename given.
+    /// times and is of the right type. The information will be
+    /// collected from all the filenames given, which are expected in
+    /// alphabetical order: a finished manifest comes before a partial one.
     fn add_filename(&mut self, file_info: &FileNameInfo) -> bool {
         let pr = &file_info.info;
         let fname = file_info.file_name;
@@ -261,21 +252,21 @@ impl BackupSet {
                 fnm::Type::Full { volume_number, .. } | fnm::Type::Inc { volume_number, .. } => {
                     self.volumes_paths.insert(volume_number, fname.to_owned());
                 }
-                fnm::Type::FullManifest { .. } | fnm::Type::IncManifest { .. } => {
-                    self.manifest_path = fname.to_owned();
+                fnm::Type::FullManifest { partial, .. }
+                | fnm::Type::IncManifest { partial, .. } => {
+                    // a finished manifest takes the place of a partial one
+                    if !partial || self.manifest_path.is_empty() {
+                        self.manifest_path = fname.to_owned();
+                    }
                 }
                 _ => (),
             }
-            self.fix_encrypted(pr.encrypted);
+            self.compressed |= pr.compressed;
+            self.encrypted |= pr.encrypted;
+            self.partial |= pr.tp.is_partial();
             true
         }
     }
-
-    fn fix_encrypted(&mut self, pr_encrypted: bool) {
-        if self.encrypted != pr_encrypted && self.partial && pr_encrypted {
-            self.encrypted = pr_encrypted;
-        }
-    }
 }
 
 impl Display for BackupSet {
@@ -565,14 +556,18 @@ where
     E: AsRef<Path> + 'a,
 {
     let parser = FileNameParser::new();
-    filenames
+    let mut infos = filenames
         .into_iter()
         .filter_map(|path| path.as_ref().to_str())
         .filter_map(|name| match parser.parse(name) {
             Some(info) => Some(FileNameInfo::new(name, info)),
             None => None,
         })
-        .collect()
+        .collect::<Vec<_>>();
+    // the result must not depend on the order in which the names are listed
+    infos.sort_by(|a, b| a.file_name.cmp(b.file_name));
+    infos.dedup_by(|a, b| a.file_name == b.file_name);
+    infos
 }
 
 fn compute_backup_chains(fname_infos: &[FileNameInfo]) -> Vec<BackupChain> {
-- 
2.43.0


From d8807145362d611ef49cb690e49e1d10336980e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:27 +0000
Subject: [PATCH 07/22] fix: build signature chains with the same rules as
 backup chains

---
 src/collections/file_naming.rs |  4 ++++
 src/collections/mod.rs         | 32 ++++++++++++++++++++++++--------
 2 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/collections/file_naming.rs b/src/collections/file_naming.rs
index 922f64d..c9c22fa 100644
--- a/src/collections/file_naming.rs
+++ b/src/collections/file_naming.rs
@@ -67,6 +67,10 @@ impl<'a> FileNameInfo<'a> {
     pub fn start_time(&self) -> Timespec {
         self.info.tp.time_range().0
     }
+
+    pub fn end_time(&self) -> Timespec {
+        self.info.tp.time_range().1
+    }
 }
 
 impl Type {
diff --git a/src/collections/mod.rs b/src/collections/mod.rs
index 4d8562d..02c1910 100644
--- a/src/collections/mod.rs
+++ b/src/collections/mod.rs
@@ -435,13 +435,27 @@ impl SignatureChain {
 
     /// Adds the given incremental signature to the signature chain if possible,
     /// returns false otherwise.
+    ///
+    /// The rules are the same as the ones for [`BackupChain`](struct.BackupChain.html), so that
+    /// the two chains stay aligned.
     pub fn add_new_sig(&mut self, fname: &FileNameInfo) -> bool {
-        if matches!(fname.info.tp, fnm::Type::NewSig{ .. }) {
-            self.incsigs.push(SignatureFile::from_filename_info(fname));
-            true
-        } else {
-            false
+        if !matches!(fname.info.tp, fnm::Type::NewSig{ .. }) {
+            return false;
+        }
+        if self.end_time() != fname.start_time() {
+            // replace the last element if it has the same parent and the end time comes before
+            let parent_time = match self.incsigs.len() {
+                0 => return false,
+                1 => self.start_time(),
+                n => self.incsigs[n - 2].time,
+            };
+            if parent_time != fname.start_time() || fname.end_time() <= self.end_time() {
+                return false;
+            }
+            self.incsigs.pop();
         }
+        self.incsigs.push(SignatureFile::from_filename_info(fname));
+        true
     }
 
     /// The file name of the full signature chain.
@@ -624,20 +638,22 @@ fn compute_signature_chains(fname_infos: &[FileNameInfo]) -> Vec<SignatureChain>
         .map(SignatureChain::from_filename_info)
         .collect::<Vec<_>>();
     sig_chains.sort_by(|a, b| a.start_time().cmp(&b.start_time()));
-    // collect inc signatures and sort them by start time
+    // names are sorted: a finished signature comes before a partial one
+    sig_chains.dedup_by(|b, a| a.start_time() == b.start_time());
+    // collect inc signatures and sort them by end time, like the backup sets
     let inc_sigs = {
         let mut is = fname_infos
             .iter()
             .filter(|f| matches!(f.info.tp, fnm::Type::NewSig{..}))
             .collect::<Vec<_>>();
-        is.sort_by(|a, b| a.start_time().cmp(&b.start_time()));
+        is.sort_by(|a, b| a.end_time().cmp(&b.end_time()));
         is
     };
     // add inc signatures to chains
     for inc in inc_sigs {
         let mut added = false;
         for chain in &mut sig_chains {
-            if chain.end_time() == inc.start_time() && chain.add_new_sig(inc) {
+            if chain.add_new_sig(inc) {
                 added = true;
                 break;
             }
-- 
2.43.0


From d0bb7eee69da563d3542b60b6d12dffc61db756b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:47 +0000
Subject: [PATCH 08/22] fix: merge signatures in the same order in which paths
 are sorted

---
 src/signatures.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/signatures.rs b/src/signatures.rs
index 152c5ce..1b56be7 100644
--- a/src/signatures.rs
+++ b/src/signatures.rs
@@ -3,6 +3,7 @@
 //! This sub-module exposes types to deal with duplicity signatures. It can be used to get
 //! information about files backupped in a backup chain.
 
+use std::cmp::Ordering;
 use std::collections::HashMap;
 use std::fmt::{self, Display, Formatter};
 use std::io::{self, Read};
@@ -237,13 +238,13 @@ impl Chain {
                         let mut found = false;
                         if let Some(path_snapshots) = old_snapshots.peek() {
                             let old_path = path_snapshots.path.as_bytes();
-                            if old_path == path {
+                            match cmp_paths(old_path, path) {
                                 // this path is already present in old snapshots: update them
-                                found = true;
-                            } else if old_path > path {
+                                Ordering::Equal => found = true,
                                 // we've already reached the first item next to the current path
                                 // so, the path is not present in old snapshots
-                                break;
+                                Ordering::Greater => break,
+                                Ordering::Less => (),
                             }
                         }
                         if found {
@@ -274,7 +275,8 @@ impl Chain {
             // TODO: Performance hurt here: we have two sorted arrays to merge,
             // better to use this algorithm: http://stackoverflow.com/a/4553321/1667955
             self.files.extend(new_files.into_iter());
-            self.files.sort_by(|a, b| a.path.cmp(&b.path));
+            self.files
+                .sort_by(|a, b| cmp_paths(a.path.as_bytes(), b.path.as_bytes()));
         }
         Ok(())
     }
@@ -593,6 +595,12 @@ fn parse_snapshot_path(path: &[u8]) -> Option<(DiffType, &[u8])> {
     Some((difftype, real))
 }
 
+/// Compares two paths in the order in which they are stored in signature files, that is component
+/// by component.
+fn cmp_paths(a: &[u8], b: &[u8]) -> Ordering {
+    a.split(|b| *b == b'/').cmp(b.split(|b| *b == b'/'))
+}
+
 fn compute_size_hint<R: Read>(file: &mut tar::Entry<R>) -> Option<(usize, usize)> {
     let difftype = {
         let path = &file.path_bytes();
-- 
2.43.0


From 7c806f99b1eb4738e0bec57ebcfd98650b8a0e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:49 +0000
Subject: [PATCH 09/22] fix: support signature chains with more than 255
 snapshots

---
 src/signatures.rs | 34 +++++++++++-----------------------
 1 file changed, 11 insertions(+), 23 deletions(-)

diff --git a/src/signatures.rs b/src/signatures.rs
index 1b56be7..e1fe2eb 100644
--- a/src/signatures.rs
+++ b/src/signatures.rs
@@ -25,7 +25,7 @@ use crate::timefmt::TimeDisplay;
 /// The information is reused among different snapshots if possible.
 #[derive(Debug)]
 pub struct Chain {
-    num_snapshots: u8,
+    num_snapshots: usize,
     files: Vec<PathSnapshots>,
     ug_map: UserGroupMap,
 }
@@ -34,20 +34,20 @@ pub struct Chain {
 #[derive(Debug)]
 pub struct Snapshots<'a> {
     chain: &'a Chain,
-    snapshot_id: u8,
+    snapshot_id: usize,
 }
 
 /// A signature for a backup snapshot.
 #[derive(Debug)]
 pub struct Snapshot<'a> {
     chain: &'a Chain,
-    index: u8,
+    index: usize,
 }
 
 /// Files and directories inside a backup snapshot.
 #[derive(Clone)]
 pub struct SnapshotEntries<'a> {
-    index: u8,
+    index: usize,
     iter: slice::Iter<'a, PathSnapshots>,
     chain: &'a Chain,
 }
@@ -106,7 +106,7 @@ struct PathSnapshot {
     // info are None if the snapshot has deleted this path
     info: Option<PathInfo>,
     // the index of the snapshot in the chain
-    index: u8,
+    index: usize,
 }
 
 #[derive(Debug)]
@@ -188,7 +188,7 @@ impl Chain {
     fn add_sigtar_to_snapshots<R: Read>(
         &mut self,
         mut tar: tar::Archive<R>,
-        snapshot_id: u8,
+        snapshot_id: usize,
     ) -> io::Result<()> {
         let mut new_files: Vec<PathSnapshots> = Vec::new();
         {
@@ -299,28 +299,16 @@ impl<'a> Iterator for Snapshots<'a> {
     }
 
     fn nth(&mut self, n: usize) -> Option<Snapshot<'a>> {
-        use std::u8;
-
-        // check for u8 overflow to be fool-proof
-        if n + self.snapshot_id as usize >= u8::MAX as usize {
-            return None;
-        }
-        let id = self.snapshot_id + n as u8;
-        if id < self.chain.num_snapshots {
-            self.snapshot_id = id + 1;
-            Some(Snapshot {
-                chain: self.chain,
-                index: id,
-            })
-        } else {
-            None
-        }
+        // skipping past the end exhausts the iterator
+        let id = self.snapshot_id.saturating_add(n);
+        self.snapshot_id = id.min(self.chain.num_snapshots);
+        self.next()
     }
 }
 
 impl<'a> ExactSizeIterator for Snapshots<'a> {
     fn len(&self) -> usize {
-        (self.chain.num_snapshots - self.snapshot_id) as usize
+        self.chain.num_snapshots - self.snapshot_id
     }
 }
 
-- 
2.43.0


From 892c6b40ed4a77c5e30bd90c455ffda9432aee2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:14 +0000
Subject: [PATCH 10/22] fix: report errors met while reading signatures

---
 src/macros.rs     | 11 -----------
 src/signatures.rs | 49 +++++++++++++++++++++++++++--------------------
 2 files changed, 28 insertions(+), 32 deletions(-)

diff --git a/src/macros.rs b/src/macros.rs
index af1f6df..3307a72 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -1,16 +1,5 @@
 #![macro_use]
 
-/// Helper macro for unwrapping a result if possible, continuing the loop
-/// if the value is an error.
-macro_rules! unwrap_or_continue(
-    ($e:expr) => (
-        match $e {
-            Ok(v) => v,
-            _ => { continue; }
-        }
-    )
-);
-
 /// Helper macro for unwrapping an Option if possible, continuing the loop
 /// if the value is None.
 macro_rules! unwrap_opt_or_continue(
diff --git a/src/signatures.rs b/src/signatures.rs
index e1fe2eb..e3dd5be 100644
--- a/src/signatures.rs
+++ b/src/signatures.rs
@@ -194,11 +194,10 @@ impl Chain {
         {
             let mut old_snapshots = self.files.iter_mut().peekable();
             for tarfile in tar.entries()? {
-                // we can ignore paths with errors
-                // the only problem here is that we miss some change in the chain, but it is
-                // better than abort the whole signature
-                let mut tarfile = unwrap_or_continue!(tarfile);
-                let size_hint = compute_size_hint(&mut tarfile);
+                // we can't ignore paths with errors: the following ones would be lost, and we
+                // would miss some change in the chain
+                let mut tarfile = tarfile?;
+                let size_hint = compute_size_hint(&mut tarfile)?;
                 let path = &tarfile.path_bytes();
                 let (difftype, path) = unwrap_opt_or_continue!(parse_snapshot_path(&path));
                 let info = match difftype {
@@ -589,45 +588,53 @@ fn cmp_paths(a: &[u8], b: &[u8]) -> Ordering {
     a.split(|b| *b == b'/').cmp(b.split(|b| *b == b'/'))
 }
 
-fn compute_size_hint<R: Read>(file: &mut tar::Entry<R>) -> Option<(usize, usize)> {
+fn compute_size_hint<R: Read>(file: &mut tar::Entry<R>) -> io::Result<Option<(usize, usize)>> {
     let difftype = {
         let path = &file.path_bytes();
-        let (difftype, _) = parse_snapshot_path(&path)?;
-        difftype
+        parse_snapshot_path(&path).map(|(difftype, _)| difftype)
     };
     match difftype {
-        DiffType::Signature => compute_size_hint_signature(file),
-        DiffType::Snapshot => compute_size_hint_snapshot(file),
-        _ => None,
+        Some(DiffType::Signature) => compute_size_hint_signature(file),
+        Some(DiffType::Snapshot) => Ok(compute_size_hint_snapshot(file)),
+        _ => Ok(None),
     }
 }
 
 /// Gives a hint on the file size, computing it from the signature file.
 ///
-/// This function returns the lower and upper bound of the file size in bytes. On error returns
-/// `None`.
-fn compute_size_hint_signature<R: Read>(file: &mut tar::Entry<R>) -> Option<(usize, usize)> {
+/// This function returns the lower and upper bound of the file size in bytes, or `None` if the
+/// signature is not valid.
+///
+/// # Errors
+/// This function will return an error whenever the signature can't be read.
+fn compute_size_hint_signature<R: Read>(
+    file: &mut tar::Entry<R>,
+) -> io::Result<Option<(usize, usize)>> {
     use byteorder::{BigEndian, ReadBytesExt};
 
+    if file.size() < 12 {
+        // too short to contain the signature header
+        return Ok(None);
+    }
     // for signature file format see Docs.md
-    let magic = file.read_u32::<BigEndian>().ok()?;
+    let magic = file.read_u32::<BigEndian>()?;
     if magic != 0x72730136 {
-        None
+        Ok(None)
     } else {
         // read the header
-        let file_block_len_bytes = file.read_u32::<BigEndian>().ok()? as usize;
-        let ss_len = file.read_u32::<BigEndian>().ok()? as usize;
+        let file_block_len_bytes = file.read_u32::<BigEndian>()? as usize;
+        let ss_len = file.read_u32::<BigEndian>()? as usize;
         let sign_block_len_bytes = 4 + ss_len;
         // the remaining part of the file are blocks
-        let file_size = file.header().size().ok()? as usize;
+        let file_size = file.size() as usize;
         let num_blocks = (file_size - 8) / sign_block_len_bytes;
 
         let max_file_len = file_block_len_bytes * num_blocks;
         if max_file_len > file_block_len_bytes {
-            Some((max_file_len - file_block_len_bytes + 1, max_file_len))
+            Ok(Some((max_file_len - file_block_len_bytes + 1, max_file_len)))
         } else {
             // avoid underflow
-            Some((0, max_file_len))
+            Ok(Some((0, max_file_len)))
         }
     }
 }
-- 
2.43.0


From 6cc114e8e4133542ce8d9a674ddda9bc8a4b2de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:30 +0000
Subject: [PATCH 11/22] fix: do not overflow on invalid signature headers

---
 src/signatures.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/signatures.rs b/src/signatures.rs
index e3dd5be..a14082b 100644
--- a/src/signatures.rs
+++ b/src/signatures.rs
@@ -627,9 +627,12 @@ fn compute_size_hint_signature<R: Read>(
         let sign_block_len_bytes = 4 + ss_len;
         // the remaining part of the file are blocks
         let file_size = file.size() as usize;
-        let num_blocks = (file_size - 8) / sign_block_len_bytes;
+        let num_blocks = (file_size - 12) / sign_block_len_bytes;
 
-        let max_file_len = file_block_len_bytes * num_blocks;
+        let max_file_len = match file_block_len_bytes.checked_mul(num_blocks) {
+            Some(len) => len,
+            None => return Ok(None),
+        };
         if max_file_len > file_block_len_bytes {
             Ok(Some((max_file_len - file_block_len_bytes + 1, max_file_len)))
         } else {
-- 
2.43.0


From 4f6c314488e5e0e13ba7c8a5aff3e6dc83a4e23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:32 +0000
Subject: [PATCH 12/22] fix: return an error for encrypted signatures

---
 src/signatures.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/signatures.rs b/src/signatures.rs
index a14082b..5d98dbc 100644
--- a/src/signatures.rs
+++ b/src/signatures.rs
@@ -167,6 +167,12 @@ impl Chain {
     }
 
     fn add_sigfile<R: Read>(&mut self, file: R, sigfile: &SignatureFile) -> io::Result<()> {
+        if sigfile.encrypted {
+            return Err(io::Error::new(
+                io::ErrorKind::Other,
+                "Encrypted signatures are not supported",
+            ));
+        }
         let result = {
             let snapshot_id = self.num_snapshots;
             if sigfile.compressed {
-- 
2.43.0


From e6c2a70a787ae3958d256a792145d6e3c7ab374f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:34 +0000
Subject: [PATCH 13/22] fix: verify the checksum of compressed signatures

---
 src/signatures.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/signatures.rs b/src/signatures.rs
index 5d98dbc..c26ba03 100644
--- a/src/signatures.rs
+++ b/src/signatures.rs
@@ -275,6 +275,8 @@ impl Chain {
                 }
             }
         }
+        // read the file to the end: the checksum of the compressed data comes last
+        io::copy(&mut tar.into_inner(), &mut io::sink())?;
         // merge the new files with old snapshots
         if !new_files.is_empty() {
             // TODO: Performance hurt here: we have two sorted arrays to merge,
-- 
2.43.0


From 49db4569cfcadd1055dccf356b26325de2fd5b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:41 +0000
Subject: [PATCH 14/22] fix: allow to read a manifest again while it is in use

---
 src/lib.rs | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2a3eafc..cde051b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -371,18 +371,14 @@ impl<B: Backend> ResourceCache for Backup<B> {
         id: usize,
         path: &str,
     ) -> Result<Ref<Option<Manifest>>, manifest::ParseError> {
-        {
-            // check if there is a cached value
-            let mut sig = self.manifests[id].borrow_mut();
-            if sig.is_none() {
-                // compute manifest now
-                let mut file = io::BufReader::new(self.backend.open_file(Path::new(path))?);
-                *sig = Some(Manifest::parse(&mut file)?);
-            }
+        // check if there is a cached value: it must not be borrowed mutably in that case, because
+        // it could be still in use
+        if self.manifests[id].borrow().is_none() {
+            // compute manifest now
+            let mut file = io::BufReader::new(self.backend.open_file(Path::new(path))?);
+            let manifest = Manifest::parse(&mut file)?;
+            *self.manifests[id].borrow_mut() = Some(manifest);
         }
-
-        // need to close previous scope to borrow again
-        // return the cached value
         Ok(self.manifests[id].borrow())
     }
 }
-- 
2.43.0


From 9e0a93def7d91421ddcad78aa9b11e9b9865960b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:43 +0000
Subject: [PATCH 15/22] fix: match snapshots with their own signatures

---
 src/lib.rs | 83 +++++++++++++++++++++++++++++-------------------------
 1 file changed, 45 insertions(+), 38 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index cde051b..96e1272 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -88,7 +88,6 @@ pub struct Snapshots<'a> {
 pub struct SnapshotsIter<'a> {
     set_iter: CollectionsIter<'a>,
     chain_id: usize,
-    sig_id: usize,
     man_id: usize,
     backup: &'a dyn ResourceCache,
 }
@@ -98,7 +97,6 @@ pub struct Snapshot<'a> {
     set: &'a BackupSet,
     // the number of the parent backup chain, starting from zero
     chain_id: usize,
-    sig_id: usize,
     man_id: usize,
     backup: &'a dyn ResourceCache,
 }
@@ -124,7 +122,11 @@ struct CollectionsIter<'a> {
 /// components.
 trait ResourceCache {
     fn _collections(&self) -> &Collections;
-    fn _signature_chain(&self, chain_id: usize) -> io::Result<Ref<Option<Chain>>>;
+    fn _signature_chain(
+        &self,
+        chain_id: usize,
+        time: Timespec,
+    ) -> io::Result<(Ref<Option<Chain>>, usize)>;
     fn _manifest(
         &self,
         chain_id: usize,
@@ -154,7 +156,7 @@ impl<B: Backend> Backup<B> {
         let files = backend.file_names()?;
         let collections = Collections::from_filenames(files);
         let signatures = collections
-            .signature_chains()
+            .backup_chains()
             .map(|_| RefCell::new(None))
             .collect();
         let manifests = (0..collections.num_snapshots())
@@ -202,7 +204,6 @@ impl<'a> IntoIterator for Snapshots<'a> {
         SnapshotsIter {
             set_iter: set_iter,
             chain_id: 0,
-            sig_id: 0,
             man_id: 0,
             backup: self.backup,
         }
@@ -217,12 +218,10 @@ impl<'a> Iterator for SnapshotsIter<'a> {
         if let Some(ref mut incset_iter) = self.set_iter.incset_iter {
             // we have a set iter, so return the next element if present
             if let Some(inc_set) = incset_iter.next() {
-                self.sig_id += 1;
                 self.man_id += 1;
                 return Some(Snapshot {
                     set: inc_set,
                     chain_id: self.chain_id - 1,
-                    sig_id: self.sig_id,
                     man_id: self.man_id - 1,
                     backup: self.backup,
                 });
@@ -234,13 +233,11 @@ impl<'a> Iterator for SnapshotsIter<'a> {
         match self.set_iter.chain_iter.next() {
             Some(chain) => {
                 self.chain_id += 1;
-                self.sig_id = 0;
                 self.man_id += 1;
                 self.set_iter.incset_iter = Some(chain.inc_sets());
                 Some(Snapshot {
                     set: chain.full_set(),
                     chain_id: self.chain_id - 1,
-                    sig_id: self.sig_id,
                     man_id: self.man_id - 1,
                     backup: self.backup,
                 })
@@ -287,15 +284,11 @@ impl<'a> Snapshot<'a> {
     /// backup chain must be loaded, and this could take some time, depending on the file access
     /// provided by the backend and the signatures size.
     pub fn entries(&self) -> io::Result<SnapshotEntries> {
-        let sig = self.backup._signature_chain(self.chain_id)?;
-        if self.sig_id < sig.as_ref().unwrap().snapshots().len() {
-            Ok(SnapshotEntries {
-                chain: sig,
-                sig_id: self.sig_id,
-            })
-        } else {
-            Err(not_found("The signature chain is incomplete"))
-        }
+        let (chain, sig_id) = self.backup._signature_chain(self.chain_id, self.time())?;
+        Ok(SnapshotEntries {
+            chain: chain,
+            sig_id: sig_id,
+        })
     }
 
     /// Returns the manifest for this snapshot.
@@ -343,27 +336,41 @@ impl<B: Backend> ResourceCache for Backup<B> {
         &self.collections
     }
 
-    fn _signature_chain(&self, chain_id: usize) -> io::Result<Ref<Option<Chain>>> {
-        {
-            // check if there is a cached value
-            let mut sig = self.signatures[chain_id].borrow_mut();
-            if sig.is_none() {
-                // compute signatures now
-                if let Some(sigchain) = self.collections.signature_chains().nth(chain_id) {
-                    let new_sig = Chain::from_sigchain(sigchain, &self.backend)?;
-                    *sig = Some(new_sig);
-                } else {
-                    return Err(not_found(
-                        "The given backup snapshot does not have a \
-                                         corresponding signature",
-                    ));
-                }
-            }
-        }
+    fn _signature_chain(
+        &self,
+        chain_id: usize,
+        time: Timespec,
+    ) -> io::Result<(Ref<Option<Chain>>, usize)> {
+        // some signature files could be missing, so chains and snapshots are matched by time
+        let sigchain = self
+            .collections
+            .backup_chains()
+            .nth(chain_id)
+            .and_then(|chain| {
+                self.collections
+                    .signature_chains()
+                    .find(|s| s.start_time() == chain.start_time())
+            })
+            .ok_or_else(|| {
+                not_found(
+                    "The given backup snapshot does not have a \
+                     corresponding signature",
+                )
+            })?;
+        let sig_id = Some(sigchain.full_signature())
+            .into_iter()
+            .chain(sigchain.inc_signatures())
+            .position(|sig| sig.time == time)
+            .ok_or_else(|| not_found("The signature chain is incomplete"))?;
 
-        // need to close previous scope to borrow again
-        // return the cached value
-        Ok(self.signatures[chain_id].borrow())
+        // check if there is a cached value: it must not be borrowed mutably in that case, because
+        // it could be still in use
+        if self.signatures[chain_id].borrow().is_none() {
+            // compute signatures now
+            let new_sig = Chain::from_sigchain(sigchain, &self.backend)?;
+            *self.signatures[chain_id].borrow_mut() = Some(new_sig);
+        }
+        Ok((self.signatures[chain_id].borrow(), sig_id))
     }
 
     fn _manifest(
-- 
2.43.0


From 002d57ac9f122acd2f8ce414c99580d202711beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:46 +0000
Subject: [PATCH 16/22] fix: do not let a damaged signature hide the snapshots
 before it

---
 src/lib.rs        | 38 +++++++++++++++++----------------
 src/signatures.rs | 54 +++++++++++++++++++++++++++++++----------------
 2 files changed, 56 insertions(+), 36 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 96e1272..ac931cc 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -60,8 +60,10 @@ pub mod timefmt;
 use std::cell::{Ref, RefCell};
 use std::fmt::{self, Display, Formatter};
 use std::io;
+use std::marker::PhantomData;
 use std::ops::Deref;
 use std::path::Path;
+use std::sync::Arc;
 
 use time::Timespec;
 
@@ -75,7 +77,8 @@ use signatures::Chain;
 pub struct Backup<B> {
     backend: B,
     collections: Collections,
-    signatures: Vec<RefCell<Option<Chain>>>,
+    // the signatures loaded so far, for every backup chain
+    signatures: Vec<RefCell<Arc<Chain>>>,
     manifests: Vec<RefCell<Option<Manifest>>>,
 }
 
@@ -103,8 +106,9 @@ pub struct Snapshot<'a> {
 
 /// Contains the files present in a certain backup snapshot.
 pub struct SnapshotEntries<'a> {
-    chain: Ref<'a, Option<Chain>>,
+    chain: Arc<Chain>,
     sig_id: usize,
+    phantom: PhantomData<&'a Chain>,
 }
 
 /// Reference to a Manifest.
@@ -122,11 +126,8 @@ struct CollectionsIter<'a> {
 /// components.
 trait ResourceCache {
     fn _collections(&self) -> &Collections;
-    fn _signature_chain(
-        &self,
-        chain_id: usize,
-        time: Timespec,
-    ) -> io::Result<(Ref<Option<Chain>>, usize)>;
+    fn _signature_chain(&self, chain_id: usize, time: Timespec)
+        -> io::Result<(Arc<Chain>, usize)>;
     fn _manifest(
         &self,
         chain_id: usize,
@@ -157,7 +158,7 @@ impl<B: Backend> Backup<B> {
         let collections = Collections::from_filenames(files);
         let signatures = collections
             .backup_chains()
-            .map(|_| RefCell::new(None))
+            .map(|_| RefCell::new(Arc::new(Chain::new())))
             .collect();
         let manifests = (0..collections.num_snapshots())
             .map(|_| RefCell::new(None))
@@ -288,6 +289,7 @@ impl<'a> Snapshot<'a> {
         Ok(SnapshotEntries {
             chain: chain,
             sig_id: sig_id,
+            phantom: PhantomData,
         })
     }
 
@@ -308,8 +310,6 @@ impl<'a> SnapshotEntries<'a> {
     /// This function can be used to retrieve information about the files in the snapshot.
     pub fn as_signature(&self) -> signatures::SnapshotEntries {
         self.chain
-            .as_ref()
-            .unwrap()
             .snapshots()
             .nth(self.sig_id)
             .unwrap()
@@ -340,7 +340,7 @@ impl<B: Backend> ResourceCache for Backup<B> {
         &self,
         chain_id: usize,
         time: Timespec,
-    ) -> io::Result<(Ref<Option<Chain>>, usize)> {
+    ) -> io::Result<(Arc<Chain>, usize)> {
         // some signature files could be missing, so chains and snapshots are matched by time
         let sigchain = self
             .collections
@@ -363,14 +363,16 @@ impl<B: Backend> ResourceCache for Backup<B> {
             .position(|sig| sig.time == time)
             .ok_or_else(|| not_found("The signature chain is incomplete"))?;
 
-        // check if there is a cached value: it must not be borrowed mutably in that case, because
-        // it could be still in use
-        if self.signatures[chain_id].borrow().is_none() {
-            // compute signatures now
-            let new_sig = Chain::from_sigchain(sigchain, &self.backend)?;
-            *self.signatures[chain_id].borrow_mut() = Some(new_sig);
+        let mut chain = self.signatures[chain_id].borrow_mut();
+        if chain.snapshots().len() <= sig_id {
+            // load the missing signatures now, without touching the entries that are still in use
+            let result = Arc::make_mut(&mut chain).load(sigchain, &self.backend);
+            if chain.snapshots().len() <= sig_id {
+                // an error in the following signatures does not matter for this snapshot
+                result?;
+            }
         }
-        Ok((self.signatures[chain_id].borrow(), sig_id))
+        Ok((Arc::clone(&chain), sig_id))
     }
 
     fn _manifest(
diff --git a/src/signatures.rs b/src/signatures.rs
index c26ba03..4a0deb6 100644
--- a/src/signatures.rs
+++ b/src/signatures.rs
@@ -23,7 +23,7 @@ use crate::timefmt::TimeDisplay;
 /// Stores information about paths in a backup chain.
 ///
 /// The information is reused among different snapshots if possible.
-#[derive(Debug)]
+#[derive(Clone, Debug)]
 pub struct Chain {
     num_snapshots: usize,
     files: Vec<PathSnapshots>,
@@ -93,7 +93,7 @@ enum DiffType {
     Deleted,
 }
 
-#[derive(Debug)]
+#[derive(Clone, Debug)]
 struct PathSnapshots {
     // the directory or file path
     path: RawPath,
@@ -101,7 +101,7 @@ struct PathSnapshots {
     snapshots: Vec<PathSnapshot>,
 }
 
-#[derive(Debug)]
+#[derive(Clone, Debug)]
 struct PathSnapshot {
     // info are None if the snapshot has deleted this path
     info: Option<PathInfo>,
@@ -109,7 +109,7 @@ struct PathSnapshot {
     index: usize,
 }
 
-#[derive(Debug)]
+#[derive(Clone, Debug)]
 struct PathInfo {
     mtime: Timespec,
     uid: Option<u64>,
@@ -120,7 +120,7 @@ struct PathInfo {
     link: Option<RawPath>,
 }
 
-#[derive(Debug)]
+#[derive(Clone, Debug)]
 struct UserGroupMap {
     uid_map: HashMap<u64, String>,
     gid_map: HashMap<u64, String>,
@@ -145,19 +145,30 @@ impl Chain {
     /// corresponding `Chain` instance.
     pub fn from_sigchain<B: Backend>(coll: &SignatureChain, backend: &B) -> io::Result<Self> {
         let mut chain = Chain::new();
-        // add to the chain the full signature and all the incremental signatures
-        // if an error occurs in the full signature exit
-        let file = backend.open_file(coll.full_signature().file_name.as_ref())?;
-        chain.add_sigfile(file, coll.full_signature())?;
-        for inc in coll.inc_signatures() {
-            // TODO(#4): if an error occurs here, do not exit with an error, instead
-            // break the iteration and store the error inside the chain
-            let file = backend.open_file(inc.file_name.as_ref())?;
-            chain.add_sigfile(file, &inc)?;
-        }
+        chain.load(coll, backend)?;
         Ok(chain)
     }
 
+    /// Adds the signature chain files that are not already present in this chain.
+    ///
+    /// If an error occurs, the chain contains all the snapshots before the failing one, so they can
+    /// be used anyway. The remaining ones can be loaded by calling this function again.
+    pub(crate) fn load<B: Backend>(
+        &mut self,
+        coll: &SignatureChain,
+        backend: &B,
+    ) -> io::Result<()> {
+        // the full signature and all the incremental signatures
+        let sigfiles = Some(coll.full_signature())
+            .into_iter()
+            .chain(coll.inc_signatures());
+        for sigfile in sigfiles.skip(self.num_snapshots) {
+            let file = backend.open_file(sigfile.file_name.as_ref())?;
+            self.add_sigfile(file, sigfile)?;
+        }
+        Ok(())
+    }
+
     /// Returns the snapshots present in the signature chain.
     pub fn snapshots(&self) -> Snapshots {
         Snapshots {
@@ -173,8 +184,9 @@ impl Chain {
                 "Encrypted signatures are not supported",
             ));
         }
+        let snapshot_id = self.num_snapshots;
+        let ug_map = self.ug_map.clone();
         let result = {
-            let snapshot_id = self.num_snapshots;
             if sigfile.compressed {
                 let gz_decoder = GzDecoder::new(file);
                 self.add_sigtar_to_snapshots(tar::Archive::new(gz_decoder), snapshot_id)
@@ -184,9 +196,15 @@ impl Chain {
         };
         if result.is_ok() {
             // add to the list of snapshots only if everything is ok
-            // we do not need to cleanup the chain if someting went wrong, because if the
-            // number of signatures is not updated, the change is not observable
             self.num_snapshots += 1;
+        } else {
+            // if something went wrong cleanup the chain, because the same snapshot could be added
+            // again later
+            for file in &mut self.files {
+                file.snapshots.retain(|s| s.index != snapshot_id);
+            }
+            self.files.retain(|file| !file.snapshots.is_empty());
+            self.ug_map = ug_map;
         }
         result
     }
-- 
2.43.0


From 473e56fbe1a6fa930555eb1b1ba74f573d0cec71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:29 +0000
Subject: [PATCH 17/22] fix: show the time of day for the current year of the
 requested zone

---
 src/timefmt.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/timefmt.rs b/src/timefmt.rs
index f64efc1..c0c8065 100644
--- a/src/timefmt.rs
+++ b/src/timefmt.rs
@@ -37,7 +37,11 @@ pub trait TimeDisplay {
 /// Suppose to have the timestamp `2012-02-22T14:53:18Z`. If we are in 2012, the display will be
 /// `Feb 22 14:53`; if we are in 2015, the display will be `Feb 22  2012`.
 #[derive(Copy, Clone, Debug)]
-pub struct PrettyDisplay(Tm);
+pub struct PrettyDisplay {
+    tm: Tm,
+    // the current time, in the same time zone
+    now: fn() -> Tm,
+}
 
 /// Parse a string representing a duplicity timestamp and returns a `Timespec` if all goes well.
 ///
@@ -62,23 +66,29 @@ impl TimeDisplay for Timespec {
     type D = PrettyDisplay;
 
     fn into_local_display(self) -> Self::D {
-        PrettyDisplay(time::at(displayable(self)))
+        PrettyDisplay {
+            tm: time::at(displayable(self)),
+            now: time::now,
+        }
     }
 
     fn into_utc_display(self) -> Self::D {
-        PrettyDisplay(time::at_utc(displayable(self)))
+        PrettyDisplay {
+            tm: time::at_utc(displayable(self)),
+            now: time::now_utc,
+        }
     }
 }
 
 impl Display for PrettyDisplay {
     fn fmt(&self, f: &mut Formatter) -> Result {
-        if time::now_utc().tm_year == self.0.tm_year {
+        if (self.now)().tm_year == self.tm.tm_year {
             // the year is the current, so print month, day, hour
-            write!(f, "{}", time::strftime("%b %d %R", &self.0).unwrap())
+            write!(f, "{}", time::strftime("%b %d %R", &self.tm).unwrap())
         } else {
             // the year is not the current, so print month, day, year
             // NOTE: the double space before year is meaningful
-            write!(f, "{}", time::strftime("%b %d  %Y", &self.0).unwrap())
+            write!(f, "{}", time::strftime("%b %d  %Y", &self.tm).unwrap())
         }
     }
 }
-- 
2.43.0


From eb2673c683315d85d9353e997627e50dfece0364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:16 +0000
Subject: [PATCH 18/22] fix: prefer finished files to partial ones whatever
 their extension

---
 src/collections/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/collections/mod.rs b/src/collections/mod.rs
index 02c1910..bb3d7f9 100644
--- a/src/collections/mod.rs
+++ b/src/collections/mod.rs
@@ -239,7 +239,7 @@ impl BackupSet {
     /// The filename will match the given set if it has the right
     /// times and is of the right type. The information will be
     /// collected from all the filenames given, which are expected in
-    /// alphabetical order: a finished manifest comes before a partial one.
+    /// the order given by `compute_filename_infos`: a finished manifest comes before a partial one.
     fn add_filename(&mut self, file_info: &FileNameInfo) -> bool {
         let pr = &file_info.info;
         let fname = file_info.file_name;
@@ -578,8 +578,9 @@ where
             None => None,
         })
         .collect::<Vec<_>>();
-    // the result must not depend on the order in which the names are listed
-    infos.sort_by(|a, b| a.file_name.cmp(b.file_name));
+    // the result must not depend on the order in which the names are listed: finished files come
+    // before the partial ones
+    infos.sort_by_key(|f| (f.info.tp.is_partial(), f.file_name));
     infos.dedup_by(|a, b| a.file_name == b.file_name);
     infos
 }
@@ -638,7 +639,7 @@ fn compute_signature_chains(fname_infos: &[FileNameInfo]) -> Vec<SignatureChain>
         .map(SignatureChain::from_filename_info)
         .collect::<Vec<_>>();
     sig_chains.sort_by(|a, b| a.start_time().cmp(&b.start_time()));
-    // names are sorted: a finished signature comes before a partial one
+    // a finished signature comes before a partial one
     sig_chains.dedup_by(|b, a| a.start_time() == b.start_time());
     // collect inc signatures and sort them by end time, like the backup sets
     let inc_sigs = {
-- 
2.43.0


From 6dd4c2aa4e6f4aed1a4a355e1599386809a79871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:14 +0000
Subject: [PATCH 19/22] fix: give the exact size hint of the snapshot iterator
 of a signature chain

---
 src/signatures.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/signatures.rs b/src/signatures.rs
index 4a0deb6..1c5ad9d 100644
--- a/src/signatures.rs
+++ b/src/signatures.rs
@@ -329,6 +329,12 @@ impl<'a> Iterator for Snapshots<'a> {
         self.snapshot_id = id.min(self.chain.num_snapshots);
         self.next()
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        // must be exact, as required by `ExactSizeIterator`
+        let left = self.chain.num_snapshots - self.snapshot_id;
+        (left, Some(left))
+    }
 }
 
 impl<'a> ExactSizeIterator for Snapshots<'a> {
-- 
2.43.0


From b89e2292df0daaaa980c1fb4e823a729cc13e815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:19 +0000
Subject: [PATCH 20/22] fix: read times and owner names that are stored in PAX
 records of a signature

Python writes names that are not ASCII or longer than the header's field, and times that do not
fit, to PAX records, and puts a placeholder in the header.
---
 src/signatures.rs | 43 ++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 40 insertions(+), 3 deletions(-)

diff --git a/src/signatures.rs b/src/signatures.rs
index 1c5ad9d..46c713f 100644
--- a/src/signatures.rs
+++ b/src/signatures.rs
@@ -120,6 +120,14 @@ struct PathInfo {
     link: Option<RawPath>,
 }
 
+/// Header fields that are stored in PAX extensions, because the header has no room for them.
+#[derive(Default)]
+struct PaxFields {
+    mtime: Option<i64>,
+    user: Option<String>,
+    group: Option<String>,
+}
+
 #[derive(Clone, Debug)]
 struct UserGroupMap {
     uid_map: HashMap<u64, String>,
@@ -222,16 +230,20 @@ impl Chain {
                 // would miss some change in the chain
                 let mut tarfile = tarfile?;
                 let size_hint = compute_size_hint(&mut tarfile)?;
+                let pax = PaxFields::read(&mut tarfile)?;
                 let path = &tarfile.path_bytes();
                 let (difftype, path) = unwrap_opt_or_continue!(parse_snapshot_path(&path));
                 let info = match difftype {
                     DiffType::Signature | DiffType::Snapshot => {
                         let header = tarfile.header();
-                        let time = Timespec::new(header.mtime().unwrap_or(0) as i64, 0);
-                        if let (Ok(uid), Ok(Some(name))) = (header.uid(), header.username()) {
+                        let mtime = pax.mtime.unwrap_or(header.mtime().unwrap_or(0) as i64);
+                        let time = Timespec::new(mtime, 0);
+                        let user = pax.user.as_deref().or(header.username().unwrap_or(None));
+                        if let (Ok(uid), Some(name)) = (header.uid(), user) {
                             self.ug_map.add_user(uid, name.to_owned());
                         }
-                        if let (Ok(gid), Ok(Some(name))) = (header.gid(), header.groupname()) {
+                        let group = pax.group.as_deref().or(header.groupname().unwrap_or(None));
+                        if let (Ok(gid), Some(name)) = (header.gid(), group) {
                             self.ug_map.add_group(gid, name.to_owned());
                         }
                         let link = tarfile
@@ -531,6 +543,31 @@ impl Display for EntryType {
     }
 }
 
+impl PaxFields {
+    fn read<R: Read>(tarfile: &mut tar::Entry<R>) -> io::Result<Self> {
+        let mut result = PaxFields::default();
+        if tarfile.header().entry_type().is_pax_global_extensions() {
+            // not about a file
+            return Ok(result);
+        }
+        if let Some(extensions) = tarfile.pax_extensions()? {
+            // ignore what is not readable
+            for ext in extensions.filter_map(|e| e.ok()) {
+                match (ext.key(), ext.value()) {
+                    // the time could have a fractional part
+                    (Ok("mtime"), Ok(val)) => {
+                        result.mtime = val.split('.').next().and_then(|t| t.parse().ok());
+                    }
+                    (Ok("uname"), Ok(val)) => result.user = Some(val.to_owned()),
+                    (Ok("gname"), Ok(val)) => result.group = Some(val.to_owned()),
+                    _ => (),
+                }
+            }
+        }
+        Ok(result)
+    }
+}
+
 impl UserGroupMap {
     pub fn new() -> Self {
         UserGroupMap {
-- 
2.43.0


From 2f4732c04c5274d78ad75a552bfbf60a367d1d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:22 +0000
Subject: [PATCH 21/22] fix: accept only timestamps in duplicity's format

Shorter numbers, other time zones and anything after the time were silently accepted, so that files
of other programs were taken for backup files.
---
 src/timefmt.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/timefmt.rs b/src/timefmt.rs
index c0c8065..dd2aaa2 100644
--- a/src/timefmt.rs
+++ b/src/timefmt.rs
@@ -48,6 +48,16 @@ pub struct PrettyDisplay {
 /// An example of such a timestamp is "19881211t152000z" which represents the date
 /// `1988-12-11T15:20:00Z` in the UTC time zone.
 pub fn parse_time_str(s: &str) -> Option<Timespec> {
+    // `strptime` accepts shorter numbers too, and ignores the time zone and everything after it
+    let well_formed = s.len() == 16
+        && s.bytes().enumerate().all(|(i, b)| match i {
+            8 => b == b't',
+            15 => b == b'z',
+            _ => b.is_ascii_digit(),
+        });
+    if !well_formed {
+        return None;
+    }
     time::strptime(s, "%Y%m%dt%H%M%S%Z")
         .ok()
         .map(|tm| tm.to_timespec())
-- 
2.43.0


From 24337a3a070910ed3114db450406048803a0d48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:27 +0000
Subject: [PATCH 22/22] fix: report a missing manifest as not found

---
 src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index ac931cc..76b3a32 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -383,6 +383,10 @@ impl<B: Backend> ResourceCache for Backup<B> {
         // check if there is a cached value: it must not be borrowed mutably in that case, because
         // it could be still in use
         if self.manifests[id].borrow().is_none() {
+            // the backend can't be asked for a file without a name
+            if path.is_empty() {
+                return Err(not_found("The given backup snapshot does not have a manifest").into());
+            }
             // compute manifest now
             let mut file = io::BufReader::new(self.backend.open_file(Path::new(path))?);
             let manifest = Manifest::parse(&mut file)?;
-- 
2.43.0

