From a992348390aec9e5fb92cc0f5e4f8c327ee68570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:28 +0000
Subject: [PATCH 01/20] fix: count snapshots of a signature chain without
 overflow

The snapshot counters were u8: chains with 256 or more signature files
overflowed (panicking, or silently wrapping in release builds), and nth()
could never reach snapshots from number 255 on.
---
 src/signatures.rs | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/signatures.rs b/src/signatures.rs
index 152c5ce..fe27a21 100644
--- a/src/signatures.rs
+++ b/src/signatures.rs
@@ -24,7 +24,7 @@ use crate::timefmt::TimeDisplay;
 /// The information is reused among different snapshots if possible.
 #[derive(Debug)]
 pub struct Chain {
-    num_snapshots: u8,
+    num_snapshots: usize,
     files: Vec<PathSnapshots>,
     ug_map: UserGroupMap,
 }
@@ -33,20 +33,20 @@ pub struct Chain {
 #[derive(Debug)]
 pub struct Snapshots<'a> {
     chain: &'a Chain,
-    snapshot_id: u8,
+    snapshot_id: usize,
 }
 
 /// A signature for a backup snapshot.
 #[derive(Debug)]
 pub struct Snapshot<'a> {
     chain: &'a Chain,
-    index: u8,
+    index: usize,
 }
 
 /// Files and directories inside a backup snapshot.
 #[derive(Clone)]
 pub struct SnapshotEntries<'a> {
-    index: u8,
+    index: usize,
     iter: slice::Iter<'a, PathSnapshots>,
     chain: &'a Chain,
 }
@@ -105,7 +105,7 @@ struct PathSnapshot {
     // info are None if the snapshot has deleted this path
     info: Option<PathInfo>,
     // the index of the snapshot in the chain
-    index: u8,
+    index: usize,
 }
 
 #[derive(Debug)]
@@ -187,7 +187,7 @@ impl Chain {
     fn add_sigtar_to_snapshots<R: Read>(
         &mut self,
         mut tar: tar::Archive<R>,
-        snapshot_id: u8,
+        snapshot_id: usize,
     ) -> io::Result<()> {
         let mut new_files: Vec<PathSnapshots> = Vec::new();
         {
@@ -297,13 +297,7 @@ impl<'a> Iterator for Snapshots<'a> {
     }
 
     fn nth(&mut self, n: usize) -> Option<Snapshot<'a>> {
-        use std::u8;
-
-        // check for u8 overflow to be fool-proof
-        if n + self.snapshot_id as usize >= u8::MAX as usize {
-            return None;
-        }
-        let id = self.snapshot_id + n as u8;
+        let id = self.snapshot_id.saturating_add(n);
         if id < self.chain.num_snapshots {
             self.snapshot_id = id + 1;
             Some(Snapshot {
@@ -318,7 +312,7 @@ impl<'a> Iterator for Snapshots<'a> {
 
 impl<'a> ExactSizeIterator for Snapshots<'a> {
     fn len(&self) -> usize {
-        (self.chain.num_snapshots - self.snapshot_id) as usize
+        self.chain.num_snapshots - self.snapshot_id
     }
 }
 
-- 
2.43.0


From cdbe88df16acd6cf7120452bbcc96bee55132e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:02 +0000
Subject: [PATCH 02/20] fix: make signatures::Snapshots a well behaved
 ExactSizeIterator

nth() past the end did not exhaust the iterator, so that later calls yielded
skipped snapshots, and size_hint() was the default (0, None), which breaks the
contract of ExactSizeIterator (adapters such as take().len() panicked).
---
 src/signatures.rs | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/signatures.rs b/src/signatures.rs
index fe27a21..06e91d9 100644
--- a/src/signatures.rs
+++ b/src/signatures.rs
@@ -297,25 +297,20 @@ impl<'a> Iterator for Snapshots<'a> {
     }
 
     fn nth(&mut self, n: usize) -> Option<Snapshot<'a>> {
+        // skipping past the end exhausts the iterator
         let id = self.snapshot_id.saturating_add(n);
-        if id < self.chain.num_snapshots {
-            self.snapshot_id = id + 1;
-            Some(Snapshot {
-                chain: self.chain,
-                index: id,
-            })
-        } else {
-            None
-        }
+        self.snapshot_id = id.min(self.chain.num_snapshots);
+        self.next()
     }
-}
 
-impl<'a> ExactSizeIterator for Snapshots<'a> {
-    fn len(&self) -> usize {
-        self.chain.num_snapshots - self.snapshot_id
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.chain.num_snapshots - self.snapshot_id;
+        (len, Some(len))
     }
 }
 
+impl<'a> ExactSizeIterator for Snapshots<'a> {}
+
 impl<'a> Snapshot<'a> {
     /// Returns the files inside this backup snapshot.
     pub fn files(&self) -> SnapshotEntries<'a> {
-- 
2.43.0


From 346d9715683b7004c82dee0a10bbc32650475786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:06 +0000
Subject: [PATCH 03/20] fix: merge and list signature entries in backup order

Signature archives are written component by component (a folder, then its
contents, then its siblings), but they were merged by comparing whole paths
bytewise. With siblings such as 'a', 'a/b' and 'a-b' the records of later
archives were not matched with the earlier ones, so that paths were listed
twice or survived their deletion.
---
 src/rawpath.rs    | 11 +++++++++++
 src/signatures.rs | 14 ++++++++------
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/rawpath.rs b/src/rawpath.rs
index c15da94..5587036 100644
--- a/src/rawpath.rs
+++ b/src/rawpath.rs
@@ -1,5 +1,16 @@
 pub use self::os::RawPath;
 
+use std::cmp::Ordering;
+
+/// Compares two paths in backup order.
+///
+/// Duplicity orders paths component by component, so that a folder is immediately followed by its
+/// contents. Note that this is different from comparing the bytes of the whole paths, because
+/// there are bytes less than the separator.
+pub fn cmp_path_bytes(a: &[u8], b: &[u8]) -> Ordering {
+    a.split(|&c| c == b'/').cmp(b.split(|&c| c == b'/'))
+}
+
 #[cfg(unix)]
 mod os {
     use std::ffi::OsString;
diff --git a/src/signatures.rs b/src/signatures.rs
index 06e91d9..2ce0d1d 100644
--- a/src/signatures.rs
+++ b/src/signatures.rs
@@ -3,6 +3,7 @@
 //! This sub-module exposes types to deal with duplicity signatures. It can be used to get
 //! information about files backupped in a backup chain.
 
+use std::cmp::Ordering;
 use std::collections::HashMap;
 use std::fmt::{self, Display, Formatter};
 use std::io::{self, Read};
@@ -16,7 +17,7 @@ use time::Timespec;
 
 use crate::backend::Backend;
 use crate::collections::{SignatureChain, SignatureFile};
-use crate::rawpath::RawPath;
+use crate::rawpath::{cmp_path_bytes, RawPath};
 use crate::timefmt::TimeDisplay;
 
 /// Stores information about paths in a backup chain.
@@ -237,13 +238,13 @@ impl Chain {
                         let mut found = false;
                         if let Some(path_snapshots) = old_snapshots.peek() {
                             let old_path = path_snapshots.path.as_bytes();
-                            if old_path == path {
+                            match cmp_path_bytes(old_path, path) {
                                 // this path is already present in old snapshots: update them
-                                found = true;
-                            } else if old_path > path {
+                                Ordering::Equal => found = true,
                                 // we've already reached the first item next to the current path
                                 // so, the path is not present in old snapshots
-                                break;
+                                Ordering::Greater => break,
+                                Ordering::Less => (),
                             }
                         }
                         if found {
@@ -274,7 +275,8 @@ impl Chain {
             // TODO: Performance hurt here: we have two sorted arrays to merge,
             // better to use this algorithm: http://stackoverflow.com/a/4553321/1667955
             self.files.extend(new_files.into_iter());
-            self.files.sort_by(|a, b| a.path.cmp(&b.path));
+            self.files
+                .sort_by(|a, b| cmp_path_bytes(a.path.as_bytes(), b.path.as_bytes()));
         }
         Ok(())
     }
-- 
2.43.0


From 991f38ebb6785389d0d4d517e52b34400652f04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:53 +0000
Subject: [PATCH 04/20] fix: look up the volumes of a path in backup order

The lookup compared whole paths bytewise, while volumes are in backup order,
so that it missed volumes around folder boundaries and for the root ('.' or
empty). Moreover it relied on block numbers: a volume ending with a numbered
block, followed by one not starting with the same path (or starting with it,
but without a number), made the lookup fail.
---
 src/manifest.rs | 61 +++++++++++++++++++++++--------------------------
 1 file changed, 29 insertions(+), 32 deletions(-)

diff --git a/src/manifest.rs b/src/manifest.rs
index 48276eb..c59cb2f 100644
--- a/src/manifest.rs
+++ b/src/manifest.rs
@@ -9,7 +9,7 @@ use std::path::Path;
 use std::str::{self, FromStr, Utf8Error};
 use std::usize;
 
-use crate::rawpath::RawPath;
+use crate::rawpath::{cmp_path_bytes, RawPath};
 
 /// Manifest file info.
 #[derive(Debug, Eq, PartialEq)]
@@ -103,20 +103,14 @@ impl Manifest {
     /// * duplicity supports non-UTF8 paths;
     /// * under Windows `Path` is not allowed to contain non-UTF8 sequences.
     pub fn first_volume_of_path(&self, path: &[u8]) -> Option<usize> {
-        self.volumes
-            .binary_search_by(|v| match path.cmp(v.start_path_bytes()) {
-                Ordering::Less => Ordering::Greater,
-                Ordering::Greater => match path.cmp(v.end_path_bytes()) {
-                    Ordering::Less | Ordering::Equal => Ordering::Equal,
-                    Ordering::Greater => Ordering::Less,
-                },
-                Ordering::Equal => match v.start_path.block {
-                    Some(n) if n > 0 => Ordering::Greater,
-                    _ => Ordering::Equal,
-                },
-            })
-            .map(|idx| idx + 1)
-            .ok()
+        // the first volume that does not end before the path
+        let idx = self
+            .volumes
+            .partition_point(|v| cmp_paths(v.end_path_bytes(), path) == Ordering::Less);
+        match self.volumes.get(idx) {
+            Some(v) if cmp_paths(v.start_path_bytes(), path) != Ordering::Greater => Some(idx + 1),
+            _ => None,
+        }
     }
 
     /// Returns the index of the last volume containing the given path, if present.
@@ -126,23 +120,14 @@ impl Manifest {
     /// * duplicity supports non-UTF8 paths;
     /// * under Windows `Path` is not allowed to contain non-UTF8 sequences.
     pub fn last_volume_of_path(&self, path: &[u8]) -> Option<usize> {
-        self.volumes
-            .binary_search_by(|v| match path.cmp(v.end_path_bytes()) {
-                Ordering::Greater => Ordering::Less,
-                Ordering::Less => match path.cmp(v.start_path_bytes()) {
-                    Ordering::Greater | Ordering::Equal => Ordering::Equal,
-                    Ordering::Less => Ordering::Greater,
-                },
-                Ordering::Equal => {
-                    if v.end_path.block.is_some() {
-                        Ordering::Less
-                    } else {
-                        Ordering::Equal
-                    }
-                }
-            })
-            .map(|idx| idx + 1)
-            .ok()
+        // the last volume that does not start after the path
+        let num = self
+            .volumes
+            .partition_point(|v| cmp_paths(v.start_path_bytes(), path) != Ordering::Greater);
+        match self.volume(num) {
+            Some(v) if cmp_paths(v.end_path_bytes(), path) != Ordering::Less => Some(num),
+            _ => None,
+        }
     }
 }
 
@@ -425,6 +410,18 @@ impl<'a> Iterator for WordIter<'a> {
     }
 }
 
+/// Compares two paths in backup order. The root can be represented both as '.' or as empty.
+fn cmp_paths(a: &[u8], b: &[u8]) -> Ordering {
+    fn normalize(path: &[u8]) -> &[u8] {
+        if path == b"." {
+            b""
+        } else {
+            path
+        }
+    }
+    cmp_path_bytes(normalize(a), normalize(b))
+}
+
 fn unescape(mut buf: &[u8]) -> Vec<u8> {
     let mut result = Vec::with_capacity(buf.len());
     buf = match (buf.first().cloned(), buf.last().cloned()) {
-- 
2.43.0


From b852ce09f487a08ad4d6410aec19e6aa109045e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:20 +0000
Subject: [PATCH 05/20] fix: allow to hold more handles to the same resource

Requesting the entries of a chain, or a manifest, while another handle to the
same resource was alive panicked, because the cache was always borrowed
mutably.
---
 src/lib.rs | 45 +++++++++++++++++++++------------------------
 1 file changed, 21 insertions(+), 24 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2a3eafc..6eb8a79 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -344,24 +344,22 @@ impl<B: Backend> ResourceCache for Backup<B> {
     }
 
     fn _signature_chain(&self, chain_id: usize) -> io::Result<Ref<Option<Chain>>> {
-        {
-            // check if there is a cached value
-            let mut sig = self.signatures[chain_id].borrow_mut();
-            if sig.is_none() {
-                // compute signatures now
-                if let Some(sigchain) = self.collections.signature_chains().nth(chain_id) {
-                    let new_sig = Chain::from_sigchain(sigchain, &self.backend)?;
-                    *sig = Some(new_sig);
-                } else {
-                    return Err(not_found(
-                        "The given backup snapshot does not have a \
-                                         corresponding signature",
-                    ));
-                }
+        // check if there is a cached value
+        // note: do not borrow mutably in that case, because it could be already in use
+        let cached = self.signatures[chain_id].borrow().is_some();
+        if !cached {
+            // compute signatures now
+            if let Some(sigchain) = self.collections.signature_chains().nth(chain_id) {
+                let new_sig = Chain::from_sigchain(sigchain, &self.backend)?;
+                *self.signatures[chain_id].borrow_mut() = Some(new_sig);
+            } else {
+                return Err(not_found(
+                    "The given backup snapshot does not have a \
+                                     corresponding signature",
+                ));
             }
         }
 
-        // need to close previous scope to borrow again
         // return the cached value
         Ok(self.signatures[chain_id].borrow())
     }
@@ -371,17 +369,16 @@ impl<B: Backend> ResourceCache for Backup<B> {
         id: usize,
         path: &str,
     ) -> Result<Ref<Option<Manifest>>, manifest::ParseError> {
-        {
-            // check if there is a cached value
-            let mut sig = self.manifests[id].borrow_mut();
-            if sig.is_none() {
-                // compute manifest now
-                let mut file = io::BufReader::new(self.backend.open_file(Path::new(path))?);
-                *sig = Some(Manifest::parse(&mut file)?);
-            }
+        // check if there is a cached value
+        // note: do not borrow mutably in that case, because it could be already in use
+        let cached = self.manifests[id].borrow().is_some();
+        if !cached {
+            // compute manifest now
+            let mut file = io::BufReader::new(self.backend.open_file(Path::new(path))?);
+            let new_manifest = Manifest::parse(&mut file)?;
+            *self.manifests[id].borrow_mut() = Some(new_manifest);
         }
 
-        // need to close previous scope to borrow again
         // return the cached value
         Ok(self.manifests[id].borrow())
     }
-- 
2.43.0


From e8411ca9b6094abc65d8cc3bd01864e32316e421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:18 +0000
Subject: [PATCH 06/20] fix: pair each snapshot with its own signature file

Snapshots and signatures were paired by position. When a signature file was
missing (or when chains overlap) a snapshot reported the entries of another
one, or panicked if there were less signature chains than backup chains.
---
 src/collections/mod.rs | 11 ++++++++++-
 src/lib.rs             | 22 +++++++++++++++++-----
 src/signatures.rs      | 24 ++++++++++++++++--------
 3 files changed, 43 insertions(+), 14 deletions(-)

diff --git a/src/collections/mod.rs b/src/collections/mod.rs
index 2e8ad86..386b5d9 100644
--- a/src/collections/mod.rs
+++ b/src/collections/mod.rs
@@ -57,6 +57,7 @@ pub struct BackupSet {
     partial: bool,
     manifest_path: String,
     volumes_paths: Vec<Option<String>>,
+    signature: Option<SignatureFile>,
 }
 
 /// Information about a signature file.
@@ -140,6 +141,11 @@ impl BackupSet {
         self.manifest_path.as_ref()
     }
 
+    /// Returns the signature file for the set, if present.
+    pub(crate) fn signature(&self) -> Option<&SignatureFile> {
+        self.signature.as_ref()
+    }
+
     /// Returns the path of the given volume.
     pub fn volume_path(&self, volume_num: usize) -> Option<&str> {
         self.volumes_paths
@@ -239,6 +245,7 @@ impl BackupSet {
             encrypted: fname.info.encrypted,
             manifest_path: String::new(),
             volumes_paths: Vec::new(),
+            signature: None,
         };
         result.add_filename(fname);
         result
@@ -271,7 +278,9 @@ impl BackupSet {
                 fnm::Type::FullManifest { .. } | fnm::Type::IncManifest { .. } => {
                     self.manifest_path = fname.to_owned();
                 }
-                _ => (),
+                fnm::Type::FullSig { .. } | fnm::Type::NewSig { .. } => {
+                    self.signature = Some(SignatureFile::from_filename_info(file_info));
+                }
             }
             self.fix_encrypted(pr.encrypted);
             true
diff --git a/src/lib.rs b/src/lib.rs
index 6eb8a79..9941ebf 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -60,6 +60,7 @@ pub mod timefmt;
 use std::cell::{Ref, RefCell};
 use std::fmt::{self, Display, Formatter};
 use std::io;
+use std::iter;
 use std::ops::Deref;
 use std::path::Path;
 
@@ -154,7 +155,7 @@ impl<B: Backend> Backup<B> {
         let files = backend.file_names()?;
         let collections = Collections::from_filenames(files);
         let signatures = collections
-            .signature_chains()
+            .backup_chains()
             .map(|_| RefCell::new(None))
             .collect();
         let manifests = (0..collections.num_snapshots())
@@ -349,15 +350,26 @@ impl<B: Backend> ResourceCache for Backup<B> {
         let cached = self.signatures[chain_id].borrow().is_some();
         if !cached {
             // compute signatures now
-            if let Some(sigchain) = self.collections.signature_chains().nth(chain_id) {
-                let new_sig = Chain::from_sigchain(sigchain, &self.backend)?;
-                *self.signatures[chain_id].borrow_mut() = Some(new_sig);
-            } else {
+            // note: pair each set with its own signature, because signature files could be
+            // missing, so signature chains do not necessarily match the backup chains
+            let sigfiles = self
+                .collections
+                .backup_chains()
+                .nth(chain_id)
+                .into_iter()
+                .flat_map(|c| iter::once(c.full_set()).chain(c.inc_sets()))
+                .map(BackupSet::signature)
+                .take_while(Option::is_some)
+                .flatten()
+                .collect::<Vec<_>>();
+            if sigfiles.is_empty() {
                 return Err(not_found(
                     "The given backup snapshot does not have a \
                                      corresponding signature",
                 ));
             }
+            let new_sig = Chain::from_sigfiles(sigfiles, &self.backend)?;
+            *self.signatures[chain_id].borrow_mut() = Some(new_sig);
         }
 
         // return the cached value
diff --git a/src/signatures.rs b/src/signatures.rs
index 2ce0d1d..423cdf7 100644
--- a/src/signatures.rs
+++ b/src/signatures.rs
@@ -7,7 +7,7 @@ use std::cmp::Ordering;
 use std::collections::HashMap;
 use std::fmt::{self, Display, Formatter};
 use std::io::{self, Read};
-use std::iter::Iterator;
+use std::iter::{self, Iterator};
 use std::path::Path;
 use std::slice;
 
@@ -144,16 +144,24 @@ impl Chain {
     /// The given signature chain file names are read by using the given backend, to build the
     /// corresponding `Chain` instance.
     pub fn from_sigchain<B: Backend>(coll: &SignatureChain, backend: &B) -> io::Result<Self> {
+        let incs = coll.inc_signatures();
+        Chain::from_sigfiles(iter::once(coll.full_signature()).chain(incs), backend)
+    }
+
+    /// Opens a signature chain from the given signature files, in chain order.
+    pub(crate) fn from_sigfiles<'a, B, I>(sigfiles: I, backend: &B) -> io::Result<Self>
+    where
+        B: Backend,
+        I: IntoIterator<Item = &'a SignatureFile>,
+    {
         let mut chain = Chain::new();
         // add to the chain the full signature and all the incremental signatures
         // if an error occurs in the full signature exit
-        let file = backend.open_file(coll.full_signature().file_name.as_ref())?;
-        chain.add_sigfile(file, coll.full_signature())?;
-        for inc in coll.inc_signatures() {
-            // TODO(#4): if an error occurs here, do not exit with an error, instead
-            // break the iteration and store the error inside the chain
-            let file = backend.open_file(inc.file_name.as_ref())?;
-            chain.add_sigfile(file, &inc)?;
+        for sigfile in sigfiles {
+            // TODO(#4): if an error occurs in an incremental signature, do not exit with an
+            // error, instead break the iteration and store the error inside the chain
+            let file = backend.open_file(sigfile.file_name.as_ref())?;
+            chain.add_sigfile(file, sigfile)?;
         }
         Ok(chain)
     }
-- 
2.43.0


From 17b61585ed095e4303682110030a0a793275ea37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:27 +0000
Subject: [PATCH 07/20] fix: report a missing manifest without opening a file
 with no name

Asking for the manifest of a snapshot that has none opened the empty file
name; with the local backend this is the backup directory itself.
---
 src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 9941ebf..85b0cdc 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -386,6 +386,10 @@ impl<B: Backend> ResourceCache for Backup<B> {
         let cached = self.manifests[id].borrow().is_some();
         if !cached {
             // compute manifest now
+            if path.is_empty() {
+                let err = not_found("The given backup snapshot does not have a manifest");
+                return Err(From::from(err));
+            }
             let mut file = io::BufReader::new(self.backend.open_file(Path::new(path))?);
             let new_manifest = Manifest::parse(&mut file)?;
             *self.manifests[id].borrow_mut() = Some(new_manifest);
-- 
2.43.0


From 9e5cfb8754fe6a9c06203775f580ffbc7d06938a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:31 +0000
Subject: [PATCH 08/20] fix: report an error for encrypted signatures

Encrypted signature files are not supported, but they were parsed as plain
archives, which gives an empty list of files instead of an error.
---
 src/signatures.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/signatures.rs b/src/signatures.rs
index 423cdf7..4076ff5 100644
--- a/src/signatures.rs
+++ b/src/signatures.rs
@@ -158,6 +158,16 @@ impl Chain {
         // add to the chain the full signature and all the incremental signatures
         // if an error occurs in the full signature exit
         for sigfile in sigfiles {
+            if sigfile.encrypted {
+                if chain.num_snapshots == 0 {
+                    return Err(io::Error::new(
+                        io::ErrorKind::Unsupported,
+                        "Encrypted signatures are not supported",
+                    ));
+                }
+                // the previous snapshots are still available
+                break;
+            }
             // TODO(#4): if an error occurs in an incremental signature, do not exit with an
             // error, instead break the iteration and store the error inside the chain
             let file = backend.open_file(sigfile.file_name.as_ref())?;
-- 
2.43.0


From 873b2a62640afd18d2d88c20bac55a21c96b428d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:47 +0000
Subject: [PATCH 09/20] fix: count only the existing volumes of a backup set

The volumes were kept in a vector indexed by volume number, but volumes are
numbered from one, so that the number of volumes was one more than the real
one. Moreover a file name with a huge volume number exhausted the memory.
---
 src/collections/mod.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/collections/mod.rs b/src/collections/mod.rs
index 386b5d9..5b2fea7 100644
--- a/src/collections/mod.rs
+++ b/src/collections/mod.rs
@@ -5,6 +5,7 @@
 
 mod file_naming;
 
+use std::collections::BTreeMap;
 use std::fmt::{Display, Error, Formatter};
 use std::path::Path;
 use std::slice;
@@ -56,7 +57,7 @@ pub struct BackupSet {
     encrypted: bool,
     partial: bool,
     manifest_path: String,
-    volumes_paths: Vec<Option<String>>,
+    volumes_paths: BTreeMap<usize, String>,
     signature: Option<SignatureFile>,
 }
 
@@ -149,8 +150,8 @@ impl BackupSet {
     /// Returns the path of the given volume.
     pub fn volume_path(&self, volume_num: usize) -> Option<&str> {
         self.volumes_paths
-            .get(volume_num)
-            .and_then(|v| v.as_ref().map(AsRef::as_ref))
+            .get(&volume_num)
+            .map(AsRef::as_ref)
     }
 
     /// Returns the number of volumes in the set.
@@ -244,7 +245,7 @@ impl BackupSet {
             compressed: fname.info.compressed,
             encrypted: fname.info.encrypted,
             manifest_path: String::new(),
-            volumes_paths: Vec::new(),
+            volumes_paths: BTreeMap::new(),
             signature: None,
         };
         result.add_filename(fname);
@@ -266,14 +267,7 @@ impl BackupSet {
             // update info
             match pr.tp {
                 fnm::Type::Full { volume_number, .. } | fnm::Type::Inc { volume_number, .. } => {
-                    // resize volumes if necessary
-                    if volume_number >= self.volumes_paths.len() {
-                        self.volumes_paths.reserve(volume_number + 1);
-                        for _ in self.volumes_paths.len()..volume_number + 1 {
-                            self.volumes_paths.push(None);
-                        }
-                    }
-                    self.volumes_paths[volume_number] = Some(fname.to_owned());
+                    self.volumes_paths.insert(volume_number, fname.to_owned());
                 }
                 fnm::Type::FullManifest { .. } | fnm::Type::IncManifest { .. } => {
                     self.manifest_path = fname.to_owned();
-- 
2.43.0


From edfee92631206a2bd4db37f063913862c05df5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:40 +0000
Subject: [PATCH 10/20] fix: describe a backup independently of the listing
 order

The flags of a backup set (compressed, encrypted, partial), its manifest path
and the signature and volume chosen in case of duplicates depended on the
order in which the backend lists the files, which is arbitrary.
---
 src/collections/file_naming.rs | 19 +++++++++++++
 src/collections/mod.rs         | 51 +++++++++++++++-------------------
 2 files changed, 42 insertions(+), 28 deletions(-)

diff --git a/src/collections/file_naming.rs b/src/collections/file_naming.rs
index 5d65aeb..38153e3 100644
--- a/src/collections/file_naming.rs
+++ b/src/collections/file_naming.rs
@@ -67,6 +67,15 @@ impl<'a> FileNameInfo<'a> {
     pub fn start_time(&self) -> Timespec {
         self.info.tp.time_range().0
     }
+
+    /// The key used to sort files: the ones that come first are preferred to the others.
+    pub fn preference(&self) -> (bool, bool, &'a str) {
+        (
+            self.info.tp.is_partial(),
+            self.info.encrypted,
+            self.file_name,
+        )
+    }
 }
 
 impl Type {
@@ -92,6 +101,16 @@ impl Type {
             } => (start_time, end_time),
         }
     }
+
+    pub fn is_partial(&self) -> bool {
+        match *self {
+            Type::FullManifest { partial, .. }
+            | Type::IncManifest { partial, .. }
+            | Type::FullSig { partial, .. }
+            | Type::NewSig { partial, .. } => partial,
+            _ => false,
+        }
+    }
 }
 
 impl FileNameParser {
diff --git a/src/collections/mod.rs b/src/collections/mod.rs
index 5b2fea7..27b028b 100644
--- a/src/collections/mod.rs
+++ b/src/collections/mod.rs
@@ -228,22 +228,11 @@ impl BackupSet {
                 end_time: end_time,
             },
         };
-        // set partial
-        let partial = {
-            match fname.info.tp {
-                fnm::Type::FullManifest { partial, .. }
-                | fnm::Type::IncManifest { partial, .. }
-                | fnm::Type::FullSig { partial, .. }
-                | fnm::Type::NewSig { partial, .. } => partial,
-                _ => false,
-            }
-        };
-
         let mut result = BackupSet {
             tp: tp,
-            partial: partial,
-            compressed: fname.info.compressed,
-            encrypted: fname.info.encrypted,
+            partial: false,
+            compressed: false,
+            encrypted: false,
             manifest_path: String::new(),
             volumes_paths: BTreeMap::new(),
             signature: None,
@@ -255,8 +244,8 @@ impl BackupSet {
     /// Adds a filename to given set. Return true if it fits.
     ///
     /// The filename will match the given set if it has the right
-    /// times and is of the right type. The information will be set
-    /// from the first filename given.
+    /// times and is of the right type. If more than one file is given for the same purpose, the
+    /// first one is kept.
     fn add_filename(&mut self, file_info: &FileNameInfo) -> bool {
         let pr = &file_info.info;
         let fname = file_info.file_name;
@@ -267,25 +256,26 @@ impl BackupSet {
             // update info
             match pr.tp {
                 fnm::Type::Full { volume_number, .. } | fnm::Type::Inc { volume_number, .. } => {
-                    self.volumes_paths.insert(volume_number, fname.to_owned());
+                    self.volumes_paths
+                        .entry(volume_number)
+                        .or_insert_with(|| fname.to_owned());
                 }
                 fnm::Type::FullManifest { .. } | fnm::Type::IncManifest { .. } => {
-                    self.manifest_path = fname.to_owned();
+                    if self.manifest_path.is_empty() {
+                        self.manifest_path = fname.to_owned();
+                    }
                 }
                 fnm::Type::FullSig { .. } | fnm::Type::NewSig { .. } => {
-                    self.signature = Some(SignatureFile::from_filename_info(file_info));
+                    self.signature
+                        .get_or_insert_with(|| SignatureFile::from_filename_info(file_info));
                 }
             }
-            self.fix_encrypted(pr.encrypted);
+            self.compressed |= pr.compressed;
+            self.encrypted |= pr.encrypted;
+            self.partial |= pr.tp.is_partial();
             true
         }
     }
-
-    fn fix_encrypted(&mut self, pr_encrypted: bool) {
-        if self.encrypted != pr_encrypted && self.partial && pr_encrypted {
-            self.encrypted = pr_encrypted;
-        }
-    }
 }
 
 impl Display for BackupSet {
@@ -575,14 +565,19 @@ where
     E: AsRef<Path> + 'a,
 {
     let parser = FileNameParser::new();
-    filenames
+    let mut infos: Vec<_> = filenames
         .into_iter()
         .filter_map(|path| path.as_ref().to_str())
         .filter_map(|name| match parser.parse(name) {
             Some(info) => Some(FileNameInfo::new(name, info)),
             None => None,
         })
-        .collect()
+        .collect();
+    // the result must not depend on the order in which files are listed
+    // if there are more files for the same purpose, prefer the complete and readable ones
+    infos.sort_by(|a, b| a.preference().cmp(&b.preference()));
+    infos.dedup_by(|a, b| a.file_name == b.file_name);
+    infos
 }
 
 fn compute_backup_chains(fname_infos: &[FileNameInfo]) -> Vec<BackupChain> {
-- 
2.43.0


From 164ba5f2c8c82d16d5f8a9ca3dd5979032cf5dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:10 +0000
Subject: [PATCH 11/20] fix: compute size hints without overflows

The header of a signature is 12 bytes long, not 8. Moreover, the size in the
tar header, that is different from the real one if a PAX size is present, was
used, and the arithmetic could underflow or overflow with damaged signatures.
---
 src/signatures.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/signatures.rs b/src/signatures.rs
index 4076ff5..e6ae015 100644
--- a/src/signatures.rs
+++ b/src/signatures.rs
@@ -5,6 +5,7 @@
 
 use std::cmp::Ordering;
 use std::collections::HashMap;
+use std::convert::TryFrom;
 use std::fmt::{self, Display, Formatter};
 use std::io::{self, Read};
 use std::iter::{self, Iterator};
@@ -628,25 +629,28 @@ fn compute_size_hint_signature<R: Read>(file: &mut tar::Entry<R>) -> Option<(usi
         None
     } else {
         // read the header
-        let file_block_len_bytes = file.read_u32::<BigEndian>().ok()? as usize;
-        let ss_len = file.read_u32::<BigEndian>().ok()? as usize;
+        let file_block_len_bytes = u64::from(file.read_u32::<BigEndian>().ok()?);
+        let ss_len = u64::from(file.read_u32::<BigEndian>().ok()?);
         let sign_block_len_bytes = 4 + ss_len;
         // the remaining part of the file are blocks
-        let file_size = file.header().size().ok()? as usize;
-        let num_blocks = (file_size - 8) / sign_block_len_bytes;
+        let num_blocks = file.size().checked_sub(12)? / sign_block_len_bytes;
 
-        let max_file_len = file_block_len_bytes * num_blocks;
-        if max_file_len > file_block_len_bytes {
-            Some((max_file_len - file_block_len_bytes + 1, max_file_len))
+        let max_file_len = file_block_len_bytes.checked_mul(num_blocks)?;
+        let min_file_len = if max_file_len > file_block_len_bytes {
+            max_file_len - file_block_len_bytes + 1
         } else {
             // avoid underflow
-            Some((0, max_file_len))
-        }
+            0
+        };
+        Some((
+            usize::try_from(min_file_len).ok()?,
+            usize::try_from(max_file_len).ok()?,
+        ))
     }
 }
 
 fn compute_size_hint_snapshot<R: Read>(file: &mut tar::Entry<R>) -> Option<(usize, usize)> {
-    let bytes = file.header().size().ok()? as usize;
+    let bytes = usize::try_from(file.size()).ok()?;
     Some((bytes, bytes))
 }
 
-- 
2.43.0


From a3c1838a344dd398a8276b02583e3347343b330b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:51 +0000
Subject: [PATCH 12/20] fix: reject invalid time stamps

Time stamps with missing digits, trailing garbage or with a date that does not
exist were accepted, and so were file names containing them.
---
 src/timefmt.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/timefmt.rs b/src/timefmt.rs
index 0074ad2..c9314a2 100644
--- a/src/timefmt.rs
+++ b/src/timefmt.rs
@@ -44,9 +44,25 @@ pub struct PrettyDisplay(Tm);
 /// An example of such a timestamp is "19881211t152000z" which represents the date
 /// `1988-12-11T15:20:00Z` in the UTC time zone.
 pub fn parse_time_str(s: &str) -> Option<Timespec> {
-    time::strptime(s, "%Y%m%dt%H%M%S%Z")
-        .ok()
-        .map(|tm| tm.to_timespec())
+    // strptime allows to omit digits and ignores everything after the seconds
+    let is_valid = s.len() == 16
+        && s.bytes().enumerate().all(|(i, b)| match i {
+            8 => b == b't',
+            15 => b == b'z',
+            _ => b.is_ascii_digit(),
+        });
+    if !is_valid {
+        return None;
+    }
+    let tm = time::strptime(s, "%Y%m%dt%H%M%S%Z").ok()?;
+    let time = tm.to_timespec();
+    // strptime allows also dates that do not exist, such as February 30th
+    let actual = time::at_utc(time);
+    if (actual.tm_mon, actual.tm_mday, actual.tm_min) == (tm.tm_mon, tm.tm_mday, tm.tm_min) {
+        Some(time)
+    } else {
+        None
+    }
 }
 
 impl TimeDisplay for Timespec {
-- 
2.43.0


From 962440d47adc0fadc3955cc30689fdc630edc46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:31 +0000
Subject: [PATCH 13/20] fix: do not panic displaying times too far away

Modification times in signatures are arbitrary 64 bit numbers, but the
conversion to a calendar date panics if the year does not fit in 32 bits.
---
 src/timefmt.rs | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/timefmt.rs b/src/timefmt.rs
index c9314a2..7ca22ec 100644
--- a/src/timefmt.rs
+++ b/src/timefmt.rs
@@ -37,7 +37,11 @@ pub trait TimeDisplay {
 /// Suppose to have the timestamp `2012-02-22T14:53:18Z`. If we are in 2012, the display will be
 /// `Feb 22 14:53`; if we are in 2015, the display will be `Feb 22  2012`.
 #[derive(Copy, Clone, Debug)]
-pub struct PrettyDisplay(Tm);
+pub struct PrettyDisplay(Option<Tm>);
+
+/// The instants which are more distant than this from the epoch are not displayable, because the
+/// year could not fit in 32 bits (about 2 billion years).
+const MAX_DISPLAYABLE_SEC: i64 = 31_556_952 * 2_000_000_000;
 
 /// Parse a string representing a duplicity timestamp and returns a `Timespec` if all goes well.
 ///
@@ -69,27 +73,39 @@ impl TimeDisplay for Timespec {
     type D = PrettyDisplay;
 
     fn into_local_display(self) -> Self::D {
-        PrettyDisplay(time::at(self))
+        PrettyDisplay(into_tm(self, time::at))
     }
 
     fn into_utc_display(self) -> Self::D {
-        PrettyDisplay(time::at_utc(self))
+        PrettyDisplay(into_tm(self, time::at_utc))
     }
 }
 
 impl Display for PrettyDisplay {
     fn fmt(&self, f: &mut Formatter) -> Result {
-        if time::now_utc().tm_year == self.0.tm_year {
+        let tm = match self.0 {
+            Some(ref tm) => tm,
+            None => return write!(f, "?"),
+        };
+        if time::now_utc().tm_year == tm.tm_year {
             // the year is the current, so print month, day, hour
-            write!(f, "{}", time::strftime("%b %d %R", &self.0).unwrap())
+            write!(f, "{}", time::strftime("%b %d %R", tm).unwrap())
         } else {
             // the year is not the current, so print month, day, year
             // NOTE: the double space before year is meaningful
-            write!(f, "{}", time::strftime("%b %d  %Y", &self.0).unwrap())
+            write!(f, "{}", time::strftime("%b %d  %Y", tm).unwrap())
         }
     }
 }
 
+fn into_tm(time: Timespec, convert: fn(Timespec) -> Tm) -> Option<Tm> {
+    if time.sec < -MAX_DISPLAYABLE_SEC || time.sec > MAX_DISPLAYABLE_SEC {
+        None
+    } else {
+        Some(convert(time))
+    }
+}
+
 #[cfg(test)]
 mod test {
     use super::*;
-- 
2.43.0


From 49f6e880727768d0eea26ae843c3223966ca6eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:33 +0000
Subject: [PATCH 14/20] fix: compare the displayed year with the current one of
 the same time zone

Times displayed in the local time zone were compared with the current UTC
year, so that around new year the wrong format was chosen.
---
 src/timefmt.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/timefmt.rs b/src/timefmt.rs
index 7ca22ec..39ce1b1 100644
--- a/src/timefmt.rs
+++ b/src/timefmt.rs
@@ -37,7 +37,12 @@ pub trait TimeDisplay {
 /// Suppose to have the timestamp `2012-02-22T14:53:18Z`. If we are in 2012, the display will be
 /// `Feb 22 14:53`; if we are in 2015, the display will be `Feb 22  2012`.
 #[derive(Copy, Clone, Debug)]
-pub struct PrettyDisplay(Option<Tm>);
+pub struct PrettyDisplay {
+    // None if it is not displayable
+    tm: Option<Tm>,
+    // the current time, in the same time zone
+    now: fn() -> Tm,
+}
 
 /// The instants which are more distant than this from the epoch are not displayable, because the
 /// year could not fit in 32 bits (about 2 billion years).
@@ -73,21 +78,27 @@ impl TimeDisplay for Timespec {
     type D = PrettyDisplay;
 
     fn into_local_display(self) -> Self::D {
-        PrettyDisplay(into_tm(self, time::at))
+        PrettyDisplay {
+            tm: into_tm(self, time::at),
+            now: time::now,
+        }
     }
 
     fn into_utc_display(self) -> Self::D {
-        PrettyDisplay(into_tm(self, time::at_utc))
+        PrettyDisplay {
+            tm: into_tm(self, time::at_utc),
+            now: time::now_utc,
+        }
     }
 }
 
 impl Display for PrettyDisplay {
     fn fmt(&self, f: &mut Formatter) -> Result {
-        let tm = match self.0 {
+        let tm = match self.tm {
             Some(ref tm) => tm,
             None => return write!(f, "?"),
         };
-        if time::now_utc().tm_year == tm.tm_year {
+        if (self.now)().tm_year == tm.tm_year {
             // the year is the current, so print month, day, hour
             write!(f, "{}", time::strftime("%b %d %R", tm).unwrap())
         } else {
-- 
2.43.0


From 6c2d610f37034b2e3e1e41ad30401af2802770fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:07 +0000
Subject: [PATCH 15/20] fix: report the errors of the backend while reading
 signatures

An error while reading a signature file was handled as a damaged archive: it
was ignored, and the truncated list of files was cached as if it were the right
one. The same happened for reads interrupted by a signal.
---
 src/signatures.rs | 51 +++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 43 insertions(+), 8 deletions(-)

diff --git a/src/signatures.rs b/src/signatures.rs
index e6ae015..596d0d1 100644
--- a/src/signatures.rs
+++ b/src/signatures.rs
@@ -130,6 +130,38 @@ struct UserGroupMap {
 #[derive(Debug)]
 struct ModeDisplay(Option<u32>);
 
+/// Reader that keeps track of the errors given by the backend, to distinguish them from the errors
+/// given by damaged archives.
+struct BackendReader<R> {
+    inner: R,
+    error: Option<io::Error>,
+}
+
+impl<R> BackendReader<R> {
+    fn new(inner: R) -> Self {
+        BackendReader {
+            inner: inner,
+            error: None,
+        }
+    }
+}
+
+impl<R: Read> Read for BackendReader<R> {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        loop {
+            match self.inner.read(buf) {
+                Err(ref e) if e.kind() == io::ErrorKind::Interrupted => (),
+                Err(e) => {
+                    let kind = e.kind();
+                    self.error = Some(e);
+                    return Err(io::Error::from(kind));
+                }
+                ok => return ok,
+            }
+        }
+    }
+}
+
 impl Chain {
     /// Builds a new empty signature chain.
     pub fn new() -> Self {
@@ -186,15 +218,18 @@ impl Chain {
     }
 
     fn add_sigfile<R: Read>(&mut self, file: R, sigfile: &SignatureFile) -> io::Result<()> {
-        let result = {
-            let snapshot_id = self.num_snapshots;
-            if sigfile.compressed {
-                let gz_decoder = GzDecoder::new(file);
-                self.add_sigtar_to_snapshots(tar::Archive::new(gz_decoder), snapshot_id)
-            } else {
-                self.add_sigtar_to_snapshots(tar::Archive::new(file), snapshot_id)
-            }
+        let mut file = BackendReader::new(file);
+        let snapshot_id = self.num_snapshots;
+        let mut result = if sigfile.compressed {
+            let gz_decoder = GzDecoder::new(&mut file);
+            self.add_sigtar_to_snapshots(tar::Archive::new(gz_decoder), snapshot_id)
+        } else {
+            self.add_sigtar_to_snapshots(tar::Archive::new(&mut file), snapshot_id)
         };
+        // damaged archives are tolerated, backend errors are not
+        if let Some(err) = file.error {
+            result = Err(err);
+        }
         if result.is_ok() {
             // add to the list of snapshots only if everything is ok
             // we do not need to cleanup the chain if someting went wrong, because if the
-- 
2.43.0


From 9b38b880b1b1fd4622544be84bf0570d2dfc2be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:09 +0000
Subject: [PATCH 16/20] fix: read all the members of a compressed signature

A gzip file can be made of several members, but the entries after the first one
were silently ignored.
---
 src/signatures.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/signatures.rs b/src/signatures.rs
index 596d0d1..378c6fd 100644
--- a/src/signatures.rs
+++ b/src/signatures.rs
@@ -12,7 +12,7 @@ use std::iter::{self, Iterator};
 use std::path::Path;
 use std::slice;
 
-use flate2::read::GzDecoder;
+use flate2::read::MultiGzDecoder;
 use tar;
 use time::Timespec;
 
@@ -221,7 +221,7 @@ impl Chain {
         let mut file = BackendReader::new(file);
         let snapshot_id = self.num_snapshots;
         let mut result = if sigfile.compressed {
-            let gz_decoder = GzDecoder::new(&mut file);
+            let gz_decoder = MultiGzDecoder::new(&mut file);
             self.add_sigtar_to_snapshots(tar::Archive::new(gz_decoder), snapshot_id)
         } else {
             self.add_sigtar_to_snapshots(tar::Archive::new(&mut file), snapshot_id)
-- 
2.43.0


From 1b47e7507507a9c152519fcbbed581db50a8e16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:58 +0000
Subject: [PATCH 17/20] fix: do not stop at blank lines in manifests

A blank line was considered as the end of the file, so that the volumes after
it were silently ignored.
---
 src/manifest.rs | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/manifest.rs b/src/manifest.rs
index c59cb2f..1079fb5 100644
--- a/src/manifest.rs
+++ b/src/manifest.rs
@@ -291,18 +291,25 @@ impl<R: BufRead> ManifestParser<R> {
         Ok(Some((vol, num)))
     }
 
+    // reads the next non-blank line, returns false at the end of the file
     fn read_line(&mut self) -> io::Result<bool> {
-        self.buf.clear();
-        let mut len = self.input.read_until(b'\n', &mut self.buf)?;
-        if len > 0 && self.buf[len - 1] == b'\n' {
-            len -= 1;
-        }
-        if len > 0 && self.buf[len - 1] == b'\r' {
-            len -= 1;
+        loop {
+            self.buf.clear();
+            let mut len = self.input.read_until(b'\n', &mut self.buf)?;
+            if len == 0 {
+                return Ok(false);
+            }
+            if self.buf[len - 1] == b'\n' {
+                len -= 1;
+            }
+            if len > 0 && self.buf[len - 1] == b'\r' {
+                len -= 1;
+            }
+            self.buf.truncate(len);
+            if self.buf.iter().any(|b| *b != b' ') {
+                return Ok(true);
+            }
         }
-        self.buf.truncate(len);
-
-        Ok(!self.buf.is_empty())
     }
 
     fn read_param_bytes(&mut self, key: &str) -> Result<Vec<u8>, ParseError> {
-- 
2.43.0


From 1946b7bdafcd425aa6dd388e5045b93ce9c7f37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:01 +0000
Subject: [PATCH 18/20] fix: report errors while listing a local directory

The entries that could not be read were skipped, so that an incomplete backup
was reported.
---
 src/backend/local.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/backend/local.rs b/src/backend/local.rs
index c4d1c1d..5149d4d 100644
--- a/src/backend/local.rs
+++ b/src/backend/local.rs
@@ -28,6 +28,7 @@ use std::ffi::OsString;
 use std::fs::{self, File};
 use std::io;
 use std::path::{Path, PathBuf};
+use std::vec;
 
 /// Backend for some directory in the local file system.
 #[derive(Debug)]
@@ -36,7 +37,7 @@ pub struct LocalBackend {
 }
 
 /// Iterator over a set of file names.
-pub struct FileNameIterator(fs::ReadDir);
+pub struct FileNameIterator(vec::IntoIter<OsString>);
 
 impl LocalBackend {
     /// Creates a new local backend for the given directory.
@@ -53,8 +54,10 @@ impl Backend for LocalBackend {
     type FileStream = File;
 
     fn file_names(&self) -> io::Result<Self::FileNameIter> {
-        let dir = fs::read_dir(self.base_path.as_path())?;
-        Ok(FileNameIterator(dir))
+        let names = fs::read_dir(self.base_path.as_path())?
+            .map(|entry| entry.map(|e| e.file_name()))
+            .collect::<io::Result<Vec<_>>>()?;
+        Ok(FileNameIterator(names.into_iter()))
     }
 
     fn open_file(&self, name: &Path) -> io::Result<File> {
@@ -68,12 +71,7 @@ impl Iterator for FileNameIterator {
     type Item = OsString;
 
     fn next(&mut self) -> Option<OsString> {
-        for entry in &mut self.0 {
-            if let Ok(entry) = entry {
-                return Some(entry.file_name());
-            }
-        }
-        None
+        self.0.next()
     }
 }
 
-- 
2.43.0


From 5c335bfc782514a9d85b530d57b8bafcbd488711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:35 +0000
Subject: [PATCH 19/20] fix: report the user and group names of each snapshot

Names were associated to numeric ids for the whole chain, so that the names
reported for a snapshot changed when a later one renamed the user or group, or
reused its id.
---
 src/signatures.rs | 66 +++++++++++++++++++----------------------------
 1 file changed, 26 insertions(+), 40 deletions(-)

diff --git a/src/signatures.rs b/src/signatures.rs
index 378c6fd..a5aa8e2 100644
--- a/src/signatures.rs
+++ b/src/signatures.rs
@@ -4,13 +4,14 @@
 //! information about files backupped in a backup chain.
 
 use std::cmp::Ordering;
-use std::collections::HashMap;
+use std::collections::HashSet;
 use std::convert::TryFrom;
 use std::fmt::{self, Display, Formatter};
 use std::io::{self, Read};
 use std::iter::{self, Iterator};
 use std::path::Path;
 use std::slice;
+use std::sync::Arc;
 
 use flate2::read::MultiGzDecoder;
 use tar;
@@ -28,7 +29,7 @@ use crate::timefmt::TimeDisplay;
 pub struct Chain {
     num_snapshots: usize,
     files: Vec<PathSnapshots>,
-    ug_map: UserGroupMap,
+    names: NameSet,
 }
 
 /// Signatures for backup snapshots, in creation order.
@@ -50,7 +51,6 @@ pub struct Snapshot<'a> {
 pub struct SnapshotEntries<'a> {
     index: usize,
     iter: slice::Iter<'a, PathSnapshots>,
-    chain: &'a Chain,
 }
 
 /// Allows to display files of a snapshot.
@@ -65,7 +65,6 @@ pub struct SnapshotEntriesDisplay<'a>(SnapshotEntries<'a>);
 pub struct Entry<'a> {
     path: &'a RawPath,
     info: &'a PathInfo,
-    ug_map: &'a UserGroupMap,
 }
 
 /// Type of entry in a backup snapshot.
@@ -115,17 +114,17 @@ struct PathInfo {
     mtime: Timespec,
     uid: Option<u64>,
     gid: Option<u64>,
+    uname: Option<Arc<str>>,
+    gname: Option<Arc<str>>,
     mode: Option<u32>,
     entry_type: u8,
     size_hint: Option<(usize, usize)>,
     link: Option<RawPath>,
 }
 
+/// Names of users and groups, shared among the entries.
 #[derive(Debug)]
-struct UserGroupMap {
-    uid_map: HashMap<u64, String>,
-    gid_map: HashMap<u64, String>,
-}
+struct NameSet(HashSet<Arc<str>>);
 
 #[derive(Debug)]
 struct ModeDisplay(Option<u32>);
@@ -168,7 +167,7 @@ impl Chain {
         Chain {
             num_snapshots: 0,
             files: Vec::new(),
-            ug_map: UserGroupMap::new(),
+            names: NameSet::new(),
         }
     }
 
@@ -246,6 +245,7 @@ impl Chain {
     ) -> io::Result<()> {
         let mut new_files: Vec<PathSnapshots> = Vec::new();
         {
+            let names = &mut self.names;
             let mut old_snapshots = self.files.iter_mut().peekable();
             for tarfile in tar.entries()? {
                 // we can ignore paths with errors
@@ -259,12 +259,10 @@ impl Chain {
                     DiffType::Signature | DiffType::Snapshot => {
                         let header = tarfile.header();
                         let time = Timespec::new(header.mtime().unwrap_or(0) as i64, 0);
-                        if let (Ok(uid), Ok(Some(name))) = (header.uid(), header.username()) {
-                            self.ug_map.add_user(uid, name.to_owned());
-                        }
-                        if let (Ok(gid), Ok(Some(name))) = (header.gid(), header.groupname()) {
-                            self.ug_map.add_group(gid, name.to_owned());
-                        }
+                        // note: do not share the names by id, because the name with a certain id
+                        // could be different in another snapshot
+                        let uname = header.username().ok().and_then(|name| name);
+                        let gname = header.groupname().ok().and_then(|name| name);
                         let link = tarfile
                             .link_name_bytes()
                             .map(|b| RawPath::from_bytes(b.into_owned()));
@@ -272,6 +270,8 @@ impl Chain {
                             mtime: time,
                             uid: header.uid().ok(),
                             gid: header.gid().ok(),
+                            uname: uname.map(|name| names.intern(name)),
+                            gname: gname.map(|name| names.intern(name)),
                             mode: header.mode().ok(),
                             size_hint: size_hint,
                             entry_type: tarfile.header().entry_type().as_byte(),
@@ -373,7 +373,6 @@ impl<'a> Snapshot<'a> {
         SnapshotEntries {
             index: self.index,
             iter: self.chain.files.iter(),
-            chain: self.chain,
         }
     }
 }
@@ -412,7 +411,6 @@ impl<'a> Iterator for SnapshotEntries<'a> {
                     return Some(Entry {
                         path: &path_snapshots.path,
                         info: info,
-                        ug_map: &self.chain.ug_map,
                     });
                 }
             }
@@ -467,14 +465,12 @@ impl<'a> Entry<'a> {
 
     /// Returns the name of the owner user.
     pub fn username(&self) -> Option<&'a str> {
-        self.info.uid.and_then(|uid| self.ug_map.get_user_name(uid))
+        self.info.uname.as_ref().map(AsRef::as_ref)
     }
 
     /// Returns the name of the group.
     pub fn groupname(&self) -> Option<&'a str> {
-        self.info
-            .gid
-            .and_then(|gid| self.ug_map.get_group_name(gid))
+        self.info.gname.as_ref().map(AsRef::as_ref)
     }
 
     /// Returns the last modification time.
@@ -555,28 +551,18 @@ impl Display for EntryType {
     }
 }
 
-impl UserGroupMap {
+impl NameSet {
     pub fn new() -> Self {
-        UserGroupMap {
-            uid_map: HashMap::new(),
-            gid_map: HashMap::new(),
-        }
-    }
-
-    pub fn add_user(&mut self, uid: u64, name: String) -> bool {
-        self.uid_map.insert(uid, name).is_none()
-    }
-
-    pub fn add_group(&mut self, gid: u64, name: String) -> bool {
-        self.gid_map.insert(gid, name).is_none()
+        NameSet(HashSet::new())
     }
 
-    pub fn get_user_name(&self, uid: u64) -> Option<&str> {
-        self.uid_map.get(&uid).map(AsRef::as_ref)
-    }
-
-    pub fn get_group_name(&self, gid: u64) -> Option<&str> {
-        self.gid_map.get(&gid).map(AsRef::as_ref)
+    pub fn intern(&mut self, name: &str) -> Arc<str> {
+        if let Some(shared) = self.0.get(name) {
+            return shared.clone();
+        }
+        let shared: Arc<str> = Arc::from(name);
+        self.0.insert(shared.clone());
+        shared
     }
 }
 
-- 
2.43.0


From cc30c15659ce9ea5ced23047d36137bf98e046ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:46 +0000
Subject: [PATCH 20/20] fix: list once the paths recorded more than once or out
 of order

---
 src/signatures.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/signatures.rs b/src/signatures.rs
index a5aa8e2..68c702f 100644
--- a/src/signatures.rs
+++ b/src/signatures.rs
@@ -331,6 +331,16 @@ impl Chain {
             self.files.extend(new_files.into_iter());
             self.files
                 .sort_by(|a, b| cmp_path_bytes(a.path.as_bytes(), b.path.as_bytes()));
+            // an archive could contain the same path more than once, or paths out of order, so the
+            // same path could be also in the old snapshots
+            // note: the sort is stable, so the last snapshot of a path is the last in the archive
+            self.files.dedup_by(|next, prev| {
+                let same = next.path.as_bytes() == prev.path.as_bytes();
+                if same {
+                    prev.snapshots.append(&mut next.snapshots);
+                }
+                same
+            });
         }
         Ok(())
     }
-- 
2.43.0

