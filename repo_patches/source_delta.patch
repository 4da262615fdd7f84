From 2b08587dcbc5d713e7fce091a90a82aa881f1153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:03 +0000
Subject: [PATCH 01/27] fix: list only keys with the prefix when it ends in
 0xff bytes

---
 src/tx.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/tx.rs b/src/tx.rs
index 7548f3e..0f0ca0d 100644
--- a/src/tx.rs
+++ b/src/tx.rs
@@ -99,7 +99,14 @@ pub trait ReadTransaction: ReadOnlyTransactionAccessor {
     // TODO: Make this iterate.
     fn list_items(&self, prefix: &[u8]) -> PubResult<Vec<Item>> {
         let range_end = {
-            let mut prefix = prefix.to_owned();
+            // Keys sort lexicographically, so the first key after every key with the prefix is found
+            // by incrementing the last byte that can be, and dropping the ones after it. Carrying
+            // into zeroes instead would let in keys without the prefix.
+            let len = prefix
+                .iter()
+                .rposition(|b| *b != u8::MAX)
+                .map_or(0, |last| last + 1);
+            let mut prefix = prefix[..len].to_owned();
             if inc_big_endian_array(&mut prefix) {
                 Some(prefix)
             } else {
-- 
2.43.0


From 9fa7730fda538e9f62a1311572ca95ce222f50d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:18 +0000
Subject: [PATCH 02/27] fix: remove what a failed copy wrote to the values file

---
 src/lib.rs    | 5 +++--
 src/reader.rs | 6 ++++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3ddcf89..c315754 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -209,9 +209,10 @@ impl ValueWriter {
         let value_length = match std::io::copy(&mut value, &mut self.exclusive_file.inner) {
             Ok(ok) => ok,
             Err(err) => {
+                // The file is in append mode, so seeking back isn't enough: What was copied would
+                // remain, and be taken for part of the value.
                 self.exclusive_file
-                    .inner
-                    .seek(Start(value_file_offset))
+                    .revert_to_offset(value_file_offset)
                     .expect("should rewind failed copy");
                 return Err(err.into());
             }
diff --git a/src/reader.rs b/src/reader.rs
index 46b60a3..9087e59 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -150,7 +150,13 @@ where
         // can retry the cloning until we are able to lock it.
         let locked = file.lock_max_segment(LockSharedNonblock)?;
         assert!(locked);
+        // Whatever follows the last committed value could still be reverted by its writer, so a
+        // cached clone can't be used for values that end up there.
         let len = file.seek(End(0))?;
+        let len = self
+            .owned_tx
+            .transaction()
+            .query_last_end_offset(file_id, len)?;
         let file_clone = Arc::new(Mutex::new(FileClone {
             file,
             tempdir: Some(tempdir.clone()),
-- 
2.43.0


From 19b832a63a6ad63850736b2d33756e28e2403f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:57 +0000
Subject: [PATCH 03/27] fix: keep the destination when renaming a value that is
 gone or has that key already

---
 src/tx.rs | 56 +++++++++++++++++++++----------------------------------
 1 file changed, 21 insertions(+), 35 deletions(-)

diff --git a/src/tx.rs b/src/tx.rs
index 0f0ca0d..f78949c 100644
--- a/src/tx.rs
+++ b/src/tx.rs
@@ -271,35 +271,26 @@ where
 
     // TODO: Add a test for renaming onto itself.
     pub fn rename_value(&mut self, value: &Value, new_key: Vec<u8>) -> PubResult<bool> {
-        match self
+        // Find out what would be renamed before touching the destination.
+        let current_key: rusqlite::Result<Vec<u8>> = self
             .tx
-            .prepare_cached(&format!(
-                "delete from keys where key=? returning {}",
-                value_columns_sql()
-            ))?
-            .query_row(params![&new_key], Value::from_row)
-        {
-            Err(QueryReturnedNoRows) => {}
+            .prepare_cached("select key from keys where file_id=? and file_offset=?")?
+            .query_row(params![value.file_id(), value.file_offset()], |row| {
+                row.get(0)
+            });
+        match current_key {
+            // The value isn't there anymore.
+            Err(QueryReturnedNoRows) => return Ok(false),
             Err(err) => return Err(err.into()),
-            Ok(existing_value) => {
-                match existing_value.location {
-                    Nonzero(a) => {
-                        let b = value;
-                        if Some(a.file_offset) == b.file_offset() && Some(&a.file_id) == b.file_id()
-                        {
-                            assert_eq!(a.length, b.length());
-                            // Renamed but the name is the same.
-                            return Ok(true);
-                        }
-                        // Schedule the value that previously had the key to be hole punched.
-                        self.deleted_values.push(a);
-                    }
-                    ZeroLength => {}
-                }
-            }
-        };
+            // Renamed but the name is the same.
+            Ok(current_key) if current_key == new_key => return Ok(true),
+            Ok(_) => {}
+        }
+
+        // The value that previously had the key is to be hole punched.
+        self.delete_key(&new_key)?;
 
-        let res: rusqlite::Result<ValueLength> = self
+        let value_length: ValueLength = self
             .tx
             .prepare_cached(
                 "update keys set key=? where file_id=? and file_offset=?\
@@ -308,15 +299,10 @@ where
             .query_row(
                 params![new_key, value.file_id(), value.file_offset()],
                 |row| row.get(0),
-            );
-        match res {
-            Err(QueryReturnedNoRows) => Ok(false),
-            Err(err) => Err(err).context("updating value key").map_err(Into::into),
-            Ok(value_length) => {
-                assert_eq!(value_length, value.length());
-                Ok(true)
-            }
-        }
+            )
+            .context("updating value key")?;
+        assert_eq!(value_length, value.length());
+        Ok(true)
     }
 
     // I guess this doesn't handle destination collisions? It should give a unique constraint error
-- 
2.43.0


From 6407e0b4eb46e9f39605ee478adcce71973e50cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:02 +0000
Subject: [PATCH 04/27] fix: take the write lock first in move_prefix and
 delete_prefix

---
 src/handle.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/handle.rs b/src/handle.rs
index 19f6fd0..a47129f 100644
--- a/src/handle.rs
+++ b/src/handle.rs
@@ -441,7 +441,8 @@ impl Handle {
     }
 
     pub fn move_prefix(&self, from: &[u8], to: &[u8]) -> Result<()> {
-        let mut tx = self.start_deferred_transaction()?;
+        // Reading first and then upgrading fails if someone else commits in between.
+        let mut tx = self.start_immediate_transaction()?;
         let items = tx.list_items(from)?;
         let mut to_vec = to.to_vec();
         for item in items {
@@ -454,7 +455,7 @@ impl Handle {
     }
 
     pub fn delete_prefix(&self, prefix: impl AsRef<[u8]>) -> PubResult<()> {
-        let mut tx = self.start_deferred_transaction()?;
+        let mut tx = self.start_immediate_transaction()?;
         for item in tx.list_items(prefix.as_ref())? {
             tx.delete_key(&item.key)?;
         }
-- 
2.43.0


From e32218400e208535257d5ee8ee787353e6cc905b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:33 +0000
Subject: [PATCH 05/27] fix: take the write lock in possum_reader_new like
 Handle::read does

---
 src/c_api/ext_fns/handle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c_api/ext_fns/handle.rs b/src/c_api/ext_fns/handle.rs
index c3b7387..ec5f22f 100644
--- a/src/c_api/ext_fns/handle.rs
+++ b/src/c_api/ext_fns/handle.rs
@@ -179,7 +179,7 @@ pub extern "C" fn possum_reader_new(
         // This is copied from Handle::start_writable_transaction_with_behaviour and Handle::read
         // until I make proper abstractions.
         |conn, handle| {
-            let rtx = conn.transaction_with_behavior(TransactionBehavior::Deferred)?;
+            let rtx = conn.transaction_with_behavior(TransactionBehavior::Immediate)?;
             Ok(Transaction::new(rtx, handle))
         },
     );
-- 
2.43.0


From 12f56451cec4372a59467c6c3afc5e3acc38c60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:40 +0000
Subject: [PATCH 06/27] fix: look for newer values again after locking a values
 file to truncate or remove it

---
 src/handle.rs | 12 +++++-------
 src/lib.rs    | 23 ++++++++++++++++++++---
 2 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/src/handle.rs b/src/handle.rs
index a47129f..c7f3701 100644
--- a/src/handle.rs
+++ b/src/handle.rs
@@ -374,20 +374,18 @@ impl Handle {
                     std::thread::sleep(RETRY_DURATION);
                 }
             }
-            let tx = conn.transaction_with_behavior(TransactionBehavior::Deferred)?;
-            let tx = ReadTransactionOwned(tx);
-            pending_values = Self::punch_values(&dir, pending_values, &tx)?;
-            debug_assert_ne!(tx.0.transaction_state(None)?, TransactionState::Write);
+            pending_values = Self::punch_values(&dir, pending_values, &mut conn)?;
+            debug_assert_ne!(conn.transaction_state(None)?, TransactionState::Write);
         }
         Ok(())
     }
 
-    /// Starts a read transaction to determine punch boundaries. Since punching is never expanded to
+    /// Starts read transactions to determine punch boundaries. Since punching is never expanded to
     /// offsets above the targeted values, ongoing writes should not be affected.
     pub(crate) fn punch_values(
         dir: &Dir,
         values: Vec<NonzeroValueLocation>,
-        transaction: &ReadTransactionOwned,
+        conn: &mut Connection,
     ) -> PubResult<Vec<NonzeroValueLocation>> {
         let mut failed = Vec::with_capacity(values.len());
         for v in values {
@@ -408,7 +406,7 @@ impl Handle {
                 file_id,
                 offset: *file_offset,
                 length: *value_length,
-                tx: transaction,
+                conn,
                 block_size: dir.block_size(),
                 constraints: Default::default(),
             })
diff --git a/src/lib.rs b/src/lib.rs
index c315754..2a8186a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -789,11 +789,16 @@ struct PunchValueOptions<'a> {
     file_id: &'a FileId,
     offset: u64,
     length: u64,
-    tx: &'a ReadTransactionOwned<'a>,
+    conn: &'a mut Connection,
     block_size: u64,
     constraints: PunchValueConstraints,
 }
 
+fn start_read_transaction(conn: &mut Connection) -> rusqlite::Result<ReadTransactionOwned> {
+    conn.transaction_with_behavior(TransactionBehavior::Deferred)
+        .map(ReadTransactionOwned)
+}
+
 // Can't do this as &mut self for dumb Rust reasons.
 fn punch_value(opts: PunchValueOptions) -> Result<bool> {
     let PunchValueOptions {
@@ -801,7 +806,7 @@ fn punch_value(opts: PunchValueOptions) -> Result<bool> {
         file_id,
         offset,
         length,
-        tx,
+        conn,
         block_size,
         constraints:
             PunchValueConstraints {
@@ -825,6 +830,7 @@ fn punch_value(opts: PunchValueOptions) -> Result<bool> {
         Err(err) => return Err(err).context("opening value file"),
         Ok(ok) => ok,
     };
+    let tx = start_read_transaction(conn)?;
     // Find out how far back we can punch and start there, correcting for block boundaries as we go.
     if offset % block_size != 0 || greedy_start {
         let last_end_offset = tx.query_last_end_offset(file_id, offset as u64)?;
@@ -845,7 +851,18 @@ fn punch_value(opts: PunchValueOptions) -> Result<bool> {
                     .context("locking value file")?;
                 // Get the file length after we have tried locking the file.
                 let file_end = file.seek(End(0))? as i64;
-                if locked_file {
+                // The file might have been written to between starting the transaction and getting
+                // the lock. No more values can be added to it now, so look again.
+                let next_offset = if locked_file {
+                    drop(tx);
+                    let tx = start_read_transaction(conn)?;
+                    tx.next_value_offset(file_id, (offset + length).try_into().unwrap())?
+                } else {
+                    None
+                };
+                if let Some(next_offset) = next_offset {
+                    floored_multiple(next_offset as i64, block_size)
+                } else if locked_file {
                     // I think it's okay to remove and truncate files if cloning doesn't use locks,
                     // because there are no values in this file to clone.
                     if offset == 0 && allow_remove {
-- 
2.43.0


From 0f2571d9b08aaeb825fbaeaa18115272a3bf406b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:17 +0000
Subject: [PATCH 07/27] fix: keep values files with staged values locked when a
 later value in them is dropped

---
 src/lib.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 2a8186a..5f8521f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -251,6 +251,9 @@ where
 {
     handle: H,
     exclusive_files: Vec<ExclusiveFile>,
+    /// Keeps the locks on files with pending writes that were taken again for another value, in case
+    /// that value gets dropped.
+    reused_files: HashMap<FileId, File>,
     pending_writes: Vec<PendingWrite>,
     value_renames: Vec<ValueRename>,
 }
@@ -263,6 +266,7 @@ where
         Self {
             handle,
             exclusive_files: Default::default(),
+            reused_files: Default::default(),
             pending_writes: Default::default(),
             value_renames: Default::default(),
         }
@@ -319,6 +323,17 @@ where
     fn get_exclusive_file(&mut self) -> Result<ExclusiveFile> {
         if let Some(ef) = self.exclusive_files.pop() {
             debug!("reusing exclusive file from writer");
+            if let std::collections::hash_map::Entry::Vacant(entry) =
+                self.reused_files.entry(ef.id)
+            {
+                match ef.inner.try_clone() {
+                    Ok(file) => entry.insert(file),
+                    Err(err) => {
+                        self.exclusive_files.push(ef);
+                        return Err(err.into());
+                    }
+                };
+            }
             return Ok(ef);
         }
         self.handle.with_handle(Handle::get_exclusive_file)
-- 
2.43.0


From aeee7e39c92e7c23b7f86999450a3c5a8c821a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:56 +0000
Subject: [PATCH 08/27] fix: wait for short-lived locks when locking values to
 read

---
 src/lib.rs    | 17 ++++++++---------
 src/reader.rs |  5 +++--
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5f8521f..17af10e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -401,21 +401,20 @@ where
             }
             // TODO: On error here, rewind the exclusive to undo any writes that just occurred.
             let work = transaction.commit().context("commit transaction")?;
+            // Readers wait for the locks on the values just committed, and completing might have to
+            // wait for readers.
+            self.reused_files.clear();
+            for ef in &mut self.exclusive_files {
+                ef.committed().unwrap();
+            }
             work.complete();
             anyhow::Ok(write_commit_res)
         })?;
-        self.flush_exclusive_files();
+        self.return_exclusive_files_to_handle();
         Ok(write_commit_res)
     }
 
-    /// Flush Writer's exclusive files and return them to the Handle pool.
-    fn flush_exclusive_files(&mut self) {
-        for ef in &mut self.exclusive_files {
-            ef.committed().unwrap();
-        }
-        self.return_exclusive_files_to_handle()
-    }
-
+    /// Return Writer's exclusive files to the Handle pool.
     fn return_exclusive_files_to_handle(&mut self) {
         // When we're flocking, we can't have writers and readers at the same time and still be
         // able to punch values asynchronously.
diff --git a/src/reader.rs b/src/reader.rs
index 9087e59..e13592c 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -175,12 +175,13 @@ where
         // This might require a conditional var if it's used everywhere
         #[cfg(not(windows))]
         if flocking() {
-            // Possibly we want to block if we're flocking.
             assert!(file.flock(LockShared)?);
             return Ok(());
         }
         for extent in read_extents {
-            assert!(file.lock_segment(LockSharedNonblock, Some(extent.len), extent.offset)?);
+            // The lock of a writer that just committed, or of a value puncher looking at the file,
+            // could still be there for a moment.
+            assert!(file.lock_segment(LockShared, Some(extent.len), extent.offset)?);
         }
         Ok(())
     }
-- 
2.43.0


From feb7f49f79ea58182eb9e6d8f93e41b379a7a739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:28 +0000
Subject: [PATCH 09/27] fix: root cause of plain I/O errors

---
 src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 7fa376d..7f74be0 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -47,8 +47,8 @@ impl Error {
         match self {
             NoSuchKey | UnsupportedFilesystem => self,
             Sqlite(inner) => inner,
+            Io(inner) => inner,
             Anyhow(inner) => inner.root_cause(),
-            _ => unimplemented!(),
         }
     }
 
-- 
2.43.0


From 7d35c3204fbbc9cfcda27bdee07826823842c88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:28 +0000
Subject: [PATCH 10/27] fix: report errors preparing list statements

---
 src/tx.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/tx.rs b/src/tx.rs
index f78949c..fa7f2e1 100644
--- a/src/tx.rs
+++ b/src/tx.rs
@@ -139,8 +139,7 @@ fn list_items_inner(
     sql: &str,
     params: impl rusqlite::Params,
 ) -> PubResult<Vec<Item>> {
-    tx.prepare_cached_readonly(sql)
-        .unwrap()
+    tx.prepare_cached_readonly(sql)?
         .query_map(params, |row| {
             Ok(Item {
                 value: Value::from_row(row)?,
-- 
2.43.0


From 36a16708b3891bbe09deff1511f1959dd9c1ec1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:28 +0000
Subject: [PATCH 11/27] fix: don't panic if unlocking committed values fails

---
 src/lib.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 17af10e..22c1208 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -404,9 +404,14 @@ where
             // Readers wait for the locks on the values just committed, and completing might have to
             // wait for readers.
             self.reused_files.clear();
-            for ef in &mut self.exclusive_files {
-                ef.committed().unwrap();
-            }
+            self.exclusive_files.retain_mut(|ef| match ef.committed() {
+                Ok(true) => true,
+                // The values are committed. Closing the file gives up the locks on them too.
+                res => {
+                    error!("not reusing exclusive file {} after {:?}", ef.id, res);
+                    false
+                }
+            });
             work.complete();
             anyhow::Ok(write_commit_res)
         })?;
-- 
2.43.0


From 77d3049dfa36a144ab358fa0bfed2a5b7fec61e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:02 +0000
Subject: [PATCH 12/27] fix: don't stop the value puncher if a values file to
 remove is gone

---
 src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 22c1208..ea84b02 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -885,7 +885,11 @@ fn punch_value(opts: PunchValueOptions) -> Result<bool> {
                     // I think it's okay to remove and truncate files if cloning doesn't use locks,
                     // because there are no values in this file to clone.
                     if offset == 0 && allow_remove {
-                        remove_file(file_path).context("removing value file")?;
+                        match remove_file(file_path) {
+                            // Another value puncher got here first.
+                            Err(err) if err.kind() == ErrorKind::NotFound => {}
+                            default => default.context("removing value file")?,
+                        }
                         return Ok(true);
                     } else if allow_truncate {
                         file.set_len(offset as u64)?;
-- 
2.43.0


From 711aef447e6c37c96021de1f3e382f8c22e7792d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:38 +0000
Subject: [PATCH 13/27] fix: keep the value puncher going after errors

---
 src/handle.rs | 57 +++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 42 insertions(+), 15 deletions(-)

diff --git a/src/handle.rs b/src/handle.rs
index c7f3701..a806153 100644
--- a/src/handle.rs
+++ b/src/handle.rs
@@ -336,12 +336,15 @@ impl Handle {
     ) -> Result<()> {
         let manifest_path = dir.path().join(MANIFEST_DB_FILE_NAME);
         use rusqlite::OpenFlags;
-        let mut conn = Connection::open_with_flags(
-            manifest_path,
-            OpenFlags::SQLITE_OPEN_READ_ONLY
-                | OpenFlags::SQLITE_OPEN_NO_MUTEX
-                | OpenFlags::SQLITE_OPEN_URI,
-        )?;
+        let open_conn = || {
+            Connection::open_with_flags(
+                &manifest_path,
+                OpenFlags::SQLITE_OPEN_READ_ONLY
+                    | OpenFlags::SQLITE_OPEN_NO_MUTEX
+                    | OpenFlags::SQLITE_OPEN_URI,
+            )
+        };
+        let mut conn_opt = open_conn().ok();
         const RETRY_DURATION: Duration = Duration::from_secs(1);
         let mut pending_values: Vec<_> = Default::default();
         let mut values_receiver_opt = Some(values_receiver);
@@ -374,7 +377,19 @@ impl Handle {
                     std::thread::sleep(RETRY_DURATION);
                 }
             }
-            pending_values = Self::punch_values(&dir, pending_values, &mut conn)?;
+            let conn = match &mut conn_opt {
+                Some(conn) => conn,
+                None => match open_conn() {
+                    Ok(conn) => conn_opt.insert(conn),
+                    // The values can wait as long as the Handle is there.
+                    Err(err) if values_receiver_opt.is_some() => {
+                        error!("opening value puncher connection: {err:?}");
+                        continue;
+                    }
+                    Err(err) => return Err(err.into()),
+                },
+            };
+            pending_values = Self::punch_values(&dir, pending_values, conn);
             debug_assert_ne!(conn.transaction_state(None)?, TransactionState::Write);
         }
         Ok(())
@@ -386,7 +401,7 @@ impl Handle {
         dir: &Dir,
         values: Vec<NonzeroValueLocation>,
         conn: &mut Connection,
-    ) -> PubResult<Vec<NonzeroValueLocation>> {
+    ) -> Vec<NonzeroValueLocation> {
         let mut failed = Vec::with_capacity(values.len());
         for v in values {
             let NonzeroValueLocation {
@@ -401,7 +416,7 @@ impl Handle {
             );
             debug!("{}", msg);
             // self.handle.clones.lock().unwrap().remove(&file_id);
-            if !punch_value(PunchValueOptions {
+            match punch_value(PunchValueOptions {
                 dir: dir.path(),
                 file_id,
                 offset: *file_offset,
@@ -409,13 +424,23 @@ impl Handle {
                 conn,
                 block_size: dir.block_size(),
                 constraints: Default::default(),
-            })
-            .context(msg)?
-            {
-                failed.push(v);
+            }) {
+                Ok(true) => {}
+                Ok(false) => failed.push(v),
+                Err(err) => {
+                    error!("{msg}: {err:?}");
+                    let unsupported = err
+                        .root_cause()
+                        .downcast_ref::<io::Error>()
+                        .is_some_and(|err| err.kind() == ErrorKind::Unsupported);
+                    // Other errors might not be there next time.
+                    if !unsupported {
+                        failed.push(v);
+                    }
+                }
             }
         }
-        Ok(failed)
+        failed
     }
 
     pub(crate) fn send_values_for_delete(&self, values: Vec<NonzeroValueLocation>) {
@@ -428,7 +453,9 @@ impl Handle {
             }
             Err(Full(values)) => {
                 warn!("channel full while sending values. blocking.");
-                sender.send(values).unwrap()
+                if let Err(err) = sender.send(values) {
+                    error!("sending {:?}: channel disconnected", err.0);
+                }
             }
         }
     }
-- 
2.43.0


From e2eb090d350b797d7793123fce33b4f3abeee398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:22 +0000
Subject: [PATCH 14/27] fix: finish switching the manifest to WAL if that was
 interrupted

---
 src/handle.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/handle.rs b/src/handle.rs
index a806153..e3d49cb 100644
--- a/src/handle.rs
+++ b/src/handle.rs
@@ -151,6 +151,9 @@ impl Handle {
         let user_version: ManifestUserVersion = get_user_version(conn)?;
         // I'm not sure about the greater than case. Should we return an error?
         if user_version >= Self::USER_VERSION {
+            // Whoever initialized the database could have died before getting to this. It does
+            // nothing if WAL is already set.
+            Self::retry_while_busy(|| conn.pragma_update(None, "journal_mode", "wal"))?;
             return Ok(());
         }
         // This initialization/upgrade process doesn't seem to be safe to perform when there's
-- 
2.43.0


From 5cae27007ccda5105972908ce693fb564fd4b5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:38 +0000
Subject: [PATCH 15/27] fix: don't clean up snapshots that are being taken, or
 trip over ones that go away

---
 src/handle.rs |  2 ++
 src/walk.rs   | 13 ++++++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/handle.rs b/src/handle.rs
index e3d49cb..2d00525 100644
--- a/src/handle.rs
+++ b/src/handle.rs
@@ -208,6 +208,8 @@ impl Handle {
     }
 
     pub fn cleanup_snapshots(&self) -> PubResult<()> {
+        // Readers hold a write transaction until they have locked their snapshot files.
+        let _tx = self.start_immediate_transaction()?;
         delete_unused_snapshots(self.dir.path()).map_err(Into::into)
     }
 
diff --git a/src/walk.rs b/src/walk.rs
index 2808e21..9052f3a 100644
--- a/src/walk.rs
+++ b/src/walk.rs
@@ -52,6 +52,12 @@ impl TryFrom<&StdDirEntry> for DirEntry {
     }
 }
 
+fn is_not_found(err: &anyhow::Error) -> bool {
+    err.root_cause()
+        .downcast_ref::<io::Error>()
+        .is_some_and(|err| err.kind() == ErrorKind::NotFound)
+}
+
 pub fn walk_dir<P>(dir: P) -> Result<Vec<Entry>>
 where
     P: AsRef<Path>,
@@ -68,7 +74,12 @@ where
         } else if file_name.starts_with(VALUES_FILE_NAME_PREFIX) && file_type.is_file() {
             ValuesFile
         } else if file_name.starts_with(SNAPSHOT_DIR_NAME_PREFIX) && file_type.is_dir() {
-            ok.extend(walk_snapshot_dir(std_entry.path())?);
+            match walk_snapshot_dir(std_entry.path()) {
+                Ok(entries) => ok.extend(entries),
+                // Snapshots come and go.
+                Err(err) if is_not_found(&err) => continue,
+                Err(err) => return Err(err),
+            }
             SnapshotDir
         } else {
             Unknown
-- 
2.43.0


From 1cf19702e88b7ebd2de0d9c103d3f26241c72013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:39 +0000
Subject: [PATCH 16/27] fix: don't panic if a failed copy can't be reverted at
 once

---
 src/lib.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ea84b02..5ad8c85 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -170,6 +170,7 @@ where
         Ok(ValueWriter {
             exclusive_file,
             value_file_offset: 0,
+            revert_to: None,
         })
     }
 
@@ -188,6 +189,7 @@ where
         Ok(ValueWriter {
             value_file_offset: exclusive_file.next_write_offset()?,
             exclusive_file,
+            revert_to: None,
         })
     }
 }
@@ -197,6 +199,8 @@ where
 pub struct ValueWriter {
     exclusive_file: ExclusiveFile,
     value_file_offset: u64,
+    /// Set if what a failed copy wrote is still to be removed.
+    revert_to: Option<u64>,
 }
 
 impl ValueWriter {
@@ -205,28 +209,40 @@ impl ValueWriter {
     }
 
     pub fn copy_from(&mut self, mut value: impl Read) -> PubResult<u64> {
+        self.revert_failed_copy()?;
         let value_file_offset = self.exclusive_file.next_write_offset()?;
         let value_length = match std::io::copy(&mut value, &mut self.exclusive_file.inner) {
             Ok(ok) => ok,
             Err(err) => {
                 // The file is in append mode, so seeking back isn't enough: What was copied would
                 // remain, and be taken for part of the value.
-                self.exclusive_file
-                    .revert_to_offset(value_file_offset)
-                    .expect("should rewind failed copy");
+                self.revert_to = Some(value_file_offset);
+                if let Err(err) = self.revert_failed_copy() {
+                    error!("error reverting failed copy: {:#?}", err);
+                }
                 return Err(err.into());
             }
         };
         Ok(value_length)
     }
 
+    fn revert_failed_copy(&mut self) -> io::Result<()> {
+        if let Some(offset) = self.revert_to {
+            self.exclusive_file.revert_to_offset(offset)?;
+            self.revert_to = None;
+        }
+        Ok(())
+    }
+
     pub fn value_length(&mut self) -> io::Result<u64> {
+        self.revert_failed_copy()?;
         Ok(self.exclusive_file.next_write_offset()? - self.value_file_offset)
     }
 }
 
 impl Write for ValueWriter {
     fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
+        self.revert_failed_copy()?;
         let file = &mut self.exclusive_file.inner;
         file.write(buf)
     }
-- 
2.43.0


From a44c5b813fa7238fd15b0ae18ff4d3cee33aa97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:06 +0000
Subject: [PATCH 17/27] fix: treat a cloned file as uncommitted until its value
 is committed

Its lock only began where the clone ended, and dropping a value whose length
could not be determined panicked reverting it.
---
 src/exclusive_file.rs | 25 ++++++++++++++++++++-----
 src/lib.rs            |  2 +-
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/exclusive_file.rs b/src/exclusive_file.rs
index c6436e8..4e1a614 100644
--- a/src/exclusive_file.rs
+++ b/src/exclusive_file.rs
@@ -26,7 +26,15 @@ pub(crate) struct ExclusiveFile {
 impl ExclusiveFile {
     pub(crate) fn open(path: PathBuf) -> Result<Option<Self>> {
         let file = Self::new_open_options().open(&path)?;
-        Self::from_file(file, path.file_name().context("file name")?.try_into()?)
+        let id = path.file_name().context("file name")?.try_into()?;
+        Self::from_file(file, id, None)
+    }
+
+    /// Opens a file in which nothing is committed yet, whatever it contains.
+    pub(crate) fn open_uncommitted(path: PathBuf) -> Result<Option<Self>> {
+        let file = Self::new_open_options().open(&path)?;
+        let id = path.file_name().context("file name")?.try_into()?;
+        Self::from_file(file, id, Some(0))
     }
 
     fn new_open_options() -> OpenOptions {
@@ -61,23 +69,30 @@ impl ExclusiveFile {
                 Ok(file) => file,
                 Err(err) => return Err(err.into()),
             };
-            if let Some(exclusive_file) = Self::from_file(file, id)? {
+            if let Some(exclusive_file) = Self::from_file(file, id, None)? {
                 return Ok(exclusive_file);
             }
         }
         bail!("gave up trying to create exclusive file")
     }
 
-    pub(crate) fn from_file(mut file: File, id: FileId) -> anyhow::Result<Option<ExclusiveFile>> {
+    /// Writing continues at the end of the file. What's there is committed, or only up to the given
+    /// offset.
+    pub(crate) fn from_file(
+        mut file: File,
+        id: FileId,
+        last_committed_offset: Option<u64>,
+    ) -> anyhow::Result<Option<ExclusiveFile>> {
         let end = file.seek(End(0))?;
-        if !file.lock_segment(LockExclusiveNonblock, None, end)? {
+        let last_committed_offset = last_committed_offset.unwrap_or(end);
+        if !file.lock_segment(LockExclusiveNonblock, None, last_committed_offset)? {
             return Ok(None);
         }
         file.set_sparse(true)?;
         Ok(Some(ExclusiveFile {
             inner: file,
             id,
-            last_committed_offset: end,
+            last_committed_offset,
             lock_level: Exclusive,
         }))
     }
diff --git a/src/lib.rs b/src/lib.rs
index 5ad8c85..d1a7469 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -166,7 +166,7 @@ where
         // Should we delete this file if we fail to open it exclusively? I think it is possible that
         // someone else could open it before us. In that case we probably want to punch out the part
         // we cloned and move on.
-        let exclusive_file = ExclusiveFile::open(dst_path)?.unwrap();
+        let exclusive_file = ExclusiveFile::open_uncommitted(dst_path)?.unwrap();
         Ok(ValueWriter {
             exclusive_file,
             value_file_offset: 0,
-- 
2.43.0


From abda4042c23d4b3c8d367c8508931169f550bb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:13 +0000
Subject: [PATCH 18/27] Scheduling point before locking mutexes, with --cfg
 possum_sim only

---
 src/concurrency/sync.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/concurrency/sync.rs b/src/concurrency/sync.rs
index 9675087..1adf18a 100644
--- a/src/concurrency/sync.rs
+++ b/src/concurrency/sync.rs
@@ -34,8 +34,25 @@ pub struct Mutex<T>(InnerMutex<T>);
 
 unsafe impl<T> StableDeref for MutexGuard<'_, T> {}
 
+// With --cfg possum_sim, a simulator that the crate is linked into decides which thread goes on when
+// a mutex is about to be locked.
+#[allow(unexpected_cfgs)]
+mod sim {
+    #[inline(always)]
+    pub(super) fn before_lock() {
+        #[cfg(possum_sim)]
+        {
+            extern "C" {
+                fn possum_sim_yield();
+            }
+            unsafe { possum_sim_yield() }
+        }
+    }
+}
+
 impl<T> Mutex<T> {
     pub fn lock(&self) -> LockResult<MutexGuard<T>> {
+        sim::before_lock();
         // This is super dumb. There's a map_result in std::sync::poison that I can't get at that
         // does the same thing I think.
         match self.0.lock() {
-- 
2.43.0


From 45d78aa050d67e80acc2ee2beb9818db665cacc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:33 +0000
Subject: [PATCH 19/27] fix: don't clean up snapshots without the write lock

---
 src/handle.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/handle.rs b/src/handle.rs
index 2d00525..339276c 100644
--- a/src/handle.rs
+++ b/src/handle.rs
@@ -209,7 +209,14 @@ impl Handle {
 
     pub fn cleanup_snapshots(&self) -> PubResult<()> {
         // Readers hold a write transaction until they have locked their snapshot files.
-        let _tx = self.start_immediate_transaction()?;
+        let tx = self.start_immediate_transaction()?;
+        // Beginning one does not exclude them if SQLite could open the manifest only to read.
+        let conn = tx.readonly_transaction();
+        if conn.is_readonly(rusqlite::DatabaseName::Main)? {
+            let err = rusqlite::ffi::Error::new(rusqlite::ffi::SQLITE_READONLY);
+            let msg = "attempt to write a readonly database".to_owned();
+            return Err(rusqlite::Error::SqliteFailure(err, Some(msg)).into());
+        }
         delete_unused_snapshots(self.dir.path()).map_err(Into::into)
     }
 
-- 
2.43.0


From d7905c67753d15f2b91c942267a38b91a0b82534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:40 +0000
Subject: [PATCH 20/27] fix: don't report the rest of a file as a hole if it
 changes between two seeks

---
 src/sys/seekhole/mod.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/sys/seekhole/mod.rs b/src/sys/seekhole/mod.rs
index fba6956..f6df736 100644
--- a/src/sys/seekhole/mod.rs
+++ b/src/sys/seekhole/mod.rs
@@ -79,7 +79,9 @@ impl Iterator for Iter<'_> {
     fn next(&mut self) -> Option<Self::Item> {
         let first_whence = !self.last_whence;
         let mut whence = first_whence;
-        // This only runs twice. Once with each whence, starting with the one we didn't try last.
+        let mut more_data = true;
+        // This runs once with each whence, starting with the one we didn't try last. If both are
+        // stuck while there's still data, the file changed in between and we have to look again.
         loop {
             match seek_hole_whence(self.file, self.offset, whence) {
                 Ok(Some(offset)) if offset != self.offset => {
@@ -93,10 +95,14 @@ impl Iterator for Iter<'_> {
                     return Some(Ok(region));
                 }
                 Err(err) => return Some(Err(err)),
-                Ok(None | Some(_)) => {}
+                Ok(stuck) => {
+                    if whence == Data {
+                        more_data = stuck.is_some();
+                    }
+                }
             }
             whence = !whence;
-            if whence == first_whence {
+            if whence == first_whence && !more_data {
                 break;
             }
         }
-- 
2.43.0


From ced49cc4da58cd4efcd08ca7c9047c4b9ec38eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:40 +0000
Subject: [PATCH 21/27] fix: end the walk over regions if the file was
 truncated below it

---
 src/sys/seekhole/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sys/seekhole/mod.rs b/src/sys/seekhole/mod.rs
index f6df736..4da4b46 100644
--- a/src/sys/seekhole/mod.rs
+++ b/src/sys/seekhole/mod.rs
@@ -112,7 +112,7 @@ impl Iterator for Iter<'_> {
         match self.file.seek(End(0)) {
             Err(err) => Some(Err(err)),
             Ok(offset) => {
-                if offset == self.offset {
+                if offset <= self.offset {
                     None
                 } else {
                     let region = Region {
-- 
2.43.0


From 81f6efb4f79ce48b5b8d166bc35a706fa3060ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:17 +0000
Subject: [PATCH 22/27] fix: accept empty buffers with a null pointer in the C
 API

---
 src/c_api/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/c_api/mod.rs b/src/c_api/mod.rs
index 8c9a250..58508f7 100644
--- a/src/c_api/mod.rs
+++ b/src/c_api/mod.rs
@@ -17,6 +17,10 @@ use super::*;
 
 impl AsRef<[u8]> for PossumBuf {
     fn as_ref(&self) -> &[u8] {
+        // Empty buffers may come with a null pointer, which slices can't have.
+        if self.ptr.is_null() {
+            return &[];
+        }
         let ptr = self.ptr as _;
         unsafe { slice::from_raw_parts(ptr, self.size) }
     }
@@ -24,6 +28,9 @@ impl AsRef<[u8]> for PossumBuf {
 
 impl PossumBuf {
     fn as_mut_slice(&mut self) -> &mut [u8] {
+        if self.ptr.is_null() {
+            return &mut [];
+        }
         let ptr = self.ptr as *mut u8;
         unsafe { slice::from_raw_parts_mut(ptr, self.size) }
     }
-- 
2.43.0


From 9f8c1b5e795e681aabbac3d8d557bfad37ffa0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:47 +0000
Subject: [PATCH 23/27] fix: no bytes were read if reading fails (Go binding)

---
 go/cpossum/c-possum.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/go/cpossum/c-possum.go b/go/cpossum/c-possum.go
index f86c142..382bad7 100644
--- a/go/cpossum/c-possum.go
+++ b/go/cpossum/c-possum.go
@@ -154,7 +154,9 @@ func SingleReadAt(handle *Handle, key string, buf []byte, offset uint64) (n int,
 		&pBuf,
 		C.uint64_t(offset),
 	))
-	n = int(pBuf.size)
+	if err == nil {
+		n = int(pBuf.size)
+	}
 	return
 }
 
@@ -211,7 +213,9 @@ func ValueReadAt(v Value, buf []byte, offset int64) (n int, err error) {
 	defer pin.Unpin()
 	pin.Pin(pBuf.ptr)
 	err = mapError(C.possum_value_read_at(v, &pBuf, C.uint64_t(offset)))
-	n = int(pBuf.size)
+	if err == nil {
+		n = int(pBuf.size)
+	}
 	return
 }
 
-- 
2.43.0


From 049cc83b05c44f5b2165f4beb1bddc75211b2c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:31 +0000
Subject: [PATCH 24/27] fix: never reuse the name of an existing values file

---
 src/exclusive_file.rs    | 4 +++-
 src/sys/clonefile/sys.rs | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/exclusive_file.rs b/src/exclusive_file.rs
index 4e1a614..010b29a 100644
--- a/src/exclusive_file.rs
+++ b/src/exclusive_file.rs
@@ -64,9 +64,11 @@ impl ExclusiveFile {
             let id = FileId::random();
             let path = dir.as_ref().join(id.values_file_path());
             debug!(?path, "opening new exclusive file");
-            let file = Self::new_open_options().create(true).open(path);
+            let file = Self::new_open_options().create_new(true).open(path);
             let file = match file {
                 Ok(file) => file,
+                // The file belongs to someone else, whether or not they have it locked.
+                Err(err) if err.is_file_already_exists() => continue,
                 Err(err) => return Err(err.into()),
             };
             if let Some(exclusive_file) = Self::from_file(file, id, None)? {
diff --git a/src/sys/clonefile/sys.rs b/src/sys/clonefile/sys.rs
index 6cb3a6a..aedc26a 100644
--- a/src/sys/clonefile/sys.rs
+++ b/src/sys/clonefile/sys.rs
@@ -104,8 +104,8 @@ pub fn fclonefile_noflags(src_file: &File, dst_path: &Path) -> Result<(), Native
             )}?;
             Ok(())
         } else if #[cfg(target_os = "linux")] {
-            // Should this be exclusive create?
-            let dst_file = File::create(dst_path)?;
+            // An existing file must not be overwritten, just as the native clone functions don't.
+            let dst_file = File::create_new(dst_path)?;
             let src_fd = src_file.as_raw_fd();
             let dst_fd = dst_file.as_raw_fd();
             // Is this because the musl bindings are wrong?
-- 
2.43.0


From eb3f1d013f8c0d4ba3efc039a4c4446f234679a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:31 +0000
Subject: [PATCH 25/27] fix: remove what a failed copy wrote before giving out
 the file

---
 src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.rs b/src/lib.rs
index d1a7469..d06f1b3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -205,6 +205,7 @@ pub struct ValueWriter {
 
 impl ValueWriter {
     pub fn get_file(&mut self) -> Result<&mut File> {
+        self.revert_failed_copy()?;
         Ok(&mut self.exclusive_file.inner)
     }
 
-- 
2.43.0


From 83a063b2ae4580a3bc63de31d7c2608faf7a6b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:28 +0000
Subject: [PATCH 26/27] fix: open the manifest again if someone else
 initialized it meanwhile

---
 src/handle.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/handle.rs b/src/handle.rs
index 339276c..f68f1b5 100644
--- a/src/handle.rs
+++ b/src/handle.rs
@@ -104,8 +104,12 @@ impl Handle {
             );
         }
         let dir = Dir::new(dir).context("new Dir")?;
-        let mut conn = Connection::open(dir.path().join(MANIFEST_DB_FILE_NAME))?;
-        Self::init_sqlite_conn(&mut conn, &dir)?;
+        let conn = loop {
+            let mut conn = Connection::open(dir.path().join(MANIFEST_DB_FILE_NAME))?;
+            if Self::init_sqlite_conn(&mut conn, &dir)? {
+                break conn;
+            }
+        };
         let (deleted_values, receiver) = sync::mpsc::sync_channel(10);
         let (value_puncher_done_sender, value_puncher_done) = sync::mpsc::sync_channel(0);
         let value_puncher_done = ValuePuncherDone(Arc::new(Mutex::new(value_puncher_done)));
@@ -142,7 +146,9 @@ impl Handle {
         }
     }
 
-    fn init_sqlite_conn(conn: &mut Connection, dir: &Dir) -> anyhow::Result<()> {
+    /// Returns false if the database was initialized by someone else meanwhile, and has to be opened
+    /// again.
+    fn init_sqlite_conn(conn: &mut Connection, dir: &Dir) -> anyhow::Result<bool> {
         Self::retry_while_busy(|| conn.pragma_update(None, "synchronous", "off"))?;
 
         let get_user_version = |conn: &Connection| -> Result<ManifestUserVersion, _> {
@@ -154,7 +160,7 @@ impl Handle {
             // Whoever initialized the database could have died before getting to this. It does
             // nothing if WAL is already set.
             Self::retry_while_busy(|| conn.pragma_update(None, "journal_mode", "wal"))?;
-            return Ok(());
+            return Ok(true);
         }
         // This initialization/upgrade process doesn't seem to be safe to perform when there's
         // multiple connections to a database. To avoid issues upgrading databases, you might want
@@ -178,6 +184,9 @@ impl Handle {
             // It might be possible special case doing this from user_version=0 (a brand new database).
             init_manifest_schema(conn)?;
             conn.pragma_update(None, "user_version", Self::USER_VERSION)?;
+        } else {
+            // If they set WAL too, this connection can't return to normal locking mode.
+            return Ok(false);
         }
         let mode: String =
             conn.pragma_update_and_check(None, "locking_mode", "normal", |row| row.get(0))?;
@@ -186,7 +195,7 @@ impl Handle {
         // make the change, so now is a good time to set the journal mode. I think if WAL is already
         // set, this doesn't change the locking_mode.
         conn.pragma_update(None, "journal_mode", "wal")?;
-        Ok(())
+        Ok(true)
     }
 
     /// Delete all values files, ensuring they're not in use first.
-- 
2.43.0


From 155eea3ff91a3465e6fb42ef787f334486c2230d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:24 +0000
Subject: [PATCH 27/27] fix: don't punch missing holes out of snapshots being
 read

---
 src/main.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 14a52fd..ccc8f95 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -5,7 +5,7 @@ use std::path::{Path, PathBuf};
 
 use anyhow::{anyhow, bail, Context};
 use itertools::Itertools;
-use log::info;
+use log::{info, warn};
 use possum::sys::seekhole::{file_regions, Region, RegionType};
 use possum::sys::{punchfile, FileLocking, SparseFile};
 use possum::*;
@@ -177,6 +177,20 @@ fn main() -> anyhow::Result<()> {
                                 if length == 0 {
                                     continue;
                                 }
+                                // Snapshots lock what they read of values that are gone.
+                                if !file.lock_segment(
+                                    possum::sys::LockExclusiveNonblock,
+                                    Some(length),
+                                    start,
+                                )? {
+                                    warn!(
+                                        "{}: {}-{} is locked",
+                                        &values_file_entry.path.display(),
+                                        start,
+                                        start + length,
+                                    );
+                                    continue;
+                                }
                                 println!(
                                     "{}: {}-{} (length {}, block_size mod {})",
                                     &values_file_entry.path.display(),
-- 
2.43.0

