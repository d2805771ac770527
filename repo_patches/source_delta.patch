From de6e61ee4c22cc883d262e2ecd74009185e90011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:38 +0000
Subject: [PATCH 01/21] fix: reopen an existing global state database

Opening a database for the second time failed on the unconditional insertion
of the initial layer; had it not, the next layer would have taken the id of
the last committed one, with the wrong fingerprint seed, and the rows of
layers left incomplete by a crash would have blocked their ids forever.
---
 crates/host/state/src/storage.rs | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/crates/host/state/src/storage.rs b/crates/host/state/src/storage.rs
index 71a8ce3..9620080 100644
--- a/crates/host/state/src/storage.rs
+++ b/crates/host/state/src/storage.rs
@@ -68,23 +68,32 @@ impl Storage {
     async fn new_with_pool(sqlite: Pool<Sqlite>) -> Result<Self> {
         sqlx::query(SQL_SCHEMA).execute(&sqlite).await?;
 
-        let next_layer_id = max_layer_id(&sqlite).await?;
-
-        let storage = Self {
+        let mut storage = Self {
             sqlite,
             dirty_changes: HashMap::new(),
             next_layer: NextLayer {
-                id: next_layer_id.unwrap_or(INITIAL_LAYER_ID + 1),
+                id: INITIAL_LAYER_ID + 1,
                 changes: HashMap::new(),
                 changes_xor_fingerprint: INITIAL_LAYER_STATE,
             },
         };
-        storage
-            .insert_layer(INITIAL_LAYER_ID, INITIAL_LAYER_STATE, true)
-            .await?;
 
         storage.delete_bad_layers().await?;
 
+        // Only complete layers are left at this point.
+        match max_layer_id(&storage.sqlite).await? {
+            None => {
+                storage
+                    .insert_layer(INITIAL_LAYER_ID, INITIAL_LAYER_STATE, true)
+                    .await?
+            }
+            Some(INITIAL_LAYER_ID) => {}
+            Some(last_layer_id) => {
+                storage.next_layer.id = last_layer_id + 1;
+                storage.next_layer.changes_xor_fingerprint = STATE_ONES;
+            }
+        }
+
         Ok(storage)
     }
 
@@ -114,6 +123,15 @@ impl Storage {
         .await?
         .rows_affected();
 
+        sqlx::query(
+            r#"
+            DELETE FROM "layers"
+            WHERE "complete" = 0
+            "#,
+        )
+        .execute(&self.sqlite)
+        .await?;
+
         if count_rows > 0 {
             tracing::warn!(
                 affected_rows = count_rows,
-- 
2.43.0


From d5f01b34ef863a9b5e36c96bc421d5a196339657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:38 +0000
Subject: [PATCH 02/21] fix: never read values of incomplete layers

The join between values and layers had no condition relating the two tables,
so the completeness check was satisfied by any other complete layer.
---
 crates/host/state/src/storage.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/host/state/src/storage.rs b/crates/host/state/src/storage.rs
index 9620080..967ecfc 100644
--- a/crates/host/state/src/storage.rs
+++ b/crates/host/state/src/storage.rs
@@ -197,6 +197,8 @@ impl Storage {
                 SELECT "value"
                 FROM "values"
                 INNER JOIN "layers" ON
+                    "layers"."id" = "values"."layer_id"
+                    AND
                     "complete" = 1
                     AND
                     "key_hash" = ?1
@@ -218,6 +220,8 @@ impl Storage {
             SELECT "value"
             FROM "values"
             INNER JOIN "layers" ON
+                "layers"."id" = "values"."layer_id"
+                AND
                 "layer_id" <= ?1
                 AND
                 "complete" = 1
-- 
2.43.0


From 01d2e95af380614b1d31412b867185e8c1dbc5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:38 +0000
Subject: [PATCH 03/21] fix: read account variables as of the queried layer

The historical query parameter is documented to control all read operations,
but variables were always read at their latest value.
---
 crates/host/state/src/account_storage.rs | 2 +-
 crates/host/state/src/global_state.rs    | 9 +++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/host/state/src/account_storage.rs b/crates/host/state/src/account_storage.rs
index e310a74..9658282 100644
--- a/crates/host/state/src/account_storage.rs
+++ b/crates/host/state/src/account_storage.rs
@@ -133,7 +133,7 @@ impl AccountStorage {
             let bytes: [u8; SEGMENT_SIZE] = self
                 .gs
                 .storage()
-                .get(segment.key.as_bytes(), None)
+                .get(segment.key.as_bytes(), self.gs.layer_query_id())
                 .await?
                 .unwrap_or(vec![0; SEGMENT_SIZE])
                 .try_into()
diff --git a/crates/host/state/src/global_state.rs b/crates/host/state/src/global_state.rs
index fbeb9c4..2def0ea 100644
--- a/crates/host/state/src/global_state.rs
+++ b/crates/host/state/src/global_state.rs
@@ -103,6 +103,10 @@ impl GlobalState {
         &mut self.layer_query_parameter
     }
 
+    pub(crate) fn layer_query_id(&self) -> Option<i64> {
+        self.layer_query_parameter.map(|layer| layer.0 as i64)
+    }
+
     // VERSIONING
     // ----------
 
@@ -173,10 +177,7 @@ impl GlobalState {
     {
         let bytes = self
             .storage()
-            .get(
-                key.as_bytes(),
-                self.layer_query_parameter.map(|layer| layer.0 as i64),
-            )
+            .get(key.as_bytes(), self.layer_query_id())
             .await?
             .ok_or(StorageError::NotFound {
                 key_hash: State(Blake3Hasher::hash(key.as_bytes())),
-- 
2.43.0


From ce00e8e3806000a026ad7ff5feab2655d8252ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:38 +0000
Subject: [PATCH 04/21] fix: make the state root depend on the contents

Checkpointing computed the fingerprint of the changes and then dropped it, so
every layer's root was all zeros or all ones.
---
 crates/host/state/src/storage.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/crates/host/state/src/storage.rs b/crates/host/state/src/storage.rs
index 967ecfc..c1550b5 100644
--- a/crates/host/state/src/storage.rs
+++ b/crates/host/state/src/storage.rs
@@ -260,15 +260,30 @@ impl Storage {
 
     pub async fn checkpoint(&mut self) -> Result<()> {
         let mut fingerprint = self.next_layer.changes_xor_fingerprint;
-        let dirty_changes = std::mem::take(&mut self.dirty_changes);
 
-        for change in dirty_changes {
-            let xor = hash_key_value_pair(&change.0, &change.1);
-            xor_fingerprint(&mut fingerprint, &xor);
+        // Every change replaces the contribution of the value that it
+        // overwrites, so that the fingerprint only depends on the contents.
+        for change in &self.dirty_changes {
+            let old_value = match self.next_layer.changes.get(change.0) {
+                Some(value) => Some(value.clone()),
+                None => {
+                    self.get_by_hash_historical(change.0, self.next_layer.id - 1)
+                        .await?
+                }
+            };
+            if let Some(old_value) = old_value {
+                let xor = hash_key_value_pair(change.0, &old_value);
+                xor_fingerprint(&mut fingerprint, &xor);
+            }
 
-            self.next_layer.changes.insert(change.0, change.1);
+            let xor = hash_key_value_pair(change.0, change.1);
+            xor_fingerprint(&mut fingerprint, &xor);
         }
 
+        let dirty_changes = std::mem::take(&mut self.dirty_changes);
+        self.next_layer.changes.extend(dirty_changes);
+        self.next_layer.changes_xor_fingerprint = fingerprint;
+
         Ok(())
     }
 
-- 
2.43.0


From 57162b43245882bcb6097ee12584b3b088481367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:15 +0000
Subject: [PATCH 05/21] fix: commit layers atomically and allow a failed commit
 to be retried

The saved changes were taken out of the storage before anything could fail, and
the rows of a layer were written by independent auto-committed statements: after
any error the layer's changes were gone and its id was blocked by a partial row.
---
 crates/host/state/src/storage.rs | 101 +++++++++++++++++++++----------
 1 file changed, 70 insertions(+), 31 deletions(-)

diff --git a/crates/host/state/src/storage.rs b/crates/host/state/src/storage.rs
index c1550b5..689519c 100644
--- a/crates/host/state/src/storage.rs
+++ b/crates/host/state/src/storage.rs
@@ -11,7 +11,8 @@
 #![deny(dead_code)]
 #![deny(unreachable_code)]
 
-use sqlx::{Pool, Sqlite, SqlitePool};
+use sqlx::sqlite::SqliteExecutor;
+use sqlx::{Pool, Sqlite, SqliteConnection, SqlitePool};
 
 use std::collections::HashMap;
 use std::convert::TryInto;
@@ -83,8 +84,7 @@ impl Storage {
         // Only complete layers are left at this point.
         match max_layer_id(&storage.sqlite).await? {
             None => {
-                storage
-                    .insert_layer(INITIAL_LAYER_ID, INITIAL_LAYER_STATE, true)
+                Self::insert_layer(&storage.sqlite, INITIAL_LAYER_ID, INITIAL_LAYER_STATE, true)
                     .await?
             }
             Some(INITIAL_LAYER_ID) => {}
@@ -293,30 +293,67 @@ impl Storage {
         }
 
         let layer_id = self.next_layer.id;
-        let layer_changes = std::mem::take(&mut self.next_layer.changes);
         let mut fingerprint = self.layer_fingerprint(layer_id - 1, true).await?;
         xor_fingerprint(&mut fingerprint, &self.next_layer.changes_xor_fingerprint);
-        self.insert_layer(layer_id, fingerprint, false).await?;
-
-        // Note: SQLx 0.5 doesn't support bulk inserts. So, we must resort to
-        // "futures" magic instead.
-        let mut inserts = Vec::with_capacity(layer_changes.len());
-        for (key_hash, value) in layer_changes {
-            inserts.push(
-                sqlx::query(
-                    r#"
-                    INSERT INTO "values" ("key_hash", "value", "layer_id")
-                    VALUES (?1, ?2, ?3)
-                    "#,
-                )
-                .bind(key_hash.0.to_vec())
-                .bind(value)
-                .bind(layer_id)
-                .execute(&self.sqlite),
-            );
+
+        // The whole layer is written in a single transaction. In case of
+        // errors nothing is persisted and `self.next_layer` is left untouched,
+        // so that it's possible to try again.
+        let mut conn = self.sqlite.acquire().await?;
+        if let Err(err) = self.write_layer(&mut conn, layer_id, fingerprint).await {
+            match sqlx::query("ROLLBACK").execute(&mut conn).await {
+                Ok(_) => {}
+                // SQLite itself did so already.
+                Err(e) if e.to_string().contains("no transaction is active") => {}
+                // Closing the connection terminates the transaction.
+                Err(_) => drop(conn.detach()),
+            }
+            return Err(err);
         }
 
-        futures::future::try_join_all(inserts).await?;
+        // Reset layer-specific information to default values.
+        self.next_layer.changes.clear();
+        self.next_layer.changes_xor_fingerprint = STATE_ONES;
+        self.next_layer.id += 1;
+
+        Ok((layer_id, fingerprint))
+    }
+
+    async fn write_layer(
+        &self,
+        conn: &mut SqliteConnection,
+        layer_id: i64,
+        fingerprint: State,
+    ) -> Result<()> {
+        sqlx::query("BEGIN IMMEDIATE").execute(&mut *conn).await?;
+
+        // What a previous attempt that reported an error might have persisted
+        // after all.
+        sqlx::query(
+            r#"
+            DELETE FROM "layers"
+            WHERE "id" >= ?1
+            "#,
+        )
+        .bind(layer_id)
+        .execute(&mut *conn)
+        .await?;
+
+        Self::insert_layer(&mut *conn, layer_id, fingerprint, false).await?;
+
+        for (key_hash, value) in &self.next_layer.changes {
+            sqlx::query(
+                r#"
+                INSERT INTO "values" ("key_hash", "value", "layer_id")
+                VALUES (?1, ?2, ?3)
+                "#,
+            )
+            .bind(&key_hash.0[..])
+            .bind(&value[..])
+            .bind(layer_id)
+            .execute(&mut *conn)
+            .await?;
+        }
 
         sqlx::query(
             r#"
@@ -327,14 +364,11 @@ impl Storage {
         )
         .bind(&fingerprint.0[..])
         .bind(layer_id)
-        .execute(&self.sqlite)
+        .execute(&mut *conn)
         .await?;
 
-        // Reset layer-specific information to default values.
-        self.next_layer.changes_xor_fingerprint = STATE_ONES;
-        self.next_layer.id += 1;
-
-        Ok((layer_id, fingerprint))
+        sqlx::query("COMMIT").execute(&mut *conn).await?;
+        Ok(())
     }
 
     pub async fn genesis_fingerprint(&self) -> Result<Option<State>> {
@@ -357,7 +391,12 @@ impl Storage {
     }
 
     /// Creates a new [`State`]-ed layer with the given `id`.
-    async fn insert_layer(&self, id: i64, fingerprint: State, complete: bool) -> Result<()> {
+    async fn insert_layer(
+        conn: impl SqliteExecutor<'_>,
+        id: i64,
+        fingerprint: State,
+        complete: bool,
+    ) -> Result<()> {
         sqlx::query(
             r#"
             INSERT INTO "layers" ("id", "fingerprint", "complete")
@@ -367,7 +406,7 @@ impl Storage {
         .bind(id)
         .bind(&fingerprint.0[..])
         .bind(if complete { 1 } else { 0 })
-        .execute(&self.sqlite)
+        .execute(conn)
         .await?;
         Ok(())
     }
-- 
2.43.0


From 8e9330a69469e6d568f4675198774796f3001f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:15 +0000
Subject: [PATCH 06/21] fix: keep the in-memory database for as long as its
 global state lives

The connection pool closed idle and old connections, and with the last one the
whole database; several connections at once were refused as locked.
---
 crates/host/state/src/storage.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/crates/host/state/src/storage.rs b/crates/host/state/src/storage.rs
index 689519c..9d3b611 100644
--- a/crates/host/state/src/storage.rs
+++ b/crates/host/state/src/storage.rs
@@ -11,7 +11,7 @@
 #![deny(dead_code)]
 #![deny(unreachable_code)]
 
-use sqlx::sqlite::SqliteExecutor;
+use sqlx::sqlite::{SqliteExecutor, SqlitePoolOptions};
 use sqlx::{Pool, Sqlite, SqliteConnection, SqlitePool};
 
 use std::collections::HashMap;
@@ -62,7 +62,18 @@ impl Storage {
     /// The SQLite database may or may not be an empty database. If it's empty,
     /// then it will be initialized with the appropriate schema.
     pub async fn new(sqlite_uri: &str) -> Result<Self> {
-        let sqlite = sqlx::SqlitePool::connect(sqlite_uri).await?;
+        let mut options = SqlitePoolOptions::new();
+        if sqlite_uri == ":memory:" {
+            // The database is gone as soon as the last connection to it is
+            // closed, and connections that share it are refused access to
+            // tables that are in use by each other. A single connection which
+            // is never closed suffers from neither.
+            options = options
+                .max_connections(1)
+                .idle_timeout(None)
+                .max_lifetime(None);
+        }
+        let sqlite = options.connect(sqlite_uri).await?;
         Self::new_with_pool(sqlite).await
     }
 
-- 
2.43.0


From 0d0f99411fc82b57511e067bb1d4cf498ef61731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:15 +0000
Subject: [PATCH 07/21] fix: keep the global state usable after a refused
 operation

A rewind to, or a read from, a layer that doesn't exist panicked with the lock
on the storage held, and every later operation on any handle panicked too.
---
 crates/host/state/src/global_state.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/host/state/src/global_state.rs b/crates/host/state/src/global_state.rs
index 2def0ea..2bb1949 100644
--- a/crates/host/state/src/global_state.rs
+++ b/crates/host/state/src/global_state.rs
@@ -1,4 +1,4 @@
-use std::sync::{Arc, Mutex, MutexGuard};
+use std::sync::{Arc, Mutex, MutexGuard, PoisonError};
 
 use svm_codec::Codec;
 use svm_genesis_config::GenesisConfig;
@@ -166,9 +166,11 @@ impl GlobalState {
     // -----------------------
 
     pub(crate) fn storage(&self) -> MutexGuard<Storage> {
+        // Refused operations (e.g. an invalid layer) panic before changing
+        // anything, so the storage is fine even if that poisoned the lock.
         self.storage
             .lock()
-            .expect("Poisoned lock on global state storage")
+            .unwrap_or_else(PoisonError::into_inner)
     }
 
     pub(crate) async fn read_and_decode<T>(&self, key: &str) -> Result<T>
-- 
2.43.0


From 5765e157aaeaa3cf67ab8135c905b6ffe0cd5ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:22 +0000
Subject: [PATCH 08/21] fix: do not leave the database locked after a failed
 open

---
 crates/host/state/src/storage.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/host/state/src/storage.rs b/crates/host/state/src/storage.rs
index 9d3b611..7966d9a 100644
--- a/crates/host/state/src/storage.rs
+++ b/crates/host/state/src/storage.rs
@@ -74,7 +74,15 @@ impl Storage {
                 .max_lifetime(None);
         }
         let sqlite = options.connect(sqlite_uri).await?;
-        Self::new_with_pool(sqlite).await
+        match Self::new_with_pool(sqlite.clone()).await {
+            Ok(storage) => Ok(storage),
+            Err(err) => {
+                // The connection may have been left in the middle of a
+                // transaction, which would keep the database locked.
+                sqlite.close().await;
+                Err(err)
+            }
+        }
     }
 
     async fn new_with_pool(sqlite: Pool<Sqlite>) -> Result<Self> {
-- 
2.43.0


From 22066f07f174f9233bc61b52b5a51de94fc0255b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:13 +0000
Subject: [PATCH 09/21] fix: do not let a failed rewind delete layers committed
 later

---
 crates/host/state/src/storage.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/crates/host/state/src/storage.rs b/crates/host/state/src/storage.rs
index 7966d9a..b008497 100644
--- a/crates/host/state/src/storage.rs
+++ b/crates/host/state/src/storage.rs
@@ -12,7 +12,7 @@
 #![deny(unreachable_code)]
 
 use sqlx::sqlite::{SqliteExecutor, SqlitePoolOptions};
-use sqlx::{Pool, Sqlite, SqliteConnection, SqlitePool};
+use sqlx::{Connection, Pool, Sqlite, SqliteConnection, SqlitePool};
 
 use std::collections::HashMap;
 use std::convert::TryInto;
@@ -453,15 +453,23 @@ impl Storage {
             return Err(StorageError::DirtyChanges);
         }
 
-        sqlx::query(
+        let mut conn = self.sqlite.acquire().await?;
+        let result = sqlx::query(
             r#"
             DELETE FROM "layers"
             WHERE "id" > ?1
             "#,
         )
         .bind(layer_id)
-        .execute(&self.sqlite)
-        .await?;
+        .execute(&mut conn)
+        .await;
+        if let Err(err) = result {
+            // `sqlx` keeps on executing failed statements in the background for
+            // a little while. Wait for that to end, or it might delete layers
+            // which are yet to be committed.
+            conn.detach().close().await.ok();
+            return Err(err.into());
+        }
 
         // We must now bring `self.next_layer` in a good state.
         self.next_layer.id = layer_id + 1;
-- 
2.43.0


From 2b8fa0b5d5cfbc0feb9ad0a79737a4d9f6267e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:51 +0000
Subject: [PATCH 10/21] fix: encode touched accounts in a well-defined order

The iteration order of a HashSet is random, hence two nodes that executed the
same transaction encoded different receipts.
---
 crates/host/codec/src/receipt/touched_accounts.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/host/codec/src/receipt/touched_accounts.rs b/crates/host/codec/src/receipt/touched_accounts.rs
index 7d5e4cc..1adc7c7 100644
--- a/crates/host/codec/src/receipt/touched_accounts.rs
+++ b/crates/host/codec/src/receipt/touched_accounts.rs
@@ -10,8 +10,12 @@ impl Codec for HashSet<Address> {
     fn encode(&self, w: &mut impl WriteExt) {
         u16::try_from(self.len()).unwrap().encode(w);
 
-        for addr in self.iter() {
-            w.write_bytes(addr.as_slice());
+        // Receipts must not depend on the (random) iteration order.
+        let mut addrs: Vec<&[u8]> = self.iter().map(|addr| addr.as_slice()).collect();
+        addrs.sort_unstable();
+
+        for addr in addrs {
+            w.write_bytes(addr);
         }
     }
 
-- 
2.43.0


From ce4270a179c2bf16950c059878d63c0d78d15611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:10 +0000
Subject: [PATCH 11/21] fix: undo the effects of failed transactions

A failed `spawn` or `call` (and one that panics inside a host function or
upon committing) left its changes pending, and the next successful transaction
committed them.
---
 crates/host/runtime/src/runtime/runtime.rs | 48 ++++++++++++++++++++--
 crates/host/state/src/global_state.rs      | 15 ++++++-
 crates/host/state/src/lib.rs               |  1 +
 crates/host/state/src/storage.rs           | 25 +++++++++++
 4 files changed, 85 insertions(+), 4 deletions(-)

diff --git a/crates/host/runtime/src/runtime/runtime.rs b/crates/host/runtime/src/runtime/runtime.rs
index 53a8f9e..e65ad7e 100644
--- a/crates/host/runtime/src/runtime/runtime.rs
+++ b/crates/host/runtime/src/runtime/runtime.rs
@@ -7,7 +7,7 @@ use std::sync::Arc;
 use svm_codec::Codec;
 use svm_hash::{Blake3Hasher, Hasher};
 use svm_program::Program;
-use svm_state::{AccountStorage, GlobalState, TemplateStorage};
+use svm_state::{AccountStorage, GlobalState, PendingChanges, TemplateStorage};
 use svm_types::{
     Address, BytesPrimitive, CallReceipt, Context, DeployReceipt, Envelope, Gas, GasMode, Layer,
     OOGError, ReceiptLog, RuntimeError, RuntimeFailure, SectionKind, Sections, SpawnAccount,
@@ -651,6 +651,8 @@ impl Runtime {
         let account = spawn.account();
         let target = compute_account_addr(&spawn);
 
+        let undo = UndoGuard::new(&self.gs);
+
         self.create_account(
             &target,
             template_addr.clone(),
@@ -660,7 +662,11 @@ impl Runtime {
         )
         .unwrap();
 
-        self.call_ctor(&spawn, target, envelope, context, gas_left)
+        let receipt = self.call_ctor(&spawn, target, envelope, context, gas_left);
+        if receipt.success {
+            undo.keep_changes();
+        }
+        receipt
     }
 
     /// Verifies a [`Transaction`](svm_types::Transaction) before execution.
@@ -710,7 +716,12 @@ impl Runtime {
             GasTank::new(envelope.gas_limit()),
         );
 
-        self.exec_call::<(), ()>(&call)
+        let undo = UndoGuard::new(&self.gs);
+        let receipt = self.exec_call::<(), ()>(&call);
+        if receipt.success {
+            undo.keep_changes();
+        }
+        receipt
     }
 
     /// Moves the internal state of this [`Runtime`] back to the time of
@@ -792,6 +803,37 @@ impl Runtime {
     }
 }
 
+/// Unless [`UndoGuard::keep_changes`] gets called, it undoes upon [`Drop`] all
+/// changes to the [`GlobalState`] that happened since its creation.
+///
+/// Since it also applies to unwinding, it makes sure that a failed transaction
+/// has no effects even if that's due to a `panic` inside a host function.
+struct UndoGuard {
+    gs: GlobalState,
+    pending: Option<PendingChanges>,
+}
+
+impl UndoGuard {
+    fn new(gs: &GlobalState) -> Self {
+        Self {
+            gs: gs.clone(),
+            pending: Some(gs.pending_changes()),
+        }
+    }
+
+    fn keep_changes(mut self) {
+        self.pending = None;
+    }
+}
+
+impl Drop for UndoGuard {
+    fn drop(&mut self) {
+        if let Some(pending) = self.pending.take() {
+            self.gs.restore_pending_changes(pending);
+        }
+    }
+}
+
 /// Calculates the address of a newly spawned account based on its template.
 pub fn compute_account_addr(spawn: &SpawnAccount) -> Address {
     let template_addr = spawn.template_addr();
diff --git a/crates/host/state/src/global_state.rs b/crates/host/state/src/global_state.rs
index 2bb1949..fc09abb 100644
--- a/crates/host/state/src/global_state.rs
+++ b/crates/host/state/src/global_state.rs
@@ -5,7 +5,7 @@ use svm_genesis_config::GenesisConfig;
 use svm_hash::{Blake3Hasher, Hasher};
 use svm_types::{BytesPrimitive, Layer, State};
 
-use crate::storage::Storage;
+use crate::storage::{PendingChanges, Storage};
 use crate::{StorageError, StorageResult as Result, TemplateStorage};
 
 /// A key-value store with a non-falsifiable state signature, historical data
@@ -162,6 +162,19 @@ impl GlobalState {
         self.storage().has_uncommitted_changes()
     }
 
+    /// Returns a copy of all changes, both dirty and saved, that haven't been
+    /// persisted yet. It allows to undo everything that happens before the
+    /// next [`GlobalState::commit`] or [`GlobalState::rewind`] by means of
+    /// [`GlobalState::restore_pending_changes`].
+    pub fn pending_changes(&self) -> PendingChanges {
+        self.storage().pending_changes()
+    }
+
+    /// Replaces all changes that haven't been persisted yet with `pending`.
+    pub fn restore_pending_changes(&mut self, pending: PendingChanges) {
+        self.storage().restore_pending_changes(pending)
+    }
+
     // GETTER/SETTER UTILITIES
     // -----------------------
 
diff --git a/crates/host/state/src/lib.rs b/crates/host/state/src/lib.rs
index 73cdfdc..29ad53f 100644
--- a/crates/host/state/src/lib.rs
+++ b/crates/host/state/src/lib.rs
@@ -15,4 +15,5 @@ mod template_storage;
 pub use account_storage::AccountStorage;
 pub use error::{StorageError, StorageResult};
 pub use global_state::GlobalState;
+pub use storage::PendingChanges;
 pub use template_storage::TemplateStorage;
diff --git a/crates/host/state/src/storage.rs b/crates/host/state/src/storage.rs
index b008497..2c96333 100644
--- a/crates/host/state/src/storage.rs
+++ b/crates/host/state/src/storage.rs
@@ -37,6 +37,15 @@ const SQL_SCHEMA: &str = include_str!("resources/schema.sql");
 const INITIAL_LAYER_ID: i64 = -2;
 const INITIAL_LAYER_STATE: State = STATE_ZEROS;
 
+/// A copy of the changes, both dirty and saved, that haven't been persisted
+/// yet. See [`Storage::pending_changes`].
+#[derive(Debug, Clone)]
+pub struct PendingChanges {
+    dirty_changes: Changes,
+    changes: Changes,
+    changes_xor_fingerprint: State,
+}
+
 #[derive(Debug)]
 struct NextLayer {
     id: i64,
@@ -484,6 +493,22 @@ impl Storage {
         Ok(())
     }
 
+    /// Returns a copy of all changes that haven't been persisted yet.
+    pub fn pending_changes(&self) -> PendingChanges {
+        PendingChanges {
+            dirty_changes: self.dirty_changes.clone(),
+            changes: self.next_layer.changes.clone(),
+            changes_xor_fingerprint: self.next_layer.changes_xor_fingerprint,
+        }
+    }
+
+    /// Replaces all changes that haven't been persisted yet.
+    pub fn restore_pending_changes(&mut self, pending: PendingChanges) {
+        self.dirty_changes = pending.dirty_changes;
+        self.next_layer.changes = pending.changes;
+        self.next_layer.changes_xor_fingerprint = pending.changes_xor_fingerprint;
+    }
+
     pub(crate) async fn last_layer_id(&self) -> Result<Option<i64>> {
         max_layer_id(&self.sqlite).await
     }
-- 
2.43.0


From b475ee8c2671496308f45be0078230048c6aba38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:10 +0000
Subject: [PATCH 12/21] fix: neither create nor destroy coins when transferring

Transferring coins from an account to itself credited them without debiting
them, and a transfer that would overflow the destination's balance debited the
source before failing.
---
 crates/host/runtime/src/runtime/runtime.rs  | 13 +++++++++++--
 crates/host/runtime/src/vmcalls/transfer.rs | 10 ++++++----
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/crates/host/runtime/src/runtime/runtime.rs b/crates/host/runtime/src/runtime/runtime.rs
index e65ad7e..44b269b 100644
--- a/crates/host/runtime/src/runtime/runtime.rs
+++ b/crates/host/runtime/src/runtime/runtime.rs
@@ -794,12 +794,21 @@ impl Runtime {
         if src_bal < amount {
             panic!("Not enough balance to execute transfer");
         }
+        if src_addr == dst_addr {
+            return;
+        }
+
+        let new_src_bal = src_bal.checked_sub(amount).unwrap();
+        let new_dst_bal = dst_bal.checked_add(amount).unwrap();
+
+        let undo = UndoGuard::new(&self.gs);
         self.tokio_rt
-            .block_on(src_account.set_balance(src_bal.checked_sub(amount).unwrap()))
+            .block_on(src_account.set_balance(new_src_bal))
             .unwrap();
         self.tokio_rt
-            .block_on(dst_account.set_balance(dst_bal.checked_add(amount).unwrap()))
+            .block_on(dst_account.set_balance(new_dst_bal))
             .unwrap();
+        undo.keep_changes();
     }
 }
 
diff --git a/crates/host/runtime/src/vmcalls/transfer.rs b/crates/host/runtime/src/vmcalls/transfer.rs
index 2594f4a..0457ae2 100644
--- a/crates/host/runtime/src/vmcalls/transfer.rs
+++ b/crates/host/runtime/src/vmcalls/transfer.rs
@@ -44,10 +44,12 @@ pub fn svm_transfer(env: &FuncEnv, src_addr_offset: i32, dst_addr_offset: i32, a
         panic!("Not enough balance to execute transfer")
     }
 
-    rt.block_on(src_account.set_balance(src_balance - amount))
-        .unwrap();
-    rt.block_on(dst_account.set_balance(dst_balance.checked_add(amount).unwrap()))
-        .unwrap();
+    if src_addr != dst_addr {
+        rt.block_on(src_account.set_balance(src_balance - amount))
+            .unwrap();
+        rt.block_on(dst_account.set_balance(dst_balance.checked_add(amount).unwrap()))
+            .unwrap();
+    }
 
     borrow.touch_account(src_addr);
     borrow.touch_account(dst_addr);
-- 
2.43.0


From cae0e9327b088949c8c4e197c6df31d95b2892b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:11 +0000
Subject: [PATCH 13/21] fix: let `Runtime::commit` persist deployed templates
 and new accounts

Deploying a template, creating accounts and changing balances don't checkpoint,
hence `Runtime::commit` (and `svm_commit`) always failed afterwards.
---
 crates/host/runtime/src/runtime/runtime.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/host/runtime/src/runtime/runtime.rs b/crates/host/runtime/src/runtime/runtime.rs
index 44b269b..cf9669a 100644
--- a/crates/host/runtime/src/runtime/runtime.rs
+++ b/crates/host/runtime/src/runtime/runtime.rs
@@ -734,9 +734,12 @@ impl Runtime {
 
     /// Creates a new layer with the given changes.
     pub fn commit(&mut self) -> Result<()> {
+        let undo = UndoGuard::new(&self.gs);
         self.tokio_rt
-            .block_on(self.gs.commit())
+            .block_on(self.gs.checkpoint())
+            .and_then(|_| self.tokio_rt.block_on(self.gs.commit()))
             .map_err(|_e| RuntimeFailure::new(RuntimeError::OOG, vec![]))?;
+        undo.keep_changes();
         Ok(())
     }
 
-- 
2.43.0


From 57c9d89c3572c16b57e94c04842226418e96c38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:06 +0000
Subject: [PATCH 14/21] fix: do not panic when a transaction passes
 verification

Having completed `svm_verify`, `Runtime::verify` tried to commit the changes
and panicked because storage access is denied. It must not create a layer.
---
 crates/host/runtime/src/runtime/runtime.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/crates/host/runtime/src/runtime/runtime.rs b/crates/host/runtime/src/runtime/runtime.rs
index cf9669a..bf39137 100644
--- a/crates/host/runtime/src/runtime/runtime.rs
+++ b/crates/host/runtime/src/runtime/runtime.rs
@@ -81,7 +81,9 @@ impl Runtime {
     }
 
     fn exec_call<'a, Args, Rets>(&'a mut self, call: &Call<'a>) -> CallReceipt {
-        let result = self.exec::<(), (), _, _>(&call, |env, out| outcome_to_receipt(env, out));
+        let result = self.exec::<(), (), _, _>(&call, |env, out| {
+            outcome_to_receipt(env, out, |env| commit_changes(env).unwrap())
+        });
         result.unwrap_or_else(|fail| CallReceipt::from_err(fail.err, fail.logs))
     }
 
@@ -697,7 +699,12 @@ impl Runtime {
         );
 
         // TODO: override the `call.gas_limit` with `VERIFY_MAX_GAS`
-        self.exec_call::<(), ()>(&call)
+        let state = context.state();
+        let result = self.exec::<(), (), _, _>(&call, |env, out| {
+            // Verifying a transaction doesn't change anything.
+            outcome_to_receipt(env, out, |_env| state.clone())
+        });
+        result.unwrap_or_else(|fail| CallReceipt::from_err(fail.err, fail.logs))
     }
 
     /// Executes a [`Transaction`](svm_types::Transaction) and returns its output [`CallReceipt`].
@@ -920,13 +927,17 @@ fn commit_changes(env: &FuncEnv) -> svm_state::StorageResult<State> {
     Ok(state)
 }
 
-fn outcome_to_receipt(env: &FuncEnv, mut out: Outcome<Box<[wasmer::Val]>>) -> CallReceipt {
+fn outcome_to_receipt(
+    env: &FuncEnv,
+    mut out: Outcome<Box<[wasmer::Val]>>,
+    new_state: impl FnOnce(&FuncEnv) -> State,
+) -> CallReceipt {
     CallReceipt {
         version: 0,
         success: true,
         error: None,
         returndata: Some(take_returndata(env)),
-        new_state: Some(commit_changes(&env).unwrap()),
+        new_state: Some(new_state(env)),
         gas_used: out.gas_used(),
         touched_accounts: env.borrow().touched_accounts(),
         logs: out.take_logs(),
-- 
2.43.0


From 12215190d307c97f675ab90b57c371b5020cee41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:06 +0000
Subject: [PATCH 15/21] fix: allow to create runtimes after a failure to create
 one

A panic while opening the database poisoned the initialization lock, and no
runtime could be created any more until the end of the process.
---
 crates/host/runtime-ffi/src/c_api.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/host/runtime-ffi/src/c_api.rs b/crates/host/runtime-ffi/src/c_api.rs
index 0b95840..02753a7 100644
--- a/crates/host/runtime-ffi/src/c_api.rs
+++ b/crates/host/runtime-ffi/src/c_api.rs
@@ -65,11 +65,11 @@ pub unsafe extern "C" fn svm_runtime_create(
     path_len: u32,
 ) -> svm_result_t {
     catch_unwind_or_fail(|| {
-        let mut initialized = INITIALIZED.lock().unwrap();
-        if !*initialized {
+        // The lock must not be held (and poisoned) in case of errors below.
+        let initialized = *INITIALIZED.lock().unwrap();
+        if !initialized {
             return svm_result_t::new_error(b"`svm_init` not called beforehand.");
         }
-        *initialized = true;
 
         let genesis = GenesisConfig::mainnet();
         let tokio_rt = TokioRuntime::new().unwrap();
-- 
2.43.0


From e507e8e4ac5345bf5a295530ec3452f65d0a15e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:06 +0000
Subject: [PATCH 16/21] fix: release the runtime upon `svm_runtime_destroy`

Its database connections, threads and memory leaked.
---
 crates/host/runtime-ffi/src/c_api.rs            | 12 +++++++-----
 crates/host/runtime-ffi/src/resource_tracker.rs |  1 +
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/crates/host/runtime-ffi/src/c_api.rs b/crates/host/runtime-ffi/src/c_api.rs
index 02753a7..53ac308 100644
--- a/crates/host/runtime-ffi/src/c_api.rs
+++ b/crates/host/runtime-ffi/src/c_api.rs
@@ -115,11 +115,13 @@ pub unsafe extern "C" fn svm_runtime_create(
 #[must_use]
 #[no_mangle]
 pub extern "C" fn svm_runtime_destroy(runtime: *mut c_void) -> svm_result_t {
-    if RUNTIME_TRACKER.free(runtime).is_some() {
-        svm_result_t::OK
-    } else {
-        svm_result_t::new_error(b"There are no allocated runtimes left to destroy!")
-    }
+    catch_unwind_or_fail(|| {
+        if RUNTIME_TRACKER.free(runtime).is_some() {
+            svm_result_t::OK
+        } else {
+            svm_result_t::new_error(b"There are no allocated runtimes left to destroy!")
+        }
+    })
 }
 
 /// Returns the number of currently allocated runtimes.
diff --git a/crates/host/runtime-ffi/src/resource_tracker.rs b/crates/host/runtime-ffi/src/resource_tracker.rs
index 491e022..77fb6e5 100644
--- a/crates/host/runtime-ffi/src/resource_tracker.rs
+++ b/crates/host/runtime-ffi/src/resource_tracker.rs
@@ -39,6 +39,7 @@ impl<T> ResourceTracker<T> {
         let found = self.pointers.lock().unwrap().remove(&(ptr as usize));
 
         if found {
+            drop(unsafe { Box::<T>::from_raw(ptr.cast()) });
             Some(())
         } else {
             None
-- 
2.43.0


From 6cc1f57b7b93476a13f1f0641d4c61cba2ae0237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:06 +0000
Subject: [PATCH 17/21] fix: do not return freed memory from
 `svm_result_t::unwrap`

The returned vector shared its memory with `self`, which got dropped.
---
 crates/host/runtime-ffi/src/result.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/crates/host/runtime-ffi/src/result.rs b/crates/host/runtime-ffi/src/result.rs
index 4795515..513f6b8 100644
--- a/crates/host/runtime-ffi/src/result.rs
+++ b/crates/host/runtime-ffi/src/result.rs
@@ -69,9 +69,8 @@ impl svm_result_t {
         if self.error.is_null() && self.receipt.is_null() {
             None
         } else if self.error.is_null() {
-            Some(unsafe {
-                Vec::from_raw_parts(self.receipt, self.buf_size as usize, self.buf_size as usize)
-            })
+            // The memory of `self.receipt` is freed when dropping `self`.
+            self.receipt().map(|receipt| receipt.to_vec())
         } else {
             let err_bytes =
                 unsafe { std::slice::from_raw_parts(self.error, self.buf_size as usize) };
@@ -126,8 +125,12 @@ impl std::ops::Drop for svm_result_t {
     fn drop(&mut self) {
         let len = self.buf_size as usize;
         unsafe {
-            let _error = Vec::from_raw_parts(self.error, len, len);
-            let _receipt = Vec::from_raw_parts(self.receipt, len, len);
+            if !self.error.is_null() {
+                drop(Vec::from_raw_parts(self.error, len, len));
+            }
+            if !self.receipt.is_null() {
+                drop(Vec::from_raw_parts(self.receipt, len, len));
+            }
         }
     }
 }
-- 
2.43.0


From e0099d6cab1a3aafde0e637ea25741b3823e2e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:19 +0000
Subject: [PATCH 18/21] fix: fail transactions whose receipt can't be encoded

Too many or too long logs, or a too long `returndata`, made the encoding of
the receipt panic after the transaction had been committed.
---
 crates/host/runtime/src/vmcalls/logs.rs       | 13 +++++++++++++
 crates/host/runtime/src/vmcalls/returndata.rs |  6 ++++++
 2 files changed, 19 insertions(+)

diff --git a/crates/host/runtime/src/vmcalls/logs.rs b/crates/host/runtime/src/vmcalls/logs.rs
index 16e23c5..c163b4e 100644
--- a/crates/host/runtime/src/vmcalls/logs.rs
+++ b/crates/host/runtime/src/vmcalls/logs.rs
@@ -2,8 +2,21 @@ use svm_types::ReceiptLog;
 
 use crate::FuncEnv;
 
+/// The maximum number of logs that a receipt can hold.
+const MAX_LOGS: usize = u8::MAX as usize;
+
+/// The maximum length of a log entry.
+const MAX_LOG_LENGTH: u32 = u16::MAX as u32;
+
 /// Logs the log entry given in a form of blob (offset and length).
+///
+/// # Panics
+///
+/// Panics when the log entry wouldn't fit into the receipt.
 pub fn log(env: &FuncEnv, offset: u32, length: u32) {
+    assert!(length <= MAX_LOG_LENGTH, "The log entry is too long");
+    assert!(env.borrow().logs().len() < MAX_LOGS, "Too many logs");
+
     let start = offset as usize;
     let end = start + length as usize;
 
diff --git a/crates/host/runtime/src/vmcalls/returndata.rs b/crates/host/runtime/src/vmcalls/returndata.rs
index 717ceaa..35f9179 100644
--- a/crates/host/runtime/src/vmcalls/returndata.rs
+++ b/crates/host/runtime/src/vmcalls/returndata.rs
@@ -2,7 +2,13 @@ use crate::FuncEnv;
 
 /// Signals the host that the data that resides at offset `offset` of length `length`
 /// holds the `Returndata` of the executed function.
+///
+/// # Panics
+///
+/// Panics when the `Returndata` wouldn't fit into the receipt.
 pub fn set_returndata(env: &FuncEnv, offset: u32, length: u32) {
+    assert!(length <= u16::MAX as u32, "The `returndata` is too long");
+
     dbg!("set_returndata (offset = {}, length = {})", offset, length);
 
     env.borrow_mut()
-- 
2.43.0


From 12915d71fa3aaea99a3b38ec9701bb5a2a9609d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:02 +0000
Subject: [PATCH 19/21] fix: release the instance after executing a transaction

The memory of a FuncEnv keeps the instance alive, and the imports of the
instance keep the FuncEnv alive, so that each executed transaction leaked
its instance along with the runtime's database.
---
 crates/host/runtime/src/func_env.rs        |  9 +++++++++
 crates/host/runtime/src/runtime/runtime.rs | 13 +++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/crates/host/runtime/src/func_env.rs b/crates/host/runtime/src/func_env.rs
index 4a7fb0b..6b0f0e7 100644
--- a/crates/host/runtime/src/func_env.rs
+++ b/crates/host/runtime/src/func_env.rs
@@ -91,6 +91,15 @@ impl FuncEnv {
             .expect("Attempted write but RwLock is poisoned")
     }
 
+    /// Forgets the instance's memory.
+    pub fn clear_memory(&self) {
+        let mut inner = match self.inner.write() {
+            Ok(inner) => inner,
+            Err(poisoned) => poisoned.into_inner(),
+        };
+        inner.memory = None;
+    }
+
     /// Sets the [`AccessMode`] and overrides the existing value.
     pub fn set_access_mode(&self, mode: AccessMode) {
         let mut borrow = self.borrow_mut();
diff --git a/crates/host/runtime/src/runtime/runtime.rs b/crates/host/runtime/src/runtime/runtime.rs
index bf39137..309564f 100644
--- a/crates/host/runtime/src/runtime/runtime.rs
+++ b/crates/host/runtime/src/runtime/runtime.rs
@@ -112,6 +112,10 @@ impl Runtime {
         let store = crate::wasm_store::new_store();
         let import_object = self.create_import_object(&store, &mut env);
 
+        // The instance owns `env`, and the memory of `env` owns the instance:
+        // neither would ever be released.
+        let _memory_guard = MemoryGuard(env.clone());
+
         let res = self.run::<Args, Rets>(&call, &store, &env, &template, &import_object);
         res.map(|rets| f(&env, rets))
     }
@@ -874,6 +878,15 @@ fn read_memory(env: &FuncEnv, offset: usize, length: usize) -> Vec<u8> {
     cells.iter().map(|c| c.get()).collect()
 }
 
+/// Releases the memory held by a [`FuncEnv`] when going out of scope.
+struct MemoryGuard(FuncEnv);
+
+impl Drop for MemoryGuard {
+    fn drop(&mut self) {
+        self.0.clear_memory();
+    }
+}
+
 fn set_memory(env: &FuncEnv, instance: &Instance) {
     // TODO: raise when no exported memory exists
     let memory = instance.exports.get_memory("memory").unwrap();
-- 
2.43.0


From cbe8b151efa21efa5a558085df3597867de45977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:02 +0000
Subject: [PATCH 20/21] fix: do not lose the in-memory database after a failed
 rewind

Closing the connection of an in-memory database deletes it.
---
 crates/host/state/src/storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/host/state/src/storage.rs b/crates/host/state/src/storage.rs
index 2c96333..a0ac101 100644
--- a/crates/host/state/src/storage.rs
+++ b/crates/host/state/src/storage.rs
@@ -476,7 +476,7 @@ impl Storage {
             // `sqlx` keeps on executing failed statements in the background for
             // a little while. Wait for that to end, or it might delete layers
             // which are yet to be committed.
-            conn.detach().close().await.ok();
+            conn.ping().await.ok();
             return Err(err.into());
         }
 
-- 
2.43.0


From fd7648f2ca5883b4445400c511a3e0b6afab172f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:59 +0000
Subject: [PATCH 21/21] fix: never hand out memory which was allocated before

`svm_static_alloc` returned the end of the memory that it had accounted for,
so that e.g. allocating 100 bytes and then 8 returned two overlapping regions
(and the first one overlapped whatever followed). In practice `Account`s
overwrote their own calldata by allocating.
---
 crates/host/runtime/src/func_env.rs      | 3 ++-
 crates/host/runtime/src/vmcalls/alloc.rs | 6 +++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/host/runtime/src/func_env.rs b/crates/host/runtime/src/func_env.rs
index 6b0f0e7..dcb5804 100644
--- a/crates/host/runtime/src/func_env.rs
+++ b/crates/host/runtime/src/func_env.rs
@@ -164,7 +164,8 @@ impl Inner {
             memory: None,
             calldata: None,
             returndata: None,
-            used_memory: 0,
+            // `Account`s take offset zero for a null pointer: it's never allocated.
+            used_memory: 8,
             mode: AccessMode::AccessDenied,
             touched_accounts,
         }
diff --git a/crates/host/runtime/src/vmcalls/alloc.rs b/crates/host/runtime/src/vmcalls/alloc.rs
index 6f1a01a..3816f54 100644
--- a/crates/host/runtime/src/vmcalls/alloc.rs
+++ b/crates/host/runtime/src/vmcalls/alloc.rs
@@ -11,8 +11,8 @@ pub fn static_alloc(env: &FuncEnv, size: u32) -> u32 {
 
     assert!(size > 0);
 
-    let used = used_memory(env);
-    let new_used = used + size as u64;
+    let offset = used_memory(env);
+    let new_used = offset + size as u64;
 
     let allocated = allocated_memory(env);
 
@@ -22,7 +22,7 @@ pub fn static_alloc(env: &FuncEnv, size: u32) -> u32 {
 
     set_used_memory(env, new_used);
 
-    new_used as u32
+    offset as u32
 }
 
 #[allow(unused)]
-- 
2.43.0

