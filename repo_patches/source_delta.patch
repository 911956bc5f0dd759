From 54908ade05ea4ee26e31a26e572d44caf04582aa Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Tue, 17 Nov 2026 23:48:13 +0000
Subject: [PATCH 01/13] fix: reading an empty range at the stopsign must not
 panic

---
 omnipaxos/src/storage/internal_storage.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/omnipaxos/src/storage/internal_storage.rs b/omnipaxos/src/storage/internal_storage.rs
index 39b6f48..e49b329 100644
--- a/omnipaxos/src/storage/internal_storage.rs
+++ b/omnipaxos/src/storage/internal_storage.rs
@@ -150,6 +150,8 @@ where
                     self.stopsign_is_decided(),
                 )]))
             }
+            // empty range that starts at the stopsign
+            (IndexEntry::StopSign(_), IndexEntry::Entry) => Ok(Some(vec![])),
             e => {
                 unimplemented!("{}", format!("Unexpected read combination: {:?}", e))
             }
-- 
2.43.0


From bf964b051f248c09debadd747e0c6570666a2406 Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Tue, 17 Nov 2026 23:48:13 +0000
Subject: [PATCH 02/13] fix: take the decided index of the max promise into
 account even if its server was reset

---
 omnipaxos/src/util.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/omnipaxos/src/util.rs b/omnipaxos/src/util.rs
index 561c349..bc95265 100644
--- a/omnipaxos/src/util.rs
+++ b/omnipaxos/src/util.rs
@@ -166,6 +166,7 @@ where
     }
 
     pub fn get_max_decided_idx(&self) -> usize {
+        // The server with the max promise might have been reset since (PrepareReq)
         self.promises_meta
             .iter()
             .filter_map(|p| match p {
@@ -174,6 +175,7 @@ where
             })
             .max()
             .unwrap_or_default()
+            .max(self.max_promise_meta.decided_idx)
     }
 
     pub fn get_promise_meta(&self, pid: NodeId) -> &PromiseMetaData {
-- 
2.43.0


From bf9a9436fdeca6eb9649ff476ac5947c5f1b13b0 Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Tue, 17 Nov 2026 23:48:13 +0000
Subject: [PATCH 03/13] fix: start the suffix of a log sync within our own log

A stopsign in the common prefix was counted twice, and a common prefix
below our trimmed index made the suffix empty.
---
 omnipaxos/src/sequence_paxos/mod.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/omnipaxos/src/sequence_paxos/mod.rs b/omnipaxos/src/sequence_paxos/mod.rs
index 3692820..788f4de 100644
--- a/omnipaxos/src/sequence_paxos/mod.rs
+++ b/omnipaxos/src/sequence_paxos/mod.rs
@@ -403,6 +403,7 @@ where
         other_logs_decided_idx: usize,
     ) -> LogSync<T> {
         let decided_idx = self.internal_storage.get_decided_idx();
+        let stopsign = self.internal_storage.get_stopsign();
         let (decided_snapshot, suffix, sync_idx) =
             if T::Snapshot::use_snapshots() && decided_idx > common_prefix_idx {
                 // Note: We snapshot from the other log's decided index and not the common prefix because
@@ -417,17 +418,26 @@ where
                     .expect(READ_ERROR_MSG);
                 (delta_snapshot, suffix, compacted_idx)
             } else {
+                // The suffix starts within our log: it can't start in the entries we have trimmed
+                // (which all servers have accepted), nor after the stopsign (which is sent separately).
+                let log_end_idx = match stopsign {
+                    Some(_) => self.internal_storage.get_accepted_idx() - 1,
+                    None => self.internal_storage.get_accepted_idx(),
+                };
+                let sync_idx = common_prefix_idx
+                    .max(self.internal_storage.get_compacted_idx())
+                    .min(log_end_idx);
                 let suffix = self
                     .internal_storage
-                    .get_suffix(common_prefix_idx)
+                    .get_suffix(sync_idx)
                     .expect(READ_ERROR_MSG);
-                (None, suffix, common_prefix_idx)
+                (None, suffix, sync_idx)
             };
         LogSync {
             decided_snapshot,
             suffix,
             sync_idx,
-            stopsign: self.internal_storage.get_stopsign(),
+            stopsign,
         }
     }
 }
-- 
2.43.0


From 83450ead079c628df3e12e6203a2e07e1d2a19e9 Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Tue, 17 Nov 2026 23:48:13 +0000
Subject: [PATCH 04/13] fix: don't extend a buffered AcceptDecide of an earlier
 session after AcceptSync

---
 omnipaxos/src/sequence_paxos/leader.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/omnipaxos/src/sequence_paxos/leader.rs b/omnipaxos/src/sequence_paxos/leader.rs
index fd9379f..e82ae63 100644
--- a/omnipaxos/src/sequence_paxos/leader.rs
+++ b/omnipaxos/src/sequence_paxos/leader.rs
@@ -174,6 +174,8 @@ where
         };
         let log_sync = self.create_log_sync(followers_valid_entries_idx, followers_decided_idx);
         self.leader_state.increment_seq_num_session(to);
+        // A buffered AcceptDecide belongs to the previous session and must not be extended.
+        self.leader_state.set_latest_accept_meta(to, None);
         let acc_sync = AcceptSync {
             n: current_n,
             seq_num: self.leader_state.next_seq_num(to),
-- 
2.43.0


From aa744db464e1e8636eb7063e699aa1c19736e681 Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Tue, 17 Nov 2026 23:48:13 +0000
Subject: [PATCH 05/13] fix: don't re-sync a follower with a delta snapshot
 from a stale decided index

---
 omnipaxos/src/sequence_paxos/leader.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/omnipaxos/src/sequence_paxos/leader.rs b/omnipaxos/src/sequence_paxos/leader.rs
index e82ae63..22bd634 100644
--- a/omnipaxos/src/sequence_paxos/leader.rs
+++ b/omnipaxos/src/sequence_paxos/leader.rs
@@ -172,7 +172,14 @@ where
         } else {
             followers_decided_idx
         };
-        let log_sync = self.create_log_sync(followers_valid_entries_idx, followers_decided_idx);
+        // If we already sent an AcceptSync in this round, then the follower might have decided more
+        // since its promise and a delta snapshot from its promised decided index would not fit its log.
+        let followers_snapshot_idx = if self.leader_state.get_seq_num(to).session > 0 {
+            0
+        } else {
+            followers_decided_idx
+        };
+        let log_sync = self.create_log_sync(followers_valid_entries_idx, followers_snapshot_idx);
         self.leader_state.increment_seq_num_session(to);
         // A buffered AcceptDecide belongs to the previous session and must not be extended.
         self.leader_state.set_latest_accept_meta(to, None);
-- 
2.43.0


From 4c82e5515189ebbf6dc177273d4595862dfa722b Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Tue, 17 Nov 2026 23:48:13 +0000
Subject: [PATCH 06/13] fix: merge a delta snapshot with what is decided in our
 own log

---
 omnipaxos/src/storage/internal_storage.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omnipaxos/src/storage/internal_storage.rs b/omnipaxos/src/storage/internal_storage.rs
index e49b329..dd1a908 100644
--- a/omnipaxos/src/storage/internal_storage.rs
+++ b/omnipaxos/src/storage/internal_storage.rs
@@ -319,7 +319,6 @@ where
         log_sync: Option<LogSync<T>>,
     ) -> StorageResult<usize> {
         self.state_cache.accepted_round = accepted_round;
-        self.state_cache.decided_idx = decided_idx;
         let mut sync_txn: Vec<StorageOp<T>> = vec![
             StorageOp::SetAcceptedRound(accepted_round),
             StorageOp::SetDecidedIndex(decided_idx),
@@ -357,6 +356,8 @@ where
                 None => (),
             }
         }
+        // Updated last: `create_decided_snapshot` must only cover what was decided in our own log.
+        self.state_cache.decided_idx = decided_idx;
         self.storage.write_atomically(sync_txn)?;
         Ok(self.state_cache.accepted_idx)
     }
-- 
2.43.0


From d53d845a32183f3adea626c615b135fbf1bb3ff2 Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Tue, 17 Nov 2026 23:48:13 +0000
Subject: [PATCH 07/13] fix: syncing the log must not move the decided index
 backwards

---
 omnipaxos/src/storage/internal_storage.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/omnipaxos/src/storage/internal_storage.rs b/omnipaxos/src/storage/internal_storage.rs
index dd1a908..8997a4a 100644
--- a/omnipaxos/src/storage/internal_storage.rs
+++ b/omnipaxos/src/storage/internal_storage.rs
@@ -318,6 +318,8 @@ where
         decided_idx: usize,
         log_sync: Option<LogSync<T>>,
     ) -> StorageResult<usize> {
+        // Never move the decided index backwards: we may have learned a higher one than the leader.
+        let decided_idx = decided_idx.max(self.get_decided_idx());
         self.state_cache.accepted_round = accepted_round;
         let mut sync_txn: Vec<StorageOp<T>> = vec![
             StorageOp::SetAcceptedRound(accepted_round),
-- 
2.43.0


From d715edcb16814c3f52acd7e1be20128632b893b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:53 +0000
Subject: [PATCH 08/13] fix: encode batched entries with the UniCache when they
 are flushed, not when batched

The UniCache sent along an AcceptSync must match the synced log. Entries that were
still in the batch were already part of it, and were then decoded a second time by
the follower.
---
 omnipaxos/src/sequence_paxos/mod.rs       |  7 +----
 omnipaxos/src/storage/internal_storage.rs | 21 +++----------
 omnipaxos/src/storage/state_cache.rs      | 38 ++++-------------------
 3 files changed, 11 insertions(+), 55 deletions(-)

diff --git a/omnipaxos/src/sequence_paxos/mod.rs b/omnipaxos/src/sequence_paxos/mod.rs
index 788f4de..a8e7541 100644
--- a/omnipaxos/src/sequence_paxos/mod.rs
+++ b/omnipaxos/src/sequence_paxos/mod.rs
@@ -81,12 +81,7 @@ where
             batch_size: config.batch_size,
         };
         let mut paxos = SequencePaxos {
-            internal_storage: InternalStorage::with(
-                storage,
-                internal_storage_config,
-                #[cfg(feature = "unicache")]
-                pid,
-            ),
+            internal_storage: InternalStorage::with(storage, internal_storage_config),
             pid,
             peers,
             state,
diff --git a/omnipaxos/src/storage/internal_storage.rs b/omnipaxos/src/storage/internal_storage.rs
index 8997a4a..357313d 100644
--- a/omnipaxos/src/storage/internal_storage.rs
+++ b/omnipaxos/src/storage/internal_storage.rs
@@ -6,7 +6,7 @@ use crate::{
     CompactionErr,
 };
 #[cfg(feature = "unicache")]
-use crate::{unicache::*, util::NodeId};
+use crate::unicache::*;
 use std::{
     cmp::Ordering,
     marker::PhantomData,
@@ -34,18 +34,10 @@ where
     I: Storage<T>,
     T: Entry,
 {
-    pub(crate) fn with(
-        storage: I,
-        config: InternalStorageConfig,
-        #[cfg(feature = "unicache")] pid: NodeId,
-    ) -> Self {
+    pub(crate) fn with(storage: I, config: InternalStorageConfig) -> Self {
         let mut internal_store = InternalStorage {
             storage,
-            state_cache: StateCache::new(
-                config,
-                #[cfg(feature = "unicache")]
-                pid,
-            ),
+            state_cache: StateCache::new(config),
             _t: Default::default(),
         };
         internal_store.load_cache();
@@ -247,7 +239,7 @@ where
                 #[cfg(not(feature = "unicache"))]
                 entries: flushed_entries,
                 #[cfg(feature = "unicache")]
-                entries: self.state_cache.take_batched_processed(),
+                entries: self.state_cache.encode_entries(&flushed_entries),
             }))
         } else {
             Ok(None)
@@ -281,11 +273,6 @@ where
     }
 
     pub(crate) fn flush_batch(&mut self) -> StorageResult<usize> {
-        #[cfg(feature = "unicache")]
-        {
-            // clear the processed batch
-            self.state_cache.batched_processed_by_leader.clear();
-        }
         let flushed_entries = self.state_cache.take_batched_entries();
         self.append_entries_without_batching(flushed_entries)
     }
diff --git a/omnipaxos/src/storage/state_cache.rs b/omnipaxos/src/storage/state_cache.rs
index 48a3d89..9343649 100644
--- a/omnipaxos/src/storage/state_cache.rs
+++ b/omnipaxos/src/storage/state_cache.rs
@@ -1,16 +1,13 @@
 use super::{internal_storage::InternalStorageConfig, Entry, StopSign};
 use crate::ballot_leader_election::Ballot;
 #[cfg(feature = "unicache")]
-use crate::{unicache::*, util::NodeId};
+use crate::unicache::*;
 
 /// A simple in-memory storage for simple state values of OmniPaxos.
 pub(super) struct StateCache<T>
 where
     T: Entry,
 {
-    #[cfg(feature = "unicache")]
-    /// Id of this node
-    pub pid: NodeId,
     /// The maximum number of entries to batch.
     pub batch_size: usize,
     /// Vector which contains all the logged entries in-memory.
@@ -28,9 +25,6 @@ where
     /// Stopsign entry.
     pub stopsign: Option<StopSign>,
     #[cfg(feature = "unicache")]
-    /// Batch of entries that are processed (i.e., maybe encoded). Only used by the leader.
-    pub batched_processed_by_leader: Vec<T::EncodeResult>,
-    #[cfg(feature = "unicache")]
     pub unicache: T::UniCache,
 }
 
@@ -38,13 +32,8 @@ impl<T> StateCache<T>
 where
     T: Entry,
 {
-    pub(super) fn new(
-        config: InternalStorageConfig,
-        #[cfg(feature = "unicache")] pid: NodeId,
-    ) -> Self {
+    pub(super) fn new(config: InternalStorageConfig) -> Self {
         StateCache {
-            #[cfg(feature = "unicache")]
-            pid,
             batch_size: config.batch_size,
             batched_entries: Vec::with_capacity(config.batch_size),
             promise: Ballot::default(),
@@ -54,8 +43,6 @@ where
             compacted_idx: 0,
             stopsign: None,
             #[cfg(feature = "unicache")]
-            batched_processed_by_leader: Vec::with_capacity(config.batch_size),
-            #[cfg(feature = "unicache")]
             unicache: T::UniCache::new(),
         }
     }
@@ -63,11 +50,6 @@ where
     // Appends an entry to the end of the `batched_entries`. If the batch is full, the
     // batch is flushed and return flushed entries. Else, return None.
     pub(super) fn append_entry(&mut self, entry: T) -> Option<Vec<T>> {
-        #[cfg(feature = "unicache")]
-        {
-            let processed = self.unicache.try_encode(&entry);
-            self.batched_processed_by_leader.push(processed);
-        }
         self.batched_entries.push(entry);
         self.take_entries_if_batch_is_full()
     }
@@ -75,16 +57,6 @@ where
     // Appends entries to the end of the `batched_entries`. If the batch is full, the
     // batch is flushed and return flushed entries. Else, return None.
     pub(super) fn append_entries(&mut self, entries: Vec<T>) -> Option<Vec<T>> {
-        #[cfg(feature = "unicache")]
-        {
-            if self.promise.pid == self.pid {
-                // only try encoding if we're the leader
-                for entry in &entries {
-                    let processed = self.unicache.try_encode(entry);
-                    self.batched_processed_by_leader.push(processed);
-                }
-            }
-        }
         self.batched_entries.extend(entries);
         self.take_entries_if_batch_is_full()
     }
@@ -115,9 +87,11 @@ where
         std::mem::take(&mut self.batched_entries)
     }
 
+    // Encodes the entries with the UniCache, in the order they are appended to the log. Entries that are
+    // still batched must not be encoded: the UniCache sent along an AcceptSync matches the synced log.
     #[cfg(feature = "unicache")]
-    pub(super) fn take_batched_processed(&mut self) -> Vec<T::EncodeResult> {
-        std::mem::take(&mut self.batched_processed_by_leader)
+    pub(super) fn encode_entries(&mut self, entries: &[T]) -> Vec<T::EncodeResult> {
+        entries.iter().map(|e| self.unicache.try_encode(e)).collect()
     }
 
     // Returns whether a stopsign is decided
-- 
2.43.0


From db4b062baded7b03cab2839ccb50b37a321e04a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:08 +0000
Subject: [PATCH 09/13] fix: a follower that received a UniCache must be able
 to encode when it becomes the leader

The copied cache had an encoder of capacity 1 and shared its counter of encodings with
the decoder, so encodings ran past what the decoders of the followers know.
---
 omnipaxos/src/unicache/lfu_cache.rs | 15 ++++++++++-----
 omnipaxos/src/unicache/lru_cache.rs | 18 +++++++++++++-----
 2 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/omnipaxos/src/unicache/lfu_cache.rs b/omnipaxos/src/unicache/lfu_cache.rs
index f7e9530..7e4b1c5 100644
--- a/omnipaxos/src/unicache/lfu_cache.rs
+++ b/omnipaxos/src/unicache/lfu_cache.rs
@@ -11,7 +11,10 @@ where
 {
     lfu_cache_encoder: LFUCache<Encodable, Encoded>,
     lfu_cache_decoder: LFUCache<Encoded, Encodable>,
+    /// The last encoding that was assigned by the encoder.
     encoding: Encoded,
+    /// The last encoding that was assigned by the decoder.
+    decoding: Encoded,
     size: usize,
 }
 
@@ -20,7 +23,7 @@ where
     Encodable: DefaultEncodable,
     Encoded: DefaultEncoded,
 {
-    /// A cloned version of the cache but *ONLY* with the decoder. The clone is used to send the cache to followers, who will only use the decoder.
+    /// A cloned version of the cache but *ONLY* with the decoder. The clone is used to send the cache to followers, who will only use the decoder. The encoder starts out empty, in case the follower becomes the leader.
     fn clone(&self) -> Self {
         let mut lfu_cache_decoder = LFUCache::with_capacity(self.size);
         self.lfu_cache_encoder
@@ -29,9 +32,10 @@ where
                 lfu_cache_decoder.set(encoded.clone(), encodable.clone());
             });
         Self {
-            lfu_cache_encoder: LFUCache::with_capacity(1),
+            lfu_cache_encoder: LFUCache::with_capacity(self.size),
             lfu_cache_decoder,
-            encoding: self.encoding.clone(),
+            encoding: Encoded::default(),
+            decoding: self.encoding.clone(),
             size: self.size,
         }
     }
@@ -47,6 +51,7 @@ where
             lfu_cache_encoder: LFUCache::with_capacity(size),
             lfu_cache_decoder: LFUCache::with_capacity(size),
             encoding: Encoded::default(),
+            decoding: Encoded::default(),
             size,
         }
     }
@@ -84,11 +89,11 @@ where
                         .set(popped_encoded, not_encodable.clone());
                 } else {
                     let one = Encoded::one();
-                    let enc = std::mem::take(&mut self.encoding);
+                    let enc = std::mem::take(&mut self.decoding);
                     let added = enc.add(one);
                     self.lfu_cache_decoder
                         .set(added.clone(), not_encodable.clone());
-                    self.encoding = added;
+                    self.decoding = added;
                 }
                 not_encodable
             }
diff --git a/omnipaxos/src/unicache/lru_cache.rs b/omnipaxos/src/unicache/lru_cache.rs
index 87b9ff2..d7ad6f1 100644
--- a/omnipaxos/src/unicache/lru_cache.rs
+++ b/omnipaxos/src/unicache/lru_cache.rs
@@ -31,7 +31,10 @@ where
 {
     lru_cache_encoder: LruWrapper<Encodable, Encoded>,
     lru_cache_decoder: LruWrapper<Encoded, Encodable>,
+    /// The last encoding that was assigned by the encoder.
     encoding: Encoded,
+    /// The last encoding that was assigned by the decoder.
+    decoding: Encoded,
     size: usize,
 }
 
@@ -44,7 +47,10 @@ where
 {
     lru_cache_encoder: LruWrapper<Encodable, Encoded>,
     lru_cache_decoder: LruWrapper<Encoded, Encodable>,
+    /// The last encoding that was assigned by the encoder.
     encoding: Encoded,
+    /// The last encoding that was assigned by the decoder.
+    decoding: Encoded,
     size: usize,
 }
 
@@ -53,7 +59,7 @@ where
     Encodable: DefaultEncodable,
     Encoded: DefaultEncoded,
 {
-    /// A cloned version of the cache but *ONLY* with the decoder. The clone is used to send the cache to followers, who will only use the decoder.
+    /// A cloned version of the cache but *ONLY* with the decoder. The clone is used to send the cache to followers, who will only use the decoder. The encoder starts out empty, in case the follower becomes the leader.
     fn clone(&self) -> Self {
         let mut cloned_decoder = LruCache::new(NonZeroUsize::new(self.size).unwrap());
         self.lru_cache_encoder
@@ -64,9 +70,10 @@ where
                 cloned_decoder.push(encoded.clone(), encodable.clone());
             });
         Self {
-            lru_cache_encoder: LruWrapper(LruCache::new(NonZeroUsize::new(1).unwrap())),
+            lru_cache_encoder: LruWrapper(LruCache::new(NonZeroUsize::new(self.size).unwrap())),
             lru_cache_decoder: LruWrapper(cloned_decoder),
-            encoding: self.encoding.clone(),
+            encoding: Encoded::default(),
+            decoding: self.encoding.clone(),
             size: self.size,
         }
     }
@@ -93,6 +100,7 @@ where
             lru_cache_encoder: LruWrapper(LruCache::new(s)),
             lru_cache_decoder: LruWrapper(LruCache::new(s)),
             encoding: Encoded::default(),
+            decoding: Encoded::default(),
             size,
         }
     }
@@ -130,11 +138,11 @@ where
                         .push(popped_encoded, not_encodable.clone());
                 } else {
                     let one = Encoded::one();
-                    let enc = std::mem::take(&mut self.encoding);
+                    let enc = std::mem::take(&mut self.decoding);
                     let added = enc.add(one);
                     self.lru_cache_decoder
                         .push(added.clone(), not_encodable.clone());
-                    self.encoding = added;
+                    self.decoding = added;
                 }
                 not_encodable
             }
-- 
2.43.0


From 96f7d5e1427f13566b4192025a5e062988e888e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:13 +0000
Subject: [PATCH 10/13] fix: keep frequencies and eviction order when copying
 the LFU UniCache

The decoder of the copy was filled in arbitrary order with fresh frequencies and evicted
other entries than the encoder of the leader.
---
 omnipaxos/src/unicache/lfu/mod.rs   | 32 +++++++++++++++++++++++++++++
 omnipaxos/src/unicache/lfu_cache.rs |  8 +-------
 2 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/omnipaxos/src/unicache/lfu/mod.rs b/omnipaxos/src/unicache/lfu/mod.rs
index f280dab..9cb3570 100644
--- a/omnipaxos/src/unicache/lfu/mod.rs
+++ b/omnipaxos/src/unicache/lfu/mod.rs
@@ -138,6 +138,38 @@ impl<K: Hash + Eq + Clone, V> LFUCache<K, V> {
         }
     }
 
+    /// Returns the cache with keys and values swapped. The frequencies and the order of eviction are kept.
+    pub fn inverted(&self, capacity: usize) -> LFUCache<V, K>
+    where
+        V: Hash + Eq + Clone,
+    {
+        let values = self
+            .values
+            .iter()
+            .map(|(key, vc)| {
+                let value_counter = ValueCounter {
+                    value: key.clone(),
+                    count: vc.count,
+                };
+                (vc.value.clone(), value_counter)
+            })
+            .collect();
+        let frequency_bin = self
+            .frequency_bin
+            .iter()
+            .map(|(frequency, bin)| {
+                let keys = bin.0.iter().map(|k| self.values[k].value.clone());
+                (*frequency, LinkedHashSetWrapper(keys.collect()))
+            })
+            .collect();
+        LFUCache {
+            values,
+            frequency_bin,
+            capacity,
+            min_frequency: self.min_frequency,
+        }
+    }
+
     pub fn iter(&self) -> LfuIterator<K, V> {
         LfuIterator {
             values: self.values.iter(),
diff --git a/omnipaxos/src/unicache/lfu_cache.rs b/omnipaxos/src/unicache/lfu_cache.rs
index 7e4b1c5..31305ec 100644
--- a/omnipaxos/src/unicache/lfu_cache.rs
+++ b/omnipaxos/src/unicache/lfu_cache.rs
@@ -25,15 +25,9 @@ where
 {
     /// A cloned version of the cache but *ONLY* with the decoder. The clone is used to send the cache to followers, who will only use the decoder. The encoder starts out empty, in case the follower becomes the leader.
     fn clone(&self) -> Self {
-        let mut lfu_cache_decoder = LFUCache::with_capacity(self.size);
-        self.lfu_cache_encoder
-            .iter()
-            .for_each(|(encodable, encoded)| {
-                lfu_cache_decoder.set(encoded.clone(), encodable.clone());
-            });
         Self {
             lfu_cache_encoder: LFUCache::with_capacity(self.size),
-            lfu_cache_decoder,
+            lfu_cache_decoder: self.lfu_cache_encoder.inverted(self.size),
             encoding: Encoded::default(),
             decoding: self.encoding.clone(),
             size: self.size,
-- 
2.43.0


From 8433ccf9170b53a257e290f57166869644c2180b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:59 +0000
Subject: [PATCH 11/13] fix: deserialize an LRU UniCache without bounding it to
 its current length

Deserializing an empty cache panicked, and a partially filled one evicted too early.
---
 omnipaxos/src/unicache/lru_cache.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omnipaxos/src/unicache/lru_cache.rs b/omnipaxos/src/unicache/lru_cache.rs
index d7ad6f1..9ee7d5c 100644
--- a/omnipaxos/src/unicache/lru_cache.rs
+++ b/omnipaxos/src/unicache/lru_cache.rs
@@ -214,8 +214,8 @@ mod serialization {
         where
             S: SeqAccess<'de>,
         {
-            let size = seq.size_hint().unwrap_or(u8::MAX as usize);
-            let mut lru = LruCache::new(NonZeroUsize::new(size).unwrap());
+            // The number of elements is not the capacity. LRUniCache evicts based on its own size.
+            let mut lru = LruCache::unbounded();
             while let Some((key, value)) = seq.next_element::<(Encodable, Encoded)>()? {
                 lru.push(key, value);
             }
-- 
2.43.0


From 39784354b4658e33076ded22ee3c75d9b2554fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:16 +0000
Subject: [PATCH 12/13] fix: refuse configurations with pid 0 or a repeated pid

Such a configuration passed validate(), and the server then panicked: on build when
no other server remains ([1, 1]), or on the first message of server 0.
---
 omnipaxos/src/omni_paxos.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/omnipaxos/src/omni_paxos.rs b/omnipaxos/src/omni_paxos.rs
index f98c9ba..699801c 100644
--- a/omnipaxos/src/omni_paxos.rs
+++ b/omnipaxos/src/omni_paxos.rs
@@ -104,6 +104,10 @@ impl ClusterConfig {
     pub fn validate(&self) -> Result<(), ConfigError> {
         let num_nodes = self.nodes.len();
         valid_config!(num_nodes > 1, "Need more than 1 node");
+        valid_config!(!self.nodes.contains(&0), "Node pids cannot be 0");
+        for (i, pid) in self.nodes.iter().enumerate() {
+            valid_config!(!self.nodes[..i].contains(pid), "Node pids must be unique");
+        }
         valid_config!(self.configuration_id != 0, "Configuration ID cannot be 0");
         if let Some(FlexibleQuorum {
             read_quorum_size,
-- 
2.43.0


From 639ad4f1168a6adfc0ed5e6574b39a632ae724c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:58 +0000
Subject: [PATCH 13/13] fix: PersistentStorage::write_atomically rolls back
 when it fails

A failed operation (e.g. a snapshot that cannot be serialized) left the
operations before it in the write batch and next_log_key advanced; the next
atomic write then applied them.
---
 omnipaxos_storage/src/persistent_storage.rs | 43 +++++++++++++--------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/omnipaxos_storage/src/persistent_storage.rs b/omnipaxos_storage/src/persistent_storage.rs
index a117f46..abc6922 100644
--- a/omnipaxos_storage/src/persistent_storage.rs
+++ b/omnipaxos_storage/src/persistent_storage.rs
@@ -258,6 +258,26 @@ where
         self.write_batch.put(SNAPSHOT, s);
         Ok(())
     }
+
+    fn write_batched_ops(&mut self, ops: Vec<StorageOp<T>>) -> StorageResult<()> {
+        for op in ops {
+            match op {
+                StorageOp::AppendEntry(entry) => self.batch_append_entry(entry)?,
+                StorageOp::AppendEntries(entries) => self.batch_append_entries(entries)?,
+                StorageOp::AppendOnPrefix(from_idx, entries) => {
+                    self.batch_append_on_prefix(from_idx, entries)?
+                }
+                StorageOp::SetPromise(bal) => self.batch_set_promise(bal)?,
+                StorageOp::SetDecidedIndex(idx) => self.batch_set_decided_idx(idx)?,
+                StorageOp::SetAcceptedRound(bal) => self.batch_set_accepted_round(bal)?,
+                StorageOp::SetCompactedIdx(idx) => self.batch_set_compacted_idx(idx)?,
+                StorageOp::Trim(idx) => self.batch_trim(idx)?,
+                StorageOp::SetStopsign(ss) => self.batch_set_stopsign(ss)?,
+                StorageOp::SetSnapshot(snap) => self.batch_set_snapshot(snap)?,
+            }
+        }
+        Ok(self.db.write(std::mem::take(&mut self.write_batch))?)
+    }
 }
 
 /// An error returning the proposal that was failed due to that the current configuration is stopped.
@@ -276,23 +296,14 @@ where
     T::Snapshot: Serialize + for<'a> Deserialize<'a>,
 {
     fn write_atomically(&mut self, ops: Vec<StorageOp<T>>) -> StorageResult<()> {
-        for op in ops {
-            match op {
-                StorageOp::AppendEntry(entry) => self.batch_append_entry(entry)?,
-                StorageOp::AppendEntries(entries) => self.batch_append_entries(entries)?,
-                StorageOp::AppendOnPrefix(from_idx, entries) => {
-                    self.batch_append_on_prefix(from_idx, entries)?
-                }
-                StorageOp::SetPromise(bal) => self.batch_set_promise(bal)?,
-                StorageOp::SetDecidedIndex(idx) => self.batch_set_decided_idx(idx)?,
-                StorageOp::SetAcceptedRound(bal) => self.batch_set_accepted_round(bal)?,
-                StorageOp::SetCompactedIdx(idx) => self.batch_set_compacted_idx(idx)?,
-                StorageOp::Trim(idx) => self.batch_trim(idx)?,
-                StorageOp::SetStopsign(ss) => self.batch_set_stopsign(ss)?,
-                StorageOp::SetSnapshot(snap) => self.batch_set_snapshot(snap)?,
-            }
+        let next_log_key = self.next_log_key;
+        let result = self.write_batched_ops(ops);
+        if result.is_err() {
+            // Roll back: a later write must not pick up any of the failed operations.
+            self.write_batch = WriteBatchWithTransaction::<false>::default();
+            self.next_log_key = next_log_key;
         }
-        Ok(self.db.write(std::mem::take(&mut self.write_batch))?)
+        result
     }
 
     fn append_entry(&mut self, entry: T) -> StorageResult<()> {
-- 
2.43.0

