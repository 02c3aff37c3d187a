From 7bdf53596f7adffa8cafecb7144c4f7cc8de0349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:13 +0000
Subject: [PATCH 01/31] fix: fraos: sequence numbers far beyond the end read as
 absent

---
 fraos/src/seqno.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fraos/src/seqno.rs b/fraos/src/seqno.rs
index be3b673..34a3269 100644
--- a/fraos/src/seqno.rs
+++ b/fraos/src/seqno.rs
@@ -88,7 +88,11 @@ impl SeqNoIndex {
         &self,
         seqno: usize,
     ) -> Result<Option<(usize, usize)>, FraosError> {
-        let offset = seqno * Self::SIZE_OF_USIZE * 2;
+        // such a number can't be in the index if its offset doesn't fit in the address space
+        let offset = match seqno.checked_mul(Self::SIZE_OF_USIZE * 2) {
+            None => return Ok(None),
+            Some(offset) => offset,
+        };
 
         let result = self.inner.get_data(offset, |mmap| {
             let mut offset_buffer = [0u8; Self::SIZE_OF_USIZE];
-- 
2.43.0


From afaa388e2b02df3ee397fd697eeb2792f3ca1242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:01 +0000
Subject: [PATCH 02/31] fix: fraos: trim the files only when the last database
 handle is dropped

---
 fraos/src/database.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/fraos/src/database.rs b/fraos/src/database.rs
index 1860907..f994a9d 100644
--- a/fraos/src/database.rs
+++ b/fraos/src/database.rs
@@ -11,6 +11,7 @@ pub struct Database {
     flatfile: Arc<FlatFile>,
     seqno_index: Arc<SeqNoIndex>,
     write_lock: Arc<Mutex<()>>,
+    _trim_on_drop: Arc<TrimOnDrop>,
 }
 
 impl Database {
@@ -63,10 +64,16 @@ impl Database {
 
         let write_lock = Arc::new(Mutex::new(()));
 
+        let trim_on_drop = Arc::new(TrimOnDrop {
+            flatfile: flatfile.clone(),
+            seqno_index: seqno_index.clone(),
+        });
+
         Ok(Database {
             flatfile,
             seqno_index,
             write_lock,
+            _trim_on_drop: trim_on_drop,
         })
     }
 
@@ -161,7 +168,14 @@ impl Database {
     }
 }
 
-impl Drop for Database {
+/// Shared by all the clones of a database, so that the files are only trimmed
+/// when none of them can write into the mappings anymore.
+struct TrimOnDrop {
+    flatfile: Arc<FlatFile>,
+    seqno_index: Arc<SeqNoIndex>,
+}
+
+impl Drop for TrimOnDrop {
     fn drop(&mut self) {
         let _ = self.seqno_index.shrink_to_size();
         let _ = self.flatfile.shrink_to_size();
-- 
2.43.0


From 3dccb5af37aa871d0747ad745e9eddc996c99718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:11 +0000
Subject: [PATCH 03/31] fix: fraos: a failed append leaves the storage as it
 was

---
 fraos/src/growable_mmap.rs | 134 +++++++++++++++++++------------------
 1 file changed, 70 insertions(+), 64 deletions(-)

diff --git a/fraos/src/growable_mmap.rs b/fraos/src/growable_mmap.rs
index 39bfcb3..c7f1748 100644
--- a/fraos/src/growable_mmap.rs
+++ b/fraos/src/growable_mmap.rs
@@ -5,7 +5,6 @@ use memmap2::{MmapMut, MmapOptions};
 use std::cmp::max;
 
 use std::fs::File;
-use std::mem::swap;
 use std::sync::{RwLock, RwLockWriteGuard};
 
 const MAX_MMAPS_COUNT: usize = 2048;
@@ -112,89 +111,96 @@ impl GrowableMmap {
             }
         })?;
 
-        let start_write_from = match &mut storage_guard.active_map {
-            None => {
+        let Storage {
+            inactive_mmaps,
+            active_map,
+        } = &mut *storage_guard;
+
+        // The storage is only updated when the data is written and flushed, so that a failure
+        // leaves it as it was.
+        match active_map {
+            // if we have enough space use active mmap
+            Some(active_mmap) if active_mmap.bounds.size() + extension < active_mmap.len => {
+                let current_mmap_end = active_mmap.bounds.size();
+
+                Self::write_and_flush(&mut active_mmap.mmap, current_mmap_end, extension, f)?;
+
+                active_mmap
+                    .bounds
+                    .append_relative_end(current_mmap_end + extension)
+                    .map_err(FraosError::IndexError)?;
+            }
+            _ => {
                 let new_mmap_size = self.get_new_mmap_size(extension);
-                // inactive size
-                let already_mapped = storage_guard.inactive_mmaps.index.len();
+                // inactive part + current active part
+                let already_mapped = active_map
+                    .as_ref()
+                    .map(|active_mmap| active_mmap.bounds.global_chunk_end())
+                    .unwrap_or(inactive_mmaps.index.len());
 
-                // create mmap and flush
-                let new_mmap = self.create_mmap(new_mmap_size, already_mapped)?;
+                let mut new_mmap = self.create_mmap(new_mmap_size, already_mapped)?;
+
+                Self::write_and_flush(&mut new_mmap, 0, extension, f)?;
 
                 // create index on active mmap
-                let mut single_mmap_index = MmapChunkAddressMapper::new(already_mapped);
-                single_mmap_index
+                let mut new_bounds = MmapChunkAddressMapper::new(already_mapped);
+                new_bounds
                     .append_relative_end(extension)
                     .map_err(FraosError::IndexError)?;
 
-                storage_guard.active_map = Some(ActiveMmap {
+                // replace active mmap with new mmap
+                let previous = active_map.replace(ActiveMmap {
                     len: new_mmap_size,
                     mmap: new_mmap,
-                    bounds: single_mmap_index,
+                    bounds: new_bounds,
                 });
 
-                0usize
-            }
-            Some(active_mmap) => {
-                let current_mmap_end = active_mmap.bounds.size();
-
-                // if we have enough space use active mmap
-                if current_mmap_end + extension < active_mmap.len {
-                    active_mmap
-                        .bounds
-                        .append_relative_end(current_mmap_end + extension)
-                        .map_err(FraosError::IndexError)?;
-                    current_mmap_end
-                } else {
-                    let new_mmap_size = self.get_new_mmap_size(extension);
-                    // offset is inactive part + current active part
-                    let already_mapped = active_mmap.bounds.global_chunk_end();
-
-                    let mut new_mmap = self.create_mmap(new_mmap_size, already_mapped)?;
-
-                    // replace active mmap with new mmap
-                    swap(&mut new_mmap, &mut active_mmap.mmap);
-                    active_mmap.len = new_mmap_size;
-
-                    let mut new_bounds = MmapChunkAddressMapper::new(already_mapped);
-                    new_bounds
-                        .append_relative_end(extension)
-                        .map_err(FraosError::IndexError)?;
-                    swap(&mut new_bounds, &mut active_mmap.bounds);
-
-                    // add old replaced active mmap to inactive mmaps
-                    storage_guard
-                        .inactive_mmaps
+                // add old replaced active mmap to inactive mmaps
+                if let Some(previous) = previous {
+                    let previous_end = previous.bounds.size();
+                    let previous_mmap = previous
+                        .mmap
+                        .make_read_only()
+                        .map_err(|err| FraosError::MmapError(MmapError::Protect(err)))?;
+                    inactive_mmaps
                         .index
-                        .append(new_bounds)
+                        .append(previous.bounds)
                         .map_err(FraosError::IndexError)?;
-                    storage_guard.inactive_mmaps.maps.push(
-                        SharedMmap::new(
-                            new_mmap
-                                .make_read_only()
-                                .map_err(|err| FraosError::MmapError(MmapError::Protect(err)))?,
-                        )
-                        .slice(..current_mmap_end),
-                    );
-
-                    0usize
+                    inactive_mmaps
+                        .maps
+                        .push(SharedMmap::new(previous_mmap).slice(..previous_end));
                 }
             }
         };
 
-        match storage_guard.active_map.as_mut() {
-            None => return Err(FraosError::DataFileDamaged),
-            Some(active_mmap) => {
-                f(&mut active_mmap.mmap.as_mut()[start_write_from..])?;
+        // The data is stored at this point. If the mmaps can't be merged now it is tried again
+        // with the next write.
+        let _ = self.rearrange_mmaps(storage_guard);
 
-                active_mmap
-                    .mmap
-                    .flush()
-                    .map_err(|err| FraosError::MmapError(MmapError::Flush(err)))?;
-            }
+        Ok(())
+    }
+
+    fn write_and_flush<F>(
+        mmap: &mut MmapMut,
+        start: usize,
+        extension: usize,
+        f: F,
+    ) -> Result<(), FraosError>
+    where
+        F: Fn(&mut [u8]) -> Result<(), FraosError>,
+    {
+        let result = f(&mut mmap.as_mut()[start..]).and_then(|()| {
+            mmap.flush()
+                .map_err(|err| FraosError::MmapError(MmapError::Flush(err)))
+        });
+
+        if result.is_err() {
+            // what was not acknowledged must not be found when the file is opened again
+            mmap.as_mut()[start..start + extension].fill(0);
+            let _ = mmap.flush();
         }
 
-        self.rearrange_mmaps(storage_guard)
+        result
     }
 
     pub fn get_ref_and_apply<F, U>(&self, address: usize, f: F) -> Result<Option<U>, FraosError>
-- 
2.43.0


From 063ffe914c67e34498acc9a801dec92ad8c57227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:28 +0000
Subject: [PATCH 04/31] fix: indexed-log-map: concurrent appends of a key index
 its latest value

---
 indexed-log-map/src/storage.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/indexed-log-map/src/storage.rs b/indexed-log-map/src/storage.rs
index f1bc521..bb50203 100644
--- a/indexed-log-map/src/storage.rs
+++ b/indexed-log-map/src/storage.rs
@@ -3,6 +3,7 @@ use anyhow::{anyhow, bail, Context, Result};
 use serde::de::DeserializeOwned;
 use serde::Serialize;
 use std::marker::PhantomData;
+use std::sync::Mutex;
 
 /// Indexed log map inherits the properties of fraos::Database (thread safety) and allows
 /// access by key
@@ -10,6 +11,8 @@ pub struct IndexedLogMap<Key: Serialize + DeserializeOwned, Value: Serialize + D
     storage: fraos::Database,
     // this is an option since we might want to take a look at
     key_to_seqno: Option<sled::Db>,
+    // the log and the key index must be updated in the same order
+    append_lock: Mutex<()>,
     phantom_data: PhantomData<(Key, Value)>,
 }
 
@@ -55,6 +58,7 @@ impl<Key: Serialize + DeserializeOwned, Value: Serialize + DeserializeOwned>
         Ok(Self {
             storage,
             key_to_seqno,
+            append_lock: Mutex::new(()),
             phantom_data: Default::default(),
         })
     }
@@ -70,6 +74,10 @@ impl<Key: Serialize + DeserializeOwned, Value: Serialize + DeserializeOwned>
         ciborium::ser::into_writer(&value, &mut serialized_value)
             .context("Failed to encode cbor data")?;
         let records = vec![serialized_value.as_slice()];
+        let _append_guard = self
+            .append_lock
+            .lock()
+            .map_err(|_| anyhow!("append lock is poisoned"))?;
         let index = self
             .storage
             .append_get_seqno(records.as_slice())
-- 
2.43.0


From 761174e440b7b1fc906d684bdd50a5dffb2ed766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:41 +0000
Subject: [PATCH 05/31] fix: multiverse: iterate over every block of the same
 block number

---
 multiverse/src/visitor/depth_ordered.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/multiverse/src/visitor/depth_ordered.rs b/multiverse/src/visitor/depth_ordered.rs
index 330628d..3c2d09d 100644
--- a/multiverse/src/visitor/depth_ordered.rs
+++ b/multiverse/src/visitor/depth_ordered.rs
@@ -32,7 +32,8 @@ where
             let (bn, set) = self.tree.iter_mut().next()?;
             let bn = *bn;
 
-            if let Some(entry_ref) = set.drain().next() {
+            if let Some(entry_ref) = set.iter().next().cloned() {
+                set.remove(&entry_ref);
                 let entry = self.inner.all.get(&entry_ref)?;
                 return Some(&entry.value);
             }
-- 
2.43.0


From b9e24b6559f837c674bc253039eeb1d382053f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:56 +0000
Subject: [PATCH 06/31] fix: multiverse: a removed block is no longer the
 parent of its children

---
 multiverse/src/lib.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/multiverse/src/lib.rs b/multiverse/src/lib.rs
index 7acbbe8..73f0093 100644
--- a/multiverse/src/lib.rs
+++ b/multiverse/src/lib.rs
@@ -413,17 +413,21 @@ where
             return Err(MultiverseError::NotFound);
         };
 
-        if self.roots.remove(key) {
-            // Removing the entry makes all the children "orphaned". So they
-            // need to become root themselves. Iterate through all the children
-            // and add them in the root set
-            for child in entry.children {
-                assert!(
-                    self.roots.insert(child.clone()),
-                    "Somehow a child ({child:?}) was already in the set of root entries. \
-                This should not happen in normal circumstances.",
-                );
+        self.roots.remove(key);
+
+        // Removing the entry makes all the children "orphaned". So they
+        // need to forget that parent and become root themselves. The weak
+        // reference alone isn't enough: the parent's key may still be alive
+        // outside of the multiverse, or be inserted again later on.
+        for child in entry.children {
+            if let Some(child) = self.all.get_mut(&child) {
+                child.parent = EntryWeakRef::new();
             }
+            assert!(
+                self.roots.insert(child.clone()),
+                "Somehow a child ({child:?}) was already in the set of root entries. \
+                This should not happen in normal circumstances.",
+            );
         }
 
         // if the entry had a parent, it then may become a tip (if that
-- 
2.43.0


From 9d641499ecc54f6d7ff360b3494dea72ed313245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:46 +0000
Subject: [PATCH 07/31] fix: utxo-selection: no change output of a negative
 value

---
 .../src/algorithms/balance_change_single_output.rs          | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/utxo-selection/src/algorithms/balance_change_single_output.rs b/utxo-selection/src/algorithms/balance_change_single_output.rs
index e04a411..141f2f1 100644
--- a/utxo-selection/src/algorithms/balance_change_single_output.rs
+++ b/utxo-selection/src/algorithms/balance_change_single_output.rs
@@ -110,6 +110,12 @@ impl InputSelectionAlgorithm for SingleOutputChangeBalancer {
         };
 
         let fee_for_change = estimator.fee_for_output(&change)?;
+        if change.value < fee_for_change {
+            return Err(anyhow!(
+                "there's lack of main asset selected, can't pay the fee {} of the change",
+                fee_for_change
+            ));
+        }
         change.value -= &fee_for_change;
         fee += &fee_for_change;
 
-- 
2.43.0


From 43e5597f7932d0f579c5d5aba1647883bf3ccc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:49 +0000
Subject: [PATCH 08/31] fix: utxo-selection: random improve takes the new
 available inputs

---
 utxo-selection/src/algorithms/random_improve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utxo-selection/src/algorithms/random_improve.rs b/utxo-selection/src/algorithms/random_improve.rs
index 26a32c4..6465a4e 100644
--- a/utxo-selection/src/algorithms/random_improve.rs
+++ b/utxo-selection/src/algorithms/random_improve.rs
@@ -47,7 +47,7 @@ impl InputSelectionAlgorithm for RandomImprove {
         &mut self,
         available_inputs: Vec<Self::InputUtxo>,
     ) -> anyhow::Result<()> {
-        let _available_indices = BTreeSet::from_iter(0..available_inputs.len());
+        self.available_indices = BTreeSet::from_iter(0..available_inputs.len());
         self.available_inputs = available_inputs;
         Ok(())
     }
-- 
2.43.0


From c710ce9e3fc6a03e623438217e9a604b30275521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:49 +0000
Subject: [PATCH 09/31] fix: utxo-selection: random improve finds assets by
 their fingerprint

---
 .../src/algorithms/random_improve.rs          | 26 +++++++------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/utxo-selection/src/algorithms/random_improve.rs b/utxo-selection/src/algorithms/random_improve.rs
index 6465a4e..70b71f6 100644
--- a/utxo-selection/src/algorithms/random_improve.rs
+++ b/utxo-selection/src/algorithms/random_improve.rs
@@ -3,10 +3,9 @@ use crate::common::{InputOutputSetup, InputSelectionResult};
 use crate::estimate::TransactionFeeEstimator;
 use anyhow::anyhow;
 use dcspark_core::tx::{TransactionAsset, UTxOBuilder, UTxODetails};
-use dcspark_core::{AssetName, PolicyId, Regulated, TokenId, UTxOStore};
+use dcspark_core::{Regulated, TokenId, UTxOStore};
 use deps::bigdecimal::ToPrimitive;
 use rand::Rng;
-use std::cmp::Ordering;
 use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
 
 pub struct RandomImprove {
@@ -71,20 +70,15 @@ impl InputSelectionAlgorithm for RandomImprove {
         let mut chosen_indices = HashSet::<usize>::new();
 
         let mut rng = rand::thread_rng();
-        let mut policy_ids_to_asset_names = asset_output_balance
+        let mut assets = asset_output_balance
             .values()
-            .map(|asset: &TransactionAsset| (asset.policy_id.clone(), asset.asset_name.clone()))
-            .collect::<Vec<(PolicyId, AssetName)>>();
-        policy_ids_to_asset_names.sort_by(
-            |left: &(PolicyId, AssetName), right: &(PolicyId, AssetName)| match left.0.cmp(&right.0)
-            {
-                Ordering::Equal => left.1.cmp(&right.1),
-                x => x,
-            },
-        );
+            .collect::<Vec<&TransactionAsset>>();
+        assets.sort_by(|left, right| {
+            (&left.policy_id, &left.asset_name).cmp(&(&right.policy_id, &right.asset_name))
+        });
 
-        for (policy_id, asset_name) in policy_ids_to_asset_names.iter() {
-            let token = TokenId::new(format!("{policy_id}:{asset_name}"));
+        for asset in assets {
+            let token = &asset.fingerprint;
             let asset_chosen_indices = select_input_and_update_balances(
                 &self.available_inputs,
                 &mut self.available_indices,
@@ -97,14 +91,14 @@ impl InputSelectionAlgorithm for RandomImprove {
                     value
                         .assets
                         .iter()
-                        .find(|asset| asset.fingerprint == token)
+                        .find(|asset| &asset.fingerprint == token)
                         .map(|asset| asset.quantity.clone())
                 },
                 |value: &UTxOBuilder| {
                     value
                         .assets
                         .iter()
-                        .find(|asset| asset.fingerprint == token)
+                        .find(|asset| &asset.fingerprint == token)
                         .map(|asset| asset.quantity.clone())
                 },
                 &mut rng,
-- 
2.43.0


From 64127129637361b0bf48595442dbbd3215d6c697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:49 +0000
Subject: [PATCH 10/31] fix: utxo-selection: random improve adds inputs until
 the fee is covered too

---
 utxo-selection/src/algorithms/random_improve.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utxo-selection/src/algorithms/random_improve.rs b/utxo-selection/src/algorithms/random_improve.rs
index 70b71f6..04be23c 100644
--- a/utxo-selection/src/algorithms/random_improve.rs
+++ b/utxo-selection/src/algorithms/random_improve.rs
@@ -1,5 +1,5 @@
 use crate::algorithm::InputSelectionAlgorithm;
-use crate::common::{InputOutputSetup, InputSelectionResult};
+use crate::common::{calculate_main_token_balance, InputOutputSetup, InputSelectionResult};
 use crate::estimate::TransactionFeeEstimator;
 use anyhow::anyhow;
 use dcspark_core::tx::{TransactionAsset, UTxOBuilder, UTxODetails};
@@ -125,7 +125,7 @@ impl InputSelectionAlgorithm for RandomImprove {
         // Phase 3: add extra inputs needed for fees (not covered by CIP-2)
         // We do this at the end because this new inputs won't be associated with
         // a specific output, so the improvement algorithm we do above does not apply here.
-        while input_balance < output_balance {
+        while calculate_main_token_balance(&input_balance, &output_balance, &fee).in_debt() {
             if self.available_indices.is_empty() {
                 return Err(anyhow!("UTxO Balance Insufficient[x]"));
             }
-- 
2.43.0


From af24823ef123234a25e5b9e03ec6fcc413368ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:50 +0000
Subject: [PATCH 11/31] fix: utxo-selection: a failed random improve leaves the
 available inputs

---
 utxo-selection/src/algorithms/random_improve.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/utxo-selection/src/algorithms/random_improve.rs b/utxo-selection/src/algorithms/random_improve.rs
index 04be23c..00a2664 100644
--- a/utxo-selection/src/algorithms/random_improve.rs
+++ b/utxo-selection/src/algorithms/random_improve.rs
@@ -67,6 +67,8 @@ impl InputSelectionAlgorithm for RandomImprove {
 
         let explicit_outputs = input_output_setup.fixed_outputs.clone();
 
+        // the selection works on a copy: if it fails, nothing was taken
+        let mut available_indices = self.available_indices.clone();
         let mut chosen_indices = HashSet::<usize>::new();
 
         let mut rng = rand::thread_rng();
@@ -81,7 +83,7 @@ impl InputSelectionAlgorithm for RandomImprove {
             let token = &asset.fingerprint;
             let asset_chosen_indices = select_input_and_update_balances(
                 &self.available_inputs,
-                &mut self.available_indices,
+                &mut available_indices,
                 &explicit_outputs,
                 estimator,
                 &mut asset_input_balance,
@@ -110,7 +112,7 @@ impl InputSelectionAlgorithm for RandomImprove {
         // add in remaining ADA
         let ada_chosen_indices = select_input_and_update_balances(
             &self.available_inputs,
-            &mut self.available_indices,
+            &mut available_indices,
             &explicit_outputs,
             estimator,
             &mut asset_input_balance,
@@ -126,15 +128,14 @@ impl InputSelectionAlgorithm for RandomImprove {
         // We do this at the end because this new inputs won't be associated with
         // a specific output, so the improvement algorithm we do above does not apply here.
         while calculate_main_token_balance(&input_balance, &output_balance, &fee).in_debt() {
-            if self.available_indices.is_empty() {
+            if available_indices.is_empty() {
                 return Err(anyhow!("UTxO Balance Insufficient[x]"));
             }
-            let i = *self
-                .available_indices
+            let i = *available_indices
                 .iter()
-                .nth(rng.gen_range(0..self.available_indices.len()))
+                .nth(rng.gen_range(0..available_indices.len()))
                 .unwrap();
-            self.available_indices.remove(&i);
+            available_indices.remove(&i);
             let input = &self.available_inputs[i];
             let input_fee = estimator.fee_for_input(input)?;
             estimator.add_input(input.clone())?;
@@ -153,6 +154,8 @@ impl InputSelectionAlgorithm for RandomImprove {
             chosen_indices.insert(i);
         }
 
+        self.available_indices = available_indices;
+
         Ok(InputSelectionResult {
             fixed_inputs: input_output_setup.fixed_inputs,
             fixed_outputs: input_output_setup.fixed_outputs,
-- 
2.43.0


From 570c5aa722952684ecd3d04a4ab7dbd78bb5f662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:50 +0000
Subject: [PATCH 12/31] fix: utxo-selection: random improve tells identical
 outputs apart

---
 .../src/algorithms/random_improve.rs          | 25 ++++++-------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/utxo-selection/src/algorithms/random_improve.rs b/utxo-selection/src/algorithms/random_improve.rs
index 00a2664..884b38f 100644
--- a/utxo-selection/src/algorithms/random_improve.rs
+++ b/utxo-selection/src/algorithms/random_improve.rs
@@ -6,7 +6,7 @@ use dcspark_core::tx::{TransactionAsset, UTxOBuilder, UTxODetails};
 use dcspark_core::{Regulated, TokenId, UTxOStore};
 use deps::bigdecimal::ToPrimitive;
 use rand::Rng;
-use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
+use std::collections::{BTreeSet, HashMap, HashSet};
 
 pub struct RandomImprove {
     available_inputs: Vec<UTxODetails>,
@@ -211,14 +211,15 @@ where
         .cloned()
         .collect::<Vec<usize>>();
 
-    let mut associated_indices: BTreeMap<UTxOBuilder, Vec<usize>> = BTreeMap::new();
     let mut outputs = explicit_outputs
         .iter()
         .filter(|output| by_output(output).is_some())
         .cloned()
         .collect::<Vec<UTxOBuilder>>();
     outputs.sort_by_key(|output| by_output(output).expect("filtered above"));
-    for output in outputs.iter().rev() {
+    // the inputs chosen for each of the outputs
+    let mut associated_indices: Vec<Vec<usize>> = vec![vec![]; outputs.len()];
+    for (output, associated) in outputs.iter().zip(associated_indices.iter_mut()).rev() {
         // TODO: how should we adapt this to inputs being associated when running for other assets?
         // if we do these two phases for each asset and don't take into account the other runs for other assets
         // then we over-add (and potentially fail if we don't have plenty of inputs)
@@ -247,19 +248,13 @@ where
             let input = &available_inputs[i];
             added +=
                 &by_input(input).expect("do not call on asset types that aren't in the output");
-            associated_indices
-                .entry(output.clone())
-                .or_default()
-                .push(i);
+            associated.push(i);
         }
     }
 
     if !relevant_indices.is_empty() {
         // Phase 2: Improvement
-        for output in outputs.iter_mut() {
-            let associated = associated_indices
-                .get_mut(output)
-                .ok_or_else(|| anyhow!("Associated index by output key not found"))?;
+        for (output, associated) in outputs.iter().zip(associated_indices.iter_mut()) {
             for i in associated.iter_mut() {
                 let random_index = rng.gen_range(0..relevant_indices.len());
                 let j: &mut usize = relevant_indices
@@ -289,12 +284,8 @@ where
     }
 
     // after finalizing the improvement we need to actually add these results to the builder
-    for output in outputs.iter() {
-        for i in associated_indices
-            .get(output)
-            .ok_or_else(|| anyhow!("Transaction output key not found"))?
-            .iter()
-        {
+    for associated in associated_indices.iter() {
+        for i in associated.iter() {
             let input = &available_inputs[*i];
             let input_fee = &estimator.fee_for_input(input)?;
             estimator.add_input(input.clone())?;
-- 
2.43.0


From 6245eb289ba02966176ef25a197f329d7d0c49ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:06 +0000
Subject: [PATCH 13/31] fix: utxo-selection: random improve does not improve an
 output into being short

---
 .../src/algorithms/random_improve.rs          | 34 ++++++++++++-------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/utxo-selection/src/algorithms/random_improve.rs b/utxo-selection/src/algorithms/random_improve.rs
index 884b38f..d4c7bc4 100644
--- a/utxo-selection/src/algorithms/random_improve.rs
+++ b/utxo-selection/src/algorithms/random_improve.rs
@@ -4,7 +4,6 @@ use crate::estimate::TransactionFeeEstimator;
 use anyhow::anyhow;
 use dcspark_core::tx::{TransactionAsset, UTxOBuilder, UTxODetails};
 use dcspark_core::{Regulated, TokenId, UTxOStore};
-use deps::bigdecimal::ToPrimitive;
 use rand::Rng;
 use std::collections::{BTreeSet, HashMap, HashSet};
 
@@ -255,24 +254,35 @@ where
     if !relevant_indices.is_empty() {
         // Phase 2: Improvement
         for (output, associated) in outputs.iter().zip(associated_indices.iter_mut()) {
+            let amount_of = |i: usize| {
+                by_input(&available_inputs[i])
+                    .expect("do not call on asset types that aren't in the output")
+            };
+            let min = by_output(output).expect("filtered above");
+            let ideal = &min + &min;
+            let max = &ideal + &min;
+            let mut added = dcspark_core::Value::zero();
+            for i in associated.iter() {
+                added += amount_of(*i);
+            }
             for i in associated.iter_mut() {
                 let random_index = rng.gen_range(0..relevant_indices.len());
                 let j: &mut usize = relevant_indices
                     .get_mut(random_index)
                     .ok_or_else(|| anyhow!("Relevant index by random index not found"))?;
                 let should_improve = {
-                    let input = &available_inputs[*i];
-                    let new_input = &available_inputs[*j];
-                    let cur = input.value.raw().to_u64().unwrap();
-                    let new = new_input.value.raw().to_u64().unwrap();
-                    let min = output.value.raw().to_u64().unwrap();
-                    let ideal = 2 * min;
-                    let max = 3 * min;
-                    let move_closer =
-                        (ideal as i128 - new as i128).abs() < (ideal as i128 - cur as i128).abs();
+                    let cur = amount_of(*i);
+                    let new = amount_of(*j);
+                    let move_closer = (&ideal - &new).raw().abs() < (&ideal - &cur).raw().abs();
                     let not_exceed_max = new < max;
-
-                    move_closer && not_exceed_max
+                    let still_covered = &(&added - &cur) + &new >= min;
+
+                    if move_closer && not_exceed_max && still_covered {
+                        added = &(&added - &cur) + &new;
+                        true
+                    } else {
+                        false
+                    }
                 };
                 if should_improve {
                     available_indices.insert(*i);
-- 
2.43.0


From 7f010fd095ea7122da97e3b31aa95319f653915c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:49 +0000
Subject: [PATCH 14/31] fix: utxo-selection: thermostat under a fee model where
 inputs are free

---
 utxo-selection/src/algorithms/thermostat.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/utxo-selection/src/algorithms/thermostat.rs b/utxo-selection/src/algorithms/thermostat.rs
index d1f322c..4a7aa81 100644
--- a/utxo-selection/src/algorithms/thermostat.rs
+++ b/utxo-selection/src/algorithms/thermostat.rs
@@ -96,10 +96,11 @@ impl Thermostat {
         // in two in order to preserver distribution
         let reserved_room = reserved_room * 2;
 
-        Ok(estimate
+        let room = estimate
             .max_size()?
-            .saturating_sub(estimate.current_size()?.saturating_add(reserved_room))
-            / size_of_one_input)
+            .saturating_sub(estimate.current_size()?.saturating_add(reserved_room));
+        // any number of inputs that take no room are allowed
+        Ok(room.checked_div(size_of_one_input).unwrap_or(usize::MAX))
     }
 
     fn add_input(&mut self, input: UTxODetails) {
-- 
2.43.0


From 9df260b93ad88ee778a03e14f28de93a180945fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:38 +0000
Subject: [PATCH 15/31] fix: utxo-selection: thermostat with an asset that only
 the fixed inputs have

---
 utxo-selection/src/algorithms/thermostat.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/utxo-selection/src/algorithms/thermostat.rs b/utxo-selection/src/algorithms/thermostat.rs
index 4a7aa81..49b42dc 100644
--- a/utxo-selection/src/algorithms/thermostat.rs
+++ b/utxo-selection/src/algorithms/thermostat.rs
@@ -4,7 +4,7 @@ use crate::{
 };
 use anyhow::{anyhow, Context};
 use dcspark_core::tx::{TransactionAsset, UTxOBuilder, UTxODetails};
-use dcspark_core::{Address, Balance, Regulated, TokenId, UTxOStore, Value};
+use dcspark_core::{Address, AssetName, Balance, PolicyId, Regulated, TokenId, UTxOStore, Value};
 use deps::bigdecimal::ToPrimitive;
 use serde::Deserialize;
 use std::collections::hash_map::Entry;
@@ -43,6 +43,8 @@ pub struct Thermostat {
 
     balance: Balance<Regulated>,
     asset_balance: HashMap<TokenId, Balance<Regulated>>,
+    // the identifiers of the assets in `asset_balance`
+    asset_ids: HashMap<TokenId, (PolicyId, AssetName)>,
     config: ThermostatAlgoConfig,
     available_utxos: UTxOStore,
 }
@@ -61,6 +63,7 @@ impl Thermostat {
             selected_inputs_value: Value::zero(),
             balance: Balance::Balanced,
             asset_balance: HashMap::new(),
+            asset_ids: HashMap::new(),
             config,
             available_utxos: Default::default(),
         }
@@ -308,8 +311,9 @@ impl Thermostat {
                 } else {
                     let (policy_id, asset_name) = utxos
                         .get_asset_ids(&asset)
+                        .or_else(|| self.asset_ids.get(&asset))
                         .cloned()
-                        .expect("Always expect to retrieve the policy_id/asset_name");
+                        .ok_or_else(|| anyhow!("policy and name of {asset} are not known"))?;
 
                     entry.assets.push(TransactionAsset {
                         policy_id,
@@ -570,6 +574,7 @@ impl Thermostat {
         self.selected_inputs_value = Value::zero();
         self.balance = Balance::Balanced;
         self.asset_balance = HashMap::new();
+        self.asset_ids = HashMap::new();
     }
 }
 
@@ -599,6 +604,16 @@ impl InputSelectionAlgorithm for Thermostat {
     ) -> anyhow::Result<InputSelectionResult<Self::InputUtxo, Self::OutputUtxo>> {
         self.reset();
         self.outputs = input_output_setup.fixed_outputs.clone();
+        for (token, asset) in input_output_setup
+            .input_asset_balance
+            .iter()
+            .chain(input_output_setup.output_asset_balance.iter())
+        {
+            self.asset_ids.insert(
+                token.clone(),
+                (asset.policy_id.clone(), asset.asset_name.clone()),
+            );
+        }
         for (token, asset) in input_output_setup.input_asset_balance.iter() {
             *self
                 .asset_balance
-- 
2.43.0


From 45854dbeb46efc07f238edd5e012c24f8cf4995b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:22 +0000
Subject: [PATCH 16/31] fix: utxo-selection: thermostat keeps the asset of a
 change it does not split

---
 utxo-selection/src/algorithms/thermostat.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/utxo-selection/src/algorithms/thermostat.rs b/utxo-selection/src/algorithms/thermostat.rs
index 49b42dc..cd02c22 100644
--- a/utxo-selection/src/algorithms/thermostat.rs
+++ b/utxo-selection/src/algorithms/thermostat.rs
@@ -423,10 +423,6 @@ impl Thermostat {
                     let pivot = total_current_balance / self.config.num_accumulators_assets;
 
                     if asset.quantity > pivot {
-                        let quantity = &mut new.assets.get_mut(0).unwrap().quantity;
-                        *quantity = (quantity.clone() / 2).truncate();
-                        asset.quantity -= quantity.clone();
-
                         let fee_for_output = estimate.fee_for_output(&new)?;
                         let fee_new = (&fee_for_output / 2).truncate();
                         let value = (&new.value / 2).truncate();
@@ -435,6 +431,10 @@ impl Thermostat {
                             continue;
                         }
 
+                        let quantity = &mut new.assets.get_mut(0).unwrap().quantity;
+                        *quantity = (quantity.clone() / 2).truncate();
+                        asset.quantity -= quantity.clone();
+
                         // new.value + change.value + fee_for_output = original value
                         // (original valuye / 2 - fee_new) + (original value - original_value / 2 + fee_new - (fee_new + (fee_for_output - fee_new)) + fee_for_output =? original value
 
-- 
2.43.0


From 4a7725ee5bd6b5e14a379ef4087c3ec0cc518d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:22 +0000
Subject: [PATCH 17/31] fix: utxo-selection: thermostat fails when the minimum
 fee is not left over

---
 utxo-selection/src/algorithms/thermostat.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utxo-selection/src/algorithms/thermostat.rs b/utxo-selection/src/algorithms/thermostat.rs
index cd02c22..d57cca1 100644
--- a/utxo-selection/src/algorithms/thermostat.rs
+++ b/utxo-selection/src/algorithms/thermostat.rs
@@ -562,6 +562,9 @@ impl Thermostat {
 
         self.balance_excess(estimator)?;
         self.split_accumulators(&utxos, estimator)?;
+        if self.current_balance(estimator)?.in_debt() {
+            return Err(anyhow!("Unbalanced ada"));
+        }
         self.available_utxos = utxos;
         Ok(())
     }
-- 
2.43.0


From a26d8adcfb6cfd28f6f9eae24a96302977a94f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:41 +0000
Subject: [PATCH 18/31] fix: fork-handling source no longer panics on its first
 block when there is no point to roll back to

With an empty multiverse and no `from` (the type allows both), the first
block hit an unwrap of `from`. There is nothing to roll back, so the block
is delivered as it is.
---
 blockchain-source/src/multiverse/rollback.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/blockchain-source/src/multiverse/rollback.rs b/blockchain-source/src/multiverse/rollback.rs
index 5abf862..277c894 100644
--- a/blockchain-source/src/multiverse/rollback.rs
+++ b/blockchain-source/src/multiverse/rollback.rs
@@ -208,11 +208,14 @@ where
             self.events
                 .pop()
                 .expect("no common ancestor between branches")
-        } else {
+        } else if let Some(from) = from {
             // if the db is empty, send a rollback event to the `from` argument, just to be
             // safe
             self.events.push(Event::InnerEvent(block));
-            Event::Rollback(from.as_ref().unwrap().clone())
+            Event::Rollback(from.clone())
+        } else {
+            // there is nothing to roll back to
+            Event::InnerEvent(block)
         };
 
         Ok(Some(new_event))
-- 
2.43.0


From c193d236121c897eb69ea599509bc2381f40cbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:30 +0000
Subject: [PATCH 19/31] fix: deliver the first block of a chain that has no
 other when pulling from the genesis parent

---
 blockchain-source/src/cardano/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blockchain-source/src/cardano/mod.rs b/blockchain-source/src/cardano/mod.rs
index a653160..7af1241 100644
--- a/blockchain-source/src/cardano/mod.rs
+++ b/blockchain-source/src/cardano/mod.rs
@@ -269,7 +269,8 @@ async fn block_fetch(
         }
     };
 
-    if tip.point == from {
+    // the first block is still missing if it isn't to be ignored
+    if tip.point == from && ignore_first_block {
         info!("source is up to date, nothing to pull");
         return Ok(());
     }
-- 
2.43.0


From 00c1ac952f6f00ef8a7b865b583acbcdf76c08be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:30 +0000
Subject: [PATCH 20/31] fix: report a block that cannot be decoded instead of
 ending the request handler

---
 blockchain-source/src/cardano/event.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blockchain-source/src/cardano/event.rs b/blockchain-source/src/cardano/event.rs
index 8a038d4..4d26724 100644
--- a/blockchain-source/src/cardano/event.rs
+++ b/blockchain-source/src/cardano/event.rs
@@ -106,7 +106,7 @@ impl<Tip> GetNextFrom for CardanoNetworkEvent<BlockEvent, Tip> {
 impl BlockEvent {
     pub(crate) fn from_serialized_block(raw_block: &[u8], era: &Era) -> anyhow::Result<Self> {
         let block = cml_multi_era::MultiEraBlock::from_explicit_network_cbor_bytes(raw_block)
-            .expect("failed to deserialize block");
+            .map_err(|error| anyhow!("failed to deserialize block: {:?}", error))?;
         let header = &block.header();
         Ok(BlockEvent {
             raw_block: raw_block.to_vec(),
-- 
2.43.0


From d4d006b742e7aa836b7145ab3eb557ba878899ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:02 +0000
Subject: [PATCH 21/31] fix: keep all of an asset that comes in several entries
 when translating to the ledger's types

---
 cardano-utils/src/utxo.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/cardano-utils/src/utxo.rs b/cardano-utils/src/utxo.rs
index 62347c5..9bb1bce 100644
--- a/cardano-utils/src/utxo.rs
+++ b/cardano-utils/src/utxo.rs
@@ -32,10 +32,7 @@ pub fn utxo_details_to_cml_input(
         cardano_multiplatform_lib::address::Address::from_bech32(details.address.as_ref())
             .map_err(|err| anyhow!("can't convert input during address conversion: {}", err))?;
 
-    let mut assets_map = HashMap::new();
-    details.assets.iter().for_each(|asset: &TransactionAsset| {
-        assets_map.insert(asset.fingerprint.clone(), asset.clone());
-    });
+    let assets_map = assets_by_fingerprint(&details.assets);
 
     let value = tokens_to_csl_value(&details.value, &assets_map)
         .map_err(|err| anyhow!("can't convert value: {}", err))?;
@@ -103,6 +100,18 @@ pub fn utxo_details_from_io(
     })
 }
 
+// an asset may come in several entries, it is their sum that there is of it
+fn assets_by_fingerprint(assets: &[TransactionAsset]) -> HashMap<TokenId, TransactionAsset> {
+    let mut assets_map = HashMap::<TokenId, TransactionAsset>::new();
+    for asset in assets.iter() {
+        assets_map
+            .entry(asset.fingerprint.clone())
+            .and_modify(|known| known.quantity += &asset.quantity)
+            .or_insert_with(|| asset.clone());
+    }
+    assets_map
+}
+
 fn value_to_csl_coin(value: &Value<Regulated>) -> anyhow::Result<Coin> {
     Ok(Coin::from(value.to_u64().ok_or_else(|| {
         anyhow!("Can't convert input balance to u64")
@@ -213,10 +222,7 @@ pub fn utxo_builder_to_cml_output(builder: &UTxOBuilder) -> anyhow::Result<Trans
         cardano_multiplatform_lib::address::Address::from_bech32(builder.address.as_ref())
             .map_err(|err| anyhow!("can't convert output during address conversion: {}", err))?;
 
-    let mut assets_map = HashMap::new();
-    builder.assets.iter().for_each(|asset: &TransactionAsset| {
-        assets_map.insert(asset.fingerprint.clone(), asset.clone());
-    });
+    let assets_map = assets_by_fingerprint(&builder.assets);
 
     let value = tokens_to_csl_value(&builder.value, &assets_map)
         .map_err(|err| anyhow!("can't convert value: {}", err))?;
-- 
2.43.0


From a47b53c246f7091ec7b2b6d9446ce554fe4c92e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:02 +0000
Subject: [PATCH 22/31] fix: take the name of an asset, not its serialised
 form, from the ledger's types

---
 cardano-utils/src/utxo.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cardano-utils/src/utxo.rs b/cardano-utils/src/utxo.rs
index 9bb1bce..3dee6a5 100644
--- a/cardano-utils/src/utxo.rs
+++ b/cardano-utils/src/utxo.rs
@@ -200,7 +200,7 @@ fn csl_value_to_tokens(
     let mut tokens = HashMap::<TokenId, TransactionAsset>::new();
     multiasset_iter(value, |policy_id, asset_name, quantity| {
         let policy_id = PolicyId::new(hex::encode(policy_id.to_bytes()));
-        let asset_name = AssetName::new(hex::encode(asset_name.to_bytes()));
+        let asset_name = AssetName::new(hex::encode(asset_name.name()));
         let fingerprint = fingerprint(&policy_id, &asset_name)
             .map_err(|err| anyhow!("Can't create fingerprint {err}"))?;
         let quantity = quantity.ok_or_else(|| anyhow!("not found asset quantity"))?;
-- 
2.43.0


From a7d1b46de9d5ca2a1d66fc3899e1af1cd07b7a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:02 +0000
Subject: [PATCH 23/31] fix: the protocol magic adds to the size of the
 transaction, it does not replace it

---
 utxo-selection/src/estimators/thermostat_estimator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utxo-selection/src/estimators/thermostat_estimator.rs b/utxo-selection/src/estimators/thermostat_estimator.rs
index e1cf5c5..9bc84db 100644
--- a/utxo-selection/src/estimators/thermostat_estimator.rs
+++ b/utxo-selection/src/estimators/thermostat_estimator.rs
@@ -91,7 +91,7 @@ impl ThermostatFeeEstimator {
 
     #[allow(unused)]
     pub fn add_protocol_magic(&mut self, protocol_magic: impl AsRef<str>) {
-        self.current_size = protocol_magic.as_ref().len() + 5;
+        self.current_size += protocol_magic.as_ref().len() + 5;
         self.cost_metadata = {
             let v = self
                 .network_info
-- 
2.43.0


From a666b3b30cb4236d7c3cdf9fe057941646a0cdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:00 +0000
Subject: [PATCH 24/31] fix: the confirmed-block source can go on when all tips
 are abandoned before anything is confirmed

---
 blockchain-source/src/multiverse/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/blockchain-source/src/multiverse/mod.rs b/blockchain-source/src/multiverse/mod.rs
index 9d33e16..a465e65 100644
--- a/blockchain-source/src/multiverse/mod.rs
+++ b/blockchain-source/src/multiverse/mod.rs
@@ -117,8 +117,14 @@ where
                         // TODO: re-check this
                         checkpoints.push(from.clone());
                     }
-                } else if let Some(from) = from {
-                    checkpoints.push(from.clone());
+                } else {
+                    // as long as nothing is confirmed, the first block we have is what the
+                    // wrapped source can continue from if all the tips got abandoned
+                    checkpoints.extend(self.multiverse.iter().next().and_then(V::next_from));
+
+                    if let Some(from) = from {
+                        checkpoints.push(from.clone());
+                    }
                 }
 
                 checkpoints
-- 
2.43.0


From ff353df371c062aa9b69e33e6d0eeec785f21162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:00 +0000
Subject: [PATCH 25/31] fix: the fork-handling source can go on when all tips
 are abandoned before anything is confirmed

---
 blockchain-source/src/multiverse/rollback.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blockchain-source/src/multiverse/rollback.rs b/blockchain-source/src/multiverse/rollback.rs
index 277c894..b35472e 100644
--- a/blockchain-source/src/multiverse/rollback.rs
+++ b/blockchain-source/src/multiverse/rollback.rs
@@ -116,6 +116,10 @@ where
                 let confirmed = self.multiverse.get(confirmed).unwrap();
 
                 checkpoints.insert(confirmed.next_from().unwrap());
+            } else {
+                // as long as nothing is confirmed, the first block we have is what the wrapped
+                // source can continue from if all the tips got abandoned
+                checkpoints.extend(self.multiverse.iter().next().and_then(V::next_from));
             }
 
             if let Some(from) = from {
-- 
2.43.0


From 348ca737ce5368ab47fa555aad291d19c5b7a607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:04 +0000
Subject: [PATCH 26/31] fix: multiverse: inserting a present block again must
 not overwrite the stored one

---
 multiverse/src/lib.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/multiverse/src/lib.rs b/multiverse/src/lib.rs
index 73f0093..fabd1d0 100644
--- a/multiverse/src/lib.rs
+++ b/multiverse/src/lib.rs
@@ -335,12 +335,14 @@ where
         )
     )]
     pub fn insert(&mut self, variant: V) -> Result<(), MultiverseError> {
+        // an entry that is already present is left untouched: the database must
+        // not be updated with a value that is not the one kept in memory
+        if self.all.contains_key(variant.id()) {
+            return Ok(());
+        }
+
         if !self.db_insert(variant.block_number(), variant.id(), &variant)? {
-            if self.all.contains_key(&EntryRef::new(variant.id().clone())) {
-                return Ok(());
-            } else {
-                tracing::debug!(counter = %variant.block_number(), key = ?variant.id(), "half backed insert");
-            }
+            tracing::debug!(counter = %variant.block_number(), key = ?variant.id(), "half backed insert");
         }
 
         self.insert_in_memory(variant)
-- 
2.43.0


From 0127bbbb39034b0c71a9f7cf837c4052c5eff247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:27 +0000
Subject: [PATCH 27/31] fix: thermostat: no part of a split change may fall
 below the least value of an output

---
 utxo-selection/src/algorithms/thermostat.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/utxo-selection/src/algorithms/thermostat.rs b/utxo-selection/src/algorithms/thermostat.rs
index d57cca1..3f3cbd2 100644
--- a/utxo-selection/src/algorithms/thermostat.rs
+++ b/utxo-selection/src/algorithms/thermostat.rs
@@ -431,6 +431,13 @@ impl Thermostat {
                             continue;
                         }
 
+                        // neither part may fall below what an output must hold
+                        if &value - &fee_for_output + &fee_new
+                            < estimate.min_value_for_output(new.clone())?
+                        {
+                            continue;
+                        }
+
                         let quantity = &mut new.assets.get_mut(0).unwrap().quantity;
                         *quantity = (quantity.clone() / 2).truncate();
                         asset.quantity -= quantity.clone();
@@ -461,6 +468,13 @@ impl Thermostat {
                         continue;
                     }
 
+                    // neither part may fall below what an output must hold
+                    if &value - &fee_for_output + &fee_new
+                        < estimate.min_value_for_output(new.clone())?
+                    {
+                        continue;
+                    }
+
                     if current > pivot {
                         new.value = &value - &fee_new;
                         change.value = &change.value - &new.value - &fee_for_output;
-- 
2.43.0


From 240489a9dd754cf2ae6f18ee153157d474450c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:27 +0000
Subject: [PATCH 28/31] fix: random-improve: an asset in several entries of an
 output counts whole

---
 .../src/algorithms/random_improve.rs          | 27 +++++++++----------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/utxo-selection/src/algorithms/random_improve.rs b/utxo-selection/src/algorithms/random_improve.rs
index d4c7bc4..6b5e159 100644
--- a/utxo-selection/src/algorithms/random_improve.rs
+++ b/utxo-selection/src/algorithms/random_improve.rs
@@ -3,7 +3,7 @@ use crate::common::{calculate_main_token_balance, InputOutputSetup, InputSelecti
 use crate::estimate::TransactionFeeEstimator;
 use anyhow::anyhow;
 use dcspark_core::tx::{TransactionAsset, UTxOBuilder, UTxODetails};
-use dcspark_core::{Regulated, TokenId, UTxOStore};
+use dcspark_core::{Regulated, TokenId, UTxOStore, Value};
 use rand::Rng;
 use std::collections::{BTreeSet, HashMap, HashSet};
 
@@ -88,20 +88,8 @@ impl InputSelectionAlgorithm for RandomImprove {
                 &mut asset_input_balance,
                 &mut input_balance,
                 &mut fee,
-                |value: &UTxODetails| {
-                    value
-                        .assets
-                        .iter()
-                        .find(|asset| &asset.fingerprint == token)
-                        .map(|asset| asset.quantity.clone())
-                },
-                |value: &UTxOBuilder| {
-                    value
-                        .assets
-                        .iter()
-                        .find(|asset| &asset.fingerprint == token)
-                        .map(|asset| asset.quantity.clone())
-                },
+                |value: &UTxODetails| quantity_of(&value.assets, token),
+                |value: &UTxOBuilder| quantity_of(&value.assets, token),
                 &mut rng,
             )?;
 
@@ -180,6 +168,15 @@ impl InputSelectionAlgorithm for RandomImprove {
     }
 }
 
+/// The whole quantity of the token, which may come in several entries, if there is any entry of it.
+fn quantity_of(assets: &[TransactionAsset], token: &TokenId) -> Option<Value<Regulated>> {
+    assets
+        .iter()
+        .filter(|asset| &asset.fingerprint == token)
+        .map(|asset| asset.quantity.clone())
+        .reduce(|left, right| left + right)
+}
+
 #[allow(clippy::too_many_arguments)]
 fn select_input_and_update_balances<
     Estimate: TransactionFeeEstimator<InputUtxo = UTxODetails, OutputUtxo = UTxOBuilder>,
-- 
2.43.0


From 7becf2a8fbe10cae66d9cebf636955926d5b9ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:51 +0000
Subject: [PATCH 29/31] fix: MicroAlgo::to_algo gives an Algo value, not an
 Ether one

---
 core/src/value.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/value.rs b/core/src/value.rs
index d0c1eaf..6adf106 100644
--- a/core/src/value.rs
+++ b/core/src/value.rs
@@ -363,7 +363,7 @@ impl Value<algo::MicroAlgo> {
     }
 
     #[inline]
-    pub fn to_algo(&self) -> Value<evm::Ether> {
+    pub fn to_algo(&self) -> Value<algo::Algo> {
         Value {
             value: scale(&self.value, algo::ALGO_MICRO_SCALE_FACTOR),
             phantom_data: PhantomData,
-- 
2.43.0


From 9ab309fa175e1df4bfd610e02a3c1216b0f5c562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:41 +0000
Subject: [PATCH 30/31] fix: cardano-net-fetcher: a point without a hash is
 refused, not a panic

---
 cardano-cli-tools/cardano-net-fetcher/src/main.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cardano-cli-tools/cardano-net-fetcher/src/main.rs b/cardano-cli-tools/cardano-net-fetcher/src/main.rs
index 814ad71..75a3aa7 100644
--- a/cardano-cli-tools/cardano-net-fetcher/src/main.rs
+++ b/cardano-cli-tools/cardano-net-fetcher/src/main.rs
@@ -20,9 +20,11 @@ struct Cli {
 }
 
 fn parse_since(since: String) -> anyhow::Result<(BlockId, SlotNumber)> {
-    let mut parts: Vec<_> = since.split(',').collect();
-    let slot: SlotNumber = SlotNumber::new(parts.remove(0).parse()?);
-    let hash: BlockId = BlockId::new(parts.remove(0).to_owned());
+    let (slot, hash) = since
+        .split_once(',')
+        .ok_or_else(|| anyhow::anyhow!("a point is given as slot,hash, not as {since:?}"))?;
+    let slot: SlotNumber = SlotNumber::new(slot.parse()?);
+    let hash: BlockId = BlockId::new(hash.to_owned());
     Ok((hash, slot))
 }
 
-- 
2.43.0


From 63269db1e705f5eb28dc7dad9518871e6f6eb966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:27 +0000
Subject: [PATCH 31/31] fix: truncating a negative value keeps its integral
 part instead of giving zero

---
 core/src/value.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/value.rs b/core/src/value.rs
index 6adf106..68d6941 100644
--- a/core/src/value.rs
+++ b/core/src/value.rs
@@ -162,7 +162,7 @@ impl<Rep> Value<Rep> {
     pub fn truncate(&self) -> Self {
         let value = &self.value;
 
-        let value = if value < &BigDecimal::one() {
+        let value = if value.abs() < BigDecimal::one() {
             BigDecimal::from(0u64)
         } else {
             let value = value.to_string();
-- 
2.43.0

