From e6ed9d9b1d46679ed479f5997a457a61c04d7077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:16 +0000
Subject: [PATCH 01/23] fix: fraos: dropping a clone of a database no longer
 cuts the files of the others

---
 fraos/src/database.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fraos/src/database.rs b/fraos/src/database.rs
index 1860907..b9310b0 100644
--- a/fraos/src/database.rs
+++ b/fraos/src/database.rs
@@ -163,6 +163,11 @@ impl Database {
 
 impl Drop for Database {
     fn drop(&mut self) {
+        // the files are shared with the clones: only the last handle may cut them
+        if Arc::strong_count(&self.write_lock) > 1 {
+            return;
+        }
+
         let _ = self.seqno_index.shrink_to_size();
         let _ = self.flatfile.shrink_to_size();
     }
-- 
2.43.0


From 7335cc3de8f97f13bef8e08ba629fe5a73b5c044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:16 +0000
Subject: [PATCH 02/23] fix: fraos: opening a missing database read-only
 creates nothing

---
 fraos/src/database.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fraos/src/database.rs b/fraos/src/database.rs
index b9310b0..6f9ac8c 100644
--- a/fraos/src/database.rs
+++ b/fraos/src/database.rs
@@ -27,6 +27,9 @@ impl Database {
         let path = path.as_ref();
 
         if !path.exists() {
+            if !writable {
+                return Err(FraosError::FileError(FileError::PathNotFound));
+            }
             std::fs::create_dir(path).map_err(|err| {
                 FraosError::FileError(FileError::FileOpen(path.to_path_buf(), err))
             })?;
-- 
2.43.0


From 35787e72a20620ca4ffd482ad84b4f401f132208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:16 +0000
Subject: [PATCH 03/23] fix: fraos: a sequence number beyond the address space
 has no record

---
 fraos/src/seqno.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fraos/src/seqno.rs b/fraos/src/seqno.rs
index be3b673..b2dd440 100644
--- a/fraos/src/seqno.rs
+++ b/fraos/src/seqno.rs
@@ -88,7 +88,10 @@ impl SeqNoIndex {
         &self,
         seqno: usize,
     ) -> Result<Option<(usize, usize)>, FraosError> {
-        let offset = seqno * Self::SIZE_OF_USIZE * 2;
+        let offset = match seqno.checked_mul(Self::SIZE_OF_USIZE * 2) {
+            None => return Ok(None),
+            Some(offset) => offset,
+        };
 
         let result = self.inner.get_data(offset, |mmap| {
             let mut offset_buffer = [0u8; Self::SIZE_OF_USIZE];
-- 
2.43.0


From aed7351aaffc19ea74f8737cdab33e55ae69e4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:15 +0000
Subject: [PATCH 04/23] fix: fraos: a refused append leaves no trace in the
 storage

---
 fraos/src/growable_mmap.rs | 57 +++++++++++++++++---------------------
 1 file changed, 26 insertions(+), 31 deletions(-)

diff --git a/fraos/src/growable_mmap.rs b/fraos/src/growable_mmap.rs
index 39bfcb3..a677f73 100644
--- a/fraos/src/growable_mmap.rs
+++ b/fraos/src/growable_mmap.rs
@@ -121,16 +121,10 @@ impl GrowableMmap {
                 // create mmap and flush
                 let new_mmap = self.create_mmap(new_mmap_size, already_mapped)?;
 
-                // create index on active mmap
-                let mut single_mmap_index = MmapChunkAddressMapper::new(already_mapped);
-                single_mmap_index
-                    .append_relative_end(extension)
-                    .map_err(FraosError::IndexError)?;
-
                 storage_guard.active_map = Some(ActiveMmap {
                     len: new_mmap_size,
                     mmap: new_mmap,
-                    bounds: single_mmap_index,
+                    bounds: MmapChunkAddressMapper::new(already_mapped),
                 });
 
                 0usize
@@ -140,10 +134,6 @@ impl GrowableMmap {
 
                 // if we have enough space use active mmap
                 if current_mmap_end + extension < active_mmap.len {
-                    active_mmap
-                        .bounds
-                        .append_relative_end(current_mmap_end + extension)
-                        .map_err(FraosError::IndexError)?;
                     current_mmap_end
                 } else {
                     let new_mmap_size = self.get_new_mmap_size(extension);
@@ -157,33 +147,34 @@ impl GrowableMmap {
                     active_mmap.len = new_mmap_size;
 
                     let mut new_bounds = MmapChunkAddressMapper::new(already_mapped);
-                    new_bounds
-                        .append_relative_end(extension)
-                        .map_err(FraosError::IndexError)?;
                     swap(&mut new_bounds, &mut active_mmap.bounds);
 
                     // add old replaced active mmap to inactive mmaps
-                    storage_guard
-                        .inactive_mmaps
-                        .index
-                        .append(new_bounds)
-                        .map_err(FraosError::IndexError)?;
-                    storage_guard.inactive_mmaps.maps.push(
-                        SharedMmap::new(
-                            new_mmap
-                                .make_read_only()
-                                .map_err(|err| FraosError::MmapError(MmapError::Protect(err)))?,
-                        )
-                        .slice(..current_mmap_end),
-                    );
+                    // it is empty if the first write to it failed
+                    if current_mmap_end > 0 {
+                        let old_mmap = new_mmap
+                            .make_read_only()
+                            .map_err(|err| FraosError::MmapError(MmapError::Protect(err)))?;
+                        storage_guard
+                            .inactive_mmaps
+                            .index
+                            .append(new_bounds)
+                            .map_err(FraosError::IndexError)?;
+                        storage_guard
+                            .inactive_mmaps
+                            .maps
+                            .push(SharedMmap::new(old_mmap).slice(..current_mmap_end));
+                    }
 
                     0usize
                 }
             }
         };
 
+        self.rearrange_mmaps(&mut storage_guard)?;
+
         match storage_guard.active_map.as_mut() {
-            None => return Err(FraosError::DataFileDamaged),
+            None => Err(FraosError::DataFileDamaged),
             Some(active_mmap) => {
                 f(&mut active_mmap.mmap.as_mut()[start_write_from..])?;
 
@@ -191,10 +182,14 @@ impl GrowableMmap {
                     .mmap
                     .flush()
                     .map_err(|err| FraosError::MmapError(MmapError::Flush(err)))?;
+
+                // the data becomes a part of the storage only when it is there
+                active_mmap
+                    .bounds
+                    .append_relative_end(start_write_from + extension)
+                    .map_err(FraosError::IndexError)
             }
         }
-
-        self.rearrange_mmaps(storage_guard)
     }
 
     pub fn get_ref_and_apply<F, U>(&self, address: usize, f: F) -> Result<Option<U>, FraosError>
@@ -271,7 +266,7 @@ impl GrowableMmap {
 
     fn rearrange_mmaps(
         &self,
-        mut storage_guard: RwLockWriteGuard<Storage>,
+        storage_guard: &mut RwLockWriteGuard<Storage>,
     ) -> Result<(), FraosError> {
         if storage_guard.inactive_mmaps.maps.len() <= MAX_MMAPS_COUNT {
             return Ok(());
-- 
2.43.0


From e6639774958b889e50cd406201a86de558e6fa5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:23 +0000
Subject: [PATCH 05/23] fix: core: converting MicroAlgo to Algo yields an Algo
 value

---
 core/src/value.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/value.rs b/core/src/value.rs
index d0c1eaf..6adf106 100644
--- a/core/src/value.rs
+++ b/core/src/value.rs
@@ -363,7 +363,7 @@ impl Value<algo::MicroAlgo> {
     }
 
     #[inline]
-    pub fn to_algo(&self) -> Value<evm::Ether> {
+    pub fn to_algo(&self) -> Value<algo::Algo> {
         Value {
             value: scale(&self.value, algo::ALGO_MICRO_SCALE_FACTOR),
             phantom_data: PhantomData,
-- 
2.43.0


From b4d99ba6fcbe3b7ac4d8290c8e0a8520da22529a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:23 +0000
Subject: [PATCH 06/23] fix: core: a UTxO listing a token twice is recorded
 once for that token

---
 core/src/utxo_store.rs | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/core/src/utxo_store.rs b/core/src/utxo_store.rs
index 0447578..6ee99cf 100644
--- a/core/src/utxo_store.rs
+++ b/core/src/utxo_store.rs
@@ -35,20 +35,27 @@ pub struct UTxOStoreMut {
     dictionary: HashMap<TokenId, (PolicyId, AssetName)>,
 }
 
+/// the quantity of the given token in the UTxO: an UTxO may list the same
+/// token more than once.
+fn quantity_of(utxo: &UTxODetails, token: &TokenId) -> Value<Regulated> {
+    if token == &TokenId::MAIN {
+        return utxo.value.clone();
+    }
+
+    let mut quantity = Value::zero();
+    for asset in utxo.assets.iter() {
+        if &asset.fingerprint == token {
+            quantity += &asset.quantity;
+        }
+    }
+    quantity
+}
+
 impl UTxOSet {
     pub fn remove_from_asset(&mut self, pointer: &UtxoPointer) -> Option<Arc<UTxODetails>> {
         let utxo: Arc<UTxODetails> = self.set.remove(pointer)?;
 
-        let value = if self.token_id == TokenId::MAIN {
-            utxo.value.clone()
-        } else {
-            utxo.assets
-                .iter()
-                .find(|ta| ta.fingerprint == self.token_id)
-                .map(|ta| &ta.quantity)
-                .cloned()
-                .expect("We know we already have the value")
-        };
+        let value = quantity_of(&utxo, &self.token_id);
 
         self.finish_remove(value, pointer);
 
@@ -323,14 +330,19 @@ impl UTxOStoreMut {
                 );
 
             for asset in utxo_details.assets.iter() {
-                self.by_policy_id
+                let set = self
+                    .by_policy_id
                     .entry(asset.fingerprint.clone())
-                    .or_default()
-                    .add_value(
+                    .or_default();
+
+                // the UTxO is recorded once per token, with all it has of it
+                if !set.contains_key(&pointer) {
+                    set.add_value(
                         &asset.fingerprint,
-                        asset.quantity.clone(),
+                        quantity_of(&utxo_details, &asset.fingerprint),
                         utxo_details.clone(),
                     );
+                }
 
                 // We want to populate the dictionary only if we don't
                 // already have the entry
-- 
2.43.0


From f4f5e7758231ba15f848ded954f9160b71b5e36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:23 +0000
Subject: [PATCH 07/23] fix: multiverse: the children of a removed entry are
 orphans

---
 multiverse/src/lib.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/multiverse/src/lib.rs b/multiverse/src/lib.rs
index 7acbbe8..8253237 100644
--- a/multiverse/src/lib.rs
+++ b/multiverse/src/lib.rs
@@ -413,17 +413,23 @@ where
             return Err(MultiverseError::NotFound);
         };
 
-        if self.roots.remove(key) {
-            // Removing the entry makes all the children "orphaned". So they
-            // need to become root themselves. Iterate through all the children
-            // and add them in the root set
-            for child in entry.children {
-                assert!(
-                    self.roots.insert(child.clone()),
-                    "Somehow a child ({child:?}) was already in the set of root entries. \
-                This should not happen in normal circumstances.",
-                );
+        let _removed = self.roots.remove(key);
+
+        // Removing the entry makes all the children "orphaned". So they
+        // need to become root themselves. Iterate through all the children
+        // and add them in the root set
+        for child in entry.children {
+            // the key of the removed entry may still be held outside of the
+            // multiverse: the children must not find their way back to it.
+            if let Some(orphan) = self.all.get_mut(&child) {
+                orphan.parent = EntryWeakRef::new();
             }
+
+            assert!(
+                self.roots.insert(child.clone()),
+                "Somehow a child ({child:?}) was already in the set of root entries. \
+                This should not happen in normal circumstances.",
+            );
         }
 
         // if the entry had a parent, it then may become a tip (if that
-- 
2.43.0


From 213a75f6daddc19870733b3a04fe85104e3eaf97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:23 +0000
Subject: [PATCH 08/23] fix: multiverse: inserting a known entry again changes
 nothing

---
 multiverse/src/lib.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/multiverse/src/lib.rs b/multiverse/src/lib.rs
index 8253237..7fe838b 100644
--- a/multiverse/src/lib.rs
+++ b/multiverse/src/lib.rs
@@ -335,12 +335,13 @@ where
         )
     )]
     pub fn insert(&mut self, variant: V) -> Result<(), MultiverseError> {
+        // an entry already there is left as it is, persisted or not
+        if self.all.contains_key(variant.id()) {
+            return Ok(());
+        }
+
         if !self.db_insert(variant.block_number(), variant.id(), &variant)? {
-            if self.all.contains_key(&EntryRef::new(variant.id().clone())) {
-                return Ok(());
-            } else {
-                tracing::debug!(counter = %variant.block_number(), key = ?variant.id(), "half backed insert");
-            }
+            tracing::debug!(counter = %variant.block_number(), key = ?variant.id(), "half backed insert");
         }
 
         self.insert_in_memory(variant)
-- 
2.43.0


From c4607f73e1881071368843518eda2a3fd0a6d02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:23 +0000
Subject: [PATCH 09/23] fix: utxo-selection: RandomImprove offers the inputs it
 was last given

---
 utxo-selection/src/algorithms/random_improve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utxo-selection/src/algorithms/random_improve.rs b/utxo-selection/src/algorithms/random_improve.rs
index 26a32c4..6465a4e 100644
--- a/utxo-selection/src/algorithms/random_improve.rs
+++ b/utxo-selection/src/algorithms/random_improve.rs
@@ -47,7 +47,7 @@ impl InputSelectionAlgorithm for RandomImprove {
         &mut self,
         available_inputs: Vec<Self::InputUtxo>,
     ) -> anyhow::Result<()> {
-        let _available_indices = BTreeSet::from_iter(0..available_inputs.len());
+        self.available_indices = BTreeSet::from_iter(0..available_inputs.len());
         self.available_inputs = available_inputs;
         Ok(())
     }
-- 
2.43.0


From 631e99455e0a647bea6afdb53fba1b5b40aa7d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:23 +0000
Subject: [PATCH 10/23] fix: utxo-selection: RandomImprove counts an input once
 when outputs are equal

---
 .../src/algorithms/random_improve.rs          | 25 ++++++-------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/utxo-selection/src/algorithms/random_improve.rs b/utxo-selection/src/algorithms/random_improve.rs
index 6465a4e..d046a0a 100644
--- a/utxo-selection/src/algorithms/random_improve.rs
+++ b/utxo-selection/src/algorithms/random_improve.rs
@@ -7,7 +7,7 @@ use dcspark_core::{AssetName, PolicyId, Regulated, TokenId, UTxOStore};
 use deps::bigdecimal::ToPrimitive;
 use rand::Rng;
 use std::cmp::Ordering;
-use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
+use std::collections::{BTreeSet, HashMap, HashSet};
 
 pub struct RandomImprove {
     available_inputs: Vec<UTxODetails>,
@@ -214,14 +214,15 @@ where
         .cloned()
         .collect::<Vec<usize>>();
 
-    let mut associated_indices: BTreeMap<UTxOBuilder, Vec<usize>> = BTreeMap::new();
     let mut outputs = explicit_outputs
         .iter()
         .filter(|output| by_output(output).is_some())
         .cloned()
         .collect::<Vec<UTxOBuilder>>();
     outputs.sort_by_key(|output| by_output(output).expect("filtered above"));
-    for output in outputs.iter().rev() {
+    // the inputs covering each of the outputs: two outputs may well be equal
+    let mut associated_indices: Vec<Vec<usize>> = vec![vec![]; outputs.len()];
+    for (output, associated) in outputs.iter().zip(associated_indices.iter_mut()).rev() {
         // TODO: how should we adapt this to inputs being associated when running for other assets?
         // if we do these two phases for each asset and don't take into account the other runs for other assets
         // then we over-add (and potentially fail if we don't have plenty of inputs)
@@ -250,19 +251,13 @@ where
             let input = &available_inputs[i];
             added +=
                 &by_input(input).expect("do not call on asset types that aren't in the output");
-            associated_indices
-                .entry(output.clone())
-                .or_default()
-                .push(i);
+            associated.push(i);
         }
     }
 
     if !relevant_indices.is_empty() {
         // Phase 2: Improvement
-        for output in outputs.iter_mut() {
-            let associated = associated_indices
-                .get_mut(output)
-                .ok_or_else(|| anyhow!("Associated index by output key not found"))?;
+        for (output, associated) in outputs.iter().zip(associated_indices.iter_mut()) {
             for i in associated.iter_mut() {
                 let random_index = rng.gen_range(0..relevant_indices.len());
                 let j: &mut usize = relevant_indices
@@ -292,12 +287,8 @@ where
     }
 
     // after finalizing the improvement we need to actually add these results to the builder
-    for output in outputs.iter() {
-        for i in associated_indices
-            .get(output)
-            .ok_or_else(|| anyhow!("Transaction output key not found"))?
-            .iter()
-        {
+    for associated in associated_indices.iter() {
+        for i in associated.iter() {
             let input = &available_inputs[*i];
             let input_fee = &estimator.fee_for_input(input)?;
             estimator.add_input(input.clone())?;
-- 
2.43.0


From 8ebd53be4936d84ef1a7d1dca4e3b4d7149ef203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:10 +0000
Subject: [PATCH 11/23] fix: utxo-selection: RandomImprove tells tokens by
 their fingerprint

---
 .../src/algorithms/random_improve.rs          | 25 ++++++++-----------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/utxo-selection/src/algorithms/random_improve.rs b/utxo-selection/src/algorithms/random_improve.rs
index d046a0a..3603247 100644
--- a/utxo-selection/src/algorithms/random_improve.rs
+++ b/utxo-selection/src/algorithms/random_improve.rs
@@ -3,7 +3,7 @@ use crate::common::{InputOutputSetup, InputSelectionResult};
 use crate::estimate::TransactionFeeEstimator;
 use anyhow::anyhow;
 use dcspark_core::tx::{TransactionAsset, UTxOBuilder, UTxODetails};
-use dcspark_core::{AssetName, PolicyId, Regulated, TokenId, UTxOStore};
+use dcspark_core::{Regulated, TokenId, UTxOStore};
 use deps::bigdecimal::ToPrimitive;
 use rand::Rng;
 use std::cmp::Ordering;
@@ -71,20 +71,15 @@ impl InputSelectionAlgorithm for RandomImprove {
         let mut chosen_indices = HashSet::<usize>::new();
 
         let mut rng = rand::thread_rng();
-        let mut policy_ids_to_asset_names = asset_output_balance
+        let mut assets = asset_output_balance
             .values()
-            .map(|asset: &TransactionAsset| (asset.policy_id.clone(), asset.asset_name.clone()))
-            .collect::<Vec<(PolicyId, AssetName)>>();
-        policy_ids_to_asset_names.sort_by(
-            |left: &(PolicyId, AssetName), right: &(PolicyId, AssetName)| match left.0.cmp(&right.0)
-            {
-                Ordering::Equal => left.1.cmp(&right.1),
-                x => x,
-            },
-        );
+            .collect::<Vec<&TransactionAsset>>();
+        assets.sort_by(|left, right| match left.policy_id.cmp(&right.policy_id) {
+            Ordering::Equal => left.asset_name.cmp(&right.asset_name),
+            x => x,
+        });
 
-        for (policy_id, asset_name) in policy_ids_to_asset_names.iter() {
-            let token = TokenId::new(format!("{policy_id}:{asset_name}"));
+        for token in assets.into_iter().map(|asset| &asset.fingerprint) {
             let asset_chosen_indices = select_input_and_update_balances(
                 &self.available_inputs,
                 &mut self.available_indices,
@@ -97,14 +92,14 @@ impl InputSelectionAlgorithm for RandomImprove {
                     value
                         .assets
                         .iter()
-                        .find(|asset| asset.fingerprint == token)
+                        .find(|asset| &asset.fingerprint == token)
                         .map(|asset| asset.quantity.clone())
                 },
                 |value: &UTxOBuilder| {
                     value
                         .assets
                         .iter()
-                        .find(|asset| asset.fingerprint == token)
+                        .find(|asset| &asset.fingerprint == token)
                         .map(|asset| asset.quantity.clone())
                 },
                 &mut rng,
-- 
2.43.0


From cd5a67cc5a752dd714b5c1f9b67a7c0b6a73e314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:10 +0000
Subject: [PATCH 12/23] fix: utxo-selection: RandomImprove selects enough for
 the fee

---
 utxo-selection/src/algorithms/random_improve.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utxo-selection/src/algorithms/random_improve.rs b/utxo-selection/src/algorithms/random_improve.rs
index 3603247..47d29b9 100644
--- a/utxo-selection/src/algorithms/random_improve.rs
+++ b/utxo-selection/src/algorithms/random_improve.rs
@@ -1,5 +1,5 @@
 use crate::algorithm::InputSelectionAlgorithm;
-use crate::common::{InputOutputSetup, InputSelectionResult};
+use crate::common::{calculate_main_token_balance, InputOutputSetup, InputSelectionResult};
 use crate::estimate::TransactionFeeEstimator;
 use anyhow::anyhow;
 use dcspark_core::tx::{TransactionAsset, UTxOBuilder, UTxODetails};
@@ -126,7 +126,7 @@ impl InputSelectionAlgorithm for RandomImprove {
         // Phase 3: add extra inputs needed for fees (not covered by CIP-2)
         // We do this at the end because this new inputs won't be associated with
         // a specific output, so the improvement algorithm we do above does not apply here.
-        while input_balance < output_balance {
+        while calculate_main_token_balance(&input_balance, &output_balance, &fee).in_debt() {
             if self.available_indices.is_empty() {
                 return Err(anyhow!("UTxO Balance Insufficient[x]"));
             }
-- 
2.43.0


From 5f00a78981afd6358e880fa0eec6a7f6ec8857bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:10 +0000
Subject: [PATCH 13/23] fix: utxo-selection: RandomImprove keeps an output
 covered when improving

---
 utxo-selection/src/algorithms/random_improve.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/utxo-selection/src/algorithms/random_improve.rs b/utxo-selection/src/algorithms/random_improve.rs
index 47d29b9..aa16ccd 100644
--- a/utxo-selection/src/algorithms/random_improve.rs
+++ b/utxo-selection/src/algorithms/random_improve.rs
@@ -253,14 +253,22 @@ where
     if !relevant_indices.is_empty() {
         // Phase 2: Improvement
         for (output, associated) in outputs.iter().zip(associated_indices.iter_mut()) {
+            let needed = by_output(output).expect("filtered above");
+            let mut added = dcspark_core::Value::zero();
+            for i in associated.iter() {
+                added += &by_input(&available_inputs[*i]).expect("filtered above");
+            }
+
             for i in associated.iter_mut() {
                 let random_index = rng.gen_range(0..relevant_indices.len());
                 let j: &mut usize = relevant_indices
                     .get_mut(random_index)
                     .ok_or_else(|| anyhow!("Relevant index by random index not found"))?;
+                let input = &available_inputs[*i];
+                let new_input = &available_inputs[*j];
+                let added_after = &added - &by_input(input).expect("filtered above")
+                    + &by_input(new_input).expect("filtered above");
                 let should_improve = {
-                    let input = &available_inputs[*i];
-                    let new_input = &available_inputs[*j];
                     let cur = input.value.raw().to_u64().unwrap();
                     let new = new_input.value.raw().to_u64().unwrap();
                     let min = output.value.raw().to_u64().unwrap();
@@ -270,9 +278,11 @@ where
                         (ideal as i128 - new as i128).abs() < (ideal as i128 - cur as i128).abs();
                     let not_exceed_max = new < max;
 
-                    move_closer && not_exceed_max
+                    // the output remains covered
+                    move_closer && not_exceed_max && added_after >= needed
                 };
                 if should_improve {
+                    added = added_after;
                     available_indices.insert(*i);
                     available_indices.remove(j);
                     std::mem::swap(i, j);
-- 
2.43.0


From 81eb1e38af1690b6ee5f2e5e95058a58afe62975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:10 +0000
Subject: [PATCH 14/23] fix: utxo-selection: a change that cannot pay for
 itself is refused

---
 .../src/algorithms/balance_change_single_output.rs          | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/utxo-selection/src/algorithms/balance_change_single_output.rs b/utxo-selection/src/algorithms/balance_change_single_output.rs
index e04a411..c5cb315 100644
--- a/utxo-selection/src/algorithms/balance_change_single_output.rs
+++ b/utxo-selection/src/algorithms/balance_change_single_output.rs
@@ -110,6 +110,12 @@ impl InputSelectionAlgorithm for SingleOutputChangeBalancer {
         };
 
         let fee_for_change = estimator.fee_for_output(&change)?;
+        if change.value < fee_for_change {
+            return Err(anyhow!(
+                "there's lack of main asset selected, can't pay {} for the change",
+                fee_for_change
+            ));
+        }
         change.value -= &fee_for_change;
         fee += &fee_for_change;
 
-- 
2.43.0


From e44be20eda1a904661cfd0f26b4576a584beefb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:19 +0000
Subject: [PATCH 15/23] fix: utxo-selection: Thermostat loses no tokens on a
 change too small to split

---
 utxo-selection/src/algorithms/thermostat.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utxo-selection/src/algorithms/thermostat.rs b/utxo-selection/src/algorithms/thermostat.rs
index d1f322c..51800e5 100644
--- a/utxo-selection/src/algorithms/thermostat.rs
+++ b/utxo-selection/src/algorithms/thermostat.rs
@@ -420,7 +420,7 @@ impl Thermostat {
                     if asset.quantity > pivot {
                         let quantity = &mut new.assets.get_mut(0).unwrap().quantity;
                         *quantity = (quantity.clone() / 2).truncate();
-                        asset.quantity -= quantity.clone();
+                        let quantity = quantity.clone();
 
                         let fee_for_output = estimate.fee_for_output(&new)?;
                         let fee_new = (&fee_for_output / 2).truncate();
@@ -430,6 +430,8 @@ impl Thermostat {
                             continue;
                         }
 
+                        asset.quantity -= quantity;
+
                         // new.value + change.value + fee_for_output = original value
                         // (original valuye / 2 - fee_new) + (original value - original_value / 2 + fee_new - (fee_new + (fee_for_output - fee_new)) + fee_for_output =? original value
 
-- 
2.43.0


From 2b31d58a8d44880c91f8b8099c63075a30371c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:46 +0000
Subject: [PATCH 16/23] fix: multiverse: iteration yields every entry of a
 block number

---
 multiverse/src/visitor/depth_ordered.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/multiverse/src/visitor/depth_ordered.rs b/multiverse/src/visitor/depth_ordered.rs
index 330628d..c8876fe 100644
--- a/multiverse/src/visitor/depth_ordered.rs
+++ b/multiverse/src/visitor/depth_ordered.rs
@@ -32,7 +32,9 @@ where
             let (bn, set) = self.tree.iter_mut().next()?;
             let bn = *bn;
 
-            if let Some(entry_ref) = set.drain().next() {
+            // draining the set would drop the other entries of the same block number
+            if let Some(entry_ref) = set.iter().next().cloned() {
+                set.remove(&entry_ref);
                 let entry = self.inner.all.get(&entry_ref)?;
                 return Some(&entry.value);
             }
-- 
2.43.0


From 192b98bb0ea37705410d00bb54fed04a6cb558b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:40 +0000
Subject: [PATCH 17/23] fix: Thermostat pays the fee of the changes it makes
 last

---
 utxo-selection/src/algorithms/thermostat.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/utxo-selection/src/algorithms/thermostat.rs b/utxo-selection/src/algorithms/thermostat.rs
index 51800e5..1e238e5 100644
--- a/utxo-selection/src/algorithms/thermostat.rs
+++ b/utxo-selection/src/algorithms/thermostat.rs
@@ -556,6 +556,8 @@ impl Thermostat {
         for asset in assets {
             self.balance_excess_of_asset(&utxos, asset, estimator)?;
         }
+        // the changes made just now have to be paid for too
+        utxos = self.select_input_for_main_until_balanced(utxos, estimator)?;
 
         self.balance_excess(estimator)?;
         self.split_accumulators(&utxos, estimator)?;
@@ -619,6 +621,10 @@ impl InputSelectionAlgorithm for Thermostat {
 
         self.select(estimator)?;
 
+        if self.current_balance(estimator)?.in_debt() {
+            return Err(anyhow!("Unbalanced ada"));
+        }
+
         let mut input_balance = Value::zero();
         let mut input_asset_balance = HashMap::new();
         for input in self
-- 
2.43.0


From ae23a7630d70d9391f5f08864260800d98a6dfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:49 +0000
Subject: [PATCH 18/23] fix: a failed RandomImprove selection keeps what it was
 offering

---
 .../src/algorithms/random_improve.rs           | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/utxo-selection/src/algorithms/random_improve.rs b/utxo-selection/src/algorithms/random_improve.rs
index aa16ccd..4ff4643 100644
--- a/utxo-selection/src/algorithms/random_improve.rs
+++ b/utxo-selection/src/algorithms/random_improve.rs
@@ -70,6 +70,9 @@ impl InputSelectionAlgorithm for RandomImprove {
 
         let mut chosen_indices = HashSet::<usize>::new();
 
+        // a selection that fails leaves what is offered as it was
+        let mut available_indices = self.available_indices.clone();
+
         let mut rng = rand::thread_rng();
         let mut assets = asset_output_balance
             .values()
@@ -82,7 +85,7 @@ impl InputSelectionAlgorithm for RandomImprove {
         for token in assets.into_iter().map(|asset| &asset.fingerprint) {
             let asset_chosen_indices = select_input_and_update_balances(
                 &self.available_inputs,
-                &mut self.available_indices,
+                &mut available_indices,
                 &explicit_outputs,
                 estimator,
                 &mut asset_input_balance,
@@ -111,7 +114,7 @@ impl InputSelectionAlgorithm for RandomImprove {
         // add in remaining ADA
         let ada_chosen_indices = select_input_and_update_balances(
             &self.available_inputs,
-            &mut self.available_indices,
+            &mut available_indices,
             &explicit_outputs,
             estimator,
             &mut asset_input_balance,
@@ -127,15 +130,14 @@ impl InputSelectionAlgorithm for RandomImprove {
         // We do this at the end because this new inputs won't be associated with
         // a specific output, so the improvement algorithm we do above does not apply here.
         while calculate_main_token_balance(&input_balance, &output_balance, &fee).in_debt() {
-            if self.available_indices.is_empty() {
+            if available_indices.is_empty() {
                 return Err(anyhow!("UTxO Balance Insufficient[x]"));
             }
-            let i = *self
-                .available_indices
+            let i = *available_indices
                 .iter()
-                .nth(rng.gen_range(0..self.available_indices.len()))
+                .nth(rng.gen_range(0..available_indices.len()))
                 .unwrap();
-            self.available_indices.remove(&i);
+            available_indices.remove(&i);
             let input = &self.available_inputs[i];
             let input_fee = estimator.fee_for_input(input)?;
             estimator.add_input(input.clone())?;
@@ -154,6 +156,8 @@ impl InputSelectionAlgorithm for RandomImprove {
             chosen_indices.insert(i);
         }
 
+        self.available_indices = available_indices;
+
         Ok(InputSelectionResult {
             fixed_inputs: input_output_setup.fixed_inputs,
             fixed_outputs: input_output_setup.fixed_outputs,
-- 
2.43.0


From 15c370b35fb77528ddc55e1a3fac5a4c34df0eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:04 +0000
Subject: [PATCH 19/23] fix: an epoch has its length over the slot length of
 slots

---
 blockchain-source/src/cardano/time.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/blockchain-source/src/cardano/time.rs b/blockchain-source/src/cardano/time.rs
index 68dc94f..792e06d 100644
--- a/blockchain-source/src/cardano/time.rs
+++ b/blockchain-source/src/cardano/time.rs
@@ -58,13 +58,17 @@ impl Era {
     pub fn absolute_slot_to_epoch(&self, slot: u64) -> Option<u64> {
         slot.checked_sub(self.first_slot)
             .map(|slot_relative_to_era| {
-                self.start_epoch + slot_relative_to_era / self.epoch_length_seconds
+                self.start_epoch + slot_relative_to_era / self.slots_per_epoch()
             })
     }
 
     pub fn absolute_slot_to_relative(&self, slot: u64) -> Option<u64> {
         slot.checked_sub(self.first_slot)
-            .map(|slot_relative_to_era| slot_relative_to_era % self.epoch_length_seconds)
+            .map(|slot_relative_to_era| slot_relative_to_era % self.slots_per_epoch())
+    }
+
+    const fn slots_per_epoch(&self) -> u64 {
+        self.epoch_length_seconds / self.slot_length
     }
 }
 
-- 
2.43.0


From 813e7f202d513ba12e6e98fe1d8ccba0d4dfa231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:04 +0000
Subject: [PATCH 20/23] fix: the first pull of ForkHandlingSource may be from
 nowhere

---
 blockchain-source/src/multiverse/rollback.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/blockchain-source/src/multiverse/rollback.rs b/blockchain-source/src/multiverse/rollback.rs
index 5abf862..732c8cb 100644
--- a/blockchain-source/src/multiverse/rollback.rs
+++ b/blockchain-source/src/multiverse/rollback.rs
@@ -208,11 +208,14 @@ where
             self.events
                 .pop()
                 .expect("no common ancestor between branches")
-        } else {
+        } else if let Some(from) = from {
             // if the db is empty, send a rollback event to the `from` argument, just to be
             // safe
             self.events.push(Event::InnerEvent(block));
-            Event::Rollback(from.as_ref().unwrap().clone())
+            Event::Rollback(from.clone())
+        } else {
+            // nothing was given out so far, so there is nothing to roll back
+            Event::InnerEvent(block)
         };
 
         Ok(Some(new_event))
-- 
2.43.0


From d2617e8931a975460e5fcba5d022016e7a76cbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:04 +0000
Subject: [PATCH 21/23] fix: a malformed block is an error of BlockEvent, not a
 panic

---
 blockchain-source/src/cardano/event.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blockchain-source/src/cardano/event.rs b/blockchain-source/src/cardano/event.rs
index 8a038d4..7ea012b 100644
--- a/blockchain-source/src/cardano/event.rs
+++ b/blockchain-source/src/cardano/event.rs
@@ -106,7 +106,7 @@ impl<Tip> GetNextFrom for CardanoNetworkEvent<BlockEvent, Tip> {
 impl BlockEvent {
     pub(crate) fn from_serialized_block(raw_block: &[u8], era: &Era) -> anyhow::Result<Self> {
         let block = cml_multi_era::MultiEraBlock::from_explicit_network_cbor_bytes(raw_block)
-            .expect("failed to deserialize block");
+            .map_err(|error| anyhow!("failed to deserialize block: {error:?}"))?;
         let header = &block.header();
         Ok(BlockEvent {
             raw_block: raw_block.to_vec(),
-- 
2.43.0


From b53101670b280489a9e76bd693bd55b41d453cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:25 +0000
Subject: [PATCH 22/23] fix: report a tree that cannot be opened instead of
 panicking

---
 multiverse/src/lib.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/multiverse/src/lib.rs b/multiverse/src/lib.rs
index 7fe838b..46e3b1e 100644
--- a/multiverse/src/lib.rs
+++ b/multiverse/src/lib.rs
@@ -151,21 +151,30 @@ where
     K: AsRef<[u8]>,
     V: serde::de::DeserializeOwned + serde::Serialize,
 {
+    #[cfg(test)]
+    fn new_with(db: sled::Db, domain: &str, store_from: BlockNumber) -> Self {
+        Self::open_with(db, domain, store_from).unwrap()
+    }
+
     /// create a Multiverse with the given sled database as
     /// core entry of the component
     ///
     /// The `domain` is used as an identifier within the Db.
     ///
     #[inline]
-    fn new_with(db: sled::Db, domain: &str, store_from: BlockNumber) -> Self {
+    fn open_with(
+        db: sled::Db,
+        domain: &str,
+        store_from: BlockNumber,
+    ) -> Result<Self, MultiverseError> {
         let all = HashMap::new();
         let ordered = BTreeMap::new();
         let tips = HashSet::new();
         let roots = HashSet::new();
 
-        let tree = db.open_tree(domain).unwrap();
+        let tree = db.open_tree(domain)?;
 
-        Self {
+        Ok(Self {
             _db: db,
             tree,
             all,
@@ -173,7 +182,7 @@ where
             tips,
             roots,
             store_from,
-        }
+        })
     }
 
     /// create a pre-configured to be temporary Multiverse
@@ -186,7 +195,7 @@ where
         // and deleted on drop
         let db = sled::Config::new().temporary(true).open()?;
 
-        Ok(Self::new_with(db, "temporary", BlockNumber::MIN))
+        Self::open_with(db, "temporary", BlockNumber::MIN)
     }
 
     fn db_remove(&mut self, counter: BlockNumber, key: &K) -> Result<bool, MultiverseError> {
@@ -291,7 +300,7 @@ where
         domain: &str,
         store_from: BlockNumber,
     ) -> Result<Self, MultiverseError> {
-        let mut multiverse = Self::new_with(db, domain, store_from);
+        let mut multiverse = Self::open_with(db, domain, store_from)?;
 
         for entry in multiverse.tree.iter().values() {
             let formatted_ir = entry?;
-- 
2.43.0


From a01b357049d997b00bf0272897dd86bc3a5e8be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:25 +0000
Subject: [PATCH 23/23] fix: report an unreadable key index entry instead of
 panicking

---
 indexed-log-map/src/storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indexed-log-map/src/storage.rs b/indexed-log-map/src/storage.rs
index f1bc521..40e2817 100644
--- a/indexed-log-map/src/storage.rs
+++ b/indexed-log-map/src/storage.rs
@@ -106,7 +106,7 @@ impl<Key: Serialize + DeserializeOwned, Value: Serialize + DeserializeOwned>
         };
 
         let index: usize = deps::serde_json::from_slice(&key_position)
-            .expect("we should always be able to decode");
+            .context("can't decode the position of a key")?;
 
         let iter = match self.storage.iter_from_seqno(index) {
             None => return Ok(None),
-- 
2.43.0

