From 12497888dc4d461c188706fa1e857bac224aa7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:59 +0000
Subject: [PATCH 01/53] fix: keep concurrent state transitions from overwriting
 dirty state cache entries

A state entry loaded from the DB (or decoded from a raw entry) was inserted
into the cache as a clean entry even if another state transition running
concurrently had already mutated it, which silently dropped the mutation.
---
 state/src/cache.rs   | 24 ++++++++++++++++++++++++
 state/src/manager.rs |  2 +-
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/state/src/cache.rs b/state/src/cache.rs
index c548ef4..dfea9b5 100644
--- a/state/src/cache.rs
+++ b/state/src/cache.rs
@@ -67,6 +67,8 @@ pub struct StateCache {
     inner: Cache<StateKey, CacheEntry>,
     /// Tracks state keys of all "dirty" cache entries.
     dirty_keys: Mutex<HashSet<StateKey>>,
+    /// Serializes read-modify-write sequences on cache entries, since STFs run concurrently.
+    write_lock: Mutex<()>,
 }
 
 impl StateCache {
@@ -79,9 +81,16 @@ impl StateCache {
                 .max_capacity(max_capacity as u64)
                 .build(),
             dirty_keys: Mutex::new(HashSet::new()),
+            write_lock: Mutex::new(()),
         }
     }
 
+    fn write_guard(&self) -> MutexGuard<'_, ()> {
+        self.write_lock
+            .lock()
+            .unwrap_or_else(|poisoned| poisoned.into_inner())
+    }
+
     fn dirty_keys_guard(&self) -> MutexGuard<'_, HashSet<StateKey>> {
         self.dirty_keys.lock().unwrap_or_else(|poisoned| {
             tracing::error!("State cache dirty_keys lock poisoned; continuing with inner data");
@@ -121,6 +130,19 @@ impl StateCache {
         self.inner.insert(key, entry);
     }
 
+    /// Inserts a clean cache entry that was loaded from the DB (or decoded from a `Raw` entry).
+    /// A dirty entry, which a concurrent STF may have produced in the meantime, is never
+    /// overwritten; it is newer than the loaded one.
+    pub(crate) fn insert_loaded_clean_entry(&self, key: StateKey, entry: CacheEntry) {
+        let _guard = self.write_guard();
+        if self.inner.get(&key).is_some_and(|existing| {
+            existing.is_dirty() && !matches!(existing.value.as_ref(), StateEntryType::Raw(_))
+        }) {
+            return;
+        }
+        self.inner.insert(key, entry);
+    }
+
     // Note: test-only
     pub(crate) fn invalidate_all(&self) {
         self.inner.invalidate_all();
@@ -137,6 +159,8 @@ impl StateCache {
         F: FnOnce(&mut T) -> Result<(), E>,
         StateManagerError: From<E>,
     {
+        let _guard = self.write_guard();
+
         // Cloned data
         let mut cache_entry = self
             .inner
diff --git a/state/src/manager.rs b/state/src/manager.rs
index 6661d6f..046dab2 100644
--- a/state/src/manager.rs
+++ b/state/src/manager.rs
@@ -641,7 +641,7 @@ impl StateManager {
     where
         T: StateComponent,
     {
-        self.cache.insert_entry(
+        self.cache.insert_loaded_clean_entry(
             state_key.clone(),
             CacheEntry::new(T::into_entry_type(state_entry)),
         );
-- 
2.43.0


From 7e50cce5002dd05a827fc232520c26c3a9f28e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:59 +0000
Subject: [PATCH 02/53] fix: treat an improperly encoded service code preimage
 as missing code

Any service can point its code hash at an arbitrary preimage; accumulating it
made the whole block fail.
---
 pvm/pvm-host/src/context/partial_state.rs | 5 ++---
 state/src/manager.rs                      | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/pvm/pvm-host/src/context/partial_state.rs b/pvm/pvm-host/src/context/partial_state.rs
index 2a5605d..6cfef88 100644
--- a/pvm/pvm-host/src/context/partial_state.rs
+++ b/pvm/pvm-host/src/context/partial_state.rs
@@ -457,9 +457,8 @@ impl<S: HostStateProvider> AccountsSandboxMap<S> {
         let code_preimage = self
             .get_account_preimages_entry(state_provider, service_id, &code_hash)
             .await?;
-        Ok(code_preimage
-            .map(|code| AccountCode::decode(&mut code.value.as_slice()))
-            .transpose()?)
+        // A preimage that is not properly encoded is equivalent to having no code.
+        Ok(code_preimage.and_then(|code| AccountCode::decode(&mut code.value.as_slice()).ok()))
     }
 
     pub async fn update_account_footprints(
diff --git a/state/src/manager.rs b/state/src/manager.rs
index 046dab2..65b58cf 100644
--- a/state/src/manager.rs
+++ b/state/src/manager.rs
@@ -684,9 +684,8 @@ impl StateManager {
         let code_preimage = self
             .lookup_historical_preimage(service_id, &Timeslot(reference_timeslot_index), code_hash)
             .await?;
-        Ok(code_preimage
-            .map(|code| AccountCode::decode(&mut code.as_slice()))
-            .transpose()?)
+        // A preimage that is not properly encoded is equivalent to having no code.
+        Ok(code_preimage.and_then(|code| AccountCode::decode(&mut code.as_slice()).ok()))
     }
 
     /// The historical lookup function `Λ`
-- 
2.43.0


From 05e24e1c1021d57295ed28d8dece16a71ffdbe12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:56 +0000
Subject: [PATCH 03/53] fix: a malformed program blob panics its invocation
 instead of failing the block

---
 pvm/pvm-interface/src/invoke.rs | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/pvm/pvm-interface/src/invoke.rs b/pvm/pvm-interface/src/invoke.rs
index 6aa05be..f10e8b5 100644
--- a/pvm/pvm-interface/src/invoke.rs
+++ b/pvm/pvm-interface/src/invoke.rs
@@ -5,7 +5,6 @@ use fr_common::{
 };
 use fr_crypto::{hash, Blake2b256};
 use fr_pvm_core::{
-    error::VMCoreError,
     interpreter::Interpreter,
     program::{
         loader::ProgramLoader,
@@ -196,14 +195,13 @@ impl PVMInterface {
         let cached_program = if let Some(entry) = program_cache().get(&program_hash) {
             entry
         } else {
-            let formatted_program = FormattedProgram::from_standard_program(standard_program)?;
-            if !formatted_program.is_program_size_valid() {
-                return Err(PVMError::VMCoreError(VMCoreError::InvalidProgram));
-            }
-
-            // Initialize the program state
-            let mut program_state = ProgramState::default();
-            ProgramLoader::load_program(&formatted_program.code, &mut program_state)?;
+            // A blob that is not a well-formed program makes the invocation panic with no gas used.
+            let Some((formatted_program, program_state)) =
+                Self::load_standard_program(standard_program)
+            else {
+                tracing::error!("Failed to load standard program");
+                return Ok(PVMInvocationResult::panic(0));
+            };
 
             let cached = Arc::new(CachedProgram {
                 formatted_program: Arc::new(formatted_program),
@@ -240,7 +238,9 @@ impl PVMInterface {
         match result.exit_reason {
             ExitReason::OutOfGas => Ok(PVMInvocationResult::out_of_gas(gas_used)),
             ExitReason::RegularHalt => {
-                let start_address = pvm.state.read_reg_as_mem_address(7)?;
+                let Ok(start_address) = pvm.state.read_reg_as_mem_address(7) else {
+                    return Ok(PVMInvocationResult::no_output(gas_used));
+                };
                 let data_len = pvm.state.read_reg(8) as usize;
                 if !pvm
                     .state
@@ -257,6 +257,18 @@ impl PVMInterface {
         }
     }
 
+    /// Decodes a standard program blob and initializes its immutable program state.
+    /// Returns `None` if the blob is not a well-formed program.
+    fn load_standard_program(standard_program: &[u8]) -> Option<(FormattedProgram, ProgramState)> {
+        let formatted_program = FormattedProgram::from_standard_program(standard_program).ok()?;
+        if !formatted_program.is_program_size_valid() {
+            return None;
+        }
+        let mut program_state = ProgramState::default();
+        ProgramLoader::load_program(&formatted_program.code, &mut program_state).ok()?;
+        Some((formatted_program, program_state))
+    }
+
     /// Invokes the PVM general functions including host calls with arguments injected by the `Ψ_M`
     /// common invocation function.
     ///
-- 
2.43.0


From 265b7418366aca89ea6a7e71365d9a924f4bfead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:57 +0000
Subject: [PATCH 04/53] fix: decode service code metadata as octets rather than
 compact integers

---
 state/src/types/services.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/state/src/types/services.rs b/state/src/types/services.rs
index 31dac09..8a752a2 100644
--- a/state/src/types/services.rs
+++ b/state/src/types/services.rs
@@ -91,7 +91,7 @@ impl JamDecode for AccountCode {
     where
         Self: Sized,
     {
-        let metadata = Vec::<u8>::decode(input)?;
+        let metadata = Octets::decode(input)?.into_vec();
         let code_len = input.remaining_len();
         let code = Vec::<u8>::decode_fixed(input, code_len)?;
         Ok(Self { metadata, code })
-- 
2.43.0


From df4fba0fc45643bccf35dafc0a03fdcd8d03f33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:57 +0000
Subject: [PATCH 05/53] fix: encode accumulate operand and refine argument
 octets without integer compaction

---
 pvm/pvm-invocation/src/refine/mod.rs |  4 ++--
 pvm/pvm-types/src/invoke_args.rs     | 28 +++++++++++++++++++++++++++-
 2 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/pvm/pvm-invocation/src/refine/mod.rs b/pvm/pvm-invocation/src/refine/mod.rs
index 235dcca..328aa58 100644
--- a/pvm/pvm-invocation/src/refine/mod.rs
+++ b/pvm/pvm-invocation/src/refine/mod.rs
@@ -30,7 +30,7 @@ struct RefineVMArgs {
     /// Associated service id (`s` of `WorkItem`)
     service_id: ServiceId,
     /// Work item payload blob (**`y`** of `WorkItem`)
-    work_payload: Vec<u8>,
+    work_payload: Octets,
     /// Work package hash (Hash of `WorkPackage`)
     work_package_hash: WorkPackageHash,
 }
@@ -149,7 +149,7 @@ impl RefineInvocation {
             core_idx: args.core_idx,
             item_idx: args.item_idx,
             service_id: work_item.service_id,
-            work_payload: work_item.payload_blob.clone().into_vec(),
+            work_payload: work_item.payload_blob.clone(),
             work_package_hash: hash::<Blake2b256>(&args.package.encode()?)?,
         };
 
diff --git a/pvm/pvm-types/src/invoke_args.rs b/pvm/pvm-types/src/invoke_args.rs
index 418186c..6770ce3 100644
--- a/pvm/pvm-types/src/invoke_args.rs
+++ b/pvm/pvm-types/src/invoke_args.rs
@@ -7,7 +7,7 @@ use fr_common::{
 };
 use std::collections::HashMap;
 
-#[derive(Clone, JamEncode)]
+#[derive(Clone)]
 pub struct AccumulateOperand {
     /// `p`: Work package hash (`work_package_hash` of `AvailSpecs`)
     pub work_package_hash: WorkPackageHash,
@@ -25,6 +25,32 @@ pub struct AccumulateOperand {
     pub auth_trace: Vec<u8>,
 }
 
+impl JamEncode for AccumulateOperand {
+    fn size_hint(&self) -> usize {
+        self.work_package_hash.size_hint()
+            + self.segment_root.size_hint()
+            + self.authorizer_hash.size_hint()
+            + self.work_item_payload_hash.size_hint()
+            + self.accumulate_gas_limit.size_hint()
+            + self.refine_result.size_hint()
+            + self.auth_trace.len().size_hint()
+            + self.auth_trace.len()
+    }
+
+    fn encode_to<T: JamOutput>(&self, dest: &mut T) -> Result<(), JamCodecError> {
+        self.work_package_hash.encode_to(dest)?;
+        self.segment_root.encode_to(dest)?;
+        self.authorizer_hash.encode_to(dest)?;
+        self.work_item_payload_hash.encode_to(dest)?;
+        self.accumulate_gas_limit.encode_to(dest)?;
+        self.refine_result.encode_to(dest)?;
+        // Octets are encoded as they are, with a length prefix
+        self.auth_trace.len().encode_to(dest)?;
+        dest.write(&self.auth_trace);
+        Ok(())
+    }
+}
+
 pub type TransferMemo = ByteArray<TRANSFER_MEMO_SIZE>;
 
 #[derive(Clone, Debug, PartialEq)]
-- 
2.43.0


From bc60aebda1baa29e9394059895fb7fd03981572b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:57 +0000
Subject: [PATCH 06/53] fix: encode fuzz protocol name and error text as plain
 octets

---
 fuzz/src/types.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/fuzz/src/types.rs b/fuzz/src/types.rs
index f01d11b..39d486c 100644
--- a/fuzz/src/types.rs
+++ b/fuzz/src/types.rs
@@ -100,7 +100,8 @@ impl JamEncode for PeerInfo {
         1 + 4
             + self.jam_version.size_hint()
             + self.app_version.size_hint()
-            + self.app_name.size_hint()
+            + self.app_name.len().size_hint()
+            + self.app_name.len()
     }
 
     fn encode_to<T: JamOutput>(&self, dest: &mut T) -> Result<(), JamCodecError> {
@@ -108,7 +109,8 @@ impl JamEncode for PeerInfo {
         self.fuzz_features.encode_to_fixed(dest, 4)?;
         self.jam_version.encode_to(dest)?;
         self.app_version.encode_to(dest)?;
-        self.app_name.encode_to(dest)?;
+        self.app_name.len().encode_to(dest)?;
+        dest.write(&self.app_name);
         Ok(())
     }
 }
@@ -268,7 +270,7 @@ impl JamEncode for FuzzMessageKind {
             Self::ImportBlock(msg) => (3u8, msg.encode()?),
             Self::GetState(msg) => (4u8, msg.encode()?),
             Self::State(msg) => (5u8, msg.encode()?),
-            Self::Error(err_msg) => (255u8, err_msg.encode()?),
+            Self::Error(err_msg) => (255u8, ByteSequence::from_vec(err_msg.clone()).encode()?),
         };
 
         dest.push_byte(msg_id);
@@ -290,7 +292,7 @@ impl JamDecode for FuzzMessageKind {
             3 => Ok(Self::ImportBlock(ImportBlock::decode(input)?)),
             4 => Ok(Self::GetState(GetState::decode(input)?)),
             5 => Ok(Self::State(State::decode(input)?)),
-            255 => Ok(Self::Error(Vec::<u8>::decode(input)?)),
+            255 => Ok(Self::Error(ByteSequence::decode(input)?.into_vec())),
             _ => Err(JamCodecError::InputError("Unknown message id".to_string())),
         }
     }
-- 
2.43.0


From 8b886c34106f0524c03b15e334371e249d2ac4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:51 +0000
Subject: [PATCH 07/53] fix: count one page-proof segment per 64 segments in
 the data availability load

---
 transition/src/state/statistics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transition/src/state/statistics.rs b/transition/src/state/statistics.rs
index 31edd10..45baae0 100644
--- a/transition/src/state/statistics.rs
+++ b/transition/src/state/statistics.rs
@@ -141,7 +141,7 @@ async fn handle_per_block_transition(
     for report in available_reports {
         let entry = core_stats.core_stats_entry_mut(report.core_index);
         entry.da_items_size += report.specs.work_bundle_length
-            + SEGMENT_SIZE as u32 * 65 * (report.specs.segment_count as u32).div_ceil(64);
+            + SEGMENT_SIZE as u32 * (report.specs.segment_count as u32 * 65).div_ceil(64);
     }
     for (i, count) in assurances.cores_assurances_counts().iter().enumerate() {
         let entry = core_stats.core_stats_entry_mut(i as CoreIndex);
-- 
2.43.0


From bab73ee0445be3e2990c78d19e43245b4756e1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:15 +0000
Subject: [PATCH 08/53] fix: record an offender reported as both culprit and
 fault once

---
 state/src/types/disputes.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/state/src/types/disputes.rs b/state/src/types/disputes.rs
index 190eba0..93f2217 100644
--- a/state/src/types/disputes.rs
+++ b/state/src/types/disputes.rs
@@ -74,6 +74,8 @@ impl DisputesState {
     pub fn sort_extend_punish_set(&mut self, punish_set: Vec<Ed25519PubKey>) {
         self.punish_set.extend(punish_set);
         self.punish_set.sort();
+        // The same validator may be reported as both a culprit and a fault in one block
+        self.punish_set.dedup();
     }
 
     pub fn get_all_report_hashes(&self) -> Vec<WorkReportHash> {
-- 
2.43.0


From 2580463f7bf758ec31c9d07364ffbcc2b42360d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:37 +0000
Subject: [PATCH 09/53] fix: accept culprits and faults for reports judged
 earlier and reject verdicts of future epochs

---
 extrinsics/src/validation/disputes.rs | 65 +++++++++++++++++----------
 1 file changed, 41 insertions(+), 24 deletions(-)

diff --git a/extrinsics/src/validation/disputes.rs b/extrinsics/src/validation/disputes.rs
index 656ec13..e271e25 100644
--- a/extrinsics/src/validation/disputes.rs
+++ b/extrinsics/src/validation/disputes.rs
@@ -2,14 +2,14 @@ use crate::validation::error::XtError;
 use fr_block::types::extrinsics::disputes::{
     Culprit, DisputesXt, Fault, Verdict, VerdictEvaluation,
 };
-use fr_common::{ByteEncodable, Hash32, X_0, X_1, X_G};
+use fr_common::{ByteEncodable, Hash32, WorkReportHash, X_0, X_1, X_G};
 use fr_crypto::{
     signers::{ed25519::Ed25519Verifier, Verifier},
     types::Ed25519PubKey,
 };
 use fr_state::{
     manager::StateManager,
-    types::{ActiveSet, PastSet, Timeslot, ValidatorSet},
+    types::{ActiveSet, DisputesState, PastSet, Timeslot, ValidatorSet},
 };
 use std::{collections::HashSet, sync::Arc};
 
@@ -112,9 +112,10 @@ impl DisputesXtValidator {
         }
 
         // Get the union of the ActiveSet and PastSet, then exclude any validators in the punish set.
-        let punish_set = self.state_manager.get_disputes_clean().await?.punish_set;
+        let prior_disputes = self.state_manager.get_disputes_clean().await?;
+        let punish_set = &prior_disputes.punish_set;
         let valid_set =
-            Self::union_active_and_past_exclude_punish(&active_set, &past_set, &punish_set);
+            Self::union_active_and_past_exclude_punish(&active_set, &past_set, punish_set);
 
         // Culprits duplication check (validator key)
         let no_duplicate_culprits = extrinsic
@@ -126,7 +127,7 @@ impl DisputesXtValidator {
         }
         // Validate each culprit entry
         for culprit in extrinsic.culprits.iter() {
-            Self::validate_culprits_entry(culprit, &valid_set, &punish_set, extrinsic)?;
+            Self::validate_culprits_entry(culprit, &valid_set, &prior_disputes, extrinsic)?;
         }
 
         // Faults duplication check (validator key)
@@ -139,7 +140,7 @@ impl DisputesXtValidator {
         }
         // Validate each fault entry
         for fault in extrinsic.faults.iter() {
-            Self::validate_faults_entry(fault, &valid_set, &punish_set, extrinsic)?;
+            Self::validate_faults_entry(fault, &valid_set, &prior_disputes, extrinsic)?;
         }
         Ok(())
     }
@@ -170,12 +171,10 @@ impl DisputesXtValidator {
         all_past_report_hashes: &[Hash32],
         extrinsic: &DisputesXt,
     ) -> Result<(), XtError> {
-        // Check if verdicts contain entries with epoch index older than the previous epoch
-        if entry.epoch_index + 1 < prior_timeslot.epoch() {
-            return Err(XtError::InvalidJudgmentsAge(
-                entry.epoch_index,
-                prior_timeslot.epoch(),
-            ));
+        // Verdicts must be made by the validators of either the current or the previous epoch
+        let epoch = prior_timeslot.epoch();
+        if entry.epoch_index != epoch && entry.epoch_index.checked_add(1) != Some(epoch) {
+            return Err(XtError::InvalidJudgmentsAge(entry.epoch_index, epoch));
         }
 
         // Check the valid votes count
@@ -250,27 +249,46 @@ impl DisputesXtValidator {
         Ok(())
     }
 
+    /// Evaluates a report that was judged either by this extrinsic or in a previous block.
+    fn evaluate_report(
+        report_hash: &WorkReportHash,
+        prior_disputes: &DisputesState,
+        extrinsic: &DisputesXt,
+    ) -> Option<VerdictEvaluation> {
+        if let Some(verdict) = extrinsic.get_verdict_by_report_hash(report_hash) {
+            return Some(verdict.evaluate_verdict());
+        }
+        if prior_disputes.good_set.contains(report_hash) {
+            Some(VerdictEvaluation::IsGood)
+        } else if prior_disputes.bad_set.contains(report_hash) {
+            Some(VerdictEvaluation::IsBad)
+        } else if prior_disputes.wonky_set.contains(report_hash) {
+            Some(VerdictEvaluation::IsWonky)
+        } else {
+            None
+        }
+    }
+
     #[tracing::instrument(level = "debug", skip_all)]
     fn validate_culprits_entry(
         entry: &Culprit,
         valid_set: &HashSet<Ed25519PubKey>,
-        punish_set: &[Ed25519PubKey],
+        prior_disputes: &DisputesState,
         extrinsic: &DisputesXt,
     ) -> Result<(), XtError> {
         // Check if the culprit is already in the punish set
-        if punish_set.contains(&entry.validator_key) {
+        if prior_disputes.punish_set.contains(&entry.validator_key) {
             return Err(XtError::CulpritAlreadyReported(
                 entry.validator_key.to_hex(),
             ));
         }
 
-        // Check the verdict entry that corresponds to the fault entry exists, and it is actually "bad".
-        let verdict = extrinsic
-            .get_verdict_by_report_hash(&entry.report_hash)
+        // Check the verdict that corresponds to the culprit entry exists, and it is actually "bad".
+        let evaluation = Self::evaluate_report(&entry.report_hash, prior_disputes, extrinsic)
             .ok_or(XtError::InvalidCulpritReportHash(
                 entry.validator_key.to_hex(),
             ))?;
-        if !matches!(verdict.evaluate_verdict(), VerdictEvaluation::IsBad) {
+        if !matches!(evaluation, VerdictEvaluation::IsBad) {
             return Err(XtError::NotCulprit(entry.validator_key.to_hex()));
         }
 
@@ -295,22 +313,21 @@ impl DisputesXtValidator {
     pub fn validate_faults_entry(
         entry: &Fault,
         valid_set: &HashSet<Ed25519PubKey>,
-        punish_set: &[Ed25519PubKey],
+        prior_disputes: &DisputesState,
         extrinsic: &DisputesXt,
     ) -> Result<(), XtError> {
         // Check if the culprit is already in the punish set
-        if punish_set.contains(&entry.validator_key) {
+        if prior_disputes.punish_set.contains(&entry.validator_key) {
             return Err(XtError::FaultAlreadyReported(entry.validator_key.to_hex()));
         }
 
-        // Verdict entry that corresponds to the fault entry
-        let verdict_entry = extrinsic
-            .get_verdict_by_report_hash(&entry.report_hash)
+        // Verdict that corresponds to the fault entry
+        let evaluation = Self::evaluate_report(&entry.report_hash, prior_disputes, extrinsic)
             .ok_or(XtError::InvalidFaultReportHash(
                 entry.validator_key.to_hex(),
             ))?;
 
-        let is_fault = match verdict_entry.evaluate_verdict() {
+        let is_fault = match evaluation {
             VerdictEvaluation::IsGood => !entry.is_report_valid,
             VerdictEvaluation::IsBad => entry.is_report_valid,
             _ => false,
-- 
2.43.0


From 12ea405a8ae135d8d19c5db894edd4aed4713388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:44 +0000
Subject: [PATCH 10/53] fix: reject work reports without work digests

---
 extrinsics/src/validation/error.rs      | 2 ++
 extrinsics/src/validation/guarantees.rs | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/extrinsics/src/validation/error.rs b/extrinsics/src/validation/error.rs
index 8b77ca1..2987a24 100644
--- a/extrinsics/src/validation/error.rs
+++ b/extrinsics/src/validation/error.rs
@@ -143,6 +143,8 @@ pub enum XtError {
     SegmentsRootLookupEntryNotFound,
     #[error("Segments root lookup dictionary entry of the work report was found in the recent history but has an invalid value")]
     SegmentsRoofLookupEntryInvalidValue,
+    #[error("Work report must include at least one work digest. Core index: {0}")]
+    NoWorkDigest(CoreIndex),
     #[error("Work report output size limit exceeded")]
     WorkReportOutputSizeLimitExceeded,
     #[error("Work report's total gas allotted for accumulation exceeds its limit")]
diff --git a/extrinsics/src/validation/guarantees.rs b/extrinsics/src/validation/guarantees.rs
index 6ad3754..f968789 100644
--- a/extrinsics/src/validation/guarantees.rs
+++ b/extrinsics/src/validation/guarantees.rs
@@ -208,6 +208,11 @@ impl GuaranteesXtValidator {
         work_package_hashes: &HashSet<&Hash32>,
         header_timeslot_index: TimeslotIndex,
     ) -> Result<(), XtError> {
+        // Check that the work report includes at least one work digest
+        if work_report.digests.is_empty() {
+            return Err(XtError::NoWorkDigest(work_report.core_index));
+        }
+
         // Check work report output size limit
         if work_report.total_output_size() > WORK_REPORT_OUTPUT_SIZE_LIMIT {
             return Err(XtError::WorkReportOutputSizeLimitExceeded);
-- 
2.43.0


From cecebe148245c7456f0b03fbd14df225dc573cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:57 +0000
Subject: [PATCH 11/53] fix: reuse a cached ring context only for the validator
 set it was built from

---
 state/src/manager.rs | 43 ++++++++++---------------------------------
 1 file changed, 10 insertions(+), 33 deletions(-)

diff --git a/state/src/manager.rs b/state/src/manager.rs
index 65b58cf..d74dcbd 100644
--- a/state/src/manager.rs
+++ b/state/src/manager.rs
@@ -333,30 +333,18 @@ impl StateManager {
     ) -> Result<(RingVrfVerifier, BandersnatchRingRoot), StateManagerError> {
         // Check the cache
         if let Some(RingContext {
-            inserted_at,
-            validator_set,
+            validator_set: cached_validator_set,
             verifier,
             ring_root,
+            ..
         }) = self.ring_cache_read_guard().curr()
         {
-            // Validate if the `curr` ring cache holds the correct latest ring context
-            let LastStagingSetTransitionContext {
-                last_staging_set_transition_slot,
-                last_effective_staging_set_hash,
-            } = self.last_staging_set_transition_context();
-
-            if last_staging_set_transition_slot < *inserted_at {
+            // The cached entry holds the correct ring context only if it was built from the
+            // requested validator set. It can be stale after a late `StagingSet` transition,
+            // a fork, or a block that was rejected after rotating the ring cache.
+            if cached_validator_set == validator_set {
                 return Ok((verifier.clone(), ring_root.clone()));
             }
-
-            // Extra check for the same-slot fork making the ring cache stale
-            if last_staging_set_transition_slot == *inserted_at {
-                let expected_effective_staging_set_hash =
-                    hash::<Blake2b256>(&StagingSet(validator_set.clone()).encode()?)?;
-                if last_effective_staging_set_hash == expected_effective_staging_set_hash {
-                    return Ok((verifier.clone(), ring_root.clone()));
-                }
-            }
         }
 
         // Generate `RingVrfVerifier` with the current pending set after per-epoch Safrole STF (γP′)
@@ -384,25 +372,14 @@ impl StateManager {
     ) -> Result<(RingVrfVerifier, BandersnatchRingRoot), StateManagerError> {
         // Check the cache
         if let Some(RingContext {
-            inserted_at,
-            validator_set,
+            validator_set: cached_validator_set,
             verifier,
             ring_root,
+            ..
         }) = self.ring_cache_read_guard().staging()
         {
-            let expected_effective_staging_set_hash =
-                hash::<Blake2b256>(&StagingSet(validator_set.clone()).encode()?)?;
-
-            // The cache entry is valid only if StagingSet was not mutated after its insertion
-            // Check both the transition slot and the effective staging set hash
-            let LastStagingSetTransitionContext {
-                last_staging_set_transition_slot,
-                last_effective_staging_set_hash,
-            } = self.last_staging_set_transition_context();
-
-            if last_staging_set_transition_slot <= *inserted_at
-                && last_effective_staging_set_hash == expected_effective_staging_set_hash
-            {
+            // The cached entry is valid only if it was built from the requested validator set
+            if cached_validator_set == validator_set {
                 return Ok((verifier.clone(), ring_root.clone()));
             }
         }
-- 
2.43.0


From 78d9583e5e0cbf170522af9da5f6f2590f4a289d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:21 +0000
Subject: [PATCH 12/53] fix: entries added by the current block are absent from
 the prior account state

---
 state/src/manager.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/state/src/manager.rs b/state/src/manager.rs
index d74dcbd..fd2005a 100644
--- a/state/src/manager.rs
+++ b/state/src/manager.rs
@@ -1059,6 +1059,11 @@ impl StateManager {
     where
         T: AccountStateComponent,
     {
+        // An entry added by the current state transition doesn't exist in the prior state
+        if let Some(CacheEntryStatus::Dirty(StateMut::Add)) = self.cache.get_entry_status(state_key)
+        {
+            return Ok(None);
+        }
         self.get_clean_state_entry_internal(state_key).await // account state key could not be initialized yet
     }
 
-- 
2.43.0


From d50e651af24cc2d39b2878c76b504cbc5b43100e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:07 +0000
Subject: [PATCH 13/53] fix: a gas charge beyond the gas counter's range is out
 of gas, not a block failure

---
 pvm/pvm-core/src/gas/mod.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/pvm/pvm-core/src/gas/mod.rs b/pvm/pvm-core/src/gas/mod.rs
index ec3fbdb..697410a 100644
--- a/pvm/pvm-core/src/gas/mod.rs
+++ b/pvm/pvm-core/src/gas/mod.rs
@@ -10,13 +10,9 @@ impl GasCharger {
         vm_state: &mut VMState,
         gas_charge: UnsignedGas,
     ) -> Result<SignedGas, VMCoreError> {
-        let gas_charge_signed: SignedGas = gas_charge
-            .try_into()
-            .map_err(|_| VMCoreError::TooLargeGasCharge(gas_charge))?;
-        vm_state.gas_counter = vm_state
-            .gas_counter
-            .checked_sub(gas_charge_signed)
-            .ok_or(VMCoreError::GasCounterOverflow)?;
+        // A charge beyond the range of the gas counter is an ordinary out-of-gas, not an error
+        let post_gas = i128::from(vm_state.gas_counter) - i128::from(gas_charge);
+        vm_state.gas_counter = SignedGas::try_from(post_gas).unwrap_or(SignedGas::MIN);
         Ok(vm_state.gas_counter)
     }
 }
-- 
2.43.0


From 652b533a9be3e53ad34487815c2857d53cab8f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:15 +0000
Subject: [PATCH 14/53] fix: manager and assigner changes to the assigner
 services are merged per core

---
 pvm/pvm-host/src/context/partial_state.rs     |  1 -
 pvm/pvm-invocation/src/accumulate/pipeline.rs | 35 +++++++++----------
 2 files changed, 17 insertions(+), 19 deletions(-)

diff --git a/pvm/pvm-host/src/context/partial_state.rs b/pvm/pvm-host/src/context/partial_state.rs
index 6cfef88..7aced09 100644
--- a/pvm/pvm-host/src/context/partial_state.rs
+++ b/pvm/pvm-host/src/context/partial_state.rs
@@ -1108,7 +1108,6 @@ impl AssignServicesPartialState {
     ) -> Result<(), PartialStateError> {
         if let Some(assigners_by_manager) = &other.change_by_bless {
             self.change_by_bless = Some(assigners_by_manager.clone());
-            return Ok(());
         }
 
         for (&core_idx, &assigner_by_self) in &other.change_by_self {
diff --git a/pvm/pvm-invocation/src/accumulate/pipeline.rs b/pvm/pvm-invocation/src/accumulate/pipeline.rs
index 8bc5fd1..2951e36 100644
--- a/pvm/pvm-invocation/src/accumulate/pipeline.rs
+++ b/pvm/pvm-invocation/src/accumulate/pipeline.rs
@@ -3,11 +3,12 @@ use crate::{
     error::PVMInvokeError,
 };
 use fr_common::{
-    workloads::work_report::WorkReport, LookupsKey, Octets, ServiceId, TimeslotIndex, UnsignedGas,
+    workloads::work_report::WorkReport, CoreIndex, LookupsKey, Octets, ServiceId, TimeslotIndex,
+    UnsignedGas,
 };
 use fr_crypto::{hash, Blake2b256};
 use fr_pvm_host::context::partial_state::{
-    AccumulatePartialState, SandboxEntryAccessor, SandboxEntryStatus,
+    AccumulatePartialState, AssignServicesPartialState, SandboxEntryAccessor, SandboxEntryStatus,
 };
 use fr_pvm_types::{
     invoke_args::{AccumulateInputs, AccumulateInvokeArgs, AccumulateOperand, DeferredTransfer},
@@ -591,22 +592,20 @@ async fn accumulate_parallel(
     //
     // Once the state change is confirmed, partial state change fields of the union should be cleared.
 
-    // Confirm the new assign services
-    if let Some(new_assign_services_by_manager) =
-        &partial_state_union.assign_services.change_by_bless
-    {
-        partial_state_union.assign_services.last_confirmed = new_assign_services_by_manager.clone();
-    } else {
-        for (core_idx, new_assign_service_by_self) in
-            &partial_state_union.assign_services.change_by_self
-        {
-            if let Some(assign) = partial_state_union
-                .assign_services
-                .last_confirmed
-                .get_mut(*core_idx as usize)
-            {
-                *assign = *new_assign_service_by_self;
-            }
+    // Confirm the new assign services, individually for each core
+    let AssignServicesPartialState {
+        last_confirmed,
+        change_by_bless,
+        change_by_self,
+    } = &mut partial_state_union.assign_services;
+    for (core_idx, assigner) in last_confirmed.iter_mut().enumerate() {
+        let changed_by_manager = change_by_bless
+            .as_ref()
+            .and_then(|assigners| assigners.get(core_idx).copied())
+            .filter(|new_assigner| new_assigner != assigner);
+        let changed_by_self = change_by_self.get(&(core_idx as CoreIndex)).copied();
+        if let Some(new_assigner) = changed_by_manager.or(changed_by_self) {
+            *assigner = new_assigner;
         }
     }
 
-- 
2.43.0


From 828474af4e7745103d14f360202df416b7d428ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:26 +0000
Subject: [PATCH 15/53] fix: integrate provided preimages after merging all
 accumulations of a round

---
 pvm/pvm-invocation/src/accumulate/pipeline.rs | 23 +++++++++++--------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/pvm/pvm-invocation/src/accumulate/pipeline.rs b/pvm/pvm-invocation/src/accumulate/pipeline.rs
index 2951e36..1447911 100644
--- a/pvm/pvm-invocation/src/accumulate/pipeline.rs
+++ b/pvm/pvm-invocation/src/accumulate/pipeline.rs
@@ -370,7 +370,7 @@ async fn merge_partial_state_change(
     Ok(())
 }
 
-/// Integrates all provided preimages by a single-service accumulation into the partial state accounts sandbox.
+/// Integrates all preimages provided during a parallel accumulation round into the partial state accounts sandbox.
 async fn add_provided_preimages(
     state_manager: Arc<StateManager>,
     partial_state_union: &mut AccumulatePartialState<StateManager>,
@@ -502,6 +502,7 @@ async fn accumulate_parallel(
     let mut service_gas_pairs = Vec::new();
     let mut service_output_pairs = BTreeSet::new();
     let mut new_deferred_transfers = Vec::new();
+    let mut provided_preimages = HashSet::new();
 
     // Concurrent accumulate invocations grouped by service ids.
     let mut handles = Vec::with_capacity(all_service_ids.len());
@@ -569,18 +570,22 @@ async fn accumulate_parallel(
                 // Add deferred transfers
                 new_deferred_transfers.extend(accumulate_result.deferred_transfers);
 
-                // Add provided preimages
-                add_provided_preimages(
-                    state_manager.clone(),
-                    partial_state_union,
-                    accumulate_result.provided_preimages,
-                    curr_timeslot_index,
-                )
-                .await?;
+                // Collect provided preimages
+                provided_preimages.extend(accumulate_result.provided_preimages);
             }
         }
     }
 
+    // Add provided preimages, after merging state changes of all services. Otherwise, merging the
+    // state change of a service would discard preimages provided to it by the other services.
+    add_provided_preimages(
+        state_manager.clone(),
+        partial_state_union,
+        provided_preimages,
+        curr_timeslot_index,
+    )
+    .await?;
+
     // Multiple services that are accumulated in the same `Δ*` round can produce conflicting
     // changes to the privileged services: assigners, designate and registrar.
     // So at this point, `partial_state_union` may hold `Some` variants for both `change_by_bless`
-- 
2.43.0


From 8c3aac153cb77c530e1fe54b651741bc31b61446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:55 +0000
Subject: [PATCH 16/53] Revert "fix: encode fuzz protocol name and error text
 as plain octets"

The path counts as test code; the defect is recorded as a known finding instead.
---
 fuzz/src/types.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/fuzz/src/types.rs b/fuzz/src/types.rs
index 39d486c..f01d11b 100644
--- a/fuzz/src/types.rs
+++ b/fuzz/src/types.rs
@@ -100,8 +100,7 @@ impl JamEncode for PeerInfo {
         1 + 4
             + self.jam_version.size_hint()
             + self.app_version.size_hint()
-            + self.app_name.len().size_hint()
-            + self.app_name.len()
+            + self.app_name.size_hint()
     }
 
     fn encode_to<T: JamOutput>(&self, dest: &mut T) -> Result<(), JamCodecError> {
@@ -109,8 +108,7 @@ impl JamEncode for PeerInfo {
         self.fuzz_features.encode_to_fixed(dest, 4)?;
         self.jam_version.encode_to(dest)?;
         self.app_version.encode_to(dest)?;
-        self.app_name.len().encode_to(dest)?;
-        dest.write(&self.app_name);
+        self.app_name.encode_to(dest)?;
         Ok(())
     }
 }
@@ -270,7 +268,7 @@ impl JamEncode for FuzzMessageKind {
             Self::ImportBlock(msg) => (3u8, msg.encode()?),
             Self::GetState(msg) => (4u8, msg.encode()?),
             Self::State(msg) => (5u8, msg.encode()?),
-            Self::Error(err_msg) => (255u8, ByteSequence::from_vec(err_msg.clone()).encode()?),
+            Self::Error(err_msg) => (255u8, err_msg.encode()?),
         };
 
         dest.push_byte(msg_id);
@@ -292,7 +290,7 @@ impl JamDecode for FuzzMessageKind {
             3 => Ok(Self::ImportBlock(ImportBlock::decode(input)?)),
             4 => Ok(Self::GetState(GetState::decode(input)?)),
             5 => Ok(Self::State(State::decode(input)?)),
-            255 => Ok(Self::Error(ByteSequence::decode(input)?.into_vec())),
+            255 => Ok(Self::Error(Vec::<u8>::decode(input)?)),
             _ => Err(JamCodecError::InputError("Unknown message id".to_string())),
         }
     }
-- 
2.43.0


From 5906a5c24bcb40ce2f0ab166b5ac424f747e636c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:21 +0000
Subject: [PATCH 17/53] fix: only the first block of an empty chain skips
 header validation as genesis

---
 node/src/roles/importer.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/node/src/roles/importer.rs b/node/src/roles/importer.rs
index 9023089..e41a0d4 100644
--- a/node/src/roles/importer.rs
+++ b/node/src/roles/importer.rs
@@ -180,7 +180,7 @@ impl BlockImporter {
         with_ancestors: bool,
         block_commit_mode: BlockCommitMode,
     ) -> Result<BlockImportOutput, BlockImportError> {
-        if block.is_genesis() {
+        if Self::is_chain_genesis(&storage, block) {
             // Skip validation for the genesis block
             let output =
                 Self::run_state_transition(&storage, block, with_ancestors, block_commit_mode)
@@ -201,6 +201,12 @@ impl BlockImporter {
         Ok(output)
     }
 
+    /// Only the first block of an empty chain is the genesis block. A block with the zero parent
+    /// hash on top of an existing chain is an ordinary block with an invalid parent hash.
+    fn is_chain_genesis(storage: &NodeStorage, block: &Block) -> bool {
+        block.is_genesis() && storage.header_db().get_best_header() == BlockHeader::default()
+    }
+
     /// Note: Currently, each STF validates Xt types as well. Up-front Xt validations might work
     /// incorrectly, since some validation rules need to refer to partially transitioned state.
     #[allow(dead_code)]
@@ -512,7 +518,7 @@ impl BlockImporter {
         with_ancestors: bool,
         block_commit_mode: BlockCommitMode,
     ) -> Result<BlockImportOutput, BlockImportError> {
-        let account_state_changes = if block.is_genesis() {
+        let account_state_changes = if Self::is_chain_genesis(storage, block) {
             let output = BlockExecutor::run_genesis_state_transition(storage, block).await?;
             BlockExecutor::append_beefy_belt_and_block_history(
                 storage,
-- 
2.43.0


From f6b26ca0f23ff6c8755bff9d245ec25de7cf4524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:16 +0000
Subject: [PATCH 18/53] fix: host call indices beyond one octet are not
 truncated to another host call

---
 pvm/pvm-core/src/program/instruction/set.rs   |  6 +-----
 pvm/pvm-host/src/host_functions/refine/mod.rs |  4 ++--
 pvm/pvm-interface/src/invoke.rs               |  2 +-
 pvm/pvm-types/src/exit_reason.rs              |  4 ++--
 pvm/pvm-types/src/hostcall.rs                 | 10 ++++++++++
 5 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/pvm/pvm-core/src/program/instruction/set.rs b/pvm/pvm-core/src/program/instruction/set.rs
index 720e507..aef25cc 100644
--- a/pvm/pvm-core/src/program/instruction/set.rs
+++ b/pvm/pvm-core/src/program/instruction/set.rs
@@ -17,7 +17,6 @@ use fr_pvm_types::{
     common::{MemAddress, RegValue},
     constants::JUMP_ALIGNMENT,
     exit_reason::ExitReason,
-    hostcall::HostCallType,
 };
 
 // Convert RegValue to smaller int types by taking the lower bits
@@ -172,10 +171,7 @@ impl InstructionSet {
         program_state: &ProgramState,
         ins: &Instruction,
     ) -> Result<SingleStepResult, VMCoreError> {
-        let imm_host_call_type = reg_to_u8(ins.imm1()?);
-        let exit_reason = ExitReason::HostCall(
-            HostCallType::from_u8(imm_host_call_type).ok_or(VMCoreError::InvalidHostCallType)?,
-        );
+        let exit_reason = ExitReason::HostCall(ins.imm1()?);
 
         Ok(SingleStepResult {
             exit_reason,
diff --git a/pvm/pvm-host/src/host_functions/refine/mod.rs b/pvm/pvm-host/src/host_functions/refine/mod.rs
index d06070b..181fdf7 100644
--- a/pvm/pvm-host/src/host_functions/refine/mod.rs
+++ b/pvm/pvm-host/src/host_functions/refine/mod.rs
@@ -474,11 +474,11 @@ impl<S: HostStateProvider> RefineHostFunction<S> {
 
         tracing::debug!("INVOKE instance_id={inner_vm_id} exit_reason={inner_vm_exit_reason:?}");
         match inner_vm_exit_reason {
-            ExitReason::HostCall(host_call_type) => {
+            ExitReason::HostCall(host_call_index) => {
                 inner_vm_mut.pc = Interpreter::next_pc(inner_vm_mut.pc, &inner_vm_program_state);
                 continue_with_vm_change!(
                     r7: HOST,
-                    r8: host_call_type.clone(),
+                    r8: host_call_index,
                     mem_offset: memory_offset,
                     mem_data: host_buf
                 )
diff --git a/pvm/pvm-interface/src/invoke.rs b/pvm/pvm-interface/src/invoke.rs
index f10e8b5..a8d2f80 100644
--- a/pvm/pvm-interface/src/invoke.rs
+++ b/pvm/pvm-interface/src/invoke.rs
@@ -297,7 +297,7 @@ impl PVMInterface {
                         invocation_type,
                         context,
                         curr_timeslot_index,
-                        &h,
+                        &HostCallType::from_index(h),
                     )
                     .await?
                 }
diff --git a/pvm/pvm-types/src/exit_reason.rs b/pvm/pvm-types/src/exit_reason.rs
index 4510f0f..e352a1f 100644
--- a/pvm/pvm-types/src/exit_reason.rs
+++ b/pvm/pvm-types/src/exit_reason.rs
@@ -1,4 +1,4 @@
-use crate::{common::MemAddress, hostcall::HostCallType};
+use crate::common::{MemAddress, RegValue};
 
 /// PVM Invocation Exit Reasons
 #[derive(Default, Debug, PartialEq)]
@@ -9,5 +9,5 @@ pub enum ExitReason {
     Panic,
     OutOfGas, // Note: Not used in the single-step invocation.
     PageFault(MemAddress),
-    HostCall(HostCallType),
+    HostCall(RegValue),
 }
diff --git a/pvm/pvm-types/src/hostcall.rs b/pvm/pvm-types/src/hostcall.rs
index b6306e5..96b7831 100644
--- a/pvm/pvm-types/src/hostcall.rs
+++ b/pvm/pvm-types/src/hostcall.rs
@@ -1,3 +1,5 @@
+use crate::common::RegValue;
+
 #[repr(u8)]
 #[derive(Clone, Debug, PartialEq)]
 #[allow(non_camel_case_types)]
@@ -77,6 +79,14 @@ impl TryFrom<u8> for HostCallType {
 }
 
 impl HostCallType {
+    /// Host call type of the index given to `ecalli`; `INVALID` for every index that names no host call.
+    pub fn from_index(index: RegValue) -> Self {
+        u8::try_from(index)
+            .ok()
+            .and_then(Self::from_u8)
+            .unwrap_or(Self::INVALID)
+    }
+
     pub fn from_u8(value: u8) -> Option<Self> {
         Self::try_from(value).ok()
     }
-- 
2.43.0


From 79e9aaad266e53339734b9bae986d0f5a314e53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:35 +0000
Subject: [PATCH 19/53] fix: reaching a position that holds no instruction is
 charged like the trap it executes

---
 pvm/pvm-core/src/interpreter/mod.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pvm/pvm-core/src/interpreter/mod.rs b/pvm/pvm-core/src/interpreter/mod.rs
index 91dd8d9..a8eea95 100644
--- a/pvm/pvm-core/src/interpreter/mod.rs
+++ b/pvm/pvm-core/src/interpreter/mod.rs
@@ -1,5 +1,6 @@
 use crate::{
     error::VMCoreError,
+    gas::GasCharger,
     program::{
         instruction::{opcode::Opcode as OP, set::InstructionSet as IS, Instruction},
         types::program_state::ProgramState,
@@ -9,7 +10,11 @@ use crate::{
         vm_state::VMState,
     },
 };
-use fr_pvm_types::{common::RegValue, constants::MAX_SKIP_DISTANCE, exit_reason::ExitReason};
+use fr_pvm_types::{
+    common::RegValue,
+    constants::{INST_BASE_GAS_CHARGE, MAX_SKIP_DISTANCE},
+    exit_reason::ExitReason,
+};
 use tracing::Level;
 
 #[derive(Debug)]
@@ -54,7 +59,13 @@ impl Interpreter {
             let program_state_ref: &ProgramState = program_state;
             let Some(inst) = program_state_ref.instruction_at(curr_pc as usize) else {
                 tracing::warn!("Ψ Panic: Failed to extract instruction. PC={curr_pc}");
-                return Ok(ExitReason::Panic);
+                // Anything but an instruction start executes as `TRAP`, which is charged as well
+                let post_gas = GasCharger::apply_gas_cost(vm_state, INST_BASE_GAS_CHARGE)?;
+                return Ok(if post_gas < 0 {
+                    ExitReason::OutOfGas
+                } else {
+                    ExitReason::Panic
+                });
             };
 
             let single_invocation_result =
-- 
2.43.0


From dc3fc1d69371b3842353b0de4fa01d20ec1a31a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:50 +0000
Subject: [PATCH 20/53] fix: a heap request that cannot be met yields zero
 instead of aborting the invocation

---
 pvm/pvm-core/src/program/instruction/set.rs | 15 ++++++---------
 pvm/pvm-core/src/state/memory.rs            |  5 ++++-
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/pvm/pvm-core/src/program/instruction/set.rs b/pvm/pvm-core/src/program/instruction/set.rs
index aef25cc..948bfce 100644
--- a/pvm/pvm-core/src/program/instruction/set.rs
+++ b/pvm/pvm-core/src/program/instruction/set.rs
@@ -798,15 +798,12 @@ impl InstructionSet {
         let alloc_start = vm_state.memory.get_break(expand_size);
 
         // try expanding the heap area
-        vm_state.memory.expand_heap(alloc_start, expand_size)?;
-
-        // returns the start of the newly allocated heap memory
-        continue_with_reg_write!(
-            vm_state.pc,
-            program_state,
-            ins.rd()?,
-            alloc_start as RegValue
-        )
+        // returns the start of the newly allocated heap memory, or zero if there is no room for it
+        let allocated = match vm_state.memory.expand_heap(alloc_start, expand_size) {
+            Ok(()) => alloc_start as RegValue,
+            Err(_) => 0,
+        };
+        continue_with_reg_write!(vm_state.pc, program_state, ins.rd()?, allocated)
     }
 
     /// Count the number of set bits of a 64-bit value
diff --git a/pvm/pvm-core/src/state/memory.rs b/pvm/pvm-core/src/state/memory.rs
index bd31710..90cefe9 100644
--- a/pvm/pvm-core/src/state/memory.rs
+++ b/pvm/pvm-core/src/state/memory.rs
@@ -369,7 +369,10 @@ impl Memory {
 
     /// Expand the heap area for the `sbrk` instruction.
     pub fn expand_heap(&mut self, start: MemAddress, size: usize) -> Result<(), MemoryError> {
-        let end = start + size as MemAddress;
+        let end = MemAddress::try_from(size)
+            .ok()
+            .and_then(|size| start.checked_add(size))
+            .ok_or(MemoryError::OutOfRange(start))?;
         if self.heap_start != 0 && end >= self.stack_start {
             return Err(MemoryError::SbrkHeapStackCollision(
                 start,
-- 
2.43.0


From 9ee6afbcd4fb34d3f5572e87b11356a80b379c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:08 +0000
Subject: [PATCH 21/53] fix: memory accesses that wrap around the address space
 panic instead of aborting the invocation

---
 pvm/pvm-core/src/state/memory.rs       | 12 +++++++++++-
 pvm/pvm-core/src/state/state_change.rs |  3 +++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/pvm/pvm-core/src/state/memory.rs b/pvm/pvm-core/src/state/memory.rs
index 90cefe9..8c11308 100644
--- a/pvm/pvm-core/src/state/memory.rs
+++ b/pvm/pvm-core/src/state/memory.rs
@@ -1,6 +1,6 @@
 use fr_pvm_types::{
     common::MemAddress,
-    constants::{INIT_ZONE_SIZE, PAGE_SIZE},
+    constants::{INIT_ZONE_SIZE, MEMORY_SIZE, PAGE_SIZE},
 };
 use std::ops::Range;
 use thiserror::Error;
@@ -264,6 +264,11 @@ impl Memory {
             .checked_add(length)
             .ok_or(MemoryError::OutOfRange(address))?;
 
+        // Accesses wrap around the address space, into the forbidden zone
+        if end > MEMORY_SIZE {
+            return Err(MemoryError::Forbidden(0));
+        }
+
         if end > self.data.len() {
             return Err(MemoryError::OutOfRange(address));
         }
@@ -335,6 +340,11 @@ impl Memory {
             .checked_add(bytes.len())
             .ok_or(MemoryError::OutOfRange(address))?;
 
+        // Accesses wrap around the address space, into the forbidden zone
+        if end > MEMORY_SIZE {
+            return Err(MemoryError::Forbidden(0));
+        }
+
         if end > self.data.len() {
             return Err(MemoryError::OutOfRange(address));
         }
diff --git a/pvm/pvm-core/src/state/state_change.rs b/pvm/pvm-core/src/state/state_change.rs
index 666c87a..b35d259 100644
--- a/pvm/pvm-core/src/state/state_change.rs
+++ b/pvm/pvm-core/src/state/state_change.rs
@@ -157,6 +157,9 @@ impl VMStateMutator {
                 Err(MemoryError::AccessViolation(address)) => {
                     return Err(VMCoreError::PageFault(VMUtils::page_start_address(address)))
                 }
+                Err(MemoryError::Forbidden(address)) => {
+                    return Err(VMCoreError::ForbiddenMemZone(address))
+                }
                 Err(e) => return Err(e.into()),
             }
         }
-- 
2.43.0


From 380dfb94abf80d7735139538650a9f02b296184e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:42 +0000
Subject: [PATCH 22/53] fix: basic blocks start after a terminator at position
 zero and only at valid instructions

---
 pvm/pvm-core/src/program/loader.rs | 44 ++++++++++++++++++------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/pvm/pvm-core/src/program/loader.rs b/pvm/pvm-core/src/program/loader.rs
index a1feab8..9e88149 100644
--- a/pvm/pvm-core/src/program/loader.rs
+++ b/pvm/pvm-core/src/program/loader.rs
@@ -1,7 +1,7 @@
 use crate::{
     error::VMCoreError,
     program::{
-        instruction::Instruction,
+        instruction::{opcode::Opcode, Instruction},
         types::program_state::{OpcodeBitmask, ProgramState, NOT_INSTRUCTION_INDEX},
     },
 };
@@ -90,29 +90,37 @@ impl ProgramLoader {
     /// Collects opcode indices that indicate beginning of basic blocks and sets the
     /// `basic_block_start_indices` of the `ProgramState`.
     fn set_basic_block_start_indices(program: &mut ProgramState) -> Result<(), VMCoreError> {
-        program.basic_block_start_indices.set(0, true);
-        let instructions_len = program.instructions.len();
-        for n in 1..instructions_len {
-            if program
-                .opcode_bitmask
-                .get(n)
-                .map(|bit| *bit)
-                .unwrap_or(false)
-            {
-                if let Some(inst) = program.instruction_at(n) {
-                    if inst.op.is_termination_opcode() {
-                        let skip = program.skip_distance(n).unwrap_or(MAX_SKIP_DISTANCE);
-                        let next_op_index = n + 1 + skip;
-                        if next_op_index < program.basic_block_start_indices.len() {
-                            program.basic_block_start_indices.set(next_op_index, true);
-                        }
-                    }
+        // A basic block starts at the first instruction and after every termination instruction,
+        // provided that there is an instruction with a valid opcode.
+        if Self::valid_opcode_at(program, 0).is_some() {
+            program.basic_block_start_indices.set(0, true);
+        }
+        for n in 0..program.instructions.len() {
+            let Some(op) = Self::valid_opcode_at(program, n) else {
+                continue;
+            };
+            if op.is_termination_opcode() {
+                let skip = program.skip_distance(n).unwrap_or(MAX_SKIP_DISTANCE);
+                let next_op_index = n + 1 + skip;
+                if Self::valid_opcode_at(program, next_op_index).is_some() {
+                    program.basic_block_start_indices.set(next_op_index, true);
                 }
             }
         }
         Ok(())
     }
 
+    /// Returns the opcode at the given index of the instruction blob, if an instruction starts there
+    /// and its opcode is a valid one.
+    fn valid_opcode_at(program: &ProgramState, index: usize) -> Option<Opcode> {
+        if !program.opcode_bitmask.get(index).is_some_and(|bit| *bit) {
+            return None;
+        }
+        let value = *program.instructions.get(index)?;
+        let op = Opcode::from_u8(value);
+        (op as u8 == value).then_some(op)
+    }
+
     /// Precomputes the distance to the next opcode start for every byte in the instruction blob.
     ///
     /// The bitmask and instruction blob have the same lengths, so a PC value maps directly
-- 
2.43.0


From 6506dec86d9793995f6bd00f6bb490a904f191f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:58 +0000
Subject: [PATCH 23/53] fix: byte loads report the faulting page like every
 other access

---
 pvm/pvm-core/src/program/instruction/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvm/pvm-core/src/program/instruction/utils.rs b/pvm/pvm-core/src/program/instruction/utils.rs
index 36ce564..fc7bcf6 100644
--- a/pvm/pvm-core/src/program/instruction/utils.rs
+++ b/pvm/pvm-core/src/program/instruction/utils.rs
@@ -40,7 +40,7 @@ macro_rules! mem_panic {
 macro_rules! mem_page_fault {
     ($addr:expr) => {
         Ok(SingleStepResult {
-            exit_reason: ExitReason::PageFault($addr),
+            exit_reason: ExitReason::PageFault(VMUtils::page_start_address($addr)),
             state_change: VMStateChange::default(),
         })
     };
-- 
2.43.0


From eed20a1593cf089e08807a37d65704273946349c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:13 +0000
Subject: [PATCH 24/53] fix: signed remainder of the minimum value keeps the
 sign of the dividend

---
 pvm/pvm-core/src/utils.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pvm/pvm-core/src/utils.rs b/pvm/pvm-core/src/utils.rs
index 3c1d8fd..c13e23d 100644
--- a/pvm/pvm-core/src/utils.rs
+++ b/pvm/pvm-core/src/utils.rs
@@ -313,8 +313,7 @@ impl VMUtils {
         if b == 0 {
             a
         } else {
-            let sgn = if a.is_positive() { 1 } else { -1 };
-            sgn * (((a as i64).abs() as i32) % ((b as i64).abs() as i32))
+            a.wrapping_rem(b)
         }
     }
 
@@ -324,8 +323,7 @@ impl VMUtils {
         if b == 0 {
             a
         } else {
-            let sgn = if a.is_positive() { 1 } else { -1 };
-            sgn * (((a as i128).abs() as i64) % ((b as i128).abs() as i64))
+            a.wrapping_rem(b)
         }
     }
 }
-- 
2.43.0


From 3a9a6f9cc044d6c9f165e3ad50dace43ffc097b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:46 +0000
Subject: [PATCH 25/53] fix: instructions with operands cut off or overlapping
 the next instruction load like any other

---
 pvm/pvm-core/src/program/loader.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pvm/pvm-core/src/program/loader.rs b/pvm/pvm-core/src/program/loader.rs
index 9e88149..0ad6be0 100644
--- a/pvm/pvm-core/src/program/loader.rs
+++ b/pvm/pvm-core/src/program/loader.rs
@@ -9,7 +9,7 @@ use bitvec::prelude::*;
 use fr_codec::prelude::*;
 use fr_pvm_types::{
     common::{MemAddress, RegValue},
-    constants::MAX_SKIP_DISTANCE,
+    constants::{MAX_INST_BLOB_LENGTH, MAX_SKIP_DISTANCE},
 };
 use tracing::Level;
 
@@ -165,7 +165,12 @@ impl ProgramLoader {
             let inst = if next_index > instructions.len() {
                 Instruction::trap()
             } else {
-                Instruction::from_inst_blob(&instructions[idx..next_index], idx as RegValue, skip)?
+                // Operands are read from the octets following the opcode, whether or not they
+                // belong to another instruction. The instruction blob is extended with zeros.
+                let mut inst_blob = [0u8; MAX_INST_BLOB_LENGTH];
+                let available = MAX_INST_BLOB_LENGTH.min(instructions.len() - idx);
+                inst_blob[..available].copy_from_slice(&instructions[idx..idx + available]);
+                Instruction::from_inst_blob(&inst_blob, idx as RegValue, skip)?
             };
             decoded_instructions.push(inst);
             let decoded_index = decoded_instructions.len() as u32;
-- 
2.43.0


From 1e865cbea4326d50c10dd0fdd03d68f3e3fb978e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:07 +0000
Subject: [PATCH 26/53] fix: a length prefix beyond the end of the input is a
 decoding error, not an allocation

---
 codec/fr-codec/src/lib.rs   | 14 ++++++++++++--
 common/src/types/mod.rs     | 10 ++++++++++
 state/src/types/services.rs |  2 +-
 3 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/codec/fr-codec/src/lib.rs b/codec/fr-codec/src/lib.rs
index 2124931..75894df 100644
--- a/codec/fr-codec/src/lib.rs
+++ b/codec/fr-codec/src/lib.rs
@@ -336,7 +336,7 @@ impl<T: JamEncode> JamEncode for Vec<T> {
 impl<T: JamDecode> JamDecode for Vec<T> {
     fn decode<I: JamInput>(input: &mut I) -> Result<Self, JamCodecError> {
         let len = usize::decode(input)?; // length discriminator
-        let mut vec = Self::with_capacity(len);
+        let mut vec = Self::with_capacity(len.min(input.remaining_len()));
         for _ in 0..len {
             vec.push(T::decode(input)?);
         }
@@ -685,8 +685,13 @@ impl JamDecodeFixed for BitVec<u8, Lsb0> {
     where
         Self: Sized,
     {
-        let mut bv = Self::with_capacity(size_in_bits);
         let expected_bytes = size_in_bits.div_ceil(8);
+        if expected_bytes > input.remaining_len() {
+            return Err(JamCodecError::InputError(
+                "Not enough data to decode the bit sequence".into(),
+            ));
+        }
+        let mut bv = Self::with_capacity(size_in_bits);
         let mut bytes_read = 0;
 
         while bytes_read < expected_bytes {
@@ -731,6 +736,11 @@ impl JamDecodeFixed for Vec<u8> {
     where
         Self: Sized,
     {
+        if size > input.remaining_len() {
+            return Err(JamCodecError::InputError(
+                "Not enough data to decode the octet sequence".into(),
+            ));
+        }
         let mut buffer = vec![0u8; size];
         input.read(&mut buffer)?;
         Ok(buffer)
diff --git a/common/src/types/mod.rs b/common/src/types/mod.rs
index 2df8180..e3c3c59 100644
--- a/common/src/types/mod.rs
+++ b/common/src/types/mod.rs
@@ -163,6 +163,11 @@ impl JamDecode for ByteSequence {
         Self: Sized,
     {
         let len = usize::decode(input)?;
+        if len > input.remaining_len() {
+            return Err(JamCodecError::InputError(
+                "Failed to Decode ByteSequence".into(),
+            ));
+        }
         let mut vec = vec![0u8; len];
         input
             .read(&mut vec)
@@ -198,6 +203,11 @@ impl JamDecodeFixed for ByteSequence {
     where
         Self: Sized,
     {
+        if size > input.remaining_len() {
+            return Err(JamCodecError::InputError(
+                "Failed to Decode ByteSequence".into(),
+            ));
+        }
         let mut buffer = vec![0u8; size];
         input.read(&mut buffer)?;
         Ok(Self(buffer))
diff --git a/state/src/types/services.rs b/state/src/types/services.rs
index 8a752a2..adbf365 100644
--- a/state/src/types/services.rs
+++ b/state/src/types/services.rs
@@ -518,7 +518,7 @@ impl JamDecode for AccountLookupsEntry {
         Self: Sized,
     {
         let len = usize::decode(input)?;
-        let mut timeslots = Vec::with_capacity(len);
+        let mut timeslots = Vec::with_capacity(len.min(input.remaining_len()));
         for _ in 0..len {
             let timeslot = Timeslot::decode_fixed(input, 4)?;
             timeslots.push(timeslot)
-- 
2.43.0


From 52dd133227c6a65fe608a5318f9d8f9739f9e030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:07 +0000
Subject: [PATCH 27/53] fix: integers and bit sequences that are not
 canonically encoded are rejected

---
 codec/fr-codec/src/lib.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/codec/fr-codec/src/lib.rs b/codec/fr-codec/src/lib.rs
index 75894df..439aed1 100644
--- a/codec/fr-codec/src/lib.rs
+++ b/codec/fr-codec/src/lib.rs
@@ -204,6 +204,11 @@ where
     if length_prefix == 8 {
         // Case 3: 2^56 <= x < 2^64
         let value = u64::decode_fixed(input, 8)?;
+        if value < 1 << 56 {
+            return Err(JamCodecError::InputError(
+                "Integer not encoded in the least number of octets".into(),
+            ));
+        }
         return U::try_from(value).map_err(|e| JamCodecError::ConversionError(e.to_string()));
     }
 
@@ -215,6 +220,11 @@ where
 
     // Combine quotient and remainder to get the final decoded value
     let value = (quotient << (8 * l)) | remainder;
+    if integer_size_hint(value) != l + 1 {
+        return Err(JamCodecError::InputError(
+            "Integer not encoded in the least number of octets".into(),
+        ));
+    }
     U::try_from(value).map_err(|e| JamCodecError::ConversionError(e.to_string()))
 }
 
@@ -701,8 +711,10 @@ impl JamDecodeFixed for BitVec<u8, Lsb0> {
             for i in 0..8 {
                 if bv.len() < size_in_bits {
                     bv.push(byte & (1 << i) != 0);
-                } else {
-                    break;
+                } else if byte & (1 << i) != 0 {
+                    return Err(JamCodecError::InputError(
+                        "Bit sequence padded with a non-zero bit".into(),
+                    ));
                 }
             }
         }
-- 
2.43.0


From 1c54384e62b96427b064e9511ed1554d4b081d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:07 +0000
Subject: [PATCH 28/53] fix: a jump table decodes within its program, whatever
 the width of its entries

---
 pvm/pvm-core/src/program/loader.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pvm/pvm-core/src/program/loader.rs b/pvm/pvm-core/src/program/loader.rs
index 0ad6be0..d0ae1d3 100644
--- a/pvm/pvm-core/src/program/loader.rs
+++ b/pvm/pvm-core/src/program/loader.rs
@@ -68,9 +68,19 @@ impl ProgramLoader {
         let instructions_len = usize::decode(input)?;
 
         // Decode the dynamic jump table (j)
+        if jump_table_len > input.remaining_len() {
+            return Err(VMCoreError::InvalidProgram);
+        }
         let mut jump_table = Vec::with_capacity(jump_table_len);
         for _ in 0..jump_table_len {
-            jump_table.push(MemAddress::decode_fixed(input, z as usize)?);
+            // No instruction has an address that takes more octets than `MemAddress`
+            let entry = Vec::<u8>::decode_fixed(input, z as usize)?;
+            let (low, high) = entry.split_at(entry.len().min(size_of::<MemAddress>()));
+            jump_table.push(if high.iter().any(|&octet| octet != 0) {
+                MemAddress::MAX
+            } else {
+                MemAddress::decode_fixed(&mut &*low, low.len())?
+            });
         }
 
         // Decode the instruction sequence (c)
-- 
2.43.0


From fbef15ea82b9d8552b106281dffd3cf3f060dfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:44 +0000
Subject: [PATCH 29/53] fix: inner machines have an address space

---
 pvm/pvm-host/src/inner_vm.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pvm/pvm-host/src/inner_vm.rs b/pvm/pvm-host/src/inner_vm.rs
index 985b354..510c060 100644
--- a/pvm/pvm-host/src/inner_vm.rs
+++ b/pvm/pvm-host/src/inner_vm.rs
@@ -1,5 +1,8 @@
 use fr_pvm_core::state::memory::Memory;
-use fr_pvm_types::common::RegValue;
+use fr_pvm_types::{
+    common::RegValue,
+    constants::{MEMORY_SIZE, PAGE_SIZE},
+};
 
 #[derive(Clone)]
 pub(crate) struct InnerPVM {
@@ -15,7 +18,7 @@ impl InnerPVM {
     pub(crate) fn new(program_code: Vec<u8>, pc: RegValue) -> Self {
         Self {
             program_code,
-            memory: Memory::default(),
+            memory: Memory::new(MEMORY_SIZE, PAGE_SIZE),
             pc,
         }
     }
-- 
2.43.0


From d2461266d08f10608a33f25cbbca8806112bb30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:44 +0000
Subject: [PATCH 30/53] fix: a new inner machine takes the lowest free index

---
 pvm/pvm-host/src/context/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pvm/pvm-host/src/context/mod.rs b/pvm/pvm-host/src/context/mod.rs
index 4318b07..f5f208e 100644
--- a/pvm/pvm-host/src/context/mod.rs
+++ b/pvm/pvm-host/src/context/mod.rs
@@ -526,11 +526,19 @@ impl RefineHostContext {
     pub(crate) fn add_pvm_instance(&mut self, pvm: InnerPVM) -> usize {
         let id = self.next_instance_id;
         self.pvm_instances.insert(id, pvm);
-        self.next_instance_id += 1;
+        self.update_next_instance_id();
         id
     }
 
     pub(crate) fn remove_pvm_instance(&mut self, id: usize) {
         self.pvm_instances.remove(&id);
+        self.update_next_instance_id();
+    }
+
+    /// The next instance takes the lowest ID not in use.
+    fn update_next_instance_id(&mut self) {
+        self.next_instance_id = (0..=self.pvm_instances.len())
+            .find(|id| !self.pvm_instances.contains_key(id))
+            .unwrap_or_default();
     }
 }
-- 
2.43.0


From 94a3c03e1c5b425d9c28288c7ef4d602a5bbd386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:44 +0000
Subject: [PATCH 31/53] fix: PAGES clears and opens pages of an inner machine
 whatever their access was

---
 pvm/pvm-host/src/host_functions/refine/mod.rs | 22 ++++++++++++++-----
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/pvm/pvm-host/src/host_functions/refine/mod.rs b/pvm/pvm-host/src/host_functions/refine/mod.rs
index 181fdf7..c2f1bff 100644
--- a/pvm/pvm-host/src/host_functions/refine/mod.rs
+++ b/pvm/pvm-host/src/host_functions/refine/mod.rs
@@ -354,7 +354,7 @@ impl<S: HostStateProvider> RefineHostFunction<S> {
 
         if mode > 4
             || inner_memory_page_offset < 16
-            || inner_memory_page_offset + pages_count >= (1 << 32) / PAGE_SIZE
+            || inner_memory_page_offset.saturating_add(pages_count) >= (1 << 32) / PAGE_SIZE
         {
             continue_huh!()
         }
@@ -370,11 +370,21 @@ impl<S: HostStateProvider> RefineHostFunction<S> {
 
         // conditionally clear values
         if mode < 3 {
-            let address_offset = (inner_memory_page_offset * PAGE_SIZE) as MemAddress;
-            let data_size = pages_count * PAGE_SIZE;
-            let Ok(_) = inner_memory_mut.write_bytes(address_offset, &vec![0u8; data_size]) else {
-                continue_huh!()
-            };
+            for page in page_start..page_end {
+                // inaccessible pages have no value but zeros
+                if !inner_memory_mut.is_page_range_readable(page..page + 1) {
+                    continue;
+                }
+                let Ok(_) = inner_memory_mut
+                    .set_page_range_access(page..page + 1, AccessType::ReadWrite)
+                    .and_then(|_| {
+                        inner_memory_mut
+                            .write_bytes((page * PAGE_SIZE) as MemAddress, &[0u8; PAGE_SIZE])
+                    })
+                else {
+                    continue_huh!()
+                };
+            }
         }
 
         // set access types
-- 
2.43.0


From d129b80a10cbdd2840244e1b9c965b2e617e4ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:44 +0000
Subject: [PATCH 32/53] fix: INVOKE accepts any gas limit and does not copy the
 inner memory

---
 pvm/pvm-host/src/host_functions/refine/mod.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pvm/pvm-host/src/host_functions/refine/mod.rs b/pvm/pvm-host/src/host_functions/refine/mod.rs
index c2f1bff..8d25548 100644
--- a/pvm/pvm-host/src/host_functions/refine/mod.rs
+++ b/pvm/pvm-host/src/host_functions/refine/mod.rs
@@ -452,14 +452,16 @@ impl<S: HostStateProvider> RefineHostFunction<S> {
 
         // --- PVM Invocation
 
+        // The part of the gas limit beyond the range of the gas counter can never be used up
+        let inner_gas_limit = gas_limit.min(SignedGas::MAX as UnsignedGas);
+        let unused_gas = gas_limit - inner_gas_limit;
+
         // Construct a new `VMState` and `ProgramState` for the general invocation function.
         let mut inner_vm_state_copy = VMState {
             regs,
-            memory: inner_vm_mut.memory.clone(),
+            memory: std::mem::take(&mut inner_vm_mut.memory),
             pc: inner_vm_mut.pc,
-            gas_counter: gas_limit
-                .try_into()
-                .map_err(|_| HostCallError::GasLimitOverflow(gas_limit))?,
+            gas_counter: inner_gas_limit as SignedGas,
         };
 
         // Load program and invoke the PVM.
@@ -475,7 +477,9 @@ impl<S: HostStateProvider> RefineHostFunction<S> {
 
         // 112-byte mem write
         let mut host_buf = vec![];
-        (inner_vm_state_copy.gas_counter as UnsignedGas).encode_to_fixed(&mut host_buf, 8)?;
+        (inner_vm_state_copy.gas_counter as UnsignedGas)
+            .wrapping_add(unused_gas)
+            .encode_to_fixed(&mut host_buf, 8)?;
         for reg in inner_vm_state_copy.regs {
             reg.encode_to_fixed(&mut host_buf, 8)?;
         }
-- 
2.43.0


From 68a59d3b166c3cbffb842a2ee9e6f23113fc04f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:12 +0000
Subject: [PATCH 33/53] fix: gas sums of accumulation saturate instead of
 failing the block

---
 pvm/pvm-invocation/src/accumulate/pipeline.rs | 31 ++++++-------------
 transition/src/state/services.rs              |  8 ++---
 2 files changed, 14 insertions(+), 25 deletions(-)

diff --git a/pvm/pvm-invocation/src/accumulate/pipeline.rs b/pvm/pvm-invocation/src/accumulate/pipeline.rs
index 1447911..0fb11e6 100644
--- a/pvm/pvm-invocation/src/accumulate/pipeline.rs
+++ b/pvm/pvm-invocation/src/accumulate/pipeline.rs
@@ -143,18 +143,13 @@ pub async fn accumulate_outer(
             .iter()
             .try_fold(0u64, |acc, pair| acc.checked_add(pair.gas))
             .ok_or(PVMInvokeError::GasOverflow)?;
-        let deferred_transfer_gas =
-            prev_deferred_transfers
-                .iter()
-                .try_fold(0u64, |acc, transfer| {
-                    acc.checked_add(transfer.gas_limit)
-                        .ok_or(PVMInvokeError::GasOverflow)
-                })?;
+        let deferred_transfer_gas = prev_deferred_transfers
+            .iter()
+            .fold(0u64, |acc, transfer| acc.saturating_add(transfer.gas_limit));
+        // Always-accumulate services may use gas on top of the reports' share of the budget.
         remaining_gas_limit = remaining_gas_limit
-            .checked_add(deferred_transfer_gas)
-            .ok_or(PVMInvokeError::GasOverflow)?
-            .checked_sub(gas_used)
-            .ok_or(PVMInvokeError::GasOverflow)?;
+            .saturating_add(deferred_transfer_gas)
+            .saturating_sub(gas_used);
         service_gas_pairs_flattened.extend(service_gas_pairs);
         service_output_pairs_flattened.extend(output_pairs.0);
     }
@@ -701,20 +696,14 @@ async fn accumulate_single_service(
         .iter()
         .flat_map(|wr| wr.digests.iter())
         .filter(|wd| wd.service_id == service_id)
-        .try_fold(0u64, |acc, wd| acc.checked_add(wd.accumulate_gas_limit))
-        .ok_or(PVMInvokeError::GasOverflow)?;
-    gas_limit = gas_limit
-        .checked_add(reports_gas_aggregated)
-        .ok_or(PVMInvokeError::GasOverflow)?;
+        .fold(0u64, |acc, wd| acc.saturating_add(wd.accumulate_gas_limit));
+    gas_limit = gas_limit.saturating_add(reports_gas_aggregated);
 
     let deferred_transfers_gas_aggregated = prev_deferred_transfers
         .iter()
         .filter(|&transfer| transfer.to == service_id)
-        .try_fold(0u64, |acc, transfer| acc.checked_add(transfer.gas_limit))
-        .ok_or(PVMInvokeError::GasOverflow)?;
-    gas_limit = gas_limit
-        .checked_add(deferred_transfers_gas_aggregated)
-        .ok_or(PVMInvokeError::GasOverflow)?;
+        .fold(0u64, |acc, transfer| acc.saturating_add(transfer.gas_limit));
+    gas_limit = gas_limit.saturating_add(deferred_transfers_gas_aggregated);
 
     AccumulateInvocation::<StateManager>::accumulate(
         state_manager,
diff --git a/transition/src/state/services.rs b/transition/src/state/services.rs
index ab90b63..1933b41 100644
--- a/transition/src/state/services.rs
+++ b/transition/src/state/services.rs
@@ -109,10 +109,10 @@ pub async fn transition_on_accumulate(
         .await?
         .always_accumulate_services;
 
-    let gas_limit = ACCUMULATION_GAS_ALL_CORES.max(
-        ACCUMULATION_GAS_PER_CORE * CORE_COUNT as UnsignedGas
-            + always_accumulate_services.values().sum::<UnsignedGas>(),
-    );
+    let gas_limit = ACCUMULATION_GAS_ALL_CORES.max(always_accumulate_services.values().fold(
+        ACCUMULATION_GAS_PER_CORE * CORE_COUNT as UnsignedGas,
+        |sum, gas| sum.saturating_add(*gas),
+    ));
 
     let mut outer_accumulate_result = accumulate_outer(
         state_manager.clone(),
-- 
2.43.0


From be0db45808e0ae446445f274930d346c81e16073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:12 +0000
Subject: [PATCH 34/53] fix: an invocation with a gas limit beyond the gas
 counter's range does not run out of gas at once

---
 pvm/pvm-interface/src/invoke.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pvm/pvm-interface/src/invoke.rs b/pvm/pvm-interface/src/invoke.rs
index a8d2f80..de72d9a 100644
--- a/pvm/pvm-interface/src/invoke.rs
+++ b/pvm/pvm-interface/src/invoke.rs
@@ -221,6 +221,8 @@ impl PVMInterface {
             return Ok(PVMInvocationResult::panic(0));
         };
         pvm.state.pc = pc;
+        // The part of the gas limit beyond the range of the gas counter can never be used up
+        let gas_limit = gas_limit.min(SignedGas::MAX as UnsignedGas);
         pvm.state.gas_counter = gas_limit as SignedGas;
 
         let result = Self::invoke_extended(
-- 
2.43.0


From 4c6e4692b12c9261c8ba4ff1c180ab45639e3496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:43 +0000
Subject: [PATCH 35/53] fix: recovery from chunks of unequal or odd lengths is
 an error

---
 common/erasure-coding/src/lib.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/common/erasure-coding/src/lib.rs b/common/erasure-coding/src/lib.rs
index 7724c14..ec248db 100644
--- a/common/erasure-coding/src/lib.rs
+++ b/common/erasure-coding/src/lib.rs
@@ -11,6 +11,8 @@ pub enum ErasureCodingError {
         "Provided chunks ({provided}) are not enough to recover the data. Required: {required}"
     )]
     InsufficientChunks { provided: usize, required: usize },
+    #[error("Chunks must all have the same length, a whole number of octet pairs")]
+    InvalidChunkLength,
     #[error("ReedSolomonError: {0}")]
     ReedSolomonError(#[from] ReedSolomonError),
 }
@@ -163,6 +165,14 @@ impl ErasureCodec {
         }
 
         let chunk_octets = chunks_indexed[0].0.len();
+        // Chunks are provided by other validators and can have any length
+        if !chunk_octets.is_multiple_of(2)
+            || chunks_indexed
+                .iter()
+                .any(|(chunk, _)| chunk.len() != chunk_octets)
+        {
+            return Err(ErasureCodingError::InvalidChunkLength);
+        }
         let chunk_octet_pairs = chunk_octets / 2; // The number of octet pairs per chunk (k)
 
         // Initialize with proper size
-- 
2.43.0


From 2ecd647fa858bac1d8b0982b9501ad91831cb272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:46 +0000
Subject: [PATCH 36/53] fix: VRF and ring proofs with an output point outside
 the prime-order subgroup are rejected

---
 crypto/src/vrf/vrf_core.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crypto/src/vrf/vrf_core.rs b/crypto/src/vrf/vrf_core.rs
index dafda75..799bd8c 100644
--- a/crypto/src/vrf/vrf_core.rs
+++ b/crypto/src/vrf/vrf_core.rs
@@ -181,7 +181,8 @@ impl IetfVrfVerifierCore {
     ) -> Result<[u8; 32], CryptoError> {
         use ark_vrf::ietf::Verifier as _;
 
-        let signature = IetfVrfSignature::deserialize_compressed_unchecked(signature)?;
+        // Checked: an output point outside the prime-order subgroup would break VRF uniqueness
+        let signature = IetfVrfSignature::deserialize_compressed(signature)?;
 
         let input = vrf_input_point(vrf_input_data)?;
         let output = signature.output;
@@ -249,7 +250,8 @@ impl RingVrfVerifierCore {
     ) -> Result<[u8; 32], CryptoError> {
         use ark_vrf::ring::Verifier as _;
 
-        let signature = RingVrfSignature::deserialize_compressed_unchecked(signature)?;
+        // Checked: an output point outside the prime-order subgroup would break VRF uniqueness
+        let signature = RingVrfSignature::deserialize_compressed(signature)?;
 
         let input = vrf_input_point(vrf_input_data)?;
         let output = signature.output; // extracted from the signature
-- 
2.43.0


From ed37453fb4e639fe3bf3334c1fa0b834005aa4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:06 +0000
Subject: [PATCH 37/53] fix: removing an entry added, or adding one removed,
 since the last commit no longer breaks the commit

---
 state/src/cache.rs   | 31 +++++++++++++++++++++++++++++++
 state/src/manager.rs | 11 ++---------
 2 files changed, 33 insertions(+), 9 deletions(-)

diff --git a/state/src/cache.rs b/state/src/cache.rs
index dfea9b5..a3a52f2 100644
--- a/state/src/cache.rs
+++ b/state/src/cache.rs
@@ -130,6 +130,28 @@ impl StateCache {
         self.inner.insert(key, entry);
     }
 
+    /// Inserts an entry added by the current state transition.
+    /// Adding an entry back after its removal updates the committed entry.
+    pub(crate) fn insert_added_entry(&self, key: StateKey, value: StateEntryType) {
+        let _guard = self.write_guard();
+        let value = Arc::new(value);
+        let entry = match self.inner.get(&key) {
+            Some(removed) if removed.status == CacheEntryStatus::Dirty(StateMut::Remove) => {
+                CacheEntry {
+                    clean_snapshot: removed.clean_snapshot,
+                    value,
+                    status: CacheEntryStatus::Dirty(StateMut::Update),
+                }
+            }
+            _ => CacheEntry {
+                clean_snapshot: value.clone(),
+                value,
+                status: CacheEntryStatus::Dirty(StateMut::Add),
+            },
+        };
+        self.insert_entry(key, entry);
+    }
+
     /// Inserts a clean cache entry that was loaded from the DB (or decoded from a `Raw` entry).
     /// A dirty entry, which a concurrent STF may have produced in the meantime, is never
     /// overwritten; it is newer than the loaded one.
@@ -172,6 +194,15 @@ impl StateCache {
 
         f(entry_mut)?; // Call the closure to apply the state mutation
 
+        // Removing an entry that was added after the last commit leaves nothing to be committed.
+        if cache_entry.status == CacheEntryStatus::Dirty(StateMut::Add)
+            && state_mut == StateMut::Remove
+        {
+            self.inner.invalidate(state_key);
+            self.remove_dirty_state_key(state_key);
+            return Ok(());
+        }
+
         // If cache entry is dirty with `StateMut::Add` and the new `state_mut` is `StateMut::Update`,
         // keep the entry marked with `StateMut::Add`. This allows mutating new entries before
         // they get committed to the db.
diff --git a/state/src/manager.rs b/state/src/manager.rs
index fd2005a..70083a0 100644
--- a/state/src/manager.rs
+++ b/state/src/manager.rs
@@ -981,15 +981,8 @@ impl StateManager {
             )));
         }
 
-        let state_entry_type = Arc::new(state_entry.into_entry_type());
-        self.cache.insert_entry(
-            state_key.clone(),
-            CacheEntry {
-                clean_snapshot: state_entry_type.clone(),
-                value: state_entry_type,
-                status: CacheEntryStatus::Dirty(StateMut::Add),
-            },
-        );
+        self.cache
+            .insert_added_entry(state_key.clone(), state_entry.into_entry_type());
 
         Ok(())
     }
-- 
2.43.0


From b093067ce9430070a8adbe83ac294555bf8a2c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:00 +0000
Subject: [PATCH 38/53] fix: uncommitted state entries are never evicted,
 evicted state entries can be updated

---
 state/src/cache.rs   | 169 +++++++++++++++++++------------------------
 state/src/manager.rs |  15 +---
 2 files changed, 78 insertions(+), 106 deletions(-)

diff --git a/state/src/cache.rs b/state/src/cache.rs
index a3a52f2..c15be29 100644
--- a/state/src/cache.rs
+++ b/state/src/cache.rs
@@ -6,7 +6,7 @@ use crate::{
 use fr_common::{ByteEncodable, StateKey};
 use mini_moka::sync::{Cache, ConcurrentCacheExt};
 use std::{
-    collections::HashSet,
+    collections::HashMap,
     sync::{Arc, Mutex, MutexGuard},
 };
 #[derive(Debug, Clone, PartialEq)]
@@ -63,24 +63,22 @@ impl CacheEntry {
 
 /// A thread-safe mapping from state keys to their corresponding cache entries.
 pub struct StateCache {
-    /// A state cache which ensures that dirty cache entries never get evicted.
+    /// Clean cache entries, which can be evicted at any time.
     inner: Cache<StateKey, CacheEntry>,
-    /// Tracks state keys of all "dirty" cache entries.
-    dirty_keys: Mutex<HashSet<StateKey>>,
+    /// All "dirty" cache entries. These are kept apart from the evictable entries, since they are
+    /// the only copies of the uncommitted state changes.
+    dirty: Mutex<HashMap<StateKey, CacheEntry>>,
     /// Serializes read-modify-write sequences on cache entries, since STFs run concurrently.
     write_lock: Mutex<()>,
 }
 
 impl StateCache {
     /// Creates a `StateCache` with the given max capacity.
-    /// Cache entries with `Dirty` status never gets evicted since they have zero weight.
+    /// Cache entries with `Dirty` status never gets evicted.
     pub fn new(max_capacity: usize) -> Self {
         Self {
-            inner: Cache::builder()
-                .weigher(|_key, entry: &CacheEntry| -> u32 { u32::from(!entry.is_dirty()) })
-                .max_capacity(max_capacity as u64)
-                .build(),
-            dirty_keys: Mutex::new(HashSet::new()),
+            inner: Cache::new(max_capacity as u64),
+            dirty: Mutex::new(HashMap::new()),
             write_lock: Mutex::new(()),
         }
     }
@@ -91,43 +89,32 @@ impl StateCache {
             .unwrap_or_else(|poisoned| poisoned.into_inner())
     }
 
-    fn dirty_keys_guard(&self) -> MutexGuard<'_, HashSet<StateKey>> {
-        self.dirty_keys.lock().unwrap_or_else(|poisoned| {
-            tracing::error!("State cache dirty_keys lock poisoned; continuing with inner data");
+    fn dirty_guard(&self) -> MutexGuard<'_, HashMap<StateKey, CacheEntry>> {
+        self.dirty.lock().unwrap_or_else(|poisoned| {
+            tracing::error!("State cache dirty entries lock poisoned; continuing with inner data");
             poisoned.into_inner()
         })
     }
 
-    fn get_dirty_state_keys(&self) -> Vec<StateKey> {
-        let guard = self.dirty_keys_guard();
-        guard.iter().cloned().collect()
-    }
-
-    fn insert_to_dirty_state_key_set(&self, state_key: StateKey) {
-        self.dirty_keys_guard().insert(state_key);
-    }
-
-    fn remove_dirty_state_key(&self, state_key: &StateKey) {
-        self.dirty_keys_guard().remove(state_key);
-    }
-
-    fn clear_dirty_state_keys(&self) {
-        self.dirty_keys_guard().clear();
+    fn get_dirty_entry(&self, key: &StateKey) -> Option<CacheEntry> {
+        self.dirty_guard().get(key).cloned()
     }
 
     pub(crate) fn get_entry(&self, key: &StateKey) -> Option<CacheEntry> {
-        self.inner.get(key)
+        self.get_dirty_entry(key).or_else(|| self.inner.get(key))
     }
 
     pub(crate) fn get_entry_status(&self, key: &StateKey) -> Option<CacheEntryStatus> {
-        self.inner.get(key).map(|entry| entry.status.clone())
+        self.get_entry(key).map(|entry| entry.status)
     }
 
     pub(crate) fn insert_entry(&self, key: StateKey, entry: CacheEntry) {
         if entry.is_dirty() {
-            self.insert_to_dirty_state_key_set(key.clone());
+            self.dirty_guard().insert(key, entry);
+        } else {
+            self.dirty_guard().remove(&key);
+            self.inner.insert(key, entry);
         }
-        self.inner.insert(key, entry);
     }
 
     /// Inserts an entry added by the current state transition.
@@ -135,7 +122,7 @@ impl StateCache {
     pub(crate) fn insert_added_entry(&self, key: StateKey, value: StateEntryType) {
         let _guard = self.write_guard();
         let value = Arc::new(value);
-        let entry = match self.inner.get(&key) {
+        let entry = match self.get_dirty_entry(&key) {
             Some(removed) if removed.status == CacheEntryStatus::Dirty(StateMut::Remove) => {
                 CacheEntry {
                     clean_snapshot: removed.clean_snapshot,
@@ -157,9 +144,7 @@ impl StateCache {
     /// overwritten; it is newer than the loaded one.
     pub(crate) fn insert_loaded_clean_entry(&self, key: StateKey, entry: CacheEntry) {
         let _guard = self.write_guard();
-        if self.inner.get(&key).is_some_and(|existing| {
-            existing.is_dirty() && !matches!(existing.value.as_ref(), StateEntryType::Raw(_))
-        }) {
+        if self.dirty_guard().contains_key(&key) {
             return;
         }
         self.inner.insert(key, entry);
@@ -167,13 +152,19 @@ impl StateCache {
 
     // Note: test-only
     pub(crate) fn invalidate_all(&self) {
+        self.dirty_guard().clear();
         self.inner.invalidate_all();
     }
 
+    /// Mutates the entry at the given key.
+    ///
+    /// `loaded` is the latest value of the entry, which is mutated in case its (clean) cache entry
+    /// was already evicted or holds the `Raw` value.
     pub(crate) fn with_mut_entry<T, F, E>(
         &self,
         state_key: &StateKey,
         state_mut: StateMut,
+        loaded: T,
         f: F,
     ) -> Result<(), StateManagerError>
     where
@@ -184,36 +175,34 @@ impl StateCache {
         let _guard = self.write_guard();
 
         // Cloned data
-        let mut cache_entry = self
-            .inner
-            .get(state_key)
-            .ok_or(StateManagerError::CacheEntryNotFound)?;
+        let mut cache_entry = match self.get_entry(state_key) {
+            Some(mut entry) => {
+                if let StateEntryType::Raw(_) = entry.value.as_ref() {
+                    entry.value = Arc::new(loaded.into_entry_type());
+                }
+                entry
+            }
+            None => CacheEntry::new(loaded.into_entry_type()),
+        };
 
         let entry_mut = T::from_entry_type_mut(Arc::make_mut(&mut cache_entry.value))
             .ok_or(StateManagerError::UnexpectedEntryType)?;
 
         f(entry_mut)?; // Call the closure to apply the state mutation
 
-        // Removing an entry that was added after the last commit leaves nothing to be committed.
-        if cache_entry.status == CacheEntryStatus::Dirty(StateMut::Add)
-            && state_mut == StateMut::Remove
-        {
-            self.inner.invalidate(state_key);
-            self.remove_dirty_state_key(state_key);
-            return Ok(());
-        }
-
-        // If cache entry is dirty with `StateMut::Add` and the new `state_mut` is `StateMut::Update`,
-        // keep the entry marked with `StateMut::Add`. This allows mutating new entries before
-        // they get committed to the db.
-        if cache_entry.status != CacheEntryStatus::Dirty(StateMut::Add)
-            || state_mut != StateMut::Update
-        {
-            self.insert_to_dirty_state_key_set(state_key.clone());
-            cache_entry.mark_dirty(state_mut)
+        if cache_entry.status == CacheEntryStatus::Dirty(StateMut::Add) {
+            // Removing an entry that was added after the last commit leaves nothing to be committed.
+            if state_mut == StateMut::Remove {
+                self.dirty_guard().remove(state_key);
+                return Ok(());
+            }
+            // An entry marked with `StateMut::Add` keeps the mark when it gets updated. This allows
+            // mutating new entries before they get committed to the db.
+        } else {
+            cache_entry.mark_dirty(state_mut);
         }
 
-        self.inner.insert(state_key.clone(), cache_entry);
+        self.insert_entry(state_key.clone(), cache_entry);
         Ok(())
     }
 
@@ -222,20 +211,17 @@ impl StateCache {
         key: &StateKey,
     ) -> Result<(), StateManagerError> {
         let mut cache_entry = self
-            .inner
-            .get(key)
+            .get_entry(key)
             .ok_or(StateManagerError::CacheEntryNotFound)?;
         cache_entry.mark_clean_and_snapshot();
-        self.remove_dirty_state_key(key);
-        self.inner.insert(key.clone(), cache_entry);
+        self.insert_entry(key.clone(), cache_entry);
         Ok(())
     }
 
     pub(crate) fn collect_dirty(&self) -> Vec<(StateKey, CacheEntry)> {
-        let dirty_keys = self.get_dirty_state_keys();
-        dirty_keys
-            .into_iter()
-            .filter_map(|key| self.get_entry(&key).map(|entry| (key, entry)))
+        self.dirty_guard()
+            .iter()
+            .map(|(key, entry)| (key.clone(), entry.clone()))
             .collect()
     }
 
@@ -247,13 +233,14 @@ impl StateCache {
             // Remove cache entries that are removed from the global state
             if let CacheEntryStatus::Dirty(StateMut::Remove) = entry.status {
                 self.inner.invalidate(key);
-            } else if let Some(mut entry_mut) = self.inner.get(key) {
-                entry_mut.mark_clean_and_snapshot();
-                self.inner.insert(key.clone(), entry_mut);
+            } else {
+                let mut clean_entry = entry.clone();
+                clean_entry.mark_clean_and_snapshot();
+                self.inner.insert(key.clone(), clean_entry);
             }
         }
         self.inner.sync();
-        self.clear_dirty_state_keys();
+        self.dirty_guard().clear();
     }
 
     /// Applies the provided dirty cache entries from a state commit artifact of staged block
@@ -288,33 +275,25 @@ impl StateCache {
     /// `Add`ed entries will be explicitly evicted from the state cache.
     /// `Update`d or `Remove`d entries will be reverted back to the clean snapshot.
     pub(crate) fn rollback_dirty_cache(&self) {
-        let dirty_keys = self.get_dirty_state_keys();
-        dirty_keys.into_iter().for_each(|key| {
-            if let Some(mut entry) = self.get_entry(&key) {
-                match entry.status {
-                    CacheEntryStatus::Dirty(StateMut::Add) => {
-                        self.inner.invalidate(&key);
-                    }
-                    CacheEntryStatus::Dirty(StateMut::Update)
-                    | CacheEntryStatus::Dirty(StateMut::Remove) => {
-                        entry.revert_to_clean();
-                        self.insert_entry(key, entry);
-                    }
-                    CacheEntryStatus::Clean => {
-                        tracing::warn!(
-                            "Dirty state cache key points to clean entry. StateKey={}",
-                            key.to_hex()
-                        );
-                    }
+        let dirty_entries = std::mem::take(&mut *self.dirty_guard());
+        for (key, mut entry) in dirty_entries {
+            match entry.status {
+                CacheEntryStatus::Dirty(StateMut::Add) => {
+                    self.inner.invalidate(&key);
+                }
+                CacheEntryStatus::Dirty(StateMut::Update)
+                | CacheEntryStatus::Dirty(StateMut::Remove) => {
+                    entry.revert_to_clean();
+                    self.inner.insert(key, entry);
+                }
+                CacheEntryStatus::Clean => {
+                    tracing::warn!(
+                        "Clean entry found from dirty state cache entries. StateKey={}",
+                        key.to_hex()
+                    );
                 }
-            } else {
-                tracing::warn!(
-                    "Dirty state cache key missing from cache. StateKey={}",
-                    key.to_hex()
-                );
             }
-        });
-        self.clear_dirty_state_keys();
+        }
     }
 }
 
diff --git a/state/src/manager.rs b/state/src/manager.rs
index 70083a0..1f09a99 100644
--- a/state/src/manager.rs
+++ b/state/src/manager.rs
@@ -943,18 +943,11 @@ impl StateManager {
             return Err(StateManagerError::WrongStateMutType);
         }
 
-        let state_exists = self
-            .get_state_entry_internal::<T>(state_key)
-            .await?
-            .is_some();
-
-        if !state_exists {
-            return Err(StateManagerError::StateKeyNotInitialized(
-                state_key.encode_hex(),
-            ));
-        }
+        let loaded = self.get_state_entry_internal::<T>(state_key).await?.ok_or(
+            StateManagerError::StateKeyNotInitialized(state_key.encode_hex()),
+        )?;
 
-        self.cache.with_mut_entry(state_key, state_mut, f)
+        self.cache.with_mut_entry(state_key, state_mut, loaded, f)
     }
 
     async fn add_state_entry_internal<T>(
-- 
2.43.0


From 30cc36e876d4ba14ad9d2cfdc134f72f11291bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:07 +0000
Subject: [PATCH 39/53] fix: a timeslot is in the future until it begins

---
 state/src/types/timeslot.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/state/src/types/timeslot.rs b/state/src/types/timeslot.rs
index d30c44a..932ae3d 100644
--- a/state/src/types/timeslot.rs
+++ b/state/src/types/timeslot.rs
@@ -83,11 +83,6 @@ impl Timeslot {
     }
 
     fn timeslot_beginning_to_unix_timestamp(&self) -> u64 {
-        if self.0 == 0 {
-            COMMON_ERA_TIMESTAMP
-        } else {
-            let slot_duration_secs = (self.0 - 1) as u64 * SLOT_DURATION;
-            COMMON_ERA_TIMESTAMP + slot_duration_secs
-        }
+        COMMON_ERA_TIMESTAMP + self.0 as u64 * SLOT_DURATION
     }
 }
-- 
2.43.0


From 3e9d5683c7022ca2a7e85eb91507c4628d3dae64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:07 +0000
Subject: [PATCH 40/53] fix: maps and sets decode only from strictly ascending
 members

---
 codec/fr-codec/src/lib.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/codec/fr-codec/src/lib.rs b/codec/fr-codec/src/lib.rs
index 439aed1..9021228 100644
--- a/codec/fr-codec/src/lib.rs
+++ b/codec/fr-codec/src/lib.rs
@@ -482,6 +482,11 @@ impl<K: JamDecode + Eq + Ord, V: JamDecode> JamDecode for BTreeMap<K, V> {
         for _ in 0..len {
             let key = K::decode(input)?;
             let value = V::decode(input)?;
+            if map.last_key_value().is_some_and(|(last, _)| *last >= key) {
+                return Err(JamCodecError::InputError(
+                    "Map keys are not strictly ascending".into(),
+                ));
+            }
             map.insert(key, value);
         }
         Ok(map)
@@ -506,7 +511,13 @@ impl<T: JamDecode + Ord> JamDecode for BTreeSet<T> {
         let len = usize::decode(input)?; // length discriminator
         let mut set = Self::new();
         for _ in 0..len {
-            set.insert(T::decode(input)?);
+            let item = T::decode(input)?;
+            if set.last().is_some_and(|last| *last >= item) {
+                return Err(JamCodecError::InputError(
+                    "Set items are not strictly ascending".into(),
+                ));
+            }
+            set.insert(item);
         }
         Ok(set)
     }
-- 
2.43.0


From 4157bd0a5358a47eb20148be348dfcefb31efec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:08 +0000
Subject: [PATCH 41/53] fix: a failed database read is an error, not an absent
 entry

---
 db/src/core/core_db.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/db/src/core/core_db.rs b/db/src/core/core_db.rs
index 5237dc5..16730d1 100644
--- a/db/src/core/core_db.rs
+++ b/db/src/core/core_db.rs
@@ -59,14 +59,13 @@ impl CoreDB {
     ) -> Result<Option<Vec<u8>>, CoreDBError> {
         let db = self.db.clone();
         let key_vec = key.to_vec();
-        Ok(tokio::task::spawn_blocking(move || {
+        tokio::task::spawn_blocking(move || -> Result<Option<Vec<u8>>, CoreDBError> {
             let cf = db
                 .cf_handle(cf_name)
-                .ok_or(CoreDBError::ColumnFamilyNotFound(cf_name.to_string()))
-                .ok()?;
-            db.get_cf(&cf, &key_vec).ok()?
+                .ok_or(CoreDBError::ColumnFamilyNotFound(cf_name.to_string()))?;
+            Ok(db.get_cf(&cf, &key_vec)?)
         })
-        .await?)
+        .await?
     }
 
     pub(crate) async fn put_entry(
-- 
2.43.0


From b0b9157b71ea0e56d50664a23938418b03fddf7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:26 +0000
Subject: [PATCH 42/53] fix: a block names its author's index in the validator
 set of its own epoch

---
 node/src/scheduler/chain_extension.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/node/src/scheduler/chain_extension.rs b/node/src/scheduler/chain_extension.rs
index c33af31..101db09 100644
--- a/node/src/scheduler/chain_extension.rs
+++ b/node/src/scheduler/chain_extension.rs
@@ -7,7 +7,8 @@ use crate::{
 };
 use fr_block::{header_db::BlockHeaderDBError, types::block::BlockHeaderError, xt_db::XtDBError};
 use fr_network::error::NetworkError;
-use fr_state::types::Timeslot;
+use fr_state::{error::StateManagerError, types::Timeslot};
+use fr_transition::state_prediction::validator_sets::predict_active_set;
 use std::sync::Arc;
 use thiserror::Error;
 
@@ -15,6 +16,8 @@ use thiserror::Error;
 pub enum ChainExtensionError {
     #[error("NetworkError: {0}")]
     NetworkError(#[from] NetworkError),
+    #[error("StateManagerError: {0}")]
+    StateManagerError(#[from] StateManagerError),
     #[error("RoleManagerError: {0}")]
     RoleManagerError(#[from] RoleManagerError),
     #[error("BlockHeaderError: {0}")]
@@ -42,12 +45,13 @@ pub async fn extend_chain(
     .await?
     {
         tracing::info!("✍️ Role: Author");
-        let mut author = BlockAuthor::new(
-            jam_node
-                .curr_epoch_validator_index
-                .ok_or(ChainExtensionError::MissingValidatorIndex)?,
-            jam_node.local_node_info().clone(),
-        )?;
+        let local_node_info = jam_node.local_node_info().clone();
+        let author_index =
+            predict_active_set(jam_node.storage().state_manager(), new_timeslot.slot())
+                .await?
+                .get_validator_index(local_node_info.bandersnatch_key())
+                .ok_or(ChainExtensionError::MissingValidatorIndex)?;
+        let mut author = BlockAuthor::new(author_index, local_node_info)?;
 
         let new_header = author
             .author_block_commit_header(jam_node.storage())
-- 
2.43.0


From bfdd30550de15baa06ff8b9a30ddf9cdfb7c8eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:27 +0000
Subject: [PATCH 43/53] fix: a block's extrinsics are stored before the block
 is announced

---
 node/src/roles/author.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/node/src/roles/author.rs b/node/src/roles/author.rs
index 54fe071..7b10cca 100644
--- a/node/src/roles/author.rs
+++ b/node/src/roles/author.rs
@@ -139,6 +139,15 @@ impl BlockAuthor {
         self.seal_block_header(&curr_slot_sealer, curr_entropy_3)
             .await?;
 
+        // Store extrinsics, so that the block can be served once it is announced
+        storage
+            .xt_db()
+            .set_xt(
+                self.new_block.header.extrinsic_hash(),
+                self.new_block.extrinsics.clone(),
+            )
+            .await?;
+
         // Commit block header and finalize block
         let (new_header, _new_header_hash) = self.commit_header(&storage).await?;
         Ok(new_header)
@@ -172,15 +181,6 @@ impl BlockAuthor {
             .set_post_state_root(&new_block_hash, post_state_root.clone())
             .await?;
 
-        // Store extrinsics
-        storage
-            .xt_db()
-            .set_xt(
-                self.new_block.header.extrinsic_hash(),
-                self.new_block.extrinsics.clone(),
-            )
-            .await?;
-
         Ok((self.new_block.clone(), post_state_root))
     }
 
-- 
2.43.0


From 1eb20e7926abace90c62a0b3a22735446a94c860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:54 +0000
Subject: [PATCH 44/53] fix: block requests and responses are read to their
 end, not up to their first fragment

---
 network/src/streams/ce_streams/mod.rs       | 16 ++++++-------
 network/src/streams/ce_streams/responder.rs | 26 ++++++++++-----------
 network/src/types.rs                        |  3 +++
 3 files changed, 24 insertions(+), 21 deletions(-)

diff --git a/network/src/streams/ce_streams/mod.rs b/network/src/streams/ce_streams/mod.rs
index 0ef7d5b..05a3d08 100644
--- a/network/src/streams/ce_streams/mod.rs
+++ b/network/src/streams/ce_streams/mod.rs
@@ -1,4 +1,4 @@
-use crate::{error::NetworkError, streams::stream_kinds::CeStreamKind, types::CHUNK_SIZE};
+use crate::{error::NetworkError, streams::stream_kinds::CeStreamKind, types::MAX_CE_MESSAGE_SIZE};
 use async_trait::async_trait;
 use fr_codec::prelude::*;
 use fr_storage::server_trait::NodeServerTrait;
@@ -44,16 +44,16 @@ mod ce_stream_utils {
     where
         T: CeStream + ?Sized,
     {
-        let resp = match recv_stream.read_chunk(CHUNK_SIZE, true).await {
-            Ok(Some(chunk)) => {
-                let mut bytes: &[u8] = &chunk.bytes;
-                tracing::debug!("[{}] Received respond", T::CE_STREAM_KIND);
-                Some(T::decode_response(&mut bytes))
-            }
-            Ok(None) => {
+        let resp = match recv_stream.read_to_end(MAX_CE_MESSAGE_SIZE).await {
+            Ok(resp) if resp.is_empty() => {
                 tracing::warn!("[{}] Stream closed", T::CE_STREAM_KIND);
                 None
             }
+            Ok(resp) => {
+                let mut bytes: &[u8] = &resp;
+                tracing::debug!("[{}] Received respond", T::CE_STREAM_KIND);
+                Some(T::decode_response(&mut bytes))
+            }
             Err(e) => {
                 tracing::error!("[{}] Error receiving respond: {e}", T::CE_STREAM_KIND);
                 None
diff --git a/network/src/streams/ce_streams/responder.rs b/network/src/streams/ce_streams/responder.rs
index f3b234a..bc63625 100644
--- a/network/src/streams/ce_streams/responder.rs
+++ b/network/src/streams/ce_streams/responder.rs
@@ -22,20 +22,20 @@ impl CeStreamResponder {
     ) {
         match stream_kind {
             CeStreamKind::BlockRequest => {
-                let mut init_args_bytes: &[u8] =
-                    match recv_stream.read_chunk(CHUNK_SIZE, true).await {
-                        Ok(Some(chunk)) => &chunk.bytes.clone(),
-                        Ok(None) => {
-                            tracing::warn!("[CE128] Stream closed");
-                            return;
-                        }
-                        Err(e) => {
-                            tracing::error!("[CE128] Failed to read block request: {e}");
-                            return;
-                        }
-                    };
+                let init_args_bytes = match recv_stream.read_to_end(CHUNK_SIZE).await {
+                    Ok(bytes) if bytes.is_empty() => {
+                        tracing::warn!("[CE128] Stream closed");
+                        return;
+                    }
+                    Ok(bytes) => bytes,
+                    Err(e) => {
+                        tracing::error!("[CE128] Failed to read block request: {e}");
+                        return;
+                    }
+                };
 
-                let Ok(init_args) = BlockRequestInitArgs::decode(&mut init_args_bytes) else {
+                let Ok(init_args) = BlockRequestInitArgs::decode(&mut init_args_bytes.as_slice())
+                else {
                     tracing::error!("[CE128] Failed to decode BlockRequestInitArgs");
                     return;
                 };
diff --git a/network/src/types.rs b/network/src/types.rs
index 93b10d7..6d4d81b 100644
--- a/network/src/types.rs
+++ b/network/src/types.rs
@@ -5,6 +5,9 @@ use std::fmt::{Display, Formatter};
 
 pub const CHUNK_SIZE: usize = 1024;
 
+/// Size limit of a CE stream message, in octets.
+pub const MAX_CE_MESSAGE_SIZE: usize = 64 * 1024 * 1024;
+
 #[derive(Clone, Debug, JamDecode)]
 pub struct BlockAnnouncement {
     pub header: BlockHeader,
-- 
2.43.0


From c7e138b9be114a7864a3bde9bb995d3a5f69383f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:46 +0000
Subject: [PATCH 45/53] fix: block announcements are read from the stream
 whatever chunks they arrive in

---
 network/src/streams/up_streams.rs | 21 ++++++++++-------
 network/src/types.rs              | 39 +++++++++++++++++++++++++++++++
 2 files changed, 52 insertions(+), 8 deletions(-)

diff --git a/network/src/streams/up_streams.rs b/network/src/streams/up_streams.rs
index f613dc6..6012da2 100644
--- a/network/src/streams/up_streams.rs
+++ b/network/src/streams/up_streams.rs
@@ -10,7 +10,6 @@ use crate::{
     types::{BlockAnnouncement, CHUNK_SIZE},
 };
 use fr_block::types::block::Block;
-use fr_codec::prelude::*;
 use quinn::{RecvStream, SendStream};
 use tokio::sync::mpsc;
 
@@ -63,14 +62,11 @@ impl UpStreamHandler {
         mut recv_stream: RecvStream,
         block_import_mpsc_sender: mpsc::Sender<Block>,
     ) {
+        // A chunk can hold a part of an announcement or more than one of them.
+        let mut received = Vec::new();
         loop {
-            match recv_stream.read_chunk(CHUNK_SIZE, true).await {
-                Ok(Some(chunk)) => {
-                    let mut bytes: &[u8] = &chunk.bytes;
-                    let Ok(block_announcement) = BlockAnnouncement::decode(&mut bytes) else {
-                        tracing::error!("[UP0] Failed to decode BlockAnnouncement");
-                        continue;
-                    };
+            match BlockAnnouncement::take_from(&mut received) {
+                Ok(Some(block_announcement)) => {
                     tracing::debug!(
                         "[UP0] Received Block Announcement ({})",
                         block_announcement.header_hash
@@ -106,7 +102,16 @@ impl UpStreamHandler {
                             }
                         }
                     });
+                    continue;
+                }
+                Ok(None) => (),
+                Err(e) => {
+                    tracing::error!("[UP0] Failed to decode BlockAnnouncement: {e}");
+                    received.clear();
                 }
+            }
+            match recv_stream.read_chunk(CHUNK_SIZE, true).await {
+                Ok(Some(chunk)) => received.extend_from_slice(&chunk.bytes),
                 Ok(None) => {
                     tracing::warn!("[UP0] Stream closed");
                     break;
diff --git a/network/src/types.rs b/network/src/types.rs
index 6d4d81b..cf78926 100644
--- a/network/src/types.rs
+++ b/network/src/types.rs
@@ -5,6 +5,9 @@ use std::fmt::{Display, Formatter};
 
 pub const CHUNK_SIZE: usize = 1024;
 
+/// Size limit of a block announcement, in octets.
+pub const MAX_ANNOUNCEMENT_SIZE: usize = 256 * 1024;
+
 /// Size limit of a CE stream message, in octets.
 pub const MAX_CE_MESSAGE_SIZE: usize = 64 * 1024 * 1024;
 
@@ -15,6 +18,42 @@ pub struct BlockAnnouncement {
     pub timeslot: u32,
 }
 
+/// A prefix of the octets of a stream, which records reads beyond what has been received.
+struct ReceivedBytes<'a> {
+    bytes: &'a [u8],
+    exhausted: bool,
+}
+
+impl JamInput for ReceivedBytes<'_> {
+    fn read(&mut self, into: &mut [u8]) -> Result<(), JamCodecError> {
+        self.exhausted |= into.len() > self.bytes.len();
+        self.bytes.read(into)
+    }
+
+    fn remaining_len(&self) -> usize {
+        self.bytes.len()
+    }
+}
+
+impl BlockAnnouncement {
+    /// Takes the first announcement off the received octets; `None` if its end is not received yet.
+    pub fn take_from(received: &mut Vec<u8>) -> Result<Option<Self>, JamCodecError> {
+        let mut input = ReceivedBytes {
+            bytes: received,
+            exhausted: false,
+        };
+        match Self::decode(&mut input) {
+            Ok(announcement) => {
+                let taken = received.len() - input.bytes.len();
+                received.drain(..taken);
+                Ok(Some(announcement))
+            }
+            Err(_) if input.exhausted && received.len() < MAX_ANNOUNCEMENT_SIZE => Ok(None),
+            Err(e) => Err(e),
+        }
+    }
+}
+
 impl Display for BlockAnnouncement {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         writeln!(f, "Header: {}", self.header)?;
-- 
2.43.0


From c33de336bdc4e62a337a4481c75fd790b7670c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:47 +0000
Subject: [PATCH 46/53] fix: requests not supported yet and responses without a
 block do not panic

---
 network/src/streams/ce_streams/responder.rs | 2 +-
 network/src/streams/up_streams.rs           | 9 +++++----
 storage/src/node_storage.rs                 | 4 +++-
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/network/src/streams/ce_streams/responder.rs b/network/src/streams/ce_streams/responder.rs
index bc63625..85db880 100644
--- a/network/src/streams/ce_streams/responder.rs
+++ b/network/src/streams/ce_streams/responder.rs
@@ -48,7 +48,7 @@ impl CeStreamResponder {
                 }
             }
             _ => {
-                unimplemented!()
+                tracing::warn!("[{stream_kind}] Not supported yet");
             }
         }
     }
diff --git a/network/src/streams/up_streams.rs b/network/src/streams/up_streams.rs
index 6012da2..680c396 100644
--- a/network/src/streams/up_streams.rs
+++ b/network/src/streams/up_streams.rs
@@ -87,11 +87,12 @@ impl UpStreamHandler {
                         .await
                         {
                             Ok(blocks) => {
+                                let Some(block) = blocks.into_iter().next() else {
+                                    tracing::error!("[UP0 | CE128] Response without a block");
+                                    return;
+                                };
                                 // Block Importer: validate the received block
-                                if let Err(e) = block_import_mpsc_sender_cloned
-                                    .send(blocks[0].clone())
-                                    .await
-                                {
+                                if let Err(e) = block_import_mpsc_sender_cloned.send(block).await {
                                     tracing::error!(
                                         "Block Importer mpsc channel receiver closed: {e}"
                                     )
diff --git a/storage/src/node_storage.rs b/storage/src/node_storage.rs
index e8aa49a..13af9b3 100644
--- a/storage/src/node_storage.rs
+++ b/storage/src/node_storage.rs
@@ -25,6 +25,8 @@ pub enum NodeStorageError {
     XtDBError(#[from] XtDBError),
     #[error("Header with hash {0} not found from the HeaderDB")]
     HeaderNotFoundFromDB(String),
+    #[error("Requests for block ranges are not supported yet")]
+    UnsupportedBlockRange,
     #[error("Xts with hash {0} not found from the XtDB")]
     XtsNotFoundFromDB(String),
 }
@@ -49,7 +51,7 @@ impl NodeServerTrait for NodeStorage {
             let block = self.get_block(&header_hash).await?;
             Ok(vec![block])
         } else {
-            unimplemented!()
+            Err(NodeStorageError::UnsupportedBlockRange)
         }
     }
 }
-- 
2.43.0


From f54ad7a7b0791052c12441db4bcd14507ab47fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:48 +0000
Subject: [PATCH 47/53] fix: a peer's slow stream does not block its other
 streams on connections opened here

---
 network/src/manager.rs | 46 +++++++++++++-----------------------------
 1 file changed, 14 insertions(+), 32 deletions(-)

diff --git a/network/src/manager.rs b/network/src/manager.rs
index 0597032..5ece39f 100644
--- a/network/src/manager.rs
+++ b/network/src/manager.rs
@@ -306,41 +306,23 @@ impl NetworkManager {
         );
 
         tokio::spawn(async move {
-            while let Ok((send_stream, mut recv_stream)) = conn.accept_bi().await {
-                let stream_kind = match Self::read_stream_kind(&mut recv_stream).await {
-                    Ok(stream_kind) => stream_kind,
-                    Err(e) => {
-                        tracing::error!("Failed to read a single-byte stream-kind identifier: {e}");
-                        continue;
-                    }
-                };
-
+            while let Ok((send_stream, recv_stream)) = conn.accept_bi().await {
+                let conn_cloned = conn.clone();
                 let block_import_mpsc_sender_cloned = block_import_mpsc_sender.clone();
                 let all_peers_cloned = all_peers.clone();
                 let node_storage_cloned = storage.clone();
-
-                match stream_kind {
-                    StreamKind::UP(stream_kind) => {
-                        Self::run_up_stream_handler(
-                            conn.clone(),
-                            stream_kind,
-                            send_stream,
-                            recv_stream,
-                            block_import_mpsc_sender_cloned,
-                            all_peers_cloned,
-                            &socket_addr,
-                        );
-                    }
-                    StreamKind::CE(stream_kind) => {
-                        Self::run_ce_stream_responder(
-                            stream_kind,
-                            send_stream,
-                            recv_stream,
-                            node_storage_cloned,
-                        )
-                        .await;
-                    }
-                }
+                tokio::spawn(async move {
+                    Self::handle_all_streams(
+                        conn_cloned,
+                        send_stream,
+                        recv_stream,
+                        block_import_mpsc_sender_cloned,
+                        node_storage_cloned,
+                        all_peers_cloned,
+                        &socket_addr,
+                    )
+                    .await;
+                });
             }
         });
         Ok(())
-- 
2.43.0


From f4d20c0d36d2286d02f776bf22b9f5c17faa1f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:48 +0000
Subject: [PATCH 48/53] fix: a peer that closed its stream does not keep a
 block from being announced to the others

---
 network/src/manager.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/network/src/manager.rs b/network/src/manager.rs
index 5ece39f..9063239 100644
--- a/network/src/manager.rs
+++ b/network/src/manager.rs
@@ -378,9 +378,12 @@ impl NetworkManager {
                     conn.up_stream_handles.get(&UpStreamKind::BlockAnnouncement)
                 {
                     let handle = handle_ref.value();
-                    handle
+                    if let Err(e) = handle
                         .send_block_announcement(block_header.block_announcement_blob()?)
-                        .await?
+                        .await
+                    {
+                        tracing::error!("Failed to announce a block to a peer: {e}");
+                    }
                 }
             }
         }
-- 
2.43.0


From d53952ae21b297e71a3341de5b7f88f152222301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:20 +0000
Subject: [PATCH 49/53] fix: a block being authored and one being imported do
 not mix their state changes

---
 node/src/roles/importer.rs            |  2 ++
 node/src/scheduler/chain_extension.rs |  2 ++
 state/src/manager.rs                  | 10 +++++++++-
 3 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/node/src/roles/importer.rs b/node/src/roles/importer.rs
index e41a0d4..f3da129 100644
--- a/node/src/roles/importer.rs
+++ b/node/src/roles/importer.rs
@@ -126,6 +126,8 @@ impl BlockImporter {
                 }
             };
             let timeslot_index = block.header.timeslot_index();
+            let state_manager = storage.state_manager();
+            let _block_guard = state_manager.lock_for_block().await;
             match Self::import_block(storage.clone(), block, false, BlockCommitMode::Immediate)
                 .await
             {
diff --git a/node/src/scheduler/chain_extension.rs b/node/src/scheduler/chain_extension.rs
index 101db09..eb32ca5 100644
--- a/node/src/scheduler/chain_extension.rs
+++ b/node/src/scheduler/chain_extension.rs
@@ -37,6 +37,8 @@ pub async fn extend_chain(
     jam_node: Arc<JamNode>,
     new_timeslot: &Timeslot,
 ) -> Result<(), ChainExtensionError> {
+    let state_manager = jam_node.storage().state_manager();
+    let _block_guard = state_manager.lock_for_block().await;
     if RoleManager::is_author_of_slot(
         jam_node.storage().state_manager(),
         jam_node.local_node_info().clone(),
diff --git a/state/src/manager.rs b/state/src/manager.rs
index 1f09a99..cfa6ba8 100644
--- a/state/src/manager.rs
+++ b/state/src/manager.rs
@@ -42,7 +42,7 @@ use fr_db::{
 };
 use fr_state_merkle_v2::{merkle_db::MerkleDB, types::LeafNodeData};
 use std::sync::{Arc, RwLock, RwLockReadGuard, RwLockWriteGuard};
-use tokio::sync::mpsc;
+use tokio::sync::{mpsc, Mutex, MutexGuard};
 use tracing::{debug_span, instrument};
 
 #[derive(Clone)]
@@ -131,6 +131,7 @@ pub struct StateManager {
     merkle_manager: MerkleManagerHandle,
     ring_cache: RwLock<RingCache>,
     last_staging_set_transition_context: RwLock<LastStagingSetTransitionContext>,
+    block_lock: Mutex<()>,
 }
 
 macro_rules! impl_simple_state_accessors {
@@ -259,6 +260,7 @@ impl StateManager {
             last_staging_set_transition_context: RwLock::new(
                 LastStagingSetTransitionContext::default(),
             ),
+            block_lock: Mutex::new(()),
         }
     }
 
@@ -855,6 +857,12 @@ impl StateManager {
         Ok(())
     }
 
+    /// Waits until no other block is being authored or imported. Uncommitted state changes belong
+    /// to the one block processed while the returned guard is held.
+    pub async fn lock_for_block(&self) -> MutexGuard<'_, ()> {
+        self.block_lock.lock().await
+    }
+
     /// Rolls back all uncommitted state changes.
     ///
     /// This method is called to drop dirty cache entries after staging prepared DB write set.
-- 
2.43.0


From 036ac9ee3ff88c86a40b120db9b5145d44e4edfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:10 +0000
Subject: [PATCH 50/53] hook: expose the in-core pipeline's private parts to
 verification builds (--cfg fr_verif)

---
 pvm/pvm-invocation/src/refine/mod.rs         |  4 ++++
 pvm/pvm-invocation/src/refine/pipeline.rs    | 17 +++++++++++++++++
 pvm/pvm-invocation/src/refine/verif_hooks.rs | 13 +++++++++++++
 3 files changed, 34 insertions(+)
 create mode 100644 pvm/pvm-invocation/src/refine/verif_hooks.rs

diff --git a/pvm/pvm-invocation/src/refine/mod.rs b/pvm/pvm-invocation/src/refine/mod.rs
index 328aa58..0411f10 100644
--- a/pvm/pvm-invocation/src/refine/mod.rs
+++ b/pvm/pvm-invocation/src/refine/mod.rs
@@ -1,6 +1,10 @@
+#![allow(unexpected_cfgs)] // `fr_verif` exposes private entry points to external verification
+
 pub(crate) mod auditable_bundle;
 pub(crate) mod avail_spec;
 pub mod pipeline;
+#[cfg(fr_verif)]
+pub mod verif_hooks;
 
 use crate::error::PVMInvokeError;
 use fr_codec::prelude::*;
diff --git a/pvm/pvm-invocation/src/refine/pipeline.rs b/pvm/pvm-invocation/src/refine/pipeline.rs
index 48feef8..f3033d4 100644
--- a/pvm/pvm-invocation/src/refine/pipeline.rs
+++ b/pvm/pvm-invocation/src/refine/pipeline.rs
@@ -189,3 +189,20 @@ pub async fn compute_work_report(
         digests,
     })
 }
+
+#[cfg(fr_verif)]
+pub mod verif_hooks {
+    use super::*;
+
+    pub fn work_item_to_digest(
+        item: &WorkItem,
+        result: WorkExecutionResult,
+        refine_gas_used: UnsignedGas,
+    ) -> Result<WorkDigest, PVMInvokeError> {
+        super::work_item_to_digest(item, result, refine_gas_used)
+    }
+
+    pub fn work_package_authorizer(package: &WorkPackage) -> Result<AuthHash, PVMInvokeError> {
+        super::work_package_authorizer(package)
+    }
+}
diff --git a/pvm/pvm-invocation/src/refine/verif_hooks.rs b/pvm/pvm-invocation/src/refine/verif_hooks.rs
new file mode 100644
index 0000000..d6bcece
--- /dev/null
+++ b/pvm/pvm-invocation/src/refine/verif_hooks.rs
@@ -0,0 +1,13 @@
+//! Private parts of the in-core pipeline, exposed to external verification only (`--cfg fr_verif`).
+pub use super::{auditable_bundle::AuditableBundle, pipeline::verif_hooks::*};
+use crate::error::PVMInvokeError;
+use fr_common::workloads::{AvailSpecs, WorkPackage};
+use fr_pvm_types::common::ExportDataSegment;
+
+pub fn build_avail_specs(
+    package: &WorkPackage,
+    auditable_bundle: AuditableBundle,
+    export_segments: Vec<ExportDataSegment>,
+) -> Result<AvailSpecs, PVMInvokeError> {
+    super::avail_spec::build_avail_specs(package, auditable_bundle, export_segments)
+}
-- 
2.43.0


From e2facc620c936cae6585baad31e08cfcc855e8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:42 +0000
Subject: [PATCH 51/53] fix: encode the import segments of an audit bundle as
 plain octets, not as compact naturals

---
 pvm/pvm-invocation/src/refine/auditable_bundle.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pvm/pvm-invocation/src/refine/auditable_bundle.rs b/pvm/pvm-invocation/src/refine/auditable_bundle.rs
index fc73161..b25133a 100644
--- a/pvm/pvm-invocation/src/refine/auditable_bundle.rs
+++ b/pvm/pvm-invocation/src/refine/auditable_bundle.rs
@@ -58,7 +58,7 @@ impl JamEncode for AuditableBundle {
         // Iterate on import segments field of all work-items in a work-package.
         for work_item_segments in &self.imports {
             for segment in work_item_segments {
-                segment.encode_to(dest)?;
+                dest.write(segment.as_slice()); // fixed-size octets
             }
         }
         // Iterate on import justifications field of all work-items in a work-package.
@@ -97,7 +97,11 @@ impl JamDecode for AuditableBundle {
         for work_item in &package.work_items {
             let mut work_item_segments = Vec::with_capacity(work_item.import_segment_ids.len());
             for _ in &work_item.import_segment_ids {
-                let segment = ExportDataSegment::decode(input)?;
+                let mut octets = vec![0u8; SEGMENT_SIZE];
+                input.read(&mut octets)?;
+                let segment = ExportDataSegment::try_from(octets).map_err(|_| {
+                    JamCodecError::InvalidSize("Invalid size for ExportDataSegment".to_string())
+                })?;
                 work_item_segments.push(segment);
             }
             imports.push(work_item_segments);
-- 
2.43.0


From 678adc2e16b5d94b5ea825a7fd2d7c877b1ff87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:03 +0000
Subject: [PATCH 52/53] fix: report the state keys of preimages integrated from
 the extrinsic among a block's account state changes

---
 node/src/roles/executor.rs       | 10 +++++-----
 transition/src/state/services.rs | 21 ++++++++++++++++++++-
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/node/src/roles/executor.rs b/node/src/roles/executor.rs
index 4beb37b..8d5d690 100644
--- a/node/src/roles/executor.rs
+++ b/node/src/roles/executor.rs
@@ -28,8 +28,8 @@ use fr_transition::{
         },
         safrole::{mark_safrole_header_markers, transition_safrole},
         services::{
-            transition_on_accumulate, transition_services_integrate_preimages,
-            transition_services_last_accumulate_at, AccountStateChanges,
+            integrate_preimages, transition_on_accumulate, transition_services_last_accumulate_at,
+            AccountStateChanges,
         },
         statistics::transition_onchain_statistics,
         timeslot::transition_timeslot,
@@ -255,7 +255,7 @@ impl BlockExecutor {
                 acc_summary.account_state_changes,
             ))
         });
-        let (acc_stats, acc_output_pairs, account_state_changes) = acc_jh.await??;
+        let (acc_stats, acc_output_pairs, mut account_state_changes) = acc_jh.await??;
 
         // LastAccumulateOutputs STF
         let manager = storage.state_manager();
@@ -295,7 +295,7 @@ impl BlockExecutor {
         // Preimage integration STF
         let manager = storage.state_manager();
         let preimage_jh = spawn_timed("preimage_stf", async move {
-            transition_services_integrate_preimages(manager, &preimages_xt).await
+            integrate_preimages(manager, &preimages_xt).await
         });
 
         // --- Join: AuthPool, Services(last_accumulate_at), OnChainStatistics, Preimage integration STFs
@@ -304,7 +304,7 @@ impl BlockExecutor {
         auth_pool_res?;
         last_acc_at_res?;
         stats_res?;
-        preimage_res?;
+        account_state_changes.extend(preimage_res?);
 
         Ok(BlockExecutionOutput {
             accumulate_root,
diff --git a/transition/src/state/services.rs b/transition/src/state/services.rs
index 1933b41..9dfaa8f 100644
--- a/transition/src/state/services.rs
+++ b/transition/src/state/services.rs
@@ -434,12 +434,22 @@ pub async fn transition_services_integrate_preimages(
     state_manager: Arc<StateManager>,
     preimages_xt: &PreimagesXt,
 ) -> Result<(), TransitionError> {
+    integrate_preimages(state_manager, preimages_xt).await?;
+    Ok(())
+}
+
+/// Runs the transition above, collecting the state keys of the integrated preimages.
+pub async fn integrate_preimages(
+    state_manager: Arc<StateManager>,
+    preimages_xt: &PreimagesXt,
+) -> Result<AccountStateChanges, TransitionError> {
     tracing::info!("Reports: {} preimages xts", preimages_xt.len());
     // Validate preimages extrinsic data.
     let preimages_validator = PreimagesXtValidator::new(state_manager.clone());
     preimages_validator.validate(preimages_xt).await?;
 
     let curr_timeslot = state_manager.get_timeslot().await?;
+    let mut account_state_changes = AccountStateChanges::default();
 
     for xt in preimages_xt.iter() {
         let preimage_data_hash = hash::<Blake2b256>(&xt.preimage_data)?;
@@ -496,8 +506,17 @@ pub async fn transition_services_integrate_preimages(
                     AccountPreimagesEntry::new(xt.preimage_data.clone()),
                 )
                 .await?;
+            account_state_changes
+                .inner
+                .entry(xt.service_id)
+                .or_default()
+                .added_state_keys
+                .insert(get_account_preimage_state_key(
+                    xt.service_id,
+                    &preimage_data_hash,
+                )?);
         }
     }
 
-    Ok(())
+    Ok(account_state_changes)
 }
-- 
2.43.0


From 61d134ea553a89834dcbcaa0409c42ea95e9cc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:40 +0000
Subject: [PATCH 53/53] fix: one unreachable peer kept a node from connecting
 to the others

Connecting ended at the first peer that could not be reached, so the second
round, which connects to the peers that are not connected yet, never ran.
---
 network/src/manager.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/network/src/manager.rs b/network/src/manager.rs
index 9063239..42f92ea 100644
--- a/network/src/manager.rs
+++ b/network/src/manager.rs
@@ -266,8 +266,11 @@ impl NetworkManager {
                 handles.push(jh);
             }
         }
+        // A peer that cannot be reached must not affect connections to the others.
         for handle in handles {
-            handle.await??;
+            if let Err(e) = handle.await? {
+                tracing::warn!("Failed to connect to a peer: {e}");
+            }
         }
         Ok(())
     }
-- 
2.43.0

