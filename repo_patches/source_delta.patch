From 6615cf7b01144ab8dcb64d6d94ed2bcd0428e2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:44 +0000
Subject: [PATCH 01/43] fix: report the stored value of a duplicate key in
 ElusivMap

---
 elusiv/src/map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elusiv/src/map.rs b/elusiv/src/map.rs
index 6faaa11..5d5c4d3 100644
--- a/elusiv/src/map.rs
+++ b/elusiv/src/map.rs
@@ -179,7 +179,7 @@ impl<'a, K: ElusivMapKey, V: ElusivMapValue, const CAPACITY: usize> ElusivMap<'a
                     low_ptr = self.get_next(&mid_ptr);
                 }
                 Ordering::Equal => {
-                    return Err(ElusivMapError::Duplicate(self.values.get(mid as usize)))
+                    return Err(ElusivMapError::Duplicate(self.value(&mid_ptr)))
                 }
             }
         }
-- 
2.43.0


From a564b033a07a5b9c3410ed0e0d89a6c9ce6bf6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:44 +0000
Subject: [PATCH 02/43] fix: keep the new maximum when it replaces the old one
 in a full ElusivMap

---
 elusiv/src/map.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/elusiv/src/map.rs b/elusiv/src/map.rs
index 5d5c4d3..90499f0 100644
--- a/elusiv/src/map.rs
+++ b/elusiv/src/map.rs
@@ -221,6 +221,11 @@ impl<'a, K: ElusivMapKey, V: ElusivMapValue, const CAPACITY: usize> ElusivMap<'a
 
         self.set(&new_ptr, key, value);
 
+        if is_full && index + 1 == self.len.get() {
+            // The new entry is the new maximum and replaces the previous one in-place (so no pointer changes)
+            return Ok(Some((max_key.unwrap(), max_value.unwrap())));
+        }
+
         if index == 0 {
             // Prepend
             let ptr = self.min_ptr.get();
-- 
2.43.0


From b4295805537f06ce80fcff070ce0824fe35b9b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:44 +0000
Subject: [PATCH 03/43] fix: clear all entry pointers when resetting an
 ElusivMap

---
 elusiv/src/map.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/elusiv/src/map.rs b/elusiv/src/map.rs
index 90499f0..add3d76 100644
--- a/elusiv/src/map.rs
+++ b/elusiv/src/map.rs
@@ -429,8 +429,13 @@ impl<'a, K: ElusivMapKey, V: ElusivMapValue, const CAPACITY: usize> ElusivMap<'a
 
     pub fn reset(&mut self) {
         self.len.set(0);
+        self.min_ptr.set(ElusivMapPtr(0));
         self.max_ptr.set(ElusivMapPtr(0));
 
+        for i in 0..MID_PTR_COUNT {
+            self.mid_ptr.set(i, ElusivMapPtr(0));
+        }
+
         // The first ptr points to itself
         self.next.set(0, &ElusivMapPtr(0));
         self.prev.set(0, &ElusivMapPtr(0));
-- 
2.43.0


From 6d97e5d2b69e1d19bb9b33470961a2e4a18e89d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:43 +0000
Subject: [PATCH 04/43] fix: store Merkle roots at consecutive history slots
 when inserting batches

---
 elusiv/src/state/commitment.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/elusiv/src/state/commitment.rs b/elusiv/src/state/commitment.rs
index dac3b7c..d8b0115 100644
--- a/elusiv/src/state/commitment.rs
+++ b/elusiv/src/state/commitment.rs
@@ -259,11 +259,12 @@ impl<'a> CommitmentHashingAccount<'a> {
             );
 
             // This inserts the new root into the `active_mt_root_history`
+            let mt_roots_count = storage_account.get_mt_roots_count();
             storage_account.set_active_mt_root_history(
-                ordering as usize % HISTORY_ARRAY_SIZE,
+                mt_roots_count as usize % HISTORY_ARRAY_SIZE,
                 &storage_account.get_root().unwrap(),
             );
-            storage_account.set_mt_roots_count(&(storage_account.get_mt_roots_count() + 1));
+            storage_account.set_mt_roots_count(&(mt_roots_count + 1));
         }
     }
 }
-- 
2.43.0


From 8b95bf60ef0ccba1e0dc3acefdd79adea3ddf4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:52 +0000
Subject: [PATCH 05/43] fix: accept recent Merkle roots when the storage child
 accounts are available

---
 elusiv/src/state/storage.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/elusiv/src/state/storage.rs b/elusiv/src/state/storage.rs
index d9161e0..8e8d236 100644
--- a/elusiv/src/state/storage.rs
+++ b/elusiv/src/state/storage.rs
@@ -131,7 +131,9 @@ impl<'a, 'b, 't> StorageAccount<'a, 'b, 't> {
 
         // TODO: remove this, has become redundant
         if let Ok(current_root) = self.get_root() {
-            return *root == current_root;
+            if *root == current_root {
+                return true;
+            }
         }
 
         max_history_roots > 0
-- 
2.43.0


From fbf3f1e77f7b21ae5d40ca200cec355aa32a2f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:02 +0000
Subject: [PATCH 06/43] fix: keep a commitment batch queued when starting its
 hash computation fails

---
 elusiv/src/processor/commitment.rs | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/elusiv/src/processor/commitment.rs b/elusiv/src/processor/commitment.rs
index c1ab6c5..4094f07 100644
--- a/elusiv/src/processor/commitment.rs
+++ b/elusiv/src/processor/commitment.rs
@@ -410,16 +410,6 @@ fn init_commitment_hash_inner(
 
     let mut commitment_queue = CommitmentQueue::new(commitment_queue);
     let (batch, batching_rate) = commitment_queue.next_batch()?;
-    commitment_queue.remove(usize_as_u32_safe(batch.len()))?;
-
-    let mut metadata_queue = MetadataQueue::new(metadata_queue);
-    for _ in 0..batch.len() {
-        let metadata = metadata_queue.dequeue_first()?;
-        metadata_account.add_commitment_metadata(&metadata)?;
-    }
-
-    // The fee/batch-upgrader logic has to guarantee that there are no lower fees in a batch
-    let fee_version = batch.first().unwrap().fee_version;
 
     // Check for room for the commitment batch
     guard!(
@@ -427,6 +417,25 @@ fn init_commitment_hash_inner(
         ElusivError::NoRoomForCommitment
     );
 
+    // The batch is removed from the queues only after every fallible step succeeded,
+    // since errors can be ignored (`insertion_can_fail`)
+    let mut metadata_queue = MetadataQueue::new(metadata_queue);
+    let metadata_ptr = metadata_account.get_next_metadata_ptr();
+    for i in 0..batch.len() {
+        let added = metadata_queue
+            .view(i)
+            .and_then(|metadata| metadata_account.add_commitment_metadata(&metadata));
+        if let Err(e) = added {
+            metadata_account.set_next_metadata_ptr(&metadata_ptr);
+            return Err(e);
+        }
+    }
+    commitment_queue.remove(usize_as_u32_safe(batch.len()))?;
+    metadata_queue.remove(usize_as_u32_safe(batch.len()))?;
+
+    // The fee/batch-upgrader logic has to guarantee that there are no lower fees in a batch
+    let fee_version = batch.first().unwrap().fee_version;
+
     let mut commitments = [[0; 32]; MAX_HT_COMMITMENTS];
     for i in 0..batch.len() {
         commitments[i] = batch[i].commitment;
-- 
2.43.0


From 4fb67df0ea1b79846c477bae50d29e06b0860671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:32 +0000
Subject: [PATCH 07/43] fix: pay out the amount without the optional fee for
 Solana Pay transfers in Lamports

---
 elusiv/src/processor/proof.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/elusiv/src/processor/proof.rs b/elusiv/src/processor/proof.rs
index 5cca361..999b225 100644
--- a/elusiv/src/processor/proof.rs
+++ b/elusiv/src/processor/proof.rs
@@ -736,11 +736,7 @@ pub fn finalize_verification_transfer_lamports<'a>(
 
             if public_inputs.solana_pay_transfer {
                 // `pool` transfers `amount` to `original_fee_payer` (lamports)
-                transfer_lamports_from_pda_checked(
-                    pool,
-                    original_fee_payer,
-                    public_inputs.join_split.amount,
-                )?;
+                transfer_lamports_from_pda_checked(pool, original_fee_payer, amount)?;
 
                 // Last instruction: `original_fee_payer` transfers `amount` to `recipient`
                 let instructions_sysvar = DefaultInstructionsSysvar(instructions_account);
-- 
2.43.0


From eae9c386ac68336dce2a6828b20794bfbda631a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:32 +0000
Subject: [PATCH 08/43] fix: forfeit the associated-token-account rent of an
 invalid proof only if it has been reserved

---
 elusiv/src/processor/proof.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/elusiv/src/processor/proof.rs b/elusiv/src/processor/proof.rs
index 999b225..ed459d1 100644
--- a/elusiv/src/processor/proof.rs
+++ b/elusiv/src/processor/proof.rs
@@ -880,11 +880,19 @@ pub fn finalize_verification_transfer_token<'a>(
             None,
         )?;
 
-        // `pool` transfers `commitment_hash_fee` and `associated_token_account_rent` to `fee_collector` (lamports)
+        // `pool` transfers `commitment_hash_fee` and `associated_token_account_rent` (if it has been reserved) to `fee_collector` (lamports)
+        let associated_token_account_rent = match &request {
+            ProofRequest::Send(public_inputs)
+                if public_inputs.recipient_is_associated_token_account =>
+            {
+                spl_token_account_rent()?
+            }
+            _ => Lamports(0),
+        };
         transfer_lamports_from_pda_checked(
             pool,
             fee_collector,
-            (data.commitment_hash_fee + spl_token_account_rent()?)?.0,
+            (data.commitment_hash_fee + associated_token_account_rent)?.0,
         )?;
 
         return Ok(());
-- 
2.43.0


From aaf344dde402bee18d60c3f1a5f5ea5ab53308ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:21 +0000
Subject: [PATCH 09/43] fix: enforce the minimum send amount for what the
 recipient receives

---
 elusiv/src/processor/proof.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/elusiv/src/processor/proof.rs b/elusiv/src/processor/proof.rs
index ed459d1..74bb8cc 100644
--- a/elusiv/src/processor/proof.rs
+++ b/elusiv/src/processor/proof.rs
@@ -280,10 +280,15 @@ pub fn init_verification_transfer_fee<'a>(
             return Err(ElusivError::InvalidRecipient.into());
         }
 
-        // Enforce minimum-send-amount for Lamports (zero-amount is always allowed for merges)
+        // Enforce minimum-send-amount (without the optional fee) for Lamports (zero-amount is always allowed for merges)
         if token_id == 0 && public_inputs.join_split.amount != 0 {
+            let amount = public_inputs
+                .join_split
+                .amount
+                .checked_sub(public_inputs.join_split.optional_fee.amount)
+                .ok_or(ElusivError::InvalidAmount)?;
             guard!(
-                public_inputs.join_split.amount >= system_program_account_rent()?.0,
+                amount >= system_program_account_rent()?.0,
                 ElusivError::InvalidAmount
             );
         }
-- 
2.43.0


From 0de165ae909383a5dfef5f8217b676e20da89880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:23 +0000
Subject: [PATCH 10/43] fix: do not let multiple Solana Pay transfers share a
 single transfer instruction

---
 elusiv/src/processor/proof.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/elusiv/src/processor/proof.rs b/elusiv/src/processor/proof.rs
index 74bb8cc..e4902f9 100644
--- a/elusiv/src/processor/proof.rs
+++ b/elusiv/src/processor/proof.rs
@@ -745,6 +745,7 @@ pub fn finalize_verification_transfer_lamports<'a>(
 
                 // Last instruction: `original_fee_payer` transfers `amount` to `recipient`
                 let instructions_sysvar = DefaultInstructionsSysvar(instructions_account);
+                enforce_no_subsequent_program_instruction(&instructions_sysvar)?;
                 enforce_instruction(
                     &instructions_sysvar,
                     instructions_sysvar.find_instruction_count()? - 1,
@@ -982,6 +983,7 @@ pub fn finalize_verification_transfer_token<'a>(
 
                 // Last instruction: `original_fee_payer_account` transfers `amount` to `recipient` (token)
                 let instructions_sysvar = DefaultInstructionsSysvar(instructions_account);
+                enforce_no_subsequent_program_instruction(&instructions_sysvar)?;
                 enforce_instruction(
                     &instructions_sysvar,
                     instructions_sysvar.find_instruction_count()? - 1,
@@ -1362,6 +1364,21 @@ fn enforce_instruction<I: InstructionsSysvar>(
     Ok(instruction)
 }
 
+/// Enforces that no other instruction of this program follows, so that the last instruction of a tx can only be used by a single Solana Pay transfer
+fn enforce_no_subsequent_program_instruction<I: InstructionsSysvar>(
+    instruction_sysvar: &I,
+) -> ProgramResult {
+    let current_ix_index = instruction_sysvar.current_index()? as usize;
+    for index in current_ix_index + 1..instruction_sysvar.find_instruction_count()? {
+        guard!(
+            instruction_sysvar.instruction_at_index(index)?.program_id != crate::id(),
+            ElusivError::InvalidOtherInstruction
+        );
+    }
+
+    Ok(())
+}
+
 fn memo_instruction(memo: &[u8]) -> Instruction {
     Instruction {
         program_id: SPL_MEMO_PROGRAM_ID,
-- 
2.43.0


From 877cac361116fc1f54f17b249718f59f51d9bb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:04 +0000
Subject: [PATCH 11/43] fix: reject sends whose total amount overflows

---
 elusiv/src/processor/proof.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/elusiv/src/processor/proof.rs b/elusiv/src/processor/proof.rs
index e4902f9..642c58d 100644
--- a/elusiv/src/processor/proof.rs
+++ b/elusiv/src/processor/proof.rs
@@ -1144,6 +1144,15 @@ fn check_join_split_public_inputs(
         ElusivError::InvalidRecentCommitmentIndex
     );
 
+    // The total amount (a public input of the proof) must not overflow
+    guard!(
+        public_inputs
+            .amount
+            .checked_add(public_inputs.fee)
+            .is_some(),
+        ElusivError::InvalidAmount
+    );
+
     // Verify the optional fee
     guard!(
         public_inputs.amount >= public_inputs.optional_fee.amount,
-- 
2.43.0


From 0a985f02b84b25bc39f6824bf0b0e9e78c8c459d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:04 +0000
Subject: [PATCH 12/43] fix: reject Merkle roots of trees that have not been
 closed

---
 elusiv/src/processor/proof.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/elusiv/src/processor/proof.rs b/elusiv/src/processor/proof.rs
index 642c58d..bae0688 100644
--- a/elusiv/src/processor/proof.rs
+++ b/elusiv/src/processor/proof.rs
@@ -1185,7 +1185,11 @@ fn check_join_split_public_inputs(
                         ElusivError::InvalidMerkleRoot
                     );
                 } else {
-                    // Closed tree
+                    // Closed tree (the root of a tree that has not been closed is not set)
+                    guard!(
+                        tree_indices[index] < active_tree_index,
+                        ElusivError::InvalidMerkleRoot
+                    );
                     guard!(
                         root.reduce() == nullifier_accounts[index].get_root(),
                         ElusivError::InvalidMerkleRoot
-- 
2.43.0


From 46d777f45954d42e53c8b608b83b1dc5e337a9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:18 +0000
Subject: [PATCH 13/43] fix: enforce that all finalization instructions of a
 send concern the same fee payer

---
 elusiv/src/processor/proof.rs | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/elusiv/src/processor/proof.rs b/elusiv/src/processor/proof.rs
index bae0688..e64e802 100644
--- a/elusiv/src/processor/proof.rs
+++ b/elusiv/src/processor/proof.rs
@@ -1256,11 +1256,37 @@ fn enforce_finalize_send_instructions(
         return Ok(());
     }
 
+    let instruction_sysvar = DefaultInstructionsSysvar(instructions_account);
     enforce_finalize_send_instructions_inner(
-        &DefaultInstructionsSysvar(instructions_account),
+        &instruction_sysvar,
         uses_lamports,
         verification_account_index,
-    )
+    )?;
+    enforce_finalize_send_fee_payer(&instruction_sysvar)
+}
+
+/// Enforces that all finalization instructions concern the same fee payer
+///
+/// # Note
+///
+/// The verification account is determined by the combination of the original fee payer and the verification account index.
+fn enforce_finalize_send_fee_payer<I: InstructionsSysvar>(instruction_sysvar: &I) -> ProgramResult {
+    let mut ix_index = instruction_sysvar.current_index()? as usize;
+    let send_ix = instruction_sysvar.instruction_at_index(ix_index)?;
+    let original_fee_payer = send_ix.accounts.get(3).map(|a| a.pubkey);
+
+    loop {
+        ix_index += 1;
+        let ix = instruction_sysvar.instruction_at_index(ix_index)?;
+        guard!(
+            ix.accounts.first().map(|a| a.pubkey) == original_fee_payer,
+            ElusivError::InvalidOtherInstruction
+        );
+
+        if ix.data[0] != ElusivInstruction::FINALIZE_VERIFICATION_INSERT_NULLIFIER_INDEX {
+            return Ok(());
+        }
+    }
 }
 
 fn verify_finalize_send_instruction<I: InstructionsSysvar>(
-- 
2.43.0


From e8c2f0465fcfaf57e8ac8f4a47145ff5af01089a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:33 +0000
Subject: [PATCH 14/43] fix: apply the last two line evaluations for zero
 prepared inputs

The final two combined evaluations of the miller loop were discarded when the
prepared inputs are the point at infinity, so that the result was wrong.
---
 elusiv/src/proof/verifier.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/elusiv/src/proof/verifier.rs b/elusiv/src/proof/verifier.rs
index 172ba97..5c29d35 100644
--- a/elusiv/src/proof/verifier.rs
+++ b/elusiv/src/proof/verifier.rs
@@ -600,10 +600,8 @@ elusiv_computations!(
             partial v = addition_step(storage, r, alt_b.get()) { c0=v.0; c1=v.1; c2=v.2; };
 
             partial v = combined_ell(storage, vkey, a, prepared_inputs, c, &c0, &c1, &c2, *j, f) {
-                if (!(prepared_inputs.is_zero())) {
-                    f = v;
-                    _ = j.add_assign(1);
-                }
+                f = v;
+                _ = j.add_assign(1);
             };
             partial v = mul_by_characteristics(storage, alt_b.get()) {
                 _ = alt_b.set(G2Affine::new(v.x, v.y.neg(), v.infinity));
@@ -613,10 +611,8 @@ elusiv_computations!(
             partial v = addition_step(storage, r, alt_b.get()) { c0=v.0; c1=v.1; c2=v.2; };
 
             partial v = combined_ell(storage, vkey, a, prepared_inputs, c, &c0, &c1, &c2, *j, f) {
-                if (!(prepared_inputs.is_zero())) {
-                    f = v;
-                    _ = j.add_assign(1);
-                }
+                f = v;
+                _ = j.add_assign(1);
             };
         }
         {   /// 500
-- 
2.43.0


From 16d54c17f73255b5ce8431e2b5fb4a341586ac54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:22 +0000
Subject: [PATCH 15/43] fix: skip the evaluations of A if the proof's B is the
 point at infinity

The line coefficients for B were computed from the coordinates (0, 1), which are
no curve point, although e(A, B) is one.
---
 elusiv/src/proof/verifier.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/elusiv/src/proof/verifier.rs b/elusiv/src/proof/verifier.rs
index 5c29d35..695c1aa 100644
--- a/elusiv/src/proof/verifier.rs
+++ b/elusiv/src/proof/verifier.rs
@@ -127,8 +127,14 @@ pub fn combined_miller_loop(
     let mut alt_b = verification_account.alt_b.get();
     let mut coeff_index = verification_account.get_coeff_index() as usize;
 
-    let a = verification_account.a.get().0;
+    let mut a = verification_account.a.get().0;
     let b = verification_account.b.get().0;
+
+    // e(A, B) is one for B at infinity (the evaluations of A are skipped, as for A at infinity)
+    if b.is_zero() {
+        a = G1Affine::zero();
+    }
+
     let c = verification_account.c.get().0;
     let prepared_inputs = verification_account.prepared_inputs.get().0;
 
-- 
2.43.0


From 35c3d5c86963e4ad9377b305e3fc620e64164f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:36 +0000
Subject: [PATCH 16/43] fix: check the subventions of a fee for the highest
 batching rate too

---
 elusiv/src/state/fee.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elusiv/src/state/fee.rs b/elusiv/src/state/fee.rs
index 7695ae0..bcd1241 100644
--- a/elusiv/src/state/fee.rs
+++ b/elusiv/src/state/fee.rs
@@ -76,7 +76,7 @@ impl ProgramFee {
 
     /// Verifies that possible subventions are not too high
     pub fn is_valid(&self) -> bool {
-        for min_batching_rate in 0..MAX_COMMITMENT_BATCHING_RATE as u32 {
+        for min_batching_rate in 0..=MAX_COMMITMENT_BATCHING_RATE as u32 {
             let commitment_fee = self.commitment_hash_computation_fee(min_batching_rate).0;
             if self.base_commitment_subvention.0 > commitment_fee {
                 return false;
-- 
2.43.0


From 0e77113fcd3d5f2c1360c12d79f939e4b3beaeed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:32 +0000
Subject: [PATCH 17/43] fix: compute basis point fees without overflow

---
 elusiv/src/state/fee.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/elusiv/src/state/fee.rs b/elusiv/src/state/fee.rs
index bcd1241..158bded 100644
--- a/elusiv/src/state/fee.rs
+++ b/elusiv/src/state/fee.rs
@@ -17,7 +17,9 @@ pub struct BasisPointFee(pub u64);
 
 impl BasisPointFee {
     pub fn calc(&self, amount: u64) -> u64 {
-        self.0 * amount / 10_000
+        (self.0 as u128 * amount as u128 / 10_000)
+            .try_into()
+            .unwrap_or(u64::MAX)
     }
 }
 
-- 
2.43.0


From b0bc588f45f10df707a41fbc0ab1be51addd1408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:32 +0000
Subject: [PATCH 18/43] fix: reject fees whose computation overflows

---
 elusiv/src/state/fee.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/elusiv/src/state/fee.rs b/elusiv/src/state/fee.rs
index 158bded..169f9e1 100644
--- a/elusiv/src/state/fee.rs
+++ b/elusiv/src/state/fee.rs
@@ -76,8 +76,19 @@ impl ProgramFee {
         }
     }
 
+    /// Upper bound for the individual fee components, with which no computed fee is able to overflow
+    const MAX_COMPONENT: u64 = 1 << 48;
+
     /// Verifies that possible subventions are not too high
     pub fn is_valid(&self) -> bool {
+        if self.lamports_per_tx.0 > Self::MAX_COMPONENT
+            || self.warden_hash_tx_reward.0 > Self::MAX_COMPONENT
+            || self.warden_proof_reward.0 > Self::MAX_COMPONENT
+            || self.proof_base_tx_count != Self::proof_base_tx_count()
+        {
+            return false;
+        }
+
         for min_batching_rate in 0..=MAX_COMMITMENT_BATCHING_RATE as u32 {
             let commitment_fee = self.commitment_hash_computation_fee(min_batching_rate).0;
             if self.base_commitment_subvention.0 > commitment_fee {
@@ -90,10 +101,6 @@ impl ProgramFee {
             if self.proof_subvention.0 > proof_fee {
                 return false;
             }
-
-            if self.proof_base_tx_count != Self::proof_base_tx_count() {
-                return false;
-            }
         }
         true
     }
-- 
2.43.0


From 4151d2ee99980365db5049825f3a15bc13981cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:43 +0000
Subject: [PATCH 19/43] fix: close the replaced verifying key account without
 the system program

---
 elusiv/src/processor/vkey.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/elusiv/src/processor/vkey.rs b/elusiv/src/processor/vkey.rs
index f73c754..60ff582 100644
--- a/elusiv/src/processor/vkey.rs
+++ b/elusiv/src/processor/vkey.rs
@@ -4,9 +4,7 @@ use crate::{
 };
 use borsh::{BorshDeserialize, BorshSerialize};
 use elusiv_types::{BorshSerDeSized, ChildAccountConfig, ElusivOption, ParentAccount};
-use elusiv_utils::{
-    guard, open_pda_account_with_offset, pda_account, transfer_with_system_program,
-};
+use elusiv_utils::{close_account, guard, open_pda_account_with_offset, pda_account};
 use solana_program::{
     account_info::AccountInfo, entrypoint::ProgramResult, program_error::ProgramError,
     pubkey::Pubkey,
@@ -106,7 +104,7 @@ pub fn update_vkey_version<'a>(
     signer: &AccountInfo<'a>,
     vkey_account: &mut VKeyAccount,
     old_vkey_binary_data_account: &AccountInfo<'a>,
-    system_program: &AccountInfo<'a>,
+    _system_program: &AccountInfo<'a>,
 
     _vkey_id: u32,
 ) -> ProgramResult {
@@ -124,12 +122,8 @@ pub fn update_vkey_version<'a>(
             ElusivError::InvalidAccount
         );
 
-        transfer_with_system_program(
-            old_vkey_binary_data_account,
-            signer,
-            system_program,
-            old_vkey_binary_data_account.lamports(),
-        )?;
+        // The account is owned by this program, so the system program is not able to debit it
+        close_account(signer, old_vkey_binary_data_account)?;
     }
 
     // Swap child accounts
-- 
2.43.0


From 1386a8e62890254d48c63df0cd1ebb017e4cc680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:54 +0000
Subject: [PATCH 20/43] fix: create PDA accounts at addresses which already
 hold Lamports

---
 shared/elusiv-utils/src/lib.rs | 55 +++++++++++++++++++++++++---------
 1 file changed, 41 insertions(+), 14 deletions(-)

diff --git a/shared/elusiv-utils/src/lib.rs b/shared/elusiv-utils/src/lib.rs
index eec2fb5..6d136d9 100644
--- a/shared/elusiv-utils/src/lib.rs
+++ b/shared/elusiv-utils/src/lib.rs
@@ -5,8 +5,14 @@ use elusiv_types::{
     PDAOffset,
 };
 use solana_program::{
-    account_info::AccountInfo, entrypoint::ProgramResult, program::invoke_signed,
-    program_error::ProgramError, pubkey::Pubkey, rent::Rent, system_instruction, sysvar::Sysvar,
+    account_info::AccountInfo,
+    entrypoint::ProgramResult,
+    program::{invoke, invoke_signed},
+    program_error::ProgramError,
+    pubkey::Pubkey,
+    rent::Rent,
+    system_instruction,
+    sysvar::Sysvar,
 };
 
 #[cfg(feature = "sdk")]
@@ -122,22 +128,43 @@ pub fn create_pda_account<'a>(
 
     let lamports_required = Rent::get()?.minimum_balance(account_size);
     let space: u64 = account_size.try_into().unwrap();
+    let lamports_missing = lamports_required.saturating_sub(pda_account.lamports());
     guard!(
-        payer.lamports() >= lamports_required,
+        payer.lamports() >= lamports_missing,
         ProgramError::AccountNotRentExempt
     );
 
-    invoke_signed(
-        &system_instruction::create_account(
-            payer.key,
-            pda_account.key,
-            lamports_required,
-            space,
-            program_id,
-        ),
-        &[payer.clone(), pda_account.clone()],
-        &[signers_seeds],
-    )?;
+    if pda_account.lamports() == 0 {
+        invoke_signed(
+            &system_instruction::create_account(
+                payer.key,
+                pda_account.key,
+                lamports_required,
+                space,
+                program_id,
+            ),
+            &[payer.clone(), pda_account.clone()],
+            &[signers_seeds],
+        )?;
+    } else {
+        // `create_account` fails for addresses that hold Lamports, which anyone is able to send
+        if lamports_missing > 0 {
+            invoke(
+                &system_instruction::transfer(payer.key, pda_account.key, lamports_missing),
+                &[payer.clone(), pda_account.clone()],
+            )?;
+        }
+        invoke_signed(
+            &system_instruction::allocate(pda_account.key, space),
+            &[pda_account.clone()],
+            &[signers_seeds],
+        )?;
+        invoke_signed(
+            &system_instruction::assign(pda_account.key, program_id),
+            &[pda_account.clone()],
+            &[signers_seeds],
+        )?;
+    }
 
     // Assign default fields
     let mut data = &mut pda_account.data.borrow_mut()[..];
-- 
2.43.0


From b0d0f2426dc40ee0893c63f8727dbb9d5f3d67e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:54 +0000
Subject: [PATCH 21/43] fix: settle tokens to associated token accounts whose
 address was funded in advance

---
 elusiv/src/processor/proof.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elusiv/src/processor/proof.rs b/elusiv/src/processor/proof.rs
index e64e802..d0113a8 100644
--- a/elusiv/src/processor/proof.rs
+++ b/elusiv/src/processor/proof.rs
@@ -931,7 +931,7 @@ pub fn finalize_verification_transfer_token<'a>(
                     ElusivError::InvalidRecipient
                 );
 
-                if recipient.lamports() == 0 {
+                if *recipient.owner == solana_program::system_program::ID {
                     // Check if associated token accounts exists
                     guard!(
                         *mint_account.key == elusiv_token(token_id)?.mint,
-- 
2.43.0


From 41aa688f5b651ec129688aa8c5112dda8516460c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:54 +0000
Subject: [PATCH 22/43] fix: continue the metadata at the place of the batch
 after the active tree was replaced

---
 elusiv/src/processor/commitment.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/elusiv/src/processor/commitment.rs b/elusiv/src/processor/commitment.rs
index 4094f07..7c10e2f 100644
--- a/elusiv/src/processor/commitment.rs
+++ b/elusiv/src/processor/commitment.rs
@@ -421,6 +421,9 @@ fn init_commitment_hash_inner(
     // since errors can be ignored (`insertion_can_fail`)
     let mut metadata_queue = MetadataQueue::new(metadata_queue);
     let metadata_ptr = metadata_account.get_next_metadata_ptr();
+
+    // The metadata has the same index as its commitment (which starts at zero in every new MT)
+    metadata_account.set_next_metadata_ptr(&hashing_account.get_ordering());
     for i in 0..batch.len() {
         let added = metadata_queue
             .view(i)
-- 
2.43.0


From 04ea802fa41ccf96f7eee5d0f953294f68a4bcdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:26 +0000
Subject: [PATCH 23/43] fix: keep the basic warden network account small enough
 to be created

---
 elusiv-warden-network/src/network.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/elusiv-warden-network/src/network.rs b/elusiv-warden-network/src/network.rs
index c95075c..01560e8 100644
--- a/elusiv-warden-network/src/network.rs
+++ b/elusiv-warden-network/src/network.rs
@@ -35,7 +35,8 @@ macro_rules! warden_network {
     };
 }
 
-warden_network!(ElusivBasicWardenNetwork, NetworkSize::Dynamic(0, 512));
+// The `BasicWardenNetworkAccount` is a PDA and thereby cannot be created with more than 10,240 bytes
+warden_network!(ElusivBasicWardenNetwork, NetworkSize::Dynamic(0, 511));
 
 #[elusiv_account]
 pub struct BasicWardenNetworkAccount {
-- 
2.43.0


From 59762424e37e9fd8046e6d92bd79a43547677f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:26 +0000
Subject: [PATCH 24/43] fix: complete the genesis application of the seat that
 belongs to the warden

---
 elusiv-warden-network/src/network.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/elusiv-warden-network/src/network.rs b/elusiv-warden-network/src/network.rs
index 01560e8..d7aee84 100644
--- a/elusiv-warden-network/src/network.rs
+++ b/elusiv-warden-network/src/network.rs
@@ -163,10 +163,9 @@ impl<'a> ApaWardenNetworkAccount<'a> {
         );
 
         let member_index = (0..self.get_members_count() as usize)
-            .map(|i| self.get_members(i))
-            .find(|member| member == &warden_id)
+            .find(|&i| self.get_members(i) == warden_id)
             .ok_or(ElusivWardenNetworkError::WardenRegistrationError)?;
-        self.set_quote_ends(member_index as usize, &Some(quote_end).into());
+        self.set_quote_ends(member_index, &Some(quote_end).into());
 
         Ok(())
     }
-- 
2.43.0


From ef145c2ff1804e49b9c63294aeae79b70f6efa07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:26 +0000
Subject: [PATCH 25/43] fix: store the result of a metadata attestation

---
 elusiv-warden-network/src/processor/basic_warden.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/elusiv-warden-network/src/processor/basic_warden.rs b/elusiv-warden-network/src/processor/basic_warden.rs
index 442a714..b6c22f3 100644
--- a/elusiv-warden-network/src/processor/basic_warden.rs
+++ b/elusiv-warden-network/src/processor/basic_warden.rs
@@ -234,6 +234,7 @@ pub fn attest_basic_warden_metadata(
     warden.config.uses_proxy = uses_proxy;
     warden.config.region = region;
     warden.is_metadata_valid = Some(!warden_supplied_invalid_data).into();
+    warden_account.set_warden(&warden);
 
     basic_network_account.update_region(warden_id, member_index as usize, &region)?;
 
-- 
2.43.0


From c7fa3c5f540d682fecd79803d186f4ac0c9a8031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:26 +0000
Subject: [PATCH 26/43] fix: reject wardens that appoint themselves as metadata
 attesters

---
 elusiv-warden-network/src/processor/basic_warden.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/elusiv-warden-network/src/processor/basic_warden.rs b/elusiv-warden-network/src/processor/basic_warden.rs
index b6c22f3..b4865d6 100644
--- a/elusiv-warden-network/src/processor/basic_warden.rs
+++ b/elusiv-warden-network/src/processor/basic_warden.rs
@@ -31,6 +31,12 @@ pub fn register_basic_warden<'a, 'b>(
 ) -> ProgramResult {
     guard!(config.key == *warden.key, ProgramError::InvalidArgument);
 
+    // Attesters are only appointed by the `METADATA_ATTESTER_AUTHORITY`
+    guard!(
+        !config.warden_features.attestation,
+        ProgramError::InvalidArgument
+    );
+
     basic_network_account.try_add_member(
         warden_id,
         &config.basic_warden_features,
-- 
2.43.0


From 8634e3a9fb745089f9af8f08c220f8be674558a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:26 +0000
Subject: [PATCH 27/43] fix: reject attestations at places of the network
 without a member

---
 elusiv-warden-network/src/network.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/elusiv-warden-network/src/network.rs b/elusiv-warden-network/src/network.rs
index d7aee84..7fbf29d 100644
--- a/elusiv-warden-network/src/network.rs
+++ b/elusiv-warden-network/src/network.rs
@@ -80,6 +80,10 @@ impl<'a> BasicWardenNetworkAccount<'a> {
         member_index: usize,
         region: &WardenRegion,
     ) -> ProgramResult {
+        guard!(
+            member_index < self.get_members_count() as usize,
+            ElusivWardenNetworkError::InvalidInstructionData
+        );
         guard!(
             self.get_members(member_index) == warden_id,
             ElusivWardenNetworkError::InvalidInstructionData
-- 
2.43.0


From f59a4d01a9c93595fd192581c4c790a3b75126e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:26 +0000
Subject: [PATCH 28/43] fix: store the key of a registered warden operator

---
 elusiv-warden-network/src/processor/operator.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/elusiv-warden-network/src/processor/operator.rs b/elusiv-warden-network/src/processor/operator.rs
index d0e4e3e..ba07ede 100644
--- a/elusiv-warden-network/src/processor/operator.rs
+++ b/elusiv-warden-network/src/processor/operator.rs
@@ -29,6 +29,7 @@ pub fn register_warden_operator<'b>(
         WardenOperatorAccount,
         operator_account.get_safe()?
     );
+    operator_account.set_key(operator.key);
     operator_account.set_ident(&ident);
     operator_account.set_url(&url);
     operator_account.set_jurisdiction(&jurisdiction.into());
-- 
2.43.0


From 39d5e67c26c792b13ac25e32743db16ed9e0f28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:26 +0000
Subject: [PATCH 29/43] fix: count the tracked warden activity

---
 elusiv-warden-network/src/warden.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/elusiv-warden-network/src/warden.rs b/elusiv-warden-network/src/warden.rs
index e0ed547..631e899 100644
--- a/elusiv-warden-network/src/warden.rs
+++ b/elusiv-warden-network/src/warden.rs
@@ -197,14 +197,20 @@ pub struct WardenStatistics {
 }
 
 impl WardenStatistics {
-    pub fn inc(&self, day: u32) -> Result<&Self, ProgramError> {
-        guard!(day < 366, ElusivWardenNetworkError::StatsError);
-
-        self.total
+    /// Increments the activity of a `day` of the year in `[1; 366]`
+    pub fn inc(&mut self, day: u32) -> Result<&Self, ProgramError> {
+        guard!(
+            (1..=366).contains(&day),
+            ElusivWardenNetworkError::StatsError
+        );
+
+        self.total = self
+            .total
             .checked_add(1)
             .ok_or(ElusivWardenNetworkError::Overflow)?;
 
-        self.activity[day as usize]
+        let activity = &mut self.activity[day as usize - 1];
+        *activity = activity
             .checked_add(1)
             .ok_or(ElusivWardenNetworkError::Overflow)?;
 
-- 
2.43.0


From 24e838f6525ab56154867e73c3c16d42e467c166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:26 +0000
Subject: [PATCH 30/43] fix: count sends in the send statistics of a warden

---
 .../src/processor/basic_warden.rs                  | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/elusiv-warden-network/src/processor/basic_warden.rs b/elusiv-warden-network/src/processor/basic_warden.rs
index b4865d6..9f5aaf4 100644
--- a/elusiv-warden-network/src/processor/basic_warden.rs
+++ b/elusiv-warden-network/src/processor/basic_warden.rs
@@ -275,9 +275,15 @@ pub fn open_basic_warden_stats_account<'b>(
 
 const ELUSIV_PROGRAM_ID: Pubkey = crate::macros::program_id!(elusiv);
 
+pub enum ElusivActivity {
+    Store,
+    Send,
+}
+
 pub struct TrackableElusivInstruction {
     pub instruction_id: u8,
     pub warden_index: u8,
+    pub activity: ElusivActivity,
 }
 
 pub const TRACKABLE_ELUSIV_INSTRUCTIONS: [TrackableElusivInstruction; 3] = [
@@ -285,16 +291,19 @@ pub const TRACKABLE_ELUSIV_INSTRUCTIONS: [TrackableElusivInstruction; 3] = [
     TrackableElusivInstruction {
         instruction_id: 2,
         warden_index: 0,
+        activity: ElusivActivity::Store,
     },
     // FinalizeVerificationTransferLamports
     TrackableElusivInstruction {
         instruction_id: 13,
         warden_index: 1,
+        activity: ElusivActivity::Send,
     },
     // FinalizeVerificationTransferToken
     TrackableElusivInstruction {
         instruction_id: 14,
         warden_index: 3,
+        activity: ElusivActivity::Send,
     },
 ];
 
@@ -360,7 +369,10 @@ fn track_basic_warden_stats_inner(
             ProgramError::IncorrectProgramId
         );
 
-        stats_account.set_store(stats_account.get_store().inc(day)?);
+        match ix.activity {
+            ElusivActivity::Store => stats_account.set_store(stats_account.get_store().inc(day)?),
+            ElusivActivity::Send => stats_account.set_send(stats_account.get_send().inc(day)?),
+        }
     } else {
         return Err(ElusivWardenNetworkError::StatsError.into());
     }
-- 
2.43.0


From eb107986f851016fcc13284bd8eedb7f99b8b66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:26 +0000
Subject: [PATCH 31/43] fix: credit a send to the warden who finalizes it
 instead of to its recipient

---
 elusiv-warden-network/src/processor/basic_warden.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elusiv-warden-network/src/processor/basic_warden.rs b/elusiv-warden-network/src/processor/basic_warden.rs
index 9f5aaf4..7bdc413 100644
--- a/elusiv-warden-network/src/processor/basic_warden.rs
+++ b/elusiv-warden-network/src/processor/basic_warden.rs
@@ -296,13 +296,13 @@ pub const TRACKABLE_ELUSIV_INSTRUCTIONS: [TrackableElusivInstruction; 3] = [
     // FinalizeVerificationTransferLamports
     TrackableElusivInstruction {
         instruction_id: 13,
-        warden_index: 1,
+        warden_index: 0,
         activity: ElusivActivity::Send,
     },
     // FinalizeVerificationTransferToken
     TrackableElusivInstruction {
         instruction_id: 14,
-        warden_index: 3,
+        warden_index: 0,
         activity: ElusivActivity::Send,
     },
 ];
-- 
2.43.0


From 14e5fa2c6a27b2faead0848488bbff7118fdc35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:26 +0000
Subject: [PATCH 32/43] fix: do not panic when the instruction before the
 tracking has no data or accounts

---
 elusiv-warden-network/src/processor/basic_warden.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/elusiv-warden-network/src/processor/basic_warden.rs b/elusiv-warden-network/src/processor/basic_warden.rs
index 7bdc413..2e60ed1 100644
--- a/elusiv-warden-network/src/processor/basic_warden.rs
+++ b/elusiv-warden-network/src/processor/basic_warden.rs
@@ -355,13 +355,20 @@ fn track_basic_warden_stats_inner(
         instructions_account,
     )?;
 
-    let ix_byte = previous_ix.data[0];
+    let ix_byte = *previous_ix
+        .data
+        .first()
+        .ok_or(ElusivWardenNetworkError::StatsError)?;
     if let Some(ix) = TRACKABLE_ELUSIV_INSTRUCTIONS
         .iter()
         .find(|i| i.instruction_id == ix_byte)
     {
+        let warden_meta = previous_ix
+            .accounts
+            .get(ix.warden_index as usize)
+            .ok_or(ElusivWardenNetworkError::StatsError)?;
         guard!(
-            previous_ix.accounts[ix.warden_index as usize].pubkey == *warden.key,
+            warden_meta.pubkey == *warden.key,
             ElusivWardenNetworkError::StatsError
         );
         guard!(
-- 
2.43.0


From dffd72abfa380a28716d038bb16176005fcea62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:26 +0000
Subject: [PATCH 33/43] fix: verify the freeze authority of every proposal made
 in that role

---
 elusiv-warden-network/src/processor/apa.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/elusiv-warden-network/src/processor/apa.rs b/elusiv-warden-network/src/processor/apa.rs
index ebcb17b..11f5484 100644
--- a/elusiv-warden-network/src/processor/apa.rs
+++ b/elusiv-warden-network/src/processor/apa.rs
@@ -62,6 +62,12 @@ pub fn propose_apa_proposal<'b>(
                 }
             }
         }
+    } else {
+        // Without a token there is no freeze authority
+        guard!(
+            matches!(proposal.proponent_role, ApaProponentRole::Default),
+            ElusivWardenNetworkError::ProposalError
+        );
     }
 
     open_pda_account_with_offset::<ApaProposalAccount>(
-- 
2.43.0


From 8fc9b8fe81b290bceb08ca07fb73f3a95147d7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:26 +0000
Subject: [PATCH 34/43] fix: open the map account of a proposal target whose
 address was funded in advance

---
 elusiv-warden-network/src/processor/apa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elusiv-warden-network/src/processor/apa.rs b/elusiv-warden-network/src/processor/apa.rs
index 11f5484..ba1186d 100644
--- a/elusiv-warden-network/src/processor/apa.rs
+++ b/elusiv-warden-network/src/processor/apa.rs
@@ -78,7 +78,7 @@ pub fn propose_apa_proposal<'b>(
         None,
     )?;
 
-    if target_map_account.lamports() == 0 {
+    if target_map_account.owner != &crate::id() {
         open_pda_account_with_associated_pubkey::<ApaTargetMapAccount>(
             &crate::id(),
             proponent,
-- 
2.43.0


From d357271c90fe84248ae81b9ffd2750cf9120eb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 35/43] fix: decode fields smaller than their reserved space in
 the eager representation of accounts

---
 shared/elusiv-proc-macros/src/elusiv_account.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shared/elusiv-proc-macros/src/elusiv_account.rs b/shared/elusiv-proc-macros/src/elusiv_account.rs
index bc0ef87..6410236 100644
--- a/shared/elusiv-proc-macros/src/elusiv_account.rs
+++ b/shared/elusiv-proc-macros/src/elusiv_account.rs
@@ -370,7 +370,7 @@ pub fn impl_elusiv_account(ast: &syn::DeriveInput, attrs: TokenStream) -> TokenS
 
                     eager_init.extend(quote!{
                         let (#field_ident, data) = data.split_at(<#ty as elusiv_types::bytes::BorshSerDeSized>::SIZE);
-                        let #field_ident = <#ty as borsh::BorshDeserialize>::try_from_slice(#field_ident)?;
+                        let #field_ident = <#ty as borsh::BorshDeserialize>::deserialize(&mut &#field_ident[..])?;
                     });
 
                     if use_getter {
-- 
2.43.0


From b670fac4f087203b786798718d2f9f4f7acc957d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 36/43] fix: size of the serialized G2 points

---
 elusiv/src/fields.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elusiv/src/fields.rs b/elusiv/src/fields.rs
index bff385a..cfdda7a 100644
--- a/elusiv/src/fields.rs
+++ b/elusiv/src/fields.rs
@@ -302,7 +302,7 @@ impl BorshDeserialize for G2A {
     }
 }
 impl BorshSerDeSized for Wrap<G2A> {
-    const SIZE: usize = 65;
+    const SIZE: usize = G2A::SIZE;
 }
 impl BorshSerialize for Wrap<G2A> {
     fn serialize<W: std::io::Write>(&self, writer: &mut W) -> std::io::Result<()> {
-- 
2.43.0


From 32233a50f7b106ee5aa48faf3756d9598ddf1b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 37/43] fix: find values of a single byte

---
 elusiv/src/bytes.rs | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/elusiv/src/bytes.rs b/elusiv/src/bytes.rs
index b922c8e..1269e86 100644
--- a/elusiv/src/bytes.rs
+++ b/elusiv/src/bytes.rs
@@ -60,19 +60,10 @@ pub fn find<N: BorshSerialize + BorshSerDeSized>(
 
     // TODO: optimize with byte alignment
 
-    let last_index = N::SIZE - 1;
     let mut offset = 0;
     for i in 0..length {
-        if data[offset] == bytes[0] {
-            for j in 1..N::SIZE {
-                if data[offset + j] != bytes[j] {
-                    break;
-                }
-
-                if j == last_index {
-                    return Some(i);
-                }
-            }
+        if data[offset..offset + N::SIZE] == bytes[..] {
+            return Some(i);
         }
 
         offset += N::SIZE;
-- 
2.43.0


From bc4434a7f9db9eaeca49a35f978d0ef8e695318a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:40 +0000
Subject: [PATCH 38/43] fix: the fee computation of clients does not alternate
 between two fees forever

---
 elusiv/src/types.rs | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/elusiv/src/types.rs b/elusiv/src/types.rs
index e9c40fc..723b129 100644
--- a/elusiv/src/types.rs
+++ b/elusiv/src/types.rs
@@ -566,24 +566,30 @@ pub fn compute_fee_rec<V: crate::proof::vkey::VerifyingKeyInfo, P: PublicInputs>
     program_fee: &crate::state::fee::ProgramFee,
     price: &crate::token::TokenPrice,
 ) {
-    let fee = program_fee
-        .proof_verification_fee(
-            crate::proof::verifier::prepare_public_inputs_instructions(
-                &public_inputs.public_signals_skip_mr(),
-                V::public_inputs_count(),
+    // The fee is itself part of the public inputs, so it's only increased (otherwise it can alternate between two values forever)
+    public_inputs.set_fee(0);
+
+    loop {
+        let fee = program_fee
+            .proof_verification_fee(
+                crate::proof::verifier::prepare_public_inputs_instructions(
+                    &public_inputs.public_signals_skip_mr(),
+                    V::public_inputs_count(),
+                )
+                .len(),
+                0,
+                public_inputs.join_split_inputs().amount,
+                public_inputs.join_split_inputs().token_id,
+                price,
             )
-            .len(),
-            0,
-            public_inputs.join_split_inputs().amount,
-            public_inputs.join_split_inputs().token_id,
-            price,
-        )
-        .unwrap()
-        .amount();
+            .unwrap()
+            .amount();
+
+        if fee <= public_inputs.join_split_inputs().fee {
+            break;
+        }
 
-    if fee != public_inputs.join_split_inputs().fee {
         public_inputs.set_fee(fee);
-        compute_fee_rec::<V, P>(public_inputs, program_fee, price)
     }
 }
 
-- 
2.43.0


From e2ee6fb8494772324a4c2573c814dd1011dd626d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:25 +0000
Subject: [PATCH 39/43] fix: foretell the movements of nullifier-hashes that
 fill up an account

---
 elusiv/src/state/nullifier.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/elusiv/src/state/nullifier.rs b/elusiv/src/state/nullifier.rs
index 917a6e4..679909e 100644
--- a/elusiv/src/state/nullifier.rs
+++ b/elusiv/src/state/nullifier.rs
@@ -238,10 +238,27 @@ impl<'a, 'b, 'c> NullifierAccount<'a, 'b, 'c> {
     pub fn number_of_movement_instructions(&self, nullifier_hashes: &[U256]) -> usize {
         let count = self.get_nullifier_hash_count() as usize;
 
+        // The nullifier-hashes can fill the currently partially filled account, which then only receives values below its maximum
+        let partial_index = count / NULLIFIERS_PER_ACCOUNT;
+        let mut partial_max = if partial_index < ACCOUNTS_COUNT {
+            self.get_max_values(partial_index).option().map(OrdU256)
+        } else {
+            None
+        };
+
         let mut buckets = vec![false; ACCOUNTS_COUNT];
         for (i, nullifier_hash) in nullifier_hashes.iter().enumerate() {
             let full_accounts_count = (count + i) / NULLIFIERS_PER_ACCOUNT;
-            let account_index = self.find_child_account_index(nullifier_hash);
+            let mut account_index = self.find_child_account_index(nullifier_hash);
+            if account_index == partial_index {
+                let value = Some(OrdU256(*nullifier_hash));
+                if account_index < full_accounts_count && value > partial_max {
+                    account_index = full_accounts_count;
+                } else {
+                    partial_max = std::cmp::max(partial_max, value);
+                }
+            }
+
             if account_index < full_accounts_count {
                 #[allow(clippy::needless_range_loop)]
                 for i in account_index..Self::COUNT {
-- 
2.43.0


From c6610035d05747b09fc5e806072811e777ee01b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 40/43] fix: parse operators of computations with their usual
 precedence

`a - b - c` was parsed as `a - (b - c)`, comparisons bound tighter than
arithmetic operators and an unary operator applied to everything on its right.
---
 elusiv/elusiv-interpreter/src/parser.rs | 80 +++++++++----------------
 1 file changed, 28 insertions(+), 52 deletions(-)

diff --git a/elusiv/elusiv-interpreter/src/parser.rs b/elusiv/elusiv-interpreter/src/parser.rs
index cab9bef..62d2618 100644
--- a/elusiv/elusiv-interpreter/src/parser.rs
+++ b/elusiv/elusiv-interpreter/src/parser.rs
@@ -247,67 +247,43 @@ impl From<&Vec<Token>> for Stmt {
     }
 }
 
-const UN_OP_BINDING: [UnOp; 3] = [UnOp::Ref, UnOp::Deref, UnOp::Not];
-const BIN_OP_BINDING: [BinOp; 6] = [
-    BinOp::Add,
-    BinOp::Sub,
-    BinOp::Mul,
-    BinOp::LargerThan,
-    BinOp::LessThan,
-    BinOp::Equals,
+/// Binary operators, from the weakest to the strongest binding
+const BIN_OP_BINDING: [&[BinOp]; 4] = [
+    &[BinOp::Equals],
+    &[BinOp::LargerThan, BinOp::LessThan],
+    &[BinOp::Add, BinOp::Sub],
+    &[BinOp::Mul],
 ];
 
 impl From<&[Token]> for Expr {
     fn from(tree: &[Token]) -> Self {
-        // Unops
-        if let Some(Punct(first)) = tree.first() {
-            for op in &UN_OP_BINDING {
-                let op = Some(op.clone());
-                if first.as_unop() == op {
-                    for i in 2..=tree.len() {
-                        let expr: Expr = (&tree[1..i]).into();
-                        if !matches!(expr, Expr::Invalid) {
-                            let un_expr = Expr::UnOp(op.unwrap(), Box::new(expr));
-                            if i == tree.len() {
-                                // full expr is just an unop expr
-                                return un_expr;
-                            } else {
-                                // if tokens remain on the right, we know that we have to be part of a binop expr
-                                if let Punct(p) = &tree[i] {
-                                    let bop = p.as_binop().unwrap();
-                                    return Expr::BinOp(
-                                        Box::new(un_expr),
-                                        bop,
-                                        Box::new((&tree[i + 1..]).into()),
-                                    );
-                                }
-                            }
-                            println!("Invalid unary operation");
-                            return Expr::Invalid;
-                        }
+        // Binops (operators with equal binding are left-associative, so we split at the last one)
+        for ops in BIN_OP_BINDING {
+            for bop_pos in (1..tree.len()).rev() {
+                let op = match (&tree[bop_pos - 1], &tree[bop_pos]) {
+                    // A binary operator follows an operand (otherwise it's an unop)
+                    (Ident(_) | Literal(_) | Group(_, _), Punct(p)) => p.as_binop(),
+                    _ => None,
+                };
+
+                if let Some(op) = op.filter(|op| ops.contains(op)) {
+                    let l: Expr = (&tree[..bop_pos]).into();
+                    let r: Expr = (&tree[bop_pos + 1..]).into();
+
+                    if !matches!(l, Expr::Invalid) && !matches!(r, Expr::Invalid) {
+                        return Expr::BinOp(Box::new(l), op, Box::new(r));
                     }
-                    println!("Invalid unary operation");
-                    return Expr::Invalid;
                 }
             }
         }
 
-        // Binops
-        for op in &BIN_OP_BINDING {
-            let op = Some(op.clone());
-            if let Some(bop_pos) = tree.iter().position(|t| {
-                if let Punct(p) = t {
-                    p.as_binop() == op
-                } else {
-                    false
-                }
-            }) {
-                let l: Expr = (&tree[..bop_pos]).into();
-                let r: Expr = (&tree[bop_pos + 1..]).into();
-
-                if !matches!(l, Expr::Invalid) && !matches!(r, Expr::Invalid) {
-                    return Expr::BinOp(Box::new(l), op.unwrap(), Box::new(r));
-                }
+        // Unops
+        if let [Punct(first), tail @ ..] = tree {
+            if let Some(op) = first.as_unop() {
+                return match tail.into() {
+                    Expr::Invalid => Expr::Invalid,
+                    expr => Expr::UnOp(op, Box::new(expr)),
+                };
             }
         }
 
-- 
2.43.0


From bf0100f4b607fdd186f49085600addd4fbc5f7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 41/43] fix: leave the memory frames balanced when a
 computation returns early

A return in a scope with a partial call skipped the restoring of the frames
of the RAMs, which every later round of the computation then used.
---
 elusiv/elusiv-interpreter/src/interpreter.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/elusiv/elusiv-interpreter/src/interpreter.rs b/elusiv/elusiv-interpreter/src/interpreter.rs
index 35f066b..f925570 100644
--- a/elusiv/elusiv-interpreter/src/interpreter.rs
+++ b/elusiv/elusiv-interpreter/src/interpreter.rs
@@ -124,7 +124,7 @@ pub fn interpret(
         let result = scope
             .stmt
             .to_stream(start_rounds, previous_computation_rounds);
-        let body = result.stream;
+        let mut body = result.stream;
 
         let mut read = quote! {};
         let mut write = quote! {};
@@ -146,6 +146,24 @@ pub fn interpret(
                 ram_in.extend(quote! { #name.inc_frame(#height); });
                 ram_out.extend(quote! { #name.dec_frame(#height); });
             }
+
+            // The frames also have to be restored when returning
+            if !ram_out.is_empty()
+                && (scope.stmt.all_terminal_stmts().iter()).any(|s| matches!(s, Stmt::Return(_)))
+            {
+                body = quote! {
+                    let mut returning = || -> Result<Option<#ty>, ElusivError> {
+                        #body
+                        Ok(None)
+                    };
+                    let value = returning();
+                };
+                ram_out.extend(quote! {
+                    if let Some(value) = value? {
+                        return Ok(Some(value));
+                    }
+                });
+            }
         }
 
         // If we free memory and write, we only free in the last iteration and write to different locations
-- 
2.43.0


From a9e1272c1048b406f8327fe46f7d962d88d25237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 42/43] fix: keep the memory index of a variable moved by a
 multi-round scope

Every round of a multi-round scope is a separate execution: a variable that
one round moves to a lower index was looked up at its old index by the rounds
which follow.
---
 elusiv/elusiv-interpreter/src/interpreter.rs | 5 +++--
 elusiv/elusiv-interpreter/src/storage.rs     | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/elusiv/elusiv-interpreter/src/interpreter.rs b/elusiv/elusiv-interpreter/src/interpreter.rs
index f925570..5b618bd 100644
--- a/elusiv/elusiv-interpreter/src/interpreter.rs
+++ b/elusiv/elusiv-interpreter/src/interpreter.rs
@@ -133,7 +133,8 @@ pub fn interpret(
             read.extend(storage.read(r.clone()));
         }
         for w in scope.write.clone() {
-            write.extend(storage.write(w));
+            // All rounds read from the same index, so a var can only be moved by the last one
+            write.extend(storage.write(w, result.rounds <= 1));
         }
 
         let mut ram_in = quote! {};
@@ -177,7 +178,7 @@ pub fn interpret(
                 if scope.free.iter().any(|x| x.id == w.id) {
                     continue;
                 }
-                write_after_free.extend(storage.write(w.clone()));
+                write_after_free.extend(storage.write(w.clone(), true));
             }
 
             if result.rounds == 0 {
diff --git a/elusiv/elusiv-interpreter/src/storage.rs b/elusiv/elusiv-interpreter/src/storage.rs
index 75c651d..c0b27ab 100644
--- a/elusiv/elusiv-interpreter/src/storage.rs
+++ b/elusiv/elusiv-interpreter/src/storage.rs
@@ -101,7 +101,8 @@ impl StorageMappings {
         m.deallocate(&r.id);
     }
 
-    pub fn write(&mut self, w: MemoryId) -> TokenStream {
+    /// - `movable`: if `false`, an already allocated var keeps its index
+    pub fn write(&mut self, w: MemoryId, movable: bool) -> TokenStream {
         let m = self.get_mapping(&w.ty);
         if !m.contains(&w.id) {
             m.allocate(&w.id);
@@ -113,7 +114,7 @@ impl StorageMappings {
 
         // if there is a lower spot, than index, use that
         let first = m.first_free();
-        if first < index {
+        if movable && first < index {
             m.deallocate(&w.id);
             m.allocate(&w.id);
             quote! {
-- 
2.43.0


From dcbb2aef57c8fe349715d355b31254ec20c21e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:48 +0000
Subject: [PATCH 43/43] fix: rent of an associated token account and optional
 fee compared with wrap-around

---
 elusiv/src/processor/proof.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/elusiv/src/processor/proof.rs b/elusiv/src/processor/proof.rs
index d0113a8..b2d04d0 100644
--- a/elusiv/src/processor/proof.rs
+++ b/elusiv/src/processor/proof.rs
@@ -301,10 +301,13 @@ pub fn init_verification_transfer_fee<'a>(
                 .into_token(&price, token_id)?
                 .amount();
 
+            let amount = public_inputs
+                .join_split
+                .amount
+                .checked_sub(public_inputs.join_split.optional_fee.amount)
+                .ok_or(ElusivError::InvalidAmount)?;
             guard!(
-                public_inputs.join_split.amount
-                    >= associated_token_account_rent_token
-                        + public_inputs.join_split.optional_fee.amount,
+                amount >= associated_token_account_rent_token,
                 ElusivError::InvalidAmount
             );
         }
-- 
2.43.0

