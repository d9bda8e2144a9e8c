From 3c71b297c5ec963c45dc43ae2d57a83b75e41185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:56 +0000
Subject: [PATCH 01/18] fix: CREATE2 must not read init code beyond the current
 memory

The storage-gas wrapper of CREATE2 hashed the init code with an unchecked memory
slice before the inner instruction had expanded the memory: reading beyond the
current memory is an out-of-bounds read (garbage bucket, or a crash). Bytes
beyond the memory are zero.
---
 crates/mega-evm/src/evm/instructions.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/crates/mega-evm/src/evm/instructions.rs b/crates/mega-evm/src/evm/instructions.rs
index 805c1a5..1097b17 100644
--- a/crates/mega-evm/src/evm/instructions.rs
+++ b/crates/mega-evm/src/evm/instructions.rs
@@ -5,7 +5,7 @@ use crate::{
     AdditionalLimit, ExternalEnvTypes, HostExt, MegaContext, MegaSpecId,
 };
 use alloy_evm::Database;
-use alloy_primitives::{keccak256, Address, Bytes, U256};
+use alloy_primitives::{keccak256, Address, U256};
 use revm::{
     context::{ContextTr, JournalTr},
     handler::instructions::{EthInstructions, InstructionProvider},
@@ -872,9 +872,21 @@ pub mod storage_gas_ext {
             };
             let initcode_offset = as_usize_or_fail!(context.interpreter, initcode_offset);
             let initcode_len = as_usize_or_fail!(context.interpreter, initcode_len);
-            let code = Bytes::copy_from_slice(
-                context.interpreter.memory.slice_len(initcode_offset, initcode_len).as_ref(),
-            );
+            // The init code may reach beyond the current memory, which is only expanded (and paid
+            // for) by the inner instruction: the bytes beyond it are zero. Oversized init code is
+            // rejected here in the same way as in the inner instruction.
+            if initcode_len > context.host.max_initcode_size() {
+                context.interpreter.halt(InstructionResult::CreateInitCodeSizeLimit);
+                return;
+            }
+            let mut code = vec![0u8; initcode_len];
+            let available =
+                context.interpreter.memory.size().saturating_sub(initcode_offset).min(initcode_len);
+            if available > 0 {
+                code[..available].copy_from_slice(
+                    context.interpreter.memory.slice_len(initcode_offset, available).as_ref(),
+                );
+            }
             let initcode_hash = keccak256(&code);
 
             let Some(salt) = context.interpreter.stack.inspect::<3>() else {
-- 
2.43.0


From cf0239bf7a1fe9d16a680d7c92485b80fe98e0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:26 +0000
Subject: [PATCH 02/18] fix: data size of an access list must not depend on
 vector capacity

AccessListItem::size() is a heuristic over the capacity of the key vector, so two
equal transactions could be accounted (and limited) differently.
---
 crates/mega-evm/src/limit/data_size.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/mega-evm/src/limit/data_size.rs b/crates/mega-evm/src/limit/data_size.rs
index 3cd96dc..ce81538 100644
--- a/crates/mega-evm/src/limit/data_size.rs
+++ b/crates/mega-evm/src/limit/data_size.rs
@@ -166,10 +166,13 @@ impl DataSizeTracker {
         let mut size = BASE_TX_SIZE;
         // bytes for the calldata of a transaction
         size += tx.input().len() as u64;
-        // bytes for the access list of a transaction
+        // bytes for the access list of a transaction: 20 bytes per address and 32 bytes per storage
+        // key (`AccessListItem::size` depends on the capacity of the vector, not on its content)
         size += tx
             .access_list()
-            .map(|item| item.map(|access| access.size() as u64).sum::<u64>())
+            .map(|items| {
+                items.map(|access| 20 + 32 * access.storage_keys.len() as u64).sum::<u64>()
+            })
             .unwrap_or_default();
         // bytes for the EIP-7702 authorization list of a transaction (101 bytes per authorization)
         size += tx.authorization_list_len() as u64 * AUTHORIZATION_SIZE;
-- 
2.43.0


From 7f69c2eb2c1f086a3914f4ed99aed8f90868b649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:57 +0000
Subject: [PATCH 03/18] fix: account and storage inspection must not follow
 EIP-7702 delegations

The inspection before SSTORE and call-type instructions followed delegations:
a cycle of delegations overflowed the stack, a delegated account's slots were
cached as slots of the account it delegates to, and a value transfer to an
account delegating to an empty one was charged as an account creation.
---
 crates/mega-evm/src/evm/instructions.rs   | 49 ++++++-----------------
 crates/mega-evm/src/limit/state_growth.rs |  3 +-
 2 files changed, 14 insertions(+), 38 deletions(-)

diff --git a/crates/mega-evm/src/evm/instructions.rs b/crates/mega-evm/src/evm/instructions.rs
index 1097b17..c30fb31 100644
--- a/crates/mega-evm/src/evm/instructions.rs
+++ b/crates/mega-evm/src/evm/instructions.rs
@@ -17,8 +17,8 @@ use revm::{
         FrameInput, Instruction, InstructionContext, InstructionResult, InstructionTable,
         InterpreterAction, InterpreterTypes, SStoreResult, Stack,
     },
-    primitives::{hash_map::Entry, StorageKey, KECCAK_EMPTY},
-    state::{Account, Bytecode, EvmStorageSlot},
+    primitives::{hash_map::Entry, StorageKey},
+    state::{Account, EvmStorageSlot},
     Journal,
 };
 
@@ -790,7 +790,7 @@ pub mod storage_gas_ext {
                     return;
                 };
                 let to = to.into_address();
-                let Ok(to_account) = context.host.journal_mut().inspect_account_delegated(to) else {
+                let Ok(to_account) = context.host.journal_mut().inspect_account(to) else {
                     context.interpreter.halt(InstructionResult::FatalExternalError);
                     return;
                 };
@@ -1265,12 +1265,9 @@ pub trait JournalInspectTr {
     /// The database error type.
     type DBError;
 
-    /// Inspect the account at the given address without marking it as warm. If the account is
-    /// EIP-7702 type, it should inspect the delegated account.
-    fn inspect_account_delegated(
-        &mut self,
-        address: Address,
-    ) -> Result<&mut Account, Self::DBError>;
+    /// Inspect the account at the given address without marking it as warm. An EIP-7702 delegation
+    /// of the account is not followed: its balance, nonce and storage are its own.
+    fn inspect_account(&mut self, address: Address) -> Result<&mut Account, Self::DBError>;
 
     /// Inspect the storage at the given address and key without marking it as warm.
     fn inspect_storage(
@@ -1283,20 +1280,10 @@ pub trait JournalInspectTr {
 impl<DB: revm::Database> JournalInspectTr for Journal<DB> {
     type DBError = <DB as revm::Database>::Error;
 
-    fn inspect_account_delegated(
-        &mut self,
-        address: Address,
-    ) -> Result<&mut Account, Self::DBError> {
+    fn inspect_account(&mut self, address: Address) -> Result<&mut Account, Self::DBError> {
         let transaction_id = self.transaction_id;
-        let account = match self.inner.state.entry(address) {
-            Entry::Occupied(entry) => {
-                let account = entry.into_mut();
-                if account.info.code_hash != KECCAK_EMPTY && account.info.code.is_none() {
-                    // Load code if not loaded before
-                    account.info.code = Some(self.database.code_by_hash(account.info.code_hash)?);
-                }
-                account
-            }
+        match self.inner.state.entry(address) {
+            Entry::Occupied(entry) => Ok(entry.into_mut()),
             Entry::Vacant(entry) => {
                 let mut account = self
                     .database
@@ -1306,19 +1293,9 @@ impl<DB: revm::Database> JournalInspectTr for Journal<DB> {
                 // delibrately mark the account as cold since we are only inpecting it, not warming
                 // it.
                 account.mark_cold();
-                entry.insert(account)
+                Ok(entry.insert(account))
             }
-        };
-
-        // If the account is a delegated account, inspect the delegated account.
-        if let Some(Bytecode::Eip7702(code)) = &account.info.code {
-            let address = code.address();
-            return self.inspect_account_delegated(address);
         }
-
-        // Load account again to bypass the borrow checker.
-        let account = self.inner.state.get_mut(&address).unwrap();
-        Ok(account)
     }
 
     fn inspect_storage(
@@ -1327,11 +1304,11 @@ impl<DB: revm::Database> JournalInspectTr for Journal<DB> {
         key: StorageKey,
     ) -> Result<&EvmStorageSlot, Self::DBError> {
         let transaction_id = self.transaction_id;
-        let account = self.inspect_account_delegated(address)?;
+        let account = self.inspect_account(address)?;
         if account.storage.contains_key(&key) {
             // Slot already exists, return reference to it
             // Need to reload account to satisfy borrow checker
-            let account = self.inspect_account_delegated(address)?;
+            let account = self.inspect_account(address)?;
             return Ok(account.storage.get(&key).unwrap());
         }
         // Slot doesn't exist, load from DB and insert
@@ -1340,7 +1317,7 @@ impl<DB: revm::Database> JournalInspectTr for Journal<DB> {
         // delibrately mark the slot as cold since we are only inpecting it, not warming it
         slot.mark_cold();
         // Load account again to bypass the borrow checker and insert the slot
-        let account = self.inspect_account_delegated(address)?;
+        let account = self.inspect_account(address)?;
         account.storage.insert(key, slot);
         // Return reference to the newly inserted slot
         Ok(account.storage.get(&key).expect("slot should exist"))
diff --git a/crates/mega-evm/src/limit/state_growth.rs b/crates/mega-evm/src/limit/state_growth.rs
index e3f2967..6f48c6b 100644
--- a/crates/mega-evm/src/limit/state_growth.rs
+++ b/crates/mega-evm/src/limit/state_growth.rs
@@ -233,8 +233,7 @@ impl StateGrowthTracker {
     ) {
         self.new_frame();
 
-        let to_account =
-            journal.inspect_account_delegated(address).expect("failed to inspect account");
+        let to_account = journal.inspect_account(address).expect("failed to inspect account");
         let is_empty = to_account.state_clear_aware_is_empty(SpecId::PRAGUE);
 
         if is_empty && has_transfer {
-- 
2.43.0


From 559b6f256cab3666794aaa844b2f13c984d83a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:38 +0000
Subject: [PATCH 04/18] fix: a block set with set_block resets the per-block
 bucket state

ContextSetters::set_block replaced the block without the reset that
with_block does, so a reused EVM kept the previous block's cached bucket
multipliers and reported its buckets.
---
 crates/mega-evm/src/evm/context.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/mega-evm/src/evm/context.rs b/crates/mega-evm/src/evm/context.rs
index 6df9ccb..a2957c3 100644
--- a/crates/mega-evm/src/evm/context.rs
+++ b/crates/mega-evm/src/evm/context.rs
@@ -556,9 +556,14 @@ impl<DB: Database, ExtEnvs: ExternalEnvTypes> ContextTr for MegaContext<DB, ExtE
 /// This implementation provides methods to update the context state, with
 /// special handling for transaction updates to reset internal state.
 impl<DB: Database, ExtEnvs: ExternalEnvTypes> ContextSetters for MegaContext<DB, ExtEnvs> {
+    fn set_block(&mut self, block: Self::Block) {
+        self.inner.set_block(block);
+        // Reset internal state for new block, like `with_block` does.
+        self.on_new_block();
+    }
+
     delegate! {
         to self.inner {
-            fn set_block(&mut self, block: Self::Block);
             fn set_tx(&mut self, tx: Self::Tx);
         }
     }
-- 
2.43.0


From f0982fe6930b76f4a8f080f54161a8b534e7b332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:48 +0000
Subject: [PATCH 05/18] fix: reject bytes after the keyless deployment
 transaction

decode_keyless_tx ignored everything after the RLP list, so unsigned trailing
bytes were accepted (and charged to the signer as L1 data) although the
encoding is documented to be rejected as MalformedEncoding.
---
 crates/mega-evm/src/sandbox/tx.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/mega-evm/src/sandbox/tx.rs b/crates/mega-evm/src/sandbox/tx.rs
index b014002..8b4bd5f 100644
--- a/crates/mega-evm/src/sandbox/tx.rs
+++ b/crates/mega-evm/src/sandbox/tx.rs
@@ -50,6 +50,10 @@ pub fn decode_keyless_tx(rlp_bytes: &[u8]) -> Result<Signed<TxLegacy>, KeylessDe
     let mut buf = rlp_bytes;
     let signed =
         TxLegacy::rlp_decode_signed(&mut buf).map_err(|_| KeylessDeployError::MalformedEncoding)?;
+    // The bytes must be exactly the encoded transaction; anything after it is not signed.
+    if !buf.is_empty() {
+        return Err(KeylessDeployError::MalformedEncoding);
+    }
 
     if !signed.tx().to.is_create() {
         return Err(KeylessDeployError::NotContractCreation);
-- 
2.43.0


From ad0e84260e1c52bc55258f18545aec0586c94522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:48 +0000
Subject: [PATCH 06/18] fix: keep sandbox changes of accounts the outer
 transaction already loaded

apply_sandbox_state merges the sandbox state without account status. An account
already in the parent journal but not touched (e.g. listed in the access list)
therefore lost the sandbox's changes on commit: the signer was not charged, the
deployed contract vanished.
---
 crates/mega-evm/src/sandbox/execution.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/mega-evm/src/sandbox/execution.rs b/crates/mega-evm/src/sandbox/execution.rs
index d9bf1dd..c3be374 100644
--- a/crates/mega-evm/src/sandbox/execution.rs
+++ b/crates/mega-evm/src/sandbox/execution.rs
@@ -431,6 +431,17 @@ fn apply_sandbox_state<DB: alloy_evm::Database, ExtEnvs: ExternalEnvTypes>(
     // Merge the sandbox state into the parent journal
     merge_evm_state_optional_status(&mut journal.state, &sandbox_state, false);
 
+    // An account that the outer transaction has loaded already (e.g., through its access list)
+    // keeps its status in the merge. It must still be marked as touched if the sandbox touched it,
+    // otherwise its changes would be dropped when the state is committed.
+    for (address, account) in &sandbox_state {
+        if account.is_touched() {
+            if let Some(parent_account) = journal.state.get_mut(address) {
+                parent_account.mark_touch();
+            }
+        }
+    }
+
     Ok(())
 }
 
-- 
2.43.0


From 2a1b564cdc4b3128777c4cbe8cf3db1da1445026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:44 +0000
Subject: [PATCH 07/18] fix: refund the remaining gas when the keyless overhead
 exceeds the compute gas limit

The halted call spent its whole gas limit because no frame result with remaining
gas reaches the limit tracker on this path; exceeded limits are documented to
leave the remaining gas to the sender.
---
 crates/mega-evm/src/sandbox/execution.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/mega-evm/src/sandbox/execution.rs b/crates/mega-evm/src/sandbox/execution.rs
index c3be374..ea0a304 100644
--- a/crates/mega-evm/src/sandbox/execution.rs
+++ b/crates/mega-evm/src/sandbox/execution.rs
@@ -159,6 +159,8 @@ pub fn execute_keyless_deploy_call<DB: alloy_evm::Database, ExtEnvs: ExternalEnv
     if ctx.spec.is_enabled(MegaSpecId::REX3) {
         let mut limit = ctx.additional_limit.borrow_mut();
         if limit.record_compute_gas(cost).exceeded_limit() {
+            // The remaining gas goes back to the sender, as with every other exceeded limit.
+            limit.rescue_gas(&gas);
             let mut result = make_halt!();
             mark_frame_result_as_exceeding_limit(&mut result);
             return result;
-- 
2.43.0


From 60140f0dd116b4db4e277db0d321a5c1c5efc472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:19 +0000
Subject: [PATCH 08/18] fix: keyless deployment init code sees the chain id of
 the chain it runs on

The sandbox context was built with the default configuration, so CHAINID
returned 1 whatever chain the outer transaction ran on.
---
 crates/mega-evm/src/sandbox/execution.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/mega-evm/src/sandbox/execution.rs b/crates/mega-evm/src/sandbox/execution.rs
index ea0a304..24ddd4a 100644
--- a/crates/mega-evm/src/sandbox/execution.rs
+++ b/crates/mega-evm/src/sandbox/execution.rs
@@ -30,9 +30,9 @@ use mega_system_contracts::keyless_deploy::IKeylessDeploy;
 use revm::{
     context::{
         result::{ExecutionResult, ResultAndState},
-        ContextTr, TxEnv,
+        CfgEnv, ContextTr, TxEnv,
     },
-    context_interface::Transaction,
+    context_interface::{Cfg, Transaction},
     handler::FrameResult,
     interpreter::{CallOutcome, Gas, Host, InstructionResult, InterpreterResult},
     primitives::KECCAK_EMPTY,
@@ -222,6 +222,8 @@ pub fn execute_keyless_deploy_call<DB: alloy_evm::Database, ExtEnvs: ExternalEnv
             gas_limit: gas_limit_override_u64,
             gas_price: keyless_tx.effective_gas_price(None),
             nonce: 0,
+            // a pre-EIP-155 transaction is not bound to a chain
+            chain_id: None,
             ..Default::default()
         };
         let mut mega_tx = MegaTransaction::new(tx);
@@ -312,6 +314,9 @@ pub fn execute_keyless_deploy_sandbox<DB: alloy_evm::Database, ExtEnvs: External
     let mega_spec = ctx.mega_spec();
     let block = ctx.block().clone();
     let chain = ctx.chain().clone();
+    // The init code must see the chain it is deployed on
+    let mut cfg = CfgEnv::new_with_spec(mega_spec);
+    cfg.chain_id = ctx.cfg().chain_id();
     let journal = ctx.journal_mut();
 
     // Create type-erased sandbox database with split borrows:
@@ -340,6 +345,7 @@ pub fn execute_keyless_deploy_sandbox<DB: alloy_evm::Database, ExtEnvs: External
         // SandboxDb is a concrete type, so MegaContext<SandboxDb, ...> doesn't recurse.
         // Disable sandbox interception to prevent recursive sandbox creation.
         let sandbox_ctx = MegaContext::new(sandbox_db, mega_spec)
+            .with_cfg(cfg)
             .with_block(block)
             .with_chain(chain)
             .with_sandbox_disabled(true);
-- 
2.43.0


From b8319652b540cfb7175812df613615efb854daf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:23 +0000
Subject: [PATCH 09/18] fix: compare against the remaining block allowance so
 sums cannot overflow

---
 crates/mega-evm/src/block/limit.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/mega-evm/src/block/limit.rs b/crates/mega-evm/src/block/limit.rs
index 4a5ef65..28476e4 100644
--- a/crates/mega-evm/src/block/limit.rs
+++ b/crates/mega-evm/src/block/limit.rs
@@ -794,11 +794,12 @@ impl BlockLimiter {
         }
 
         // Check block gas limit
-        if self.block_gas_used + gas_limit > self.limits.block_gas_limit {
+        let block_available_gas = self.limits.block_gas_limit.saturating_sub(self.block_gas_used);
+        if gas_limit > block_available_gas {
             return Err(BlockExecutionError::Validation(
                 BlockValidationError::TransactionGasLimitMoreThanAvailableBlockGas {
                     transaction_gas_limit: gas_limit,
-                    block_available_gas: self.limits.block_gas_limit - self.block_gas_used,
+                    block_available_gas,
                 },
             ));
         }
@@ -815,7 +816,9 @@ impl BlockLimiter {
         }
 
         // Check block transaction size limit
-        if tx_size + self.block_tx_size_used > self.limits.block_txs_encode_size_limit {
+        if tx_size >
+            self.limits.block_txs_encode_size_limit.saturating_sub(self.block_tx_size_used)
+        {
             return Err(BlockExecutionError::Validation(BlockValidationError::InvalidTx {
                 hash: tx_hash,
                 error: Box::new(MegaBlockLimitExceededError::TransactionEncodeSizeLimit {
@@ -840,7 +843,7 @@ impl BlockLimiter {
             }
 
             // Check block data availability size limit
-            if da_size + self.block_da_size_used > self.limits.block_da_size_limit {
+            if da_size > self.limits.block_da_size_limit.saturating_sub(self.block_da_size_used) {
                 return Err(BlockExecutionError::Validation(BlockValidationError::InvalidTx {
                     hash: tx_hash,
                     error: Box::new(MegaBlockLimitExceededError::DataAvailabilitySizeLimit {
-- 
2.43.0


From f970a5f1b8519e26a7f5872498e4f1c9cc0d5d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:32 +0000
Subject: [PATCH 10/18] fix: do not lose changes to an account destroyed by an
 earlier merged transaction

merge_evm_state kept the SelfDestructed status of the base account when a later
transaction only touched it (a value transfer), so the funds vanished on commit, and
kept the destroyed storage when the account was created again.
---
 crates/mega-evm/src/evm/state.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/mega-evm/src/evm/state.rs b/crates/mega-evm/src/evm/state.rs
index 8a6d271..b9d11fe 100644
--- a/crates/mega-evm/src/evm/state.rs
+++ b/crates/mega-evm/src/evm/state.rs
@@ -118,6 +118,15 @@ pub fn merge_evm_state_optional_status(this: &mut EvmState, other: &EvmState, me
             }
             Entry::Occupied(mut v) => {
                 let this_account = v.get_mut();
+                if merge_status && account.is_touched() && this_account.is_selfdestructed() {
+                    // `this` has destroyed the account. What `other` changes is an empty account, so
+                    // neither the destruction nor the destroyed storage may outlive the merge.
+                    let mut empty_account = Account::default().with_touched_mark();
+                    if this_account.status.contains(AccountStatus::Cold) {
+                        empty_account.mark_cold();
+                    }
+                    *this_account = empty_account;
+                }
                 merge_account_state(this_account, account, merge_status);
             }
         }
-- 
2.43.0


From d2176adc555944a34edb113df1ed10f2d6b329ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:29 +0000
Subject: [PATCH 11/18] fix: report failed database and bucket capacity reads
 instead of panicking or assuming zero

---
 crates/mega-evm/src/evm/execution.rs      |  2 +-
 crates/mega-evm/src/evm/instructions.rs   | 76 ++++++++++++++---------
 crates/mega-evm/src/limit/mod.rs          |  8 +--
 crates/mega-evm/src/limit/state_growth.rs |  8 ++-
 4 files changed, 55 insertions(+), 39 deletions(-)

diff --git a/crates/mega-evm/src/evm/execution.rs b/crates/mega-evm/src/evm/execution.rs
index 846f339..ea0e82f 100644
--- a/crates/mega-evm/src/evm/execution.rs
+++ b/crates/mega-evm/src/evm/execution.rs
@@ -667,7 +667,7 @@ where
         if is_mini_rex_enabled &&
             additional_limit
                 .borrow_mut()
-                .before_frame_init(&frame_init, self.ctx().journal_mut())
+                .before_frame_init(&frame_init, self.ctx().journal_mut())?
                 .exceeded_limit()
         {
             // if the limit is exceeded, create an error frame result and return it directly
diff --git a/crates/mega-evm/src/evm/instructions.rs b/crates/mega-evm/src/evm/instructions.rs
index c30fb31..408a42c 100644
--- a/crates/mega-evm/src/evm/instructions.rs
+++ b/crates/mega-evm/src/evm/instructions.rs
@@ -1,4 +1,7 @@
+#[cfg(not(feature = "std"))]
+use alloc as std;
 use core::cmp::min;
+use std::format;
 
 use crate::{
     constants::{self},
@@ -7,7 +10,7 @@ use crate::{
 use alloy_evm::Database;
 use alloy_primitives::{keccak256, Address, U256};
 use revm::{
-    context::{ContextTr, JournalTr},
+    context::{ContextError, ContextTr, JournalTr},
     handler::instructions::{EthInstructions, InstructionProvider},
     interpreter::{
         as_usize_or_fail, gas, gas_or_fail,
@@ -221,6 +224,21 @@ macro_rules! compute_gas {
     };
 }
 
+/// Macro to halt because the database or the bucket capacities cannot be read. The error is
+/// recorded in the context, from where it is returned as the error of the whole execution.
+macro_rules! fatal_external_error {
+    ($context:expr, $error:expr) => {{
+        *$context.host.error() = Err($error);
+        $context.interpreter.halt(InstructionResult::FatalExternalError);
+        return;
+    }};
+}
+
+/// The error to report when the storage gas of an address cannot be determined.
+fn storage_gas_error<DBError>(address: Address) -> ContextError<DBError> {
+    ContextError::Custom(format!("Failed to get storage gas for address: {address}"))
+}
+
 /// Macro to run the inner instruction and abort if the instruction result is an error.
 macro_rules! run_inner_instruction_or_abort {
     ($inner_fn:path, $context:expr) => {
@@ -694,9 +712,10 @@ pub mod additional_limit_ext {
             return;
         };
         let storage_slot = context.host.journal_mut().inspect_storage(target_address, index);
-        let (original_value, present_value) = storage_slot
-            .map(|slot| (slot.original_value(), slot.present_value()))
-            .unwrap_or_default();
+        let (original_value, present_value) = match storage_slot {
+            Ok(slot) => (slot.original_value(), slot.present_value()),
+            Err(e) => fatal_external_error!(context, ContextError::Db(e)),
+        };
         let Some(new_value) = context.interpreter.stack.inspect::<1>() else {
             context.interpreter.halt(InstructionResult::StackUnderflow);
             return;
@@ -790,11 +809,10 @@ pub mod storage_gas_ext {
                     return;
                 };
                 let to = to.into_address();
-                let Ok(to_account) = context.host.journal_mut().inspect_account(to) else {
-                    context.interpreter.halt(InstructionResult::FatalExternalError);
-                    return;
+                let is_empty = match context.host.journal_mut().inspect_account(to) {
+                    Ok(to_account) => to_account.state_clear_aware_is_empty(spec),
+                    Err(e) => fatal_external_error!(context, ContextError::Db(e)),
                 };
-                let is_empty = to_account.state_clear_aware_is_empty(spec);
                 let has_transfer = if $has_transfer_logic {
                     let Some(value) =context.interpreter.stack.inspect::<2>() else {
                         context.interpreter.halt(InstructionResult::StackUnderflow);
@@ -807,8 +825,7 @@ pub mod storage_gas_ext {
                 // Charge additional storage gas cost for creating a new account
                 if is_empty && has_transfer {
                     let Ok(new_account_storage_gas) = context.host.new_account_storage_gas(to) else {
-                        context.interpreter.halt(InstructionResult::FatalExternalError);
-                        return;
+                        fatal_external_error!(context, storage_gas_error(to));
                     };
                     gas!(context.interpreter, new_account_storage_gas);
                 }
@@ -855,9 +872,9 @@ pub mod storage_gas_ext {
         let creator_address = context.interpreter.input.target_address();
         // Load the creator account from the journal, this must not be cold loaded since the creator
         // must have been warmed when the current frame begins.
-        let Ok(creator) = context.host.journal_mut().load_account(creator_address) else {
-            context.interpreter.halt(InstructionResult::FatalExternalError);
-            return;
+        let creator_nonce = match context.host.journal_mut().load_account(creator_address) {
+            Ok(creator) => creator.data.info.nonce,
+            Err(e) => fatal_external_error!(context, ContextError::Db(e)),
         };
 
         // Calculate the created address
@@ -896,7 +913,7 @@ pub mod storage_gas_ext {
 
             creator_address.create2(salt.to_be_bytes(), initcode_hash)
         } else {
-            creator_address.create(creator.data.info.nonce)
+            creator_address.create(creator_nonce)
         };
 
         // Charge storage gas cost for creating a new contract
@@ -908,8 +925,7 @@ pub mod storage_gas_ext {
             context.host.new_account_storage_gas(created_address)
         };
         let Ok(create_contract_storage_gas) = create_contract_storage_gas else {
-            context.interpreter.halt(InstructionResult::FatalExternalError);
-            return;
+            fatal_external_error!(context, storage_gas_error(created_address));
         };
         gas!(context.interpreter, create_contract_storage_gas);
 
@@ -1007,9 +1023,10 @@ pub mod storage_gas_ext {
         };
         // The storage slot values
         let storage_slot = context.host.journal_mut().inspect_storage(target_address, index);
-        let (original_value, present_value) = storage_slot
-            .map(|slot| (slot.original_value(), slot.present_value()))
-            .unwrap_or_default();
+        let (original_value, present_value) = match storage_slot {
+            Ok(slot) => (slot.original_value(), slot.present_value()),
+            Err(e) => fatal_external_error!(context, ContextError::Db(e)),
+        };
         let Some(new_value) = context.interpreter.stack.inspect::<1>() else {
             context.interpreter.halt(InstructionResult::StackUnderflow);
             return;
@@ -1020,8 +1037,7 @@ pub mod storage_gas_ext {
             let Ok(sstore_set_storage_gas) =
                 context.host.sstore_set_storage_gas(target_address, index)
             else {
-                context.interpreter.halt(InstructionResult::FatalExternalError);
-                return;
+                fatal_external_error!(context, storage_gas_error(target_address));
             };
             gas!(context.interpreter, sstore_set_storage_gas);
         }
@@ -1261,26 +1277,24 @@ impl StackInspectTr for Stack {
 /// loaded from the database and cached in the journal. However, since we explicitly mark the
 /// account or storage slot as cold, this pre-loading before executing the original instruction will
 /// make no difference on gas cost.
-pub trait JournalInspectTr {
-    /// The database error type.
-    type DBError;
-
+pub trait JournalInspectTr: JournalTr {
     /// Inspect the account at the given address without marking it as warm. An EIP-7702 delegation
     /// of the account is not followed: its balance, nonce and storage are its own.
-    fn inspect_account(&mut self, address: Address) -> Result<&mut Account, Self::DBError>;
+    fn inspect_account(
+        &mut self,
+        address: Address,
+    ) -> Result<&mut Account, <Self::Database as revm::Database>::Error>;
 
     /// Inspect the storage at the given address and key without marking it as warm.
     fn inspect_storage(
         &mut self,
         address: Address,
         key: StorageKey,
-    ) -> Result<&EvmStorageSlot, Self::DBError>;
+    ) -> Result<&EvmStorageSlot, <Self::Database as revm::Database>::Error>;
 }
 
 impl<DB: revm::Database> JournalInspectTr for Journal<DB> {
-    type DBError = <DB as revm::Database>::Error;
-
-    fn inspect_account(&mut self, address: Address) -> Result<&mut Account, Self::DBError> {
+    fn inspect_account(&mut self, address: Address) -> Result<&mut Account, DB::Error> {
         let transaction_id = self.transaction_id;
         match self.inner.state.entry(address) {
             Entry::Occupied(entry) => Ok(entry.into_mut()),
@@ -1302,7 +1316,7 @@ impl<DB: revm::Database> JournalInspectTr for Journal<DB> {
         &mut self,
         address: Address,
         key: StorageKey,
-    ) -> Result<&EvmStorageSlot, Self::DBError> {
+    ) -> Result<&EvmStorageSlot, DB::Error> {
         let transaction_id = self.transaction_id;
         let account = self.inspect_account(address)?;
         if account.storage.contains_key(&key) {
diff --git a/crates/mega-evm/src/limit/mod.rs b/crates/mega-evm/src/limit/mod.rs
index 763e42a..e931cde 100644
--- a/crates/mega-evm/src/limit/mod.rs
+++ b/crates/mega-evm/src/limit/mod.rs
@@ -415,11 +415,11 @@ impl AdditionalLimit {
     }
 
     /// Hook called before a new execution frame is initialized.
-    pub(crate) fn before_frame_init<JOURNAL: JournalInspectTr<DBError: core::fmt::Debug>>(
+    pub(crate) fn before_frame_init<JOURNAL: JournalInspectTr>(
         &mut self,
         frame_init: &FrameInit,
         journal: &mut JOURNAL,
-    ) -> AdditionalLimitResult {
+    ) -> Result<AdditionalLimitResult, <JOURNAL::Database as revm::Database>::Error> {
         match &frame_init.frame_input {
             FrameInput::Empty => unreachable!(),
             FrameInput::Call(call_inputs) => {
@@ -433,7 +433,7 @@ impl AdditionalLimit {
                     journal,
                     call_inputs.target_address,
                     has_transfer,
-                );
+                )?;
             }
             FrameInput::Create(_) => {
                 // new frame in data size tracker
@@ -445,7 +445,7 @@ impl AdditionalLimit {
             }
         }
 
-        self.check_limit()
+        Ok(self.check_limit())
     }
 
     /// Hook called when a new execution frame is successfully initialized in `frame_init` and needs
diff --git a/crates/mega-evm/src/limit/state_growth.rs b/crates/mega-evm/src/limit/state_growth.rs
index 6f48c6b..f75b014 100644
--- a/crates/mega-evm/src/limit/state_growth.rs
+++ b/crates/mega-evm/src/limit/state_growth.rs
@@ -225,21 +225,23 @@ impl StateGrowthTracker {
     ///
     /// This implements EIP-161's account clearing rules. Calls without value transfer
     /// to empty accounts do not create an account and thus don't count toward state growth.
-    pub(crate) fn record_call<JOURNAL: JournalInspectTr<DBError: core::fmt::Debug>>(
+    pub(crate) fn record_call<JOURNAL: JournalInspectTr>(
         &mut self,
         journal: &mut JOURNAL,
         address: Address,
         has_transfer: bool,
-    ) {
+    ) -> Result<(), <JOURNAL::Database as revm::Database>::Error> {
         self.new_frame();
 
-        let to_account = journal.inspect_account(address).expect("failed to inspect account");
+        let to_account = journal.inspect_account(address)?;
         let is_empty = to_account.state_clear_aware_is_empty(SpecId::PRAGUE);
 
         if is_empty && has_transfer {
             self.total_growth += 1;
             self.update_current_frame_discardable_size(1);
         }
+
+        Ok(())
     }
 
     /// Records the new account creation.
-- 
2.43.0


From b08527541ae31d3d7c857ef72e0599fd4e2ba31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:29 +0000
Subject: [PATCH 12/18] fix: do not leave a database error for the next
 transaction

---
 crates/mega-evm/src/evm/execution.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/mega-evm/src/evm/execution.rs b/crates/mega-evm/src/evm/execution.rs
index ea0e82f..9c623a9 100644
--- a/crates/mega-evm/src/evm/execution.rs
+++ b/crates/mega-evm/src/evm/execution.rs
@@ -489,6 +489,8 @@ where
         evm: &mut Self::Evm,
         error: Self::Error,
     ) -> Result<ExecutionResult<Self::HaltReason>, Self::Error> {
+        // An external error is reported by `error`, it must not be left for the next transaction.
+        *evm.ctx().error() = Ok(());
         let result = self.op.catch_error(evm, error)?;
         Ok(result.map_haltreason(MegaHaltReason::Base))
     }
-- 
2.43.0


From f13e9967723f56d31794a51976d2794928bb6067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:29 +0000
Subject: [PATCH 13/18] fix: a failed database read aborts a keyless deployment
 instead of reverting it

---
 crates/mega-evm/src/sandbox/execution.rs | 48 +++++++++++++++---------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/crates/mega-evm/src/sandbox/execution.rs b/crates/mega-evm/src/sandbox/execution.rs
index 24ddd4a..76b7226 100644
--- a/crates/mega-evm/src/sandbox/execution.rs
+++ b/crates/mega-evm/src/sandbox/execution.rs
@@ -29,8 +29,8 @@ use alloy_sol_types::SolCall;
 use mega_system_contracts::keyless_deploy::IKeylessDeploy;
 use revm::{
     context::{
-        result::{ExecutionResult, ResultAndState},
-        CfgEnv, ContextTr, TxEnv,
+        result::{EVMError, ExecutionResult, ResultAndState},
+        CfgEnv, ContextError, ContextTr, TxEnv,
     },
     context_interface::{Cfg, Transaction},
     handler::FrameResult,
@@ -233,16 +233,12 @@ pub fn execute_keyless_deploy_call<DB: alloy_evm::Database, ExtEnvs: ExternalEnv
 
     // Step 7: Check deploy address doesn't already have code
     {
-        let deploy_account = ctx
-            .journal_mut()
-            .database
-            .basic(deploy_address)
-            .map_err(|e| KeylessDeployError::InternalError(e.to_string()));
+        let deploy_account = ctx.journal_mut().database.basic(deploy_address);
         match deploy_account {
             Ok(Some(info)) if info.code_hash != KECCAK_EMPTY => {
                 return make_error!(KeylessDeployError::ContractAlreadyExists);
             }
-            Err(e) => return make_error!(e),
+            Err(e) => return make_error!(database_error(ctx, e)),
             _ => {}
         }
     }
@@ -327,10 +323,13 @@ pub fn execute_keyless_deploy_sandbox<DB: alloy_evm::Database, ExtEnvs: External
         .with_nonce_override(deploy_signer);
 
     // Check signer balance
-    let signer_account = sandbox_db
-        .basic(deploy_signer)
-        .map_err(|e| KeylessDeployError::InternalError(e.to_string()))?
-        .unwrap_or_default();
+    let signer_account = match sandbox_db.basic(deploy_signer) {
+        Ok(account) => account.unwrap_or_default(),
+        Err(e) => {
+            drop(sandbox_db);
+            return Err(database_error(ctx, e));
+        }
+    };
 
     // Ensure signer has enough balance to cover gas cost and value
     let gas_cost = U256::from(gas_limit) * U256::from(gas_price);
@@ -389,6 +388,10 @@ pub fn execute_keyless_deploy_sandbox<DB: alloy_evm::Database, ExtEnvs: External
                     error: KeylessDeployError::ExecutionHalted { gas_used, reason },
                 }),
             },
+            Err(EVMError::Database(e)) => {
+                drop(sandbox_evm);
+                Err(database_error(ctx, e))
+            }
             Err(e) => Err(KeylessDeployError::InternalError(e.to_string())),
         }
     };
@@ -461,10 +464,19 @@ fn get_account_nonce<DB: alloy_evm::Database, ExtEnvs: ExternalEnvTypes>(
     if let Some(acc) = journal.state.get(&address) {
         return Ok(acc.info.nonce);
     }
-    Ok(journal
-        .database
-        .basic(address)
-        .map_err(|e| KeylessDeployError::InternalError(e.to_string()))?
-        .map(|info| info.nonce)
-        .unwrap_or(0))
+    match journal.database.basic(address) {
+        Ok(info) => Ok(info.map(|info| info.nonce).unwrap_or(0)),
+        Err(e) => Err(database_error(ctx, e)),
+    }
+}
+
+/// Records a failure to read the database in the context, from where it is returned as the error of
+/// the whole transaction: it says nothing about the keyless deployment, whose outcome is unknown.
+fn database_error<DB: alloy_evm::Database, ExtEnvs: ExternalEnvTypes>(
+    ctx: &mut MegaContext<DB, ExtEnvs>,
+    error: impl ToString,
+) -> KeylessDeployError {
+    let error = error.to_string();
+    *ctx.error() = Err(ContextError::Custom(error.clone()));
+    KeylessDeployError::InternalError(error)
 }
-- 
2.43.0


From e8921a26a8cb9326e1f7b3b13e6b59263e31e1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:29 +0000
Subject: [PATCH 14/18] fix: clear the journal after an inspected transaction
 failed

---
 crates/mega-evm/src/evm/interfaces.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/crates/mega-evm/src/evm/interfaces.rs b/crates/mega-evm/src/evm/interfaces.rs
index 411fb3e..e02552f 100644
--- a/crates/mega-evm/src/evm/interfaces.rs
+++ b/crates/mega-evm/src/evm/interfaces.rs
@@ -171,6 +171,25 @@ where
         let mut h = MegaHandler::<_, _, EthFrame<EthInterpreter>>::new();
         revm::inspector::InspectorHandler::inspect_run(&mut h, self)
     }
+
+    fn inspect_tx(
+        &mut self,
+        tx: Self::Tx,
+    ) -> Result<ExecResultAndState<Self::ExecutionResult, Self::State>, Self::Error> {
+        let output = self.inspect_one_tx(tx);
+        // As in `transact`, the journal is cleared whether or not the execution failed
+        let state = revm::ExecuteEvm::finalize(self);
+        Ok(ExecResultAndState::new(output?, state))
+    }
+
+    fn inspect(
+        &mut self,
+        tx: Self::Tx,
+        inspector: Self::Inspector,
+    ) -> Result<ExecResultAndState<Self::ExecutionResult, Self::State>, Self::Error> {
+        self.set_inspector(inspector);
+        self.inspect_tx(tx)
+    }
 }
 
 impl<DB, INSP, ExtEnvs: ExternalEnvTypes> revm::InspectCommitEvm for MegaEvm<DB, INSP, ExtEnvs>
-- 
2.43.0


From 60ee3b88ed11b5840c6ddd7cf00622386ce6d89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:47 +0000
Subject: [PATCH 15/18] fix: CREATE2 with empty init code accepts any offset

---
 crates/mega-evm/src/evm/instructions.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/mega-evm/src/evm/instructions.rs b/crates/mega-evm/src/evm/instructions.rs
index 408a42c..c359fa5 100644
--- a/crates/mega-evm/src/evm/instructions.rs
+++ b/crates/mega-evm/src/evm/instructions.rs
@@ -887,8 +887,13 @@ pub mod storage_gas_ext {
                 context.interpreter.halt(InstructionResult::StackUnderflow);
                 return;
             };
-            let initcode_offset = as_usize_or_fail!(context.interpreter, initcode_offset);
             let initcode_len = as_usize_or_fail!(context.interpreter, initcode_len);
+            // The offset of empty init code is not used and may have any value.
+            let initcode_offset = if initcode_len == 0 {
+                0
+            } else {
+                as_usize_or_fail!(context.interpreter, initcode_offset)
+            };
             // The init code may reach beyond the current memory, which is only expanded (and paid
             // for) by the inner instruction: the bytes beyond it are zero. Oversized init code is
             // rejected here in the same way as in the inner instruction.
-- 
2.43.0


From b170c55993308218e77fcaac67a797b0efbb1e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:36 +0000
Subject: [PATCH 16/18] fix: MegaContext::new_with_context on block 0
 underflowed the parent block number

The other constructors and setters saturate.
---
 crates/mega-evm/src/evm/context.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mega-evm/src/evm/context.rs b/crates/mega-evm/src/evm/context.rs
index a2957c3..fd51d49 100644
--- a/crates/mega-evm/src/evm/context.rs
+++ b/crates/mega-evm/src/evm/context.rs
@@ -168,7 +168,7 @@ impl<DB: Database, ExtEnvTypes: ExternalEnvTypes> MegaContext<DB, ExtEnvTypes> {
             dynamic_storage_gas_cost: Rc::new(RefCell::new(DynamicGasCost::new(
                 spec,
                 external_envs.salt_env,
-                inner.block.number.to::<u64>() - 1,
+                inner.block.number.to::<u64>().saturating_sub(1),
             ))),
             oracle_env: Rc::new(RefCell::new(external_envs.oracle_env)),
             volatile_data_tracker: Rc::new(RefCell::new(VolatileDataAccessTracker::new(
-- 
2.43.0


From 0fdd359a0c2e2d1465aaa3cec449f2ec1c4997c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:36 +0000
Subject: [PATCH 17/18] fix: MegaContext::with_cfg kept pricing storage for the
 spec it replaced

with_cfg switches the context to the spec of the given configuration, but the dynamic storage gas
calculator kept the spec it was created with, so storage gas was charged by another spec's rules
unless with_external_envs was called afterwards.
---
 crates/mega-evm/src/evm/context.rs  | 1 +
 crates/mega-evm/src/external/gas.rs | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/crates/mega-evm/src/evm/context.rs b/crates/mega-evm/src/evm/context.rs
index fd51d49..1c1de92 100644
--- a/crates/mega-evm/src/evm/context.rs
+++ b/crates/mega-evm/src/evm/context.rs
@@ -256,6 +256,7 @@ impl<DB: Database, ExtEnvTypes: ExternalEnvTypes> MegaContext<DB, ExtEnvTypes> {
     /// Returns `self` for method chaining.
     pub fn with_cfg(mut self, cfg: CfgEnv<MegaSpecId>) -> Self {
         self.spec = cfg.spec;
+        self.dynamic_storage_gas_cost.borrow_mut().set_spec(cfg.spec);
         self.inner = self.inner.with_cfg(cfg.into_op_cfg());
         if self.spec.is_enabled(MegaSpecId::MINI_REX) {
             if self.inner.cfg.limit_contract_code_size.is_none() {
diff --git a/crates/mega-evm/src/external/gas.rs b/crates/mega-evm/src/external/gas.rs
index 8bfadfc..a092722 100644
--- a/crates/mega-evm/src/external/gas.rs
+++ b/crates/mega-evm/src/external/gas.rs
@@ -111,6 +111,11 @@ impl<SaltEnvImpl: SaltEnv> DynamicGasCost<SaltEnvImpl> {
 }
 
 impl<SaltEnvImpl: SaltEnv> DynamicGasCost<SaltEnvImpl> {
+    /// Prices storage according to the given spec from now on.
+    pub(crate) fn set_spec(&mut self, spec: MegaSpecId) {
+        self.spec = spec;
+    }
+
     pub(crate) fn on_new_block(&mut self, block: &BlockEnv) {
         self.reset(block.number.to::<u64>().saturating_sub(1));
     }
-- 
2.43.0


From e742d559e01866e39a3e47072884595b17a6f448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:27 +0000
Subject: [PATCH 18/18] fix: charge a keyless deployment's signer the L1 fee of
 its own transaction

---
 crates/mega-evm/src/sandbox/execution.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/mega-evm/src/sandbox/execution.rs b/crates/mega-evm/src/sandbox/execution.rs
index 76b7226..8a28f54 100644
--- a/crates/mega-evm/src/sandbox/execution.rs
+++ b/crates/mega-evm/src/sandbox/execution.rs
@@ -309,7 +309,9 @@ pub fn execute_keyless_deploy_sandbox<DB: alloy_evm::Database, ExtEnvs: External
     // Extract values we need BEFORE borrowing the journal
     let mega_spec = ctx.mega_spec();
     let block = ctx.block().clone();
-    let chain = ctx.chain().clone();
+    let mut chain = ctx.chain().clone();
+    // The signer pays the L1 fee of its own transaction, not the cached one of the outer
+    chain.clear_tx_l1_cost();
     // The init code must see the chain it is deployed on
     let mut cfg = CfgEnv::new_with_spec(mega_spec);
     cfg.chain_id = ctx.cfg().chain_id();
-- 
2.43.0

