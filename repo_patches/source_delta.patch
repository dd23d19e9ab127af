From 7040696673e4a9c92ab619deba0173163989c0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:28 +0000
Subject: [PATCH 01/25] fix: storage-gas and state-growth inspection must look
 at the account itself

The inspection used to follow EIP-7702 delegations, so SSTORE in a delegated account was charged
for a slot of the delegate, a value transfer to a delegated account was charged (and counted) as
an account creation when the delegate was empty, and a delegation cycle overflowed the stack. It
also marked precompiles and the coinbase cold, which made the following call pay for a cold
access.
---
 crates/mega-evm/src/evm/instructions.rs   | 56 ++++++++---------------
 crates/mega-evm/src/limit/state_growth.rs |  3 +-
 2 files changed, 21 insertions(+), 38 deletions(-)

diff --git a/crates/mega-evm/src/evm/instructions.rs b/crates/mega-evm/src/evm/instructions.rs
index 805c1a5..399ee2a 100644
--- a/crates/mega-evm/src/evm/instructions.rs
+++ b/crates/mega-evm/src/evm/instructions.rs
@@ -17,8 +17,8 @@ use revm::{
         FrameInput, Instruction, InstructionContext, InstructionResult, InstructionTable,
         InterpreterAction, InterpreterTypes, SStoreResult, Stack,
     },
-    primitives::{hash_map::Entry, StorageKey, KECCAK_EMPTY},
-    state::{Account, Bytecode, EvmStorageSlot},
+    primitives::{hash_map::Entry, StorageKey},
+    state::{Account, EvmStorageSlot},
     Journal,
 };
 
@@ -790,7 +790,7 @@ pub mod storage_gas_ext {
                     return;
                 };
                 let to = to.into_address();
-                let Ok(to_account) = context.host.journal_mut().inspect_account_delegated(to) else {
+                let Ok(to_account) = context.host.journal_mut().inspect_account(to) else {
                     context.interpreter.halt(InstructionResult::FatalExternalError);
                     return;
                 };
@@ -1253,12 +1253,9 @@ pub trait JournalInspectTr {
     /// The database error type.
     type DBError;
 
-    /// Inspect the account at the given address without marking it as warm. If the account is
-    /// EIP-7702 type, it should inspect the delegated account.
-    fn inspect_account_delegated(
-        &mut self,
-        address: Address,
-    ) -> Result<&mut Account, Self::DBError>;
+    /// Inspect the account at the given address without changing its warmth. An EIP-7702 delegation
+    /// is not followed: the account that holds the balance, nonce and storage is inspected.
+    fn inspect_account(&mut self, address: Address) -> Result<&mut Account, Self::DBError>;
 
     /// Inspect the storage at the given address and key without marking it as warm.
     fn inspect_storage(
@@ -1271,41 +1268,28 @@ pub trait JournalInspectTr {
 impl<DB: revm::Database> JournalInspectTr for Journal<DB> {
     type DBError = <DB as revm::Database>::Error;
 
-    fn inspect_account_delegated(
-        &mut self,
-        address: Address,
-    ) -> Result<&mut Account, Self::DBError> {
+    fn inspect_account(&mut self, address: Address) -> Result<&mut Account, Self::DBError> {
         let transaction_id = self.transaction_id;
         let account = match self.inner.state.entry(address) {
-            Entry::Occupied(entry) => {
-                let account = entry.into_mut();
-                if account.info.code_hash != KECCAK_EMPTY && account.info.code.is_none() {
-                    // Load code if not loaded before
-                    account.info.code = Some(self.database.code_by_hash(account.info.code_hash)?);
-                }
-                account
-            }
+            Entry::Occupied(entry) => entry.into_mut(),
             Entry::Vacant(entry) => {
                 let mut account = self
                     .database
                     .basic(address)?
                     .map(|info| info.into())
                     .unwrap_or_else(|| Account::new_not_existing(transaction_id));
-                // delibrately mark the account as cold since we are only inpecting it, not warming
-                // it.
-                account.mark_cold();
+                // Deliberately mark the account as cold since we are only inspecting it, not
+                // warming it. Precompiles and the coinbase are warm from the start.
+                let is_preloaded = self.inner.warm_preloaded_addresses.contains(&address) ||
+                    self.inner.warm_coinbase_address == Some(address);
+                if is_preloaded {
+                    account.mark_warm_with_transaction_id(transaction_id);
+                } else {
+                    account.mark_cold();
+                }
                 entry.insert(account)
             }
         };
-
-        // If the account is a delegated account, inspect the delegated account.
-        if let Some(Bytecode::Eip7702(code)) = &account.info.code {
-            let address = code.address();
-            return self.inspect_account_delegated(address);
-        }
-
-        // Load account again to bypass the borrow checker.
-        let account = self.inner.state.get_mut(&address).unwrap();
         Ok(account)
     }
 
@@ -1315,11 +1299,11 @@ impl<DB: revm::Database> JournalInspectTr for Journal<DB> {
         key: StorageKey,
     ) -> Result<&EvmStorageSlot, Self::DBError> {
         let transaction_id = self.transaction_id;
-        let account = self.inspect_account_delegated(address)?;
+        let account = self.inspect_account(address)?;
         if account.storage.contains_key(&key) {
             // Slot already exists, return reference to it
             // Need to reload account to satisfy borrow checker
-            let account = self.inspect_account_delegated(address)?;
+            let account = self.inspect_account(address)?;
             return Ok(account.storage.get(&key).unwrap());
         }
         // Slot doesn't exist, load from DB and insert
@@ -1328,7 +1312,7 @@ impl<DB: revm::Database> JournalInspectTr for Journal<DB> {
         // delibrately mark the slot as cold since we are only inpecting it, not warming it
         slot.mark_cold();
         // Load account again to bypass the borrow checker and insert the slot
-        let account = self.inspect_account_delegated(address)?;
+        let account = self.inspect_account(address)?;
         account.storage.insert(key, slot);
         // Return reference to the newly inserted slot
         Ok(account.storage.get(&key).expect("slot should exist"))
diff --git a/crates/mega-evm/src/limit/state_growth.rs b/crates/mega-evm/src/limit/state_growth.rs
index e3f2967..6f48c6b 100644
--- a/crates/mega-evm/src/limit/state_growth.rs
+++ b/crates/mega-evm/src/limit/state_growth.rs
@@ -233,8 +233,7 @@ impl StateGrowthTracker {
     ) {
         self.new_frame();
 
-        let to_account =
-            journal.inspect_account_delegated(address).expect("failed to inspect account");
+        let to_account = journal.inspect_account(address).expect("failed to inspect account");
         let is_empty = to_account.state_clear_aware_is_empty(SpecId::PRAGUE);
 
         if is_empty && has_transfer {
-- 
2.43.0


From 86a69a4a1ec9b717453271127f5c1daad0d6cbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:49 +0000
Subject: [PATCH 02/25] fix: CREATE2 storage gas must not read initcode beyond
 the current memory

The created address was computed from memory that the instruction had not expanded yet, which
read out of bounds (a panic in debug builds, undefined behaviour in release builds).
---
 crates/mega-evm/src/evm/instructions.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/crates/mega-evm/src/evm/instructions.rs b/crates/mega-evm/src/evm/instructions.rs
index 399ee2a..b446bf2 100644
--- a/crates/mega-evm/src/evm/instructions.rs
+++ b/crates/mega-evm/src/evm/instructions.rs
@@ -5,7 +5,7 @@ use crate::{
     AdditionalLimit, ExternalEnvTypes, HostExt, MegaContext, MegaSpecId,
 };
 use alloy_evm::Database;
-use alloy_primitives::{keccak256, Address, Bytes, U256};
+use alloy_primitives::{keccak256, Address, U256};
 use revm::{
     context::{ContextTr, JournalTr},
     handler::instructions::{EthInstructions, InstructionProvider},
@@ -870,11 +870,25 @@ pub mod storage_gas_ext {
                 context.interpreter.halt(InstructionResult::StackUnderflow);
                 return;
             };
-            let initcode_offset = as_usize_or_fail!(context.interpreter, initcode_offset);
             let initcode_len = as_usize_or_fail!(context.interpreter, initcode_len);
-            let code = Bytes::copy_from_slice(
-                context.interpreter.memory.slice_len(initcode_offset, initcode_len).as_ref(),
-            );
+            if initcode_len > context.host.max_initcode_size() {
+                // Nothing can be created, the original instruction rejects the initcode.
+                run_inner_instruction_or_abort!(compute_gas_ext::create2, context);
+                return;
+            }
+            // The memory is expanded only by the original instruction, so the initcode may extend
+            // beyond the current memory, in which case it is padded with zeros.
+            let mut code = vec![0; initcode_len];
+            if initcode_len != 0 {
+                let initcode_offset = as_usize_or_fail!(context.interpreter, initcode_offset);
+                let memory_size = context.interpreter.memory.size();
+                let available = memory_size.saturating_sub(initcode_offset).min(initcode_len);
+                if available != 0 {
+                    code[..available].copy_from_slice(
+                        context.interpreter.memory.slice_len(initcode_offset, available).as_ref(),
+                    );
+                }
+            }
             let initcode_hash = keccak256(&code);
 
             let Some(salt) = context.interpreter.stack.inspect::<3>() else {
-- 
2.43.0


From 87bf20475cfe1a4cdd2f89148b22fce8673ec482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:28 +0000
Subject: [PATCH 03/25] fix: undo a committed frame whose code deposit exceeds
 the compute gas limit

The frame's checkpoint had already been committed when the code deposit cost was recorded, so a
contract creation halted by the limit still left its contract in the state.
---
 crates/mega-evm/src/evm/execution.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/crates/mega-evm/src/evm/execution.rs b/crates/mega-evm/src/evm/execution.rs
index 846f339..7211fcb 100644
--- a/crates/mega-evm/src/evm/execution.rs
+++ b/crates/mega-evm/src/evm/execution.rs
@@ -203,7 +203,8 @@ impl<DB: Database, INSP, ExtEnvs: ExternalEnvTypes> MegaEvm<DB, INSP, ExtEnvs> {
     /// and marks the frame result as exceeding limit if needed.
     #[inline]
     fn after_frame_run(
-        ctx: &MegaContext<DB, ExtEnvs>,
+        ctx: &mut MegaContext<DB, ExtEnvs>,
+        frame: &EthFrame<EthInterpreter>,
         frame_output: &mut ItemOrResult<FrameInit, FrameResult>,
         gas_remaining_before_process_action: Option<u64>,
     ) -> Result<(), ContextDbError<MegaContext<DB, ExtEnvs>>> {
@@ -217,8 +218,14 @@ impl<DB: Database, INSP, ExtEnvs: ExternalEnvTypes> MegaEvm<DB, INSP, ExtEnvs> {
         {
             let compute_gas_cost =
                 gas_remaining_before.saturating_sub(frame_result.gas().remaining());
-            let mut additional_limit = ctx.additional_limit.borrow_mut();
-            if additional_limit.record_compute_gas(compute_gas_cost).exceeded_limit() {
+            let limit_check =
+                ctx.additional_limit.borrow_mut().record_compute_gas(compute_gas_cost);
+            if limit_check.exceeded_limit() {
+                if frame_result.interpreter_result().result.is_ok() {
+                    // The frame has already been committed, its state changes must be undone.
+                    ctx.journal_mut().checkpoint();
+                    ctx.journal_mut().checkpoint_revert(frame.checkpoint);
+                }
                 mark_frame_result_as_exceeding_limit(frame_result);
             }
         }
@@ -736,7 +743,7 @@ where
             })?;
 
         // After frame_run Hook
-        Self::after_frame_run(context, &mut frame_output, gas_remaining_before)?;
+        Self::after_frame_run(context, frame, &mut frame_output, gas_remaining_before)?;
 
         Ok(frame_output)
     }
@@ -887,7 +894,7 @@ where
             })?;
 
         // After frame_run Hook
-        Self::after_frame_run(ctx, &mut frame_output, gas_remaining_before)?;
+        Self::after_frame_run(ctx, frame, &mut frame_output, gas_remaining_before)?;
 
         // Call frame_end for inspector callback
         if let ItemOrResult::Result(frame_result) = &mut frame_output {
-- 
2.43.0


From 6b43da39b6866de50f45ec62add369ad3b36a411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:20 +0000
Subject: [PATCH 04/25] fix: a precompile call that exceeds the compute gas
 limit must fail

The call used to succeed, so the value transferred to the precompile stayed there although the
transaction halted.
---
 crates/mega-evm/src/evm/precompiles.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/crates/mega-evm/src/evm/precompiles.rs b/crates/mega-evm/src/evm/precompiles.rs
index 7ee3336..5e1d25f 100644
--- a/crates/mega-evm/src/evm/precompiles.rs
+++ b/crates/mega-evm/src/evm/precompiles.rs
@@ -7,7 +7,9 @@
 use alloc as std;
 use std::{boxed::Box, string::String, sync::Arc};
 
-use crate::{ExternalEnvTypes, MegaContext, MegaSpecId};
+use crate::{
+    mark_interpreter_result_as_exceeding_limit, ExternalEnvTypes, MegaContext, MegaSpecId,
+};
 use alloy_evm::{
     precompiles::{DynPrecompile, PrecompilesMap},
     Database,
@@ -162,10 +164,18 @@ impl<DB: Database, ExtEnvs: ExternalEnvTypes> PrecompileProvider<MegaContext<DB,
             self, context, address, inputs, is_static, gas_limit,
         )?;
         // Record the compute gas cost
-        Ok(maybe_output.inspect(|output| {
-            if context.spec.is_enabled(MegaSpecId::MINI_REX) {
-                context.additional_limit.borrow_mut().record_compute_gas(output.gas.spent());
+        Ok(maybe_output.map(|mut output| {
+            if context.spec.is_enabled(MegaSpecId::MINI_REX) &&
+                context
+                    .additional_limit
+                    .borrow_mut()
+                    .record_compute_gas(output.gas.spent())
+                    .exceeded_limit()
+            {
+                // The call must fail, so that its value transfer is reverted
+                mark_interpreter_result_as_exceeding_limit(&mut output);
             }
+            output
         }))
     }
 
-- 
2.43.0


From 5c4d2cec68d2541ebeae5ae5561a7f77158bd43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:11 +0000
Subject: [PATCH 05/25] fix: charge a deposit's contract creation for the
 address it creates

A deposit transaction carries no nonce, so the storage gas of the creation was looked up for the
address derived from nonce zero (or, with the nonce check disabled, from whatever nonce the
transaction has) instead of the one that is created.
---
 crates/mega-evm/src/evm/execution.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/mega-evm/src/evm/execution.rs b/crates/mega-evm/src/evm/execution.rs
index 7211fcb..59f907f 100644
--- a/crates/mega-evm/src/evm/execution.rs
+++ b/crates/mega-evm/src/evm/execution.rs
@@ -347,9 +347,10 @@ where
             let kind = ctx.tx().kind();
             let (callee_address, storage_gas) = match kind {
                 TxKind::Create => {
-                    let tx = ctx.tx();
-                    let caller = tx.caller();
-                    let nonce = tx.nonce();
+                    let caller = ctx.tx().caller();
+                    // The nonce in the transaction is meaningless for deposit transactions and
+                    // when the nonce check is disabled.
+                    let nonce = ctx.db_mut().basic(caller)?.map_or(0, |acc| acc.nonce);
                     let created_address = caller.create(nonce);
 
                     let storage_gas = if is_rex_enabled {
-- 
2.43.0


From 86bd0cbfc7e907b965d07536d4cb8e050b92b79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:15 +0000
Subject: [PATCH 06/25] fix: rescue the gas forwarded to a call that the
 compute gas limit prevents

When the limit is exceeded by the CALL or CREATE instruction itself, the child frame is never
created, but the gas set aside for it was not among the gas given back to the sender.
---
 crates/mega-evm/src/evm/instructions.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/crates/mega-evm/src/evm/instructions.rs b/crates/mega-evm/src/evm/instructions.rs
index b446bf2..c1229e0 100644
--- a/crates/mega-evm/src/evm/instructions.rs
+++ b/crates/mega-evm/src/evm/instructions.rs
@@ -210,17 +210,6 @@ mod rex3 {
     }
 }
 
-/// Macro to record compute gas and check if the limit has been exceeded. If the limit is exceeded,
-/// the interpreter halts and returns.
-macro_rules! compute_gas {
-    ($interpreter:expr, $additional_limit:expr, $gas_used:expr $(,$ret:expr)?) => {
-        if $additional_limit.record_compute_gas($gas_used).exceeded_limit() {
-            $interpreter.halt(AdditionalLimit::EXCEEDING_LIMIT_INSTRUCTION_RESULT);
-            return $($ret)?;
-        }
-    };
-}
-
 /// Macro to run the inner instruction and abort if the instruction result is an error.
 macro_rules! run_inner_instruction_or_abort {
     ($inner_fn:path, $context:expr) => {
@@ -1062,17 +1051,28 @@ pub mod compute_gas_ext {
 
                 let mut gas_used = gas_before.saturating_sub(context.interpreter.gas.remaining());
                 // Some of the gas may be forwarded to the child call. We need to substract them.
+                let mut forwarded_gas = 0;
                 match context.interpreter.bytecode.action() {
                     Some(InterpreterAction::NewFrame(FrameInput::Call(call_inputs))) => {
                         gas_used = gas_used.saturating_sub(call_inputs.gas_limit);
+                        // The call stipend is not paid by this frame.
+                        let stipend =
+                            if call_inputs.transfers_value() { gas::CALL_STIPEND } else { 0 };
+                        forwarded_gas = call_inputs.gas_limit.saturating_sub(stipend);
                     }
                     Some(InterpreterAction::NewFrame(FrameInput::Create(create_inputs))) => {
                         gas_used = gas_used.saturating_sub(create_inputs.gas_limit);
+                        forwarded_gas = create_inputs.gas_limit;
                     }
                     _ => {}
                 }
                 let mut additional_limit = context.host.additional_limit().borrow_mut();
-                compute_gas!(context.interpreter, additional_limit, gas_used);
+                if additional_limit.record_compute_gas(gas_used).exceeded_limit() {
+                    // The child frame is never created, take the forwarded gas back so that it is
+                    // rescued together with the remaining gas of this frame.
+                    context.interpreter.gas.erase_cost(forwarded_gas);
+                    context.interpreter.halt(AdditionalLimit::EXCEEDING_LIMIT_INSTRUCTION_RESULT);
+                }
             }
         };
     }
-- 
2.43.0


From c9333e1586898a000412456d531e370322f81bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:59 +0000
Subject: [PATCH 07/25] fix: output of a failed contract creation does not
 count as contract code

The revert data of a creation, or the code that it cannot pay for, was counted against the data
size limit, which could halt a transaction that stays within the limit.
---
 crates/mega-evm/src/limit/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/mega-evm/src/limit/mod.rs b/crates/mega-evm/src/limit/mod.rs
index 763e42a..812fca8 100644
--- a/crates/mega-evm/src/limit/mod.rs
+++ b/crates/mega-evm/src/limit/mod.rs
@@ -475,8 +475,10 @@ impl AdditionalLimit {
             return self.has_exceeded_limit;
         }
 
-        // record the created contract code
-        self.data_size_tracker.record_created_contract_code(result.output.len() as u64);
+        // record the created contract code. If the creation fails, the output is not code.
+        if result.is_ok() {
+            self.data_size_tracker.record_created_contract_code(result.output.len() as u64);
+        }
 
         self.check_limit()
     }
-- 
2.43.0


From 0f504a664b9343fd17e9ef9e6bc9b1167e8529bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:45 +0000
Subject: [PATCH 08/25] fix: a database or SALT failure during execution must
 end the transaction with an error

---
 crates/mega-evm/src/evm/execution.rs      |  2 +-
 crates/mega-evm/src/evm/instructions.rs   | 92 +++++++++++++++--------
 crates/mega-evm/src/limit/mod.rs          |  8 +-
 crates/mega-evm/src/limit/state_growth.rs |  7 +-
 4 files changed, 69 insertions(+), 40 deletions(-)

diff --git a/crates/mega-evm/src/evm/execution.rs b/crates/mega-evm/src/evm/execution.rs
index 59f907f..2944437 100644
--- a/crates/mega-evm/src/evm/execution.rs
+++ b/crates/mega-evm/src/evm/execution.rs
@@ -675,7 +675,7 @@ where
         if is_mini_rex_enabled &&
             additional_limit
                 .borrow_mut()
-                .before_frame_init(&frame_init, self.ctx().journal_mut())
+                .before_frame_init(&frame_init, self.ctx().journal_mut())?
                 .exceeded_limit()
         {
             // if the limit is exceeded, create an error frame result and return it directly
diff --git a/crates/mega-evm/src/evm/instructions.rs b/crates/mega-evm/src/evm/instructions.rs
index c1229e0..580cc8f 100644
--- a/crates/mega-evm/src/evm/instructions.rs
+++ b/crates/mega-evm/src/evm/instructions.rs
@@ -1,4 +1,7 @@
+#[cfg(not(feature = "std"))]
+use alloc as std;
 use core::cmp::min;
+use std::{format, vec};
 
 use crate::{
     constants::{self},
@@ -8,6 +11,7 @@ use alloy_evm::Database;
 use alloy_primitives::{keccak256, Address, U256};
 use revm::{
     context::{ContextTr, JournalTr},
+    context_interface::context::ContextError,
     handler::instructions::{EthInstructions, InstructionProvider},
     interpreter::{
         as_usize_or_fail, gas, gas_or_fail,
@@ -210,6 +214,16 @@ mod rex3 {
     }
 }
 
+/// Macro to abort the execution because of a failure outside of the EVM (e.g., in the database). The
+/// error is left in the context, so that the transaction ends with this error.
+macro_rules! fatal_external_error {
+    ($context:expr, $err:expr) => {{
+        *$context.host.error() = Err($err);
+        $context.interpreter.halt(InstructionResult::FatalExternalError);
+        return;
+    }};
+}
+
 /// Macro to run the inner instruction and abort if the instruction result is an error.
 macro_rules! run_inner_instruction_or_abort {
     ($inner_fn:path, $context:expr) => {
@@ -682,10 +696,11 @@ pub mod additional_limit_ext {
             context.interpreter.halt(InstructionResult::StackUnderflow);
             return;
         };
-        let storage_slot = context.host.journal_mut().inspect_storage(target_address, index);
-        let (original_value, present_value) = storage_slot
-            .map(|slot| (slot.original_value(), slot.present_value()))
-            .unwrap_or_default();
+        let (original_value, present_value) =
+            match context.host.journal_mut().inspect_storage(target_address, index) {
+                Ok(slot) => (slot.original_value(), slot.present_value()),
+                Err(err) => fatal_external_error!(context, ContextError::Db(err)),
+            };
         let Some(new_value) = context.interpreter.stack.inspect::<1>() else {
             context.interpreter.halt(InstructionResult::StackUnderflow);
             return;
@@ -779,11 +794,10 @@ pub mod storage_gas_ext {
                     return;
                 };
                 let to = to.into_address();
-                let Ok(to_account) = context.host.journal_mut().inspect_account(to) else {
-                    context.interpreter.halt(InstructionResult::FatalExternalError);
-                    return;
+                let is_empty = match context.host.journal_mut().inspect_account(to) {
+                    Ok(to_account) => to_account.state_clear_aware_is_empty(spec),
+                    Err(err) => fatal_external_error!(context, ContextError::Db(err)),
                 };
-                let is_empty = to_account.state_clear_aware_is_empty(spec);
                 let has_transfer = if $has_transfer_logic {
                     let Some(value) =context.interpreter.stack.inspect::<2>() else {
                         context.interpreter.halt(InstructionResult::StackUnderflow);
@@ -796,8 +810,12 @@ pub mod storage_gas_ext {
                 // Charge additional storage gas cost for creating a new account
                 if is_empty && has_transfer {
                     let Ok(new_account_storage_gas) = context.host.new_account_storage_gas(to) else {
-                        context.interpreter.halt(InstructionResult::FatalExternalError);
-                        return;
+                        fatal_external_error!(
+                            context,
+                            ContextError::Custom(format!(
+                                "Failed to get storage gas for callee address: {to}"
+                            ))
+                        );
                     };
                     gas!(context.interpreter, new_account_storage_gas);
                 }
@@ -844,9 +862,9 @@ pub mod storage_gas_ext {
         let creator_address = context.interpreter.input.target_address();
         // Load the creator account from the journal, this must not be cold loaded since the creator
         // must have been warmed when the current frame begins.
-        let Ok(creator) = context.host.journal_mut().load_account(creator_address) else {
-            context.interpreter.halt(InstructionResult::FatalExternalError);
-            return;
+        let creator_nonce = match context.host.journal_mut().load_account(creator_address) {
+            Ok(creator) => creator.data.info.nonce,
+            Err(err) => fatal_external_error!(context, ContextError::Db(err)),
         };
 
         // Calculate the created address
@@ -887,7 +905,7 @@ pub mod storage_gas_ext {
 
             creator_address.create2(salt.to_be_bytes(), initcode_hash)
         } else {
-            creator_address.create(creator.data.info.nonce)
+            creator_address.create(creator_nonce)
         };
 
         // Charge storage gas cost for creating a new contract
@@ -899,8 +917,12 @@ pub mod storage_gas_ext {
             context.host.new_account_storage_gas(created_address)
         };
         let Ok(create_contract_storage_gas) = create_contract_storage_gas else {
-            context.interpreter.halt(InstructionResult::FatalExternalError);
-            return;
+            fatal_external_error!(
+                context,
+                ContextError::Custom(format!(
+                    "Failed to get storage gas for created address: {created_address}"
+                ))
+            );
         };
         gas!(context.interpreter, create_contract_storage_gas);
 
@@ -997,10 +1019,11 @@ pub mod storage_gas_ext {
             return;
         };
         // The storage slot values
-        let storage_slot = context.host.journal_mut().inspect_storage(target_address, index);
-        let (original_value, present_value) = storage_slot
-            .map(|slot| (slot.original_value(), slot.present_value()))
-            .unwrap_or_default();
+        let (original_value, present_value) =
+            match context.host.journal_mut().inspect_storage(target_address, index) {
+                Ok(slot) => (slot.original_value(), slot.present_value()),
+                Err(err) => fatal_external_error!(context, ContextError::Db(err)),
+            };
         let Some(new_value) = context.interpreter.stack.inspect::<1>() else {
             context.interpreter.halt(InstructionResult::StackUnderflow);
             return;
@@ -1011,8 +1034,12 @@ pub mod storage_gas_ext {
             let Ok(sstore_set_storage_gas) =
                 context.host.sstore_set_storage_gas(target_address, index)
             else {
-                context.interpreter.halt(InstructionResult::FatalExternalError);
-                return;
+                fatal_external_error!(
+                    context,
+                    ContextError::Custom(format!(
+                        "Failed to get storage gas for slot {index} of address: {target_address}"
+                    ))
+                );
             };
             gas!(context.interpreter, sstore_set_storage_gas);
         }
@@ -1263,26 +1290,27 @@ impl StackInspectTr for Stack {
 /// loaded from the database and cached in the journal. However, since we explicitly mark the
 /// account or storage slot as cold, this pre-loading before executing the original instruction will
 /// make no difference on gas cost.
-pub trait JournalInspectTr {
-    /// The database error type.
-    type DBError;
-
+pub trait JournalInspectTr: JournalTr {
     /// Inspect the account at the given address without changing its warmth. An EIP-7702 delegation
     /// is not followed: the account that holds the balance, nonce and storage is inspected.
-    fn inspect_account(&mut self, address: Address) -> Result<&mut Account, Self::DBError>;
+    fn inspect_account(
+        &mut self,
+        address: Address,
+    ) -> Result<&mut Account, <Self::Database as revm::Database>::Error>;
 
     /// Inspect the storage at the given address and key without marking it as warm.
     fn inspect_storage(
         &mut self,
         address: Address,
         key: StorageKey,
-    ) -> Result<&EvmStorageSlot, Self::DBError>;
+    ) -> Result<&EvmStorageSlot, <Self::Database as revm::Database>::Error>;
 }
 
 impl<DB: revm::Database> JournalInspectTr for Journal<DB> {
-    type DBError = <DB as revm::Database>::Error;
-
-    fn inspect_account(&mut self, address: Address) -> Result<&mut Account, Self::DBError> {
+    fn inspect_account(
+        &mut self,
+        address: Address,
+    ) -> Result<&mut Account, <Self::Database as revm::Database>::Error> {
         let transaction_id = self.transaction_id;
         let account = match self.inner.state.entry(address) {
             Entry::Occupied(entry) => entry.into_mut(),
@@ -1311,7 +1339,7 @@ impl<DB: revm::Database> JournalInspectTr for Journal<DB> {
         &mut self,
         address: Address,
         key: StorageKey,
-    ) -> Result<&EvmStorageSlot, Self::DBError> {
+    ) -> Result<&EvmStorageSlot, <Self::Database as revm::Database>::Error> {
         let transaction_id = self.transaction_id;
         let account = self.inspect_account(address)?;
         if account.storage.contains_key(&key) {
diff --git a/crates/mega-evm/src/limit/mod.rs b/crates/mega-evm/src/limit/mod.rs
index 812fca8..8e84e7c 100644
--- a/crates/mega-evm/src/limit/mod.rs
+++ b/crates/mega-evm/src/limit/mod.rs
@@ -415,11 +415,11 @@ impl AdditionalLimit {
     }
 
     /// Hook called before a new execution frame is initialized.
-    pub(crate) fn before_frame_init<JOURNAL: JournalInspectTr<DBError: core::fmt::Debug>>(
+    pub(crate) fn before_frame_init<JOURNAL: JournalInspectTr>(
         &mut self,
         frame_init: &FrameInit,
         journal: &mut JOURNAL,
-    ) -> AdditionalLimitResult {
+    ) -> Result<AdditionalLimitResult, <JOURNAL::Database as revm::Database>::Error> {
         match &frame_init.frame_input {
             FrameInput::Empty => unreachable!(),
             FrameInput::Call(call_inputs) => {
@@ -433,7 +433,7 @@ impl AdditionalLimit {
                     journal,
                     call_inputs.target_address,
                     has_transfer,
-                );
+                )?;
             }
             FrameInput::Create(_) => {
                 // new frame in data size tracker
@@ -445,7 +445,7 @@ impl AdditionalLimit {
             }
         }
 
-        self.check_limit()
+        Ok(self.check_limit())
     }
 
     /// Hook called when a new execution frame is successfully initialized in `frame_init` and needs
diff --git a/crates/mega-evm/src/limit/state_growth.rs b/crates/mega-evm/src/limit/state_growth.rs
index 6f48c6b..0a2ec70 100644
--- a/crates/mega-evm/src/limit/state_growth.rs
+++ b/crates/mega-evm/src/limit/state_growth.rs
@@ -225,21 +225,22 @@ impl StateGrowthTracker {
     ///
     /// This implements EIP-161's account clearing rules. Calls without value transfer
     /// to empty accounts do not create an account and thus don't count toward state growth.
-    pub(crate) fn record_call<JOURNAL: JournalInspectTr<DBError: core::fmt::Debug>>(
+    pub(crate) fn record_call<JOURNAL: JournalInspectTr>(
         &mut self,
         journal: &mut JOURNAL,
         address: Address,
         has_transfer: bool,
-    ) {
+    ) -> Result<(), <JOURNAL::Database as revm::Database>::Error> {
         self.new_frame();
 
-        let to_account = journal.inspect_account(address).expect("failed to inspect account");
+        let to_account = journal.inspect_account(address)?;
         let is_empty = to_account.state_clear_aware_is_empty(SpecId::PRAGUE);
 
         if is_empty && has_transfer {
             self.total_growth += 1;
             self.update_current_frame_discardable_size(1);
         }
+        Ok(())
     }
 
     /// Records the new account creation.
-- 
2.43.0


From 0286246cdfe1f07e6648e9b3527deca803b20dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:02 +0000
Subject: [PATCH 09/25] fix: a rejected transaction must leave nothing in the
 journal when inspected

---
 crates/mega-evm/src/evm/interfaces.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/crates/mega-evm/src/evm/interfaces.rs b/crates/mega-evm/src/evm/interfaces.rs
index 411fb3e..58335f7 100644
--- a/crates/mega-evm/src/evm/interfaces.rs
+++ b/crates/mega-evm/src/evm/interfaces.rs
@@ -8,7 +8,7 @@ use revm::{
     handler::{EthFrame, EvmTr, SystemCallTx},
     interpreter::interpreter::EthInterpreter,
     state::EvmState,
-    DatabaseCommit, InspectEvm, Inspector, SystemCallEvm,
+    DatabaseCommit, ExecuteEvm, InspectEvm, Inspector, SystemCallEvm,
 };
 
 use crate::{
@@ -171,6 +171,18 @@ where
         let mut h = MegaHandler::<_, _, EthFrame<EthInterpreter>>::new();
         revm::inspector::InspectorHandler::inspect_run(&mut h, self)
     }
+
+    /// Finalizes the state whether the transaction succeeds or not, so that nothing of a rejected
+    /// transaction is left in the journal, as in [`revm::ExecuteEvm::transact`].
+    fn inspect_tx(
+        &mut self,
+        tx: Self::Tx,
+    ) -> Result<ExecResultAndState<Self::ExecutionResult, Self::State>, Self::Error> {
+        let output_or_error = self.inspect_one_tx(tx);
+        // finalize will clear the journal
+        let state = self.finalize();
+        Ok(ExecResultAndState::new(output_or_error?, state))
+    }
 }
 
 impl<DB, INSP, ExtEnvs: ExternalEnvTypes> revm::InspectCommitEvm for MegaEvm<DB, INSP, ExtEnvs>
-- 
2.43.0


From 6b4ccd5ec14828cef6cc648cf4bd0bfcf3a3cf60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:15 +0000
Subject: [PATCH 10/25] fix: reset the bucket cache when the block is set

---
 crates/mega-evm/src/evm/context.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/mega-evm/src/evm/context.rs b/crates/mega-evm/src/evm/context.rs
index 6df9ccb..5b94847 100644
--- a/crates/mega-evm/src/evm/context.rs
+++ b/crates/mega-evm/src/evm/context.rs
@@ -558,10 +558,15 @@ impl<DB: Database, ExtEnvs: ExternalEnvTypes> ContextTr for MegaContext<DB, ExtE
 impl<DB: Database, ExtEnvs: ExternalEnvTypes> ContextSetters for MegaContext<DB, ExtEnvs> {
     delegate! {
         to self.inner {
-            fn set_block(&mut self, block: Self::Block);
             fn set_tx(&mut self, tx: Self::Tx);
         }
     }
+
+    fn set_block(&mut self, block: Self::Block) {
+        self.inner.set_block(block);
+        // Reset internal state for new block
+        self.on_new_block();
+    }
 }
 
 /// A convenient trait to convert a `CfgEnv<OpSpecId>` into a `CfgEnv<SpecId>`.
-- 
2.43.0


From dc79150b912d4c01234e49f290e36e3a9dc9c196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:41 +0000
Subject: [PATCH 11/25] fix: a keyless deployment runs with the external
 environments of its block

---
 crates/mega-evm/src/evm/context.rs       | 22 ++++++++++++++++++++++
 crates/mega-evm/src/sandbox/execution.rs |  3 +++
 2 files changed, 25 insertions(+)

diff --git a/crates/mega-evm/src/evm/context.rs b/crates/mega-evm/src/evm/context.rs
index 5b94847..771b21d 100644
--- a/crates/mega-evm/src/evm/context.rs
+++ b/crates/mega-evm/src/evm/context.rs
@@ -306,6 +306,28 @@ impl<DB: Database, ExtEnvTypes: ExternalEnvTypes> MegaContext<DB, ExtEnvTypes> {
         }
     }
 
+    /// Shares the external environments of another context, including the bucket information
+    /// that it has already looked up.
+    ///
+    /// Used when creating sandbox contexts, which execute a transaction as part of the same block.
+    /// This must be called after [`MegaContext::with_block`], which resets the shared lookups.
+    pub(crate) fn with_shared_external_envs<NewExtEnvTypes: ExternalEnvTypes>(
+        self,
+        dynamic_storage_gas_cost: Rc<RefCell<DynamicGasCost<NewExtEnvTypes::SaltEnv>>>,
+        oracle_env: Rc<RefCell<NewExtEnvTypes::OracleEnv>>,
+    ) -> MegaContext<DB, NewExtEnvTypes> {
+        MegaContext {
+            inner: self.inner,
+            spec: self.spec,
+            disable_beneficiary: self.disable_beneficiary,
+            additional_limit: self.additional_limit,
+            dynamic_storage_gas_cost,
+            oracle_env,
+            volatile_data_tracker: self.volatile_data_tracker,
+            disable_sandbox: self.disable_sandbox,
+        }
+    }
+
     /// Sets the Op Stack's [`L1BlockInfo`] for the EVM.
     ///
     /// This method configures the L1 block information used by the `OpStack`
diff --git a/crates/mega-evm/src/sandbox/execution.rs b/crates/mega-evm/src/sandbox/execution.rs
index d9bf1dd..0ce2308 100644
--- a/crates/mega-evm/src/sandbox/execution.rs
+++ b/crates/mega-evm/src/sandbox/execution.rs
@@ -310,6 +310,8 @@ pub fn execute_keyless_deploy_sandbox<DB: alloy_evm::Database, ExtEnvs: External
     let mega_spec = ctx.mega_spec();
     let block = ctx.block().clone();
     let chain = ctx.chain().clone();
+    let dynamic_storage_gas_cost = ctx.dynamic_storage_gas_cost.clone();
+    let oracle_env = ctx.oracle_env.clone();
     let journal = ctx.journal_mut();
 
     // Create type-erased sandbox database with split borrows:
@@ -340,6 +342,7 @@ pub fn execute_keyless_deploy_sandbox<DB: alloy_evm::Database, ExtEnvs: External
         let sandbox_ctx = MegaContext::new(sandbox_db, mega_spec)
             .with_block(block)
             .with_chain(chain)
+            .with_shared_external_envs::<ExtEnvs>(dynamic_storage_gas_cost, oracle_env)
             .with_sandbox_disabled(true);
         let mut sandbox_evm = MegaEvm::new(sandbox_ctx);
 
-- 
2.43.0


From 2c2ed6ab5d9120baaa87a52acb31d92e1a5e167a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:12 +0000
Subject: [PATCH 12/25] fix: commit what a keyless deployment changes in
 accounts that are already loaded

---
 crates/mega-evm/src/sandbox/execution.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/crates/mega-evm/src/sandbox/execution.rs b/crates/mega-evm/src/sandbox/execution.rs
index 0ce2308..f787754 100644
--- a/crates/mega-evm/src/sandbox/execution.rs
+++ b/crates/mega-evm/src/sandbox/execution.rs
@@ -41,8 +41,8 @@ use revm::{
 };
 
 use crate::{
-    constants, mark_frame_result_as_exceeding_limit, merge_evm_state_optional_status,
-    ExternalEnvTypes, MegaContext, MegaEvm, MegaSpecId, MegaTransaction,
+    constants, mark_frame_result_as_exceeding_limit, merge_evm_state, ExternalEnvTypes,
+    MegaContext, MegaEvm, MegaSpecId, MegaTransaction,
 };
 
 use super::tx::{calculate_keyless_deploy_address, decode_keyless_tx, recover_signer};
@@ -416,10 +416,12 @@ pub enum SandboxOutcome {
 /// touched or created. This is because we need to know which accounts are read but
 /// not written to obtain `ReadSet` to facilitate stateless witness generation.
 ///
-/// We do not merge any account status into the parent journal and the coldness of accounts and
-/// storage slots are preserved. This is because the changes in the sandbox are treated as a silent
-/// change in the database and should not affect the behavior of the current transaction (e.g., gas
-/// cost due to coldness) execept that the state itself are different.
+/// The coldness of accounts and storage slots is preserved. This is because the changes in the
+/// sandbox are treated as a silent change in the database and should not affect the behavior of the
+/// current transaction (e.g., gas cost due to coldness) except that the state itself is different.
+/// The other account status flags are merged: an account that the parent transaction has only
+/// loaded (e.g., through its access list) must be marked as touched or created for the changes made
+/// in the sandbox to be committed.
 ///
 /// The sandbox execution uses nonce 0 for the signer (Nick's Method), and after the CREATE
 /// transaction the nonce becomes 1. This nonce change is intentionally preserved in the parent
@@ -432,7 +434,7 @@ fn apply_sandbox_state<DB: alloy_evm::Database, ExtEnvs: ExternalEnvTypes>(
     let journal = ctx.journal_mut();
 
     // Merge the sandbox state into the parent journal
-    merge_evm_state_optional_status(&mut journal.state, &sandbox_state, false);
+    merge_evm_state(&mut journal.state, &sandbox_state);
 
     Ok(())
 }
-- 
2.43.0


From 3abe60ae4d6ed5205e655775748e57ddc16afec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:43 +0000
Subject: [PATCH 13/25] fix: a keyless deployment sees the chain's own chain id

---
 crates/mega-evm/src/sandbox/execution.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/mega-evm/src/sandbox/execution.rs b/crates/mega-evm/src/sandbox/execution.rs
index f787754..d0c122c 100644
--- a/crates/mega-evm/src/sandbox/execution.rs
+++ b/crates/mega-evm/src/sandbox/execution.rs
@@ -220,6 +220,8 @@ pub fn execute_keyless_deploy_call<DB: alloy_evm::Database, ExtEnvs: ExternalEnv
             gas_limit: gas_limit_override_u64,
             gas_price: keyless_tx.effective_gas_price(None),
             nonce: 0,
+            // A pre-EIP-155 transaction is not bound to a chain
+            chain_id: None,
             ..Default::default()
         };
         let mut mega_tx = MegaTransaction::new(tx);
@@ -310,6 +312,7 @@ pub fn execute_keyless_deploy_sandbox<DB: alloy_evm::Database, ExtEnvs: External
     let mega_spec = ctx.mega_spec();
     let block = ctx.block().clone();
     let chain = ctx.chain().clone();
+    let chain_id = ctx.inner.cfg.chain_id;
     let dynamic_storage_gas_cost = ctx.dynamic_storage_gas_cost.clone();
     let oracle_env = ctx.oracle_env.clone();
     let journal = ctx.journal_mut();
@@ -339,11 +342,12 @@ pub fn execute_keyless_deploy_sandbox<DB: alloy_evm::Database, ExtEnvs: External
         // Create sandbox context with the type-erased database.
         // SandboxDb is a concrete type, so MegaContext<SandboxDb, ...> doesn't recurse.
         // Disable sandbox interception to prevent recursive sandbox creation.
-        let sandbox_ctx = MegaContext::new(sandbox_db, mega_spec)
+        let mut sandbox_ctx = MegaContext::new(sandbox_db, mega_spec)
             .with_block(block)
             .with_chain(chain)
             .with_shared_external_envs::<ExtEnvs>(dynamic_storage_gas_cost, oracle_env)
             .with_sandbox_disabled(true);
+        sandbox_ctx.inner.cfg.chain_id = chain_id;
         let mut sandbox_evm = MegaEvm::new(sandbox_ctx);
 
         // Execute the transaction
-- 
2.43.0


From d7149e61c6f2e95702e01ef8e619c117ce340876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:06 +0000
Subject: [PATCH 14/25] fix: a transaction over its limits must not perform a
 keyless deployment

---
 crates/mega-evm/src/evm/execution.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/mega-evm/src/evm/execution.rs b/crates/mega-evm/src/evm/execution.rs
index 2944437..711c992 100644
--- a/crates/mega-evm/src/evm/execution.rs
+++ b/crates/mega-evm/src/evm/execution.rs
@@ -652,7 +652,12 @@ where
             // Only intercept if:
             // 1. Sandbox is not disabled (prevents infinite recursion)
             // 2. This is a top-level call (depth == 0)
-            if !self.ctx().is_sandbox_disabled() && frame_init.depth == 0 {
+            // 3. The transaction is still within its limits. Otherwise it halts, and a deployment
+            //    must not take effect in a transaction that halts.
+            if !self.ctx().is_sandbox_disabled() &&
+                frame_init.depth == 0 &&
+                !additional_limit.borrow_mut().check_limit().exceeded_limit()
+            {
                 if let FrameInput::Call(call_inputs) = &frame_init.frame_input {
                     if call_inputs.target_address == KEYLESS_DEPLOY_ADDRESS {
                         let input_bytes = call_inputs.input.bytes(self.ctx());
-- 
2.43.0


From 4f46f136285abbb4bceb87817c871c92f37e02c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:25 +0000
Subject: [PATCH 15/25] fix: preserve the gas left when the keyless deployment
 overhead exceeds the compute gas limit

---
 crates/mega-evm/src/sandbox/execution.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/mega-evm/src/sandbox/execution.rs b/crates/mega-evm/src/sandbox/execution.rs
index d0c122c..8475c3b 100644
--- a/crates/mega-evm/src/sandbox/execution.rs
+++ b/crates/mega-evm/src/sandbox/execution.rs
@@ -41,8 +41,8 @@ use revm::{
 };
 
 use crate::{
-    constants, mark_frame_result_as_exceeding_limit, merge_evm_state, ExternalEnvTypes,
-    MegaContext, MegaEvm, MegaSpecId, MegaTransaction,
+    constants, create_exceeding_limit_frame_result, merge_evm_state, ExternalEnvTypes, MegaContext,
+    MegaEvm, MegaSpecId, MegaTransaction,
 };
 
 use super::tx::{calculate_keyless_deploy_address, decode_keyless_tx, recover_signer};
@@ -159,9 +159,10 @@ pub fn execute_keyless_deploy_call<DB: alloy_evm::Database, ExtEnvs: ExternalEnv
     if ctx.spec.is_enabled(MegaSpecId::REX3) {
         let mut limit = ctx.additional_limit.borrow_mut();
         if limit.record_compute_gas(cost).exceeded_limit() {
-            let mut result = make_halt!();
-            mark_frame_result_as_exceeding_limit(&mut result);
-            return result;
+            // The gas that is left is refunded, as for any other transaction exceeding a limit. No
+            // frame is entered for this call, so it has to be rescued here.
+            limit.rescue_gas(&gas);
+            return create_exceeding_limit_frame_result(gas, Some(return_memory_offset));
         }
     }
 
-- 
2.43.0


From e8ee65a78415a307ee06498dddc6559b03e3c759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:11 +0000
Subject: [PATCH 16/25] fix: the L1 fee of a keyless deployment is the one of
 its own transaction

---
 crates/mega-evm/src/sandbox/execution.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/mega-evm/src/sandbox/execution.rs b/crates/mega-evm/src/sandbox/execution.rs
index 8475c3b..eb8a17d 100644
--- a/crates/mega-evm/src/sandbox/execution.rs
+++ b/crates/mega-evm/src/sandbox/execution.rs
@@ -312,7 +312,10 @@ pub fn execute_keyless_deploy_sandbox<DB: alloy_evm::Database, ExtEnvs: External
     // Extract values we need BEFORE borrowing the journal
     let mega_spec = ctx.mega_spec();
     let block = ctx.block().clone();
-    let chain = ctx.chain().clone();
+    // The L1 cost of the outer transaction, which is cached here, is not the one of the sandbox
+    // transaction.
+    let mut chain = ctx.chain().clone();
+    chain.clear_tx_l1_cost();
     let chain_id = ctx.inner.cfg.chain_id;
     let dynamic_storage_gas_cost = ctx.dynamic_storage_gas_cost.clone();
     let oracle_env = ctx.oracle_env.clone();
-- 
2.43.0


From 6234985bddf75ab64686270ae34694d91256b353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:18 +0000
Subject: [PATCH 17/25] fix: block admission must not overflow on large limits
 and usages

---
 crates/mega-evm/src/block/limit.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/crates/mega-evm/src/block/limit.rs b/crates/mega-evm/src/block/limit.rs
index 4a5ef65..180fa9d 100644
--- a/crates/mega-evm/src/block/limit.rs
+++ b/crates/mega-evm/src/block/limit.rs
@@ -702,6 +702,14 @@ pub struct BlockLimiter {
     pub block_state_growth_used: u64,
 }
 
+/// Whether adding `tx` to `used` goes over `limit`, even when the sum does not fit in a `u64`.
+const fn exceeds(used: u64, tx: u64, limit: u64) -> bool {
+    match used.checked_add(tx) {
+        Some(total) => total > limit,
+        None => true,
+    }
+}
+
 impl BlockLimiter {
     /// Create a new block limiter with the specified limits.
     ///
@@ -794,11 +802,14 @@ impl BlockLimiter {
         }
 
         // Check block gas limit
-        if self.block_gas_used + gas_limit > self.limits.block_gas_limit {
+        if exceeds(self.block_gas_used, gas_limit, self.limits.block_gas_limit) {
             return Err(BlockExecutionError::Validation(
                 BlockValidationError::TransactionGasLimitMoreThanAvailableBlockGas {
                     transaction_gas_limit: gas_limit,
-                    block_available_gas: self.limits.block_gas_limit - self.block_gas_used,
+                    block_available_gas: self
+                        .limits
+                        .block_gas_limit
+                        .saturating_sub(self.block_gas_used),
                 },
             ));
         }
@@ -815,7 +826,7 @@ impl BlockLimiter {
         }
 
         // Check block transaction size limit
-        if tx_size + self.block_tx_size_used > self.limits.block_txs_encode_size_limit {
+        if exceeds(self.block_tx_size_used, tx_size, self.limits.block_txs_encode_size_limit) {
             return Err(BlockExecutionError::Validation(BlockValidationError::InvalidTx {
                 hash: tx_hash,
                 error: Box::new(MegaBlockLimitExceededError::TransactionEncodeSizeLimit {
@@ -840,7 +851,7 @@ impl BlockLimiter {
             }
 
             // Check block data availability size limit
-            if da_size + self.block_da_size_used > self.limits.block_da_size_limit {
+            if exceeds(self.block_da_size_used, da_size, self.limits.block_da_size_limit) {
                 return Err(BlockExecutionError::Validation(BlockValidationError::InvalidTx {
                     hash: tx_hash,
                     error: Box::new(MegaBlockLimitExceededError::DataAvailabilitySizeLimit {
-- 
2.43.0


From 4fc7a21bf246564adf9d856819df7bdc8c8ef6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:01 +0000
Subject: [PATCH 18/25] fix: a contract that destroys itself in its keyless
 deployment is destroyed

---
 crates/mega-evm/src/sandbox/execution.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/mega-evm/src/sandbox/execution.rs b/crates/mega-evm/src/sandbox/execution.rs
index eb8a17d..259babf 100644
--- a/crates/mega-evm/src/sandbox/execution.rs
+++ b/crates/mega-evm/src/sandbox/execution.rs
@@ -444,6 +444,15 @@ fn apply_sandbox_state<DB: alloy_evm::Database, ExtEnvs: ExternalEnvTypes>(
     // Merge the sandbox state into the parent journal
     merge_evm_state(&mut journal.state, &sandbox_state);
 
+    // The merge leaves an account that the sandbox destroyed empty. It has to be destroyed by the
+    // parent transaction, since an account that held a balance before cannot be committed as empty.
+    for address in sandbox_state.iter().filter(|(_, a)| a.is_selfdestructed()).map(|(a, _)| a) {
+        if let Some(account) = journal.state.get_mut(address) {
+            account.mark_created();
+            account.mark_selfdestruct();
+        }
+    }
+
     Ok(())
 }
 
-- 
2.43.0


From 513fb5e222f48e39e426412f86a82059187e1fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:01 +0000
Subject: [PATCH 19/25] fix: merging states keeps the code that the later one
 has not loaded

---
 crates/mega-evm/src/evm/state.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/mega-evm/src/evm/state.rs b/crates/mega-evm/src/evm/state.rs
index 8a6d271..e9f84ce 100644
--- a/crates/mega-evm/src/evm/state.rs
+++ b/crates/mega-evm/src/evm/state.rs
@@ -131,7 +131,10 @@ pub fn merge_evm_state_optional_status(this: &mut EvmState, other: &EvmState, me
 /// The other account to merge is not flagged as `SelfDestructed`. See more details in
 /// the [`merge_evm_state`] function.
 fn merge_account_state(this: &mut Account, other: &Account, merge_status: bool) {
+    let code = this.info.code.take().filter(|_| this.info.code_hash == other.info.code_hash);
     this.info = other.info.clone();
+    // The code may not have been loaded by the `other` transaction.
+    this.info.code = this.info.code.take().or(code);
     merge_evm_storage(&mut this.storage, &other.storage);
     if merge_status {
         merge_account_status(&mut this.status, other.status);
-- 
2.43.0


From 9c50bf4eba327b8a086d4f88f95dc43bb367916d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:38 +0000
Subject: [PATCH 20/25] fix: merging onto a destroyed account starts from an
 empty one

---
 crates/mega-evm/src/evm/state.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/crates/mega-evm/src/evm/state.rs b/crates/mega-evm/src/evm/state.rs
index e9f84ce..10b6fe0 100644
--- a/crates/mega-evm/src/evm/state.rs
+++ b/crates/mega-evm/src/evm/state.rs
@@ -131,6 +131,15 @@ pub fn merge_evm_state_optional_status(this: &mut EvmState, other: &EvmState, me
 /// The other account to merge is not flagged as `SelfDestructed`. See more details in
 /// the [`merge_evm_state`] function.
 fn merge_account_state(this: &mut Account, other: &Account, merge_status: bool) {
+    if merge_status && this.is_selfdestructed() {
+        // `this` was destroyed before `other` was executed: nothing of it is left but an empty,
+        // touched account. Its coldness is preserved.
+        let is_cold = this.status.contains(AccountStatus::Cold);
+        *this = Account::default().with_touched_mark();
+        if is_cold {
+            this.mark_cold();
+        }
+    }
     let code = this.info.code.take().filter(|_| this.info.code_hash == other.info.code_hash);
     this.info = other.info.clone();
     // The code may not have been loaded by the `other` transaction.
@@ -157,12 +166,6 @@ fn merge_account_status(this: &mut AccountStatus, mut other: AccountStatus) {
     // merging between transactions.
     other -= AccountStatus::Cold | AccountStatus::CreatedLocal | AccountStatus::SelfDestructedLocal;
 
-    if this.contains(AccountStatus::SelfDestructed) && other.contains(AccountStatus::Created) {
-        // if `this` account is selfdestructed, and `other` account is created,
-        // we should no longer mark `this` as selfdestructed.
-        *this -= AccountStatus::SelfDestructed;
-    }
-
     // Other status flags are simply merged into `this`.
     *this |= other;
 }
-- 
2.43.0


From fed125d5240dc008cba47d0eadd528a6905622f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:40 +0000
Subject: [PATCH 21/25] fix: a contract creation that ends before its create
 frame uses the sender's nonce

A creation transaction that cannot pay the storage gas of the contract, or that exceeds a limit
before it starts, was charged but left the nonce of its sender as it was, so it could be replayed. A
keyless deployment ending that way could leave its signer's account empty, which panics in
State::commit.
---
 crates/mega-evm/src/evm/execution.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/crates/mega-evm/src/evm/execution.rs b/crates/mega-evm/src/evm/execution.rs
index 711c992..41848cc 100644
--- a/crates/mega-evm/src/evm/execution.rs
+++ b/crates/mega-evm/src/evm/execution.rs
@@ -3,7 +3,7 @@ use alloc as std;
 use std::string::ToString;
 
 use alloy_evm::{precompiles::PrecompilesMap, Database};
-use alloy_primitives::{Bytes, TxKind};
+use alloy_primitives::{Address, Bytes, TxKind};
 use alloy_sol_types::SolCall;
 use delegate::delegate;
 use op_revm::{
@@ -13,7 +13,7 @@ use op_revm::{
 use revm::{
     context::{
         result::{ExecutionResult, FromStringError, InvalidTransaction},
-        ContextTr, FrameStack, Transaction,
+        ContextTr, FrameStack, JournalTr, Transaction,
     },
     handler::{
         evm::{ContextDbError, FrameInitResult},
@@ -121,13 +121,27 @@ where
         let tx = ctx.tx();
         if tx.gas_limit() < init_and_floor_gas.initial_gas {
             // If not sufficient gas, we halt with out of gas
-            let oog_frame_result = gen_oog_frame_result(tx.kind(), tx.gas_limit());
+            let (kind, caller) = (tx.kind(), tx.caller());
+            let oog_frame_result = gen_oog_frame_result(kind, tx.gas_limit());
+            if kind.is_create() {
+                bump_creator_nonce(ctx.journal_mut(), caller);
+            }
             return Ok(Some(oog_frame_result));
         }
         Ok(None)
     }
 }
 
+/// Increments the nonce of the sender of a contract creation transaction, which ends before its
+/// create frame, where this normally happens, is made. The transaction could be replayed otherwise.
+fn bump_creator_nonce<DB: Database>(journal: &mut Journal<DB>, creator: Address) {
+    // The sender is always loaded before the execution.
+    if let Some(account) = journal.state.get_mut(&creator) {
+        account.info.nonce = account.info.nonce.saturating_add(1);
+        journal.nonce_bump_journal_entry(creator);
+    }
+}
+
 impl<DB: Database, INSP, ExtEnvs: ExternalEnvTypes> MegaEvm<DB, INSP, ExtEnvs> {
     /// This is the hook to be called in the beginning of the `frame_run` and `inspect_frame_run`
     /// functions. This function checks if the additional limit is already exceeded, if so, we
@@ -684,6 +698,9 @@ where
                 .exceeded_limit()
         {
             // if the limit is exceeded, create an error frame result and return it directly
+            if let (0, FrameInput::Create(inputs)) = (frame_init.depth, &frame_init.frame_input) {
+                bump_creator_nonce(self.ctx().journal_mut(), inputs.caller);
+            }
             let (gas_limit, return_memory_offset) = match &frame_init.frame_input {
                 FrameInput::Create(inputs) => (inputs.gas_limit, None),
                 FrameInput::Call(inputs) => {
-- 
2.43.0


From 689cfc94feae09181a4b1f29adeb22a8c5993354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:20 +0000
Subject: [PATCH 22/25] fix: do not underflow when a context is built over
 block zero

---
 crates/mega-evm/src/evm/context.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mega-evm/src/evm/context.rs b/crates/mega-evm/src/evm/context.rs
index 771b21d..6a8ef17 100644
--- a/crates/mega-evm/src/evm/context.rs
+++ b/crates/mega-evm/src/evm/context.rs
@@ -168,7 +168,7 @@ impl<DB: Database, ExtEnvTypes: ExternalEnvTypes> MegaContext<DB, ExtEnvTypes> {
             dynamic_storage_gas_cost: Rc::new(RefCell::new(DynamicGasCost::new(
                 spec,
                 external_envs.salt_env,
-                inner.block.number.to::<u64>() - 1,
+                inner.block.number.to::<u64>().saturating_sub(1),
             ))),
             oracle_env: Rc::new(RefCell::new(external_envs.oracle_env)),
             volatile_data_tracker: Rc::new(RefCell::new(VolatileDataAccessTracker::new(
-- 
2.43.0


From b8dac44f13b5f6ed05bd9105998b52c4a6391595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:28 +0000
Subject: [PATCH 23/25] fix: storage gas rates and default limits follow the
 spec of a new configuration

---
 crates/mega-evm/src/evm/context.rs  | 33 ++++++++++++++++++++++++++---
 crates/mega-evm/src/external/gas.rs |  5 +++++
 2 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/crates/mega-evm/src/evm/context.rs b/crates/mega-evm/src/evm/context.rs
index 6a8ef17..abe146a 100644
--- a/crates/mega-evm/src/evm/context.rs
+++ b/crates/mega-evm/src/evm/context.rs
@@ -49,6 +49,9 @@ pub struct MegaContext<DB: Database, ExtEnvs: ExternalEnvTypes> {
     /// Whether to disable the post-transaction reward to beneficiary.
     pub(crate) disable_beneficiary: bool,
 
+    /// Whether the transaction limits were set explicitly. Otherwise they follow the spec.
+    pub(crate) has_custom_tx_limits: bool,
+
     /// Additional limits for the EVM.
     pub additional_limit: Rc<RefCell<AdditionalLimit>>,
 
@@ -104,6 +107,7 @@ impl<DB: Database> MegaContext<DB, EmptyExternalEnv> {
         Self {
             spec,
             disable_beneficiary: false,
+            has_custom_tx_limits: false,
             additional_limit: Rc::new(RefCell::new(AdditionalLimit::new(tx_limits))),
             dynamic_storage_gas_cost: Rc::new(RefCell::new(DynamicGasCost::new(
                 spec,
@@ -164,6 +168,7 @@ impl<DB: Database, ExtEnvTypes: ExternalEnvTypes> MegaContext<DB, ExtEnvTypes> {
         Self {
             spec,
             disable_beneficiary: false,
+            has_custom_tx_limits: false,
             additional_limit: Rc::new(RefCell::new(AdditionalLimit::new(tx_limits))),
             dynamic_storage_gas_cost: Rc::new(RefCell::new(DynamicGasCost::new(
                 spec,
@@ -197,6 +202,7 @@ impl<DB: Database, ExtEnvTypes: ExternalEnvTypes> MegaContext<DB, ExtEnvTypes> {
             inner: self.inner.with_db(db),
             spec: self.spec,
             disable_beneficiary: self.disable_beneficiary,
+            has_custom_tx_limits: self.has_custom_tx_limits,
             additional_limit: self.additional_limit,
             dynamic_storage_gas_cost: self.dynamic_storage_gas_cost,
             oracle_env: self.oracle_env,
@@ -243,7 +249,7 @@ impl<DB: Database, ExtEnvTypes: ExternalEnvTypes> MegaContext<DB, ExtEnvTypes> {
 
     /// Sets the [`CfgEnv`] for the EVM.
     ///
-    /// This method configures the EVM environment settings. For the `MINI_REX`
+    /// This method configures the EVM environment settings, including the spec. For the `MINI_REX`
     /// specification, it automatically applies appropriate contract size limits
     /// if they are not already set in the configuration.
     ///
@@ -255,7 +261,7 @@ impl<DB: Database, ExtEnvTypes: ExternalEnvTypes> MegaContext<DB, ExtEnvTypes> {
     ///
     /// Returns `self` for method chaining.
     pub fn with_cfg(mut self, cfg: CfgEnv<MegaSpecId>) -> Self {
-        self.spec = cfg.spec;
+        self.set_spec(cfg.spec);
         self.inner = self.inner.with_cfg(cfg.into_op_cfg());
         if self.spec.is_enabled(MegaSpecId::MINI_REX) {
             if self.inner.cfg.limit_contract_code_size.is_none() {
@@ -294,6 +300,7 @@ impl<DB: Database, ExtEnvTypes: ExternalEnvTypes> MegaContext<DB, ExtEnvTypes> {
             inner: self.inner,
             spec,
             disable_beneficiary: self.disable_beneficiary,
+            has_custom_tx_limits: self.has_custom_tx_limits,
             additional_limit: self.additional_limit,
             dynamic_storage_gas_cost: Rc::new(RefCell::new(DynamicGasCost::new(
                 spec,
@@ -320,6 +327,7 @@ impl<DB: Database, ExtEnvTypes: ExternalEnvTypes> MegaContext<DB, ExtEnvTypes> {
             inner: self.inner,
             spec: self.spec,
             disable_beneficiary: self.disable_beneficiary,
+            has_custom_tx_limits: self.has_custom_tx_limits,
             additional_limit: self.additional_limit,
             dynamic_storage_gas_cost,
             oracle_env,
@@ -347,12 +355,31 @@ impl<DB: Database, ExtEnvTypes: ExternalEnvTypes> MegaContext<DB, ExtEnvTypes> {
 
     /// Sets the transaction limits for the EVM.
     pub fn with_tx_runtime_limits(mut self, tx_limits: EvmTxRuntimeLimits) -> Self {
+        self.has_custom_tx_limits = true;
+        self.set_tx_runtime_limits(tx_limits);
+        self
+    }
+
+    fn set_tx_runtime_limits(&mut self, tx_limits: EvmTxRuntimeLimits) {
         self.additional_limit = Rc::new(RefCell::new(AdditionalLimit::new(tx_limits)));
         self.volatile_data_tracker = Rc::new(RefCell::new(VolatileDataAccessTracker::new(
             tx_limits.block_env_access_compute_gas_limit,
             tx_limits.oracle_access_compute_gas_limit,
         )));
-        self
+    }
+
+    /// Switches to another spec together with what depends on it: the storage gas rates and,
+    /// unless they were set explicitly, the transaction limits.
+    fn set_spec(&mut self, spec: MegaSpecId) {
+        if spec == self.spec {
+            return;
+        }
+        self.spec = spec;
+        self.dynamic_storage_gas_cost.borrow_mut().set_spec(spec);
+        self.on_new_block();
+        if !self.has_custom_tx_limits {
+            self.set_tx_runtime_limits(EvmTxRuntimeLimits::from_spec(spec));
+        }
     }
 }
 
diff --git a/crates/mega-evm/src/external/gas.rs b/crates/mega-evm/src/external/gas.rs
index 8bfadfc..d07c648 100644
--- a/crates/mega-evm/src/external/gas.rs
+++ b/crates/mega-evm/src/external/gas.rs
@@ -30,6 +30,11 @@ impl<SaltEnvImpl: SaltEnv> DynamicGasCost<SaltEnvImpl> {
         Self { spec, parent_block, salt_env, bucket_cost_mulitipers: HashMap::default() }
     }
 
+    /// Sets the spec whose storage gas rates apply.
+    pub(crate) fn set_spec(&mut self, spec: MegaSpecId) {
+        self.spec = spec;
+    }
+
     /// Resets the cache of the bucket cost multiplier.
     pub fn reset(&mut self, parent_block: BlockNumber) {
         self.bucket_cost_mulitipers.clear();
-- 
2.43.0


From 2ce930a88cc5622a77be3942cd556b430d9022d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:43 +0000
Subject: [PATCH 24/25] fix: a tracer that spends the gas of failed frames
 takes the gas rescued for the sender

Inspectors such as revm's GasInspector (used by TracerEip3155, e.g. in the
state-test runner's traces) spend the gas of a frame that failed. When an
additional limit is exceeded, that gas is to be returned to the sender, so a
traced transaction used more gas than the same transaction without tracing.
---
 crates/mega-evm/src/evm/execution.rs | 31 ++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/crates/mega-evm/src/evm/execution.rs b/crates/mega-evm/src/evm/execution.rs
index 41848cc..3c1403d 100644
--- a/crates/mega-evm/src/evm/execution.rs
+++ b/crates/mega-evm/src/evm/execution.rs
@@ -865,7 +865,7 @@ where
         let frame_input = frame_init.frame_input.clone();
         if let ItemOrResult::Result(mut output) = self.frame_init(frame_init)? {
             let (ctx, inspector) = self.ctx_inspector();
-            frame_end(ctx, inspector, &frame_input, &mut output);
+            Self::inspect_frame_end(ctx, inspector, &frame_input, &mut output);
             return Ok(ItemOrResult::Result(output));
         }
 
@@ -922,13 +922,40 @@ where
         // Call frame_end for inspector callback
         if let ItemOrResult::Result(frame_result) = &mut frame_output {
             let (ctx, inspector, frame) = self.ctx_inspector_frame();
-            frame_end(ctx, inspector, frame.frame_input(), frame_result);
+            Self::inspect_frame_end(ctx, inspector, frame.frame_input(), frame_result);
         }
 
         Ok(frame_output)
     }
 }
 
+impl<DB, INSP, ExtEnvs: ExternalEnvTypes> MegaEvm<DB, INSP, ExtEnvs>
+where
+    DB: Database,
+    INSP: Inspector<MegaContext<DB, ExtEnvs>>,
+{
+    /// Notifies the inspector of the end of a frame.
+    ///
+    /// Inspectors may spend the gas of a failed frame (e.g. `GasInspector`, which
+    /// `TracerEip3155` uses), since in REVM it is consumed anyway. Here it may still be rescued
+    /// for the sender if an additional limit is exceeded, so the gas of a failed frame is kept
+    /// unless the inspector changes the frame's result.
+    fn inspect_frame_end(
+        ctx: &mut MegaContext<DB, ExtEnvs>,
+        inspector: &mut INSP,
+        frame_input: &FrameInput,
+        frame_result: &mut FrameResult,
+    ) {
+        let instruction_result = frame_result.instruction_result();
+        let gas = *frame_result.gas();
+        frame_end(ctx, inspector, frame_input, frame_result);
+        if instruction_result.is_error() && frame_result.instruction_result() == instruction_result
+        {
+            *frame_result.gas_mut() = gas;
+        }
+    }
+}
+
 fn gen_oog_frame_result(tx_kind: TxKind, gas_limit: u64) -> FrameResult {
     // If not sufficient gas, we halt with out of gas
     match tx_kind {
-- 
2.43.0


From a2c9c12597caef72e28b27aa59379b93d447adc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:11 +0000
Subject: [PATCH 25/25] fix: the signature of a typed transaction in t8n input
 carries the parity in v

---
 bin/mega-evme/src/t8n/types/transaction.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/bin/mega-evme/src/t8n/types/transaction.rs b/bin/mega-evme/src/t8n/types/transaction.rs
index f9d86fd..62c57c7 100644
--- a/bin/mega-evme/src/t8n/types/transaction.rs
+++ b/bin/mega-evme/src/t8n/types/transaction.rs
@@ -224,18 +224,21 @@ impl Transaction {
 
     /// Converts the v, r, s signature components to an alloy Signature
     fn to_signature(&self) -> Result<Signature, TransactionConversionError> {
+        let v_u64: u64 = self.v.try_into().map_err(|_| {
+            TransactionConversionError::InvalidSignature("v value too large".to_string())
+        })?;
+
         // Calculate y_parity from v
+        // For typed transactions: v = y_parity
         // For EIP-155 transactions: v = chain_id * 2 + 35 + y_parity
         // For pre-EIP-155: v = 27 + y_parity
-        let y_parity = if let Some(chain_id) = self.chain_id {
+        let y_parity = if self.tx_type.unwrap_or(0) != 0 && v_u64 <= 1 {
+            v_u64 == 1
+        } else if let Some(chain_id) = self.chain_id {
             let chain_id_u64: u64 = chain_id.try_into().map_err(|_| {
                 TransactionConversionError::InvalidSignature("chain_id too large".to_string())
             })?;
 
-            let v_u64: u64 = self.v.try_into().map_err(|_| {
-                TransactionConversionError::InvalidSignature("v value too large".to_string())
-            })?;
-
             // EIP-155: v = chain_id * 2 + 35 + y_parity
             if v_u64 >= chain_id_u64 * 2 + 35 {
                 v_u64 - chain_id_u64 * 2 - 35 == 1
@@ -245,9 +248,6 @@ impl Transaction {
             }
         } else {
             // Pre-EIP-155: v = 27 or 28
-            let v_u64: u64 = self.v.try_into().map_err(|_| {
-                TransactionConversionError::InvalidSignature("v value too large".to_string())
-            })?;
             v_u64 == 28
         };
 
-- 
2.43.0

