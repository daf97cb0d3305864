From 041be44f88dc8d133236db9b8abb9456ff35a80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:28 +0000
Subject: [PATCH 1/9] fix: store the observable stack on RETURN/REVERT with
 constant operands

With stack inspection enabled, the constant-operand peephole for RETURN and
REVERT dropped its operands without flushing the virtual stack, so the
caller-visible stack and length were left stale.
---
 crates/revmc-codegen/src/compiler/translate/peephole.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/revmc-codegen/src/compiler/translate/peephole.rs b/crates/revmc-codegen/src/compiler/translate/peephole.rs
index a407dcb..50e3391 100644
--- a/crates/revmc-codegen/src/compiler/translate/peephole.rs
+++ b/crates/revmc-codegen/src/compiler/translate/peephole.rs
@@ -318,8 +318,8 @@ impl<'a, B: Backend> FunctionCx<'a, B> {
 
     fn peephole_return(&mut self, op: u8) -> bool {
         if let Some((offset, len)) = self.const_memory_operands(self.const_operands()) {
-            // Both operands constant; consume from virtual stack.
-            self.pop_ignore(2);
+            // Both operands constant; consume them and, if the stack is observable, store it.
+            self.sync_diverging_stack_effect();
             let ir = match op {
                 op::RETURN => InstructionResult::Return,
                 op::REVERT => InstructionResult::Revert,
-- 
2.43.0


From 0bbfda75305f1733ffd928390471f765456e9f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:03 +0000
Subject: [PATCH 2/9] fix: encode immediates with a fixed width in block dedup
 fingerprints

Stripping zero bytes made the encoding ambiguous: the remaining bytes of one
block's immediate could equal another block's shorter immediate followed by
more opcodes (e.g. 'PUSH3 0x335080' and 'PUSH3 0, POP, CALLER, DUP1'), and the
two different blocks were merged.
---
 crates/revmc-codegen/src/bytecode/passes/dedup.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/crates/revmc-codegen/src/bytecode/passes/dedup.rs b/crates/revmc-codegen/src/bytecode/passes/dedup.rs
index ac0d70d..34661ce 100644
--- a/crates/revmc-codegen/src/bytecode/passes/dedup.rs
+++ b/crates/revmc-codegen/src/bytecode/passes/dedup.rs
@@ -203,11 +203,8 @@ fn block_fingerprint(insts: &IndexVec<Inst, InstData>, block: &BlockData) -> Sma
         let data = &insts[i];
         buf.push(data.opcode);
         if data.imm_len() > 0 {
-            let mut imm = &data.data.to_ne_bytes()[..];
-            while let [0, rest @ ..] = imm {
-                imm = rest;
-            }
-            buf.extend_from_slice(imm);
+            // Fixed width: a trimmed immediate could be confused with the opcodes that follow it.
+            buf.extend_from_slice(&data.data.to_ne_bytes());
         }
     }
     buf
-- 
2.43.0


From 07e55c6c0c30da3236d316bf71b7fc0cd9e96e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:43 +0000
Subject: [PATCH 3/9] fix: do not abandon block analysis at an invalid
 DUPN/SWAPN/EXCHANGE immediate

Stopping there left the rest of the block without snapshots, and translation
panicked on the next PUSH ('handled in const_output'). Such an instruction
always fails at runtime and does not touch the stack.
---
 .../revmc-codegen/src/bytecode/passes/block_analysis.rs  | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/revmc-codegen/src/bytecode/passes/block_analysis.rs b/crates/revmc-codegen/src/bytecode/passes/block_analysis.rs
index cb8afa3..a99067f 100644
--- a/crates/revmc-codegen/src/bytecode/passes/block_analysis.rs
+++ b/crates/revmc-codegen/src/bytecode/passes/block_analysis.rs
@@ -1118,7 +1118,8 @@ impl Bytecode<'_> {
                                 stack.push(stack[stack.len() - n]);
                             }
                         }
-                        None => return false,
+                        // Invalid immediate: always fails at runtime, does not touch the stack.
+                        None => {}
                     }
                 }
                 op::SWAPN => {
@@ -1137,7 +1138,8 @@ impl Bytecode<'_> {
                                 stack.swap(len - 1, len - 1 - n);
                             }
                         }
-                        None => return false,
+                        // Invalid immediate: always fails at runtime, does not touch the stack.
+                        None => {}
                     }
                 }
                 op::EXCHANGE => {
@@ -1156,7 +1158,8 @@ impl Bytecode<'_> {
                                 stack.swap(len - 1 - n, len - 1 - m);
                             }
                         }
-                        None => return false,
+                        // Invalid immediate: always fails at runtime, does not touch the stack.
+                        None => {}
                     }
                 }
                 _ => {
-- 
2.43.0


From 636dfa1703e3b1a01cb2167279eb4fc99c3b8e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:52 +0000
Subject: [PATCH 4/9] fix: read LOG1-LOG4 memory operands from the top of the
 stack

The memory-size analysis took the data range of LOGn from below the first
topics, so a LOG with small constant topics made later accesses skip the
memory expansion (and its gas), reading and writing out of bounds.
---
 crates/revmc-codegen/src/bytecode/mod.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/crates/revmc-codegen/src/bytecode/mod.rs b/crates/revmc-codegen/src/bytecode/mod.rs
index 2b8c5e8..114d16f 100644
--- a/crates/revmc-codegen/src/bytecode/mod.rs
+++ b/crates/revmc-codegen/src/bytecode/mod.rs
@@ -710,7 +710,7 @@ impl<'a> Bytecode<'a> {
         let operand =
             |depth| self.const_operand(inst, depth).and_then(|value| u64::try_from(value).ok());
         match data.opcode {
-            op::KECCAK256 | op::RETURN | op::REVERT | op::LOG0 => {
+            op::KECCAK256 | op::RETURN | op::REVERT | op::LOG0..=op::LOG4 => {
                 [Some((operand(0), operand(1))), None]
             }
             op::MLOAD | op::MSTORE => [Some((operand(0), Some(32))), None],
@@ -723,10 +723,6 @@ impl<'a> Bytecode<'a> {
                 Some((operand(0).zip(operand(1)).map(|(dst, src)| dst.max(src)), operand(2))),
                 None,
             ],
-            op::LOG1 => [Some((operand(1), operand(2))), None],
-            op::LOG2 => [Some((operand(2), operand(3))), None],
-            op::LOG3 => [Some((operand(3), operand(4))), None],
-            op::LOG4 => [Some((operand(4), operand(5))), None],
             op::CREATE | op::CREATE2 => [Some((operand(1), operand(2))), None],
             op::CALL | op::CALLCODE => {
                 [Some((operand(3), operand(4))), Some((operand(5), operand(6)))]
-- 
2.43.0


From 625f6a71f08ec68e4c86fbbfd3e9b1af0ffc51dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:56 +0000
Subject: [PATCH 5/9] fix: do not treat reads below the truncated abstract
 stack as an underflow

The block analysis tracks at most MAX_ABS_STACK_DEPTH words per block. A
block which pops more than that was taken to underflow, so its successors
were never joined with its out state, and jumps in them were resolved from
the other predecessors alone.
---
 .../src/bytecode/passes/block_analysis.rs           | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/revmc-codegen/src/bytecode/passes/block_analysis.rs b/crates/revmc-codegen/src/bytecode/passes/block_analysis.rs
index a99067f..9599d4f 100644
--- a/crates/revmc-codegen/src/bytecode/passes/block_analysis.rs
+++ b/crates/revmc-codegen/src/bytecode/passes/block_analysis.rs
@@ -1008,13 +1008,22 @@ impl Bytecode<'_> {
             }
 
             // Copy input state into reusable buffer.
+            let block = &self.cfg.blocks[bid];
             stack_buf.clear();
             match &block_states[bid] {
-                BlockState::Known(s) => stack_buf.extend_from_slice(s),
+                BlockState::Known(s) => {
+                    // The state may have been truncated to `MAX_ABS_STACK_DEPTH`, here or in a
+                    // predecessor: what the block reads below it is unknown, not an underflow.
+                    let section = StackSection::from_stack_io(
+                        block.insts().map(|i| self.insts[i].stack_io()),
+                    );
+                    let missing = (section.inputs as usize).saturating_sub(s.len());
+                    stack_buf.resize(missing, AbsValue::Top);
+                    stack_buf.extend_from_slice(s);
+                }
                 BlockState::Bottom => continue,
             };
 
-            let block = &self.cfg.blocks[bid];
             if !self.interpret_block(block.insts(), &mut stack_buf) {
                 continue;
             }
-- 
2.43.0


From f3874e8570972d3e9e5e84e2aa6e36c8b218e931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:29 +0000
Subject: [PATCH 6/9] fix: do not narrow stack section bounds to 16 bits

A block that pushes more than 32767 words (or pops more than 65535) had its
bounds clamped, and dead store elimination and the virtual stack, which size
their tables by them, panicked while compiling it.
---
 .../revmc-codegen/src/bytecode/passes/dead_store_elim.rs  | 2 +-
 crates/revmc-codegen/src/bytecode/passes/sections.rs      | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/revmc-codegen/src/bytecode/passes/dead_store_elim.rs b/crates/revmc-codegen/src/bytecode/passes/dead_store_elim.rs
index a99975b..dd3a511 100644
--- a/crates/revmc-codegen/src/bytecode/passes/dead_store_elim.rs
+++ b/crates/revmc-codegen/src/bytecode/passes/dead_store_elim.rs
@@ -62,7 +62,7 @@ impl Bytecode<'_> {
             }
 
             let exit_height = *heights.last().unwrap();
-            let max_height = entry_height + section.max_growth as i32;
+            let max_height = entry_height + section.max_growth;
 
             // If the block's terminator diverges, no successor will read the stack,
             // so all exit positions are dead. Unless `inspect_stack` is set (the caller
diff --git a/crates/revmc-codegen/src/bytecode/passes/sections.rs b/crates/revmc-codegen/src/bytecode/passes/sections.rs
index 40adb3b..1acee0e 100644
--- a/crates/revmc-codegen/src/bytecode/passes/sections.rs
+++ b/crates/revmc-codegen/src/bytecode/passes/sections.rs
@@ -39,9 +39,9 @@ impl GasSection {
 #[derive(Clone, Copy, Default, PartialEq, Eq)]
 pub(crate) struct StackSection {
     /// The stack height required to execute the section.
-    pub(crate) inputs: u16,
+    pub(crate) inputs: u32,
     /// The maximum stack height growth relative to the stack height at section start.
-    pub(crate) max_growth: i16,
+    pub(crate) max_growth: i32,
 }
 
 impl fmt::Debug for StackSection {
@@ -198,8 +198,8 @@ impl StackSectionAnalysis {
     /// Returns the current stack section.
     pub(crate) fn section(&self) -> StackSection {
         StackSection {
-            inputs: self.inputs.try_into().unwrap_or(u16::MAX),
-            max_growth: self.max_growth.try_into().unwrap_or(i16::MAX),
+            inputs: self.inputs as u32,
+            max_growth: self.max_growth,
         }
     }
 }
-- 
2.43.0


From 60f3b9ede7568fc20efb5510de70b3c917210c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:30 +0000
Subject: [PATCH 7/9] fix: leave a newer job's entry alone when a stale result
 comes in

A clear drains the entries and bumps the generation. A request for the same code afterwards
makes a new entry and a new job; when the old job's result came in, it removed that new entry
and answered its waiters although their code was not there yet, and the next request compiled
the same code once more.
---
 crates/revmc-runtime/src/runtime/backend.rs | 26 ++++++++++-----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/crates/revmc-runtime/src/runtime/backend.rs b/crates/revmc-runtime/src/runtime/backend.rs
index b827df4..1b01748 100644
--- a/crates/revmc-runtime/src/runtime/backend.rs
+++ b/crates/revmc-runtime/src/runtime/backend.rs
@@ -494,6 +494,19 @@ impl BackendState {
     fn handle_worker_result(&mut self, result: WorkerResult) {
         self.pending_jobs = self.pending_jobs.saturating_sub(1);
 
+        // Discard stale results from a previous generation (e.g. after clear). The entry they
+        // belonged to was drained by the clear: one under the same key now is a newer job's.
+        if result.generation != self.generation {
+            debug!(
+                code_hash = %result.key.code_hash,
+                result_gen = result.generation,
+                current_gen = self.generation,
+                "discarding stale worker result",
+            );
+            result.sync_notifier.notify();
+            return;
+        }
+
         // Drain pending notifiers from the entry before processing.
         let pending_notifiers = self
             .entries
@@ -508,19 +521,6 @@ impl BackendState {
             }
         };
 
-        // Discard stale results from a previous generation (e.g. after clear).
-        if result.generation != self.generation {
-            debug!(
-                code_hash = %result.key.code_hash,
-                result_gen = result.generation,
-                current_gen = self.generation,
-                "discarding stale worker result",
-            );
-            self.entries.remove(&result.key);
-            notify();
-            return;
-        }
-
         let kind = result.kind;
         let success = result.outcome.is_ok();
 
-- 
2.43.0


From deff59e0cced7151f908052c198330e1ad077e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:30 +0000
Subject: [PATCH 8/9] fix: stop counting jobs as pending whose results are
 discarded

The results of jobs in flight at a clear are dropped without counting as succeeded or failed,
so the pending_jobs gauge stayed above zero for ever.
---
 crates/revmc-runtime/src/runtime/backend.rs | 1 +
 crates/revmc-runtime/src/runtime/stats.rs   | 6 +++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/revmc-runtime/src/runtime/backend.rs b/crates/revmc-runtime/src/runtime/backend.rs
index 1b01748..5b7c256 100644
--- a/crates/revmc-runtime/src/runtime/backend.rs
+++ b/crates/revmc-runtime/src/runtime/backend.rs
@@ -503,6 +503,7 @@ impl BackendState {
                 current_gen = self.generation,
                 "discarding stale worker result",
             );
+            self.inner.stats.compilations_discarded.fetch_add(1, Ordering::Relaxed);
             result.sync_notifier.notify();
             return;
         }
diff --git a/crates/revmc-runtime/src/runtime/stats.rs b/crates/revmc-runtime/src/runtime/stats.rs
index 89de1d4..fd912d0 100644
--- a/crates/revmc-runtime/src/runtime/stats.rs
+++ b/crates/revmc-runtime/src/runtime/stats.rs
@@ -21,6 +21,8 @@ pub(crate) struct RuntimeStats {
     pub(crate) compilations_succeeded: AtomicU64,
     /// Total number of failed compilations (JIT + AOT).
     pub(crate) compilations_failed: AtomicU64,
+    /// Total number of compilations whose results were discarded after a clear (JIT + AOT).
+    pub(crate) compilations_discarded: AtomicU64,
     /// Total number of out-of-process JIT helper processes spawned successfully.
     pub(crate) jit_helper_spawns: AtomicU64,
     /// Total number of failed out-of-process JIT helper spawn attempts.
@@ -136,7 +138,9 @@ impl RuntimeStats {
         let dispatched = self.compilations_dispatched.load(Ordering::Relaxed);
         let succeeded = self.compilations_succeeded.load(Ordering::Relaxed);
         let failed = self.compilations_failed.load(Ordering::Relaxed);
-        let pending_jobs = dispatched.saturating_sub(succeeded.saturating_add(failed));
+        let discarded = self.compilations_discarded.load(Ordering::Relaxed);
+        let pending_jobs = dispatched
+            .saturating_sub(succeeded.saturating_add(failed).saturating_add(discarded));
 
         RuntimeStatsSnapshot {
             lookup_hits: self.lookup_hits.load(Ordering::Relaxed),
-- 
2.43.0


From d6502ab534ab6173e78638b7015d1b6f0c3e5321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:39 +0000
Subject: [PATCH 9/9] fix: encode EXCHANGE pairs whose second index is above 16

encode_pair only tried the first form of the encoding for n < m, so the pairs
of the second form, such as (1, 21), could not be assembled.
---
 crates/revmc-codegen/src/bytecode/opcode.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/crates/revmc-codegen/src/bytecode/opcode.rs b/crates/revmc-codegen/src/bytecode/opcode.rs
index 6237bc6..25c2bf2 100644
--- a/crates/revmc-codegen/src/bytecode/opcode.rs
+++ b/crates/revmc-codegen/src/bytecode/opcode.rs
@@ -258,12 +258,8 @@ pub fn encode_pair(n: u8, m: u8) -> Option<u8> {
     };
 
     // Case 1: q < r → n = q+1, m = r+1.
-    if n < m {
-        try_k(n - 1, m - 1)
-    } else {
-        // Case 2: q >= r → n = r+1, m = 29-q.
-        if let Some(q) = 29u8.checked_sub(m) { try_k(q, n - 1) } else { None }
-    }
+    // Case 2: q >= r → n = r+1, m = 29-q.
+    try_k(n - 1, m - 1).or_else(|| try_k(29u8.checked_sub(m)?, n - 1))
 }
 
 /// Returns a string representation of the given bytecode.
-- 
2.43.0

