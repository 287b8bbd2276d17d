From a3b4385a943a22a1dbd3e6819c2179f985534e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:07 +0000
Subject: [PATCH 01/27] fix: i32.trunc_f32_s/u trap on 2^31 and 2^32

---
 src/execution/handlers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/execution/handlers.rs b/src/execution/handlers.rs
index 2a40f8d..5c79327 100644
--- a/src/execution/handlers.rs
+++ b/src/execution/handlers.rs
@@ -1166,7 +1166,7 @@ conv_trap!(
     write_dst_i32,
     f32,
     i32::MIN as f32,
-    i32::MAX as f32,
+    2147483520.0_f32, // largest f32 below 2^31: `i32::MAX as f32` rounds up to 2^31
     |t: f32| t as i32
 );
 conv_trap!(
@@ -1175,7 +1175,7 @@ conv_trap!(
     write_dst_i32,
     f32,
     0.0_f32,
-    u32::MAX as f32,
+    4294967040.0_f32, // largest f32 below 2^32: `u32::MAX as f32` rounds up to 2^32
     |t: f32| (t as u32) as i32
 );
 conv_trap!(
-- 
2.43.0


From 643cd912e976ff226228440c10ab4e0e519e1f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:07 +0000
Subject: [PATCH 02/27] fix: reference-typed locals start as null instead of
 aborting

---
 src/execution/runtime.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/execution/runtime.rs b/src/execution/runtime.rs
index 8795437..b56d064 100644
--- a/src/execution/runtime.rs
+++ b/src/execution/runtime.rs
@@ -12,7 +12,7 @@ use crate::execution::state::{Frame, FrameStack, Label, LabelStack, ModuleLevelI
 use crate::execution::stats::ExecutionStats;
 #[cfg(feature = "trace")]
 use crate::execution::trace::{TraceConfig, Tracer};
-use crate::execution::value::{Num, Val, Vec_};
+use crate::execution::value::{Num, Ref, Val, Vec_};
 use crate::structure::module::WasiFuncType;
 use crate::structure::types::{NumType, ValueType, VecType};
 use crate::wasi::{WasiError, WasiResult};
@@ -1045,7 +1045,7 @@ impl Val {
             ValueType::NumType(NumType::F32) => Ok(Val::Num(Num::F32(0.0))),
             ValueType::NumType(NumType::F64) => Ok(Val::Num(Num::F64(0.0))),
             ValueType::VecType(VecType::V128) => Ok(Val::Vec_(Vec_::V128(0))),
-            ValueType::RefType(_) => todo!("Default value for RefType"),
+            ValueType::RefType(_) => Ok(Val::Ref(Ref::RefNull)),
         }
     }
 }
-- 
2.43.0


From c223e48241e05d4de598576b441cb6f186ae4eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:47 +0000
Subject: [PATCH 03/27] fix: do not defer an operand across a unary instruction

---
 src/parser.rs | 39 +++++++++++++++++++++++++++++++++++----
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 73a4004..b5c4654 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -152,7 +152,7 @@ fn can_fold_i32<'a>(
             wasmparser::Operator::I32Const { .. } | wasmparser::Operator::LocalGet { .. }
         ) {
             if let Some(Ok((next_next_op, _))) = ops.peek() {
-                is_i32_foldable_consumer(next_next_op)
+                is_i32_foldable_consumer(next_next_op) && !is_unary_consumer(next_next_op)
             } else {
                 false
             }
@@ -181,7 +181,7 @@ fn can_fold_i64<'a>(
             wasmparser::Operator::I64Const { .. } | wasmparser::Operator::LocalGet { .. }
         ) {
             if let Some(Ok((next_next_op, _))) = ops.peek() {
-                is_i64_foldable_consumer(next_next_op)
+                is_i64_foldable_consumer(next_next_op) && !is_unary_consumer(next_next_op)
             } else {
                 false
             }
@@ -210,7 +210,7 @@ fn can_fold_f32<'a>(
             wasmparser::Operator::F32Const { .. } | wasmparser::Operator::LocalGet { .. }
         ) {
             if let Some(Ok((next_next_op, _))) = ops.peek() {
-                is_f32_foldable_consumer(next_next_op)
+                is_f32_foldable_consumer(next_next_op) && !is_unary_consumer(next_next_op)
             } else {
                 false
             }
@@ -239,7 +239,7 @@ fn can_fold_f64<'a>(
             wasmparser::Operator::F64Const { .. } | wasmparser::Operator::LocalGet { .. }
         ) {
             if let Some(Ok((next_next_op, _))) = ops.peek() {
-                is_f64_foldable_consumer(next_next_op)
+                is_f64_foldable_consumer(next_next_op) && !is_unary_consumer(next_next_op)
             } else {
                 false
             }
@@ -253,6 +253,37 @@ fn can_fold_f64<'a>(
     can_fold
 }
 
+/// Check if a foldable consumer takes a single operand. It leaves the operand below its own
+/// on the stack, so the 2-ahead lookahead must not defer that operand for it.
+#[inline]
+fn is_unary_consumer(op: &wasmparser::Operator) -> bool {
+    matches!(
+        op,
+        wasmparser::Operator::I32Clz
+            | wasmparser::Operator::I32Ctz
+            | wasmparser::Operator::I32Popcnt
+            | wasmparser::Operator::I32Eqz
+            | wasmparser::Operator::I64Clz
+            | wasmparser::Operator::I64Ctz
+            | wasmparser::Operator::I64Popcnt
+            | wasmparser::Operator::I64Eqz
+            | wasmparser::Operator::F32Abs
+            | wasmparser::Operator::F32Neg
+            | wasmparser::Operator::F32Ceil
+            | wasmparser::Operator::F32Floor
+            | wasmparser::Operator::F32Trunc
+            | wasmparser::Operator::F32Nearest
+            | wasmparser::Operator::F32Sqrt
+            | wasmparser::Operator::F64Abs
+            | wasmparser::Operator::F64Neg
+            | wasmparser::Operator::F64Ceil
+            | wasmparser::Operator::F64Floor
+            | wasmparser::Operator::F64Trunc
+            | wasmparser::Operator::F64Nearest
+            | wasmparser::Operator::F64Sqrt
+    )
+}
+
 /// Check if the instruction can consume an I32 operand (excluding br_if/if/loads/stores)
 /// Note: Load/Store instructions are excluded because the 2-ahead lookahead in can_fold_i32
 /// doesn't verify the type of intervening LocalGet, which can cause incorrect folding.
-- 
2.43.0


From f12c591748ac5211d107f36c2cbdebd7b5f37639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:25 +0000
Subject: [PATCH 04/27] fix: memory.grow treats its operand as unsigned and
 fails with -1

---
 src/execution/handlers.rs |  9 +--------
 src/execution/mem.rs      | 22 ++++++++++++++--------
 2 files changed, 15 insertions(+), 16 deletions(-)

diff --git a/src/execution/handlers.rs b/src/execution/handlers.rs
index 5c79327..9d0290d 100644
--- a/src/execution/handlers.rs
+++ b/src/execution/handlers.rs
@@ -1997,14 +1997,7 @@ pub fn mem_grow(state: &mut VmState) -> Outcome {
         }
     };
     let delta = state.reg_file().get_i32(args[0].index());
-    let delta_u32: u32 = match delta.try_into() {
-        Ok(v) => v,
-        Err(_) => {
-            state.trap = Some(RuntimeError::InvalidParameterCount);
-            return trap(state);
-        }
-    };
-    let prev_size = mem_addr.mem_grow(delta_u32 as i32);
+    let prev_size = mem_addr.mem_grow(delta);
     if let Some(d) = dst {
         state.reg_file_mut().set_i32(d.index(), prev_size);
     }
diff --git a/src/execution/mem.rs b/src/execution/mem.rs
index 8c51a29..5154f74 100644
--- a/src/execution/mem.rs
+++ b/src/execution/mem.rs
@@ -90,26 +90,32 @@ impl MemAddr {
     /// Grows memory by the given number of pages. Returns previous size or -1 on failure.
     pub fn mem_grow(&self, size: i32) -> i32 {
         let prev_size = self.mem_size();
-        let new = prev_size + size;
+        // The operand is unsigned: widen so that a large one cannot wrap around.
+        let new = prev_size as u64 + size as u32 as u64;
 
         // Safety: Single-threaded access
         let mem = unsafe { &*self.mem_inst.get() };
         let max_pages = mem._type_.0.max;
 
         if let Some(max) = max_pages {
-            if new > max as i32 {
+            if new > max as u64 {
                 return -1;
             }
         }
 
         if new > 65536 {
-            -1
-        } else {
-            // Safety: Single-threaded access, no overlapping borrows
-            let mem = unsafe { &mut *self.mem_inst.get() };
-            mem.data.resize(new as usize * 65536, 0);
-            prev_size
+            return -1;
         }
+        let Ok(bytes) = usize::try_from(new * 65536) else {
+            return -1;
+        };
+        // Safety: Single-threaded access, no overlapping borrows
+        let mem = unsafe { &mut *self.mem_inst.get() };
+        if mem.data.try_reserve(bytes - mem.data.len()).is_err() {
+            return -1;
+        }
+        mem.data.resize(bytes, 0);
+        prev_size
     }
 
     /// Returns a copy of all memory contents.
-- 
2.43.0


From 5158d54f7ee1d3ad8e40e99f95b8e8d9ebdf2d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:02 +0000
Subject: [PATCH 05/27] fix: typed select of references uses the reference
 registers

---
 src/execution/handlers.rs | 5 ++++-
 src/execution/stats.rs    | 3 ++-
 src/execution/trace.rs    | 3 ++-
 src/parser.rs             | 2 +-
 4 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/execution/handlers.rs b/src/execution/handlers.rs
index 9d0290d..1128d02 100644
--- a/src/execution/handlers.rs
+++ b/src/execution/handlers.rs
@@ -36,7 +36,7 @@ use arrayvec::ArrayVec;
 // Handler index constants
 //
 // These indices identify each Wasm instruction handler. Numbered by Wasm
-// opcode where applicable, with extensions in the 0xF0-0x103 range for
+// opcode where applicable, with extensions in the 0xF0-0x104 range for
 // type-specialized variants. The parser uses these to look up handlers via
 // `select_handler` (and to populate the `handlers` array on each Func).
 // ============================================================================
@@ -266,6 +266,7 @@ pub const HANDLER_IDX_SELECT_I32: usize = 0xF0;
 pub const HANDLER_IDX_SELECT_I64: usize = 0xF1;
 pub const HANDLER_IDX_SELECT_F32: usize = 0xF2;
 pub const HANDLER_IDX_SELECT_F64: usize = 0xF3;
+pub const HANDLER_IDX_SELECT_REF: usize = 0x104;
 
 // Type-specialized global.get handler constants
 pub const HANDLER_IDX_GLOBAL_GET_I32: usize = 0xF4;
@@ -1391,6 +1392,7 @@ select!(select_i32, get_i32, set_i32);
 select!(select_i64, get_i64, set_i64);
 select!(select_f32, get_f32, set_f32);
 select!(select_f64, get_f64, set_f64);
+select!(select_ref, get_ref, set_ref);
 
 // ============================================================================
 // Nop / Unreachable
@@ -2291,6 +2293,7 @@ pub fn select_handler(instr: &ProcessedInstr) -> Handler {
             HANDLER_IDX_SELECT_I64 => select_i64,
             HANDLER_IDX_SELECT_F32 => select_f32,
             HANDLER_IDX_SELECT_F64 => select_f64,
+            HANDLER_IDX_SELECT_REF => select_ref,
             _ => invalid,
         },
         ProcessedInstr::GlobalGetReg { handler_index, .. } => match *handler_index {
diff --git a/src/execution/stats.rs b/src/execution/stats.rs
index 9381a3c..76a531e 100644
--- a/src/execution/stats.rs
+++ b/src/execution/stats.rs
@@ -52,7 +52,8 @@ impl ExecutionStats {
             HANDLER_IDX_SELECT_I32
             | HANDLER_IDX_SELECT_I64
             | HANDLER_IDX_SELECT_F32
-            | HANDLER_IDX_SELECT_F64 => "select",
+            | HANDLER_IDX_SELECT_F64
+            | HANDLER_IDX_SELECT_REF => "select",
 
             // Variable Instructions
             HANDLER_IDX_LOCAL_GET => "local.get",
diff --git a/src/execution/trace.rs b/src/execution/trace.rs
index c45a8b8..fdc0328 100644
--- a/src/execution/trace.rs
+++ b/src/execution/trace.rs
@@ -325,7 +325,8 @@ impl Tracer {
             HANDLER_IDX_SELECT_I32
             | HANDLER_IDX_SELECT_I64
             | HANDLER_IDX_SELECT_F32
-            | HANDLER_IDX_SELECT_F64 => "select",
+            | HANDLER_IDX_SELECT_F64
+            | HANDLER_IDX_SELECT_REF => "select",
 
             // Variable Instructions
             HANDLER_IDX_LOCAL_GET => "local.get",
diff --git a/src/parser.rs b/src/parser.rs
index b5c4654..66fc2a3 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -7073,7 +7073,7 @@ fn decode_processed_instrs_and_fixups<'a>(
                         ValueType::NumType(NumType::I64) => HANDLER_IDX_SELECT_I64,
                         ValueType::NumType(NumType::F32) => HANDLER_IDX_SELECT_F32,
                         ValueType::NumType(NumType::F64) => HANDLER_IDX_SELECT_F64,
-                        ValueType::RefType(_) => HANDLER_IDX_SELECT_I64,
+                        ValueType::RefType(_) => HANDLER_IDX_SELECT_REF,
                         ValueType::VecType(_) => panic!("VecType not supported for Select"),
                     };
 
-- 
2.43.0


From cb42fdf395da79e2a2ff8324431b2bb720f94cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:46 +0000
Subject: [PATCH 06/27] fix: table.fill traps on every out-of-bounds range
 before writing

---
 src/execution/table.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/execution/table.rs b/src/execution/table.rs
index ca359ee..e29deb9 100644
--- a/src/execution/table.rs
+++ b/src/execution/table.rs
@@ -57,9 +57,7 @@ impl TableAddr {
     /// Out-of-bounds panics; host runtime traps.
     pub fn fill(&self, i: usize, val: Val, n: usize) {
         let mut inst = self.0.borrow_mut();
-        for idx in i..i + n {
-            inst.elem[idx] = val.clone();
-        }
+        inst.elem[i..][..n].fill(val);
     }
 
     /// Gets function address at index for call_indirect.
-- 
2.43.0


From e685f4b8d917ad7f9de3f9dc420fdc8fd022bccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:56 +0000
Subject: [PATCH 07/27] fix: memory.init traps on an out-of-range source even
 when it copies nothing

---
 src/execution/handlers.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/execution/handlers.rs b/src/execution/handlers.rs
index 1128d02..bd98c53 100644
--- a/src/execution/handlers.rs
+++ b/src/execution/handlers.rs
@@ -2054,9 +2054,8 @@ pub fn mem_init(state: &mut VmState) -> Outcome {
     let dest = regs.get_i32(args[0].index()) as usize;
     let offset = regs.get_i32(args[1].index()) as usize;
     let len = regs.get_i32(args[2].index()) as usize;
-    if len > 0 {
-        mem_addr.init(dest, &data_bytes[offset..offset + len]);
-    }
+    // An out-of-range source panics even when nothing is copied; host runtime traps.
+    mem_addr.init(dest, &data_bytes[offset..][..len]);
     state.pc += 1;
     advance!(state)
 }
-- 
2.43.0


From 5805d2432198c520e653b3ab6627166e7eb9c3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:58 +0000
Subject: [PATCH 08/27] fix: branches with results of different types copy the
 right registers

---
 src/parser.rs | 56 +++++++++------------------------------------------
 1 file changed, 10 insertions(+), 46 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 66fc2a3..2be18be 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -7358,52 +7358,16 @@ fn compute_branch_regs(
         target_block.result_regs.clone()
     };
 
-    // Compute source_regs from current allocator state
-    let source_regs = if let Some(allocator) = reg_allocator {
-        // Get the registers at stack top matching result types
-        let result_count = target_result_regs.len();
-        if result_count == 0 {
-            Vec::new()
-        } else {
-            // Get current state and compute source registers
-            let state = allocator.save_state();
-            target_result_regs
-                .iter()
-                .enumerate()
-                .map(|(i, target_reg)| {
-                    // Source register is at current_depth - result_count + i
-                    match target_reg {
-                        Reg::I32(_) => {
-                            let src_idx = state.i32_depth.saturating_sub(result_count - i);
-                            Reg::I32(src_idx as u16)
-                        }
-                        Reg::I64(_) => {
-                            let src_idx = state.i64_depth.saturating_sub(result_count - i);
-                            Reg::I64(src_idx as u16)
-                        }
-                        Reg::F32(_) => {
-                            let src_idx = state.f32_depth.saturating_sub(result_count - i);
-                            Reg::F32(src_idx as u16)
-                        }
-                        Reg::F64(_) => {
-                            let src_idx = state.f64_depth.saturating_sub(result_count - i);
-                            Reg::F64(src_idx as u16)
-                        }
-                        Reg::Ref(_) => {
-                            let src_idx = state.ref_depth.saturating_sub(result_count - i);
-                            Reg::Ref(src_idx as u16)
-                        }
-                        Reg::V128(_) => {
-                            let src_idx = state.v128_depth.saturating_sub(result_count - i);
-                            Reg::V128(src_idx as u16)
-                        }
-                    }
-                })
-                .collect()
-        }
-    } else {
-        Vec::new()
-    };
+    // Source registers are the values on top of the stack that the label's types
+    // describe. Each register type has its own stack, so the position of a value
+    // depends only on the label values of the same type.
+    let label_types: Vec<ValueType> = target_result_regs
+        .iter()
+        .map(|reg| reg.value_type())
+        .collect();
+    let source_regs = reg_allocator
+        .map(|allocator| allocator.peek_regs_for_types(&label_types))
+        .unwrap_or_default();
 
     (source_regs, target_result_regs)
 }
-- 
2.43.0


From e5b5e89bd7c3e3eb43b99ca5fdcdbc25f28a80ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:17 +0000
Subject: [PATCH 09/27] fix: a branch to a loop with parameters passes them to
 the next iteration

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 2be18be..d16b5e9 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -5252,7 +5252,7 @@ fn decode_processed_instrs_and_fixups<'a>(
                         block_type: *blockty,
                         is_loop,
                         result_regs: result_regs.into(),
-                        param_regs: Vec::new(),
+                        param_regs: allocator.peek_regs_for_types(&param_types),
                     });
 
                     let instr = ProcessedInstr::BlockReg {
-- 
2.43.0


From c13f856d63001858e434feccc9310ecca60a000c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:56 +0000
Subject: [PATCH 10/27] fix: a branch to function level returns the function's
 results

---
 src/parser.rs | 60 +++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 44 insertions(+), 16 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index d16b5e9..d04e454 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1370,8 +1370,8 @@ fn preprocess_instructions(
 
         if current_control_stack_pass2.len() <= current_fixup_depth {
             // Depth exceeds control stack - this is a branch to function level (return)
-            // Set target_ip to end of function (processed.len())
-            let function_end_ip = processed.len();
+            // The target is the function's End, which returns the results
+            let function_end_ip = processed.len().saturating_sub(1);
             if let Some(instr_to_patch) = processed.get_mut(current_fixup_pc) {
                 if let ProcessedInstr::BrReg {
                     target_ip: ref mut tip,
@@ -1493,6 +1493,9 @@ fn preprocess_instructions(
     // Reuse control stack simulation logic, including runtime index tracking
     let mut current_control_stack_pass3: Vec<(usize, bool, wasmparser::BlockType)> = Vec::new();
 
+    // Branches to function level target the function's End, which returns the results
+    let function_end_ip = processed.len().saturating_sub(1);
+
     for pc in 0..processed.len() {
         if let Some(instr) = processed.get(pc) {
             match instr.handler_index() {
@@ -1543,7 +1546,12 @@ fn preprocess_instructions(
                     for (rel_depth, _, result_regs) in targets_clone.iter() {
                         let depth = *rel_depth as usize;
                         if current_control_stack_pass3.len() <= depth {
-                            resolved_reg_targets.push((*rel_depth, 0, result_regs.clone())); // Invalid
+                            // Branch to function level
+                            resolved_reg_targets.push((
+                                *rel_depth,
+                                function_end_ip,
+                                result_regs.clone(),
+                            ));
                             continue;
                         }
                         let target_stack_level = current_control_stack_pass3.len() - 1 - depth;
@@ -1561,7 +1569,7 @@ fn preprocess_instructions(
                     // Compute target_ip for default target
                     // Note: block_end_map already stores End + 1 position
                     let default_target_ip = if current_control_stack_pass3.len() <= default_depth {
-                        0 // Invalid
+                        function_end_ip // Branch to function level
                     } else {
                         let target_stack_level =
                             current_control_stack_pass3.len() - 1 - default_depth;
@@ -1920,6 +1928,15 @@ fn decode_processed_instrs_and_fixups<'a>(
     use crate::execution::regs::RegAllocator;
     let mut reg_allocator = Some(RegAllocator::new(locals));
 
+    // Registers that hold the function's results at its End
+    let function_result_regs: Vec<Reg> = {
+        let mut state = RegAllocator::new(locals).save_state();
+        result_types
+            .iter()
+            .map(|vtype| state.next_reg_for_type(vtype))
+            .collect()
+    };
+
     // Track allocator state at block entry for proper restoration on block exit
     let mut allocator_state_stack: Vec<crate::execution::regs::RegAllocatorState> = Vec::new();
 
@@ -5179,7 +5196,13 @@ fn decode_processed_instrs_and_fixups<'a>(
                     };
 
                     // Get the top N registers based on result types
-                    let source_regs = allocator.peek_regs_for_types(&result_type_vec);
+                    let source_regs = if control_info_stack.is_empty() {
+                        // The function's End: its results are alone on the stack, and a
+                        // branch to function level leaves them there too
+                        function_result_regs.clone()
+                    } else {
+                        allocator.peek_regs_for_types(&result_type_vec)
+                    };
 
                     // Get target_result_regs from ControlBlockInfo BEFORE restoring state
                     let target_result_regs = if let Some(block_info) = control_info_stack.last() {
@@ -5511,6 +5534,7 @@ fn decode_processed_instrs_and_fixups<'a>(
                     let (source_regs, target_result_regs) = compute_branch_regs(
                         &control_info_stack,
                         *relative_depth as usize,
+                        &function_result_regs,
                         reg_allocator.as_ref(),
                     );
 
@@ -5541,6 +5565,7 @@ fn decode_processed_instrs_and_fixups<'a>(
                     let (source_regs, target_result_regs) = compute_branch_regs(
                         &control_info_stack,
                         *relative_depth as usize,
+                        &function_result_regs,
                         reg_allocator.as_ref(),
                     );
 
@@ -5578,6 +5603,7 @@ fn decode_processed_instrs_and_fixups<'a>(
                         let (_, target_result_regs) = compute_branch_regs(
                             &control_info_stack,
                             *depth as usize,
+                            &function_result_regs,
                             reg_allocator.as_ref(),
                         );
                         table_targets.push((
@@ -5592,6 +5618,7 @@ fn decode_processed_instrs_and_fixups<'a>(
                     let (source_regs, default_result_regs) = compute_branch_regs(
                         &control_info_stack,
                         targets.default() as usize,
+                        &function_result_regs,
                         reg_allocator.as_ref(),
                     );
                     let default_target = (
@@ -7340,22 +7367,23 @@ fn decode_processed_instrs_and_fixups<'a>(
 fn compute_branch_regs(
     control_info_stack: &[ControlBlockInfo],
     relative_depth: usize,
+    function_result_regs: &[Reg],
     reg_allocator: Option<&RegAllocator>,
 ) -> (Vec<Reg>, Vec<Reg>) {
     // Get target block from control_info_stack
     let stack_len = control_info_stack.len();
-    if stack_len == 0 || relative_depth >= stack_len {
-        return (Vec::new(), Vec::new());
-    }
-
-    let target_idx = stack_len - 1 - relative_depth;
-    let target_block = &control_info_stack[target_idx];
-    // For loops, use param_regs (branch provides parameters)
-    // For blocks/if, use result_regs (branch provides results)
-    let target_result_regs = if target_block.is_loop {
-        target_block.param_regs.clone()
+    let target_result_regs = if relative_depth >= stack_len {
+        // Branch to function level: the results go where the function's End reads them
+        function_result_regs.to_vec()
     } else {
-        target_block.result_regs.clone()
+        let target_block = &control_info_stack[stack_len - 1 - relative_depth];
+        // For loops, use param_regs (branch provides parameters)
+        // For blocks/if, use result_regs (branch provides results)
+        if target_block.is_loop {
+            target_block.param_regs.clone()
+        } else {
+            target_block.result_regs.clone()
+        }
     };
 
     // Source registers are the values on top of the stack that the label's types
-- 
2.43.0


From 10b7057d896442df2fe5a3fe979da84ad76eb5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:38 +0000
Subject: [PATCH 11/27] fix: keep the checkpoint poll counter across calls and
 returns

---
 src/execution/runtime.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/execution/runtime.rs b/src/execution/runtime.rs
index b56d064..cffb7be 100644
--- a/src/execution/runtime.rs
+++ b/src/execution/runtime.rs
@@ -32,6 +32,8 @@ pub struct Runtime {
     #[cfg_attr(not(feature = "stats"), allow(dead_code))]
     enable_stats: bool,
     enable_checkpoint: bool,
+    /// Poll throttle counter, carried from one frame's dispatch to the next
+    checkpoint_poll_counter: u32,
 }
 
 impl Drop for Runtime {
@@ -82,6 +84,7 @@ impl Runtime {
             tracer,
             enable_stats,
             enable_checkpoint,
+            checkpoint_poll_counter: 0,
         })
     }
 
@@ -120,6 +123,7 @@ impl Runtime {
             tracer,
             enable_stats,
             enable_checkpoint,
+            checkpoint_poll_counter: 0,
         }
     }
 
@@ -169,10 +173,11 @@ impl Runtime {
             yielded: None,
             return_result_regs: return_result_regs_ptr,
             enable_checkpoint,
-            checkpoint_poll_counter: 0,
+            checkpoint_poll_counter: self.checkpoint_poll_counter,
         };
 
         let outcome = dispatch::execute_instructions(&mut state);
+        self.checkpoint_poll_counter = state.checkpoint_poll_counter;
 
         let idx = state.current_label_idx;
         if idx < state.label_stack().len() {
-- 
2.43.0


From 69f0b09bee4475925edba1e7d350093853897bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:38 +0000
Subject: [PATCH 12/27] fix: checkpointing stays enabled in every restored
 frame

---
 src/execution/runtime.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/execution/runtime.rs b/src/execution/runtime.rs
index cffb7be..9aba9fb 100644
--- a/src/execution/runtime.rs
+++ b/src/execution/runtime.rs
@@ -224,8 +224,9 @@ impl Runtime {
             }
         }
 
-        // Set checkpoint enabled flag for initial frame stack
-        if let Some(frame_stack) = self.stacks.activation_frame_stack.first_mut() {
+        // Set checkpoint enabled flag for all frames present at the start (one for a fresh
+        // runtime, every live frame for a restored one)
+        for frame_stack in self.stacks.activation_frame_stack.iter_mut() {
             frame_stack.enable_checkpoint = self.enable_checkpoint;
         }
 
-- 
2.43.0


From 725b3e35b148741e4a1dcc3d6153c2bf3bb9c235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:41 +0000
Subject: [PATCH 13/27] fix: restore fails when the checkpoint does not fit the
 module

---
 src/execution/migration.rs | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/execution/migration.rs b/src/execution/migration.rs
index 0543d7a..21bb389 100644
--- a/src/execution/migration.rs
+++ b/src/execution/migration.rs
@@ -301,7 +301,9 @@ pub fn restore<P: AsRef<Path>>(
         mem_addr.set_data(memory_data);
         println!("Memory state restored into module instance.");
     } else if !state.memory_data_compressed.is_empty() {
-        eprintln!("Warning: Checkpoint contains memory data, but module has no memory instance.");
+        return Err(RuntimeError::CheckpointLoadError(
+            "checkpoint contains memory data, but module has no memory instance".to_string(),
+        ));
     }
 
     // 4. Restore global state into module_inst
@@ -311,14 +313,19 @@ pub fn restore<P: AsRef<Path>>(
         }
         println!("Global state restored into module instance.");
     } else {
-        eprintln!(
-            "Warning: Mismatch in global variable count between module ({}) and checkpoint ({}). Globals not restored.",
+        return Err(RuntimeError::CheckpointLoadError(format!(
+            "mismatch in global variable count between module ({}) and checkpoint ({})",
             module_inst.global_addrs.len(),
             state.global_values.len()
-        );
+        )));
     }
 
     // 5. Reconstruct skipped fields in Stacks (Frame::module, primary_mem, processed_instrs)
+    if state.frame_func_indices.len() != state.stacks.activation_frame_stack.len() {
+        return Err(RuntimeError::CheckpointLoadError(
+            "mismatch in frame count of the checkpoint".to_string(),
+        ));
+    }
     let primary_mem = module_inst.mem_addrs.first().cloned();
     for (frame_stack, &func_idx) in state
         .stacks
@@ -330,7 +337,15 @@ pub fn restore<P: AsRef<Path>>(
         frame_stack.primary_mem = primary_mem.clone();
 
         // Reconstruct skipped fields from module function body
-        let func_addr = &module_inst.func_addrs[func_idx as usize];
+        let func_addr = module_inst
+            .func_addrs
+            .get(func_idx as usize)
+            .ok_or_else(|| {
+                RuntimeError::CheckpointLoadError(format!(
+                    "module has no function {} of the checkpoint",
+                    func_idx
+                ))
+            })?;
         let func_inst = func_addr.read_lock();
         if let FuncInst::RuntimeFunc { code, .. } = func_inst {
             let body = code.body.clone();
@@ -339,6 +354,11 @@ pub fn restore<P: AsRef<Path>>(
             }
             // v2 dispatcher: handler array (function pointers) — Rc<Vec<Handler>>
             frame_stack.handlers = code.handlers.clone();
+        } else {
+            return Err(RuntimeError::CheckpointLoadError(format!(
+                "function {} of the checkpoint is not defined by the module",
+                func_idx
+            )));
         }
 
         // v2 dispatcher: cached raw pointer to memory data
-- 
2.43.0


From e1472fa9bc46821338366460e9b2fce28ff3f8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:22 +0000
Subject: [PATCH 14/27] fix: the command-line tool refuses modules that do not
 validate or decode

---
 src/main.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 163dc3f..6089d1b 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -146,7 +146,9 @@ fn main() -> Result<()> {
     }
 
     let mut module = Module::new("test");
-    let _ = parser::parse_bytecode(&mut module, &cli.wasm_file);
+    wasmparser::validate(&std::fs::read(&cli.wasm_file)?)?;
+    parser::parse_bytecode(&mut module, &cli.wasm_file)
+        .map_err(|e| anyhow::anyhow!("Failed to load {}: {}", cli.wasm_file, e))?;
     let imports: ImportObjects = FxHashMap::default();
 
     let mut wasm_argv = vec![cli.wasm_file.clone()];
-- 
2.43.0


From 85059c2633a6cba32a45f2d483a87d645fbf10b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:44 +0000
Subject: [PATCH 15/27] fix: modules without WASI imports notice checkpoint
 requests

---
 src/execution/migration.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/execution/migration.rs b/src/execution/migration.rs
index 21bb389..f948655 100644
--- a/src/execution/migration.rs
+++ b/src/execution/migration.rs
@@ -125,13 +125,15 @@ fn do_poll_checkpoint(state: &mut VmState) -> bool {
         if state.checkpoint_poll_counter & CHECKPOINT_POLL_MASK != 0 {
             return false;
         }
-        if let Some(ref wasi) = state.module().wasi_impl {
-            if wasi.check_file_exists(CHECKPOINT_TRIGGER_FILE) {
-                let _ = std::fs::remove_file(CHECKPOINT_TRIGGER_FILE);
-                return true;
-            }
+        let triggered = match state.module().wasi_impl {
+            Some(ref wasi) => wasi.check_file_exists(CHECKPOINT_TRIGGER_FILE),
+            // Modules without WASI imports have no WASI implementation to ask.
+            None => Path::new(CHECKPOINT_TRIGGER_FILE).exists(),
+        };
+        if triggered {
+            let _ = std::fs::remove_file(CHECKPOINT_TRIGGER_FILE);
         }
-        false
+        triggered
     }
 }
 
-- 
2.43.0


From d5d5baa3bd57579673b04e21345bbd756ada230c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:27 +0000
Subject: [PATCH 16/27] fix: imported WASI functions can be called indirectly

---
 src/execution/runtime.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/execution/runtime.rs b/src/execution/runtime.rs
index 9aba9fb..9c82c11 100644
--- a/src/execution/runtime.rs
+++ b/src/execution/runtime.rs
@@ -373,10 +373,27 @@ impl Runtime {
                                         Err(e) => return Err(e),
                                     }
                                 }
-                                FuncInst::WasiFunc { .. } => {
-                                    return Err(RuntimeError::ExecutionFailed(
-                                        "WASI function called via InvokeReg - use CallWasiReg",
-                                    ));
+                                FuncInst::WasiFunc { wasi_func_addr, .. } => {
+                                    // Imported WASI function called through a table
+                                    let wasi_func_type = &wasi_func_addr.func_type;
+                                    match self.call_wasi_function(wasi_func_type, &params) {
+                                        Ok(result) => {
+                                            if let (Some(reg), Some(val)) =
+                                                (result_regs.first(), result)
+                                            {
+                                                self.stacks.reg_file.set_val(reg, &val);
+                                            }
+                                        }
+                                        Err(e) => {
+                                            eprintln!(
+                                                "WASI function call failed: {:?}, error: {:?}",
+                                                wasi_func_type, e
+                                            );
+                                            return Err(RuntimeError::ExecutionFailed(
+                                                "WASI function call failed",
+                                            ));
+                                        }
+                                    }
                                 }
                             }
                         }
-- 
2.43.0


From fc2dbb726b64b1659b4dfa1a60ca04d835cf178c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:59 +0000
Subject: [PATCH 17/27] fix: RegFile::set_val stores v128 values like those of
 every other type

---
 src/execution/regs.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/execution/regs.rs b/src/execution/regs.rs
index 9887a7d..d700ab2 100644
--- a/src/execution/regs.rs
+++ b/src/execution/regs.rs
@@ -385,7 +385,11 @@ impl RegFile {
                     self.set_ref(*idx, r.clone());
                 }
             }
-            Reg::V128(_) => {}
+            Reg::V128(idx) => {
+                if let Val::Vec_(Vec_::V128(v)) = val {
+                    self.set_v128(*idx, *v);
+                }
+            }
         }
     }
 
-- 
2.43.0


From eb8307dc7b62a8a19a6e7b3f466e7c6726d89d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:55 +0000
Subject: [PATCH 18/27] fix: args_get and environ_get write only as many
 pointers as the sizes calls report

---
 src/wasi/passthrough.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/wasi/passthrough.rs b/src/wasi/passthrough.rs
index 9b44f41..67c43be 100644
--- a/src/wasi/passthrough.rs
+++ b/src/wasi/passthrough.rs
@@ -356,7 +356,7 @@ impl PassthroughWasiImpl {
         }
 
         // Calculate pointer offsets relative to environ_buf_ptr
-        let mut ptr_data = Vec::with_capacity((environ_count as usize + 1) * 4);
+        let mut ptr_data = Vec::with_capacity(environ_count as usize * 4);
         for i in 0..environ_count as usize {
             if !environ_ptrs[i].is_null() {
                 // Calculate offset from the start of environ_buf
@@ -367,8 +367,6 @@ impl PassthroughWasiImpl {
                 ptr_data.extend_from_slice(&0u32.to_le_bytes());
             }
         }
-        // Null terminator for environ array
-        ptr_data.extend_from_slice(&0u32.to_le_bytes());
 
         // Write pointer array to WebAssembly memory
         memory.store_bytes(environ_ptr as i32, &ptr_data);
@@ -412,7 +410,7 @@ impl PassthroughWasiImpl {
 
         // Build the argument buffer and pointer array
         let mut argv_buf = Vec::with_capacity(total_len);
-        let mut ptr_data = Vec::with_capacity((args.len() + 1) * 4); // +1 for null terminator
+        let mut ptr_data = Vec::with_capacity(args.len() * 4);
 
         for arg in args {
             // Store pointer to current position in buffer (relative to argv_buf_ptr)
@@ -424,9 +422,6 @@ impl PassthroughWasiImpl {
             argv_buf.push(0); // null terminator
         }
 
-        // Add null terminator for the argv array
-        ptr_data.extend_from_slice(&0u32.to_le_bytes());
-
         // Write pointer array to WebAssembly memory
         memory.store_bytes(argv_ptr as i32, &ptr_data);
 
-- 
2.43.0


From 3a435bfce2d5dab28b8f5b9bcf020fbcdaf0aeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:54 +0000
Subject: [PATCH 19/27] fix: sock_recv and sock_send translate the guest's
 buffers before handing them to the host

---
 src/wasi/passthrough.rs | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/wasi/passthrough.rs b/src/wasi/passthrough.rs
index 67c43be..042581f 100644
--- a/src/wasi/passthrough.rs
+++ b/src/wasi/passthrough.rs
@@ -1200,6 +1200,29 @@ impl PassthroughWasiImpl {
         Ok(wasi_errno as i32)
     }
 
+    /// Builds the host's view of an array of buffers described in guest memory.
+    fn host_iovecs(data: &[u8], iovs_ptr: Ptr, iovs_len: Size) -> Vec<WasiIovec> {
+        let word =
+            |at: usize| u32::from_le_bytes([data[at], data[at + 1], data[at + 2], data[at + 3]]);
+
+        (0..iovs_len as usize)
+            .map(|i| {
+                let iovec_offset = iovs_ptr as usize + i * 8;
+                let buf_ptr = word(iovec_offset);
+                let buf_len = word(iovec_offset + 4);
+
+                WasiIovec {
+                    buf: if buf_len == 0 {
+                        std::ptr::null()
+                    } else {
+                        unsafe { data.as_ptr().add(buf_ptr as usize) }
+                    },
+                    buf_len,
+                }
+            })
+            .collect()
+    }
+
     pub fn sock_recv(
         &self,
         memory: &MemAddr,
@@ -1212,11 +1235,12 @@ impl PassthroughWasiImpl {
     ) -> WasiResult<i32> {
         let memory_guard = memory.get_memory_direct_access();
         let memory_base = memory_guard.data.as_ptr();
+        let iovecs = Self::host_iovecs(&memory_guard.data, ri_data_ptr, ri_data_len);
 
         let wasi_errno = unsafe {
             __wasi_sock_recv(
                 fd,
-                memory_base.add(ri_data_ptr as usize) as *const WasiIovec,
+                iovecs.as_ptr(),
                 ri_data_len,
                 ri_flags,
                 memory_base.add(ro_datalen_ptr as usize) as *mut u32,
@@ -1238,11 +1262,12 @@ impl PassthroughWasiImpl {
     ) -> WasiResult<i32> {
         let memory_guard = memory.get_memory_direct_access();
         let memory_base = memory_guard.data.as_ptr();
+        let iovecs = Self::host_iovecs(&memory_guard.data, si_data_ptr, si_data_len);
 
         let wasi_errno = unsafe {
             __wasi_sock_send(
                 fd,
-                memory_base.add(si_data_ptr as usize) as *const WasiIovec,
+                iovecs.as_ptr(),
                 si_data_len,
                 si_flags,
                 memory_base.add(so_datalen_ptr as usize) as *mut u32,
-- 
2.43.0


From 009f1b60920c933941d5d8a0335baf387137d493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:32 +0000
Subject: [PATCH 20/27] fix: instantiation runs the start function

---
 src/execution/module.rs | 32 +++++++++++++++++++++++++++-----
 src/main.rs             |  7 ++++++-
 2 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/src/execution/module.rs b/src/execution/module.rs
index 6826a00..b9b2e40 100644
--- a/src/execution/module.rs
+++ b/src/execution/module.rs
@@ -3,7 +3,7 @@
 use super::value::*;
 use super::{
     data::DataAddr, elem::ElemAddr, export::ExportInst, func::FuncAddr, global::GlobalAddr,
-    mem::MemAddr, table::TableAddr,
+    mem::MemAddr, runtime::Runtime, table::TableAddr,
 };
 use crate::error::RuntimeError;
 use crate::structure::{instructions::*, module::*, types::*};
@@ -48,11 +48,36 @@ impl GetInstanceByIdx<GlobalIdx> for Vec<GlobalAddr> {}
 pub type ImportObjects = FxHashMap<String, FxHashMap<String, Externval>>;
 
 impl ModuleInst {
-    /// Instantiates a module with the given imports and command-line arguments.
+    /// Instantiates a module with the given imports and command-line arguments,
+    /// and runs its start function.
     pub fn new(
         module: &Module,
         imports: ImportObjects,
         argv: Vec<String>,
+    ) -> Result<Rc<ModuleInst>, RuntimeError> {
+        let inst = Self::new_without_start(module, imports, argv)?;
+        if let Some(start) = &module.start {
+            let func = inst.func_addrs.get_by_idx(start.func.clone());
+            Runtime::new(
+                Rc::clone(&inst),
+                func,
+                Vec::new(),
+                false,
+                false,
+                #[cfg(feature = "trace")]
+                None,
+            )?
+            .run()?;
+        }
+        Ok(inst)
+    }
+
+    /// Instantiates a module whose start function ran before a checkpoint that
+    /// is about to be restored into the instance.
+    pub fn new_without_start(
+        module: &Module,
+        imports: ImportObjects,
+        argv: Vec<String>,
     ) -> Result<Rc<ModuleInst>, RuntimeError> {
         let mut module_inst = ModuleInst {
             types: module.types.clone(),
@@ -224,9 +249,6 @@ impl ModuleInst {
             arc_module_inst.func_addrs[index]
                 .replace(func.clone(), Rc::downgrade(&arc_module_inst));
         }
-        if let Some(start) = &module.start {
-            arc_module_inst.func_addrs.get_by_idx(start.func);
-        }
         Ok(arc_module_inst)
     }
 
diff --git a/src/main.rs b/src/main.rs
index 6089d1b..d07c169 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -157,7 +157,12 @@ fn main() -> Result<()> {
         wasm_argv.extend(additional_args);
     }
 
-    let inst = ModuleInst::new(&module, imports, wasm_argv).unwrap();
+    let inst = if cli.restore.is_some() {
+        ModuleInst::new_without_start(&module, imports, wasm_argv)
+    } else {
+        ModuleInst::new(&module, imports, wasm_argv)
+    }
+    .unwrap();
 
     // Create trace configuration if trace is enabled
     #[cfg(feature = "trace")]
-- 
2.43.0


From 6b33c8381a7504c4e941233eb3dba5281181a7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:50 +0000
Subject: [PATCH 21/27] fix: active data segments are dropped once they are
 copied to memory

---
 src/execution/module.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/execution/module.rs b/src/execution/module.rs
index b9b2e40..d6316a9 100644
--- a/src/execution/module.rs
+++ b/src/execution/module.rs
@@ -211,6 +211,7 @@ impl ModuleInst {
                 };
 
                 module_inst.mem_addrs[idx as usize].init(offset as usize, &init);
+                module_inst.data_addrs[module_inst.data_addrs.len() - 1].drop_data();
             }
         }
 
-- 
2.43.0


From 1ccc8606fcd1426093fefd8ff9200be72fd38726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:09 +0000
Subject: [PATCH 22/27] fix: element segments given as expressions fill their
 tables, and ref.func initialises globals

---
 src/execution/elem.rs   | 12 ++++--------
 src/execution/module.rs | 28 +++++++++++++++++-----------
 src/execution/table.rs  | 11 ++++-------
 3 files changed, 25 insertions(+), 26 deletions(-)

diff --git a/src/execution/elem.rs b/src/execution/elem.rs
index f7d98e1..3ff8297 100644
--- a/src/execution/elem.rs
+++ b/src/execution/elem.rs
@@ -1,6 +1,6 @@
 //! Element segment instances for table initialization.
 
-use super::{func::FuncAddr, module::*, value::Ref};
+use super::value::Ref;
 use crate::structure::types::*;
 use std::cell::RefCell;
 use std::rc::Rc;
@@ -18,15 +18,11 @@ pub struct ElemInst {
 }
 
 impl ElemAddr {
-    /// Creates a new element segment from function indices.
-    pub fn new(type_: &RefType, funcs: &Vec<FuncAddr>, init: &Vec<i32>) -> ElemAddr {
-        let elem: Vec<Ref> = init
-            .into_iter()
-            .map(|i| Ref::FuncAddr(funcs.get_by_idx(FuncIdx(*i as u32)).clone()))
-            .collect();
+    /// Creates a new element segment from references.
+    pub fn new(type_: &RefType, init: &[Ref]) -> ElemAddr {
         ElemAddr(Rc::new(RefCell::new(ElemInst {
             _type_: *type_,
-            _elem: elem,
+            _elem: init.to_vec(),
         })))
     }
 }
diff --git a/src/execution/module.rs b/src/execution/module.rs
index d6316a9..9d0793e 100644
--- a/src/execution/module.rs
+++ b/src/execution/module.rs
@@ -156,18 +156,25 @@ impl ModuleInst {
         }
 
         for elem in &module.elems {
-            if elem.type_ == RefType::ExternalRef {
-                panic!();
-            }
-            let mut init: Vec<i32> = Vec::new();
+            let mut init: Vec<Ref> = Vec::new();
             if let Some(idxes) = &elem.idxes {
                 for idx in idxes {
-                    init.push(idx.0 as i32);
+                    init.push(Ref::FuncAddr(
+                        module_inst.func_addrs.get_by_idx(idx.clone()).clone(),
+                    ));
+                }
+            }
+            if let Some(exprs) = &elem.init {
+                for expr in exprs {
+                    match module_inst.expr_to_const(expr) {
+                        Some(Val::Ref(r)) => init.push(r),
+                        _ => return Err(RuntimeError::InvalidConstantExpression),
+                    }
                 }
             }
             module_inst
                 .elem_addrs
-                .push(ElemAddr::new(&elem.type_, &module_inst.func_addrs, &init));
+                .push(ElemAddr::new(&elem.type_, &init));
 
             if elem.mode == ElemMode::Active {
                 let offset_res = match &elem.offset {
@@ -183,11 +190,7 @@ impl ModuleInst {
                     Some(i) => i.0,
                     None => 0,
                 };
-                module_inst.table_addrs[table_idx as usize].init(
-                    offset as usize,
-                    &module_inst.func_addrs,
-                    &init,
-                );
+                module_inst.table_addrs[table_idx as usize].init(offset as usize, &init);
             }
         }
 
@@ -276,6 +279,9 @@ impl ModuleInst {
             &[Instr::F64Const(i)] => Some(Val::Num(Num::F64(i as f64))),
             &[Instr::V128Const(i)] => Some(Val::Vec_(Vec_::V128(i))),
             &[Instr::RefNull(_)] => Some(Val::Ref(Ref::RefNull)),
+            [Instr::RefFunc(i)] => Some(Val::Ref(Ref::FuncAddr(
+                self.func_addrs.get_by_idx(i.clone()).clone(),
+            ))),
             [Instr::GlobalGet(i)] => Some(self.global_addrs.get_by_idx(*i).get()),
             _ => None,
         }
diff --git a/src/execution/table.rs b/src/execution/table.rs
index e29deb9..e6dde90 100644
--- a/src/execution/table.rs
+++ b/src/execution/table.rs
@@ -2,7 +2,6 @@
 
 use super::{
     func::FuncAddr,
-    module::*,
     value::{self, Val},
 };
 use crate::error::RuntimeError;
@@ -34,13 +33,11 @@ impl TableAddr {
             },
         })))
     }
-    /// Initializes table elements from function indices.
-    pub fn init(&self, offset: usize, funcs: &Vec<FuncAddr>, init: &Vec<i32>) {
+    /// Initializes table elements from references.
+    pub fn init(&self, offset: usize, init: &[value::Ref]) {
         let mut addr_self = self.0.borrow_mut();
-        for (index, f) in init.iter().enumerate() {
-            addr_self.elem[index + offset] = Val::Ref(value::Ref::FuncAddr(
-                funcs.get_by_idx(FuncIdx(*f as u32)).clone(),
-            ));
+        for (index, r) in init.iter().enumerate() {
+            addr_self.elem[index + offset] = Val::Ref(r.clone());
         }
     }
     /// Gets element at index. Out-of-bounds panics; host runtime traps.
-- 
2.43.0


From 2f8f8287ea9990916bb32dde67c37529add1e8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:53 +0000
Subject: [PATCH 23/27] fix: an active element segment that is empty must still
 fit its table

---
 src/execution/table.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/execution/table.rs b/src/execution/table.rs
index e6dde90..2dc0ec6 100644
--- a/src/execution/table.rs
+++ b/src/execution/table.rs
@@ -33,11 +33,13 @@ impl TableAddr {
             },
         })))
     }
-    /// Initializes table elements from references.
+    /// Initializes table elements from references. A segment that does not fit
+    /// panics even if it is empty; host runtime traps.
     pub fn init(&self, offset: usize, init: &[value::Ref]) {
         let mut addr_self = self.0.borrow_mut();
-        for (index, r) in init.iter().enumerate() {
-            addr_self.elem[index + offset] = Val::Ref(r.clone());
+        let slots = &mut addr_self.elem[offset..offset + init.len()];
+        for (slot, r) in slots.iter_mut().zip(init) {
+            *slot = Val::Ref(r.clone());
         }
     }
     /// Gets element at index. Out-of-bounds panics; host runtime traps.
-- 
2.43.0


From 48fd1ec4761bf12b0e70f31f137a7b71643b1455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:01 +0000
Subject: [PATCH 24/27] fix: a memory of 65536 pages was instantiated with no
 bytes

---
 src/execution/mem.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/execution/mem.rs b/src/execution/mem.rs
index 5154f74..18f4396 100644
--- a/src/execution/mem.rs
+++ b/src/execution/mem.rs
@@ -23,7 +23,10 @@ pub struct MemInst {
 impl MemAddr {
     /// Creates a new memory instance with initial size from type.
     pub fn new(type_: &MemType) -> MemAddr {
-        let min = (type_.0.min * 65536) as usize;
+        // 65536 pages do not fit the address space of a 32-bit host
+        let min = (type_.0.min as usize)
+            .checked_mul(65536)
+            .expect("memory too large");
         let max = type_.0.max.map(|max| max);
         MemAddr {
             mem_inst: Rc::new(UnsafeCell::new(MemInst {
-- 
2.43.0


From f809ceb817886e4b291c81806d5f8759a0681f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:21 +0000
Subject: [PATCH 25/27] fix: functions with more than eight results abort the
 interpreter

---
 src/execution/handlers.rs |  7 +++----
 src/execution/runtime.rs  | 15 ++++++---------
 src/execution/state.rs    | 15 +++++++--------
 3 files changed, 16 insertions(+), 21 deletions(-)

diff --git a/src/execution/handlers.rs b/src/execution/handlers.rs
index bd98c53..1078f08 100644
--- a/src/execution/handlers.rs
+++ b/src/execution/handlers.rs
@@ -30,7 +30,6 @@ use crate::execution::operand;
 use crate::execution::regs::Reg;
 use crate::execution::state::{Label, LabelStack, ModuleLevelInstr, VmState};
 use crate::execution::value::Val;
-use arrayvec::ArrayVec;
 
 // ============================================================================
 // Handler index constants
@@ -1655,7 +1654,7 @@ pub fn call(state: &mut VmState) -> Outcome {
     };
     let regs = state.reg_file();
     let params: Vec<Val> = param_regs.iter().map(|r| regs.get_val(r)).collect();
-    let result_regs_vec: ArrayVec<Reg, 8> = result_regs.iter().copied().collect();
+    let result_regs_vec: Vec<Reg> = result_regs.iter().copied().collect();
     state.pc += 1;
     state.yielded = Some(ModuleLevelInstr::InvokeReg {
         func_addr,
@@ -1699,7 +1698,7 @@ pub fn call_indirect(state: &mut VmState) -> Outcome {
     }
     let regs = state.reg_file();
     let params: Vec<Val> = param_regs.iter().map(|r| regs.get_val(r)).collect();
-    let result_regs_vec: ArrayVec<Reg, 8> = result_regs.iter().copied().collect();
+    let result_regs_vec: Vec<Reg> = result_regs.iter().copied().collect();
     state.pc += 1;
     state.yielded = Some(ModuleLevelInstr::InvokeReg {
         func_addr,
@@ -1737,7 +1736,7 @@ pub fn r#return(state: &mut VmState) -> Outcome {
     let ProcessedInstr::ReturnReg { result_regs } = instr else {
         unsafe { std::hint::unreachable_unchecked() }
     };
-    let rrr: ArrayVec<Reg, 8> = result_regs.iter().copied().collect();
+    let rrr: Vec<Reg> = result_regs.iter().copied().collect();
     *state.return_result_regs_mut() = rrr;
     state.yielded = Some(ModuleLevelInstr::Return);
     Outcome::Yield
diff --git a/src/execution/runtime.rs b/src/execution/runtime.rs
index 9c82c11..8a53961 100644
--- a/src/execution/runtime.rs
+++ b/src/execution/runtime.rs
@@ -16,7 +16,6 @@ use crate::execution::value::{Num, Ref, Val, Vec_};
 use crate::structure::module::WasiFuncType;
 use crate::structure::types::{NumType, ValueType, VecType};
 use crate::wasi::{WasiError, WasiResult};
-use arrayvec::ArrayVec;
 use std::path::Path;
 use std::rc::Rc;
 #[cfg(all(target_os = "wasi", target_env = "p1", target_feature = "atomics"))]
@@ -154,8 +153,8 @@ impl Runtime {
         let locals_ptr = frame_stack.frame.locals.as_mut_ptr();
         let label_stack_ptr: *mut Vec<LabelStack> =
             &mut frame_stack.label_stack as *mut Vec<LabelStack>;
-        let return_result_regs_ptr: *mut ArrayVec<Reg, 8> =
-            &mut frame_stack.return_result_regs as *mut ArrayVec<Reg, 8>;
+        let return_result_regs_ptr: *mut Vec<Reg> =
+            &mut frame_stack.return_result_regs as *mut Vec<Reg>;
         let enable_checkpoint = frame_stack.enable_checkpoint;
 
         let mut state = VmState {
@@ -352,8 +351,8 @@ impl Runtime {
                                             ip: 0,
                                         }],
                                         enable_checkpoint: self.enable_checkpoint,
-                                        result_regs: ArrayVec::new(),
-                                        return_result_regs: ArrayVec::new(),
+                                        result_regs: Vec::new(),
+                                        return_result_regs: Vec::new(),
                                         primary_mem,
                                         cached_mem_ptr,
                                         handlers: code.handlers.clone(),
@@ -405,8 +404,7 @@ impl Runtime {
 
                             if self.stacks.activation_frame_stack.is_empty() {
                                 // Read values from registers before restoring
-                                // Use ArrayVec to avoid heap allocation (most functions return 0-2 values)
-                                let values_to_pass: ArrayVec<Val, 8> = return_result_regs
+                                let values_to_pass: Vec<Val> = return_result_regs
                                     .iter()
                                     .take(expected_n)
                                     .map(|reg| self.stacks.reg_file.get_val(reg))
@@ -415,8 +413,7 @@ impl Runtime {
                                 return Ok(values_to_pass.into_iter().collect());
                             } else {
                                 // First read values from finished frame's registers (before restore)
-                                // Use ArrayVec to avoid heap allocation
-                                let values_to_pass: ArrayVec<Val, 8> = return_result_regs
+                                let values_to_pass: Vec<Val> = return_result_regs
                                     .iter()
                                     .map(|reg| self.stacks.reg_file.get_val(reg))
                                     .collect();
diff --git a/src/execution/state.rs b/src/execution/state.rs
index 8b9cdf6..f86b752 100644
--- a/src/execution/state.rs
+++ b/src/execution/state.rs
@@ -15,7 +15,6 @@ use crate::execution::regs::{Reg, RegFile};
 use crate::execution::value::{Num, Ref, Val, Vec_};
 use crate::structure::module::WasiFuncType;
 use crate::structure::types::{NumType, ValueType, VecType};
-use arrayvec::ArrayVec;
 use serde::{Deserialize, Deserializer, Serialize, Serializer};
 use std::rc::{Rc, Weak};
 
@@ -46,7 +45,7 @@ pub struct VmState {
     // Outcome channels
     pub trap: Option<RuntimeError>,
     pub yielded: Option<ModuleLevelInstr>,
-    pub return_result_regs: *mut ArrayVec<Reg, 8>,
+    pub return_result_regs: *mut Vec<Reg>,
 
     // Per-frame flags
     pub enable_checkpoint: bool,
@@ -113,7 +112,7 @@ impl VmState {
 
     /// Mutable reference to the return-value register slot.
     #[inline(always)]
-    pub fn return_result_regs_mut(&mut self) -> &mut ArrayVec<Reg, 8> {
+    pub fn return_result_regs_mut(&mut self) -> &mut Vec<Reg> {
         unsafe { &mut *self.return_result_regs }
     }
 }
@@ -130,7 +129,7 @@ pub enum ModuleLevelInstr {
     InvokeReg {
         func_addr: FuncAddr,
         params: Vec<Val>,
-        result_regs: ArrayVec<Reg, 8>,
+        result_regs: Vec<Reg>,
     },
 }
 
@@ -194,8 +193,8 @@ impl VMState {
                         ip: 0,
                     }],
                     enable_checkpoint: false,
-                    result_regs: ArrayVec::new(),
-                    return_result_regs: ArrayVec::new(),
+                    result_regs: Vec::new(),
+                    return_result_regs: Vec::new(),
                     primary_mem,
                     cached_mem_ptr,
                     handlers: code.handlers.clone(),
@@ -232,8 +231,8 @@ pub struct FrameStack {
     pub label_stack: Vec<LabelStack>,
     #[serde(skip)]
     pub enable_checkpoint: bool,
-    pub result_regs: ArrayVec<Reg, 8>,
-    pub return_result_regs: ArrayVec<Reg, 8>,
+    pub result_regs: Vec<Reg>,
+    pub return_result_regs: Vec<Reg>,
     #[serde(skip)]
     pub primary_mem: Option<MemAddr>,
     #[serde(skip)]
-- 
2.43.0


From 4b45247426f22efe9b564ceb247f56ec3867bc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:25 +0000
Subject: [PATCH 26/27] fix: a function needing more than 65536 registers of a
 type ran with wrapped register numbers

---
 src/parser.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index d04e454..f97399f 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1240,6 +1240,22 @@ fn decode_code_section(
         block_result_regs_map,
     ) = decode_processed_instrs_and_fixups(ops_iter, module, &locals, &param_types, &result_types)?;
 
+    // Registers are numbered with 16 bits per type
+    if let Some(allocation) = &reg_allocation {
+        let most = allocation
+            .i32_count
+            .max(allocation.i64_count)
+            .max(allocation.f32_count)
+            .max(allocation.f64_count)
+            .max(allocation.ref_count)
+            .max(allocation.v128_count);
+        if most > u16::MAX as usize + 1 {
+            return Err(Box::new(RuntimeError::InvalidWasm(
+                "Function needs more registers than can be numbered",
+            )) as Box<dyn std::error::Error>);
+        }
+    }
+
     let relative_func_index = func_index - module.num_imported_funcs;
     if let Some(func) = module.funcs.get_mut(relative_func_index) {
         func.locals = locals;
-- 
2.43.0


From b6d27486ca8bdc615e72ba012e13927106ef1abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:06:26 +0000
Subject: [PATCH 27/27] fix: a WASI import declared with another type than the
 WASI function's is refused

---
 src/parser.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index f97399f..de03237 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -912,6 +912,16 @@ fn decode_import_section(
             TypeRef::Func(type_index) => {
                 if import.module == "wasi_snapshot_preview1" {
                     if let Some(wasi_func_type) = parse_wasi_function(&import.name) {
+                        // Calls are compiled and run with the type WASI gives the function
+                        let expected = wasi_func_type.expected_func_type();
+                        let actual = module.types.get(type_index as usize);
+                        if actual != Some(&expected) {
+                            return Err(Box::new(ParserError::WasiFunctionTypeMismatch {
+                                function: import.name.to_string(),
+                                expected: format!("{:?}", expected),
+                                actual: format!("{:?}", actual),
+                            }));
+                        }
                         module.num_imported_funcs += 1;
                         ImportDesc::WasiFunc(wasi_func_type)
                     } else {
-- 
2.43.0

