From 47b25457298624303c7907cbd6a48488524ec789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:30 +0000
Subject: [PATCH 01/33] fix: do not fuse local.tee with a local.get across a
 label

---
 crates/parser/src/visit.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/parser/src/visit.rs b/crates/parser/src/visit.rs
index dae9ff2..21e6cd5 100644
--- a/crates/parser/src/visit.rs
+++ b/crates/parser/src/visit.rs
@@ -108,6 +108,8 @@ pub(crate) struct FunctionBuilder<'a> {
     metadata: &'a ModuleMetadata,
     local_types: Vec<OperandSize>,
     local_addr_map: Vec<u16>,
+    /// Position of the most recent loop start or block end, which later jumps may target.
+    label_ip: usize,
 }
 
 impl<'a> FunctionBuilder<'a> {
@@ -139,6 +141,7 @@ impl<'a> FunctionBuilder<'a> {
             }],
             operand_stack: Vec::new(),
             lane_counts: ValueCounts::default(),
+            label_ip: 0,
         }
     }
 }
@@ -462,7 +465,9 @@ impl<'a> wasmparser::VisitOperator<'a> for FunctionBuilder<'_> {
     fn visit_local_tee(&mut self, idx: u32) -> Self::Output {
         let (size, local_idx) = self.local(idx)?;
         self.apply_effect(&[size], &[size])?;
-        let src = match (size, self.instructions.last()) {
+        // A label bound after the last instruction means that it only produces the operand on one of the paths.
+        let previous = self.instructions.last().filter(|_| self.label_ip != self.instructions.len());
+        let src = match (size, previous) {
             (OperandSize::S32, Some(Instruction::LocalGet32(src))) => Some(*src),
             (OperandSize::S64, Some(Instruction::LocalGet64(src))) => Some(*src),
             (OperandSize::S128, Some(Instruction::LocalGet128(src))) => Some(*src),
@@ -534,6 +539,7 @@ impl<'a> wasmparser::VisitOperator<'a> for FunctionBuilder<'_> {
             if let Some(parent) = self.control_stack.last_mut() {
                 parent.unreachable = !reachable;
             }
+            self.label_ip = self.instructions.len();
             self.patch_end_jumps(ctx, self.instructions.len());
         }
         Ok(())
@@ -999,6 +1005,9 @@ impl FunctionBuilder<'_> {
         let base = self.lane_counts;
         self.push_sizes(&signature.params)?;
         let entry_unreachable = self.is_unreachable();
+        if matches!(kind, BlockKind::Loop) {
+            self.label_ip = self.instructions.len();
+        }
         self.control_stack.push(ControlFrame {
             kind,
             has_else: false,
-- 
2.43.0


From 2806b03a308ef4910bbe8d63239547491ad08137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:31 +0000
Subject: [PATCH 02/33] fix: use the right shift amounts when rewriting shift
 pairs to sign extensions

---
 crates/parser/src/optimize.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/parser/src/optimize.rs b/crates/parser/src/optimize.rs
index 80dfa0d..b346234 100644
--- a/crates/parser/src/optimize.rs
+++ b/crates/parser/src/optimize.rs
@@ -105,7 +105,7 @@ fn rewrite(
                 rewrite!(instrs, i, [LocalGet32(local), Const32(c)] => BinOpLocalConst32(op, local, c));
                 rewrite!(instrs, i, [GlobalGet(global)] => BinOpStackGlobal32(op, global));
                 if matches!(op, BinOp::IShrS) {
-                    rewrite!(instrs, i, [BinOpLocalConst32(BinOp::IShl, local, 8), Const32(8)] => [LocalGet32(local), I32Extend8S]);
+                    rewrite!(instrs, i, [BinOpLocalConst32(BinOp::IShl, local, 24), Const32(24)] => [LocalGet32(local), I32Extend8S]);
                     rewrite!(instrs, i, [BinOpLocalConst32(BinOp::IShl, local, 16), Const32(16)] => [LocalGet32(local), I32Extend16S]);
                 }
             }
@@ -126,8 +126,8 @@ fn rewrite(
                 rewrite!(instrs, i, [LocalGet64(local), Const64(c)] => BinOpLocalConst64(op, local, c));
                 rewrite!(instrs, i, [GlobalGet(global)] => BinOpStackGlobal64(op, global));
                 if matches!(op, BinOp::IShrS) {
-                    rewrite!(instrs, i, [BinOpLocalConst64(BinOp::IShl, local, 8), Const64(8)] => [LocalGet64(local), I64Extend8S]);
-                    rewrite!(instrs, i, [BinOpLocalConst64(BinOp::IShl, local, 16), Const64(16)] => [LocalGet64(local), I64Extend16S]);
+                    rewrite!(instrs, i, [BinOpLocalConst64(BinOp::IShl, local, 56), Const64(56)] => [LocalGet64(local), I64Extend8S]);
+                    rewrite!(instrs, i, [BinOpLocalConst64(BinOp::IShl, local, 48), Const64(48)] => [LocalGet64(local), I64Extend16S]);
                     rewrite!(instrs, i, [BinOpLocalConst64(BinOp::IShl, local, 32), Const64(32)] => [LocalGet64(local), I64Extend32S]);
                 }
             }
-- 
2.43.0


From f7fa407448fae83d085e09ec1aca94ae18b78d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:31 +0000
Subject: [PATCH 03/33] fix: keep the operand of a tee on the right-hand side
 when folding local operations

---
 crates/parser/src/macros.rs   | 4 +++-
 crates/parser/src/optimize.rs | 6 ++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/parser/src/macros.rs b/crates/parser/src/macros.rs
index ff216a5..6f8f8d8 100644
--- a/crates/parser/src/macros.rs
+++ b/crates/parser/src/macros.rs
@@ -216,6 +216,7 @@ pub(crate) mod optimize {
         (
             $instrs:ident, $read:expr, $dst:expr,
             source = $source:ident,
+            tee = $tee:ident,
             op = $op:ident,
             const = $const:ident,
             local_local = $local_local:ident,
@@ -229,7 +230,8 @@ pub(crate) mod optimize {
                 && let Some(op) = $op(raw_op)
             {
                 if let Some((rhs_instr, rhs)) = $source(rhs_src) {
-                    if rhs_instr.is_none() || rhs != lhs {
+                    // A plain tee takes its operand from the left-hand source, so both can't be folded.
+                    if !matches!(rhs_src, Instruction::$tee(_)) && (rhs_instr.is_none() || rhs != lhs) {
                         $instrs.tail_rewritten = true;
                         $instrs.truncate($read - 3);
                         $instrs.extend(lhs_instr);
diff --git a/crates/parser/src/optimize.rs b/crates/parser/src/optimize.rs
index b346234..da9abb9 100644
--- a/crates/parser/src/optimize.rs
+++ b/crates/parser/src/optimize.rs
@@ -276,6 +276,7 @@ fn rewrite(
                 fold_local_binop!(
                     instrs, i, dst,
                     source = resolve_local_source_32,
+                    tee = LocalTee32,
                     op = scalar_bin_op,
                     const = scalar_const_32,
                     local_local = BinOpLocalLocalSet32,
@@ -319,6 +320,7 @@ fn rewrite(
                 fold_local_binop!(
                     instrs, i, dst,
                     source = resolve_local_source_64,
+                    tee = LocalTee64,
                     op = scalar_bin_op,
                     const = scalar_const_64,
                     local_local = BinOpLocalLocalSet64,
@@ -352,6 +354,7 @@ fn rewrite(
                 fold_local_binop!(
                     instrs, i, dst,
                     source = resolve_local_source_128,
+                    tee = LocalTee128,
                     op = bin_op_128,
                     const = const_128,
                     local_local = BinOpLocalLocalSet128,
@@ -380,6 +383,7 @@ fn rewrite(
                 fold_local_binop!(
                     instrs, i, dst,
                     source = resolve_local_source_32,
+                    tee = LocalTee32,
                     op = scalar_bin_op,
                     const = scalar_const_32,
                     local_local = BinOpLocalLocalTee32,
@@ -432,6 +436,7 @@ fn rewrite(
                 fold_local_binop!(
                     instrs, i, dst,
                     source = resolve_local_source_64,
+                    tee = LocalTee64,
                     op = scalar_bin_op,
                     const = scalar_const_64,
                     local_local = BinOpLocalLocalTee64,
@@ -454,6 +459,7 @@ fn rewrite(
                 fold_local_binop!(
                     instrs, i, dst,
                     source = resolve_local_source_128,
+                    tee = LocalTee128,
                     op = bin_op_128,
                     const = const_128,
                     local_local = BinOpLocalLocalTee128,
-- 
2.43.0


From bfabff38cea202baf81c12cc00a325abe77fa2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:07 +0000
Subject: [PATCH 04/33] fix: canonicalize NaN results of scalar float
 operations

---
 crates/tinywasm/src/interpreter/executor.rs   | 52 +++++++++----------
 .../tinywasm/src/interpreter/num_helpers.rs   | 11 ++++
 2 files changed, 37 insertions(+), 26 deletions(-)

diff --git a/crates/tinywasm/src/interpreter/executor.rs b/crates/tinywasm/src/interpreter/executor.rs
index 739c136..1286c6f 100644
--- a/crates/tinywasm/src/interpreter/executor.rs
+++ b/crates/tinywasm/src/interpreter/executor.rs
@@ -145,10 +145,10 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
                     BinOp::IShrU => $lhs.wrapping_shr($rhs as u32),
                     BinOp::IRotl => (($lhs as $signed).rotate_left($rhs as u32)) as $unsigned,
                     BinOp::IRotr => (($lhs as $signed).rotate_right($rhs as u32)) as $unsigned,
-                    BinOp::FAdd => (<$float>::from_bits($lhs) + <$float>::from_bits($rhs)).to_bits(),
-                    BinOp::FSub => (<$float>::from_bits($lhs) - <$float>::from_bits($rhs)).to_bits(),
-                    BinOp::FMul => (<$float>::from_bits($lhs) * <$float>::from_bits($rhs)).to_bits(),
-                    BinOp::FDiv => (<$float>::from_bits($lhs) / <$float>::from_bits($rhs)).to_bits(),
+                    BinOp::FAdd => (<$float>::from_bits($lhs) + <$float>::from_bits($rhs)).tw_canonicalize_nan().to_bits(),
+                    BinOp::FSub => (<$float>::from_bits($lhs) - <$float>::from_bits($rhs)).tw_canonicalize_nan().to_bits(),
+                    BinOp::FMul => (<$float>::from_bits($lhs) * <$float>::from_bits($rhs)).tw_canonicalize_nan().to_bits(),
+                    BinOp::FDiv => (<$float>::from_bits($lhs) / <$float>::from_bits($rhs)).tw_canonicalize_nan().to_bits(),
                     BinOp::FMin => <$float>::from_bits($lhs).tw_minimum(<$float>::from_bits($rhs)).to_bits(),
                     BinOp::FMax => <$float>::from_bits($lhs).tw_maximum(<$float>::from_bits($rhs)).to_bits(),
                     BinOp::FCopysign => <$float>::from_bits($lhs).copysign(<$float>::from_bits($rhs)).to_bits(),
@@ -267,8 +267,8 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
             I64Add3 => stack_op!(ternary i64, |a, b, c| a.wrapping_add(b).wrapping_add(c)),
             MulAccLocal32(acc) => self.exec_binop_acc_local::<i32, _, _>(*acc, |a, b| a.wrapping_mul(b), |a, b| a.wrapping_add(b)),
             MulAccLocal64(acc) => self.exec_binop_acc_local::<i64, _, _>(*acc, |a, b| a.wrapping_mul(b), |a, b| a.wrapping_add(b)),
-            FMulAccLocal32(acc) => self.exec_binop_acc_local::<f32, _, _>(*acc, |a, b| a * b, |a, b| a + b),
-            FMulAccLocal64(acc) => self.exec_binop_acc_local::<f64, _, _>(*acc, |a, b| a * b, |a, b| a + b),
+            FMulAccLocal32(acc) => self.exec_binop_acc_local::<f32, _, _>(*acc, |a, b| a * b, |a, b| (a + b).tw_canonicalize_nan()),
+            FMulAccLocal64(acc) => self.exec_binop_acc_local::<f64, _, _>(*acc, |a, b| a * b, |a, b| (a + b).tw_canonicalize_nan()),
             BinOpLocalLocal32(op, a, b) => binop!(local_local Value32, 32, op, a, b),
             BinOpLocalLocal64(op, a, b) => binop!(local_local Value64, 64, op, a, b),
             BinOpLocalLocal128(op, a, b) => binop!(local_local Value128, 128, op, a, b),
@@ -376,18 +376,18 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
             F64Gt => stack_op!(binary f64 => i32, |a, b| i32::from(a > b)),
             I32Add => stack_op!(binary i32, |a, b| a.wrapping_add(b)),
             I64Add => stack_op!(binary i64, |a, b| a.wrapping_add(b)),
-            F32Add => stack_op!(binary f32, |a, b| a + b),
-            F64Add => stack_op!(binary f64, |a, b| a + b),
+            F32Add => stack_op!(binary f32, |a, b| (a + b).tw_canonicalize_nan()),
+            F64Add => stack_op!(binary f64, |a, b| (a + b).tw_canonicalize_nan()),
             I32Sub => stack_op!(binary i32, |a, b| a.wrapping_sub(b)),
             I64Sub => stack_op!(binary i64, |a, b| a.wrapping_sub(b)),
-            F32Sub => stack_op!(binary f32, |a, b| a - b),
-            F64Sub => stack_op!(binary f64, |a, b| a - b),
-            F32Div => stack_op!(binary f32, |a, b| a / b),
-            F64Div => stack_op!(binary f64, |a, b| a / b),
+            F32Sub => stack_op!(binary f32, |a, b| (a - b).tw_canonicalize_nan()),
+            F64Sub => stack_op!(binary f64, |a, b| (a - b).tw_canonicalize_nan()),
+            F32Div => stack_op!(binary f32, |a, b| (a / b).tw_canonicalize_nan()),
+            F64Div => stack_op!(binary f64, |a, b| (a / b).tw_canonicalize_nan()),
             I32Mul => stack_op!(binary i32, |a, b| a.wrapping_mul(b)),
             I64Mul => stack_op!(binary i64, |a, b| a.wrapping_mul(b)),
-            F32Mul => stack_op!(binary f32, |a, b| a * b),
-            F64Mul => stack_op!(binary f64, |a, b| a * b),
+            F32Mul => stack_op!(binary f32, |a, b| (a * b).tw_canonicalize_nan()),
+            F64Mul => stack_op!(binary f64, |a, b| (a * b).tw_canonicalize_nan()),
             I32DivS => stack_op!(binary try i32, |a, b| a.tw_checked_div(b)),
             I64DivS => stack_op!(binary try i64, |a, b| a.tw_checked_div(b)),
             I32DivU => stack_op!(binary try u32, |a, b| a.checked_div(b).ok_or(Trap::DivisionByZero)),
@@ -509,22 +509,22 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
             I64ExtendI32U => stack_op!(unary u32 => i64, |v| i64::from(v)),
             I64ExtendI32S => stack_op!(unary i32 => i64, |v| i64::from(v)),
             I32WrapI64 => stack_op!(unary i64 => i32, |v| v as i32),
-            F32DemoteF64 => stack_op!(unary f64 => f32, |v| v as f32),
-            F64PromoteF32 => stack_op!(unary f32 => f64, |v| f64::from(v)),
+            F32DemoteF64 => stack_op!(unary f64 => f32, |v| (v as f32).tw_canonicalize_nan()),
+            F64PromoteF32 => stack_op!(unary f32 => f64, |v| f64::from(v).tw_canonicalize_nan()),
             F32Abs => stack_op!(unary f32, |v| v.abs()),
             F64Abs => stack_op!(unary f64, |v| v.abs()),
             F32Neg => stack_op!(unary f32, |v| -v),
             F64Neg => stack_op!(unary f64, |v| -v),
-            F32Ceil => stack_op!(unary f32, |v| v.ceil()),
-            F64Ceil => stack_op!(unary f64, |v| v.ceil()),
-            F32Floor => stack_op!(unary f32, |v| v.floor()),
-            F64Floor => stack_op!(unary f64, |v| v.floor()),
-            F32Trunc => stack_op!(unary f32, |v| v.trunc()),
-            F64Trunc => stack_op!(unary f64, |v| v.trunc()),
+            F32Ceil => stack_op!(unary f32, |v| v.ceil().tw_canonicalize_nan()),
+            F64Ceil => stack_op!(unary f64, |v| v.ceil().tw_canonicalize_nan()),
+            F32Floor => stack_op!(unary f32, |v| v.floor().tw_canonicalize_nan()),
+            F64Floor => stack_op!(unary f64, |v| v.floor().tw_canonicalize_nan()),
+            F32Trunc => stack_op!(unary f32, |v| v.trunc().tw_canonicalize_nan()),
+            F64Trunc => stack_op!(unary f64, |v| v.trunc().tw_canonicalize_nan()),
             F32Nearest => stack_op!(unary f32, |v| v.tw_nearest()),
             F64Nearest => stack_op!(unary f64, |v| v.tw_nearest()),
-            F32Sqrt => stack_op!(unary f32, |v| v.sqrt()),
-            F64Sqrt => stack_op!(unary f64, |v| v.sqrt()),
+            F32Sqrt => stack_op!(unary f32, |v| v.sqrt().tw_canonicalize_nan()),
+            F64Sqrt => stack_op!(unary f64, |v| v.sqrt().tw_canonicalize_nan()),
             F32Min => stack_op!(binary f32, |a, b| a.tw_minimum(b)),
             F64Min => stack_op!(binary f64, |a, b| a.tw_minimum(b)),
             F32Max => stack_op!(binary f32, |a, b| a.tw_maximum(b)),
@@ -1159,7 +1159,7 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
 
     #[inline(always)]
     fn exec_fma_store<
-        T: InternalValue + MemValue<N> + core::ops::Add<Output = T> + core::ops::Mul<Output = T>,
+        T: InternalValue + MemValue<N> + TinywasmFloatExt + core::ops::Add<Output = T> + core::ops::Mul<Output = T>,
         const N: usize,
     >(
         &mut self,
@@ -1169,7 +1169,7 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
         let lhs = T::stack_pop(&mut self.store.value_stack);
         let acc = T::stack_pop(&mut self.store.value_stack);
         let addr = i32::stack_pop(&mut self.store.value_stack);
-        let fma = acc + lhs * rhs;
+        let fma = (acc + lhs * rhs).tw_canonicalize_nan();
         let mem = self.store.state.get_mem_mut(self.module.resolve_mem_addr(m.mem_addr()));
         let addr = mem.effective_addr_32::<N>(addr as u32, m.offset())?;
         fma.store_at(&mut *mem.inner, addr)?;
diff --git a/crates/tinywasm/src/interpreter/num_helpers.rs b/crates/tinywasm/src/interpreter/num_helpers.rs
index 7b3807e..19ba3e5 100644
--- a/crates/tinywasm/src/interpreter/num_helpers.rs
+++ b/crates/tinywasm/src/interpreter/num_helpers.rs
@@ -49,6 +49,7 @@ pub(crate) trait TinywasmFloatExt {
     fn tw_minimum(self, other: Self) -> Self;
     fn tw_maximum(self, other: Self) -> Self;
     fn tw_nearest(self) -> Self;
+    fn tw_canonicalize_nan(self) -> Self;
 }
 
 use crate::{Result, Trap};
@@ -59,6 +60,16 @@ use super::no_std_floats::NoStdFloatExt;
 macro_rules! impl_wasm_float_ops {
     ($($t:ty)*) => ($(
         impl TinywasmFloatExt for $t {
+            /// Replaces any NaN by the canonical one, unless the `canonicalize-nans` feature is disabled.
+            #[inline(always)]
+            fn tw_canonicalize_nan(self) -> Self {
+                #[cfg(feature = "canonicalize-nans")]
+                if self.is_nan() {
+                    return Self::NAN;
+                }
+                self
+            }
+
             // https://webassembly.github.io/spec/core/exec/numerics.html#op-fnearest
             #[inline]
             fn tw_nearest(self) -> Self {
-- 
2.43.0


From 69b7d6998c79ad22d6aee7ec7c3300fc765a1307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:27 +0000
Subject: [PATCH 05/33] fix: canonicalize NaN results of square roots and
 vector conversions

---
 crates/tinywasm/src/interpreter/num_helpers.rs       | 3 ++-
 crates/tinywasm/src/interpreter/simd/instructions.rs | 4 ++--
 crates/tinywasm/src/interpreter/simd/utils.rs        | 6 ++++--
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/crates/tinywasm/src/interpreter/num_helpers.rs b/crates/tinywasm/src/interpreter/num_helpers.rs
index 19ba3e5..1fc538a 100644
--- a/crates/tinywasm/src/interpreter/num_helpers.rs
+++ b/crates/tinywasm/src/interpreter/num_helpers.rs
@@ -63,8 +63,9 @@ macro_rules! impl_wasm_float_ops {
             /// Replaces any NaN by the canonical one, unless the `canonicalize-nans` feature is disabled.
             #[inline(always)]
             fn tw_canonicalize_nan(self) -> Self {
+                // compares bits: LLVM drops a float comparison that selects a NaN for the NaN results of `sqrt`
                 #[cfg(feature = "canonicalize-nans")]
-                if self.is_nan() {
+                if self.abs().to_bits() > Self::INFINITY.to_bits() {
                     return Self::NAN;
                 }
                 self
diff --git a/crates/tinywasm/src/interpreter/simd/instructions.rs b/crates/tinywasm/src/interpreter/simd/instructions.rs
index c859caf..4c60993 100644
--- a/crates/tinywasm/src/interpreter/simd/instructions.rs
+++ b/crates/tinywasm/src/interpreter/simd/instructions.rs
@@ -1015,13 +1015,13 @@ impl Value128 {
     #[doc(alias = "f32x4.demote_f64x2_zero")]
     pub fn f32x4_demote_f64x2_zero(self) -> Self {
         let [a, b] = self.as_f64x2();
-        Self::from_f32x4([a as f32, b as f32, 0.0, 0.0])
+        Self::from_f32x4([canonicalize_simd_f32_nan(a as f32), canonicalize_simd_f32_nan(b as f32), 0.0, 0.0])
     }
 
     #[doc(alias = "f64x2.promote_low_f32x4")]
     pub fn f64x2_promote_low_f32x4(self) -> Self {
         let [a, b, ..] = self.as_f32x4();
-        Self::from_f64x2([a as f64, b as f64])
+        Self::from_f64x2([canonicalize_simd_f64_nan(a as f64), canonicalize_simd_f64_nan(b as f64)])
     }
 
     #[doc(alias = "i16x8.splat")]
diff --git a/crates/tinywasm/src/interpreter/simd/utils.rs b/crates/tinywasm/src/interpreter/simd/utils.rs
index ebba815..b6d6125 100644
--- a/crates/tinywasm/src/interpreter/simd/utils.rs
+++ b/crates/tinywasm/src/interpreter/simd/utils.rs
@@ -29,8 +29,9 @@ impl Value128 {
 }
 
 pub(super) const fn canonicalize_simd_f32_nan(x: f32) -> f32 {
+    // compares bits: LLVM drops a float comparison that selects a NaN for the NaN results of `sqrt`
     #[cfg(feature = "canonicalize-nans")]
-    if x.is_nan() {
+    if x.to_bits() & !(1 << 31) > f32::INFINITY.to_bits() {
         f32::NAN
     } else {
         x
@@ -40,8 +41,9 @@ pub(super) const fn canonicalize_simd_f32_nan(x: f32) -> f32 {
 }
 
 pub(super) const fn canonicalize_simd_f64_nan(x: f64) -> f64 {
+    // compares bits: LLVM drops a float comparison that selects a NaN for the NaN results of `sqrt`
     #[cfg(feature = "canonicalize-nans")]
-    if x.is_nan() {
+    if x.to_bits() & !(1 << 63) > f64::INFINITY.to_bits() {
         f64::NAN
     } else {
         x
-- 
2.43.0


From 6ccb37ed14f62ddf836057a716ea1e4630715afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:40 +0000
Subject: [PATCH 06/33] fix: accept select on polymorphic operands followed by
 a 64-bit or 128-bit use

---
 crates/parser/src/visit.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/parser/src/visit.rs b/crates/parser/src/visit.rs
index 21e6cd5..54e8d32 100644
--- a/crates/parser/src/visit.rs
+++ b/crates/parser/src/visit.rs
@@ -437,6 +437,13 @@ impl<'a> wasmparser::VisitOperator<'a> for FunctionBuilder<'_> {
     }
 
     fn visit_select(&mut self) -> Self::Output {
+        let frame_height = self.control_stack.last().map_or(0, |frame| frame.height);
+        if self.is_unreachable() && self.operand_stack.len() < frame_height + 2 {
+            // Both values come from the polymorphic base, so the result is polymorphic as well.
+            self.pop_expect(OperandSize::S32)?;
+            self.instructions.push(Instruction::Select32);
+            return Ok(());
+        }
         let size = self.operand_stack.iter().rev().nth(1).copied().unwrap_or(OperandSize::S32);
         let instruction = size.choose(Instruction::Select32, Instruction::Select64, Instruction::Select128);
         self.emit(&[size, size, OperandSize::S32], &[size], instruction)
-- 
2.43.0


From 4a9b70579cc57143dd328a8712c8ebeb009d5f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:15 +0000
Subject: [PATCH 07/33] fix: pop the address of a fused multiply-add store from
 the lane of the memory's address type

---
 crates/tinywasm/src/interpreter/executor.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/tinywasm/src/interpreter/executor.rs b/crates/tinywasm/src/interpreter/executor.rs
index 1286c6f..dd05e58 100644
--- a/crates/tinywasm/src/interpreter/executor.rs
+++ b/crates/tinywasm/src/interpreter/executor.rs
@@ -1168,10 +1168,9 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
         let rhs = T::stack_pop(&mut self.store.value_stack);
         let lhs = T::stack_pop(&mut self.store.value_stack);
         let acc = T::stack_pop(&mut self.store.value_stack);
-        let addr = i32::stack_pop(&mut self.store.value_stack);
         let fma = (acc + lhs * rhs).tw_canonicalize_nan();
         let mem = self.store.state.get_mem_mut(self.module.resolve_mem_addr(m.mem_addr()));
-        let addr = mem.effective_addr_32::<N>(addr as u32, m.offset())?;
+        let addr = Self::pop_memory_addr::<N>(&mut self.store.value_stack, mem, m.offset())?;
         fma.store_at(&mut *mem.inner, addr)?;
         Ok(())
     }
-- 
2.43.0


From 33a60b4f477e9ab7807d831ae9fcb7856191f44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:52 +0000
Subject: [PATCH 08/33] fix: take the operands of bulk memory instructions as
 unsigned and by the memory's address type

---
 crates/tinywasm/src/interpreter/executor.rs | 76 ++++++++++-----------
 1 file changed, 38 insertions(+), 38 deletions(-)

diff --git a/crates/tinywasm/src/interpreter/executor.rs b/crates/tinywasm/src/interpreter/executor.rs
index dd05e58..0943d4f 100644
--- a/crates/tinywasm/src/interpreter/executor.rs
+++ b/crates/tinywasm/src/interpreter/executor.rs
@@ -1290,78 +1290,78 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
     }
 
     fn exec_memory_copy(&mut self, dst_mem: u32, src_mem: u32) -> Result<(), Trap> {
-        let size = i32::stack_pop(&mut self.store.value_stack);
-        let src = i32::stack_pop(&mut self.store.value_stack);
-        let dst = i32::stack_pop(&mut self.store.value_stack);
         let dst_mem_addr = self.module.resolve_mem_addr(dst_mem);
+        let src_mem_addr = self.module.resolve_mem_addr(src_mem);
+        let dst_arch = self.store.state.get_mem(dst_mem_addr).kind.arch();
+        let src_arch = self.store.state.get_mem(src_mem_addr).kind.arch();
+        let len_arch =
+            if dst_arch == MemoryArch::I32 || src_arch == MemoryArch::I32 { MemoryArch::I32 } else { MemoryArch::I64 };
+        let size = self.pop_memory_operand(len_arch)?;
+        let src = self.pop_memory_operand(src_arch)?;
+        let dst = self.pop_memory_operand(dst_arch)?;
 
-        if dst_mem == src_mem {
+        if dst_mem_addr == src_mem_addr {
             // copy within the same memory
             let mem = self.store.state.get_mem_mut(dst_mem_addr);
-            mem.copy_within(dst as usize, src as usize, size as usize)?;
+            mem.copy_within(dst, src, size)?;
         } else {
             // copy between two memories
-            let src_mem_addr = self.module.resolve_mem_addr(src_mem);
             let (dst_memory, src_memory) = self.store.state.get_mems_mut(dst_mem_addr, src_mem_addr);
-            dst_memory.copy_from_memory(dst as usize, src_memory, src as usize, size as usize)?;
+            dst_memory.copy_from_memory(dst, src_memory, src, size)?;
         }
         Ok(())
     }
 
     fn exec_memory_fill(&mut self, addr: u32) -> Result<(), Trap> {
-        let size = i32::stack_pop(&mut self.store.value_stack);
+        let mem_addr = self.module.resolve_mem_addr(addr);
+        let size = self.pop_memory_operand(self.store.state.get_mem(mem_addr).kind.arch())?;
         let val = i32::stack_pop(&mut self.store.value_stack);
-        let dst = i32::stack_pop(&mut self.store.value_stack);
-        self.exec_memory_fill_impl(addr, dst, val as u8, size)
+        self.exec_memory_fill_impl(mem_addr, val as u8, size)
     }
 
     fn exec_memory_fill_imm(&mut self, addr: u32, val: u8, size: i32) -> Result<(), Trap> {
-        let dst = i32::stack_pop(&mut self.store.value_stack);
-        self.exec_memory_fill_impl(addr, dst, val, size)
+        self.exec_memory_fill_impl(self.module.resolve_mem_addr(addr), val, size as u32 as usize)
     }
 
-    fn exec_memory_fill_impl(&mut self, addr: u32, dst: i32, val: u8, size: i32) -> Result<(), Trap> {
-        let mem = self.store.state.get_mem_mut(self.module.resolve_mem_addr(addr));
-        if mem.inner.fill(dst as usize, size as usize, val).is_none() {
+    fn exec_memory_fill_impl(&mut self, mem_addr: u32, val: u8, size: usize) -> Result<(), Trap> {
+        let dst = self.pop_memory_operand(self.store.state.get_mem(mem_addr).kind.arch())?;
+        let mem = self.store.state.get_mem_mut(mem_addr);
+        if mem.inner.fill(dst, size, val).is_none() {
             cold_path();
-            return Err(Trap::MemoryOutOfBounds {
-                offset: dst as usize,
-                len: size as usize,
-                max: self.store.state.get_mem(self.module.resolve_mem_addr(addr)).inner.len(),
-            });
+            return Err(Trap::MemoryOutOfBounds { offset: dst, len: size, max: mem.inner.len() });
         }
         Ok(())
     }
 
     fn exec_memory_init(&mut self, data_index: u32, mem_index: u32) -> Result<(), Trap> {
-        let size = i32::stack_pop(&mut self.store.value_stack);
-        let offset = i32::stack_pop(&mut self.store.value_stack);
-        let dst = i32::stack_pop(&mut self.store.value_stack);
+        let mem_addr = self.module.resolve_mem_addr(mem_index);
+        let size = self.pop_memory_operand(MemoryArch::I32)?;
+        let offset = self.pop_memory_operand(MemoryArch::I32)?;
+        let dst = self.pop_memory_operand(self.store.state.get_mem(mem_addr).kind.arch())?;
 
         let data = &self.store.state.data[self.module.resolve_data_addr(data_index) as usize];
-        let mem = &mut self.store.state.memories[self.module.resolve_mem_addr(mem_index) as usize];
-        let data_len = data.data.as_ref().map_or(0, |d| d.len());
-        if ((size + offset) as usize > data_len) || ((dst + size) as usize > mem.inner.len()) {
+        let mem = &mut self.store.state.memories[mem_addr as usize];
+        let data = data.data.as_deref().unwrap_or(&[]);
+        let Some(src) = offset.checked_add(size).and_then(|end| data.get(offset..end)) else {
             cold_path();
-            return Err(Trap::MemoryOutOfBounds { offset: offset as usize, len: size as usize, max: data_len });
-        }
-
-        if size == 0 {
-            return Ok(());
-        }
-
-        let Some(data) = &data.data else {
-            cold_path();
-            return Err(Trap::MemoryOutOfBounds { offset: 0, len: 0, max: 0 });
+            return Err(Trap::MemoryOutOfBounds { offset, len: size, max: data.len() });
         };
 
-        if mem.inner.write_all(dst as usize, &data[offset as usize..((offset + size) as usize)]).is_none() {
+        if mem.inner.write_all(dst, src).is_none() {
             cold_path();
-            return Err(Trap::MemoryOutOfBounds { offset: dst as usize, len: size as usize, max: mem.inner.len() });
+            return Err(Trap::MemoryOutOfBounds { offset: dst, len: size, max: mem.inner.len() });
         }
         Ok(())
     }
 
+    fn pop_memory_operand(&mut self, arch: MemoryArch) -> Result<usize, Trap> {
+        let value = match arch {
+            MemoryArch::I32 => <i32>::stack_pop(&mut self.store.value_stack) as u32 as u64,
+            MemoryArch::I64 => <i64>::stack_pop(&mut self.store.value_stack) as u64,
+        };
+        usize::try_from(value).map_err(|_| Trap::MemoryOutOfBounds { offset: usize::MAX, len: 1, max: usize::MAX })
+    }
+
     fn exec_table_copy(&mut self, dst_table: u32, src_table: u32) -> Result<(), Trap> {
         let dst_table_addr = self.module.resolve_table_addr(dst_table);
         let src_table_addr = self.module.resolve_table_addr(src_table);
-- 
2.43.0


From ac29132560c6f284c21db0a9eba852925a5e6012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:52 +0000
Subject: [PATCH 09/33] fix: type memory.init on a 64-bit memory with 32-bit
 source and length operands

---
 crates/parser/src/visit.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/parser/src/visit.rs b/crates/parser/src/visit.rs
index 54e8d32..ec99ea8 100644
--- a/crates/parser/src/visit.rs
+++ b/crates/parser/src/visit.rs
@@ -378,10 +378,8 @@ impl<'a> wasmparser::VisitOperator<'a> for FunctionBuilder<'_> {
         global [] => [Addr] { visit_global_get(global_index: u32) => GlobalGet }
         memory_index [] => [Addr] { visit_memory_size(memory: u32) => MemorySize }
         memory_index [Addr] => [Addr] { visit_memory_grow(memory: u32) => MemoryGrow }
-        memory_index [Addr, S32, Addr] => [] {
-            visit_memory_init(data_index: u32, memory: u32) => MemoryInit,
-            visit_memory_fill(memory: u32) => MemoryFill,
-        }
+        memory_index [Addr, S32, S32] => [] { visit_memory_init(data_index: u32, memory: u32) => MemoryInit }
+        memory_index [Addr, S32, Addr] => [] { visit_memory_fill(memory: u32) => MemoryFill }
         table [Addr] => [S32] { visit_table_get(table: u32) => TableGet }
         table [Addr, S32] => [] { visit_table_set(table: u32) => TableSet }
         table [] => [Addr] { visit_table_size(table: u32) => TableSize }
-- 
2.43.0


From 7dde5e589dc9784b6c37db67cb41c3d63e780332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:15 +0000
Subject: [PATCH 10/33] fix: saturate memory sizes in bytes and let a memory
 without a maximum start beyond the default one

---
 crates/types/src/lib.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/types/src/lib.rs b/crates/types/src/lib.rs
index fcac23c..4cc46f7 100644
--- a/crates/types/src/lib.rs
+++ b/crates/types/src/lib.rs
@@ -564,7 +564,12 @@ impl MemoryType {
 
     #[inline]
     pub const fn page_count_max(&self) -> u64 {
-        if let Some(page_count_max) = self.page_count_max { page_count_max } else { max_page_count(self.page_size()) }
+        let default_max = max_page_count(self.page_size());
+        match self.page_count_max {
+            Some(page_count_max) => page_count_max,
+            None if self.page_count_initial > default_max => self.page_count_initial,
+            None => default_max,
+        }
     }
 
     #[inline]
@@ -574,12 +579,12 @@ impl MemoryType {
 
     #[inline]
     pub const fn initial_size(&self) -> u64 {
-        self.page_count_initial * self.page_size()
+        self.page_count_initial.saturating_mul(self.page_size())
     }
 
     #[inline]
     pub const fn max_size(&self) -> u64 {
-        self.page_count_max() * self.page_size()
+        self.page_count_max().saturating_mul(self.page_size())
     }
 
     /// Set a different memory architecture.
-- 
2.43.0


From 7cf6e9b48fb5301ea5de3e090878becb444b3c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:29 +0000
Subject: [PATCH 11/33] fix: do not resolve the store address of a function a
 second time in table.fill

---
 crates/tinywasm/src/instance.rs             |  5 -----
 crates/tinywasm/src/interpreter/executor.rs |  2 +-
 crates/tinywasm/src/store/table.rs          | 20 +-------------------
 3 files changed, 2 insertions(+), 25 deletions(-)

diff --git a/crates/tinywasm/src/instance.rs b/crates/tinywasm/src/instance.rs
index 8cff310..68397ba 100644
--- a/crates/tinywasm/src/instance.rs
+++ b/crates/tinywasm/src/instance.rs
@@ -77,11 +77,6 @@ impl ModuleInstance {
         *self.0.func_type_idxs.get(addr as usize).unwrap_or_else(|| unreachable!("invalid function address: {addr}"))
     }
 
-    #[inline]
-    pub(crate) fn func_addrs(&self) -> &[FuncAddr] {
-        &self.0.func_addrs
-    }
-
     /// resolve a function address to the global store address
     #[inline]
     pub(crate) fn resolve_func_addr(&self, addr: FuncAddr) -> FuncAddr {
diff --git a/crates/tinywasm/src/interpreter/executor.rs b/crates/tinywasm/src/interpreter/executor.rs
index 0943d4f..9f34c34 100644
--- a/crates/tinywasm/src/interpreter/executor.rs
+++ b/crates/tinywasm/src/interpreter/executor.rs
@@ -1532,7 +1532,7 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
         let n = self.pop_table_operand(arch)?;
         let val = <ValueRef>::stack_pop(&mut self.store.value_stack);
         let i = self.pop_table_operand(arch)?;
-        self.store.state.get_table_mut(table_addr).fill(self.module.func_addrs(), i, n, val.addr().into())
+        self.store.state.get_table_mut(table_addr).fill(i, n, val.addr().into())
     }
 
     fn pop_table_operand(&mut self, arch: MemoryArch) -> Result<usize, Trap> {
diff --git a/crates/tinywasm/src/store/table.rs b/crates/tinywasm/src/store/table.rs
index d5f1019..c044bf8 100644
--- a/crates/tinywasm/src/store/table.rs
+++ b/crates/tinywasm/src/store/table.rs
@@ -54,8 +54,7 @@ impl TableInstance {
         })
     }
 
-    pub(crate) fn fill(&mut self, func_addrs: &[u32], addr: usize, len: usize, val: TableElement) -> Result<(), Trap> {
-        let val = val.map(|addr| self.resolve_func_ref(func_addrs, addr));
+    pub(crate) fn fill(&mut self, addr: usize, len: usize, val: TableElement) -> Result<(), Trap> {
         let range = self.checked_range(addr, len)?;
         self.elements[range].fill(val);
         Ok(())
@@ -105,16 +104,6 @@ impl TableInstance {
         self.elements.len()
     }
 
-    fn resolve_func_ref(&self, func_addrs: &[u32], addr: Addr) -> Addr {
-        if self.kind.element_type != WasmType::RefFunc {
-            return addr;
-        }
-
-        *func_addrs
-            .get(addr as usize)
-            .expect("error initializing table: function not found. This should have been caught by the validator")
-    }
-
     pub(crate) fn init(&mut self, offset: usize, init: &[TableElement]) -> Result<(), Trap> {
         let range = self.checked_range(offset, init.len())?;
         self.elements[range].copy_from_slice(init);
@@ -145,13 +134,6 @@ impl TableElement {
             Self::Initialized(addr) => Some(*addr),
         }
     }
-
-    pub(crate) fn map(self, f: impl FnOnce(Addr) -> Addr) -> Self {
-        match self {
-            Self::Uninitialized => Self::Uninitialized,
-            Self::Initialized(addr) => Self::Initialized(f(addr)),
-        }
-    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 9c5f2022fbea45f90e4e33c0af5e4df9501e1fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:19 +0000
Subject: [PATCH 12/33] fix: start reference locals as null

---
 crates/tinywasm/src/interpreter/stack/value_stack.rs |  8 ++++----
 crates/tinywasm/src/interpreter/values.rs            | 11 ++++++-----
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/crates/tinywasm/src/interpreter/stack/value_stack.rs b/crates/tinywasm/src/interpreter/stack/value_stack.rs
index 2049f8d..99b715f 100644
--- a/crates/tinywasm/src/interpreter/stack/value_stack.rs
+++ b/crates/tinywasm/src/interpreter/stack/value_stack.rs
@@ -252,8 +252,8 @@ impl ValueStack {
             WasmType::I64 => WasmValue::I64(i64::stack_pop(self)),
             WasmType::F32 => WasmValue::F32(f32::stack_pop(self)),
             WasmType::F64 => WasmValue::F64(f64::stack_pop(self)),
-            WasmType::RefExtern => WasmValue::RefExtern(ExternRef::from_raw(ValueRef::stack_pop(self).raw())),
-            WasmType::RefFunc => WasmValue::RefFunc(FuncRef::from_raw(ValueRef::stack_pop(self).raw())),
+            WasmType::RefExtern => WasmValue::RefExtern(ExternRef::new(ValueRef::stack_pop(self).addr())),
+            WasmType::RefFunc => WasmValue::RefFunc(FuncRef::new(ValueRef::stack_pop(self).addr())),
             WasmType::V128 => WasmValue::V128(Value128::stack_pop(self).0),
         }
     }
@@ -265,8 +265,8 @@ impl ValueStack {
                 WasmValue::I64(v) => self.stack_64.push(*v as u64)?,
                 WasmValue::F32(v) => self.stack_32.push(v.to_bits())?,
                 WasmValue::F64(v) => self.stack_64.push(v.to_bits())?,
-                WasmValue::RefExtern(v) => self.stack_32.push(v.raw())?,
-                WasmValue::RefFunc(v) => self.stack_32.push(v.raw())?,
+                WasmValue::RefExtern(v) => self.push(ValueRef::from_addr(v.addr()))?,
+                WasmValue::RefFunc(v) => self.push(ValueRef::from_addr(v.addr()))?,
                 WasmValue::V128(v) => self.stack_128.push((*v).into())?,
             }
         }
diff --git a/crates/tinywasm/src/interpreter/values.rs b/crates/tinywasm/src/interpreter/values.rs
index 11bc6c6..00b25bc 100644
--- a/crates/tinywasm/src/interpreter/values.rs
+++ b/crates/tinywasm/src/interpreter/values.rs
@@ -5,6 +5,7 @@ use tinywasm_types::{ExternRef, FuncRef, LocalAddr, WasmType, WasmValue};
 pub(crate) type Value32 = u32;
 pub(crate) type Value64 = u64;
 
+/// A reference as stored in a value slot: the complement of its address, so that a zeroed slot is null.
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
 pub(crate) struct ValueRef(u32);
 
@@ -15,7 +16,7 @@ impl Default for ValueRef {
 }
 
 impl ValueRef {
-    pub(crate) const NULL: Self = Self(u32::MAX);
+    pub(crate) const NULL: Self = Self(0);
 
     #[inline]
     pub(crate) const fn from_raw(raw: u32) -> Self {
@@ -25,14 +26,14 @@ impl ValueRef {
     #[inline]
     pub(crate) const fn from_addr(addr: Option<u32>) -> Self {
         match addr {
-            Some(addr) => Self(addr),
+            Some(addr) => Self(!addr),
             None => Self::NULL,
         }
     }
 
     #[inline]
     pub(crate) const fn addr(self) -> Option<u32> {
-        if self.is_null() { None } else { Some(self.0) }
+        if self.is_null() { None } else { Some(!self.0) }
     }
 
     #[inline]
@@ -101,8 +102,8 @@ impl TinyWasmValue {
             (Self::Value64(v), WasmType::I64) => Some(WasmValue::I64(v as i64)),
             (Self::Value32(v), WasmType::F32) => Some(WasmValue::F32(f32::from_bits(v))),
             (Self::Value64(v), WasmType::F64) => Some(WasmValue::F64(f64::from_bits(v))),
-            (Self::ValueRef(v), WasmType::RefExtern) => Some(WasmValue::RefExtern(ExternRef::from_raw(v.raw()))),
-            (Self::ValueRef(v), WasmType::RefFunc) => Some(WasmValue::RefFunc(FuncRef::from_raw(v.raw()))),
+            (Self::ValueRef(v), WasmType::RefExtern) => Some(WasmValue::RefExtern(ExternRef::new(v.addr()))),
+            (Self::ValueRef(v), WasmType::RefFunc) => Some(WasmValue::RefFunc(FuncRef::new(v.addr()))),
             (Self::Value128(v), WasmType::V128) => Some(WasmValue::V128(v.0)),
             (_, WasmType::I32 | WasmType::F32) => None,
             (_, WasmType::I64 | WasmType::F64) => None,
-- 
2.43.0


From f6b4a377eb1aa6115633094de4b28a11a7b5bb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:51 +0000
Subject: [PATCH 13/33] fix: return from the frame when a tail call reaches a
 host function

---
 crates/tinywasm/src/interpreter/executor.rs | 33 +++++++++++++++------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/crates/tinywasm/src/interpreter/executor.rs b/crates/tinywasm/src/interpreter/executor.rs
index 9f34c34..e99f772 100644
--- a/crates/tinywasm/src/interpreter/executor.rs
+++ b/crates/tinywasm/src/interpreter/executor.rs
@@ -225,9 +225,9 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
             Call(v) => { self.exec_call_direct(*v)?; return Ok(None); }
             CallSelf => { self.exec_call_self()?; return Ok(None); }
             CallIndirect(ty, table) => { self.exec_call_indirect::<false>(*ty, *table)?; return Ok(None); }
-            ReturnCall(v) => { self.exec_return_call_direct(*v)?; return Ok(None); }
+            ReturnCall(v) => { if self.exec_return_call_direct(*v)? { return Ok(Some(())); } return Ok(None); }
             ReturnCallSelf => { self.exec_return_call_self()?; return Ok(None); }
-            ReturnCallIndirect(ty, table) => { self.exec_call_indirect::<true>(*ty, *table)?; return Ok(None); }
+            ReturnCallIndirect(ty, table) => { if self.exec_call_indirect::<true>(*ty, *table)? { return Ok(Some(())); } return Ok(None); }
             Jump(ip) => { self.cf.instr_ptr = *ip as usize; return Ok(None); }
             JumpIfZero32(ip) => if self.exec_jump_zero_32(*ip) { return Ok(None) },
             JumpIfNonZero32(ip) => if self.exec_jump_non_zero_32(*ip) { return Ok(None) },
@@ -985,12 +985,19 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
         }
     }
 
-    fn exec_return_call_direct(&mut self, v: u32) -> Result<(), Trap> {
+    /// A tail call to a host function returns its results to the caller of the current frame.
+    /// Returns whether that was the outermost frame.
+    fn exec_return_call_host(&mut self, host_func: Rc<HostFunction>) -> Result<bool, Trap> {
+        self.exec_call_host(host_func)?;
+        Ok(self.exec_return())
+    }
+
+    fn exec_return_call_direct(&mut self, v: u32) -> Result<bool, Trap> {
         self.charge_call_fuel(FUEL_COST_CALL_TOTAL);
         let addr = self.module.resolve_func_addr(v);
         match self.store.state.get_func(addr) {
-            crate::FunctionInstance::Wasm(wasm_func) => self.exec_return_call(wasm_func.clone(), addr),
-            crate::FunctionInstance::Host(host_func) => self.exec_call_host(host_func.clone()),
+            crate::FunctionInstance::Wasm(wasm_func) => self.exec_return_call(wasm_func.clone(), addr).map(|()| false),
+            crate::FunctionInstance::Host(host_func) => self.exec_return_call_host(host_func.clone()),
         }
     }
 
@@ -1019,7 +1026,12 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
         Ok(())
     }
 
-    fn exec_call_indirect<const IS_RETURN_CALL: bool>(&mut self, type_addr: u32, table_addr: u32) -> Result<(), Trap> {
+    /// Returns whether the call ended the outermost frame (a tail call to a host function).
+    fn exec_call_indirect<const IS_RETURN_CALL: bool>(
+        &mut self,
+        type_addr: u32,
+        table_addr: u32,
+    ) -> Result<bool, Trap> {
         self.charge_call_fuel(FUEL_COST_CALL_TOTAL);
 
         // verify that the table is of the right type, this should be validated by the parser already
@@ -1050,8 +1062,8 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
                 }
 
                 match IS_RETURN_CALL {
-                    true => self.exec_return_call(wasm_func.clone(), func_ref),
-                    false => self.exec_call(wasm_func.clone(), func_ref),
+                    true => self.exec_return_call(wasm_func.clone(), func_ref).map(|()| false),
+                    false => self.exec_call(wasm_func.clone(), func_ref).map(|()| false),
                 }
             }
             crate::FunctionInstance::Host(host_func) => {
@@ -1063,7 +1075,10 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
                     });
                 }
 
-                self.exec_call_host(host_func.clone())
+                match IS_RETURN_CALL {
+                    true => self.exec_return_call_host(host_func.clone()),
+                    false => self.exec_call_host(host_func.clone()).map(|()| false),
+                }
             }
         }
     }
-- 
2.43.0


From 0366e37deaf6f1ad688c8dd84ddddf33cb186b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:33 +0000
Subject: [PATCH 14/33] fix: the stacks never hold more than their configured
 maximum

---
 crates/tinywasm/src/interpreter/stack/call_stack.rs  | 8 ++++++--
 crates/tinywasm/src/interpreter/stack/value_stack.rs | 6 +++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/crates/tinywasm/src/interpreter/stack/call_stack.rs b/crates/tinywasm/src/interpreter/stack/call_stack.rs
index 62f1f8e..e8bb07f 100644
--- a/crates/tinywasm/src/interpreter/stack/call_stack.rs
+++ b/crates/tinywasm/src/interpreter/stack/call_stack.rs
@@ -14,7 +14,11 @@ pub(crate) struct CallStack {
 impl CallStack {
     pub(crate) fn new(config: &crate::engine::Config) -> Self {
         let stack = config.call_stack;
-        Self { stack: Vec::with_capacity(stack.initial_size), max_size: stack.max_size, dynamic: stack.dynamic }
+        Self {
+            stack: Vec::with_capacity(stack.initial_size.min(stack.max_size)),
+            max_size: stack.max_size,
+            dynamic: stack.dynamic,
+        }
     }
 
     pub(crate) fn clear(&mut self) {
@@ -56,7 +60,7 @@ impl CallStack {
         }
 
         let target_capacity = required_len.max(self.stack.capacity().max(1).saturating_mul(2)).min(self.max_size);
-        let Ok(()) = self.stack.try_reserve(target_capacity.saturating_sub(self.stack.len())) else {
+        let Ok(()) = self.stack.try_reserve_exact(target_capacity.saturating_sub(self.stack.len())) else {
             cold_path();
             return Err(Trap::CallStackOverflow);
         };
diff --git a/crates/tinywasm/src/interpreter/stack/value_stack.rs b/crates/tinywasm/src/interpreter/stack/value_stack.rs
index 99b715f..4be7716 100644
--- a/crates/tinywasm/src/interpreter/stack/value_stack.rs
+++ b/crates/tinywasm/src/interpreter/stack/value_stack.rs
@@ -23,7 +23,11 @@ pub(crate) struct Stack<T: Copy + Default> {
 
 impl<T: Copy + Default> Stack<T> {
     pub(crate) fn new(config: StackConfig) -> Self {
-        Self { data: Vec::with_capacity(config.initial_size), max_size: config.max_size, dynamic: config.dynamic }
+        Self {
+            data: Vec::with_capacity(config.initial_size.min(config.max_size)),
+            max_size: config.max_size,
+            dynamic: config.dynamic,
+        }
     }
 
     pub(crate) fn clear(&mut self) {
-- 
2.43.0


From cdd31a078b62c3d989267a94586afe3c7295d5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:29 +0000
Subject: [PATCH 15/33] fix: recursion through host functions counts against
 the call stack

---
 crates/tinywasm/src/func.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/tinywasm/src/func.rs b/crates/tinywasm/src/func.rs
index 9777a47..42fa525 100644
--- a/crates/tinywasm/src/func.rs
+++ b/crates/tinywasm/src/func.rs
@@ -349,10 +349,13 @@ impl FuncContext<'_> {
                     .inspect_err(|_| self.store.value_stack.truncate_to_base(value_stack_base))?;
 
                 let callframe = CallFrame::new(func.addr, locals_base, wasm_func.func.locals);
-                InterpreterRuntime::exec(self.store, callframe, call_stack_base).inspect_err(|_| {
-                    self.store.call_stack.truncate_to(call_stack_base);
-                    self.store.value_stack.truncate_to_base(value_stack_base);
-                })?;
+
+                // The suspended caller occupies a frame too, which bounds recursion through host functions.
+                let result = self.store.call_stack.push(callframe);
+                let result =
+                    result.and_then(|()| InterpreterRuntime::exec(self.store, callframe, call_stack_base + 1));
+                self.store.call_stack.truncate_to(call_stack_base);
+                result.inspect_err(|_| self.store.value_stack.truncate_to_base(value_stack_base))?;
 
                 collect_call_results(&mut self.store.value_stack, &func.ty)
             }
-- 
2.43.0


From a27600011718dc4730de16ca9abe7d0970d39ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:21 +0000
Subject: [PATCH 16/33] fix: unused fuel does not outlive its slice

After a fuel-limited slice completed or trapped, host functions called without
fuel still read its remaining fuel.
---
 crates/tinywasm/src/func.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/tinywasm/src/func.rs b/crates/tinywasm/src/func.rs
index 42fa525..e80d269 100644
--- a/crates/tinywasm/src/func.rs
+++ b/crates/tinywasm/src/func.rs
@@ -440,6 +440,7 @@ impl<'store> FuncExecution<'store> {
 
         self.store.enter_execution()?;
         let result = run(self.store, callframe);
+        self.store.execution_fuel = 0; // unused fuel does not outlive its slice
         self.store.exit_execution();
 
         match result? {
-- 
2.43.0


From 947f65d5c5d9c91bbc1b027bee3a2926f7ca3f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:25 +0000
Subject: [PATCH 17/33] fix: a trap ends a resumable execution

Resuming a handle after its call had trapped executed the guest again.
---
 crates/tinywasm/src/func.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/tinywasm/src/func.rs b/crates/tinywasm/src/func.rs
index e80d269..908c3e3 100644
--- a/crates/tinywasm/src/func.rs
+++ b/crates/tinywasm/src/func.rs
@@ -443,7 +443,9 @@ impl<'store> FuncExecution<'store> {
         self.store.execution_fuel = 0; // unused fuel does not outlive its slice
         self.store.exit_execution();
 
-        match result? {
+        // a trap ends the execution
+        let result = result.inspect_err(|_| self.state = FuncExecutionState::Completed { result: None })?;
+        match result {
             crate::interpreter::ExecState::Completed => {
                 let result_ty = self.store.state.get_func(root_func_addr).ty().clone();
                 self.state = FuncExecutionState::Completed { result: None };
-- 
2.43.0


From 0a0318705ea40055e012cf957bf170c50bb7cabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:21 +0000
Subject: [PATCH 18/33] fix: calls to host functions start from empty stacks
 too

After a trapped or dropped call, a host function called directly found the
frames and operands it left behind, and nested calls ran out of stack early.
---
 crates/tinywasm/src/func.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/crates/tinywasm/src/func.rs b/crates/tinywasm/src/func.rs
index 908c3e3..bd0fd0c 100644
--- a/crates/tinywasm/src/func.rs
+++ b/crates/tinywasm/src/func.rs
@@ -13,6 +13,10 @@ impl Function {
     pub fn call(&self, store: &mut Store, params: &[WasmValue]) -> Result<Vec<WasmValue>> {
         #[inline]
         fn call_inner(func: &Function, store: &mut Store, params: &[WasmValue]) -> Result<Vec<WasmValue>> {
+            // Reset the stacks, an earlier call may have trapped or been dropped.
+            store.call_stack.clear();
+            store.value_stack.clear();
+
             let func_instance = store.state.get_func(func.addr);
             let wasm_func = match func_instance {
                 FunctionInstance::Host(host_func) => {
@@ -21,9 +25,7 @@ impl Function {
                 FunctionInstance::Wasm(wasm_func) => wasm_func,
             };
 
-            // Reset stack, push args, allocate locals, create entry frame.
-            store.call_stack.clear();
-            store.value_stack.clear();
+            // Push args, allocate locals, create entry frame.
             store.value_stack.extend_from_wasmvalues(params)?;
             let locals_base = store.value_stack.enter_locals(&wasm_func.func.params, &wasm_func.func.locals)?;
             let callframe = CallFrame::new(func.addr, locals_base, wasm_func.func.locals);
@@ -59,6 +61,10 @@ impl Function {
             store: &mut Store,
             params: &[WasmValue],
         ) -> Result<FuncExecutionState> {
+            // Reset the stacks, an earlier call may have trapped or been dropped.
+            store.call_stack.clear();
+            store.value_stack.clear();
+
             let func_instance = store.state.get_func(func.addr);
             match func_instance {
                 FunctionInstance::Host(host_func) => host_func
@@ -66,8 +72,6 @@ impl Function {
                     .call(FuncContext { store, module_addr: func.module_addr }, params)
                     .map(|result| FuncExecutionState::Completed { result: Some(result) }),
                 FunctionInstance::Wasm(wasm_func) => {
-                    store.call_stack.clear();
-                    store.value_stack.clear();
                     store.value_stack.extend_from_wasmvalues(params)?;
                     let locals_base = store.value_stack.enter_locals(&wasm_func.func.params, &wasm_func.func.locals)?;
                     let callframe = CallFrame::new(func.addr, locals_base, wasm_func.func.locals);
-- 
2.43.0


From 4963dc7cb715787b6cb36ee995b7fafb8889732c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:48 +0000
Subject: [PATCH 19/33] fix: report failed lazy memory materialization instead
 of panicking

---
 crates/tinywasm/src/store/memory/lazy.rs | 27 ++++++++++--------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/crates/tinywasm/src/store/memory/lazy.rs b/crates/tinywasm/src/store/memory/lazy.rs
index ef6dace..7aec756 100644
--- a/crates/tinywasm/src/store/memory/lazy.rs
+++ b/crates/tinywasm/src/store/memory/lazy.rs
@@ -30,23 +30,18 @@ impl LazyLinearMemory {
         Self { ty, initial_len, backend, inner: None }
     }
 
-    fn materialize(&mut self) -> &mut dyn LinearMemory {
-        if self.inner.is_none() {
-            self.inner =
-                Some(self.backend.create(self.ty, self.initial_len).expect("lazy memory materialization failed"));
-        }
-        self.inner.as_deref_mut().expect("lazy memory should be materialized")
-    }
-
-    fn try_materialize(&mut self) -> core::result::Result<&mut dyn LinearMemory, crate::Trap> {
+    fn materialize(&mut self) -> core::result::Result<&mut dyn LinearMemory, crate::Trap> {
         if self.inner.is_none() {
             let storage = match self.backend.create(self.ty, self.initial_len) {
-                Ok(storage) => storage,
+                Ok(storage) if storage.len() == self.initial_len => storage,
                 Err(Error::Trap(trap)) => {
                     cold_path();
                     return Err(trap);
                 }
-                Err(err) => panic!("lazy memory materialization failed: {err}"),
+                _ => {
+                    cold_path();
+                    return Err(crate::Trap::Other("lazy memory materialization failed"));
+                }
             };
             self.inner = Some(storage);
         }
@@ -60,7 +55,7 @@ impl LinearMemory for LazyLinearMemory {
     }
 
     fn grow_to(&mut self, new_len: usize) -> Result<(), crate::Trap> {
-        self.try_materialize()?.grow_to(new_len)
+        self.materialize()?.grow_to(new_len)
     }
 
     fn read(&self, addr: usize, dst: &mut [u8]) -> usize {
@@ -79,7 +74,7 @@ impl LinearMemory for LazyLinearMemory {
         if src.is_empty() || addr >= self.len() {
             return 0;
         }
-        self.materialize().write(addr, src)
+        self.materialize().map_or(0, |memory| memory.write(addr, src))
     }
 
     fn write_all(&mut self, addr: usize, src: &[u8]) -> Option<()> {
@@ -90,7 +85,7 @@ impl LinearMemory for LazyLinearMemory {
         if src.is_empty() {
             return Some(());
         }
-        self.materialize().write_all(addr, src)
+        self.materialize().ok()?.write_all(addr, src)
     }
 
     fn fill(&mut self, addr: usize, len: usize, val: u8) -> Option<()> {
@@ -101,7 +96,7 @@ impl LinearMemory for LazyLinearMemory {
         if len == 0 || val == 0 && self.inner.is_none() {
             return Some(());
         }
-        self.materialize().fill(addr, len, val)
+        self.materialize().ok()?.fill(addr, len, val)
     }
 
     fn copy_within(&mut self, dst: usize, src: usize, len: usize) -> Option<()> {
@@ -113,7 +108,7 @@ impl LinearMemory for LazyLinearMemory {
         if self.inner.is_none() || len == 0 || dst == src {
             return Some(());
         }
-        self.materialize().copy_within(dst, src, len)
+        self.materialize().ok()?.copy_within(dst, src, len)
     }
 }
 
-- 
2.43.0


From 006aae08687cd27774cfa9375d7e98829ef6647c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:09 +0000
Subject: [PATCH 20/33] fix: writes spanning several chunks take effect
 completely or not at all

---
 crates/tinywasm/src/store/memory/instance.rs |  5 ++++
 crates/tinywasm/src/store/memory/lazy.rs     | 11 +++++++++
 crates/tinywasm/src/store/memory/mod.rs      |  8 ++++++
 crates/tinywasm/src/store/memory/paged.rs    | 26 ++++++++++++++++++++
 4 files changed, 50 insertions(+)

diff --git a/crates/tinywasm/src/store/memory/instance.rs b/crates/tinywasm/src/store/memory/instance.rs
index be0f3b4..b07e449 100644
--- a/crates/tinywasm/src/store/memory/instance.rs
+++ b/crates/tinywasm/src/store/memory/instance.rs
@@ -126,6 +126,11 @@ impl MemoryInstance {
             return Ok(());
         }
 
+        self.inner.prepare_write(dst, len).ok_or_else(|| {
+            cold_path();
+            memory_oob(dst, len, self.inner.len())
+        })?;
+
         let mut buf = [0u8; Self::COPY_CHUNK_SIZE];
         let mut copied = 0;
         while copied < len {
diff --git a/crates/tinywasm/src/store/memory/lazy.rs b/crates/tinywasm/src/store/memory/lazy.rs
index 7aec756..178b857 100644
--- a/crates/tinywasm/src/store/memory/lazy.rs
+++ b/crates/tinywasm/src/store/memory/lazy.rs
@@ -88,6 +88,17 @@ impl LinearMemory for LazyLinearMemory {
         self.materialize().ok()?.write_all(addr, src)
     }
 
+    fn prepare_write(&mut self, addr: usize, len: usize) -> Option<()> {
+        let end = addr.checked_add(len)?;
+        if end > self.len() {
+            return None;
+        }
+        if len == 0 {
+            return Some(());
+        }
+        self.materialize().ok()?.prepare_write(addr, len)
+    }
+
     fn fill(&mut self, addr: usize, len: usize, val: u8) -> Option<()> {
         let end = addr.checked_add(len)?;
         if end > self.len() {
diff --git a/crates/tinywasm/src/store/memory/mod.rs b/crates/tinywasm/src/store/memory/mod.rs
index aeaf3ba..eda0e5d 100644
--- a/crates/tinywasm/src/store/memory/mod.rs
+++ b/crates/tinywasm/src/store/memory/mod.rs
@@ -75,6 +75,14 @@ pub trait LinearMemory {
         Some(())
     }
 
+    /// Acquires whatever storage is needed so that writes within `[addr, addr + len)` cannot fail.
+    ///
+    /// The runtime calls this before operations that write a range in several steps. Backends that
+    /// allocate on first use should override it.
+    fn prepare_write(&mut self, addr: usize, len: usize) -> Option<()> {
+        (addr.checked_add(len)? <= self.len()).then_some(())
+    }
+
     /// Fills the range `[addr, addr + len)` with `val`.
     fn fill(&mut self, addr: usize, len: usize, val: u8) -> Option<()> {
         let end = addr.checked_add(len)?;
diff --git a/crates/tinywasm/src/store/memory/paged.rs b/crates/tinywasm/src/store/memory/paged.rs
index 6ae65af..48c6ff3 100644
--- a/crates/tinywasm/src/store/memory/paged.rs
+++ b/crates/tinywasm/src/store/memory/paged.rs
@@ -65,6 +65,15 @@ impl PagedMemory {
         Ok(self.chunks[chunk_idx].as_deref_mut().unwrap_or_else(|| unreachable!()))
     }
 
+    /// Allocates every chunk of a non-empty range that has already been bounds checked, so that a
+    /// write which spans several chunks either happens completely or not at all.
+    fn allocate_range(&mut self, addr: usize, len: usize) -> Option<()> {
+        for chunk_idx in addr >> self.chunk_shift..=(addr + len - 1) >> self.chunk_shift {
+            self.chunk_mut(chunk_idx).ok()?;
+        }
+        Some(())
+    }
+
     #[inline(always)]
     fn chunk_slice(&self, chunk_idx: usize) -> Option<&[u8]> {
         self.chunks[chunk_idx].as_deref()
@@ -193,6 +202,10 @@ impl LinearMemory for PagedMemory {
         let mut pos = addr;
         let mut src_offset = 0;
 
+        if (addr & self.chunk_mask) + src.len() > self.chunk_size {
+            self.allocate_range(addr, src.len())?;
+        }
+
         while pos < end {
             let chunk_idx = pos >> self.chunk_shift;
             let chunk_offset = pos & self.chunk_mask;
@@ -208,11 +221,23 @@ impl LinearMemory for PagedMemory {
         Some(())
     }
 
+    fn prepare_write(&mut self, addr: usize, len: usize) -> Option<()> {
+        self.checked_end(addr, len)?;
+        if len == 0 {
+            return Some(());
+        }
+        self.allocate_range(addr, len)
+    }
+
     #[inline(always)]
     fn fill(&mut self, addr: usize, len: usize, val: u8) -> Option<()> {
         let end = self.checked_end(addr, len)?;
         let mut pos = addr;
 
+        if val != 0 && len != 0 {
+            self.allocate_range(addr, len)?;
+        }
+
         while pos < end {
             let chunk_idx = pos >> self.chunk_shift;
             let chunk_offset = pos & self.chunk_mask;
@@ -250,6 +275,7 @@ impl LinearMemory for PagedMemory {
             return Some(());
         }
 
+        self.allocate_range(dst, len)?;
         let mut buf = [0u8; 256];
 
         if dst < src || dst >= src + len {
-- 
2.43.0


From 664a0bad0d634ba9e90f5068fc64de8981b590cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 21/33] fix: memory.init counts as a use of its memory, not of
 the memory with the segment's index

---
 crates/types/src/instructions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/types/src/instructions.rs b/crates/types/src/instructions.rs
index a22279e..cf8a217 100644
--- a/crates/types/src/instructions.rs
+++ b/crates/types/src/instructions.rs
@@ -305,7 +305,7 @@ pub enum Instruction {
     TableFill(TableAddr),
 
     // > Bulk Memory Instructions
-    MemoryInit(MemAddr, DataAddr),
+    MemoryInit(DataAddr, MemAddr),
     MemoryCopy { dst_mem: MemAddr, src_mem: MemAddr },
     MemoryFill(MemAddr),
     MemoryFillImm(MemAddr, u8, i32),
@@ -468,7 +468,7 @@ impl Instruction {
             | Self::V128Store64Lane(arg, ..) => Some(arg.mem_addr()),
             Self::MemorySize(mem)
             | Self::MemoryGrow(mem)
-            | Self::MemoryInit(mem, ..)
+            | Self::MemoryInit(_, mem)
             | Self::MemoryFill(mem)
             | Self::MemoryFillImm(mem, ..) => Some(*mem),
             Self::MemoryCopy { dst_mem, src_mem } => Some(if *dst_mem >= *src_mem { *dst_mem } else { *src_mem }),
-- 
2.43.0


From f872df6ea192207c0ccda5cb06536a0ccee5e0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:11 +0000
Subject: [PATCH 22/33] fix: a memory without a declared maximum does not match
 an import that declares one

---
 crates/tinywasm/src/imports.rs | 9 +++++++--
 crates/types/src/lib.rs        | 6 ++++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/crates/tinywasm/src/imports.rs b/crates/tinywasm/src/imports.rs
index 056d706..dad2f05 100644
--- a/crates/tinywasm/src/imports.rs
+++ b/crates/tinywasm/src/imports.rs
@@ -195,8 +195,13 @@ impl Imports {
             return Err(LinkingError::incompatible_import_type(import).into());
         }
 
-        if expected.page_count_max() > actual.page_count_max() {
-            return Err(LinkingError::incompatible_import_type(import).into());
+        // a memory without a declared maximum only matches an import without one
+        match (expected.page_count_max_declared(), actual.page_count_max_declared()) {
+            (None, Some(_)) => return Err(LinkingError::incompatible_import_type(import).into()),
+            (Some(has), Some(allowed)) if has > allowed => {
+                return Err(LinkingError::incompatible_import_type(import).into());
+            }
+            _ => {}
         }
 
         Ok(())
diff --git a/crates/types/src/lib.rs b/crates/types/src/lib.rs
index 4cc46f7..89edf32 100644
--- a/crates/types/src/lib.rs
+++ b/crates/types/src/lib.rs
@@ -572,6 +572,12 @@ impl MemoryType {
         }
     }
 
+    /// Get the maximum page count the type declares, if any.
+    #[inline]
+    pub const fn page_count_max_declared(&self) -> Option<u64> {
+        self.page_count_max
+    }
+
     #[inline]
     pub const fn page_size(&self) -> u64 {
         if let Some(page_size) = self.page_size { page_size } else { MEM_PAGE_SIZE }
-- 
2.43.0


From 3486107fd7942c72f1a9620fdc2c87855b6f2c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:30 +0000
Subject: [PATCH 23/33] fix: nothing is initialised after a failing element or
 data segment, and the later segments still exist

---
 crates/tinywasm/src/instance.rs  |  6 ++--
 crates/tinywasm/src/store/mod.rs | 47 ++++++++++++++++++--------------
 2 files changed, 30 insertions(+), 23 deletions(-)

diff --git a/crates/tinywasm/src/instance.rs b/crates/tinywasm/src/instance.rs
index 68397ba..564021f 100644
--- a/crates/tinywasm/src/instance.rs
+++ b/crates/tinywasm/src/instance.rs
@@ -184,8 +184,8 @@ impl ModuleInstance {
         store.init_globals(&mut addrs.globals, &module.globals, &addrs.funcs)?;
         let (elem_addrs, elem_trapped) =
             store.init_elements(&addrs.tables, &addrs.funcs, &addrs.globals, &module.elements)?;
-        let (data_addrs, data_trapped) =
-            store.init_data(&addrs.memories, &addrs.globals, &addrs.funcs, &module.data)?;
+        let (data_addrs, trapped) =
+            store.init_data(&addrs.memories, &addrs.globals, &addrs.funcs, &module.data, elem_trapped)?;
 
         let instance = ModuleInstanceInner {
             store_id: store.id(),
@@ -205,7 +205,7 @@ impl ModuleInstance {
         let instance = ModuleInstance(Rc::new(instance));
         store.add_instance(instance.clone());
 
-        if let Some(trap) = elem_trapped.or(data_trapped) {
+        if let Some(trap) = trapped {
             cold_path();
             return Err(trap.into());
         }
diff --git a/crates/tinywasm/src/store/mod.rs b/crates/tinywasm/src/store/mod.rs
index 61b09ef..0f7da65 100644
--- a/crates/tinywasm/src/store/mod.rs
+++ b/crates/tinywasm/src/store/mod.rs
@@ -355,6 +355,7 @@ impl Store {
     ) -> Result<(Box<[Addr]>, Option<Trap>)> {
         let elem_count = self.state.elements.len();
         let mut elem_addrs = Vec::with_capacity(elem_count);
+        let mut trapped = None;
         for (i, element) in elements.iter().enumerate() {
             let init = element
                 .items
@@ -363,6 +364,9 @@ impl Store {
                 .collect::<Result<Vec<_>>>()?;
 
             let items = match &element.kind {
+                // nothing happens after a trap, but the functions of this instance can still refer to the segment
+                _ if trapped.is_some() => Some(init),
+
                 // doesn't need to be initialized, can be initialized lazily using the `table.init` instruction
                 ElementKind::Passive => Some(init),
 
@@ -386,19 +390,21 @@ impl Store {
                     // This isn't mentioned in the spec, but the "unofficial" testsuite has a test for it:
                     // https://github.com/WebAssembly/testsuite/blob/5a1a590603d81f40ef471abba70a90a9ae5f4627/linking.wast#L264-L276
                     // I have NO IDEA why this is allowed, but it is.
-                    let Ok(offset) = usize::try_from(offset) else {
-                        return Ok((
-                            elem_addrs.into_boxed_slice(),
-                            Some(Trap::TableOutOfBounds { offset: usize::MAX, len: init.len(), max: table.size() }),
-                        ));
+                    let result = match usize::try_from(offset) {
+                        Ok(offset) => table.init(offset, &init),
+                        Err(_) => {
+                            Err(Trap::TableOutOfBounds { offset: usize::MAX, len: init.len(), max: table.size() })
+                        }
                     };
 
-                    if let Err(trap) = table.init(offset, &init) {
-                        return Ok((elem_addrs.into_boxed_slice(), Some(trap)));
+                    match result {
+                        // f. Execute the instruction elm.drop i
+                        Ok(()) => None,
+                        Err(trap) => {
+                            trapped = Some(trap);
+                            Some(init)
+                        }
                     }
-
-                    // f. Execute the instruction elm.drop i
-                    None
                 }
             };
 
@@ -407,7 +413,7 @@ impl Store {
         }
 
         // this should be optimized out by the compiler
-        Ok((elem_addrs.into_boxed_slice(), None))
+        Ok((elem_addrs.into_boxed_slice(), trapped))
     }
 
     /// Add data to the store, returning their addresses in the store
@@ -417,11 +423,14 @@ impl Store {
         global_addrs: &[Addr],
         func_addrs: &[FuncAddr],
         data: &[Data],
+        mut trapped: Option<Trap>,
     ) -> Result<(Box<[Addr]>, Option<Trap>)> {
         let data_count = self.state.data.len();
         let mut data_addrs = Vec::with_capacity(data_count);
         for (i, data) in data.iter().enumerate() {
             let data_val = match &data.kind {
+                // nothing happens after a trap, but the functions of this instance can still refer to the segment
+                _ if trapped.is_some() => Some(data.data.to_vec()),
                 tinywasm_types::DataKind::Active { mem: mem_addr, offset } => {
                     let Some(mem_addr) = mem_addrs.get(*mem_addr as usize) else {
                         return Err(Error::Other(format!("memory {mem_addr} not found for data segment {i}")));
@@ -436,14 +445,12 @@ impl Store {
                     match mem.inner.write_all(offset, &data.data) {
                         Some(()) => None,
                         None => {
-                            return Ok((
-                                data_addrs.into_boxed_slice(),
-                                Some(crate::Trap::MemoryOutOfBounds {
-                                    offset,
-                                    len: data.data.len(),
-                                    max: mem.inner.len(),
-                                }),
-                            ));
+                            trapped = Some(crate::Trap::MemoryOutOfBounds {
+                                offset,
+                                len: data.data.len(),
+                                max: mem.inner.len(),
+                            });
+                            Some(data.data.to_vec())
                         }
                     }
                 }
@@ -455,7 +462,7 @@ impl Store {
         }
 
         // this should be optimized out by the compiler
-        Ok((data_addrs.into_boxed_slice(), None))
+        Ok((data_addrs.into_boxed_slice(), trapped))
     }
 
     pub(crate) fn add_func(&mut self, func: FunctionInstance) -> FuncAddr {
-- 
2.43.0


From 0c84780f7eb0c015d63ed5b68a31be18c481036a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:50 +0000
Subject: [PATCH 24/33] fix: imported memories, tables and globals of another
 store are refused

---
 crates/tinywasm/src/imports.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/crates/tinywasm/src/imports.rs b/crates/tinywasm/src/imports.rs
index dad2f05..c70b10b 100644
--- a/crates/tinywasm/src/imports.rs
+++ b/crates/tinywasm/src/imports.rs
@@ -225,6 +225,13 @@ impl Imports {
 
         for import in &*module.imports {
             let (val, func_handle) = if let Some(defined) = self.take_defined(import) {
+                match &defined {
+                    Extern::Global(global) => global.0.validate_store(store)?,
+                    Extern::Table(table) => table.0.validate_store(store)?,
+                    Extern::Memory(memory) => memory.0.validate_store(store)?,
+                    Extern::Function(func) => func.item.validate_store(store)?,
+                }
+
                 match defined {
                     Extern::Global(global) => (ExternVal::Global(global.0.addr), None),
                     Extern::Table(table) => (ExternVal::Table(table.0.addr), None),
@@ -269,12 +276,8 @@ impl Imports {
                         .func_types
                         .get(*ty as usize)
                         .ok_or_else(|| LinkingError::incompatible_import_type(import))?;
-                    let actual_ty = if let Some(func) = &func_handle {
-                        func.item.validate_store(store)?;
-                        &func.ty
-                    } else {
-                        store.state.get_func(func_addr).ty()
-                    };
+                    let actual_ty =
+                        if let Some(func) = &func_handle { &func.ty } else { store.state.get_func(func_addr).ty() };
                     Self::compare_types(import, actual_ty, import_func_type)?;
                     imports.funcs.push(func_addr);
                 }
-- 
2.43.0


From 383222cb2b348a90bc12e632c0867774171a9193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:00 +0000
Subject: [PATCH 25/33] fix: read_js_string accepts surrogate pairs

---
 crates/tinywasm/src/reference.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/crates/tinywasm/src/reference.rs b/crates/tinywasm/src/reference.rs
index e46db51..9250252 100644
--- a/crates/tinywasm/src/reference.rs
+++ b/crates/tinywasm/src/reference.rs
@@ -310,14 +310,10 @@ impl Memory {
     /// Reads a JavaScript-style utf-16 string from memory.
     pub fn read_js_string(&self, store: &Store, offset: usize, len: usize) -> Result<String> {
         let bytes = self.read_vec(store, offset, len)?;
-        let mut string = String::new();
-        for i in 0..(len / 2) {
-            let c = u16::from_le_bytes([bytes[i * 2], bytes[i * 2 + 1]]);
-            string.push(
-                char::from_u32(u32::from(c)).ok_or_else(|| crate::Error::Other("Invalid UTF-16 string".to_string()))?,
-            );
-        }
-        Ok(string)
+        let units = bytes.chunks_exact(2).map(|unit| u16::from_le_bytes([unit[0], unit[1]]));
+        char::decode_utf16(units)
+            .collect::<core::result::Result<String, _>>()
+            .map_err(|_| crate::Error::Other("Invalid UTF-16 string".to_string()))
     }
 }
 
-- 
2.43.0


From 346e5ed6b2f4060fe277a73dfe9d9aa7f310854b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:58 +0000
Subject: [PATCH 26/33] fix: an invalid host memory type is an error, not a
 panic

---
 crates/tinywasm/src/store/memory/instance.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/crates/tinywasm/src/store/memory/instance.rs b/crates/tinywasm/src/store/memory/instance.rs
index b07e449..3a51a4d 100644
--- a/crates/tinywasm/src/store/memory/instance.rs
+++ b/crates/tinywasm/src/store/memory/instance.rs
@@ -56,8 +56,20 @@ impl MemoryInstance {
         }
     }
 
+    fn validate_type(kind: MemoryType) -> Result<()> {
+        if kind.page_size() == 0 || kind.page_count_initial() > kind.page_count_max() {
+            cold_path();
+            return Err(Error::other("invalid memory type"));
+        }
+        if kind.page_count_initial().checked_mul(kind.page_size()).is_none() {
+            cold_path();
+            return Err(Error::UnsupportedFeature("memory size exceeds the host address space"));
+        }
+        Ok(())
+    }
+
     pub(crate) fn new(kind: MemoryType, backend: &MemoryBackend) -> Result<Self> {
-        assert!(kind.page_count_initial() <= kind.page_count_max());
+        Self::validate_type(kind)?;
 
         let initial_len = usize::try_from(kind.initial_size())
             .map_err(|_| Error::UnsupportedFeature("memory size exceeds the host address space"))?;
@@ -80,7 +92,7 @@ impl MemoryInstance {
     }
 
     pub(crate) fn new_lazy(kind: MemoryType, backend: &MemoryBackend) -> Result<Self> {
-        assert!(kind.page_count_initial() <= kind.page_count_max());
+        Self::validate_type(kind)?;
 
         let initial_len = usize::try_from(kind.initial_size())
             .map_err(|_| Error::UnsupportedFeature("memory size exceeds the host address space"))?;
-- 
2.43.0


From c85cbfaf2fc76dff5dfb39f3d712f58a191d2cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:45 +0000
Subject: [PATCH 27/33] fix: Table::new refuses a minimum above the maximum

---
 crates/tinywasm/src/reference.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/tinywasm/src/reference.rs b/crates/tinywasm/src/reference.rs
index 9250252..cffc220 100644
--- a/crates/tinywasm/src/reference.rs
+++ b/crates/tinywasm/src/reference.rs
@@ -341,6 +341,9 @@ impl Table {
             (WasmType::RefExtern, WasmValue::RefExtern(extern_ref)) => TableElement::from(extern_ref.addr()),
             _ => return Err(Error::other("invalid table init value")),
         };
+        if ty.size_max.is_some_and(|max| max < ty.size_initial) {
+            return Err(Error::other("invalid table type"));
+        }
         let addr = store.state.tables.len() as TableAddr;
         store.state.tables.push(TableInstance::new_with_init(ty, init)?);
         Ok(Self(StoreItem::new(store.id(), addr)))
-- 
2.43.0


From 21368c53c3b819d76e3288b5b96cf9ece966575a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:31 +0000
Subject: [PATCH 28/33] fix: parsing a stream retries interrupted reads

---
 crates/parser/src/lib.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/parser/src/lib.rs b/crates/parser/src/lib.rs
index 7936675..82502b3 100644
--- a/crates/parser/src/lib.rs
+++ b/crates/parser/src/lib.rs
@@ -178,9 +178,14 @@ impl Parser {
     fn read_more(stream: &mut impl std::io::Read, buffer: &mut alloc::vec::Vec<u8>, hint: usize) -> Result<usize> {
         let len = buffer.len();
         buffer.resize(len + hint, 0);
-        let read_bytes = stream
-            .read(&mut buffer[len..])
-            .map_err(|e| ParseError::Other(alloc::format!("Error reading from stream: {e}")))?;
+        let read_bytes = loop {
+            match stream.read(&mut buffer[len..]) {
+                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
+                result => {
+                    break result.map_err(|e| ParseError::Other(alloc::format!("Error reading from stream: {e}")))?;
+                }
+            }
+        };
         buffer.truncate(len + read_bytes);
         Ok(read_bytes)
     }
-- 
2.43.0


From 68ae109a1042032cbd1091cf94ec403d28eb7be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:09 +0000
Subject: [PATCH 29/33] fix: a declared section length does not make the stream
 parser reserve that much memory

---
 crates/parser/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/parser/src/lib.rs b/crates/parser/src/lib.rs
index 82502b3..673b115 100644
--- a/crates/parser/src/lib.rs
+++ b/crates/parser/src/lib.rs
@@ -176,8 +176,9 @@ impl Parser {
 
     #[cfg(feature = "std")]
     fn read_more(stream: &mut impl std::io::Read, buffer: &mut alloc::vec::Vec<u8>, hint: usize) -> Result<usize> {
+        // the hint comes from the input: a section length does not justify reserving that much up front
         let len = buffer.len();
-        buffer.resize(len + hint, 0);
+        buffer.resize(len + hint.min(64 * 1024), 0);
         let read_bytes = loop {
             match stream.read(&mut buffer[len..]) {
                 Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
-- 
2.43.0


From 798f298a5af0b2fa8c0970387c878edaa1ce6d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:42 +0000
Subject: [PATCH 30/33] fix: a stack size that cannot be allocated traps
 instead of aborting the process

---
 crates/tinywasm/src/interpreter/stack/call_stack.rs  | 11 +++++------
 crates/tinywasm/src/interpreter/stack/value_stack.rs |  9 ++++-----
 2 files changed, 9 insertions(+), 11 deletions(-)

diff --git a/crates/tinywasm/src/interpreter/stack/call_stack.rs b/crates/tinywasm/src/interpreter/stack/call_stack.rs
index e8bb07f..49c5551 100644
--- a/crates/tinywasm/src/interpreter/stack/call_stack.rs
+++ b/crates/tinywasm/src/interpreter/stack/call_stack.rs
@@ -13,12 +13,11 @@ pub(crate) struct CallStack {
 
 impl CallStack {
     pub(crate) fn new(config: &crate::engine::Config) -> Self {
-        let stack = config.call_stack;
-        Self {
-            stack: Vec::with_capacity(stack.initial_size.min(stack.max_size)),
-            max_size: stack.max_size,
-            dynamic: stack.dynamic,
-        }
+        // a size that cannot be allocated is reported as an overflow once the stack is used
+        let config = config.call_stack;
+        let mut stack = Vec::new();
+        let _ = stack.try_reserve_exact(config.initial_size.min(config.max_size));
+        Self { stack, max_size: config.max_size, dynamic: config.dynamic }
     }
 
     pub(crate) fn clear(&mut self) {
diff --git a/crates/tinywasm/src/interpreter/stack/value_stack.rs b/crates/tinywasm/src/interpreter/stack/value_stack.rs
index 4be7716..03cc0cc 100644
--- a/crates/tinywasm/src/interpreter/stack/value_stack.rs
+++ b/crates/tinywasm/src/interpreter/stack/value_stack.rs
@@ -23,11 +23,10 @@ pub(crate) struct Stack<T: Copy + Default> {
 
 impl<T: Copy + Default> Stack<T> {
     pub(crate) fn new(config: StackConfig) -> Self {
-        Self {
-            data: Vec::with_capacity(config.initial_size.min(config.max_size)),
-            max_size: config.max_size,
-            dynamic: config.dynamic,
-        }
+        // a size that cannot be allocated is reported as an overflow once the stack is used
+        let mut data = Vec::new();
+        let _ = data.try_reserve_exact(config.initial_size.min(config.max_size));
+        Self { data, max_size: config.max_size, dynamic: config.dynamic }
     }
 
     pub(crate) fn clear(&mut self) {
-- 
2.43.0


From 67f98a2a62aa0584723aa1e08eac79ff960fe117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:42 +0000
Subject: [PATCH 31/33] fix: the CLI refuses a chunk size that is not a power
 of two instead of panicking

---
 crates/cli/src/engine_flags.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/cli/src/engine_flags.rs b/crates/cli/src/engine_flags.rs
index c8df1fe..36f97ff 100644
--- a/crates/cli/src/engine_flags.rs
+++ b/crates/cli/src/engine_flags.rs
@@ -93,6 +93,9 @@ impl EngineFlags {
                     if self.memory_page_chunk_size == 0 {
                         bail!("--memory-page-chunk-size must be greater than zero");
                     }
+                    if !self.memory_page_chunk_size.is_power_of_two() {
+                        bail!("--memory-page-chunk-size must be a power of two");
+                    }
                     tinywasm::MemoryBackend::paged(self.memory_page_chunk_size)
                 }
             });
-- 
2.43.0


From 4e4a38aa24ebeac1b5d94b91721c6fe623faca06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:42 +0000
Subject: [PATCH 32/33] fix: the CLI accepts a negative number as the first
 argument of an invoked export

---
 crates/cli/src/cli.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cli/src/cli.rs b/crates/cli/src/cli.rs
index ae367d2..5aa3229 100644
--- a/crates/cli/src/cli.rs
+++ b/crates/cli/src/cli.rs
@@ -65,7 +65,7 @@ pub struct RunArgs {
     pub engine: EngineFlags,
 
     /// Arguments passed to the invoked Wasm function
-    #[arg(trailing_var_arg = true)]
+    #[arg(trailing_var_arg = true, allow_negative_numbers = true)]
     pub args: Vec<String>,
 }
 
-- 
2.43.0


From 5823cc90e56ba8aa20290729b431de069dd8902c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:10 +0000
Subject: [PATCH 33/33] fix: the spec-script runner registers the named module
 and keeps module names apart from registered names

---
 crates/cli/src/wast_runner.rs | 24 ++++++------------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/crates/cli/src/wast_runner.rs b/crates/cli/src/wast_runner.rs
index 99f1efe..4a54f24 100644
--- a/crates/cli/src/wast_runner.rs
+++ b/crates/cli/src/wast_runner.rs
@@ -35,34 +35,22 @@ impl ModuleRegistry {
 
     fn register(&mut self, name: String, module: ModuleInstance) {
         debug!("registering module: {name}");
-        self.modules.insert(name.clone(), module.clone());
-        self.last_module = Some(module.clone());
-        self.named_modules.insert(name, module);
+        self.modules.insert(name, module);
     }
 
     fn get_idx(&self, module_id: Option<wast::token::Id<'_>>) -> Option<u32> {
         match module_id {
-            Some(module) => self
-                .modules
-                .get(module.name())
-                .or_else(|| self.named_modules.get(module.name()))
-                .map(ModuleInstance::id),
+            Some(module) => self.named_modules.get(module.name()).map(ModuleInstance::id),
             None => self.last_module.as_ref().map(ModuleInstance::id),
         }
     }
 
     fn get(&self, module_id: Option<wast::token::Id<'_>>) -> Option<ModuleInstance> {
         match module_id {
-            Some(module_id) => {
-                self.modules.get(module_id.name()).or_else(|| self.named_modules.get(module_id.name())).cloned()
-            }
+            Some(module_id) => self.named_modules.get(module_id.name()).cloned(),
             None => self.last_module.clone(),
         }
     }
-
-    fn last(&self) -> Option<ModuleInstance> {
-        self.last_module.clone()
-    }
 }
 
 #[derive(Default)]
@@ -223,8 +211,8 @@ impl WastRunner {
             };
 
             match directive {
-                Register { span, name, .. } => {
-                    let Some(last) = module_registry.last() else {
+                Register { span, name, module } => {
+                    let Some(instance) = module_registry.get(module) else {
                         test_group.add_result(
                             &format!("Register({i})"),
                             span.linecol_in(wast_raw),
@@ -232,7 +220,7 @@ impl WastRunner {
                         );
                         continue;
                     };
-                    module_registry.register(name.to_string(), last);
+                    module_registry.register(name.to_string(), instance);
                     test_group.add_result(&format!("Register({i})"), span.linecol_in(wast_raw), Ok(()));
                 }
                 Wat(module) => {
-- 
2.43.0

