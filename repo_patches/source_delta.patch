From c0232c63ba49169f2d0c6abefd92f24b65fc9b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:29 +0000
Subject: [PATCH 01/26] sim: scheduling seam for deterministic simulation (cfg
 chiwawa_sim, off by default)

---
 src/execution/migration.rs |  7 +++
 src/lib.rs                 |  5 +++
 src/sim.rs                 | 89 ++++++++++++++++++++++++++++++++++++++
 3 files changed, 101 insertions(+)
 create mode 100644 src/sim.rs

diff --git a/src/execution/migration.rs b/src/execution/migration.rs
index 0543d7a..69b3662 100644
--- a/src/execution/migration.rs
+++ b/src/execution/migration.rs
@@ -49,9 +49,13 @@ use std::io::{Read, Write};
 use std::path::Path;
 use std::rc::Rc;
 use std::sync::atomic::{AtomicBool, Ordering};
+#[cfg(not(chiwawa_sim))]
 use std::thread;
 use std::time::Duration;
 
+#[cfg(chiwawa_sim)]
+use crate::sim::thread;
+
 static CHECKPOINT_TRIGGERED: AtomicBool = AtomicBool::new(false);
 const CHECKPOINT_TRIGGER_FILE: &str = "./checkpoint.trigger";
 
@@ -103,6 +107,9 @@ pub fn poll_checkpoint(state: &mut VmState) -> bool {
 
 #[inline(never)]
 fn do_poll_checkpoint(state: &mut VmState) -> bool {
+    #[cfg(chiwawa_sim)]
+    crate::sim::poll_point();
+
     #[cfg(all(
         target_arch = "wasm32",
         target_os = "wasi",
diff --git a/src/lib.rs b/src/lib.rs
index 5a2d47f..8f6b00d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,5 +1,10 @@
+// `chiwawa_sim` is set with `RUSTFLAGS="--cfg chiwawa_sim"` only.
+#![allow(unexpected_cfgs)]
+
 pub mod error;
 pub mod execution;
 pub mod parser;
+#[cfg(chiwawa_sim)]
+pub mod sim;
 pub mod structure;
 pub mod wasi;
diff --git a/src/sim.rs b/src/sim.rs
new file mode 100644
index 0000000..5389126
--- /dev/null
+++ b/src/sim.rs
@@ -0,0 +1,89 @@
+//! Seam for deterministic simulation (compiled only with `--cfg chiwawa_sim`).
+//!
+//! A simulator hosts the interpreter as a WASI program and decides when
+//! everything happens. Two sources of nondeterminism do not go through WASI
+//! host calls and are therefore surfaced here: how far the interpreter has
+//! executed, and when the checkpoint monitor thread gets to run.
+//!
+//! - [`poll_point`] is reached once per checkpoint poll; every time the budget
+//!   granted by the simulator is used up, control passes to the simulator.
+//! - [`thread`] stands in for the parts of `std::thread` that the checkpoint
+//!   monitor uses. A spawned thread runs only when the simulator resumes it,
+//!   from the top of its closure up to its next `sleep`.
+
+use std::cell::UnsafeCell;
+
+struct Cell<T>(UnsafeCell<T>);
+// The simulated process has a single host thread.
+unsafe impl<T> Sync for Cell<T> {}
+
+static BUDGET: Cell<u32> = Cell(UnsafeCell::new(1));
+static THREADS: Cell<Vec<Option<Box<dyn FnMut()>>>> = Cell(UnsafeCell::new(Vec::new()));
+
+#[link(wasm_import_module = "chiwawa_sim")]
+extern "C" {
+    /// Gives control to the simulator; returns the number of polls until the next call.
+    fn sched() -> u32;
+    fn spawned(id: u32);
+    /// Ends the current turn of a simulated thread; does not return.
+    fn sleep(nanos: u64);
+}
+
+/// Scheduling point: one checkpoint poll has been reached.
+#[inline(always)]
+pub fn poll_point() {
+    unsafe {
+        let budget = BUDGET.0.get();
+        *budget -= 1;
+        if *budget == 0 {
+            *budget = sched().max(1);
+        }
+    }
+}
+
+/// Polls left in the current budget.
+#[no_mangle]
+pub extern "C" fn chiwawa_sim_budget() -> u32 {
+    unsafe { *BUDGET.0.get() }
+}
+
+/// Runs simulated thread `id` until it sleeps (does not return) or ends (returns).
+#[no_mangle]
+pub extern "C" fn chiwawa_sim_resume(id: u32) {
+    unsafe {
+        let threads = &mut *THREADS.0.get();
+        if let Some(Some(body)) = threads.get_mut(id as usize) {
+            let body: *mut Box<dyn FnMut()> = body;
+            (*body)();
+            threads[id as usize] = None;
+        }
+    }
+}
+
+/// Simulated counterpart of `std::thread`.
+pub mod thread {
+    use std::marker::PhantomData;
+    pub use std::thread::*;
+    use std::time::Duration;
+
+    pub struct JoinHandle<T>(PhantomData<T>);
+
+    pub fn spawn<F, T>(mut f: F) -> JoinHandle<T>
+    where
+        F: FnMut() -> T + Send + 'static,
+        T: Send + 'static,
+    {
+        unsafe {
+            let threads = &mut *super::THREADS.0.get();
+            threads.push(Some(Box::new(move || {
+                f();
+            })));
+            super::spawned(threads.len() as u32 - 1);
+        }
+        JoinHandle(PhantomData)
+    }
+
+    pub fn sleep(dur: Duration) {
+        unsafe { super::sleep(dur.as_nanos() as u64) }
+    }
+}
-- 
2.43.0


From 83818d0fea7aa047d48251789df60c6b522ab36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:45 +0000
Subject: [PATCH 02/26] fix: keep tail calls in handlers that drop values, so
 long runs do not exhaust the host stack

---
 src/execution/handlers.rs | 832 ++++++++++++++++++++++----------------
 1 file changed, 481 insertions(+), 351 deletions(-)

diff --git a/src/execution/handlers.rs b/src/execution/handlers.rs
index 2a40f8d..8204d1c 100644
--- a/src/execution/handlers.rs
+++ b/src/execution/handlers.rs
@@ -309,6 +309,35 @@ macro_rules! advance {
     }};
 }
 
+// advance_or_trap! macro — `advance!` for handlers whose work needs destructors
+// (an `Rc` clone, a `Val`, a `Ref`) or can trap. Such work goes into a separate
+// `#[inline(never)]` function: a destructor or a stack slot that is still live at
+// the dispatch site turns the tail call into an ordinary one, and the host stack
+// then grows with every executed instruction.
+#[cfg(feature = "tco")]
+macro_rules! advance_or_trap {
+    ($state:expr, $ok:expr) => {{
+        let h: Handler = if $ok {
+            unsafe { crate::execution::handlers::next_handler($state) }
+        } else {
+            trap
+        };
+        h($state)
+    }};
+}
+
+#[cfg(not(feature = "tco"))]
+macro_rules! advance_or_trap {
+    ($state:expr, $ok:expr) => {{
+        let _ = $state;
+        if $ok {
+            Outcome::Continue
+        } else {
+            Outcome::Trap
+        }
+    }};
+}
+
 #[cfg(not(feature = "tco"))]
 macro_rules! advance {
     ($state:expr) => {{
@@ -1139,23 +1168,28 @@ conv!(
 macro_rules! conv_trap {
     ($name:ident, $read:ident, $write:ident, $ty:ty, $min:expr, $max:expr, $cast:expr) => {
         pub fn $name(state: &mut VmState) -> Outcome {
-            let (src, dst) = match state.current_instr() {
-                ProcessedInstr::ConversionReg { src, dst, .. } => (*src, *dst),
-                _ => unsafe { std::hint::unreachable_unchecked() },
-            };
-            let v = operand::$read(state, &src);
-            if v.is_nan() {
-                state.trap = Some(RuntimeError::InvalidConversionToInt);
-                return trap(state);
-            }
-            let t = v.trunc();
-            if t < $min || t > $max {
-                state.trap = Some(RuntimeError::IntegerOverflow);
-                return trap(state);
+            #[inline(never)]
+            fn exec(state: &mut VmState) -> bool {
+                let (src, dst) = match state.current_instr() {
+                    ProcessedInstr::ConversionReg { src, dst, .. } => (*src, *dst),
+                    _ => unsafe { std::hint::unreachable_unchecked() },
+                };
+                let v = operand::$read(state, &src);
+                if v.is_nan() {
+                    state.trap = Some(RuntimeError::InvalidConversionToInt);
+                    return false;
+                }
+                let t = v.trunc();
+                if t < $min || t > $max {
+                    state.trap = Some(RuntimeError::IntegerOverflow);
+                    return false;
+                }
+                operand::$write(state, &dst, $cast(t));
+                state.pc += 1;
+                true
             }
-            operand::$write(state, &dst, $cast(t));
-            state.pc += 1;
-            advance!(state)
+            let ok = exec(state);
+            advance_or_trap!(state, ok)
         }
     };
 }
@@ -1199,80 +1233,100 @@ conv_trap!(
 
 // i64 trunc has different bound check (>= for max), so write explicit functions
 pub fn conv_i64_trunc_f32_s(state: &mut VmState) -> Outcome {
-    let (src, dst) = match state.current_instr() {
-        ProcessedInstr::ConversionReg { src, dst, .. } => (*src, *dst),
-        _ => unsafe { std::hint::unreachable_unchecked() },
-    };
-    let v = operand::read_reg_f32(state, &src);
-    if v.is_nan() {
-        state.trap = Some(RuntimeError::InvalidConversionToInt);
-        return trap(state);
-    }
-    let t = v.trunc();
-    if t < (i64::MIN as f32) || t >= (i64::MAX as f32) {
-        state.trap = Some(RuntimeError::IntegerOverflow);
-        return trap(state);
+    #[inline(never)]
+    fn exec(state: &mut VmState) -> bool {
+        let (src, dst) = match state.current_instr() {
+            ProcessedInstr::ConversionReg { src, dst, .. } => (*src, *dst),
+            _ => unsafe { std::hint::unreachable_unchecked() },
+        };
+        let v = operand::read_reg_f32(state, &src);
+        if v.is_nan() {
+            state.trap = Some(RuntimeError::InvalidConversionToInt);
+            return false;
+        }
+        let t = v.trunc();
+        if t < (i64::MIN as f32) || t >= (i64::MAX as f32) {
+            state.trap = Some(RuntimeError::IntegerOverflow);
+            return false;
+        }
+        operand::write_dst_i64(state, &dst, t as i64);
+        state.pc += 1;
+        true
     }
-    operand::write_dst_i64(state, &dst, t as i64);
-    state.pc += 1;
-    advance!(state)
+    let ok = exec(state);
+    advance_or_trap!(state, ok)
 }
 pub fn conv_i64_trunc_f32_u(state: &mut VmState) -> Outcome {
-    let (src, dst) = match state.current_instr() {
-        ProcessedInstr::ConversionReg { src, dst, .. } => (*src, *dst),
-        _ => unsafe { std::hint::unreachable_unchecked() },
-    };
-    let v = operand::read_reg_f32(state, &src);
-    if v.is_nan() {
-        state.trap = Some(RuntimeError::InvalidConversionToInt);
-        return trap(state);
-    }
-    let t = v.trunc();
-    if t < 0.0 || t >= (u64::MAX as f32) {
-        state.trap = Some(RuntimeError::IntegerOverflow);
-        return trap(state);
+    #[inline(never)]
+    fn exec(state: &mut VmState) -> bool {
+        let (src, dst) = match state.current_instr() {
+            ProcessedInstr::ConversionReg { src, dst, .. } => (*src, *dst),
+            _ => unsafe { std::hint::unreachable_unchecked() },
+        };
+        let v = operand::read_reg_f32(state, &src);
+        if v.is_nan() {
+            state.trap = Some(RuntimeError::InvalidConversionToInt);
+            return false;
+        }
+        let t = v.trunc();
+        if t < 0.0 || t >= (u64::MAX as f32) {
+            state.trap = Some(RuntimeError::IntegerOverflow);
+            return false;
+        }
+        operand::write_dst_i64(state, &dst, (t as u64) as i64);
+        state.pc += 1;
+        true
     }
-    operand::write_dst_i64(state, &dst, (t as u64) as i64);
-    state.pc += 1;
-    advance!(state)
+    let ok = exec(state);
+    advance_or_trap!(state, ok)
 }
 pub fn conv_i64_trunc_f64_s(state: &mut VmState) -> Outcome {
-    let (src, dst) = match state.current_instr() {
-        ProcessedInstr::ConversionReg { src, dst, .. } => (*src, *dst),
-        _ => unsafe { std::hint::unreachable_unchecked() },
-    };
-    let v = operand::read_reg_f64(state, &src);
-    if v.is_nan() {
-        state.trap = Some(RuntimeError::InvalidConversionToInt);
-        return trap(state);
-    }
-    let t = v.trunc();
-    if t < (i64::MIN as f64) || t >= (i64::MAX as f64) {
-        state.trap = Some(RuntimeError::IntegerOverflow);
-        return trap(state);
+    #[inline(never)]
+    fn exec(state: &mut VmState) -> bool {
+        let (src, dst) = match state.current_instr() {
+            ProcessedInstr::ConversionReg { src, dst, .. } => (*src, *dst),
+            _ => unsafe { std::hint::unreachable_unchecked() },
+        };
+        let v = operand::read_reg_f64(state, &src);
+        if v.is_nan() {
+            state.trap = Some(RuntimeError::InvalidConversionToInt);
+            return false;
+        }
+        let t = v.trunc();
+        if t < (i64::MIN as f64) || t >= (i64::MAX as f64) {
+            state.trap = Some(RuntimeError::IntegerOverflow);
+            return false;
+        }
+        operand::write_dst_i64(state, &dst, t as i64);
+        state.pc += 1;
+        true
     }
-    operand::write_dst_i64(state, &dst, t as i64);
-    state.pc += 1;
-    advance!(state)
+    let ok = exec(state);
+    advance_or_trap!(state, ok)
 }
 pub fn conv_i64_trunc_f64_u(state: &mut VmState) -> Outcome {
-    let (src, dst) = match state.current_instr() {
-        ProcessedInstr::ConversionReg { src, dst, .. } => (*src, *dst),
-        _ => unsafe { std::hint::unreachable_unchecked() },
-    };
-    let v = operand::read_reg_f64(state, &src);
-    if v.is_nan() {
-        state.trap = Some(RuntimeError::InvalidConversionToInt);
-        return trap(state);
-    }
-    let t = v.trunc();
-    if t < 0.0 || t >= (u64::MAX as f64) {
-        state.trap = Some(RuntimeError::IntegerOverflow);
-        return trap(state);
+    #[inline(never)]
+    fn exec(state: &mut VmState) -> bool {
+        let (src, dst) = match state.current_instr() {
+            ProcessedInstr::ConversionReg { src, dst, .. } => (*src, *dst),
+            _ => unsafe { std::hint::unreachable_unchecked() },
+        };
+        let v = operand::read_reg_f64(state, &src);
+        if v.is_nan() {
+            state.trap = Some(RuntimeError::InvalidConversionToInt);
+            return false;
+        }
+        let t = v.trunc();
+        if t < 0.0 || t >= (u64::MAX as f64) {
+            state.trap = Some(RuntimeError::IntegerOverflow);
+            return false;
+        }
+        operand::write_dst_i64(state, &dst, (t as u64) as i64);
+        state.pc += 1;
+        true
     }
-    operand::write_dst_i64(state, &dst, (t as u64) as i64);
-    state.pc += 1;
-    advance!(state)
+    let ok = exec(state);
+    advance_or_trap!(state, ok)
 }
 
 // ============================================================================
@@ -1575,53 +1629,63 @@ pub fn r#if(state: &mut VmState) -> Outcome {
 }
 
 pub fn end(state: &mut VmState) -> Outcome {
-    let instr = unsafe { &*state.instrs.add(state.pc) };
-    let ProcessedInstr::EndReg {
-        source_regs,
-        target_result_regs,
-    } = instr
-    else {
-        unsafe { std::hint::unreachable_unchecked() }
-    };
+    #[inline(never)]
+    fn exec(state: &mut VmState) -> bool {
+        let instr = unsafe { &*state.instrs.add(state.pc) };
+        let ProcessedInstr::EndReg {
+            source_regs,
+            target_result_regs,
+        } = instr
+        else {
+            unsafe { std::hint::unreachable_unchecked() }
+        };
 
-    let mut halt = false;
-    if state.label_stack().len() <= 1 {
-        halt = true;
-    } else {
-        state
-            .reg_file_mut()
-            .copy_regs(source_regs, target_result_regs);
-        state.label_stack_mut().pop();
-        state.current_label_idx = state.label_stack().len() - 1;
-        let next_ip = state.pc + 1;
-        if next_ip >= state.instrs_len && state.current_label_idx == 0 {
+        let mut halt = false;
+        if state.label_stack().len() <= 1 {
             halt = true;
         } else {
-            state.pc = next_ip;
+            state
+                .reg_file_mut()
+                .copy_regs(source_regs, target_result_regs);
+            state.label_stack_mut().pop();
+            state.current_label_idx = state.label_stack().len() - 1;
+            let next_ip = state.pc + 1;
+            if next_ip >= state.instrs_len && state.current_label_idx == 0 {
+                halt = true;
+            } else {
+                state.pc = next_ip;
+            }
         }
-    }
-    if halt {
-        let dst = state.return_result_regs_mut();
-        dst.clear();
-        for r in source_regs.iter() {
-            dst.push(*r);
+        if halt {
+            let dst = state.return_result_regs_mut();
+            dst.clear();
+            for r in source_regs.iter() {
+                dst.push(*r);
+            }
+            state.pc = state.instrs_len;
         }
-        state.pc = state.instrs_len;
+        true
     }
-    advance!(state)
+    let ok = exec(state);
+    advance_or_trap!(state, ok)
 }
 
 pub fn jump(state: &mut VmState) -> Outcome {
-    let target_ip = match state.current_instr() {
-        ProcessedInstr::JumpReg { target_ip } => *target_ip,
-        _ => unsafe { std::hint::unreachable_unchecked() },
-    };
-    if state.label_stack().len() > 1 {
-        state.label_stack_mut().pop();
-        state.current_label_idx = state.label_stack().len() - 1;
+    #[inline(never)]
+    fn exec(state: &mut VmState) -> bool {
+        let target_ip = match state.current_instr() {
+            ProcessedInstr::JumpReg { target_ip } => *target_ip,
+            _ => unsafe { std::hint::unreachable_unchecked() },
+        };
+        if state.label_stack().len() > 1 {
+            state.label_stack_mut().pop();
+            state.current_label_idx = state.label_stack().len() - 1;
+        }
+        state.pc = target_ip;
+        true
     }
-    state.pc = target_ip;
-    advance!(state)
+    let ok = exec(state);
+    advance_or_trap!(state, ok)
 }
 
 // ============================================================================
@@ -1748,22 +1812,27 @@ pub fn r#return(state: &mut VmState) -> Outcome {
 macro_rules! global_get {
     ($name:ident, $to:ident, $write:ident, $variant:ident) => {
         pub fn $name(state: &mut VmState) -> Outcome {
-            let (dst, global_index) = match state.current_instr() {
-                ProcessedInstr::GlobalGetReg {
-                    dst, global_index, ..
-                } => (*dst, *global_index),
-                _ => unsafe { std::hint::unreachable_unchecked() },
-            };
-            let global_addr = state
-                .module()
-                .global_addrs
-                .get_by_idx(crate::structure::types::GlobalIdx(global_index))
-                .clone();
-            let val = global_addr.get();
-            let v = val.$to().unwrap_or(Default::default());
-            operand::$write(state, &dst, v);
-            state.pc += 1;
-            advance!(state)
+            #[inline(never)]
+            fn exec(state: &mut VmState) -> bool {
+                let (dst, global_index) = match state.current_instr() {
+                    ProcessedInstr::GlobalGetReg {
+                        dst, global_index, ..
+                    } => (*dst, *global_index),
+                    _ => unsafe { std::hint::unreachable_unchecked() },
+                };
+                let global_addr = state
+                    .module()
+                    .global_addrs
+                    .get_by_idx(crate::structure::types::GlobalIdx(global_index))
+                    .clone();
+                let val = global_addr.get();
+                let v = val.$to().unwrap_or(Default::default());
+                operand::$write(state, &dst, v);
+                state.pc += 1;
+                true
+            }
+            let ok = exec(state);
+            advance_or_trap!(state, ok)
         }
     };
 }
@@ -1776,30 +1845,36 @@ global_get!(global_get_f64, to_f64, write_dst_f64, F64);
 macro_rules! global_set {
     ($name:ident, $get:ident, $variant:ident) => {
         pub fn $name(state: &mut VmState) -> Outcome {
-            let (src, global_index) = match state.current_instr() {
-                ProcessedInstr::GlobalSetReg {
-                    src, global_index, ..
-                } => (*src, *global_index),
-                _ => unsafe { std::hint::unreachable_unchecked() },
-            };
-            let v = match src {
-                RegOrLocal::Reg(idx) => state.reg_file().$get(idx),
-                RegOrLocal::Local(idx) => match state.local(idx as usize) {
-                    Val::Num(crate::execution::value::Num::$variant(v)) => *v,
-                    _ => Default::default(),
-                },
-            };
-            let global_addr = state
-                .module()
-                .global_addrs
-                .get_by_idx(crate::structure::types::GlobalIdx(global_index))
-                .clone();
-            if let Err(e) = global_addr.set(Val::Num(crate::execution::value::Num::$variant(v))) {
-                state.trap = Some(e);
-                return trap(state);
+            #[inline(never)]
+            fn exec(state: &mut VmState) -> bool {
+                let (src, global_index) = match state.current_instr() {
+                    ProcessedInstr::GlobalSetReg {
+                        src, global_index, ..
+                    } => (*src, *global_index),
+                    _ => unsafe { std::hint::unreachable_unchecked() },
+                };
+                let v = match src {
+                    RegOrLocal::Reg(idx) => state.reg_file().$get(idx),
+                    RegOrLocal::Local(idx) => match state.local(idx as usize) {
+                        Val::Num(crate::execution::value::Num::$variant(v)) => *v,
+                        _ => Default::default(),
+                    },
+                };
+                let global_addr = state
+                    .module()
+                    .global_addrs
+                    .get_by_idx(crate::structure::types::GlobalIdx(global_index))
+                    .clone();
+                if let Err(e) = global_addr.set(Val::Num(crate::execution::value::Num::$variant(v)))
+                {
+                    state.trap = Some(e);
+                    return false;
+                }
+                state.pc += 1;
+                true
             }
-            state.pc += 1;
-            advance!(state)
+            let ok = exec(state);
+            advance_or_trap!(state, ok)
         }
     };
 }
@@ -1831,30 +1906,40 @@ pub fn data_drop(state: &mut VmState) -> Outcome {
 // ============================================================================
 
 pub fn ref_local_get(state: &mut VmState) -> Outcome {
-    let (dst, local_idx) = match state.current_instr() {
-        ProcessedInstr::RefLocalReg { dst, local_idx, .. } => (*dst, *local_idx as usize),
-        _ => unsafe { std::hint::unreachable_unchecked() },
-    };
-    // local index is validated at parse time; trust validation here for
-    // consistency with the numeric local handlers and to keep the hot
-    // path branch-free.
-    let val = state.local(local_idx).clone();
-    if let Val::Ref(r) = val {
-        state.reg_file_mut().set_ref(dst, r);
+    #[inline(never)]
+    fn exec(state: &mut VmState) -> bool {
+        let (dst, local_idx) = match state.current_instr() {
+            ProcessedInstr::RefLocalReg { dst, local_idx, .. } => (*dst, *local_idx as usize),
+            _ => unsafe { std::hint::unreachable_unchecked() },
+        };
+        // local index is validated at parse time; trust validation here for
+        // consistency with the numeric local handlers and to keep the hot
+        // path branch-free.
+        let val = state.local(local_idx).clone();
+        if let Val::Ref(r) = val {
+            state.reg_file_mut().set_ref(dst, r);
+        }
+        state.pc += 1;
+        true
     }
-    state.pc += 1;
-    advance!(state)
+    let ok = exec(state);
+    advance_or_trap!(state, ok)
 }
 
 pub fn ref_local_set(state: &mut VmState) -> Outcome {
-    let (src, local_idx) = match state.current_instr() {
-        ProcessedInstr::RefLocalReg { src, local_idx, .. } => (*src, *local_idx as usize),
-        _ => unsafe { std::hint::unreachable_unchecked() },
-    };
-    let ref_val = state.reg_file().get_ref(src);
-    *state.local_mut(local_idx) = Val::Ref(ref_val);
-    state.pc += 1;
-    advance!(state)
+    #[inline(never)]
+    fn exec(state: &mut VmState) -> bool {
+        let (src, local_idx) = match state.current_instr() {
+            ProcessedInstr::RefLocalReg { src, local_idx, .. } => (*src, *local_idx as usize),
+            _ => unsafe { std::hint::unreachable_unchecked() },
+        };
+        let ref_val = state.reg_file().get_ref(src);
+        *state.local_mut(local_idx) = Val::Ref(ref_val);
+        state.pc += 1;
+        true
+    }
+    let ok = exec(state);
+    advance_or_trap!(state, ok)
 }
 
 // ============================================================================
@@ -1874,90 +1959,110 @@ pub fn ref_null(state: &mut VmState) -> Outcome {
 }
 
 pub fn ref_is_null(state: &mut VmState) -> Outcome {
-    let regs = match state.current_instr() {
-        ProcessedInstr::TableRefReg { regs, .. } => *regs,
-        _ => unsafe { std::hint::unreachable_unchecked() },
-    };
-    let rf = state.reg_file_mut();
-    let ref_val = rf.get_ref(regs[1]);
-    let is_null = matches!(ref_val, crate::execution::value::Ref::RefNull) as i32;
-    rf.set_i32(regs[0], is_null);
-    state.pc += 1;
-    advance!(state)
+    #[inline(never)]
+    fn exec(state: &mut VmState) -> bool {
+        let regs = match state.current_instr() {
+            ProcessedInstr::TableRefReg { regs, .. } => *regs,
+            _ => unsafe { std::hint::unreachable_unchecked() },
+        };
+        let rf = state.reg_file_mut();
+        let ref_val = rf.get_ref(regs[1]);
+        let is_null = matches!(ref_val, crate::execution::value::Ref::RefNull) as i32;
+        rf.set_i32(regs[0], is_null);
+        state.pc += 1;
+        true
+    }
+    let ok = exec(state);
+    advance_or_trap!(state, ok)
 }
 
 pub fn table_get(state: &mut VmState) -> Outcome {
-    let (table_idx, regs) = match state.current_instr() {
-        ProcessedInstr::TableRefReg {
-            table_idx, regs, ..
-        } => (*table_idx, *regs),
-        _ => unsafe { std::hint::unreachable_unchecked() },
-    };
-    let table_addr = match state.module().table_addrs.get(table_idx as usize) {
-        Some(t) => t.clone(),
-        None => {
-            state.trap = Some(RuntimeError::TableNotFound);
-            return trap(state);
-        }
-    };
-    let index = state.reg_file().get_i32(regs[1]) as usize;
-    let val = table_addr.get(index);
-    match val {
-        Val::Ref(r) => {
-            state.reg_file_mut().set_ref(regs[0], r);
-            state.pc += 1;
-            advance!(state)
-        }
-        _ => {
-            state.trap = Some(RuntimeError::TypeMismatch);
-            trap(state)
+    #[inline(never)]
+    fn exec(state: &mut VmState) -> bool {
+        let (table_idx, regs) = match state.current_instr() {
+            ProcessedInstr::TableRefReg {
+                table_idx, regs, ..
+            } => (*table_idx, *regs),
+            _ => unsafe { std::hint::unreachable_unchecked() },
+        };
+        let table_addr = match state.module().table_addrs.get(table_idx as usize) {
+            Some(t) => t.clone(),
+            None => {
+                state.trap = Some(RuntimeError::TableNotFound);
+                return false;
+            }
+        };
+        let index = state.reg_file().get_i32(regs[1]) as usize;
+        let val = table_addr.get(index);
+        match val {
+            Val::Ref(r) => {
+                state.reg_file_mut().set_ref(regs[0], r);
+                state.pc += 1;
+                true
+            }
+            _ => {
+                state.trap = Some(RuntimeError::TypeMismatch);
+                false
+            }
         }
     }
+    let ok = exec(state);
+    advance_or_trap!(state, ok)
 }
 
 pub fn table_set(state: &mut VmState) -> Outcome {
-    let (table_idx, regs) = match state.current_instr() {
-        ProcessedInstr::TableRefReg {
-            table_idx, regs, ..
-        } => (*table_idx, *regs),
-        _ => unsafe { std::hint::unreachable_unchecked() },
-    };
-    let table_addr = match state.module().table_addrs.get(table_idx as usize) {
-        Some(t) => t.clone(),
-        None => {
-            state.trap = Some(RuntimeError::TableNotFound);
-            return trap(state);
-        }
-    };
-    let rf = state.reg_file();
-    let index = rf.get_i32(regs[0]) as usize;
-    let ref_val = rf.get_ref(regs[1]);
-    table_addr.set(index, Val::Ref(ref_val));
-    state.pc += 1;
-    advance!(state)
+    #[inline(never)]
+    fn exec(state: &mut VmState) -> bool {
+        let (table_idx, regs) = match state.current_instr() {
+            ProcessedInstr::TableRefReg {
+                table_idx, regs, ..
+            } => (*table_idx, *regs),
+            _ => unsafe { std::hint::unreachable_unchecked() },
+        };
+        let table_addr = match state.module().table_addrs.get(table_idx as usize) {
+            Some(t) => t.clone(),
+            None => {
+                state.trap = Some(RuntimeError::TableNotFound);
+                return false;
+            }
+        };
+        let rf = state.reg_file();
+        let index = rf.get_i32(regs[0]) as usize;
+        let ref_val = rf.get_ref(regs[1]);
+        table_addr.set(index, Val::Ref(ref_val));
+        state.pc += 1;
+        true
+    }
+    let ok = exec(state);
+    advance_or_trap!(state, ok)
 }
 
 pub fn table_fill(state: &mut VmState) -> Outcome {
-    let (table_idx, regs) = match state.current_instr() {
-        ProcessedInstr::TableRefReg {
-            table_idx, regs, ..
-        } => (*table_idx, *regs),
-        _ => unsafe { std::hint::unreachable_unchecked() },
-    };
-    let table_addr = match state.module().table_addrs.get(table_idx as usize) {
-        Some(t) => t.clone(),
-        None => {
-            state.trap = Some(RuntimeError::TableNotFound);
-            return trap(state);
-        }
-    };
-    let rf = state.reg_file();
-    let i = rf.get_i32(regs[0]) as usize;
-    let ref_val = rf.get_ref(regs[1]);
-    let n = rf.get_i32(regs[2]) as usize;
-    table_addr.fill(i, Val::Ref(ref_val), n);
-    state.pc += 1;
-    advance!(state)
+    #[inline(never)]
+    fn exec(state: &mut VmState) -> bool {
+        let (table_idx, regs) = match state.current_instr() {
+            ProcessedInstr::TableRefReg {
+                table_idx, regs, ..
+            } => (*table_idx, *regs),
+            _ => unsafe { std::hint::unreachable_unchecked() },
+        };
+        let table_addr = match state.module().table_addrs.get(table_idx as usize) {
+            Some(t) => t.clone(),
+            None => {
+                state.trap = Some(RuntimeError::TableNotFound);
+                return false;
+            }
+        };
+        let rf = state.reg_file();
+        let i = rf.get_i32(regs[0]) as usize;
+        let ref_val = rf.get_ref(regs[1]);
+        let n = rf.get_i32(regs[2]) as usize;
+        table_addr.fill(i, Val::Ref(ref_val), n);
+        state.pc += 1;
+        true
+    }
+    let ok = exec(state);
+    advance_or_trap!(state, ok)
 }
 
 // ============================================================================
@@ -1965,126 +2070,151 @@ pub fn table_fill(state: &mut VmState) -> Outcome {
 // ============================================================================
 
 pub fn mem_size(state: &mut VmState) -> Outcome {
-    let dst = match state.current_instr() {
-        ProcessedInstr::MemoryOpsReg { dst, .. } => *dst,
-        _ => unsafe { std::hint::unreachable_unchecked() },
-    };
-    let mem_addr = match state.module().mem_addrs.first() {
-        Some(m) => m.clone(),
-        None => {
-            state.trap = Some(RuntimeError::MemoryNotFound);
-            return trap(state);
+    #[inline(never)]
+    fn exec(state: &mut VmState) -> bool {
+        let dst = match state.current_instr() {
+            ProcessedInstr::MemoryOpsReg { dst, .. } => *dst,
+            _ => unsafe { std::hint::unreachable_unchecked() },
+        };
+        let mem_addr = match state.module().mem_addrs.first() {
+            Some(m) => m.clone(),
+            None => {
+                state.trap = Some(RuntimeError::MemoryNotFound);
+                return false;
+            }
+        };
+        let size = mem_addr.mem_size();
+        if let Some(d) = dst {
+            state.reg_file_mut().set_i32(d.index(), size);
         }
-    };
-    let size = mem_addr.mem_size();
-    if let Some(d) = dst {
-        state.reg_file_mut().set_i32(d.index(), size);
+        state.pc += 1;
+        true
     }
-    state.pc += 1;
-    advance!(state)
+    let ok = exec(state);
+    advance_or_trap!(state, ok)
 }
 
 pub fn mem_grow(state: &mut VmState) -> Outcome {
-    let instr = unsafe { &*state.instrs.add(state.pc) };
-    let ProcessedInstr::MemoryOpsReg { dst, args, .. } = instr else {
-        unsafe { std::hint::unreachable_unchecked() }
-    };
-    let mem_addr = match state.module().mem_addrs.first() {
-        Some(m) => m.clone(),
-        None => {
-            state.trap = Some(RuntimeError::MemoryNotFound);
-            return trap(state);
-        }
-    };
-    let delta = state.reg_file().get_i32(args[0].index());
-    let delta_u32: u32 = match delta.try_into() {
-        Ok(v) => v,
-        Err(_) => {
-            state.trap = Some(RuntimeError::InvalidParameterCount);
-            return trap(state);
+    #[inline(never)]
+    fn exec(state: &mut VmState) -> bool {
+        let instr = unsafe { &*state.instrs.add(state.pc) };
+        let ProcessedInstr::MemoryOpsReg { dst, args, .. } = instr else {
+            unsafe { std::hint::unreachable_unchecked() }
+        };
+        let mem_addr = match state.module().mem_addrs.first() {
+            Some(m) => m.clone(),
+            None => {
+                state.trap = Some(RuntimeError::MemoryNotFound);
+                return false;
+            }
+        };
+        let delta = state.reg_file().get_i32(args[0].index());
+        let delta_u32: u32 = match delta.try_into() {
+            Ok(v) => v,
+            Err(_) => {
+                state.trap = Some(RuntimeError::InvalidParameterCount);
+                return false;
+            }
+        };
+        let prev_size = mem_addr.mem_grow(delta_u32 as i32);
+        if let Some(d) = dst {
+            state.reg_file_mut().set_i32(d.index(), prev_size);
         }
-    };
-    let prev_size = mem_addr.mem_grow(delta_u32 as i32);
-    if let Some(d) = dst {
-        state.reg_file_mut().set_i32(d.index(), prev_size);
+        state.mem_ptr = mem_addr.data_ptr();
+        state.pc += 1;
+        true
     }
-    state.mem_ptr = mem_addr.data_ptr();
-    state.pc += 1;
-    advance!(state)
+    let ok = exec(state);
+    advance_or_trap!(state, ok)
 }
 
 pub fn mem_copy(state: &mut VmState) -> Outcome {
-    let instr = unsafe { &*state.instrs.add(state.pc) };
-    let ProcessedInstr::MemoryOpsReg { args, .. } = instr else {
-        unsafe { std::hint::unreachable_unchecked() }
-    };
-    let mem_addr = match state.module().mem_addrs.first() {
-        Some(m) => m.clone(),
-        None => {
-            state.trap = Some(RuntimeError::MemoryNotFound);
-            return trap(state);
-        }
-    };
-    let regs = state.reg_file();
-    let dest = regs.get_i32(args[0].index());
-    let src = regs.get_i32(args[1].index());
-    let len = regs.get_i32(args[2].index());
-    mem_addr.memory_copy(dest, src, len);
-    state.pc += 1;
-    advance!(state)
+    #[inline(never)]
+    fn exec(state: &mut VmState) -> bool {
+        let instr = unsafe { &*state.instrs.add(state.pc) };
+        let ProcessedInstr::MemoryOpsReg { args, .. } = instr else {
+            unsafe { std::hint::unreachable_unchecked() }
+        };
+        let mem_addr = match state.module().mem_addrs.first() {
+            Some(m) => m.clone(),
+            None => {
+                state.trap = Some(RuntimeError::MemoryNotFound);
+                return false;
+            }
+        };
+        let regs = state.reg_file();
+        let dest = regs.get_i32(args[0].index());
+        let src = regs.get_i32(args[1].index());
+        let len = regs.get_i32(args[2].index());
+        mem_addr.memory_copy(dest, src, len);
+        state.pc += 1;
+        true
+    }
+    let ok = exec(state);
+    advance_or_trap!(state, ok)
 }
 
 pub fn mem_init(state: &mut VmState) -> Outcome {
-    let instr = unsafe { &*state.instrs.add(state.pc) };
-    let ProcessedInstr::MemoryOpsReg {
-        args, data_index, ..
-    } = instr
-    else {
-        unsafe { std::hint::unreachable_unchecked() }
-    };
-    let module_inst = state.module();
-    let mem_addr = match module_inst.mem_addrs.first() {
-        Some(m) => m.clone(),
-        None => {
-            state.trap = Some(RuntimeError::MemoryNotFound);
-            return trap(state);
+    #[inline(never)]
+    fn exec(state: &mut VmState) -> bool {
+        let instr = unsafe { &*state.instrs.add(state.pc) };
+        let ProcessedInstr::MemoryOpsReg {
+            args, data_index, ..
+        } = instr
+        else {
+            unsafe { std::hint::unreachable_unchecked() }
+        };
+        let module_inst = state.module();
+        let mem_addr = match module_inst.mem_addrs.first() {
+            Some(m) => m.clone(),
+            None => {
+                state.trap = Some(RuntimeError::MemoryNotFound);
+                return false;
+            }
+        };
+        if (*data_index as usize) >= module_inst.data_addrs.len() {
+            state.trap = Some(RuntimeError::InvalidDataSegmentIndex);
+            return false;
         }
-    };
-    if (*data_index as usize) >= module_inst.data_addrs.len() {
-        state.trap = Some(RuntimeError::InvalidDataSegmentIndex);
-        return trap(state);
-    }
-    let data_bytes = module_inst.data_addrs[*data_index as usize].get_data();
-    let regs = state.reg_file();
-    let dest = regs.get_i32(args[0].index()) as usize;
-    let offset = regs.get_i32(args[1].index()) as usize;
-    let len = regs.get_i32(args[2].index()) as usize;
-    if len > 0 {
-        mem_addr.init(dest, &data_bytes[offset..offset + len]);
+        let data_bytes = module_inst.data_addrs[*data_index as usize].get_data();
+        let regs = state.reg_file();
+        let dest = regs.get_i32(args[0].index()) as usize;
+        let offset = regs.get_i32(args[1].index()) as usize;
+        let len = regs.get_i32(args[2].index()) as usize;
+        if len > 0 {
+            mem_addr.init(dest, &data_bytes[offset..offset + len]);
+        }
+        state.pc += 1;
+        true
     }
-    state.pc += 1;
-    advance!(state)
+    let ok = exec(state);
+    advance_or_trap!(state, ok)
 }
 
 pub fn mem_fill(state: &mut VmState) -> Outcome {
-    let instr = unsafe { &*state.instrs.add(state.pc) };
-    let ProcessedInstr::MemoryOpsReg { args, .. } = instr else {
-        unsafe { std::hint::unreachable_unchecked() }
-    };
-    let mem_addr = match state.module().mem_addrs.first() {
-        Some(m) => m.clone(),
-        None => {
-            state.trap = Some(RuntimeError::MemoryNotFound);
-            return trap(state);
-        }
-    };
-    let regs = state.reg_file();
-    let dest = regs.get_i32(args[0].index());
-    let val = regs.get_i32(args[1].index()) as u8;
-    let size = regs.get_i32(args[2].index());
-    mem_addr.memory_fill(dest, val, size);
-    state.pc += 1;
-    advance!(state)
+    #[inline(never)]
+    fn exec(state: &mut VmState) -> bool {
+        let instr = unsafe { &*state.instrs.add(state.pc) };
+        let ProcessedInstr::MemoryOpsReg { args, .. } = instr else {
+            unsafe { std::hint::unreachable_unchecked() }
+        };
+        let mem_addr = match state.module().mem_addrs.first() {
+            Some(m) => m.clone(),
+            None => {
+                state.trap = Some(RuntimeError::MemoryNotFound);
+                return false;
+            }
+        };
+        let regs = state.reg_file();
+        let dest = regs.get_i32(args[0].index());
+        let val = regs.get_i32(args[1].index()) as u8;
+        let size = regs.get_i32(args[2].index());
+        mem_addr.memory_fill(dest, val, size);
+        state.pc += 1;
+        true
+    }
+    let ok = exec(state);
+    advance_or_trap!(state, ok)
 }
 
 // ============================================================================
-- 
2.43.0


From 6532b39630035df52c8b7161021ddb3bba9030f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:31 +0000
Subject: [PATCH 03/26] fix: carry tables, function references and dropped data
 segments across checkpoint and restore

---
 src/execution/migration.rs | 127 +++++++++++++++++++++++++++++++++----
 1 file changed, 114 insertions(+), 13 deletions(-)

diff --git a/src/execution/migration.rs b/src/execution/migration.rs
index 69b3662..cb0e983 100644
--- a/src/execution/migration.rs
+++ b/src/execution/migration.rs
@@ -9,13 +9,15 @@
 //! - Activation frame stack with register file and per-frame locals
 //! - Linear memory contents (LZ4 compressed)
 //! - Global variable values
+//! - Table contents and dropped data segments
 //! - Per-frame function indices (used to rebuild skipped `Rc` fields on restore)
 //!
 //! `FrameStack` fields that are derived from the module instance
 //! (`handlers`, `processed_instrs`, `primary_mem`, `cached_mem_ptr`) are
-//! `#[serde(skip)]` and reconstructed during `restore`. Tables are excluded:
-//! they are deterministically initialized from element segments during
-//! module instantiation.
+//! `#[serde(skip)]` and reconstructed during `restore`.
+//!
+//! Function references (in tables, registers, locals and globals) are stored
+//! as function indices and resolved against the module instance on restore.
 //!
 //! ## Trigger Mechanisms
 //!
@@ -37,12 +39,12 @@
 //! `runtime.rs` translates into a `checkpoint` call.
 
 use crate::error::RuntimeError;
-use crate::execution::func::FuncInst;
+use crate::execution::func::{FuncAddr, FuncInst};
 use crate::execution::global::GlobalAddr;
 use crate::execution::mem::MemAddr;
 use crate::execution::module::ModuleInst;
 use crate::execution::state::{Stacks, VmState};
-use crate::execution::value::Val;
+use crate::execution::value::{Ref, Val};
 use serde::{Deserialize, Serialize};
 use std::fs::File;
 use std::io::{Read, Write};
@@ -151,15 +153,64 @@ const CHECKPOINT_POLL_MASK: u32 = 0x3FF;
 /// - Call stack and register state
 /// - Linear memory contents (LZ4 compressed)
 /// - Global variable values
-///
-/// Tables are excluded: they are deterministically initialized from element
-/// segments during module instantiation.
+/// - Table elements, as function indices
+/// - Which data segments were dropped
+/// - The function references held by `stacks` and `global_values`, as function
+///   indices in `for_each_ref` order (the references themselves are nulled)
 #[derive(Serialize, Deserialize, Debug)]
 pub struct SerializableState {
     pub stacks: Stacks,
     pub memory_data_compressed: Vec<u8>,
     pub global_values: Vec<Val>,
     pub frame_func_indices: Vec<u32>,
+    pub table_elements: Vec<Vec<Option<u32>>>,
+    pub dropped_datas: Vec<bool>,
+    pub func_refs: Vec<Option<u32>>,
+}
+
+/// Visits every reference held by the stacks and globals, in a fixed order.
+fn for_each_ref(
+    stacks: &mut Stacks,
+    global_values: &mut [Val],
+    mut visit: impl FnMut(&mut Ref) -> Result<(), RuntimeError>,
+) -> Result<(), RuntimeError> {
+    for reference in stacks.reg_file.ref_regs.iter_mut() {
+        visit(reference)?;
+    }
+    let locals = stacks
+        .activation_frame_stack
+        .iter_mut()
+        .flat_map(|frame_stack| frame_stack.frame.locals.iter_mut());
+    for val in locals.chain(global_values.iter_mut()) {
+        if let Val::Ref(reference) = val {
+            visit(reference)?;
+        }
+    }
+    Ok(())
+}
+
+/// Index of a function reference within the module, `None` for a null reference.
+fn func_index(module_inst: &ModuleInst, reference: &Ref) -> Result<Option<u32>, RuntimeError> {
+    let Ref::FuncAddr(func) = reference else {
+        return Ok(None);
+    };
+    module_inst
+        .func_addrs
+        .iter()
+        .position(|func_addr| Rc::ptr_eq(func_addr.get_rc(), func.get_rc()))
+        .map(|index| Some(index as u32))
+        .ok_or_else(|| {
+            RuntimeError::SerializationError("reference to a function of no module".to_string())
+        })
+}
+
+/// Function at `index` within the module (inverse of `func_index`).
+fn func_at(module_inst: &ModuleInst, index: u32) -> Result<FuncAddr, RuntimeError> {
+    module_inst
+        .func_addrs
+        .get(index as usize)
+        .cloned()
+        .ok_or_else(|| RuntimeError::DeserializationError(format!("no function {}", index)))
 }
 
 /// Serializes runtime state to a checkpoint file.
@@ -185,7 +236,7 @@ pub fn checkpoint<P: AsRef<Path>>(
     };
 
     // 2. Gather Global state
-    let global_values = global_addrs
+    let mut global_values = global_addrs
         .iter()
         .map(|global_addr| Ok(global_addr.get()))
         .collect::<Result<Vec<Val>, RuntimeError>>()?;
@@ -212,14 +263,43 @@ pub fn checkpoint<P: AsRef<Path>>(
         })
         .collect::<Vec<u32>>();
 
-    // 4. Assemble state
+    // 4. Gather tables, dropped data segments and function references
+    let table_elements = module_inst
+        .table_addrs
+        .iter()
+        .map(|table| {
+            let table_inst = table.read_lock();
+            let elems = table_inst.elem.iter().map(|val| match val {
+                Val::Ref(reference) => func_index(module_inst, reference),
+                _ => Err(RuntimeError::TypeMismatch),
+            });
+            elems.collect()
+        })
+        .collect::<Result<Vec<Vec<Option<u32>>>, RuntimeError>>()?;
+    let dropped_datas = module_inst
+        .data_addrs
+        .iter()
+        .map(|data_addr| data_addr.get_data().is_empty())
+        .collect();
+    let mut stacks = stacks.clone();
+    let mut func_refs = Vec::new();
+    for_each_ref(&mut stacks, &mut global_values, |reference| {
+        func_refs.push(func_index(module_inst, reference)?);
+        *reference = Ref::RefNull;
+        Ok(())
+    })?;
+
+    // 5. Assemble state
     // Note: Register file is already compact because restore_offsets() truncates
     // register vectors on function return, so no checkpoint-time compaction needed.
     let state = SerializableState {
-        stacks: stacks.clone(),
+        stacks,
         memory_data_compressed,
         global_values,
         frame_func_indices,
+        table_elements,
+        dropped_datas,
+        func_refs,
     };
 
     // 6. Serialize and write (with per-component size diagnostics)
@@ -311,7 +391,28 @@ pub fn restore<P: AsRef<Path>>(
         eprintln!("Warning: Checkpoint contains memory data, but module has no memory instance.");
     }
 
-    // 4. Restore global state into module_inst
+    // 4. Restore function references, tables and dropped data segments
+    let mut func_refs = state.func_refs.iter();
+    for_each_ref(&mut state.stacks, &mut state.global_values, |reference| {
+        if let Some(Some(index)) = func_refs.next() {
+            *reference = Ref::FuncAddr(func_at(&module_inst, *index)?);
+        }
+        Ok(())
+    })?;
+    for (table, elements) in module_inst.table_addrs.iter().zip(&state.table_elements) {
+        let elements = elements.iter().map(|element| match element {
+            Some(index) => func_at(&module_inst, *index).map(Some),
+            None => Ok(None),
+        });
+        table.set_elements(elements.collect::<Result<_, _>>()?)?;
+    }
+    for (data_addr, dropped) in module_inst.data_addrs.iter().zip(&state.dropped_datas) {
+        if *dropped {
+            data_addr.drop_data();
+        }
+    }
+
+    // 5. Restore global state into module_inst
     if module_inst.global_addrs.len() == state.global_values.len() {
         for (global_addr, value) in module_inst.global_addrs.iter().zip(state.global_values) {
             global_addr.set(value)?;
@@ -325,7 +426,7 @@ pub fn restore<P: AsRef<Path>>(
         );
     }
 
-    // 5. Reconstruct skipped fields in Stacks (Frame::module, primary_mem, processed_instrs)
+    // 6. Reconstruct skipped fields in Stacks (Frame::module, primary_mem, processed_instrs)
     let primary_mem = module_inst.mem_addrs.first().cloned();
     for (frame_stack, &func_idx) in state
         .stacks
-- 
2.43.0


From b45ce8882e1899c5df6e2ca5eaefdec6cb4bcd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:47 +0000
Subject: [PATCH 04/26] fix: keep the checkpoint poll counter across calls, so
 that short calls cannot starve the poll

---
 src/execution/runtime.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/execution/runtime.rs b/src/execution/runtime.rs
index 8795437..815b91e 100644
--- a/src/execution/runtime.rs
+++ b/src/execution/runtime.rs
@@ -32,6 +32,8 @@ pub struct Runtime {
     #[cfg_attr(not(feature = "stats"), allow(dead_code))]
     enable_stats: bool,
     enable_checkpoint: bool,
+    /// `VmState::checkpoint_poll_counter`, carried from one dispatch to the next.
+    checkpoint_poll_counter: u32,
 }
 
 impl Drop for Runtime {
@@ -82,6 +84,7 @@ impl Runtime {
             tracer,
             enable_stats,
             enable_checkpoint,
+            checkpoint_poll_counter: 0,
         })
     }
 
@@ -120,6 +123,7 @@ impl Runtime {
             tracer,
             enable_stats,
             enable_checkpoint,
+            checkpoint_poll_counter: 0,
         }
     }
 
@@ -169,10 +173,11 @@ impl Runtime {
             yielded: None,
             return_result_regs: return_result_regs_ptr,
             enable_checkpoint,
-            checkpoint_poll_counter: 0,
+            checkpoint_poll_counter: self.checkpoint_poll_counter,
         };
 
         let outcome = dispatch::execute_instructions(&mut state);
+        self.checkpoint_poll_counter = state.checkpoint_poll_counter;
 
         let idx = state.current_label_idx;
         if idx < state.label_stack().len() {
-- 
2.43.0


From 52862d4ddb55d9a96096178826e285567d5468de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:47 +0000
Subject: [PATCH 05/26] fix: honour checkpoint requests in every restored
 frame, not only the outermost

---
 src/execution/runtime.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/execution/runtime.rs b/src/execution/runtime.rs
index 815b91e..0780102 100644
--- a/src/execution/runtime.rs
+++ b/src/execution/runtime.rs
@@ -224,8 +224,9 @@ impl Runtime {
             }
         }
 
-        // Set checkpoint enabled flag for initial frame stack
-        if let Some(frame_stack) = self.stacks.activation_frame_stack.first_mut() {
+        // Set checkpoint enabled flag for the initial frame stack (all of the
+        // restored ones when resuming from a checkpoint)
+        for frame_stack in self.stacks.activation_frame_stack.iter_mut() {
             frame_stack.enable_checkpoint = self.enable_checkpoint;
         }
 
-- 
2.43.0


From f4d7ffa502e72ee3cecc0d281436dab33d212a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:48 +0000
Subject: [PATCH 06/26] fix: poll for checkpoint requests also in programs
 without WASI imports

---
 src/execution/migration.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/execution/migration.rs b/src/execution/migration.rs
index cb0e983..4671312 100644
--- a/src/execution/migration.rs
+++ b/src/execution/migration.rs
@@ -134,13 +134,15 @@ fn do_poll_checkpoint(state: &mut VmState) -> bool {
         if state.checkpoint_poll_counter & CHECKPOINT_POLL_MASK != 0 {
             return false;
         }
-        if let Some(ref wasi) = state.module().wasi_impl {
-            if wasi.check_file_exists(CHECKPOINT_TRIGGER_FILE) {
-                let _ = std::fs::remove_file(CHECKPOINT_TRIGGER_FILE);
-                return true;
-            }
+        let triggered = match state.module().wasi_impl {
+            Some(ref wasi) => wasi.check_file_exists(CHECKPOINT_TRIGGER_FILE),
+            // No WASI imports: the request does not come through the guest's WASI
+            None => Path::new(CHECKPOINT_TRIGGER_FILE).exists(),
+        };
+        if triggered {
+            let _ = std::fs::remove_file(CHECKPOINT_TRIGGER_FILE);
         }
-        false
+        triggered
     }
 }
 
-- 
2.43.0


From d3de9836b7f26d2ef3540f433a004dff78d26327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:48 +0000
Subject: [PATCH 07/26] fix: consume the checkpoint trigger before raising the
 request, so that it fires once

---
 src/execution/migration.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/execution/migration.rs b/src/execution/migration.rs
index 4671312..1dfb66d 100644
--- a/src/execution/migration.rs
+++ b/src/execution/migration.rs
@@ -67,8 +67,10 @@ const CHECKPOINT_TRIGGER_FILE: &str = "./checkpoint.trigger";
 pub fn setup_checkpoint_monitor() {
     thread::spawn(|| loop {
         if std::path::Path::new(CHECKPOINT_TRIGGER_FILE).exists() {
-            CHECKPOINT_TRIGGERED.store(true, Ordering::Relaxed);
+            // Consume the request before raising it: the process may end as soon
+            // as the flag is seen, and a request left behind would fire again.
             let _ = std::fs::remove_file(CHECKPOINT_TRIGGER_FILE);
+            CHECKPOINT_TRIGGERED.store(true, Ordering::Relaxed);
         }
         thread::sleep(Duration::from_millis(10));
     });
-- 
2.43.0


From 6552125a5128343783ddae27da13a71654f5cede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:48 +0000
Subject: [PATCH 08/26] fix: memory.grow returns -1 when it cannot grow,
 instead of trapping or aborting

---
 src/execution/handlers.rs |  9 +--------
 src/execution/mem.rs      | 17 +++++++++++++++--
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/execution/handlers.rs b/src/execution/handlers.rs
index 8204d1c..8368a1d 100644
--- a/src/execution/handlers.rs
+++ b/src/execution/handlers.rs
@@ -2109,14 +2109,7 @@ pub fn mem_grow(state: &mut VmState) -> Outcome {
             }
         };
         let delta = state.reg_file().get_i32(args[0].index());
-        let delta_u32: u32 = match delta.try_into() {
-            Ok(v) => v,
-            Err(_) => {
-                state.trap = Some(RuntimeError::InvalidParameterCount);
-                return false;
-            }
-        };
-        let prev_size = mem_addr.mem_grow(delta_u32 as i32);
+        let prev_size = mem_addr.mem_grow(delta);
         if let Some(d) = dst {
             state.reg_file_mut().set_i32(d.index(), prev_size);
         }
diff --git a/src/execution/mem.rs b/src/execution/mem.rs
index 8c51a29..fffac24 100644
--- a/src/execution/mem.rs
+++ b/src/execution/mem.rs
@@ -90,7 +90,11 @@ impl MemAddr {
     /// Grows memory by the given number of pages. Returns previous size or -1 on failure.
     pub fn mem_grow(&self, size: i32) -> i32 {
         let prev_size = self.mem_size();
-        let new = prev_size + size;
+        // The operand is unsigned, so a negative value is beyond any limit
+        let new = match prev_size.checked_add(size) {
+            Some(new) if size >= 0 => new,
+            _ => return -1,
+        };
 
         // Safety: Single-threaded access
         let mem = unsafe { &*self.mem_inst.get() };
@@ -107,7 +111,16 @@ impl MemAddr {
         } else {
             // Safety: Single-threaded access, no overlapping borrows
             let mem = unsafe { &mut *self.mem_inst.get() };
-            mem.data.resize(new as usize * 65536, 0);
+            let Some(new_len) = (new as usize).checked_mul(65536) else {
+                return -1;
+            };
+            let additional = new_len - mem.data.len();
+            if mem.data.try_reserve(additional).is_err()
+                && mem.data.try_reserve_exact(additional).is_err()
+            {
+                return -1;
+            }
+            mem.data.resize(new_len, 0);
             prev_size
         }
     }
-- 
2.43.0


From cc2df4b172eb739c0fe5e27e1c6de1c6c9012d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:48 +0000
Subject: [PATCH 09/26] fix: initialise reference locals of called functions to
 null

---
 src/execution/runtime.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/execution/runtime.rs b/src/execution/runtime.rs
index 0780102..6278125 100644
--- a/src/execution/runtime.rs
+++ b/src/execution/runtime.rs
@@ -12,7 +12,7 @@ use crate::execution::state::{Frame, FrameStack, Label, LabelStack, ModuleLevelI
 use crate::execution::stats::ExecutionStats;
 #[cfg(feature = "trace")]
 use crate::execution::trace::{TraceConfig, Tracer};
-use crate::execution::value::{Num, Val, Vec_};
+use crate::execution::value::{Num, Ref, Val, Vec_};
 use crate::structure::module::WasiFuncType;
 use crate::structure::types::{NumType, ValueType, VecType};
 use crate::wasi::{WasiError, WasiResult};
@@ -1051,7 +1051,7 @@ impl Val {
             ValueType::NumType(NumType::F32) => Ok(Val::Num(Num::F32(0.0))),
             ValueType::NumType(NumType::F64) => Ok(Val::Num(Num::F64(0.0))),
             ValueType::VecType(VecType::V128) => Ok(Val::Vec_(Vec_::V128(0))),
-            ValueType::RefType(_) => todo!("Default value for RefType"),
+            ValueType::RefType(_) => Ok(Val::Ref(Ref::RefNull)),
         }
     }
 }
-- 
2.43.0


From dc9ada90e9b7a2c12b04f973a880f4557b72148e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:48 +0000
Subject: [PATCH 10/26] fix: refuse a module that cannot be read or parsed
 instead of running what was parsed of it

---
 src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 163dc3f..fc17561 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -146,7 +146,8 @@ fn main() -> Result<()> {
     }
 
     let mut module = Module::new("test");
-    let _ = parser::parse_bytecode(&mut module, &cli.wasm_file);
+    parser::parse_bytecode(&mut module, &cli.wasm_file)
+        .map_err(|e| anyhow::anyhow!("Failed to load {}: {}", cli.wasm_file, e))?;
     let imports: ImportObjects = FxHashMap::default();
 
     let mut wasm_argv = vec![cli.wasm_file.clone()];
-- 
2.43.0


From eef6d78365aa65f5be4d209827ddddb60178f182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:30 +0000
Subject: [PATCH 11/26] fix: write the checkpoint to a temporary file, sync it
 and rename it into place

---
 src/execution/migration.rs | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/execution/migration.rs b/src/execution/migration.rs
index 1dfb66d..43ef4a7 100644
--- a/src/execution/migration.rs
+++ b/src/execution/migration.rs
@@ -46,8 +46,8 @@ use crate::execution::module::ModuleInst;
 use crate::execution::state::{Stacks, VmState};
 use crate::execution::value::{Ref, Val};
 use serde::{Deserialize, Serialize};
-use std::fs::File;
-use std::io::{Read, Write};
+use std::fs::{self, File};
+use std::io::{self, Read, Write};
 use std::path::Path;
 use std::rc::Rc;
 use std::sync::atomic::{AtomicBool, Ordering};
@@ -354,15 +354,37 @@ pub fn checkpoint<P: AsRef<Path>>(
 
     println!("  total encoded:      {} bytes", encoded.len());
 
-    let mut file =
-        File::create(output_path).map_err(|e| RuntimeError::CheckpointSaveError(e.to_string()))?;
-    file.write_all(&encoded)
+    replace_file(output_path.as_ref(), &encoded)
         .map_err(|e| RuntimeError::CheckpointSaveError(e.to_string()))?;
 
     println!("Checkpoint successful.");
     Ok(())
 }
 
+/// Replaces the contents of `path`, durably and as a whole: whatever fails, and
+/// wherever the process stops, `path` holds its previous contents or `contents`.
+fn replace_file(path: &Path, contents: &[u8]) -> io::Result<()> {
+    let mut temp_path = path.as_os_str().to_owned();
+    temp_path.push(".tmp");
+
+    let written = File::create(&temp_path).and_then(|mut file| {
+        file.write_all(contents)?;
+        file.sync_all()
+    });
+    if let Err(e) = written.and_then(|()| fs::rename(&temp_path, path)) {
+        let _ = fs::remove_file(&temp_path);
+        return Err(e);
+    }
+
+    // Make the rename itself durable, where the host can open and sync a directory.
+    if let Some(dir) = path.parent() {
+        if let Ok(dir) = File::open(dir) {
+            let _ = dir.sync_all();
+        }
+    }
+    Ok(())
+}
+
 /// Restores runtime state from a checkpoint file.
 ///
 /// Reads serialized state and restores memory, globals, and stacks.
-- 
2.43.0


From caa06f23415331399ab8e8da5dea1295d486a3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:01 +0000
Subject: [PATCH 12/26] fix: refuse to restore from a damaged checkpoint or
 from another module's

---
 src/execution/migration.rs | 36 +++++++++++++++++++++++++++++++-----
 src/execution/module.rs    |  3 +++
 src/parser.rs              |  1 +
 src/structure/module.rs    |  3 +++
 4 files changed, 38 insertions(+), 5 deletions(-)

diff --git a/src/execution/migration.rs b/src/execution/migration.rs
index 43ef4a7..b6e5e5c 100644
--- a/src/execution/migration.rs
+++ b/src/execution/migration.rs
@@ -60,6 +60,7 @@ use crate::sim::thread;
 
 static CHECKPOINT_TRIGGERED: AtomicBool = AtomicBool::new(false);
 const CHECKPOINT_TRIGGER_FILE: &str = "./checkpoint.trigger";
+const CHECKPOINT_MAGIC: &[u8; 8] = b"chiwawa1";
 
 /// Starts background thread to monitor checkpoint trigger file.
 ///
@@ -354,13 +355,31 @@ pub fn checkpoint<P: AsRef<Path>>(
 
     println!("  total encoded:      {} bytes", encoded.len());
 
-    replace_file(output_path.as_ref(), &encoded)
+    let mut contents = header(module_inst, &encoded);
+    contents.extend_from_slice(&encoded);
+    replace_file(output_path.as_ref(), &contents)
         .map_err(|e| RuntimeError::CheckpointSaveError(e.to_string()))?;
 
     println!("Checkpoint successful.");
     Ok(())
 }
 
+/// Header of a checkpoint file: what it is, the module it was taken from, and a
+/// checksum of the encoded state that follows.
+fn header(module_inst: &ModuleInst, encoded: &[u8]) -> Vec<u8> {
+    let mut header = CHECKPOINT_MAGIC.to_vec();
+    header.extend_from_slice(&module_inst.fingerprint.to_le_bytes());
+    header.extend_from_slice(&fnv1a(encoded).to_le_bytes());
+    header
+}
+
+/// 64-bit FNV-1a hash.
+pub fn fnv1a(bytes: &[u8]) -> u64 {
+    bytes.iter().fold(0xcbf2_9ce4_8422_2325, |hash, byte| {
+        (hash ^ u64::from(*byte)).wrapping_mul(0x0000_0100_0000_01b3)
+    })
+}
+
 /// Replaces the contents of `path`, durably and as a whole: whatever fails, and
 /// wherever the process stops, `path` holds its previous contents or `contents`.
 fn replace_file(path: &Path, contents: &[u8]) -> io::Result<()> {
@@ -397,12 +416,19 @@ pub fn restore<P: AsRef<Path>>(
     // 1. Read from file
     let mut file =
         File::open(input_path).map_err(|e| RuntimeError::CheckpointLoadError(e.to_string()))?;
-    let mut encoded = Vec::new();
-    file.read_to_end(&mut encoded)
+    let mut contents = Vec::new();
+    file.read_to_end(&mut contents)
         .map_err(|e| RuntimeError::CheckpointLoadError(e.to_string()))?;
 
-    // 2. Deserialize the state using bincode
-    let mut state: SerializableState = bincode::deserialize(&encoded[..])
+    // 2. Refuse a damaged file or another module's checkpoint, before anything of
+    // it is used, then deserialize the state using bincode
+    let encoded = &contents[header(&module_inst, &[]).len().min(contents.len())..];
+    if !contents.starts_with(&header(&module_inst, encoded)) {
+        return Err(RuntimeError::CheckpointLoadError(
+            "not an intact checkpoint of this module".to_string(),
+        ));
+    }
+    let mut state: SerializableState = bincode::deserialize(encoded)
         .map_err(|e| RuntimeError::DeserializationError(e.to_string()))?;
 
     // 3. Restore memory state (LZ4 decompress)
diff --git a/src/execution/module.rs b/src/execution/module.rs
index 6826a00..bba6274 100644
--- a/src/execution/module.rs
+++ b/src/execution/module.rs
@@ -24,6 +24,8 @@ pub struct ModuleInst {
     pub exports: Vec<ExportInst>,
     pub wasi_func_addrs: Vec<WasiFuncAddr>,
     pub wasi_impl: Option<Arc<PassthroughWasiImpl>>,
+    /// `Module::fingerprint` of the module this was instantiated from.
+    pub fingerprint: u64,
 }
 
 /// Trait for indexed access to instance vectors.
@@ -65,6 +67,7 @@ impl ModuleInst {
             exports: Vec::new(),
             wasi_func_addrs: Vec::new(),
             wasi_impl: None,
+            fingerprint: module.fingerprint,
         };
 
         // Check if we need WASI support
diff --git a/src/parser.rs b/src/parser.rs
index 73a4004..a791791 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -7399,6 +7399,7 @@ pub fn parse_bytecode(
 
     let mut file = File::open(path)?;
     file.read_to_end(&mut buf)?;
+    module.fingerprint = crate::execution::migration::fnv1a(&buf);
 
     for payload in parser.parse_all(&buf) {
         match payload? {
diff --git a/src/structure/module.rs b/src/structure/module.rs
index 7174bf2..425da4d 100644
--- a/src/structure/module.rs
+++ b/src/structure/module.rs
@@ -592,6 +592,8 @@ pub struct Module {
     pub code_index: usize,
     /// Export declarations.
     pub exports: Vec<Export>,
+    /// Hash of the bytecode; tells a checkpoint of this module from any other.
+    pub fingerprint: u64,
 }
 
 impl Module {
@@ -610,6 +612,7 @@ impl Module {
             num_imported_funcs: 0,
             code_index: 0,
             exports: Vec::new(),
+            fingerprint: 0,
         }
     }
 }
-- 
2.43.0


From 215072e08cec35f9761153b66c04825aa2b3a31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:01 +0000
Subject: [PATCH 13/26] fix: translate the guest addresses in the buffers of
 sock_recv and sock_send

---
 src/wasi/passthrough.rs | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/wasi/passthrough.rs b/src/wasi/passthrough.rs
index 9b44f41..a43a8a1 100644
--- a/src/wasi/passthrough.rs
+++ b/src/wasi/passthrough.rs
@@ -1205,6 +1205,34 @@ impl PassthroughWasiImpl {
         Ok(wasi_errno as i32)
     }
 
+    /// Reads an array of guest iovecs, translating their guest addresses.
+    fn read_iovecs(memory: &MemAddr, iovs_ptr: Ptr, iovs_len: Size) -> WasiResult<Vec<WasiIovec>> {
+        let memory_guard = memory.get_memory_direct_access();
+        let data = &memory_guard.data;
+
+        let read_u32 = |at: usize| -> WasiResult<u32> {
+            let bytes = data.get(at..at + 4).ok_or(WasiError::Fault)?;
+            Ok(u32::from_le_bytes([bytes[0], bytes[1], bytes[2], bytes[3]]))
+        };
+
+        (0..iovs_len as usize)
+            .map(|i| {
+                // Each iovec is 8 bytes: buf_ptr (4 bytes) + buf_len (4 bytes)
+                let iovec_offset = iovs_ptr as usize + i * 8;
+                let buf_ptr = read_u32(iovec_offset)? as usize;
+                let buf_len = read_u32(iovec_offset + 4)?;
+                let buf = data
+                    .get(buf_ptr..)
+                    .and_then(|buf| buf.get(..buf_len as usize))
+                    .ok_or(WasiError::Fault)?;
+                Ok(WasiIovec {
+                    buf: buf.as_ptr(),
+                    buf_len,
+                })
+            })
+            .collect()
+    }
+
     pub fn sock_recv(
         &self,
         memory: &MemAddr,
@@ -1217,11 +1245,12 @@ impl PassthroughWasiImpl {
     ) -> WasiResult<i32> {
         let memory_guard = memory.get_memory_direct_access();
         let memory_base = memory_guard.data.as_ptr();
+        let iovecs = Self::read_iovecs(memory, ri_data_ptr, ri_data_len)?;
 
         let wasi_errno = unsafe {
             __wasi_sock_recv(
                 fd,
-                memory_base.add(ri_data_ptr as usize) as *const WasiIovec,
+                iovecs.as_ptr(),
                 ri_data_len,
                 ri_flags,
                 memory_base.add(ro_datalen_ptr as usize) as *mut u32,
@@ -1243,11 +1272,12 @@ impl PassthroughWasiImpl {
     ) -> WasiResult<i32> {
         let memory_guard = memory.get_memory_direct_access();
         let memory_base = memory_guard.data.as_ptr();
+        let iovecs = Self::read_iovecs(memory, si_data_ptr, si_data_len)?;
 
         let wasi_errno = unsafe {
             __wasi_sock_send(
                 fd,
-                memory_base.add(si_data_ptr as usize) as *const WasiIovec,
+                iovecs.as_ptr(),
                 si_data_len,
                 si_flags,
                 memory_base.add(so_datalen_ptr as usize) as *mut u32,
-- 
2.43.0


From cac1bd9247c941837b09acf202d074c321f26216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:01 +0000
Subject: [PATCH 14/26] fix: args_get and environ_get write no pointer past the
 end of the guest's array

---
 src/wasi/passthrough.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/wasi/passthrough.rs b/src/wasi/passthrough.rs
index a43a8a1..507c6c1 100644
--- a/src/wasi/passthrough.rs
+++ b/src/wasi/passthrough.rs
@@ -356,7 +356,7 @@ impl PassthroughWasiImpl {
         }
 
         // Calculate pointer offsets relative to environ_buf_ptr
-        let mut ptr_data = Vec::with_capacity((environ_count as usize + 1) * 4);
+        let mut ptr_data = Vec::with_capacity(environ_count as usize * 4);
         for i in 0..environ_count as usize {
             if !environ_ptrs[i].is_null() {
                 // Calculate offset from the start of environ_buf
@@ -367,9 +367,6 @@ impl PassthroughWasiImpl {
                 ptr_data.extend_from_slice(&0u32.to_le_bytes());
             }
         }
-        // Null terminator for environ array
-        ptr_data.extend_from_slice(&0u32.to_le_bytes());
-
         // Write pointer array to WebAssembly memory
         memory.store_bytes(environ_ptr as i32, &ptr_data);
 
@@ -412,7 +409,7 @@ impl PassthroughWasiImpl {
 
         // Build the argument buffer and pointer array
         let mut argv_buf = Vec::with_capacity(total_len);
-        let mut ptr_data = Vec::with_capacity((args.len() + 1) * 4); // +1 for null terminator
+        let mut ptr_data = Vec::with_capacity(args.len() * 4);
 
         for arg in args {
             // Store pointer to current position in buffer (relative to argv_buf_ptr)
@@ -424,9 +421,6 @@ impl PassthroughWasiImpl {
             argv_buf.push(0); // null terminator
         }
 
-        // Add null terminator for the argv array
-        ptr_data.extend_from_slice(&0u32.to_le_bytes());
-
         // Write pointer array to WebAssembly memory
         memory.store_bytes(argv_ptr as i32, &ptr_data);
 
-- 
2.43.0


From 027999e1e9e20c5e4b5055678951d9943dea328f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:01 +0000
Subject: [PATCH 15/26] fix: exit with a failure status when execution or a
 checkpoint fails

---
 src/main.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index fc17561..154c32d 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -193,7 +193,7 @@ fn main() -> Result<()> {
         println!("Runtime reconstructed. Resuming execution...");
 
         let result = runtime.run();
-        handle_result(result);
+        handle_result(result)?;
     } else {
         let func_addr = inst.get_export_func(&cli.invoke)?;
         let params = parse_params(cli.params.unwrap_or_default());
@@ -209,10 +209,10 @@ fn main() -> Result<()> {
         ) {
             Ok(mut runtime) => {
                 let result = runtime.run();
-                handle_result(result);
+                handle_result(result)?;
             }
             Err(e) => {
-                eprintln!("Runtime initialization failed: {:?}", e);
+                return Err(anyhow::anyhow!("Runtime initialization failed: {:?}", e));
             }
         }
     }
@@ -220,7 +220,7 @@ fn main() -> Result<()> {
     Ok(())
 }
 
-fn handle_result(result: Result<Vec<Val>, chiwawa::error::RuntimeError>) {
+fn handle_result(result: Result<Vec<Val>, chiwawa::error::RuntimeError>) -> Result<()> {
     match result {
         Ok(mut values) => {
             if let Some(val) = values.pop() {
@@ -231,7 +231,8 @@ fn handle_result(result: Result<Vec<Val>, chiwawa::error::RuntimeError>) {
             println!("Execution stopped for checkpoint.");
         }
         Err(e) => {
-            eprintln!("Execution Error: {:?}", e);
+            return Err(anyhow::anyhow!("Execution Error: {:?}", e));
         }
     }
+    Ok(())
 }
-- 
2.43.0


From 5ea2da2a0923d003924fedf6f262d98f63d5568a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:14 +0000
Subject: [PATCH 16/26] fix: refuse a module that ends before its code or data
 section

---
 src/parser.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index a791791..ecc69fb 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -7392,6 +7392,7 @@ pub fn parse_bytecode(
     path: &str,
 ) -> Result<(), Box<dyn std::error::Error>> {
     let mut current_func_index = module.num_imported_funcs;
+    let mut data_count = None;
     let mut arity_cache = BlockArityCache::new();
 
     let mut buf = Vec::new();
@@ -7453,7 +7454,9 @@ pub fn parse_bytecode(
                 decode_elem_section(body, &mut module)?;
             }
 
-            DataCountSection { .. } => { /* ... */ }
+            DataCountSection { count, .. } => {
+                data_count = Some(count as usize);
+            }
 
             DataSection(body) => {
                 decode_data_section(body, &mut module)?;
@@ -7487,5 +7490,17 @@ pub fn parse_bytecode(
         }
     }
 
+    // A file that stops between two sections still parses
+    if current_func_index != module.num_imported_funcs + module.funcs.len() {
+        return Err(Box::new(ParserError::InvalidWasm(
+            "function and code section have inconsistent lengths",
+        )));
+    }
+    if data_count.is_some_and(|count| count != module.datas.len()) {
+        return Err(Box::new(ParserError::InvalidWasm(
+            "data count and data section have inconsistent lengths",
+        )));
+    }
+
     Ok(())
 }
-- 
2.43.0


From e0f29cabae4a698a8dde48f08a521ed3b4380b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:47 +0000
Subject: [PATCH 17/26] fix: pass paths with NUL bytes to the host uncut

---
 src/wasi/passthrough.rs | 265 ++++++++++++++++------------------------
 1 file changed, 103 insertions(+), 162 deletions(-)

diff --git a/src/wasi/passthrough.rs b/src/wasi/passthrough.rs
index 507c6c1..e32f5af 100644
--- a/src/wasi/passthrough.rs
+++ b/src/wasi/passthrough.rs
@@ -42,35 +42,7 @@ extern "C" {
     fn __wasi_fd_fdstat_set_flags(fd: u32, flags: u32) -> u16;
     fn __wasi_fd_filestat_set_size(fd: u32, size: u64) -> u16;
     fn __wasi_fd_filestat_get(fd: u32, filestat: *mut u8) -> u16;
-    fn __wasi_path_create_directory(fd: u32, path: *const u8) -> u16;
-    fn __wasi_path_remove_directory(fd: u32, path: *const u8) -> u16;
-    fn __wasi_path_unlink_file(fd: u32, path: *const u8) -> u16;
-    fn __wasi_path_readlink(
-        fd: u32,
-        path: *const u8,
-        buf: *mut u8,
-        buf_len: u32,
-        retptr0: *mut u32,
-    ) -> u16;
     fn __wasi_path_filestat_get(fd: u32, flags: u32, path: *const u8, filestat: *mut u8) -> u16;
-    fn __wasi_path_filestat_set_times(
-        fd: u32,
-        flags: u32,
-        path: *const u8,
-        atim: u64,
-        mtim: u64,
-        fst_flags: u32,
-    ) -> u16;
-    fn __wasi_path_open(
-        fd: u32,
-        dirflags: u32,
-        path: *const u8,
-        oflags: u16,
-        fs_rights_base: u64,
-        fs_rights_inheriting: u64,
-        fdflags: u16,
-        opened_fd: *mut u32,
-    ) -> u16;
     fn __wasi_poll_oneoff(
         in_ptr: *const u8,
         out_ptr: *mut u8,
@@ -104,20 +76,6 @@ extern "C" {
     fn __wasi_fd_fdstat_set_rights(fd: u32, fs_rights_base: u64, fs_rights_inheriting: u64) -> u16;
     fn __wasi_fd_renumber(fd: i32, to: i32) -> u16;
     fn __wasi_fd_filestat_set_times(fd: u32, atim: u64, mtim: u64, fst_flags: u32) -> u16;
-    fn __wasi_path_link(
-        old_fd: u32,
-        old_flags: u32,
-        old_path: *const u8,
-        new_fd: u32,
-        new_path: *const u8,
-    ) -> u16;
-    fn __wasi_path_rename(
-        old_fd: u32,
-        old_path: *const u8,
-        new_fd: u32,
-        new_path: *const u8,
-    ) -> u16;
-    fn __wasi_path_symlink(old_path: *const u8, fd: u32, new_path: *const u8) -> u16;
     fn __wasi_sock_accept(fd: u32, flags: u32, fd_ptr: *mut u32) -> u16;
     fn __wasi_sock_recv(
         fd: u32,
@@ -137,6 +95,74 @@ extern "C" {
     fn __wasi_sock_shutdown(fd: u32, how: u32) -> u16;
 }
 
+// Calls that take a path go to the host directly: wasi-libc takes C strings, so
+// a path with a NUL byte would reach the host cut short.
+#[link(wasm_import_module = "wasi_snapshot_preview1")]
+extern "C" {
+    fn path_create_directory(fd: u32, path: *const u8, path_len: u32) -> i32;
+    fn path_remove_directory(fd: u32, path: *const u8, path_len: u32) -> i32;
+    fn path_unlink_file(fd: u32, path: *const u8, path_len: u32) -> i32;
+    fn path_readlink(
+        fd: u32,
+        path: *const u8,
+        path_len: u32,
+        buf: *mut u8,
+        buf_len: u32,
+        retptr0: *mut u32,
+    ) -> i32;
+    fn path_filestat_set_times(
+        fd: u32,
+        flags: u32,
+        path: *const u8,
+        path_len: u32,
+        atim: u64,
+        mtim: u64,
+        fst_flags: u32,
+    ) -> i32;
+    fn path_open(
+        fd: u32,
+        dirflags: u32,
+        path: *const u8,
+        path_len: u32,
+        oflags: u32,
+        fs_rights_base: u64,
+        fs_rights_inheriting: u64,
+        fdflags: u32,
+        opened_fd: *mut u32,
+    ) -> i32;
+    fn path_link(
+        old_fd: u32,
+        old_flags: u32,
+        old_path: *const u8,
+        old_path_len: u32,
+        new_fd: u32,
+        new_path: *const u8,
+        new_path_len: u32,
+    ) -> i32;
+    fn path_rename(
+        old_fd: u32,
+        old_path: *const u8,
+        old_path_len: u32,
+        new_fd: u32,
+        new_path: *const u8,
+        new_path_len: u32,
+    ) -> i32;
+    fn path_symlink(
+        old_path: *const u8,
+        old_path_len: u32,
+        fd: u32,
+        new_path: *const u8,
+        new_path_len: u32,
+    ) -> i32;
+    fn path_filestat_get(
+        fd: u32,
+        flags: u32,
+        path: *const u8,
+        path_len: u32,
+        filestat: *mut u8,
+    ) -> i32;
+}
+
 /// Passthrough WASI implementation that delegates to host runtime via wasi-libc.
 ///
 /// This struct holds state needed for WASI operations (such as command-line arguments)
@@ -560,22 +586,16 @@ impl PassthroughWasiImpl {
         let memory_guard = memory.get_memory_direct_access();
         let memory_base = memory_guard.data.as_ptr();
 
-        // Create null-terminated string from path
-        let path_slice = unsafe {
-            std::slice::from_raw_parts(memory_base.add(path_ptr as usize), path_len as usize)
-        };
-        let mut path_vec = path_slice.to_vec();
-        path_vec.push(0); // Add null terminator
-
         let wasi_errno = unsafe {
-            __wasi_path_open(
+            path_open(
                 fd as u32,
                 dirflags,
-                path_vec.as_ptr(),
-                oflags as u16,
+                memory_base.add(path_ptr as usize),
+                path_len,
+                oflags,
                 fs_rights_base,
                 fs_rights_inheriting,
-                fdflags as u16,
+                fdflags,
                 memory_base.add(opened_fd_ptr as usize) as *mut u32,
             )
         };
@@ -816,14 +836,9 @@ impl PassthroughWasiImpl {
         let memory_guard = memory.get_memory_direct_access();
         let memory_base = memory_guard.data.as_ptr();
 
-        // Create null-terminated string from path
-        let path_slice = unsafe {
-            std::slice::from_raw_parts(memory_base.add(path_ptr as usize), path_len as usize)
+        let wasi_errno = unsafe {
+            path_create_directory(fd as u32, memory_base.add(path_ptr as usize), path_len)
         };
-        let mut path_vec = path_slice.to_vec();
-        path_vec.push(0); // Add null terminator
-
-        let wasi_errno = unsafe { __wasi_path_create_directory(fd as u32, path_vec.as_ptr()) };
 
         Ok(wasi_errno as i32)
     }
@@ -840,18 +855,12 @@ impl PassthroughWasiImpl {
         let memory_guard = memory.get_memory_direct_access();
         let memory_base = memory_guard.data.as_ptr();
 
-        // Create null-terminated string from path
-        let path_slice = unsafe {
-            std::slice::from_raw_parts(memory_base.add(path_ptr as usize), path_len as usize)
-        };
-        let mut path_vec = path_slice.to_vec();
-        path_vec.push(0); // null terminate
-
         let wasi_errno = unsafe {
-            __wasi_path_filestat_get(
+            path_filestat_get(
                 fd as u32,
                 flags,
-                path_vec.as_ptr(),
+                memory_base.add(path_ptr as usize),
+                path_len,
                 memory_base.add(filestat_ptr as usize) as *mut u8,
             )
         };
@@ -873,18 +882,12 @@ impl PassthroughWasiImpl {
         let memory_guard = memory.get_memory_direct_access();
         let memory_base = memory_guard.data.as_ptr();
 
-        // Create null-terminated string from path
-        let path_slice = unsafe {
-            std::slice::from_raw_parts(memory_base.add(path_ptr as usize), path_len as usize)
-        };
-        let mut path_vec = path_slice.to_vec();
-        path_vec.push(0);
-
         let wasi_errno = unsafe {
-            __wasi_path_filestat_set_times(
+            path_filestat_set_times(
                 fd as u32,
                 flags,
-                path_vec.as_ptr(),
+                memory_base.add(path_ptr as usize),
+                path_len,
                 atim,
                 mtim,
                 fst_flags,
@@ -907,17 +910,11 @@ impl PassthroughWasiImpl {
         let memory_guard = memory.get_memory_direct_access();
         let memory_base = memory_guard.data.as_ptr();
 
-        // Create null-terminated string from path
-        let path_slice = unsafe {
-            std::slice::from_raw_parts(memory_base.add(path_ptr as usize), path_len as usize)
-        };
-        let mut path_vec = path_slice.to_vec();
-        path_vec.push(0);
-
         let wasi_errno = unsafe {
-            __wasi_path_readlink(
+            path_readlink(
                 fd as u32,
-                path_vec.as_ptr(),
+                memory_base.add(path_ptr as usize),
+                path_len,
                 memory_base.add(buf_ptr as usize) as *mut u8,
                 buf_len,
                 memory_base.add(buf_used_ptr as usize) as *mut u32,
@@ -937,14 +934,9 @@ impl PassthroughWasiImpl {
         let memory_guard = memory.get_memory_direct_access();
         let memory_base = memory_guard.data.as_ptr();
 
-        // Create null-terminated string from path
-        let path_slice = unsafe {
-            std::slice::from_raw_parts(memory_base.add(path_ptr as usize), path_len as usize)
+        let wasi_errno = unsafe {
+            path_remove_directory(fd as u32, memory_base.add(path_ptr as usize), path_len)
         };
-        let mut path_vec = path_slice.to_vec();
-        path_vec.push(0); // Add null terminator
-
-        let wasi_errno = unsafe { __wasi_path_remove_directory(fd as u32, path_vec.as_ptr()) };
 
         Ok(wasi_errno as i32)
     }
@@ -959,13 +951,8 @@ impl PassthroughWasiImpl {
         let memory_guard = memory.get_memory_direct_access();
         let memory_base = memory_guard.data.as_ptr();
 
-        let path_slice = unsafe {
-            std::slice::from_raw_parts(memory_base.add(path_ptr as usize), path_len as usize)
-        };
-        let mut path_vec = path_slice.to_vec();
-        path_vec.push(0);
-
-        let wasi_errno = unsafe { __wasi_path_unlink_file(fd as u32, path_vec.as_ptr()) };
+        let wasi_errno =
+            unsafe { path_unlink_file(fd as u32, memory_base.add(path_ptr as usize), path_len) };
 
         Ok(wasi_errno as i32)
     }
@@ -1070,32 +1057,15 @@ impl PassthroughWasiImpl {
         let memory_guard = memory.get_memory_direct_access();
         let memory_base = memory_guard.data.as_ptr();
 
-        // Create null-terminated strings from paths
-        let old_path_slice = unsafe {
-            std::slice::from_raw_parts(
-                memory_base.add(old_path_ptr as usize),
-                old_path_len as usize,
-            )
-        };
-        let mut old_path_vec = old_path_slice.to_vec();
-        old_path_vec.push(0); // Add null terminator
-
-        let new_path_slice = unsafe {
-            std::slice::from_raw_parts(
-                memory_base.add(new_path_ptr as usize),
-                new_path_len as usize,
-            )
-        };
-        let mut new_path_vec = new_path_slice.to_vec();
-        new_path_vec.push(0); // Add null terminator
-
         let wasi_errno = unsafe {
-            __wasi_path_link(
+            path_link(
                 old_fd,
                 old_flags,
-                old_path_vec.as_ptr(),
+                memory_base.add(old_path_ptr as usize),
+                old_path_len,
                 new_fd,
-                new_path_vec.as_ptr(),
+                memory_base.add(new_path_ptr as usize),
+                new_path_len,
             )
         };
 
@@ -1115,31 +1085,14 @@ impl PassthroughWasiImpl {
         let memory_guard = memory.get_memory_direct_access();
         let memory_base = memory_guard.data.as_ptr();
 
-        // Create null-terminated strings for old and new paths
-        let old_path_slice = unsafe {
-            std::slice::from_raw_parts(
-                memory_base.add(old_path_ptr as usize),
-                old_path_len as usize,
-            )
-        };
-        let new_path_slice = unsafe {
-            std::slice::from_raw_parts(
-                memory_base.add(new_path_ptr as usize),
-                new_path_len as usize,
-            )
-        };
-
-        let mut old_path_cstr = old_path_slice.to_vec();
-        old_path_cstr.push(0);
-        let mut new_path_cstr = new_path_slice.to_vec();
-        new_path_cstr.push(0);
-
         let wasi_errno = unsafe {
-            __wasi_path_rename(
+            path_rename(
                 old_fd,
-                old_path_cstr.as_ptr(),
+                memory_base.add(old_path_ptr as usize),
+                old_path_len,
                 new_fd,
-                new_path_cstr.as_ptr(),
+                memory_base.add(new_path_ptr as usize),
+                new_path_len,
             )
         };
 
@@ -1158,28 +1111,16 @@ impl PassthroughWasiImpl {
         let memory_guard = memory.get_memory_direct_access();
         let memory_base = memory_guard.data.as_ptr();
 
-        let old_path_slice = unsafe {
-            std::slice::from_raw_parts(
+        let wasi_errno = unsafe {
+            path_symlink(
                 memory_base.add(old_path_ptr as usize),
-                old_path_len as usize,
-            )
-        };
-        let new_path_slice = unsafe {
-            std::slice::from_raw_parts(
+                old_path_len,
+                fd,
                 memory_base.add(new_path_ptr as usize),
-                new_path_len as usize,
+                new_path_len,
             )
         };
 
-        // null terminate
-        let mut old_path_vec = old_path_slice.to_vec();
-        old_path_vec.push(0);
-        let mut new_path_vec = new_path_slice.to_vec();
-        new_path_vec.push(0);
-
-        let wasi_errno =
-            unsafe { __wasi_path_symlink(old_path_vec.as_ptr(), fd, new_path_vec.as_ptr()) };
-
         Ok(wasi_errno as i32)
     }
 
-- 
2.43.0


From fbe605c90a82a1a2cc9daebedeb122a613d4a65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:29 +0000
Subject: [PATCH 18/26] fix: typed select between references picks a reference

---
 src/execution/handlers.rs | 5 +++++
 src/execution/stats.rs    | 3 ++-
 src/execution/trace.rs    | 3 ++-
 src/parser.rs             | 2 +-
 4 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/execution/handlers.rs b/src/execution/handlers.rs
index 8368a1d..f77920d 100644
--- a/src/execution/handlers.rs
+++ b/src/execution/handlers.rs
@@ -293,6 +293,9 @@ pub const HANDLER_IDX_REF_LOCAL_SET: usize = 0x102;
 // WASI call handler constant
 pub const HANDLER_IDX_CALL_WASI: usize = 0x103;
 
+// Ref select handler constant
+pub const HANDLER_IDX_SELECT_REF: usize = 0x104;
+
 // ============================================================================
 // advance! macro — the difference between tco and non-tco mode
 // ============================================================================
@@ -1445,6 +1448,7 @@ select!(select_i32, get_i32, set_i32);
 select!(select_i64, get_i64, set_i64);
 select!(select_f32, get_f32, set_f32);
 select!(select_f64, get_f64, set_f64);
+select!(select_ref, get_ref, set_ref);
 
 // ============================================================================
 // Nop / Unreachable
@@ -2421,6 +2425,7 @@ pub fn select_handler(instr: &ProcessedInstr) -> Handler {
             HANDLER_IDX_SELECT_I64 => select_i64,
             HANDLER_IDX_SELECT_F32 => select_f32,
             HANDLER_IDX_SELECT_F64 => select_f64,
+            HANDLER_IDX_SELECT_REF => select_ref,
             _ => invalid,
         },
         ProcessedInstr::GlobalGetReg { handler_index, .. } => match *handler_index {
diff --git a/src/execution/stats.rs b/src/execution/stats.rs
index 9381a3c..76a531e 100644
--- a/src/execution/stats.rs
+++ b/src/execution/stats.rs
@@ -52,7 +52,8 @@ impl ExecutionStats {
             HANDLER_IDX_SELECT_I32
             | HANDLER_IDX_SELECT_I64
             | HANDLER_IDX_SELECT_F32
-            | HANDLER_IDX_SELECT_F64 => "select",
+            | HANDLER_IDX_SELECT_F64
+            | HANDLER_IDX_SELECT_REF => "select",
 
             // Variable Instructions
             HANDLER_IDX_LOCAL_GET => "local.get",
diff --git a/src/execution/trace.rs b/src/execution/trace.rs
index c45a8b8..fdc0328 100644
--- a/src/execution/trace.rs
+++ b/src/execution/trace.rs
@@ -325,7 +325,8 @@ impl Tracer {
             HANDLER_IDX_SELECT_I32
             | HANDLER_IDX_SELECT_I64
             | HANDLER_IDX_SELECT_F32
-            | HANDLER_IDX_SELECT_F64 => "select",
+            | HANDLER_IDX_SELECT_F64
+            | HANDLER_IDX_SELECT_REF => "select",
 
             // Variable Instructions
             HANDLER_IDX_LOCAL_GET => "local.get",
diff --git a/src/parser.rs b/src/parser.rs
index ecc69fb..d22ae5c 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -7042,7 +7042,7 @@ fn decode_processed_instrs_and_fixups<'a>(
                         ValueType::NumType(NumType::I64) => HANDLER_IDX_SELECT_I64,
                         ValueType::NumType(NumType::F32) => HANDLER_IDX_SELECT_F32,
                         ValueType::NumType(NumType::F64) => HANDLER_IDX_SELECT_F64,
-                        ValueType::RefType(_) => HANDLER_IDX_SELECT_I64,
+                        ValueType::RefType(_) => HANDLER_IDX_SELECT_REF,
                         ValueType::VecType(_) => panic!("VecType not supported for Select"),
                     };
 
-- 
2.43.0


From 030d5af27473fdf03596b3fa2568dcd20780ff52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:46 +0000
Subject: [PATCH 19/26] fix: perform WASI calls made through a table

---
 src/execution/runtime.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/execution/runtime.rs b/src/execution/runtime.rs
index 6278125..db39c15 100644
--- a/src/execution/runtime.rs
+++ b/src/execution/runtime.rs
@@ -373,10 +373,27 @@ impl Runtime {
                                         Err(e) => return Err(e),
                                     }
                                 }
-                                FuncInst::WasiFunc { .. } => {
-                                    return Err(RuntimeError::ExecutionFailed(
-                                        "WASI function called via InvokeReg - use CallWasiReg",
-                                    ));
+                                FuncInst::WasiFunc { wasi_func_addr, .. } => {
+                                    // WASI function called through a table
+                                    let wasi_func_type = &wasi_func_addr.func_type;
+                                    match self.call_wasi_function(wasi_func_type, &params) {
+                                        Ok(result) => {
+                                            if let (Some(reg), Some(val)) =
+                                                (result_regs.first(), result)
+                                            {
+                                                self.stacks.reg_file.set_val(reg, &val);
+                                            }
+                                        }
+                                        Err(e) => {
+                                            eprintln!(
+                                                "WASI function failed: {:?}, error: {:?}",
+                                                wasi_func_type, e
+                                            );
+                                            return Err(RuntimeError::ExecutionFailed(
+                                                "WASI function failed",
+                                            ));
+                                        }
+                                    }
                                 }
                             }
                         }
-- 
2.43.0


From 2cb765ed4ffbfcd0cdb33095fc946f9ca989abbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:49 +0000
Subject: [PATCH 20/26] fix: refuse a function body without an end

---
 src/parser.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index d22ae5c..32e8b29 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1898,6 +1898,9 @@ fn decode_processed_instrs_and_fixups<'a>(
     // Pending operands for folding (stack for multiple operands)
     let mut pending_operands: Vec<PendingOperand> = Vec::new();
 
+    // Set once the end of the function itself is reached
+    let mut function_ended = false;
+
     loop {
         if ops.peek().is_none() {
             break;
@@ -7217,6 +7220,7 @@ fn decode_processed_instrs_and_fixups<'a>(
                     }
                 } else {
                     if ops.peek().is_none() {
+                        function_ended = true;
                     } else {
                         return Err(Box::new(RuntimeError::InvalidWasm("Unmatched EndMarker"))
                             as Box<dyn std::error::Error>);
@@ -7288,6 +7292,12 @@ fn decode_processed_instrs_and_fixups<'a>(
             "Unclosed control block at end of function",
         )) as Box<dyn std::error::Error>);
     }
+    if !function_ended {
+        return Err(
+            Box::new(RuntimeError::InvalidWasm("Function without an end"))
+                as Box<dyn std::error::Error>,
+        );
+    }
 
     // Finalize register allocation if in register mode
     let reg_allocation = reg_allocator.map(|alloc| alloc.finalize());
-- 
2.43.0


From d8e4283c5f7ed385e310cf6efe18ef4cdce4817b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:34 +0000
Subject: [PATCH 21/26] fix: keep empty quoted application arguments

An argument written as a pair of quotes with nothing between them was
dropped from the program's argument list.
---
 src/main.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 154c32d..41836ee 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -53,17 +53,21 @@ fn parse_args_string(args: &str) -> Vec<String> {
     let mut result = Vec::new();
     let mut current_arg = String::new();
     let mut in_quotes = false;
+    let mut quoted = false;
     let mut chars = args.chars().peekable();
 
     while let Some(ch) = chars.next() {
         match ch {
             '"' => {
                 in_quotes = !in_quotes;
+                quoted = true;
             }
             ' ' if !in_quotes => {
-                if !current_arg.is_empty() {
+                // A pair of quotes makes an argument even with nothing in it
+                if !current_arg.is_empty() || quoted {
                     result.push(current_arg.clone());
                     current_arg.clear();
+                    quoted = false;
                 }
             }
             _ => {
@@ -72,7 +76,7 @@ fn parse_args_string(args: &str) -> Vec<String> {
         }
     }
 
-    if !current_arg.is_empty() {
+    if !current_arg.is_empty() || quoted {
         result.push(current_arg);
     }
 
-- 
2.43.0


From 18853febf23ba3e119834b3531862960db11c74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:48 +0000
Subject: [PATCH 22/26] fix: take a branch's values from the right registers

The source registers of br, br_if and br_table were counted as if all
values carried by the branch had the same type. With values of several
types the wrong registers were copied. Count each type on its own.
---
 src/execution/regs.rs | 31 ++++++++++++++++++++++++++
 src/parser.rs         | 52 +++++++++----------------------------------
 2 files changed, 41 insertions(+), 42 deletions(-)

diff --git a/src/execution/regs.rs b/src/execution/regs.rs
index 9887a7d..7a47570 100644
--- a/src/execution/regs.rs
+++ b/src/execution/regs.rs
@@ -842,4 +842,35 @@ impl RegAllocatorState {
             }
         }
     }
+
+    /// Decrement the depth of the given register's type and return the register
+    /// at that position
+    pub fn pop_reg_like(&mut self, reg: &Reg) -> Reg {
+        match reg {
+            Reg::I32(_) => {
+                self.i32_depth = self.i32_depth.saturating_sub(1);
+                Reg::I32(self.i32_depth as u16)
+            }
+            Reg::I64(_) => {
+                self.i64_depth = self.i64_depth.saturating_sub(1);
+                Reg::I64(self.i64_depth as u16)
+            }
+            Reg::F32(_) => {
+                self.f32_depth = self.f32_depth.saturating_sub(1);
+                Reg::F32(self.f32_depth as u16)
+            }
+            Reg::F64(_) => {
+                self.f64_depth = self.f64_depth.saturating_sub(1);
+                Reg::F64(self.f64_depth as u16)
+            }
+            Reg::Ref(_) => {
+                self.ref_depth = self.ref_depth.saturating_sub(1);
+                Reg::Ref(self.ref_depth as u16)
+            }
+            Reg::V128(_) => {
+                self.v128_depth = self.v128_depth.saturating_sub(1);
+                Reg::V128(self.v128_depth as u16)
+            }
+        }
+    }
 }
diff --git a/src/parser.rs b/src/parser.rs
index 32e8b29..a71b99b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -7337,49 +7337,17 @@ fn compute_branch_regs(
         target_block.result_regs.clone()
     };
 
-    // Compute source_regs from current allocator state
+    // Compute source_regs from current allocator state: the topmost registers of
+    // each type, taken from the last target register to the first
     let source_regs = if let Some(allocator) = reg_allocator {
-        // Get the registers at stack top matching result types
-        let result_count = target_result_regs.len();
-        if result_count == 0 {
-            Vec::new()
-        } else {
-            // Get current state and compute source registers
-            let state = allocator.save_state();
-            target_result_regs
-                .iter()
-                .enumerate()
-                .map(|(i, target_reg)| {
-                    // Source register is at current_depth - result_count + i
-                    match target_reg {
-                        Reg::I32(_) => {
-                            let src_idx = state.i32_depth.saturating_sub(result_count - i);
-                            Reg::I32(src_idx as u16)
-                        }
-                        Reg::I64(_) => {
-                            let src_idx = state.i64_depth.saturating_sub(result_count - i);
-                            Reg::I64(src_idx as u16)
-                        }
-                        Reg::F32(_) => {
-                            let src_idx = state.f32_depth.saturating_sub(result_count - i);
-                            Reg::F32(src_idx as u16)
-                        }
-                        Reg::F64(_) => {
-                            let src_idx = state.f64_depth.saturating_sub(result_count - i);
-                            Reg::F64(src_idx as u16)
-                        }
-                        Reg::Ref(_) => {
-                            let src_idx = state.ref_depth.saturating_sub(result_count - i);
-                            Reg::Ref(src_idx as u16)
-                        }
-                        Reg::V128(_) => {
-                            let src_idx = state.v128_depth.saturating_sub(result_count - i);
-                            Reg::V128(src_idx as u16)
-                        }
-                    }
-                })
-                .collect()
-        }
+        let mut state = allocator.save_state();
+        let mut source_regs: Vec<Reg> = target_result_regs
+            .iter()
+            .rev()
+            .map(|target_reg| state.pop_reg_like(target_reg))
+            .collect();
+        source_regs.reverse();
+        source_regs
     } else {
         Vec::new()
     };
-- 
2.43.0


From d22fc0651dbc340df293d9f8e1ccfce95c732c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:49 +0000
Subject: [PATCH 23/26] fix: pass the values of a branch to a loop's parameters

A loop's parameter registers were never recorded, so a branch back to a
loop that takes parameters left them as they were.
---
 src/parser.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index a71b99b..1d2df89 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -5212,9 +5212,10 @@ fn decode_processed_instrs_and_fixups<'a>(
                     };
 
                     // Push params back - they're still on the stack inside the block
-                    for vtype in param_types.iter() {
-                        allocator.push(*vtype);
-                    }
+                    let param_regs: Vec<Reg> = param_types
+                        .iter()
+                        .map(|vtype| allocator.push(*vtype))
+                        .collect();
 
                     let arity = result_types.len();
                     let param_count = param_types.len();
@@ -5224,7 +5225,7 @@ fn decode_processed_instrs_and_fixups<'a>(
                         block_type: *blockty,
                         is_loop,
                         result_regs: result_regs.into(),
-                        param_regs: Vec::new(),
+                        param_regs,
                     });
 
                     let instr = ProcessedInstr::BlockReg {
-- 
2.43.0


From 05c9832e172929fc04b3ac549338ed1d5a6ce3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:05 +0000
Subject: [PATCH 24/26] fix: record executed instructions for --trace and
 --stats

The move to the register-based dispatcher left record_instruction and
trace_instruction without callers: --stats always reported 0 instructions
and --trace wrote nothing. Record each instruction as it is dispatched.
---
 src/execution/dispatch_loop.rs |  2 ++
 src/execution/dispatch_tco.rs  |  2 ++
 src/execution/handlers.rs      |  2 ++
 src/execution/runtime.rs       | 12 ++++++++++
 src/execution/state.rs         | 40 ++++++++++++++++++++++++++++++++++
 5 files changed, 58 insertions(+)

diff --git a/src/execution/dispatch_loop.rs b/src/execution/dispatch_loop.rs
index 32205a4..983441f 100644
--- a/src/execution/dispatch_loop.rs
+++ b/src/execution/dispatch_loop.rs
@@ -43,6 +43,8 @@ pub fn execute_instructions(state: &mut VmState) -> Outcome {
             }
         }
 
+        #[cfg(any(feature = "stats", feature = "trace"))]
+        state.record_instruction();
         let h = unsafe { *state.handlers.add(state.pc) };
         match h(state) {
             Outcome::Continue => continue,
diff --git a/src/execution/dispatch_tco.rs b/src/execution/dispatch_tco.rs
index 1937945..68daf7a 100644
--- a/src/execution/dispatch_tco.rs
+++ b/src/execution/dispatch_tco.rs
@@ -27,6 +27,8 @@ pub fn execute_instructions(state: &mut VmState) -> Outcome {
     if state.pc >= state.instrs_len {
         return Outcome::Halt;
     }
+    #[cfg(any(feature = "stats", feature = "trace"))]
+    state.record_instruction();
     let h = unsafe { *state.handlers.add(state.pc) };
     h(state)
 }
diff --git a/src/execution/handlers.rs b/src/execution/handlers.rs
index f77920d..11bc8fe 100644
--- a/src/execution/handlers.rs
+++ b/src/execution/handlers.rs
@@ -377,6 +377,8 @@ pub unsafe fn next_handler(state: &mut VmState) -> Handler {
     if crate::execution::migration::poll_checkpoint(state) {
         checkpoint_trap
     } else {
+        #[cfg(any(feature = "stats", feature = "trace"))]
+        state.record_instruction();
         *state.handlers.add(state.pc)
     }
 }
diff --git a/src/execution/runtime.rs b/src/execution/runtime.rs
index db39c15..1ec858d 100644
--- a/src/execution/runtime.rs
+++ b/src/execution/runtime.rs
@@ -174,6 +174,18 @@ impl Runtime {
             return_result_regs: return_result_regs_ptr,
             enable_checkpoint,
             checkpoint_poll_counter: self.checkpoint_poll_counter,
+            #[cfg(feature = "stats")]
+            stats: match self.execution_stats.as_mut() {
+                Some(stats) => stats,
+                None => std::ptr::null_mut(),
+            },
+            #[cfg(feature = "trace")]
+            tracer: match self.tracer.as_mut() {
+                Some(tracer) => tracer,
+                None => std::ptr::null_mut(),
+            },
+            #[cfg(feature = "trace")]
+            locals_len: frame_stack.frame.locals.len(),
         };
 
         let outcome = dispatch::execute_instructions(&mut state);
diff --git a/src/execution/state.rs b/src/execution/state.rs
index 8b9cdf6..81cd5d1 100644
--- a/src/execution/state.rs
+++ b/src/execution/state.rs
@@ -12,6 +12,10 @@ use crate::execution::ir::{Handler, ProcessedInstr};
 use crate::execution::mem::MemAddr;
 use crate::execution::module::ModuleInst;
 use crate::execution::regs::{Reg, RegFile};
+#[cfg(feature = "stats")]
+use crate::execution::stats::ExecutionStats;
+#[cfg(feature = "trace")]
+use crate::execution::trace::Tracer;
 use crate::execution::value::{Num, Ref, Val, Vec_};
 use crate::structure::module::WasiFuncType;
 use crate::structure::types::{NumType, ValueType, VecType};
@@ -54,6 +58,16 @@ pub struct VmState {
     /// Counter for non-atomics-target checkpoint poll throttling.
     /// Incremented by `migration::poll_checkpoint`
     pub checkpoint_poll_counter: u32,
+
+    /// Instruction counts (null unless statistics were asked for)
+    #[cfg(feature = "stats")]
+    pub stats: *mut ExecutionStats,
+
+    /// Tracer, and the number of `locals` it shows (null unless tracing)
+    #[cfg(feature = "trace")]
+    pub tracer: *mut Tracer,
+    #[cfg(feature = "trace")]
+    pub locals_len: usize,
 }
 
 impl VmState {
@@ -111,6 +125,32 @@ impl VmState {
         unsafe { &*self.module }
     }
 
+    /// Counts and traces the instruction at `pc`, which is about to be executed.
+    ///
+    /// Never inlined, so that the dispatcher's tail calls are not displaced by it.
+    #[cfg(any(feature = "stats", feature = "trace"))]
+    #[inline(never)]
+    pub fn record_instruction(&mut self) {
+        if self.pc >= self.instrs_len {
+            return;
+        }
+        let handler_index = self.current_instr().handler_index();
+        #[cfg(feature = "stats")]
+        if let Some(stats) = unsafe { self.stats.as_mut() } {
+            stats.record_instruction(handler_index);
+        }
+        #[cfg(feature = "trace")]
+        if let Some(tracer) = unsafe { self.tracer.as_mut() } {
+            tracer.trace_instruction(
+                self.pc,
+                handler_index,
+                self.reg_file(),
+                unsafe { std::slice::from_raw_parts(self.locals, self.locals_len) },
+                &self.module().global_addrs,
+            );
+        }
+    }
+
     /// Mutable reference to the return-value register slot.
     #[inline(always)]
     pub fn return_result_regs_mut(&mut self) -> &mut ArrayVec<Reg, 8> {
-- 
2.43.0


From bfbf3c0bea9490d8ad1df08fcfa369dbc5eeea34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:53 +0000
Subject: [PATCH 25/26] sim: allocation seam for deterministic simulation (cfg
 chiwawa_sim, off by default)

---
 src/sim.rs | 98 ++++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 98 insertions(+)

diff --git a/src/sim.rs b/src/sim.rs
index 5389126..f7ee769 100644
--- a/src/sim.rs
+++ b/src/sim.rs
@@ -10,7 +10,10 @@
 //! - [`thread`] stands in for the parts of `std::thread` that the checkpoint
 //!   monitor uses. A spawned thread runs only when the simulator resumes it,
 //!   from the top of its closure up to its next `sleep`.
+//! - [`Allocator`] decides what fresh memory contains, and which requests for
+//!   memory fail.
 
+use std::alloc::{GlobalAlloc, Layout, System};
 use std::cell::UnsafeCell;
 
 struct Cell<T>(UnsafeCell<T>);
@@ -60,6 +63,101 @@ pub extern "C" fn chiwawa_sim_resume(id: u32) {
     }
 }
 
+/// Fresh memory holds `fill` in every byte. From now on, requests for at least
+/// `min` bytes are counted, and those numbered `first..first + count` fail.
+#[no_mangle]
+pub extern "C" fn chiwawa_sim_memory(fill: u32, min: u32, first: u32, count: u32) {
+    unsafe {
+        let memory = &mut *MEMORY.0.get();
+        memory.fill = fill as u8;
+        memory.min = min;
+        memory.first = first;
+        memory.count = count;
+    }
+}
+
+/// How many requests for memory have failed.
+#[no_mangle]
+pub extern "C" fn chiwawa_sim_refused() -> u32 {
+    unsafe { (*MEMORY.0.get()).refused }
+}
+
+struct Memory {
+    fill: u8,
+    min: u32,
+    first: u32,
+    count: u32,
+    refused: u32,
+}
+
+static MEMORY: Cell<Memory> = Cell(UnsafeCell::new(Memory {
+    fill: 0,
+    min: 0,
+    first: 0,
+    count: 0,
+    refused: 0,
+}));
+
+struct Allocator;
+
+#[global_allocator]
+static ALLOCATOR: Allocator = Allocator;
+
+impl Allocator {
+    unsafe fn refused(size: usize) -> bool {
+        let memory = &mut *MEMORY.0.get();
+        if memory.count == 0 || (size as u32) < memory.min {
+            return false;
+        }
+        if memory.first > 0 {
+            memory.first -= 1;
+            return false;
+        }
+        memory.count -= 1;
+        memory.refused += 1;
+        true
+    }
+
+    unsafe fn fill(at: *mut u8, len: usize) {
+        if !at.is_null() {
+            std::ptr::write_bytes(at, (*MEMORY.0.get()).fill, len);
+        }
+    }
+}
+
+unsafe impl GlobalAlloc for Allocator {
+    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
+        if Self::refused(layout.size()) {
+            return std::ptr::null_mut();
+        }
+        let fresh = System.alloc(layout);
+        Self::fill(fresh, layout.size());
+        fresh
+    }
+
+    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
+        if Self::refused(layout.size()) {
+            return std::ptr::null_mut();
+        }
+        System.alloc_zeroed(layout)
+    }
+
+    unsafe fn dealloc(&self, at: *mut u8, layout: Layout) {
+        System.dealloc(at, layout)
+    }
+
+    unsafe fn realloc(&self, at: *mut u8, layout: Layout, size: usize) -> *mut u8 {
+        if size > layout.size() && Self::refused(size) {
+            return std::ptr::null_mut();
+        }
+        let moved = System.realloc(at, layout, size);
+        if !moved.is_null() && size > layout.size() {
+            Self::fill(moved.add(layout.size()), size - layout.size());
+        }
+        moved
+    }
+}
+
 /// Simulated counterpart of `std::thread`.
 pub mod thread {
     use std::marker::PhantomData;
-- 
2.43.0


From a17e15a412a05ba9c70c60b927dc5aa2505f12db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:32 +0000
Subject: [PATCH 26/26] fix: look for the checkpoint request in the working
 directory, not in whatever descriptor 3 is

---
 src/execution/migration.rs |  6 +-----
 src/wasi/passthrough.rs    | 25 -------------------------
 2 files changed, 1 insertion(+), 30 deletions(-)

diff --git a/src/execution/migration.rs b/src/execution/migration.rs
index b6e5e5c..6c8007f 100644
--- a/src/execution/migration.rs
+++ b/src/execution/migration.rs
@@ -137,11 +137,7 @@ fn do_poll_checkpoint(state: &mut VmState) -> bool {
         if state.checkpoint_poll_counter & CHECKPOINT_POLL_MASK != 0 {
             return false;
         }
-        let triggered = match state.module().wasi_impl {
-            Some(ref wasi) => wasi.check_file_exists(CHECKPOINT_TRIGGER_FILE),
-            // No WASI imports: the request does not come through the guest's WASI
-            None => Path::new(CHECKPOINT_TRIGGER_FILE).exists(),
-        };
+        let triggered = Path::new(CHECKPOINT_TRIGGER_FILE).exists();
         if triggered {
             let _ = std::fs::remove_file(CHECKPOINT_TRIGGER_FILE);
         }
diff --git a/src/wasi/passthrough.rs b/src/wasi/passthrough.rs
index e32f5af..7e50c63 100644
--- a/src/wasi/passthrough.rs
+++ b/src/wasi/passthrough.rs
@@ -42,7 +42,6 @@ extern "C" {
     fn __wasi_fd_fdstat_set_flags(fd: u32, flags: u32) -> u16;
     fn __wasi_fd_filestat_set_size(fd: u32, size: u64) -> u16;
     fn __wasi_fd_filestat_get(fd: u32, filestat: *mut u8) -> u16;
-    fn __wasi_path_filestat_get(fd: u32, flags: u32, path: *const u8, filestat: *mut u8) -> u16;
     fn __wasi_poll_oneoff(
         in_ptr: *const u8,
         out_ptr: *mut u8,
@@ -177,30 +176,6 @@ impl PassthroughWasiImpl {
         PassthroughWasiImpl { argv }
     }
 
-    /// Check if a file exists without memory allocation
-    /// Used for checkpoint trigger detection
-    pub fn check_file_exists(&self, path: &str) -> bool {
-        // Create null-terminated path
-        let mut path_vec = path.as_bytes().to_vec();
-        path_vec.push(0);
-
-        // Dummy buffer for filestat (required by some WASI implementations)
-        let mut dummy_stat: [u8; 64] = [0; 64];
-
-        // Call path_filestat_get
-        let wasi_errno = unsafe {
-            __wasi_path_filestat_get(
-                3, // fd: current directory (AT_FDCWD)
-                0, // flags: 0
-                path_vec.as_ptr(),
-                dummy_stat.as_mut_ptr(),
-            )
-        };
-
-        // Return true if file exists (errno == 0)
-        wasi_errno == 0
-    }
-
     pub fn fd_write(
         &self,
         memory: &MemAddr,
-- 
2.43.0

