From 79da1310426751a0d804350077be90649b18c4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:19 +0000
Subject: [PATCH 01/17] fix: only fold shift pairs that sign-extend into extend
 instructions

---
 crates/parser/src/optimize.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/parser/src/optimize.rs b/crates/parser/src/optimize.rs
index 80dfa0d..b346234 100644
--- a/crates/parser/src/optimize.rs
+++ b/crates/parser/src/optimize.rs
@@ -105,7 +105,7 @@ fn rewrite(
                 rewrite!(instrs, i, [LocalGet32(local), Const32(c)] => BinOpLocalConst32(op, local, c));
                 rewrite!(instrs, i, [GlobalGet(global)] => BinOpStackGlobal32(op, global));
                 if matches!(op, BinOp::IShrS) {
-                    rewrite!(instrs, i, [BinOpLocalConst32(BinOp::IShl, local, 8), Const32(8)] => [LocalGet32(local), I32Extend8S]);
+                    rewrite!(instrs, i, [BinOpLocalConst32(BinOp::IShl, local, 24), Const32(24)] => [LocalGet32(local), I32Extend8S]);
                     rewrite!(instrs, i, [BinOpLocalConst32(BinOp::IShl, local, 16), Const32(16)] => [LocalGet32(local), I32Extend16S]);
                 }
             }
@@ -126,8 +126,8 @@ fn rewrite(
                 rewrite!(instrs, i, [LocalGet64(local), Const64(c)] => BinOpLocalConst64(op, local, c));
                 rewrite!(instrs, i, [GlobalGet(global)] => BinOpStackGlobal64(op, global));
                 if matches!(op, BinOp::IShrS) {
-                    rewrite!(instrs, i, [BinOpLocalConst64(BinOp::IShl, local, 8), Const64(8)] => [LocalGet64(local), I64Extend8S]);
-                    rewrite!(instrs, i, [BinOpLocalConst64(BinOp::IShl, local, 16), Const64(16)] => [LocalGet64(local), I64Extend16S]);
+                    rewrite!(instrs, i, [BinOpLocalConst64(BinOp::IShl, local, 56), Const64(56)] => [LocalGet64(local), I64Extend8S]);
+                    rewrite!(instrs, i, [BinOpLocalConst64(BinOp::IShl, local, 48), Const64(48)] => [LocalGet64(local), I64Extend16S]);
                     rewrite!(instrs, i, [BinOpLocalConst64(BinOp::IShl, local, 32), Const64(32)] => [LocalGet64(local), I64Extend32S]);
                 }
             }
-- 
2.43.0


From 79e4f7a29e4ce6582600b9b9ca5b54c9fff033fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:34 +0000
Subject: [PATCH 02/17] fix: do not fold a local.tee as the right operand of a
 local binop

---
 crates/parser/src/macros.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/parser/src/macros.rs b/crates/parser/src/macros.rs
index ff216a5..878d3dd 100644
--- a/crates/parser/src/macros.rs
+++ b/crates/parser/src/macros.rs
@@ -225,6 +225,8 @@ pub(crate) mod optimize {
                 && $read < $instrs.len()
                 && $read >= $instrs.block_start + 3
                 && let [lhs_src, rhs_src, raw_op] = [$instrs[$read - 3], $instrs[$read - 2], $instrs[$read - 1]]
+                // a plain tee takes its value from below, so it is not an operand of its own next to `lhs_src`
+                && !matches!(rhs_src, Instruction::LocalTee32(_) | Instruction::LocalTee64(_) | Instruction::LocalTee128(_))
                 && let Some((lhs_instr, lhs)) = $source(lhs_src)
                 && let Some(op) = $op(raw_op)
             {
-- 
2.43.0


From e9fcabef1912cff2d8f56a2ebba9f749ce1892e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:34 +0000
Subject: [PATCH 03/17] fix: pop a 64-bit address for fused multiply-add stores
 to 64-bit memories

---
 crates/tinywasm/src/interpreter/executor.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/tinywasm/src/interpreter/executor.rs b/crates/tinywasm/src/interpreter/executor.rs
index 739c136..0681da4 100644
--- a/crates/tinywasm/src/interpreter/executor.rs
+++ b/crates/tinywasm/src/interpreter/executor.rs
@@ -1168,10 +1168,9 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
         let rhs = T::stack_pop(&mut self.store.value_stack);
         let lhs = T::stack_pop(&mut self.store.value_stack);
         let acc = T::stack_pop(&mut self.store.value_stack);
-        let addr = i32::stack_pop(&mut self.store.value_stack);
         let fma = acc + lhs * rhs;
         let mem = self.store.state.get_mem_mut(self.module.resolve_mem_addr(m.mem_addr()));
-        let addr = mem.effective_addr_32::<N>(addr as u32, m.offset())?;
+        let addr = Self::pop_memory_addr::<N>(&mut self.store.value_stack, mem, m.offset())?;
         fma.store_at(&mut *mem.inner, addr)?;
         Ok(())
     }
-- 
2.43.0


From ca4a009180bc90c57f294f5b3d05fdb0749cf8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:09 +0000
Subject: [PATCH 04/17] fix: table.fill stores the function reference it is
 given

---
 crates/tinywasm/src/instance.rs             |  5 -----
 crates/tinywasm/src/interpreter/executor.rs |  2 +-
 crates/tinywasm/src/store/table.rs          | 20 +-------------------
 3 files changed, 2 insertions(+), 25 deletions(-)

diff --git a/crates/tinywasm/src/instance.rs b/crates/tinywasm/src/instance.rs
index 8cff310..68397ba 100644
--- a/crates/tinywasm/src/instance.rs
+++ b/crates/tinywasm/src/instance.rs
@@ -77,11 +77,6 @@ impl ModuleInstance {
         *self.0.func_type_idxs.get(addr as usize).unwrap_or_else(|| unreachable!("invalid function address: {addr}"))
     }
 
-    #[inline]
-    pub(crate) fn func_addrs(&self) -> &[FuncAddr] {
-        &self.0.func_addrs
-    }
-
     /// resolve a function address to the global store address
     #[inline]
     pub(crate) fn resolve_func_addr(&self, addr: FuncAddr) -> FuncAddr {
diff --git a/crates/tinywasm/src/interpreter/executor.rs b/crates/tinywasm/src/interpreter/executor.rs
index 0681da4..e1b2df7 100644
--- a/crates/tinywasm/src/interpreter/executor.rs
+++ b/crates/tinywasm/src/interpreter/executor.rs
@@ -1532,7 +1532,7 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
         let n = self.pop_table_operand(arch)?;
         let val = <ValueRef>::stack_pop(&mut self.store.value_stack);
         let i = self.pop_table_operand(arch)?;
-        self.store.state.get_table_mut(table_addr).fill(self.module.func_addrs(), i, n, val.addr().into())
+        self.store.state.get_table_mut(table_addr).fill(i, n, val.addr().into())
     }
 
     fn pop_table_operand(&mut self, arch: MemoryArch) -> Result<usize, Trap> {
diff --git a/crates/tinywasm/src/store/table.rs b/crates/tinywasm/src/store/table.rs
index d5f1019..c044bf8 100644
--- a/crates/tinywasm/src/store/table.rs
+++ b/crates/tinywasm/src/store/table.rs
@@ -54,8 +54,7 @@ impl TableInstance {
         })
     }
 
-    pub(crate) fn fill(&mut self, func_addrs: &[u32], addr: usize, len: usize, val: TableElement) -> Result<(), Trap> {
-        let val = val.map(|addr| self.resolve_func_ref(func_addrs, addr));
+    pub(crate) fn fill(&mut self, addr: usize, len: usize, val: TableElement) -> Result<(), Trap> {
         let range = self.checked_range(addr, len)?;
         self.elements[range].fill(val);
         Ok(())
@@ -105,16 +104,6 @@ impl TableInstance {
         self.elements.len()
     }
 
-    fn resolve_func_ref(&self, func_addrs: &[u32], addr: Addr) -> Addr {
-        if self.kind.element_type != WasmType::RefFunc {
-            return addr;
-        }
-
-        *func_addrs
-            .get(addr as usize)
-            .expect("error initializing table: function not found. This should have been caught by the validator")
-    }
-
     pub(crate) fn init(&mut self, offset: usize, init: &[TableElement]) -> Result<(), Trap> {
         let range = self.checked_range(offset, init.len())?;
         self.elements[range].copy_from_slice(init);
@@ -145,13 +134,6 @@ impl TableElement {
             Self::Initialized(addr) => Some(*addr),
         }
     }
-
-    pub(crate) fn map(self, f: impl FnOnce(Addr) -> Addr) -> Self {
-        match self {
-            Self::Uninitialized => Self::Uninitialized,
-            Self::Initialized(addr) => Self::Initialized(f(addr)),
-        }
-    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From d685b62ea2dfcd7b8a91859c2d3d3c6ca0210221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:09 +0000
Subject: [PATCH 05/17] fix: report the memory of memory.init for local memory
 allocation

---
 crates/types/src/instructions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/types/src/instructions.rs b/crates/types/src/instructions.rs
index a22279e..cf8a217 100644
--- a/crates/types/src/instructions.rs
+++ b/crates/types/src/instructions.rs
@@ -305,7 +305,7 @@ pub enum Instruction {
     TableFill(TableAddr),
 
     // > Bulk Memory Instructions
-    MemoryInit(MemAddr, DataAddr),
+    MemoryInit(DataAddr, MemAddr),
     MemoryCopy { dst_mem: MemAddr, src_mem: MemAddr },
     MemoryFill(MemAddr),
     MemoryFillImm(MemAddr, u8, i32),
@@ -468,7 +468,7 @@ impl Instruction {
             | Self::V128Store64Lane(arg, ..) => Some(arg.mem_addr()),
             Self::MemorySize(mem)
             | Self::MemoryGrow(mem)
-            | Self::MemoryInit(mem, ..)
+            | Self::MemoryInit(_, mem)
             | Self::MemoryFill(mem)
             | Self::MemoryFillImm(mem, ..) => Some(*mem),
             Self::MemoryCopy { dst_mem, src_mem } => Some(if *dst_mem >= *src_mem { *dst_mem } else { *src_mem }),
-- 
2.43.0


From c28b1ce5d1c7dd1249686e013dfad1f69815b4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:09 +0000
Subject: [PATCH 06/17] fix: memory.copy, memory.fill and memory.init operands

---
 crates/parser/src/visit.rs                  |  6 +-
 crates/tinywasm/src/interpreter/executor.rs | 73 +++++++++++----------
 2 files changed, 41 insertions(+), 38 deletions(-)

diff --git a/crates/parser/src/visit.rs b/crates/parser/src/visit.rs
index dae9ff2..a450c1a 100644
--- a/crates/parser/src/visit.rs
+++ b/crates/parser/src/visit.rs
@@ -375,10 +375,8 @@ impl<'a> wasmparser::VisitOperator<'a> for FunctionBuilder<'_> {
         global [] => [Addr] { visit_global_get(global_index: u32) => GlobalGet }
         memory_index [] => [Addr] { visit_memory_size(memory: u32) => MemorySize }
         memory_index [Addr] => [Addr] { visit_memory_grow(memory: u32) => MemoryGrow }
-        memory_index [Addr, S32, Addr] => [] {
-            visit_memory_init(data_index: u32, memory: u32) => MemoryInit,
-            visit_memory_fill(memory: u32) => MemoryFill,
-        }
+        memory_index [Addr, S32, S32] => [] { visit_memory_init(data_index: u32, memory: u32) => MemoryInit }
+        memory_index [Addr, S32, Addr] => [] { visit_memory_fill(memory: u32) => MemoryFill }
         table [Addr] => [S32] { visit_table_get(table: u32) => TableGet }
         table [Addr, S32] => [] { visit_table_set(table: u32) => TableSet }
         table [] => [Addr] { visit_table_size(table: u32) => TableSize }
diff --git a/crates/tinywasm/src/interpreter/executor.rs b/crates/tinywasm/src/interpreter/executor.rs
index e1b2df7..3e50885 100644
--- a/crates/tinywasm/src/interpreter/executor.rs
+++ b/crates/tinywasm/src/interpreter/executor.rs
@@ -1290,43 +1290,47 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
     }
 
     fn exec_memory_copy(&mut self, dst_mem: u32, src_mem: u32) -> Result<(), Trap> {
-        let size = i32::stack_pop(&mut self.store.value_stack);
-        let src = i32::stack_pop(&mut self.store.value_stack);
-        let dst = i32::stack_pop(&mut self.store.value_stack);
         let dst_mem_addr = self.module.resolve_mem_addr(dst_mem);
-
-        if dst_mem == src_mem {
+        let src_mem_addr = self.module.resolve_mem_addr(src_mem);
+        let dst_is_64bit = self.store.state.get_mem(dst_mem_addr).is_64bit();
+        let src_is_64bit = self.store.state.get_mem(src_mem_addr).is_64bit();
+        let size = self.pop_memory_operand(dst_is_64bit && src_is_64bit)?;
+        let src = self.pop_memory_operand(src_is_64bit)?;
+        let dst = self.pop_memory_operand(dst_is_64bit)?;
+
+        if dst_mem_addr == src_mem_addr {
             // copy within the same memory
             let mem = self.store.state.get_mem_mut(dst_mem_addr);
-            mem.copy_within(dst as usize, src as usize, size as usize)?;
+            mem.copy_within(dst, src, size)?;
         } else {
             // copy between two memories
-            let src_mem_addr = self.module.resolve_mem_addr(src_mem);
             let (dst_memory, src_memory) = self.store.state.get_mems_mut(dst_mem_addr, src_mem_addr);
-            dst_memory.copy_from_memory(dst as usize, src_memory, src as usize, size as usize)?;
+            dst_memory.copy_from_memory(dst, src_memory, src, size)?;
         }
         Ok(())
     }
 
     fn exec_memory_fill(&mut self, addr: u32) -> Result<(), Trap> {
-        let size = i32::stack_pop(&mut self.store.value_stack);
+        let is_64bit = self.store.state.get_mem(self.module.resolve_mem_addr(addr)).is_64bit();
+        let size = self.pop_memory_operand(is_64bit)?;
         let val = i32::stack_pop(&mut self.store.value_stack);
-        let dst = i32::stack_pop(&mut self.store.value_stack);
+        let dst = self.pop_memory_operand(is_64bit)?;
         self.exec_memory_fill_impl(addr, dst, val as u8, size)
     }
 
     fn exec_memory_fill_imm(&mut self, addr: u32, val: u8, size: i32) -> Result<(), Trap> {
-        let dst = i32::stack_pop(&mut self.store.value_stack);
-        self.exec_memory_fill_impl(addr, dst, val, size)
+        let is_64bit = self.store.state.get_mem(self.module.resolve_mem_addr(addr)).is_64bit();
+        let dst = self.pop_memory_operand(is_64bit)?;
+        self.exec_memory_fill_impl(addr, dst, val, size as u32 as usize)
     }
 
-    fn exec_memory_fill_impl(&mut self, addr: u32, dst: i32, val: u8, size: i32) -> Result<(), Trap> {
+    fn exec_memory_fill_impl(&mut self, addr: u32, dst: usize, val: u8, size: usize) -> Result<(), Trap> {
         let mem = self.store.state.get_mem_mut(self.module.resolve_mem_addr(addr));
-        if mem.inner.fill(dst as usize, size as usize, val).is_none() {
+        if mem.inner.fill(dst, size, val).is_none() {
             cold_path();
             return Err(Trap::MemoryOutOfBounds {
-                offset: dst as usize,
-                len: size as usize,
+                offset: dst,
+                len: size,
                 max: self.store.state.get_mem(self.module.resolve_mem_addr(addr)).inner.len(),
             });
         }
@@ -1334,34 +1338,35 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
     }
 
     fn exec_memory_init(&mut self, data_index: u32, mem_index: u32) -> Result<(), Trap> {
-        let size = i32::stack_pop(&mut self.store.value_stack);
-        let offset = i32::stack_pop(&mut self.store.value_stack);
-        let dst = i32::stack_pop(&mut self.store.value_stack);
+        let mem_addr = self.module.resolve_mem_addr(mem_index);
+        let is_64bit = self.store.state.get_mem(mem_addr).is_64bit();
+        let size = i32::stack_pop(&mut self.store.value_stack) as u32 as usize;
+        let offset = i32::stack_pop(&mut self.store.value_stack) as u32 as usize;
+        let dst = self.pop_memory_operand(is_64bit)?;
 
         let data = &self.store.state.data[self.module.resolve_data_addr(data_index) as usize];
-        let mem = &mut self.store.state.memories[self.module.resolve_mem_addr(mem_index) as usize];
-        let data_len = data.data.as_ref().map_or(0, |d| d.len());
-        if ((size + offset) as usize > data_len) || ((dst + size) as usize > mem.inner.len()) {
+        let mem = &mut self.store.state.memories[mem_addr as usize];
+        let data = data.data.as_deref().unwrap_or(&[]);
+        let Some(bytes) = offset.checked_add(size).and_then(|end| data.get(offset..end)) else {
             cold_path();
-            return Err(Trap::MemoryOutOfBounds { offset: offset as usize, len: size as usize, max: data_len });
-        }
-
-        if size == 0 {
-            return Ok(());
-        }
-
-        let Some(data) = &data.data else {
-            cold_path();
-            return Err(Trap::MemoryOutOfBounds { offset: 0, len: 0, max: 0 });
+            return Err(Trap::MemoryOutOfBounds { offset, len: size, max: data.len() });
         };
 
-        if mem.inner.write_all(dst as usize, &data[offset as usize..((offset + size) as usize)]).is_none() {
+        if mem.inner.write_all(dst, bytes).is_none() {
             cold_path();
-            return Err(Trap::MemoryOutOfBounds { offset: dst as usize, len: size as usize, max: mem.inner.len() });
+            return Err(Trap::MemoryOutOfBounds { offset: dst, len: size, max: mem.inner.len() });
         }
         Ok(())
     }
 
+    fn pop_memory_operand(&mut self, is_64bit: bool) -> Result<usize, Trap> {
+        let value = match is_64bit {
+            true => <i64>::stack_pop(&mut self.store.value_stack) as u64,
+            false => u64::from(<i32>::stack_pop(&mut self.store.value_stack) as u32),
+        };
+        usize::try_from(value).map_err(|_| Trap::MemoryOutOfBounds { offset: usize::MAX, len: 1, max: usize::MAX })
+    }
+
     fn exec_table_copy(&mut self, dst_table: u32, src_table: u32) -> Result<(), Trap> {
         let dst_table_addr = self.module.resolve_table_addr(dst_table);
         let src_table_addr = self.module.resolve_table_addr(src_table);
-- 
2.43.0


From 09f25b8772d9748b2eed8b34d95b7487141eec42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:09 +0000
Subject: [PATCH 07/17] fix: do not fold local.tee into a local.get before a
 branch target

---
 crates/parser/src/visit.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/parser/src/visit.rs b/crates/parser/src/visit.rs
index a450c1a..faa8679 100644
--- a/crates/parser/src/visit.rs
+++ b/crates/parser/src/visit.rs
@@ -108,6 +108,8 @@ pub(crate) struct FunctionBuilder<'a> {
     metadata: &'a ModuleMetadata,
     local_types: Vec<OperandSize>,
     local_addr_map: Vec<u16>,
+    /// The position of the most recently bound label, which earlier instructions must not be merged across.
+    last_label: usize,
 }
 
 impl<'a> FunctionBuilder<'a> {
@@ -121,6 +123,7 @@ impl<'a> FunctionBuilder<'a> {
         Self {
             local_types,
             local_addr_map,
+            last_label: 0,
             metadata,
             instructions: Vec::with_capacity(body_size.min(1024)),
             data: FunctionDataBuilder::default(),
@@ -460,7 +463,8 @@ impl<'a> wasmparser::VisitOperator<'a> for FunctionBuilder<'_> {
     fn visit_local_tee(&mut self, idx: u32) -> Self::Output {
         let (size, local_idx) = self.local(idx)?;
         self.apply_effect(&[size], &[size])?;
-        let src = match (size, self.instructions.last()) {
+        let last = if self.instructions.len() > self.last_label { self.instructions.last() } else { None };
+        let src = match (size, last) {
             (OperandSize::S32, Some(Instruction::LocalGet32(src))) => Some(*src),
             (OperandSize::S64, Some(Instruction::LocalGet64(src))) => Some(*src),
             (OperandSize::S128, Some(Instruction::LocalGet128(src))) => Some(*src),
@@ -489,6 +493,7 @@ impl<'a> wasmparser::VisitOperator<'a> for FunctionBuilder<'_> {
     }
 
     fn visit_loop(&mut self, ty: wasmparser::BlockType) -> Self::Output {
+        self.last_label = self.instructions.len();
         self.push_control(BlockKind::Loop, ty, None)
     }
 
@@ -532,6 +537,7 @@ impl<'a> wasmparser::VisitOperator<'a> for FunctionBuilder<'_> {
             if let Some(parent) = self.control_stack.last_mut() {
                 parent.unreachable = !reachable;
             }
+            self.last_label = self.instructions.len();
             self.patch_end_jumps(ctx, self.instructions.len());
         }
         Ok(())
-- 
2.43.0


From 4f63305090723f3d0b94f2a2359f6df8b9881e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:09 +0000
Subject: [PATCH 08/17] fix: return_call to a host function returns from the
 caller

---
 crates/tinywasm/src/interpreter/executor.rs | 29 ++++++++++++++-------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/crates/tinywasm/src/interpreter/executor.rs b/crates/tinywasm/src/interpreter/executor.rs
index 3e50885..089ce06 100644
--- a/crates/tinywasm/src/interpreter/executor.rs
+++ b/crates/tinywasm/src/interpreter/executor.rs
@@ -225,9 +225,9 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
             Call(v) => { self.exec_call_direct(*v)?; return Ok(None); }
             CallSelf => { self.exec_call_self()?; return Ok(None); }
             CallIndirect(ty, table) => { self.exec_call_indirect::<false>(*ty, *table)?; return Ok(None); }
-            ReturnCall(v) => { self.exec_return_call_direct(*v)?; return Ok(None); }
+            ReturnCall(v) => { if self.exec_return_call_direct(*v)? { return Ok(Some(())); } return Ok(None); }
             ReturnCallSelf => { self.exec_return_call_self()?; return Ok(None); }
-            ReturnCallIndirect(ty, table) => { self.exec_call_indirect::<true>(*ty, *table)?; return Ok(None); }
+            ReturnCallIndirect(ty, table) => { if self.exec_call_indirect::<true>(*ty, *table)? { return Ok(Some(())); } return Ok(None); }
             Jump(ip) => { self.cf.instr_ptr = *ip as usize; return Ok(None); }
             JumpIfZero32(ip) => if self.exec_jump_zero_32(*ip) { return Ok(None) },
             JumpIfNonZero32(ip) => if self.exec_jump_non_zero_32(*ip) { return Ok(None) },
@@ -985,13 +985,17 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
         }
     }
 
-    fn exec_return_call_direct(&mut self, v: u32) -> Result<(), Trap> {
+    fn exec_return_call_direct(&mut self, v: u32) -> Result<bool, Trap> {
         self.charge_call_fuel(FUEL_COST_CALL_TOTAL);
         let addr = self.module.resolve_func_addr(v);
         match self.store.state.get_func(addr) {
-            crate::FunctionInstance::Wasm(wasm_func) => self.exec_return_call(wasm_func.clone(), addr),
-            crate::FunctionInstance::Host(host_func) => self.exec_call_host(host_func.clone()),
+            crate::FunctionInstance::Wasm(wasm_func) => self.exec_return_call(wasm_func.clone(), addr)?,
+            crate::FunctionInstance::Host(host_func) => {
+                self.exec_call_host(host_func.clone())?;
+                return Ok(self.exec_return());
+            }
         }
+        Ok(false)
     }
 
     fn exec_call_self(&mut self) -> Result<(), Trap> {
@@ -1019,7 +1023,12 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
         Ok(())
     }
 
-    fn exec_call_indirect<const IS_RETURN_CALL: bool>(&mut self, type_addr: u32, table_addr: u32) -> Result<(), Trap> {
+    /// Returns `true` if the (tail) call has completed the outermost function.
+    fn exec_call_indirect<const IS_RETURN_CALL: bool>(
+        &mut self,
+        type_addr: u32,
+        table_addr: u32,
+    ) -> Result<bool, Trap> {
         self.charge_call_fuel(FUEL_COST_CALL_TOTAL);
 
         // verify that the table is of the right type, this should be validated by the parser already
@@ -1050,9 +1059,10 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
                 }
 
                 match IS_RETURN_CALL {
-                    true => self.exec_return_call(wasm_func.clone(), func_ref),
-                    false => self.exec_call(wasm_func.clone(), func_ref),
+                    true => self.exec_return_call(wasm_func.clone(), func_ref)?,
+                    false => self.exec_call(wasm_func.clone(), func_ref)?,
                 }
+                Ok(false)
             }
             crate::FunctionInstance::Host(host_func) => {
                 if host_func.ty != *call_ty {
@@ -1063,7 +1073,8 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
                     });
                 }
 
-                self.exec_call_host(host_func.clone())
+                self.exec_call_host(host_func.clone())?;
+                Ok(IS_RETURN_CALL && self.exec_return())
             }
         }
     }
-- 
2.43.0


From 4009056d07ebf501f5b0cd570e566227c5df5c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:08 +0000
Subject: [PATCH 09/17] fix: refuse memories whose initial size exceeds the
 maximum instead of panicking

---
 crates/tinywasm/src/store/memory/instance.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/tinywasm/src/store/memory/instance.rs b/crates/tinywasm/src/store/memory/instance.rs
index be0f3b4..68e087d 100644
--- a/crates/tinywasm/src/store/memory/instance.rs
+++ b/crates/tinywasm/src/store/memory/instance.rs
@@ -57,7 +57,9 @@ impl MemoryInstance {
     }
 
     pub(crate) fn new(kind: MemoryType, backend: &MemoryBackend) -> Result<Self> {
-        assert!(kind.page_count_initial() <= kind.page_count_max());
+        if kind.page_count_initial() > kind.page_count_max() {
+            return Err(Error::UnsupportedFeature("initial memory size exceeds the supported maximum"));
+        }
 
         let initial_len = usize::try_from(kind.initial_size())
             .map_err(|_| Error::UnsupportedFeature("memory size exceeds the host address space"))?;
@@ -80,7 +82,9 @@ impl MemoryInstance {
     }
 
     pub(crate) fn new_lazy(kind: MemoryType, backend: &MemoryBackend) -> Result<Self> {
-        assert!(kind.page_count_initial() <= kind.page_count_max());
+        if kind.page_count_initial() > kind.page_count_max() {
+            return Err(Error::UnsupportedFeature("initial memory size exceeds the supported maximum"));
+        }
 
         let initial_len = usize::try_from(kind.initial_size())
             .map_err(|_| Error::UnsupportedFeature("memory size exceeds the host address space"))?;
-- 
2.43.0


From 362e9a79b6c666b3ca2615d4cff76ac1b3ba2af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:08 +0000
Subject: [PATCH 10/17] fix: memory sizes in bytes saturate instead of
 overflowing

---
 crates/types/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/types/src/lib.rs b/crates/types/src/lib.rs
index fcac23c..2e1cfe5 100644
--- a/crates/types/src/lib.rs
+++ b/crates/types/src/lib.rs
@@ -574,12 +574,12 @@ impl MemoryType {
 
     #[inline]
     pub const fn initial_size(&self) -> u64 {
-        self.page_count_initial * self.page_size()
+        self.page_count_initial.saturating_mul(self.page_size())
     }
 
     #[inline]
     pub const fn max_size(&self) -> u64 {
-        self.page_count_max() * self.page_size()
+        self.page_count_max().saturating_mul(self.page_size())
     }
 
     /// Set a different memory architecture.
-- 
2.43.0


From f021a84b7b4b87d6e6838d533ff4dbbc006b1eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:02 +0000
Subject: [PATCH 11/17] fix: a trapped resumable execution cannot be resumed
 again

---
 crates/tinywasm/src/func.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/tinywasm/src/func.rs b/crates/tinywasm/src/func.rs
index 9777a47..45a2617 100644
--- a/crates/tinywasm/src/func.rs
+++ b/crates/tinywasm/src/func.rs
@@ -439,7 +439,12 @@ impl<'store> FuncExecution<'store> {
         let result = run(self.store, callframe);
         self.store.exit_execution();
 
-        match result? {
+        let result = result.inspect_err(|_| {
+            // a trap ends the invocation, it can't be resumed again
+            self.state = FuncExecutionState::Completed { result: None };
+        })?;
+
+        match result {
             crate::interpreter::ExecState::Completed => {
                 let result_ty = self.store.state.get_func(root_func_addr).ty().clone();
                 self.state = FuncExecutionState::Completed { result: None };
-- 
2.43.0


From aae3255562513503e63e10f72459c974c7661567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:16 +0000
Subject: [PATCH 12/17] fix: no fuel remains once a resumable execution is over

---
 crates/tinywasm/src/store/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/tinywasm/src/store/mod.rs b/crates/tinywasm/src/store/mod.rs
index 61b09ef..c65bce8 100644
--- a/crates/tinywasm/src/store/mod.rs
+++ b/crates/tinywasm/src/store/mod.rs
@@ -104,6 +104,7 @@ impl Store {
 
     pub(crate) fn exit_execution(&mut self) {
         self.execution_active = false;
+        self.execution_fuel = 0;
     }
 }
 
-- 
2.43.0


From a6b52d78bb3be0f7664073f0141b40f0491f010e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:12 +0000
Subject: [PATCH 13/17] fix: a trap in an active segment ends the
 initialization and keeps every segment's address

---
 crates/tinywasm/src/instance.rs  |  8 +++---
 crates/tinywasm/src/store/mod.rs | 49 ++++++++++++++++++--------------
 2 files changed, 32 insertions(+), 25 deletions(-)

diff --git a/crates/tinywasm/src/instance.rs b/crates/tinywasm/src/instance.rs
index 68397ba..27b73f6 100644
--- a/crates/tinywasm/src/instance.rs
+++ b/crates/tinywasm/src/instance.rs
@@ -182,10 +182,10 @@ impl ModuleInstance {
         }
 
         store.init_globals(&mut addrs.globals, &module.globals, &addrs.funcs)?;
-        let (elem_addrs, elem_trapped) =
+        let (elem_addrs, trapped) =
             store.init_elements(&addrs.tables, &addrs.funcs, &addrs.globals, &module.elements)?;
-        let (data_addrs, data_trapped) =
-            store.init_data(&addrs.memories, &addrs.globals, &addrs.funcs, &module.data)?;
+        let (data_addrs, trapped) =
+            store.init_data(&addrs.memories, &addrs.globals, &addrs.funcs, &module.data, trapped)?;
 
         let instance = ModuleInstanceInner {
             store_id: store.id(),
@@ -205,7 +205,7 @@ impl ModuleInstance {
         let instance = ModuleInstance(Rc::new(instance));
         store.add_instance(instance.clone());
 
-        if let Some(trap) = elem_trapped.or(data_trapped) {
+        if let Some(trap) = trapped {
             cold_path();
             return Err(trap.into());
         }
diff --git a/crates/tinywasm/src/store/mod.rs b/crates/tinywasm/src/store/mod.rs
index c65bce8..563f86d 100644
--- a/crates/tinywasm/src/store/mod.rs
+++ b/crates/tinywasm/src/store/mod.rs
@@ -356,6 +356,7 @@ impl Store {
     ) -> Result<(Box<[Addr]>, Option<Trap>)> {
         let elem_count = self.state.elements.len();
         let mut elem_addrs = Vec::with_capacity(elem_count);
+        let mut trapped = None;
         for (i, element) in elements.iter().enumerate() {
             let init = element
                 .items
@@ -370,6 +371,9 @@ impl Store {
                 // this one is not available to the runtime but needs to be initialized to declare references
                 ElementKind::Declared => None, // a. Execute the instruction elm.drop i
 
+                // a trap ends the initialization: the segments after it are neither copied nor dropped
+                ElementKind::Active { .. } if trapped.is_some() => Some(init),
+
                 // this one is active, so we need to initialize it (essentially a `table.init` instruction)
                 ElementKind::Active { offset, table } => {
                     let offset = self.eval_size_const(offset, global_addrs, func_addrs)?;
@@ -387,19 +391,21 @@ impl Store {
                     // This isn't mentioned in the spec, but the "unofficial" testsuite has a test for it:
                     // https://github.com/WebAssembly/testsuite/blob/5a1a590603d81f40ef471abba70a90a9ae5f4627/linking.wast#L264-L276
                     // I have NO IDEA why this is allowed, but it is.
-                    let Ok(offset) = usize::try_from(offset) else {
-                        return Ok((
-                            elem_addrs.into_boxed_slice(),
-                            Some(Trap::TableOutOfBounds { offset: usize::MAX, len: init.len(), max: table.size() }),
-                        ));
+                    let res = match usize::try_from(offset) {
+                        Ok(offset) => table.init(offset, &init),
+                        Err(_) => {
+                            Err(Trap::TableOutOfBounds { offset: usize::MAX, len: init.len(), max: table.size() })
+                        }
                     };
 
-                    if let Err(trap) = table.init(offset, &init) {
-                        return Ok((elem_addrs.into_boxed_slice(), Some(trap)));
+                    match res {
+                        // f. Execute the instruction elm.drop i
+                        Ok(()) => None,
+                        Err(trap) => {
+                            trapped = Some(trap);
+                            Some(init)
+                        }
                     }
-
-                    // f. Execute the instruction elm.drop i
-                    None
                 }
             };
 
@@ -408,21 +414,24 @@ impl Store {
         }
 
         // this should be optimized out by the compiler
-        Ok((elem_addrs.into_boxed_slice(), None))
+        Ok((elem_addrs.into_boxed_slice(), trapped))
     }
 
-    /// Add data to the store, returning their addresses in the store
+    /// Add data to the store, returning their addresses in the store.
+    /// Active segments are not copied once the instantiation has `trapped`.
     pub(crate) fn init_data(
         &mut self,
         mem_addrs: &[MemAddr],
         global_addrs: &[Addr],
         func_addrs: &[FuncAddr],
         data: &[Data],
+        mut trapped: Option<Trap>,
     ) -> Result<(Box<[Addr]>, Option<Trap>)> {
         let data_count = self.state.data.len();
         let mut data_addrs = Vec::with_capacity(data_count);
         for (i, data) in data.iter().enumerate() {
             let data_val = match &data.kind {
+                tinywasm_types::DataKind::Active { .. } if trapped.is_some() => Some(data.data.to_vec()),
                 tinywasm_types::DataKind::Active { mem: mem_addr, offset } => {
                     let Some(mem_addr) = mem_addrs.get(*mem_addr as usize) else {
                         return Err(Error::Other(format!("memory {mem_addr} not found for data segment {i}")));
@@ -437,14 +446,12 @@ impl Store {
                     match mem.inner.write_all(offset, &data.data) {
                         Some(()) => None,
                         None => {
-                            return Ok((
-                                data_addrs.into_boxed_slice(),
-                                Some(crate::Trap::MemoryOutOfBounds {
-                                    offset,
-                                    len: data.data.len(),
-                                    max: mem.inner.len(),
-                                }),
-                            ));
+                            trapped = Some(crate::Trap::MemoryOutOfBounds {
+                                offset,
+                                len: data.data.len(),
+                                max: mem.inner.len(),
+                            });
+                            Some(data.data.to_vec())
                         }
                     }
                 }
@@ -456,7 +463,7 @@ impl Store {
         }
 
         // this should be optimized out by the compiler
-        Ok((data_addrs.into_boxed_slice(), None))
+        Ok((data_addrs.into_boxed_slice(), trapped))
     }
 
     pub(crate) fn add_func(&mut self, func: FunctionInstance) -> FuncAddr {
-- 
2.43.0


From 9fdf887160baf18dbd825ae406981460e1330e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:40 +0000
Subject: [PATCH 14/17] fix: an import defined with a global, table or memory
 of another store is refused

---
 crates/tinywasm/src/imports.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/tinywasm/src/imports.rs b/crates/tinywasm/src/imports.rs
index 056d706..d6e6c24 100644
--- a/crates/tinywasm/src/imports.rs
+++ b/crates/tinywasm/src/imports.rs
@@ -220,6 +220,12 @@ impl Imports {
 
         for import in &*module.imports {
             let (val, func_handle) = if let Some(defined) = self.take_defined(import) {
+                match &defined {
+                    Extern::Global(global) => global.0.validate_store(store)?,
+                    Extern::Table(table) => table.0.validate_store(store)?,
+                    Extern::Memory(memory) => memory.0.validate_store(store)?,
+                    Extern::Function(func) => func.item.validate_store(store)?,
+                }
                 match defined {
                     Extern::Global(global) => (ExternVal::Global(global.0.addr), None),
                     Extern::Table(table) => (ExternVal::Table(table.0.addr), None),
@@ -265,7 +271,6 @@ impl Imports {
                         .get(*ty as usize)
                         .ok_or_else(|| LinkingError::incompatible_import_type(import))?;
                     let actual_ty = if let Some(func) = &func_handle {
-                        func.item.validate_store(store)?;
                         &func.ty
                     } else {
                         store.state.get_func(func_addr).ty()
-- 
2.43.0


From 052c0ee108693d9d0239be8836fbec41259e2aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:37 +0000
Subject: [PATCH 15/17] fix: a memory import is matched by the declared maxima

---
 crates/tinywasm/src/imports.rs | 6 ++++--
 crates/types/src/lib.rs        | 6 ++++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/tinywasm/src/imports.rs b/crates/tinywasm/src/imports.rs
index d6e6c24..cc1f820 100644
--- a/crates/tinywasm/src/imports.rs
+++ b/crates/tinywasm/src/imports.rs
@@ -195,8 +195,10 @@ impl Imports {
             return Err(LinkingError::incompatible_import_type(import).into());
         }
 
-        if expected.page_count_max() > actual.page_count_max() {
-            return Err(LinkingError::incompatible_import_type(import).into());
+        match (expected.page_count_max_declared(), actual.page_count_max_declared()) {
+            (_, None) => {}
+            (Some(max), Some(required)) if max <= required => {}
+            _ => return Err(LinkingError::incompatible_import_type(import).into()),
         }
 
         Ok(())
diff --git a/crates/types/src/lib.rs b/crates/types/src/lib.rs
index 2e1cfe5..33cefa8 100644
--- a/crates/types/src/lib.rs
+++ b/crates/types/src/lib.rs
@@ -562,6 +562,12 @@ impl MemoryType {
         self.page_count_initial
     }
 
+    /// The maximum the type declares, if any.
+    #[inline]
+    pub const fn page_count_max_declared(&self) -> Option<u64> {
+        self.page_count_max
+    }
+
     #[inline]
     pub const fn page_count_max(&self) -> u64 {
         if let Some(page_count_max) = self.page_count_max { page_count_max } else { max_page_count(self.page_size()) }
-- 
2.43.0


From 0c3793776f4df2a39f438395e4a70b291518b71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:19 +0000
Subject: [PATCH 16/17] fix: a dynamic call stack grew past its configured
 maximum

try_reserve grows the buffer amortised, so the capacity, which is what
bounds the stack, could exceed max_size (StackConfig::dynamic(1, 5)
allowed 8 frames). Reserve exactly the target capacity.
---
 crates/tinywasm/src/interpreter/stack/call_stack.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tinywasm/src/interpreter/stack/call_stack.rs b/crates/tinywasm/src/interpreter/stack/call_stack.rs
index 62f1f8e..cc3782e 100644
--- a/crates/tinywasm/src/interpreter/stack/call_stack.rs
+++ b/crates/tinywasm/src/interpreter/stack/call_stack.rs
@@ -56,7 +56,7 @@ impl CallStack {
         }
 
         let target_capacity = required_len.max(self.stack.capacity().max(1).saturating_mul(2)).min(self.max_size);
-        let Ok(()) = self.stack.try_reserve(target_capacity.saturating_sub(self.stack.len())) else {
+        let Ok(()) = self.stack.try_reserve_exact(target_capacity.saturating_sub(self.stack.len())) else {
             cold_path();
             return Err(Trap::CallStackOverflow);
         };
-- 
2.43.0


From da184f2fa24cd4a9f457d1da91661623ebd880bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:34 +0000
Subject: [PATCH 17/17] fix: a select of unknown operands in unreachable code
 made a valid module fail to parse

---
 crates/parser/src/visit.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/crates/parser/src/visit.rs b/crates/parser/src/visit.rs
index faa8679..eb7184f 100644
--- a/crates/parser/src/visit.rs
+++ b/crates/parser/src/visit.rs
@@ -435,9 +435,14 @@ impl<'a> wasmparser::VisitOperator<'a> for FunctionBuilder<'_> {
     }
 
     fn visit_select(&mut self) -> Self::Output {
-        let size = self.operand_stack.iter().rev().nth(1).copied().unwrap_or(OperandSize::S32);
+        self.pop_expect(OperandSize::S32)?;
+        if self.is_polymorphic() {
+            // both operands, and so the result, can have any size
+            return Ok(());
+        }
+        let size = self.operand_stack.last().copied().unwrap_or(OperandSize::S32);
         let instruction = size.choose(Instruction::Select32, Instruction::Select64, Instruction::Select128);
-        self.emit(&[size, size, OperandSize::S32], &[size], instruction)
+        self.emit(&[size, size], &[size], instruction)
     }
 
     fn visit_local_get(&mut self, idx: u32) -> Self::Output {
@@ -936,10 +941,15 @@ impl FunctionBuilder<'_> {
         Ok(())
     }
 
+    /// Whether the next operand is a polymorphic value: an unreachable frame has run out of operands.
+    fn is_polymorphic(&self) -> bool {
+        let frame_height = self.control_stack.last().map_or(0, |frame| frame.height);
+        self.operand_stack.len() == frame_height && self.is_unreachable()
+    }
+
     /// Pops an operand, allowing a polymorphic value at an unreachable frame base.
     fn pop_expect(&mut self, expected: OperandSize) -> Result<()> {
-        let frame_height = self.control_stack.last().map_or(0, |frame| frame.height);
-        if self.operand_stack.len() == frame_height && self.is_unreachable() {
+        if self.is_polymorphic() {
             return Ok(());
         }
         let actual = self
-- 
2.43.0

