From e8b4d5a38abb00d19f329a9618985374c9a04855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:37 +0000
Subject: [PATCH 01/32] fix: honour table initializer expressions instead of
 always filling tables with null

---
 crates/parser/src/module.rs        | 21 +++++++++++++++++----
 crates/tinywasm/src/instance.rs    |  7 ++++++-
 crates/tinywasm/src/store/mod.rs   | 22 +++++++++++++++++++---
 crates/tinywasm/src/store/table.rs |  1 +
 crates/types/src/archive.rs        |  2 +-
 crates/types/src/lib.rs            |  3 +++
 6 files changed, 47 insertions(+), 9 deletions(-)

diff --git a/crates/parser/src/module.rs b/crates/parser/src/module.rs
index 05811ec..bc85e45 100644
--- a/crates/parser/src/module.rs
+++ b/crates/parser/src/module.rs
@@ -52,6 +52,7 @@ pub(crate) struct ModuleReader<'a> {
     pub(crate) code: Vec<FunctionCode>,
     pub(crate) globals: Box<[Global]>,
     pub(crate) table_types: Box<[TableType]>,
+    pub(crate) table_inits: Box<[Option<Box<[ConstInstruction]>>]>,
     pub(crate) memory_types: Box<[MemoryType]>,
     pub(crate) imports: Box<[Import]>,
     pub(crate) data: Box<[Data]>,
@@ -128,18 +129,29 @@ impl<'a> ModuleReader<'a> {
                 if let Some(validator) = validator.as_mut() {
                     validator.table_section(&reader)?;
                 }
-                self.table_types = reader
+                let (table_types, table_inits): (Vec<_>, Vec<_>) = reader
                     .into_iter()
                     .map(|table| {
                         let table = table?;
                         let element_type = convert_reftype(table.ty.element_type)?;
-                        Ok(if table.ty.table64 {
+                        let ty = if table.ty.table64 {
                             TableType::new64(element_type, table.ty.initial, table.ty.maximum)
                         } else {
                             TableType::new(element_type, table.ty.initial, table.ty.maximum)
-                        })
+                        };
+                        let init = match table.init {
+                            wasmparser::TableInit::RefNull => None,
+                            wasmparser::TableInit::Expr(expr) => {
+                                Some(process_const_operators(expr.get_operators_reader())?)
+                            }
+                        };
+                        Ok((ty, init))
                     })
-                    .collect::<Result<_>>()?;
+                    .collect::<Result<Vec<_>>>()?
+                    .into_iter()
+                    .unzip();
+                self.table_types = table_types.into_boxed_slice();
+                self.table_inits = table_inits.into_boxed_slice();
             }
             Payload::MemorySection(reader) => {
                 check_section("memory", !self.memory_types.is_empty())?;
@@ -477,6 +489,7 @@ impl<'a> ModuleReader<'a> {
             func_type_idxs,
             globals: self.globals,
             table_types: self.table_types,
+            table_inits: self.table_inits,
             imports: self.imports,
             start_func: self.start_func,
             data: self.data,
diff --git a/crates/tinywasm/src/instance.rs b/crates/tinywasm/src/instance.rs
index 8cff310..d88a44b 100644
--- a/crates/tinywasm/src/instance.rs
+++ b/crates/tinywasm/src/instance.rs
@@ -172,7 +172,12 @@ impl ModuleInstance {
         let idx = store.next_module_instance_idx();
         let mut addrs = imports.unwrap_or_default().link(store, module)?;
         addrs.funcs.extend(store.init_funcs(&module.funcs, idx));
-        addrs.tables.extend(store.init_tables(&module.table_types)?);
+        addrs.tables.extend(store.init_tables(
+            &module.table_types,
+            &module.table_inits,
+            &addrs.globals,
+            &addrs.funcs,
+        )?);
         match module.local_memory_allocation {
             LocalMemoryAllocation::Skip => {
                 #[cfg(feature = "guest-debug")]
diff --git a/crates/tinywasm/src/store/mod.rs b/crates/tinywasm/src/store/mod.rs
index 61b09ef..36415a1 100644
--- a/crates/tinywasm/src/store/mod.rs
+++ b/crates/tinywasm/src/store/mod.rs
@@ -271,11 +271,27 @@ impl Store {
     }
 
     /// Add tables to the store, returning their addresses in the store
-    pub(crate) fn init_tables(&mut self, tables: &[TableType]) -> Result<impl ExactSizeIterator<Item = TableAddr>> {
+    pub(crate) fn init_tables(
+        &mut self,
+        tables: &[TableType],
+        inits: &[Option<Box<[ConstInstruction]>>],
+        global_addrs: &[Addr],
+        func_addrs: &[FuncAddr],
+    ) -> Result<core::ops::Range<TableAddr>> {
         let start = self.state.tables.len() as TableAddr;
         self.state.tables.reserve_exact(tables.len());
-        for &table in tables {
-            self.state.tables.push(TableInstance::new(table)?);
+        for (i, &table) in tables.iter().enumerate() {
+            let init = match inits.get(i).and_then(Option::as_ref) {
+                None => TableElement::Uninitialized,
+                Some(init) => match self.eval_const(init, global_addrs, func_addrs)? {
+                    TinyWasmValue::ValueRef(v) => TableElement::from(v.addr()),
+                    other => {
+                        cold_path();
+                        return Err(Error::Other(format!("expected ref type, got {other:?}")));
+                    }
+                },
+            };
+            self.state.tables.push(TableInstance::new_with_init(table, init)?);
         }
         Ok(start..start + tables.len() as TableAddr)
     }
diff --git a/crates/tinywasm/src/store/table.rs b/crates/tinywasm/src/store/table.rs
index d5f1019..059f5e1 100644
--- a/crates/tinywasm/src/store/table.rs
+++ b/crates/tinywasm/src/store/table.rs
@@ -15,6 +15,7 @@ pub(crate) struct TableInstance {
 }
 
 impl TableInstance {
+    #[cfg(test)]
     pub(crate) fn new(kind: TableType) -> Result<Self> {
         Self::new_with_init(kind, TableElement::Uninitialized)
     }
diff --git a/crates/types/src/archive.rs b/crates/types/src/archive.rs
index 48dc53f..3f00248 100644
--- a/crates/types/src/archive.rs
+++ b/crates/types/src/archive.rs
@@ -7,7 +7,7 @@ use crate::Module;
 #[rustfmt::skip]
 const TWASM_MAGIC: [u8; 16] = [ TWASM_MAGIC_PREFIX[0], TWASM_MAGIC_PREFIX[1], TWASM_MAGIC_PREFIX[2], TWASM_MAGIC_PREFIX[3], TWASM_VERSION[0], TWASM_VERSION[1], 0, 0, 0, 0, 0, 0, 0, 0, 0, 0];
 const TWASM_MAGIC_PREFIX: &[u8; 4] = b"TWAS";
-const TWASM_VERSION: &[u8; 2] = b"04";
+const TWASM_VERSION: &[u8; 2] = b"05";
 
 fn validate_magic(wasm: &[u8]) -> Result<usize, TwasmError> {
     if wasm.len() < TWASM_MAGIC.len() || &wasm[..TWASM_MAGIC_PREFIX.len()] != TWASM_MAGIC_PREFIX {
diff --git a/crates/types/src/lib.rs b/crates/types/src/lib.rs
index fcac23c..b4026d2 100644
--- a/crates/types/src/lib.rs
+++ b/crates/types/src/lib.rs
@@ -104,6 +104,9 @@ pub struct ModuleInner {
     /// Corresponds to the `table` section of the original WebAssembly module.
     pub table_types: Box<[TableType]>,
 
+    /// Initializer expressions of the module's tables, parallel to `table_types` (`None` means null).
+    pub table_inits: Box<[Option<Box<[ConstInstruction]>>]>,
+
     /// Memory components of the WebAssembly module used to initialize memories.
     ///
     /// Corresponds to the `memory` section of the original WebAssembly module.
-- 
2.43.0


From 6f28a3744acbdc4adb0ed65254fbef1ee3d28403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:34 +0000
Subject: [PATCH 02/32] fix: accept untyped select and drop of polymorphic
 operands in unreachable code

---
 crates/parser/src/visit.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/crates/parser/src/visit.rs b/crates/parser/src/visit.rs
index dae9ff2..e7f76a5 100644
--- a/crates/parser/src/visit.rs
+++ b/crates/parser/src/visit.rs
@@ -428,15 +428,20 @@ impl<'a> wasmparser::VisitOperator<'a> for FunctionBuilder<'_> {
     }
 
     fn visit_drop(&mut self) -> Self::Output {
-        let size = self.operand_stack.last().copied().unwrap_or(OperandSize::S32);
+        let size = self.top_operand().unwrap_or(OperandSize::S32);
         let instruction = size.choose(Instruction::Drop32, Instruction::Drop64, Instruction::Drop128);
         self.emit(&[size], &[], instruction)
     }
 
     fn visit_select(&mut self) -> Self::Output {
-        let size = self.operand_stack.iter().rev().nth(1).copied().unwrap_or(OperandSize::S32);
+        self.pop_expect(OperandSize::S32)?;
+        let Some(size) = self.top_operand() else {
+            // both operands are polymorphic, and so is the result
+            self.instructions.push(Instruction::Select32);
+            return Ok(());
+        };
         let instruction = size.choose(Instruction::Select32, Instruction::Select64, Instruction::Select128);
-        self.emit(&[size, size, OperandSize::S32], &[size], instruction)
+        self.emit(&[size, size], &[size], instruction)
     }
 
     fn visit_local_get(&mut self, idx: u32) -> Self::Output {
@@ -953,6 +958,12 @@ impl FunctionBuilder<'_> {
         Ok(())
     }
 
+    /// Returns the width of the top operand of the current frame, or `None` if it is polymorphic.
+    fn top_operand(&self) -> Option<OperandSize> {
+        let frame_height = self.control_stack.last().map_or(0, |frame| frame.height);
+        self.operand_stack.get(frame_height..).and_then(<[_]>::last).copied()
+    }
+
     /// Applies a declared logical stack effect in WebAssembly operand order.
     fn apply_effect(&mut self, inputs: &[OperandSize], outputs: &[OperandSize]) -> Result<()> {
         inputs.iter().rev().try_for_each(|&size| self.pop_expect(size))?;
-- 
2.43.0


From 845617534a729d2751ea4fc549b4d15fb31ac8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:34 +0000
Subject: [PATCH 03/32] fix: do not fuse local.tee with a local.get that
 precedes a branch target

---
 crates/parser/src/visit.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/parser/src/visit.rs b/crates/parser/src/visit.rs
index e7f76a5..97915ed 100644
--- a/crates/parser/src/visit.rs
+++ b/crates/parser/src/visit.rs
@@ -101,6 +101,8 @@ struct FunctionDataBuilder {
 
 pub(crate) struct FunctionBuilder<'a> {
     instructions: Vec<Instruction>,
+    /// Latest position that may be the target of a jump; earlier instructions cannot be fused with later ones.
+    label_ip: usize,
     data: FunctionDataBuilder,
     control_stack: Vec<ControlFrame>,
     operand_stack: Vec<OperandSize>,
@@ -123,6 +125,7 @@ impl<'a> FunctionBuilder<'a> {
             local_addr_map,
             metadata,
             instructions: Vec::with_capacity(body_size.min(1024)),
+            label_ip: 0,
             data: FunctionDataBuilder::default(),
             control_stack: alloc::vec![ControlFrame {
                 kind: BlockKind::Function,
@@ -467,7 +470,8 @@ impl<'a> wasmparser::VisitOperator<'a> for FunctionBuilder<'_> {
     fn visit_local_tee(&mut self, idx: u32) -> Self::Output {
         let (size, local_idx) = self.local(idx)?;
         self.apply_effect(&[size], &[size])?;
-        let src = match (size, self.instructions.last()) {
+        let last = self.instructions.get(self.label_ip..).and_then(<[_]>::last);
+        let src = match (size, last) {
             (OperandSize::S32, Some(Instruction::LocalGet32(src))) => Some(*src),
             (OperandSize::S64, Some(Instruction::LocalGet64(src))) => Some(*src),
             (OperandSize::S128, Some(Instruction::LocalGet128(src))) => Some(*src),
@@ -496,6 +500,7 @@ impl<'a> wasmparser::VisitOperator<'a> for FunctionBuilder<'_> {
     }
 
     fn visit_loop(&mut self, ty: wasmparser::BlockType) -> Self::Output {
+        self.label_ip = self.instructions.len();
         self.push_control(BlockKind::Loop, ty, None)
     }
 
@@ -539,6 +544,7 @@ impl<'a> wasmparser::VisitOperator<'a> for FunctionBuilder<'_> {
             if let Some(parent) = self.control_stack.last_mut() {
                 parent.unreachable = !reachable;
             }
+            self.label_ip = self.instructions.len();
             self.patch_end_jumps(ctx, self.instructions.len());
         }
         Ok(())
-- 
2.43.0


From f9de049e3c1742529eab36b8b76c020875743357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:42 +0000
Subject: [PATCH 04/32] fix: only rewrite shift pairs of the matching width to
 sign extensions

---
 crates/parser/src/optimize.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/parser/src/optimize.rs b/crates/parser/src/optimize.rs
index 80dfa0d..b346234 100644
--- a/crates/parser/src/optimize.rs
+++ b/crates/parser/src/optimize.rs
@@ -105,7 +105,7 @@ fn rewrite(
                 rewrite!(instrs, i, [LocalGet32(local), Const32(c)] => BinOpLocalConst32(op, local, c));
                 rewrite!(instrs, i, [GlobalGet(global)] => BinOpStackGlobal32(op, global));
                 if matches!(op, BinOp::IShrS) {
-                    rewrite!(instrs, i, [BinOpLocalConst32(BinOp::IShl, local, 8), Const32(8)] => [LocalGet32(local), I32Extend8S]);
+                    rewrite!(instrs, i, [BinOpLocalConst32(BinOp::IShl, local, 24), Const32(24)] => [LocalGet32(local), I32Extend8S]);
                     rewrite!(instrs, i, [BinOpLocalConst32(BinOp::IShl, local, 16), Const32(16)] => [LocalGet32(local), I32Extend16S]);
                 }
             }
@@ -126,8 +126,8 @@ fn rewrite(
                 rewrite!(instrs, i, [LocalGet64(local), Const64(c)] => BinOpLocalConst64(op, local, c));
                 rewrite!(instrs, i, [GlobalGet(global)] => BinOpStackGlobal64(op, global));
                 if matches!(op, BinOp::IShrS) {
-                    rewrite!(instrs, i, [BinOpLocalConst64(BinOp::IShl, local, 8), Const64(8)] => [LocalGet64(local), I64Extend8S]);
-                    rewrite!(instrs, i, [BinOpLocalConst64(BinOp::IShl, local, 16), Const64(16)] => [LocalGet64(local), I64Extend16S]);
+                    rewrite!(instrs, i, [BinOpLocalConst64(BinOp::IShl, local, 56), Const64(56)] => [LocalGet64(local), I64Extend8S]);
+                    rewrite!(instrs, i, [BinOpLocalConst64(BinOp::IShl, local, 48), Const64(48)] => [LocalGet64(local), I64Extend16S]);
                     rewrite!(instrs, i, [BinOpLocalConst64(BinOp::IShl, local, 32), Const64(32)] => [LocalGet64(local), I64Extend32S]);
                 }
             }
-- 
2.43.0


From 6608940446865389263013c13a845bf47879585f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:18 +0000
Subject: [PATCH 05/32] fix: use address-typed unsigned operands in
 memory.copy, memory.fill and memory.init

---
 crates/parser/src/visit.rs                  |  6 +-
 crates/tinywasm/src/interpreter/executor.rs | 62 +++++++++++++--------
 2 files changed, 41 insertions(+), 27 deletions(-)

diff --git a/crates/parser/src/visit.rs b/crates/parser/src/visit.rs
index 97915ed..fb94765 100644
--- a/crates/parser/src/visit.rs
+++ b/crates/parser/src/visit.rs
@@ -378,10 +378,8 @@ impl<'a> wasmparser::VisitOperator<'a> for FunctionBuilder<'_> {
         global [] => [Addr] { visit_global_get(global_index: u32) => GlobalGet }
         memory_index [] => [Addr] { visit_memory_size(memory: u32) => MemorySize }
         memory_index [Addr] => [Addr] { visit_memory_grow(memory: u32) => MemoryGrow }
-        memory_index [Addr, S32, Addr] => [] {
-            visit_memory_init(data_index: u32, memory: u32) => MemoryInit,
-            visit_memory_fill(memory: u32) => MemoryFill,
-        }
+        memory_index [Addr, S32, S32] => [] { visit_memory_init(data_index: u32, memory: u32) => MemoryInit }
+        memory_index [Addr, S32, Addr] => [] { visit_memory_fill(memory: u32) => MemoryFill }
         table [Addr] => [S32] { visit_table_get(table: u32) => TableGet }
         table [Addr, S32] => [] { visit_table_set(table: u32) => TableSet }
         table [] => [Addr] { visit_table_size(table: u32) => TableSize }
diff --git a/crates/tinywasm/src/interpreter/executor.rs b/crates/tinywasm/src/interpreter/executor.rs
index 739c136..f21f739 100644
--- a/crates/tinywasm/src/interpreter/executor.rs
+++ b/crates/tinywasm/src/interpreter/executor.rs
@@ -1291,43 +1291,48 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
     }
 
     fn exec_memory_copy(&mut self, dst_mem: u32, src_mem: u32) -> Result<(), Trap> {
-        let size = i32::stack_pop(&mut self.store.value_stack);
-        let src = i32::stack_pop(&mut self.store.value_stack);
-        let dst = i32::stack_pop(&mut self.store.value_stack);
         let dst_mem_addr = self.module.resolve_mem_addr(dst_mem);
+        let src_mem_addr = self.module.resolve_mem_addr(src_mem);
+        let dst_arch = self.store.state.get_mem(dst_mem_addr).kind.arch();
+        let src_arch = self.store.state.get_mem(src_mem_addr).kind.arch();
+        let len_arch =
+            if dst_arch == MemoryArch::I32 || src_arch == MemoryArch::I32 { MemoryArch::I32 } else { MemoryArch::I64 };
+        let size = self.pop_memory_operand(len_arch)?;
+        let src = self.pop_memory_operand(src_arch)?;
+        let dst = self.pop_memory_operand(dst_arch)?;
 
-        if dst_mem == src_mem {
+        if dst_mem_addr == src_mem_addr {
             // copy within the same memory
             let mem = self.store.state.get_mem_mut(dst_mem_addr);
-            mem.copy_within(dst as usize, src as usize, size as usize)?;
+            mem.copy_within(dst, src, size)?;
         } else {
             // copy between two memories
-            let src_mem_addr = self.module.resolve_mem_addr(src_mem);
             let (dst_memory, src_memory) = self.store.state.get_mems_mut(dst_mem_addr, src_mem_addr);
-            dst_memory.copy_from_memory(dst as usize, src_memory, src as usize, size as usize)?;
+            dst_memory.copy_from_memory(dst, src_memory, src, size)?;
         }
         Ok(())
     }
 
     fn exec_memory_fill(&mut self, addr: u32) -> Result<(), Trap> {
-        let size = i32::stack_pop(&mut self.store.value_stack);
+        let arch = self.store.state.get_mem(self.module.resolve_mem_addr(addr)).kind.arch();
+        let size = self.pop_memory_operand(arch)?;
         let val = i32::stack_pop(&mut self.store.value_stack);
-        let dst = i32::stack_pop(&mut self.store.value_stack);
+        let dst = self.pop_memory_operand(arch)?;
         self.exec_memory_fill_impl(addr, dst, val as u8, size)
     }
 
     fn exec_memory_fill_imm(&mut self, addr: u32, val: u8, size: i32) -> Result<(), Trap> {
-        let dst = i32::stack_pop(&mut self.store.value_stack);
-        self.exec_memory_fill_impl(addr, dst, val, size)
+        let dst = self.pop_memory_operand(MemoryArch::I32)?;
+        self.exec_memory_fill_impl(addr, dst, val, size as u32 as usize)
     }
 
-    fn exec_memory_fill_impl(&mut self, addr: u32, dst: i32, val: u8, size: i32) -> Result<(), Trap> {
+    fn exec_memory_fill_impl(&mut self, addr: u32, dst: usize, val: u8, size: usize) -> Result<(), Trap> {
         let mem = self.store.state.get_mem_mut(self.module.resolve_mem_addr(addr));
-        if mem.inner.fill(dst as usize, size as usize, val).is_none() {
+        if mem.inner.fill(dst, size, val).is_none() {
             cold_path();
             return Err(Trap::MemoryOutOfBounds {
-                offset: dst as usize,
-                len: size as usize,
+                offset: dst,
+                len: size,
                 max: self.store.state.get_mem(self.module.resolve_mem_addr(addr)).inner.len(),
             });
         }
@@ -1335,16 +1340,19 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
     }
 
     fn exec_memory_init(&mut self, data_index: u32, mem_index: u32) -> Result<(), Trap> {
-        let size = i32::stack_pop(&mut self.store.value_stack);
-        let offset = i32::stack_pop(&mut self.store.value_stack);
-        let dst = i32::stack_pop(&mut self.store.value_stack);
+        let mem_addr = self.module.resolve_mem_addr(mem_index);
+        let size = self.pop_memory_operand(MemoryArch::I32)?;
+        let offset = self.pop_memory_operand(MemoryArch::I32)?;
+        let dst = self.pop_memory_operand(self.store.state.get_mem(mem_addr).kind.arch())?;
 
         let data = &self.store.state.data[self.module.resolve_data_addr(data_index) as usize];
-        let mem = &mut self.store.state.memories[self.module.resolve_mem_addr(mem_index) as usize];
+        let mem = &mut self.store.state.memories[mem_addr as usize];
         let data_len = data.data.as_ref().map_or(0, |d| d.len());
-        if ((size + offset) as usize > data_len) || ((dst + size) as usize > mem.inner.len()) {
+        if offset.checked_add(size).is_none_or(|end| end > data_len)
+            || dst.checked_add(size).is_none_or(|end| end > mem.inner.len())
+        {
             cold_path();
-            return Err(Trap::MemoryOutOfBounds { offset: offset as usize, len: size as usize, max: data_len });
+            return Err(Trap::MemoryOutOfBounds { offset, len: size, max: data_len });
         }
 
         if size == 0 {
@@ -1356,13 +1364,21 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
             return Err(Trap::MemoryOutOfBounds { offset: 0, len: 0, max: 0 });
         };
 
-        if mem.inner.write_all(dst as usize, &data[offset as usize..((offset + size) as usize)]).is_none() {
+        if mem.inner.write_all(dst, &data[offset..offset + size]).is_none() {
             cold_path();
-            return Err(Trap::MemoryOutOfBounds { offset: dst as usize, len: size as usize, max: mem.inner.len() });
+            return Err(Trap::MemoryOutOfBounds { offset: dst, len: size, max: mem.inner.len() });
         }
         Ok(())
     }
 
+    fn pop_memory_operand(&mut self, arch: MemoryArch) -> Result<usize, Trap> {
+        let value = match arch {
+            MemoryArch::I32 => <i32>::stack_pop(&mut self.store.value_stack) as u32 as u64,
+            MemoryArch::I64 => <i64>::stack_pop(&mut self.store.value_stack) as u64,
+        };
+        usize::try_from(value).map_err(|_| Trap::MemoryOutOfBounds { offset: usize::MAX, len: 1, max: usize::MAX })
+    }
+
     fn exec_table_copy(&mut self, dst_table: u32, src_table: u32) -> Result<(), Trap> {
         let dst_table_addr = self.module.resolve_table_addr(dst_table);
         let src_table_addr = self.module.resolve_table_addr(src_table);
-- 
2.43.0


From 3fe1c5652ee2d98b014a9afda5ab9621a749caab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:23 +0000
Subject: [PATCH 06/32] fix: store the given function reference in table.fill
 instead of resolving it again

---
 crates/tinywasm/src/instance.rs             |  5 -----
 crates/tinywasm/src/interpreter/executor.rs |  2 +-
 crates/tinywasm/src/store/table.rs          | 20 +-------------------
 3 files changed, 2 insertions(+), 25 deletions(-)

diff --git a/crates/tinywasm/src/instance.rs b/crates/tinywasm/src/instance.rs
index d88a44b..75ccdfd 100644
--- a/crates/tinywasm/src/instance.rs
+++ b/crates/tinywasm/src/instance.rs
@@ -77,11 +77,6 @@ impl ModuleInstance {
         *self.0.func_type_idxs.get(addr as usize).unwrap_or_else(|| unreachable!("invalid function address: {addr}"))
     }
 
-    #[inline]
-    pub(crate) fn func_addrs(&self) -> &[FuncAddr] {
-        &self.0.func_addrs
-    }
-
     /// resolve a function address to the global store address
     #[inline]
     pub(crate) fn resolve_func_addr(&self, addr: FuncAddr) -> FuncAddr {
diff --git a/crates/tinywasm/src/interpreter/executor.rs b/crates/tinywasm/src/interpreter/executor.rs
index f21f739..9d1d806 100644
--- a/crates/tinywasm/src/interpreter/executor.rs
+++ b/crates/tinywasm/src/interpreter/executor.rs
@@ -1549,7 +1549,7 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
         let n = self.pop_table_operand(arch)?;
         let val = <ValueRef>::stack_pop(&mut self.store.value_stack);
         let i = self.pop_table_operand(arch)?;
-        self.store.state.get_table_mut(table_addr).fill(self.module.func_addrs(), i, n, val.addr().into())
+        self.store.state.get_table_mut(table_addr).fill(i, n, val.addr().into())
     }
 
     fn pop_table_operand(&mut self, arch: MemoryArch) -> Result<usize, Trap> {
diff --git a/crates/tinywasm/src/store/table.rs b/crates/tinywasm/src/store/table.rs
index 059f5e1..7718f85 100644
--- a/crates/tinywasm/src/store/table.rs
+++ b/crates/tinywasm/src/store/table.rs
@@ -55,8 +55,7 @@ impl TableInstance {
         })
     }
 
-    pub(crate) fn fill(&mut self, func_addrs: &[u32], addr: usize, len: usize, val: TableElement) -> Result<(), Trap> {
-        let val = val.map(|addr| self.resolve_func_ref(func_addrs, addr));
+    pub(crate) fn fill(&mut self, addr: usize, len: usize, val: TableElement) -> Result<(), Trap> {
         let range = self.checked_range(addr, len)?;
         self.elements[range].fill(val);
         Ok(())
@@ -106,16 +105,6 @@ impl TableInstance {
         self.elements.len()
     }
 
-    fn resolve_func_ref(&self, func_addrs: &[u32], addr: Addr) -> Addr {
-        if self.kind.element_type != WasmType::RefFunc {
-            return addr;
-        }
-
-        *func_addrs
-            .get(addr as usize)
-            .expect("error initializing table: function not found. This should have been caught by the validator")
-    }
-
     pub(crate) fn init(&mut self, offset: usize, init: &[TableElement]) -> Result<(), Trap> {
         let range = self.checked_range(offset, init.len())?;
         self.elements[range].copy_from_slice(init);
@@ -146,13 +135,6 @@ impl TableElement {
             Self::Initialized(addr) => Some(*addr),
         }
     }
-
-    pub(crate) fn map(self, f: impl FnOnce(Addr) -> Addr) -> Self {
-        match self {
-            Self::Uninitialized => Self::Uninitialized,
-            Self::Initialized(addr) => Self::Initialized(f(addr)),
-        }
-    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From d5a6f63da2f892e4efc8e1c7258aa5858628e5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:28 +0000
Subject: [PATCH 07/32] fix: return from the caller after a tail call to a host
 function

---
 crates/tinywasm/src/interpreter/executor.rs | 32 +++++++++++++++------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/crates/tinywasm/src/interpreter/executor.rs b/crates/tinywasm/src/interpreter/executor.rs
index 9d1d806..f1447a9 100644
--- a/crates/tinywasm/src/interpreter/executor.rs
+++ b/crates/tinywasm/src/interpreter/executor.rs
@@ -225,9 +225,12 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
             Call(v) => { self.exec_call_direct(*v)?; return Ok(None); }
             CallSelf => { self.exec_call_self()?; return Ok(None); }
             CallIndirect(ty, table) => { self.exec_call_indirect::<false>(*ty, *table)?; return Ok(None); }
-            ReturnCall(v) => { self.exec_return_call_direct(*v)?; return Ok(None); }
+            ReturnCall(v) => { if self.exec_return_call_direct(*v)? { return Ok(Some(())); } return Ok(None); }
             ReturnCallSelf => { self.exec_return_call_self()?; return Ok(None); }
-            ReturnCallIndirect(ty, table) => { self.exec_call_indirect::<true>(*ty, *table)?; return Ok(None); }
+            ReturnCallIndirect(ty, table) => {
+                if self.exec_call_indirect::<true>(*ty, *table)? { return Ok(Some(())); }
+                return Ok(None);
+            }
             Jump(ip) => { self.cf.instr_ptr = *ip as usize; return Ok(None); }
             JumpIfZero32(ip) => if self.exec_jump_zero_32(*ip) { return Ok(None) },
             JumpIfNonZero32(ip) => if self.exec_jump_non_zero_32(*ip) { return Ok(None) },
@@ -985,12 +988,16 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
         }
     }
 
-    fn exec_return_call_direct(&mut self, v: u32) -> Result<(), Trap> {
+    /// Returns whether the outermost function returned.
+    fn exec_return_call_direct(&mut self, v: u32) -> Result<bool, Trap> {
         self.charge_call_fuel(FUEL_COST_CALL_TOTAL);
         let addr = self.module.resolve_func_addr(v);
         match self.store.state.get_func(addr) {
-            crate::FunctionInstance::Wasm(wasm_func) => self.exec_return_call(wasm_func.clone(), addr),
-            crate::FunctionInstance::Host(host_func) => self.exec_call_host(host_func.clone()),
+            crate::FunctionInstance::Wasm(wasm_func) => self.exec_return_call(wasm_func.clone(), addr).map(|()| false),
+            crate::FunctionInstance::Host(host_func) => {
+                self.exec_call_host(host_func.clone())?;
+                Ok(self.exec_return())
+            }
         }
     }
 
@@ -1019,7 +1026,12 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
         Ok(())
     }
 
-    fn exec_call_indirect<const IS_RETURN_CALL: bool>(&mut self, type_addr: u32, table_addr: u32) -> Result<(), Trap> {
+    /// Returns whether the outermost function returned, which only a return call can cause.
+    fn exec_call_indirect<const IS_RETURN_CALL: bool>(
+        &mut self,
+        type_addr: u32,
+        table_addr: u32,
+    ) -> Result<bool, Trap> {
         self.charge_call_fuel(FUEL_COST_CALL_TOTAL);
 
         // verify that the table is of the right type, this should be validated by the parser already
@@ -1050,9 +1062,10 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
                 }
 
                 match IS_RETURN_CALL {
-                    true => self.exec_return_call(wasm_func.clone(), func_ref),
-                    false => self.exec_call(wasm_func.clone(), func_ref),
+                    true => self.exec_return_call(wasm_func.clone(), func_ref)?,
+                    false => self.exec_call(wasm_func.clone(), func_ref)?,
                 }
+                Ok(false)
             }
             crate::FunctionInstance::Host(host_func) => {
                 if host_func.ty != *call_ty {
@@ -1063,7 +1076,8 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
                     });
                 }
 
-                self.exec_call_host(host_func.clone())
+                self.exec_call_host(host_func.clone())?;
+                Ok(IS_RETURN_CALL && self.exec_return())
             }
         }
     }
-- 
2.43.0


From f215e6ea7d6e5e3e02c1f1cf6d2a11b9452be455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:19 +0000
Subject: [PATCH 08/32] fix: initialize reference-typed locals to null

---
 crates/parser/src/conversion.rs | 11 +++++++++--
 crates/parser/src/visit.rs      | 26 ++++++++++++++++++--------
 2 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/crates/parser/src/conversion.rs b/crates/parser/src/conversion.rs
index 586cac5..978f00b 100644
--- a/crates/parser/src/conversion.rs
+++ b/crates/parser/src/conversion.rs
@@ -1,6 +1,7 @@
 use alloc::sync::Arc;
 
-use crate::{Result, module::FunctionCode, visit::process_operators_and_validate};
+use crate::visit::{FunctionLocals, process_operators_and_validate};
+use crate::{Result, module::FunctionCode};
 use alloc::{boxed::Box, format, string::ToString, vec::Vec};
 use tinywasm_types::*;
 use wasmparser::{
@@ -129,6 +130,7 @@ pub(crate) fn convert_module_code(
     let pos = locals_reader.original_position();
     let signature = metadata.signature(ty_idx)?.clone();
     let mut local_types = signature.params.clone();
+    let mut ref_locals = Vec::new();
 
     for (i, local) in locals_reader.into_iter().enumerate() {
         let local = local?;
@@ -138,6 +140,9 @@ pub(crate) fn convert_module_code(
         let size = crate::visit::OperandSize::from(local.1);
         let count = usize::try_from(local.0)
             .map_err(|_| crate::ParseError::Other("local declaration count is too large".into()))?;
+        if local.1.is_reference_type() {
+            ref_locals.extend(local_types.len()..local_types.len() + count);
+        }
         local_types.reserve(count);
         local_types.extend(core::iter::repeat_n(size, count));
     }
@@ -156,8 +161,10 @@ pub(crate) fn convert_module_code(
         *count = count.checked_add(1).ok_or_else(|| crate::ParseError::Other(error.into()))?;
     }
 
+    let null_locals = ref_locals.into_iter().map(|idx| local_addr_map[idx]).collect();
+    let locals = FunctionLocals { types: local_types, addrs: local_addr_map, null_locals };
     let (body, data, validator_allocs, reader_allocs) =
-        process_operators_and_validate(validator, func, local_types, local_addr_map, metadata, ty_idx, reader_allocs)?;
+        process_operators_and_validate(validator, func, locals, metadata, ty_idx, reader_allocs)?;
     Ok((
         FunctionCode { instructions: body, data, locals: local_counts, uses_local_memory: false },
         validator_allocs,
diff --git a/crates/parser/src/visit.rs b/crates/parser/src/visit.rs
index fb94765..662f5d1 100644
--- a/crates/parser/src/visit.rs
+++ b/crates/parser/src/visit.rs
@@ -93,6 +93,14 @@ pub(crate) struct ModuleMetadata {
     tables: Vec<OperandSize>,
 }
 
+/// Locals of a function, including its parameters.
+pub(crate) struct FunctionLocals {
+    pub types: Vec<OperandSize>,
+    pub addrs: Vec<u16>,
+    /// Addresses of reference-typed locals, which start out as null instead of zero.
+    pub null_locals: Vec<u16>,
+}
+
 #[derive(Default)]
 struct FunctionDataBuilder {
     v128_constants: Vec<[u8; 16]>,
@@ -116,15 +124,18 @@ impl<'a> FunctionBuilder<'a> {
     pub(crate) fn new(
         metadata: &'a ModuleMetadata,
         signature: Signature,
-        local_types: Vec<OperandSize>,
-        local_addr_map: Vec<u16>,
+        locals: FunctionLocals,
         body_size: usize,
     ) -> Self {
+        let mut instructions = Vec::with_capacity(body_size.min(1024));
+        for addr in locals.null_locals {
+            instructions.extend([Instruction::RefNull(WasmType::RefFunc), Instruction::LocalSet32(addr)]);
+        }
         Self {
-            local_types,
-            local_addr_map,
+            local_types: locals.types,
+            local_addr_map: locals.addrs,
             metadata,
-            instructions: Vec::with_capacity(body_size.min(1024)),
+            instructions,
             label_ip: 0,
             data: FunctionDataBuilder::default(),
             control_stack: alloc::vec![ControlFrame {
@@ -241,8 +252,7 @@ impl VisitSimdOperator<'_> for ValidateThenVisit<'_, '_> {
 pub(crate) fn process_operators_and_validate(
     mut validator: Option<FuncValidator<ValidatorResources>>,
     body: FunctionBody<'_>,
-    local_types: Vec<OperandSize>,
-    local_addr_map: Vec<u16>,
+    locals: FunctionLocals,
     metadata: &ModuleMetadata,
     ty_idx: u32,
     allocs: OperatorsReaderAllocations,
@@ -251,7 +261,7 @@ pub(crate) fn process_operators_and_validate(
     let reader = body.get_binary_reader_for_operators()?;
     let mut reader = OperatorsReader::new_with_allocs(reader, allocs);
     let signature = metadata.signature(ty_idx)?.clone();
-    let mut builder = FunctionBuilder::new(metadata, signature, local_types, local_addr_map, body_size);
+    let mut builder = FunctionBuilder::new(metadata, signature, locals, body_size);
 
     while !reader.eof() {
         let position = reader.original_position();
-- 
2.43.0


From 6ac253b0dc7ba1fdfec8c16a40f82e9b02fb251f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:45 +0000
Subject: [PATCH 09/32] fix: report failed lazy memory allocations instead of
 panicking

---
 crates/tinywasm/src/store/memory/lazy.rs | 25 ++++++++++--------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/crates/tinywasm/src/store/memory/lazy.rs b/crates/tinywasm/src/store/memory/lazy.rs
index ef6dace..eecdc38 100644
--- a/crates/tinywasm/src/store/memory/lazy.rs
+++ b/crates/tinywasm/src/store/memory/lazy.rs
@@ -30,15 +30,7 @@ impl LazyLinearMemory {
         Self { ty, initial_len, backend, inner: None }
     }
 
-    fn materialize(&mut self) -> &mut dyn LinearMemory {
-        if self.inner.is_none() {
-            self.inner =
-                Some(self.backend.create(self.ty, self.initial_len).expect("lazy memory materialization failed"));
-        }
-        self.inner.as_deref_mut().expect("lazy memory should be materialized")
-    }
-
-    fn try_materialize(&mut self) -> core::result::Result<&mut dyn LinearMemory, crate::Trap> {
+    fn materialize(&mut self) -> core::result::Result<&mut dyn LinearMemory, crate::Trap> {
         if self.inner.is_none() {
             let storage = match self.backend.create(self.ty, self.initial_len) {
                 Ok(storage) => storage,
@@ -46,7 +38,10 @@ impl LazyLinearMemory {
                     cold_path();
                     return Err(trap);
                 }
-                Err(err) => panic!("lazy memory materialization failed: {err}"),
+                Err(_) => {
+                    cold_path();
+                    return Err(crate::Trap::OutOfMemory);
+                }
             };
             self.inner = Some(storage);
         }
@@ -60,7 +55,7 @@ impl LinearMemory for LazyLinearMemory {
     }
 
     fn grow_to(&mut self, new_len: usize) -> Result<(), crate::Trap> {
-        self.try_materialize()?.grow_to(new_len)
+        self.materialize()?.grow_to(new_len)
     }
 
     fn read(&self, addr: usize, dst: &mut [u8]) -> usize {
@@ -79,7 +74,7 @@ impl LinearMemory for LazyLinearMemory {
         if src.is_empty() || addr >= self.len() {
             return 0;
         }
-        self.materialize().write(addr, src)
+        self.materialize().map_or(0, |inner| inner.write(addr, src))
     }
 
     fn write_all(&mut self, addr: usize, src: &[u8]) -> Option<()> {
@@ -90,7 +85,7 @@ impl LinearMemory for LazyLinearMemory {
         if src.is_empty() {
             return Some(());
         }
-        self.materialize().write_all(addr, src)
+        self.materialize().ok()?.write_all(addr, src)
     }
 
     fn fill(&mut self, addr: usize, len: usize, val: u8) -> Option<()> {
@@ -101,7 +96,7 @@ impl LinearMemory for LazyLinearMemory {
         if len == 0 || val == 0 && self.inner.is_none() {
             return Some(());
         }
-        self.materialize().fill(addr, len, val)
+        self.materialize().ok()?.fill(addr, len, val)
     }
 
     fn copy_within(&mut self, dst: usize, src: usize, len: usize) -> Option<()> {
@@ -113,7 +108,7 @@ impl LinearMemory for LazyLinearMemory {
         if self.inner.is_none() || len == 0 || dst == src {
             return Some(());
         }
-        self.materialize().copy_within(dst, src, len)
+        self.materialize().ok()?.copy_within(dst, src, len)
     }
 }
 
-- 
2.43.0


From c5d7731451f1e5c209bf760a39d7daba8ebe8d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:45 +0000
Subject: [PATCH 10/32] fix: reject oversized memory types instead of panicking

---
 crates/tinywasm/src/store/memory/instance.rs | 19 +++++++++++--------
 crates/types/src/lib.rs                      |  4 ++--
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/crates/tinywasm/src/store/memory/instance.rs b/crates/tinywasm/src/store/memory/instance.rs
index be0f3b4..3b6911b 100644
--- a/crates/tinywasm/src/store/memory/instance.rs
+++ b/crates/tinywasm/src/store/memory/instance.rs
@@ -56,11 +56,17 @@ impl MemoryInstance {
         }
     }
 
-    pub(crate) fn new(kind: MemoryType, backend: &MemoryBackend) -> Result<Self> {
-        assert!(kind.page_count_initial() <= kind.page_count_max());
+    fn initial_len(kind: MemoryType) -> Result<usize> {
+        if kind.page_count_initial() > kind.page_count_max() {
+            cold_path();
+            return Err(Error::UnsupportedFeature("initial memory size exceeds the maximum memory size"));
+        }
+        usize::try_from(kind.initial_size())
+            .map_err(|_| Error::UnsupportedFeature("memory size exceeds the host address space"))
+    }
 
-        let initial_len = usize::try_from(kind.initial_size())
-            .map_err(|_| Error::UnsupportedFeature("memory size exceeds the host address space"))?;
+    pub(crate) fn new(kind: MemoryType, backend: &MemoryBackend) -> Result<Self> {
+        let initial_len = Self::initial_len(kind)?;
 
         crate::log::debug!(
             "initializing memory with {} pages of {} bytes",
@@ -80,10 +86,7 @@ impl MemoryInstance {
     }
 
     pub(crate) fn new_lazy(kind: MemoryType, backend: &MemoryBackend) -> Result<Self> {
-        assert!(kind.page_count_initial() <= kind.page_count_max());
-
-        let initial_len = usize::try_from(kind.initial_size())
-            .map_err(|_| Error::UnsupportedFeature("memory size exceeds the host address space"))?;
+        let initial_len = Self::initial_len(kind)?;
 
         crate::log::debug!(
             "initializing lazy memory with {} pages of {} bytes",
diff --git a/crates/types/src/lib.rs b/crates/types/src/lib.rs
index b4026d2..a915788 100644
--- a/crates/types/src/lib.rs
+++ b/crates/types/src/lib.rs
@@ -577,12 +577,12 @@ impl MemoryType {
 
     #[inline]
     pub const fn initial_size(&self) -> u64 {
-        self.page_count_initial * self.page_size()
+        self.page_count_initial.saturating_mul(self.page_size())
     }
 
     #[inline]
     pub const fn max_size(&self) -> u64 {
-        self.page_count_max() * self.page_size()
+        self.page_count_max().saturating_mul(self.page_size())
     }
 
     /// Set a different memory architecture.
-- 
2.43.0


From 7cdba0be2a2b8dd23fa76712a461bb179c281f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:41 +0000
Subject: [PATCH 11/32] fix: canonicalize NaN results of scalar float
 operations

---
 crates/tinywasm/src/interpreter/executor.rs   | 52 +++++++++----------
 .../tinywasm/src/interpreter/num_helpers.rs   | 11 ++++
 2 files changed, 37 insertions(+), 26 deletions(-)

diff --git a/crates/tinywasm/src/interpreter/executor.rs b/crates/tinywasm/src/interpreter/executor.rs
index f1447a9..b4e0133 100644
--- a/crates/tinywasm/src/interpreter/executor.rs
+++ b/crates/tinywasm/src/interpreter/executor.rs
@@ -145,10 +145,10 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
                     BinOp::IShrU => $lhs.wrapping_shr($rhs as u32),
                     BinOp::IRotl => (($lhs as $signed).rotate_left($rhs as u32)) as $unsigned,
                     BinOp::IRotr => (($lhs as $signed).rotate_right($rhs as u32)) as $unsigned,
-                    BinOp::FAdd => (<$float>::from_bits($lhs) + <$float>::from_bits($rhs)).to_bits(),
-                    BinOp::FSub => (<$float>::from_bits($lhs) - <$float>::from_bits($rhs)).to_bits(),
-                    BinOp::FMul => (<$float>::from_bits($lhs) * <$float>::from_bits($rhs)).to_bits(),
-                    BinOp::FDiv => (<$float>::from_bits($lhs) / <$float>::from_bits($rhs)).to_bits(),
+                    BinOp::FAdd => (<$float>::from_bits($lhs) + <$float>::from_bits($rhs)).tw_canonicalize().to_bits(),
+                    BinOp::FSub => (<$float>::from_bits($lhs) - <$float>::from_bits($rhs)).tw_canonicalize().to_bits(),
+                    BinOp::FMul => (<$float>::from_bits($lhs) * <$float>::from_bits($rhs)).tw_canonicalize().to_bits(),
+                    BinOp::FDiv => (<$float>::from_bits($lhs) / <$float>::from_bits($rhs)).tw_canonicalize().to_bits(),
                     BinOp::FMin => <$float>::from_bits($lhs).tw_minimum(<$float>::from_bits($rhs)).to_bits(),
                     BinOp::FMax => <$float>::from_bits($lhs).tw_maximum(<$float>::from_bits($rhs)).to_bits(),
                     BinOp::FCopysign => <$float>::from_bits($lhs).copysign(<$float>::from_bits($rhs)).to_bits(),
@@ -270,8 +270,8 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
             I64Add3 => stack_op!(ternary i64, |a, b, c| a.wrapping_add(b).wrapping_add(c)),
             MulAccLocal32(acc) => self.exec_binop_acc_local::<i32, _, _>(*acc, |a, b| a.wrapping_mul(b), |a, b| a.wrapping_add(b)),
             MulAccLocal64(acc) => self.exec_binop_acc_local::<i64, _, _>(*acc, |a, b| a.wrapping_mul(b), |a, b| a.wrapping_add(b)),
-            FMulAccLocal32(acc) => self.exec_binop_acc_local::<f32, _, _>(*acc, |a, b| a * b, |a, b| a + b),
-            FMulAccLocal64(acc) => self.exec_binop_acc_local::<f64, _, _>(*acc, |a, b| a * b, |a, b| a + b),
+            FMulAccLocal32(acc) => self.exec_binop_acc_local::<f32, _, _>(*acc, |a, b| a * b, |a, b| (a + b).tw_canonicalize()),
+            FMulAccLocal64(acc) => self.exec_binop_acc_local::<f64, _, _>(*acc, |a, b| a * b, |a, b| (a + b).tw_canonicalize()),
             BinOpLocalLocal32(op, a, b) => binop!(local_local Value32, 32, op, a, b),
             BinOpLocalLocal64(op, a, b) => binop!(local_local Value64, 64, op, a, b),
             BinOpLocalLocal128(op, a, b) => binop!(local_local Value128, 128, op, a, b),
@@ -379,18 +379,18 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
             F64Gt => stack_op!(binary f64 => i32, |a, b| i32::from(a > b)),
             I32Add => stack_op!(binary i32, |a, b| a.wrapping_add(b)),
             I64Add => stack_op!(binary i64, |a, b| a.wrapping_add(b)),
-            F32Add => stack_op!(binary f32, |a, b| a + b),
-            F64Add => stack_op!(binary f64, |a, b| a + b),
+            F32Add => stack_op!(binary f32, |a, b| (a + b).tw_canonicalize()),
+            F64Add => stack_op!(binary f64, |a, b| (a + b).tw_canonicalize()),
             I32Sub => stack_op!(binary i32, |a, b| a.wrapping_sub(b)),
             I64Sub => stack_op!(binary i64, |a, b| a.wrapping_sub(b)),
-            F32Sub => stack_op!(binary f32, |a, b| a - b),
-            F64Sub => stack_op!(binary f64, |a, b| a - b),
-            F32Div => stack_op!(binary f32, |a, b| a / b),
-            F64Div => stack_op!(binary f64, |a, b| a / b),
+            F32Sub => stack_op!(binary f32, |a, b| (a - b).tw_canonicalize()),
+            F64Sub => stack_op!(binary f64, |a, b| (a - b).tw_canonicalize()),
+            F32Div => stack_op!(binary f32, |a, b| (a / b).tw_canonicalize()),
+            F64Div => stack_op!(binary f64, |a, b| (a / b).tw_canonicalize()),
             I32Mul => stack_op!(binary i32, |a, b| a.wrapping_mul(b)),
             I64Mul => stack_op!(binary i64, |a, b| a.wrapping_mul(b)),
-            F32Mul => stack_op!(binary f32, |a, b| a * b),
-            F64Mul => stack_op!(binary f64, |a, b| a * b),
+            F32Mul => stack_op!(binary f32, |a, b| (a * b).tw_canonicalize()),
+            F64Mul => stack_op!(binary f64, |a, b| (a * b).tw_canonicalize()),
             I32DivS => stack_op!(binary try i32, |a, b| a.tw_checked_div(b)),
             I64DivS => stack_op!(binary try i64, |a, b| a.tw_checked_div(b)),
             I32DivU => stack_op!(binary try u32, |a, b| a.checked_div(b).ok_or(Trap::DivisionByZero)),
@@ -512,22 +512,22 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
             I64ExtendI32U => stack_op!(unary u32 => i64, |v| i64::from(v)),
             I64ExtendI32S => stack_op!(unary i32 => i64, |v| i64::from(v)),
             I32WrapI64 => stack_op!(unary i64 => i32, |v| v as i32),
-            F32DemoteF64 => stack_op!(unary f64 => f32, |v| v as f32),
-            F64PromoteF32 => stack_op!(unary f32 => f64, |v| f64::from(v)),
+            F32DemoteF64 => stack_op!(unary f64 => f32, |v| (v as f32).tw_canonicalize()),
+            F64PromoteF32 => stack_op!(unary f32 => f64, |v| f64::from(v).tw_canonicalize()),
             F32Abs => stack_op!(unary f32, |v| v.abs()),
             F64Abs => stack_op!(unary f64, |v| v.abs()),
             F32Neg => stack_op!(unary f32, |v| -v),
             F64Neg => stack_op!(unary f64, |v| -v),
-            F32Ceil => stack_op!(unary f32, |v| v.ceil()),
-            F64Ceil => stack_op!(unary f64, |v| v.ceil()),
-            F32Floor => stack_op!(unary f32, |v| v.floor()),
-            F64Floor => stack_op!(unary f64, |v| v.floor()),
-            F32Trunc => stack_op!(unary f32, |v| v.trunc()),
-            F64Trunc => stack_op!(unary f64, |v| v.trunc()),
+            F32Ceil => stack_op!(unary f32, |v| v.ceil().tw_canonicalize()),
+            F64Ceil => stack_op!(unary f64, |v| v.ceil().tw_canonicalize()),
+            F32Floor => stack_op!(unary f32, |v| v.floor().tw_canonicalize()),
+            F64Floor => stack_op!(unary f64, |v| v.floor().tw_canonicalize()),
+            F32Trunc => stack_op!(unary f32, |v| v.trunc().tw_canonicalize()),
+            F64Trunc => stack_op!(unary f64, |v| v.trunc().tw_canonicalize()),
             F32Nearest => stack_op!(unary f32, |v| v.tw_nearest()),
             F64Nearest => stack_op!(unary f64, |v| v.tw_nearest()),
-            F32Sqrt => stack_op!(unary f32, |v| v.sqrt()),
-            F64Sqrt => stack_op!(unary f64, |v| v.sqrt()),
+            F32Sqrt => stack_op!(unary f32, |v| v.sqrt().tw_canonicalize()),
+            F64Sqrt => stack_op!(unary f64, |v| v.sqrt().tw_canonicalize()),
             F32Min => stack_op!(binary f32, |a, b| a.tw_minimum(b)),
             F64Min => stack_op!(binary f64, |a, b| a.tw_minimum(b)),
             F32Max => stack_op!(binary f32, |a, b| a.tw_maximum(b)),
@@ -1173,7 +1173,7 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
 
     #[inline(always)]
     fn exec_fma_store<
-        T: InternalValue + MemValue<N> + core::ops::Add<Output = T> + core::ops::Mul<Output = T>,
+        T: InternalValue + MemValue<N> + core::ops::Add<Output = T> + core::ops::Mul<Output = T> + TinywasmFloatExt,
         const N: usize,
     >(
         &mut self,
@@ -1183,7 +1183,7 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
         let lhs = T::stack_pop(&mut self.store.value_stack);
         let acc = T::stack_pop(&mut self.store.value_stack);
         let addr = i32::stack_pop(&mut self.store.value_stack);
-        let fma = acc + lhs * rhs;
+        let fma = (acc + lhs * rhs).tw_canonicalize();
         let mem = self.store.state.get_mem_mut(self.module.resolve_mem_addr(m.mem_addr()));
         let addr = mem.effective_addr_32::<N>(addr as u32, m.offset())?;
         fma.store_at(&mut *mem.inner, addr)?;
diff --git a/crates/tinywasm/src/interpreter/num_helpers.rs b/crates/tinywasm/src/interpreter/num_helpers.rs
index 7b3807e..4640ec8 100644
--- a/crates/tinywasm/src/interpreter/num_helpers.rs
+++ b/crates/tinywasm/src/interpreter/num_helpers.rs
@@ -49,6 +49,7 @@ pub(crate) trait TinywasmFloatExt {
     fn tw_minimum(self, other: Self) -> Self;
     fn tw_maximum(self, other: Self) -> Self;
     fn tw_nearest(self) -> Self;
+    fn tw_canonicalize(self) -> Self;
 }
 
 use crate::{Result, Trap};
@@ -83,6 +84,16 @@ macro_rules! impl_wasm_float_ops {
                 }
             }
 
+            /// Replaces NaN results with the canonical NaN if `canonicalize-nans` is enabled.
+            #[inline(always)]
+            fn tw_canonicalize(self) -> Self {
+                #[cfg(feature = "canonicalize-nans")]
+                if self.is_nan() {
+                    return Self::NAN;
+                }
+                self
+            }
+
             // https://webassembly.github.io/spec/core/exec/numerics.html#op-fmin
             // Based on f32::minimum (which is not yet stable)
             #[inline]
-- 
2.43.0


From 25707f0701ada14920cb8ae982e7a5d55b238ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:30 +0000
Subject: [PATCH 12/32] fix: stop initializing active segments at the first
 trap but keep all segments allocated

---
 crates/tinywasm/src/instance.rs  |  8 +++---
 crates/tinywasm/src/store/mod.rs | 44 +++++++++++++++++---------------
 2 files changed, 27 insertions(+), 25 deletions(-)

diff --git a/crates/tinywasm/src/instance.rs b/crates/tinywasm/src/instance.rs
index 75ccdfd..405c3b8 100644
--- a/crates/tinywasm/src/instance.rs
+++ b/crates/tinywasm/src/instance.rs
@@ -187,10 +187,10 @@ impl ModuleInstance {
         }
 
         store.init_globals(&mut addrs.globals, &module.globals, &addrs.funcs)?;
-        let (elem_addrs, elem_trapped) =
+        let (elem_addrs, trapped) =
             store.init_elements(&addrs.tables, &addrs.funcs, &addrs.globals, &module.elements)?;
-        let (data_addrs, data_trapped) =
-            store.init_data(&addrs.memories, &addrs.globals, &addrs.funcs, &module.data)?;
+        let (data_addrs, trapped) =
+            store.init_data(&addrs.memories, &addrs.globals, &addrs.funcs, &module.data, trapped)?;
 
         let instance = ModuleInstanceInner {
             store_id: store.id(),
@@ -210,7 +210,7 @@ impl ModuleInstance {
         let instance = ModuleInstance(Rc::new(instance));
         store.add_instance(instance.clone());
 
-        if let Some(trap) = elem_trapped.or(data_trapped) {
+        if let Some(trap) = trapped {
             cold_path();
             return Err(trap.into());
         }
diff --git a/crates/tinywasm/src/store/mod.rs b/crates/tinywasm/src/store/mod.rs
index 36415a1..70f5f10 100644
--- a/crates/tinywasm/src/store/mod.rs
+++ b/crates/tinywasm/src/store/mod.rs
@@ -371,6 +371,7 @@ impl Store {
     ) -> Result<(Box<[Addr]>, Option<Trap>)> {
         let elem_count = self.state.elements.len();
         let mut elem_addrs = Vec::with_capacity(elem_count);
+        let mut trapped = None;
         for (i, element) in elements.iter().enumerate() {
             let init = element
                 .items
@@ -385,6 +386,9 @@ impl Store {
                 // this one is not available to the runtime but needs to be initialized to declare references
                 ElementKind::Declared => None, // a. Execute the instruction elm.drop i
 
+                // functions that already leaked into a table can still use segments after an earlier one trapped
+                ElementKind::Active { .. } if trapped.is_some() => Some(init),
+
                 // this one is active, so we need to initialize it (essentially a `table.init` instruction)
                 ElementKind::Active { offset, table } => {
                     let offset = self.eval_size_const(offset, global_addrs, func_addrs)?;
@@ -402,19 +406,15 @@ impl Store {
                     // This isn't mentioned in the spec, but the "unofficial" testsuite has a test for it:
                     // https://github.com/WebAssembly/testsuite/blob/5a1a590603d81f40ef471abba70a90a9ae5f4627/linking.wast#L264-L276
                     // I have NO IDEA why this is allowed, but it is.
-                    let Ok(offset) = usize::try_from(offset) else {
-                        return Ok((
-                            elem_addrs.into_boxed_slice(),
-                            Some(Trap::TableOutOfBounds { offset: usize::MAX, len: init.len(), max: table.size() }),
-                        ));
-                    };
-
+                    let offset = usize::try_from(offset).unwrap_or(usize::MAX);
                     if let Err(trap) = table.init(offset, &init) {
-                        return Ok((elem_addrs.into_boxed_slice(), Some(trap)));
+                        cold_path();
+                        trapped = Some(trap);
+                        Some(init)
+                    } else {
+                        // f. Execute the instruction elm.drop i
+                        None
                     }
-
-                    // f. Execute the instruction elm.drop i
-                    None
                 }
             };
 
@@ -423,21 +423,24 @@ impl Store {
         }
 
         // this should be optimized out by the compiler
-        Ok((elem_addrs.into_boxed_slice(), None))
+        Ok((elem_addrs.into_boxed_slice(), trapped))
     }
 
     /// Add data to the store, returning their addresses in the store
+    /// No active segment is written if instantiation already trapped
     pub(crate) fn init_data(
         &mut self,
         mem_addrs: &[MemAddr],
         global_addrs: &[Addr],
         func_addrs: &[FuncAddr],
         data: &[Data],
+        mut trapped: Option<Trap>,
     ) -> Result<(Box<[Addr]>, Option<Trap>)> {
         let data_count = self.state.data.len();
         let mut data_addrs = Vec::with_capacity(data_count);
         for (i, data) in data.iter().enumerate() {
             let data_val = match &data.kind {
+                tinywasm_types::DataKind::Active { .. } if trapped.is_some() => Some(data.data.to_vec()),
                 tinywasm_types::DataKind::Active { mem: mem_addr, offset } => {
                     let Some(mem_addr) = mem_addrs.get(*mem_addr as usize) else {
                         return Err(Error::Other(format!("memory {mem_addr} not found for data segment {i}")));
@@ -452,14 +455,13 @@ impl Store {
                     match mem.inner.write_all(offset, &data.data) {
                         Some(()) => None,
                         None => {
-                            return Ok((
-                                data_addrs.into_boxed_slice(),
-                                Some(crate::Trap::MemoryOutOfBounds {
-                                    offset,
-                                    len: data.data.len(),
-                                    max: mem.inner.len(),
-                                }),
-                            ));
+                            cold_path();
+                            trapped = Some(crate::Trap::MemoryOutOfBounds {
+                                offset,
+                                len: data.data.len(),
+                                max: mem.inner.len(),
+                            });
+                            Some(data.data.to_vec())
                         }
                     }
                 }
@@ -471,7 +473,7 @@ impl Store {
         }
 
         // this should be optimized out by the compiler
-        Ok((data_addrs.into_boxed_slice(), None))
+        Ok((data_addrs.into_boxed_slice(), trapped))
     }
 
     pub(crate) fn add_func(&mut self, func: FunctionInstance) -> FuncAddr {
-- 
2.43.0


From d578e18bf4fb88e687a36a4e9807ab7d33d7d775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:18 +0000
Subject: [PATCH 13/32] fix: pop a 64-bit address in fused multiply-add stores
 to 64-bit memories

---
 crates/tinywasm/src/interpreter/executor.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/tinywasm/src/interpreter/executor.rs b/crates/tinywasm/src/interpreter/executor.rs
index b4e0133..0d2d934 100644
--- a/crates/tinywasm/src/interpreter/executor.rs
+++ b/crates/tinywasm/src/interpreter/executor.rs
@@ -1182,10 +1182,15 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
         let rhs = T::stack_pop(&mut self.store.value_stack);
         let lhs = T::stack_pop(&mut self.store.value_stack);
         let acc = T::stack_pop(&mut self.store.value_stack);
-        let addr = i32::stack_pop(&mut self.store.value_stack);
         let fma = (acc + lhs * rhs).tw_canonicalize();
         let mem = self.store.state.get_mem_mut(self.module.resolve_mem_addr(m.mem_addr()));
-        let addr = mem.effective_addr_32::<N>(addr as u32, m.offset())?;
+        let addr = if mem.is_64bit() {
+            let base = i64::stack_pop(&mut self.store.value_stack) as u64;
+            mem.effective_addr_64::<N>(base, m.offset())?
+        } else {
+            let base = i32::stack_pop(&mut self.store.value_stack) as u32;
+            mem.effective_addr_32::<N>(base, m.offset())?
+        };
         fma.store_at(&mut *mem.inner, addr)?;
         Ok(())
     }
-- 
2.43.0


From 40f08da4781bd3a1a8e2039700a48b4c27e5b725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:50 +0000
Subject: [PATCH 14/32] fix: reserve exactly up to the configured maximum when
 growing the call stack

---
 crates/tinywasm/src/interpreter/stack/call_stack.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tinywasm/src/interpreter/stack/call_stack.rs b/crates/tinywasm/src/interpreter/stack/call_stack.rs
index 62f1f8e..cc3782e 100644
--- a/crates/tinywasm/src/interpreter/stack/call_stack.rs
+++ b/crates/tinywasm/src/interpreter/stack/call_stack.rs
@@ -56,7 +56,7 @@ impl CallStack {
         }
 
         let target_capacity = required_len.max(self.stack.capacity().max(1).saturating_mul(2)).min(self.max_size);
-        let Ok(()) = self.stack.try_reserve(target_capacity.saturating_sub(self.stack.len())) else {
+        let Ok(()) = self.stack.try_reserve_exact(target_capacity.saturating_sub(self.stack.len())) else {
             cold_path();
             return Err(Trap::CallStackOverflow);
         };
-- 
2.43.0


From eae726957fa075cefce1785c06d01f62827587ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:50 +0000
Subject: [PATCH 15/32] fix: do not continue a resumable execution after it
 ended with an error

---
 crates/tinywasm/src/func.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/tinywasm/src/func.rs b/crates/tinywasm/src/func.rs
index 9777a47..76518ed 100644
--- a/crates/tinywasm/src/func.rs
+++ b/crates/tinywasm/src/func.rs
@@ -439,7 +439,12 @@ impl<'store> FuncExecution<'store> {
         let result = run(self.store, callframe);
         self.store.exit_execution();
 
-        match result? {
+        let state = result.inspect_err(|_| {
+            // the stacks no longer belong to this invocation's call frame, so it can't be continued
+            self.state = FuncExecutionState::Completed { result: None };
+        })?;
+
+        match state {
             crate::interpreter::ExecState::Completed => {
                 let result_ty = self.store.state.get_func(root_func_addr).ty().clone();
                 self.state = FuncExecutionState::Completed { result: None };
-- 
2.43.0


From ddfa65788833a85fb88051483f14e6da4a778ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:50 +0000
Subject: [PATCH 16/32] fix: report no remaining fuel once fuel-based
 resumption has ended

---
 crates/tinywasm/src/store/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/tinywasm/src/store/mod.rs b/crates/tinywasm/src/store/mod.rs
index 70f5f10..048a9a7 100644
--- a/crates/tinywasm/src/store/mod.rs
+++ b/crates/tinywasm/src/store/mod.rs
@@ -104,6 +104,7 @@ impl Store {
 
     pub(crate) fn exit_execution(&mut self) {
         self.execution_active = false;
+        self.execution_fuel = 0;
     }
 }
 
-- 
2.43.0


From cc9ba8aadf84a976187350e69c4da654391998b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:30 +0000
Subject: [PATCH 17/32] fix: decode surrogate pairs when reading UTF-16 strings

---
 crates/tinywasm/src/reference.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/crates/tinywasm/src/reference.rs b/crates/tinywasm/src/reference.rs
index e46db51..9250252 100644
--- a/crates/tinywasm/src/reference.rs
+++ b/crates/tinywasm/src/reference.rs
@@ -310,14 +310,10 @@ impl Memory {
     /// Reads a JavaScript-style utf-16 string from memory.
     pub fn read_js_string(&self, store: &Store, offset: usize, len: usize) -> Result<String> {
         let bytes = self.read_vec(store, offset, len)?;
-        let mut string = String::new();
-        for i in 0..(len / 2) {
-            let c = u16::from_le_bytes([bytes[i * 2], bytes[i * 2 + 1]]);
-            string.push(
-                char::from_u32(u32::from(c)).ok_or_else(|| crate::Error::Other("Invalid UTF-16 string".to_string()))?,
-            );
-        }
-        Ok(string)
+        let units = bytes.chunks_exact(2).map(|unit| u16::from_le_bytes([unit[0], unit[1]]));
+        char::decode_utf16(units)
+            .collect::<core::result::Result<String, _>>()
+            .map_err(|_| crate::Error::Other("Invalid UTF-16 string".to_string()))
     }
 }
 
-- 
2.43.0


From cf524f6b4080fb08f4b17399bee3fe3e390b91a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:30 +0000
Subject: [PATCH 18/32] fix: bound buffer growth while streaming a module with
 large declared sections

---
 crates/parser/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/parser/src/lib.rs b/crates/parser/src/lib.rs
index 7936675..cd277b5 100644
--- a/crates/parser/src/lib.rs
+++ b/crates/parser/src/lib.rs
@@ -176,8 +176,11 @@ impl Parser {
 
     #[cfg(feature = "std")]
     fn read_more(stream: &mut impl std::io::Read, buffer: &mut alloc::vec::Vec<u8>, hint: usize) -> Result<usize> {
+        // The hint is derived from section sizes declared by the input, don't trust it with large allocations.
+        const MAX_READ_SIZE: usize = 64 * 1024;
+
         let len = buffer.len();
-        buffer.resize(len + hint, 0);
+        buffer.resize(len + hint.min(MAX_READ_SIZE), 0);
         let read_bytes = stream
             .read(&mut buffer[len..])
             .map_err(|e| ParseError::Other(alloc::format!("Error reading from stream: {e}")))?;
-- 
2.43.0


From 09fb1a61ee051f790067cf7280c3b2a344420560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:51 +0000
Subject: [PATCH 19/32] fix: keep local memories that are only accessed by
 memory.init

---
 crates/types/src/instructions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/types/src/instructions.rs b/crates/types/src/instructions.rs
index a22279e..cf8a217 100644
--- a/crates/types/src/instructions.rs
+++ b/crates/types/src/instructions.rs
@@ -305,7 +305,7 @@ pub enum Instruction {
     TableFill(TableAddr),
 
     // > Bulk Memory Instructions
-    MemoryInit(MemAddr, DataAddr),
+    MemoryInit(DataAddr, MemAddr),
     MemoryCopy { dst_mem: MemAddr, src_mem: MemAddr },
     MemoryFill(MemAddr),
     MemoryFillImm(MemAddr, u8, i32),
@@ -468,7 +468,7 @@ impl Instruction {
             | Self::V128Store64Lane(arg, ..) => Some(arg.mem_addr()),
             Self::MemorySize(mem)
             | Self::MemoryGrow(mem)
-            | Self::MemoryInit(mem, ..)
+            | Self::MemoryInit(_, mem)
             | Self::MemoryFill(mem)
             | Self::MemoryFillImm(mem, ..) => Some(*mem),
             Self::MemoryCopy { dst_mem, src_mem } => Some(if *dst_mem >= *src_mem { *dst_mem } else { *src_mem }),
-- 
2.43.0


From a22f83f3b4a2e82f776d1672236ac8667366e19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:13 +0000
Subject: [PATCH 20/32] fix: reject globals, tables and memories of another
 store as imports

---
 crates/tinywasm/src/imports.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/crates/tinywasm/src/imports.rs b/crates/tinywasm/src/imports.rs
index 056d706..ce001e7 100644
--- a/crates/tinywasm/src/imports.rs
+++ b/crates/tinywasm/src/imports.rs
@@ -221,9 +221,18 @@ impl Imports {
         for import in &*module.imports {
             let (val, func_handle) = if let Some(defined) = self.take_defined(import) {
                 match defined {
-                    Extern::Global(global) => (ExternVal::Global(global.0.addr), None),
-                    Extern::Table(table) => (ExternVal::Table(table.0.addr), None),
-                    Extern::Memory(memory) => (ExternVal::Memory(memory.0.addr), None),
+                    Extern::Global(global) => {
+                        global.0.validate_store(store)?;
+                        (ExternVal::Global(global.0.addr), None)
+                    }
+                    Extern::Table(table) => {
+                        table.0.validate_store(store)?;
+                        (ExternVal::Table(table.0.addr), None)
+                    }
+                    Extern::Memory(memory) => {
+                        memory.0.validate_store(store)?;
+                        (ExternVal::Memory(memory.0.addr), None)
+                    }
                     Extern::Function(func) => (ExternVal::Func(func.addr), Some(func)),
                 }
             } else {
-- 
2.43.0


From 290a8922013e8e73eafc9e1b40de197f06b79bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:35 +0000
Subject: [PATCH 21/32] fix: match declared memory maxima when linking imported
 memories

---
 crates/tinywasm/src/imports.rs | 10 ++++++----
 crates/types/src/lib.rs        |  6 ++++++
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/crates/tinywasm/src/imports.rs b/crates/tinywasm/src/imports.rs
index ce001e7..ca2e14d 100644
--- a/crates/tinywasm/src/imports.rs
+++ b/crates/tinywasm/src/imports.rs
@@ -195,11 +195,13 @@ impl Imports {
             return Err(LinkingError::incompatible_import_type(import).into());
         }
 
-        if expected.page_count_max() > actual.page_count_max() {
-            return Err(LinkingError::incompatible_import_type(import).into());
+        match (expected.declared_page_count_max(), actual.declared_page_count_max()) {
+            (None, Some(_)) => Err(LinkingError::incompatible_import_type(import).into()),
+            (Some(expected_max), Some(actual_max)) if actual_max < expected_max => {
+                Err(LinkingError::incompatible_import_type(import).into())
+            }
+            _ => Ok(()),
         }
-
-        Ok(())
     }
 
     pub(crate) fn link(&self, store: &mut crate::Store, module: &Module) -> Result<ResolvedImports> {
diff --git a/crates/types/src/lib.rs b/crates/types/src/lib.rs
index a915788..4c29fae 100644
--- a/crates/types/src/lib.rs
+++ b/crates/types/src/lib.rs
@@ -570,6 +570,12 @@ impl MemoryType {
         if let Some(page_count_max) = self.page_count_max { page_count_max } else { max_page_count(self.page_size()) }
     }
 
+    /// The declared maximum page count, if any.
+    #[inline]
+    pub const fn declared_page_count_max(&self) -> Option<u64> {
+        self.page_count_max
+    }
+
     #[inline]
     pub const fn page_size(&self) -> u64 {
         if let Some(page_size) = self.page_size { page_size } else { MEM_PAGE_SIZE }
-- 
2.43.0


From 08b60591158bbe9aaf65d1fd69609eefaa4c2328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:30 +0000
Subject: [PATCH 22/32] fix: keep declared element segments when instantiation
 trapped before them

---
 crates/tinywasm/src/store/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/tinywasm/src/store/mod.rs b/crates/tinywasm/src/store/mod.rs
index 048a9a7..6c7e92b 100644
--- a/crates/tinywasm/src/store/mod.rs
+++ b/crates/tinywasm/src/store/mod.rs
@@ -384,12 +384,12 @@ impl Store {
                 // doesn't need to be initialized, can be initialized lazily using the `table.init` instruction
                 ElementKind::Passive => Some(init),
 
+                // functions that already leaked into a table can still use segments after an earlier one trapped
+                _ if trapped.is_some() => Some(init),
+
                 // this one is not available to the runtime but needs to be initialized to declare references
                 ElementKind::Declared => None, // a. Execute the instruction elm.drop i
 
-                // functions that already leaked into a table can still use segments after an earlier one trapped
-                ElementKind::Active { .. } if trapped.is_some() => Some(init),
-
                 // this one is active, so we need to initialize it (essentially a `table.init` instruction)
                 ElementKind::Active { offset, table } => {
                     let offset = self.eval_size_const(offset, global_addrs, func_addrs)?;
-- 
2.43.0


From 085e192201592dad05c4c00b980912e19609aff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:01 +0000
Subject: [PATCH 23/32] fix: clear the stacks before calling a host function
 directly

---
 crates/tinywasm/src/func.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/crates/tinywasm/src/func.rs b/crates/tinywasm/src/func.rs
index 76518ed..0f62b18 100644
--- a/crates/tinywasm/src/func.rs
+++ b/crates/tinywasm/src/func.rs
@@ -13,6 +13,10 @@ impl Function {
     pub fn call(&self, store: &mut Store, params: &[WasmValue]) -> Result<Vec<WasmValue>> {
         #[inline]
         fn call_inner(func: &Function, store: &mut Store, params: &[WasmValue]) -> Result<Vec<WasmValue>> {
+            // Reset the stacks, an earlier invocation may have ended without unwinding them.
+            store.call_stack.clear();
+            store.value_stack.clear();
+
             let func_instance = store.state.get_func(func.addr);
             let wasm_func = match func_instance {
                 FunctionInstance::Host(host_func) => {
@@ -21,9 +25,7 @@ impl Function {
                 FunctionInstance::Wasm(wasm_func) => wasm_func,
             };
 
-            // Reset stack, push args, allocate locals, create entry frame.
-            store.call_stack.clear();
-            store.value_stack.clear();
+            // Push args, allocate locals, create entry frame.
             store.value_stack.extend_from_wasmvalues(params)?;
             let locals_base = store.value_stack.enter_locals(&wasm_func.func.params, &wasm_func.func.locals)?;
             let callframe = CallFrame::new(func.addr, locals_base, wasm_func.func.locals);
@@ -59,6 +61,10 @@ impl Function {
             store: &mut Store,
             params: &[WasmValue],
         ) -> Result<FuncExecutionState> {
+            // Reset the stacks, an earlier invocation may have ended without unwinding them.
+            store.call_stack.clear();
+            store.value_stack.clear();
+
             let func_instance = store.state.get_func(func.addr);
             match func_instance {
                 FunctionInstance::Host(host_func) => host_func
@@ -66,8 +72,6 @@ impl Function {
                     .call(FuncContext { store, module_addr: func.module_addr }, params)
                     .map(|result| FuncExecutionState::Completed { result: Some(result) }),
                 FunctionInstance::Wasm(wasm_func) => {
-                    store.call_stack.clear();
-                    store.value_stack.clear();
                     store.value_stack.extend_from_wasmvalues(params)?;
                     let locals_base = store.value_stack.enter_locals(&wasm_func.func.params, &wasm_func.func.locals)?;
                     let callframe = CallFrame::new(func.addr, locals_base, wasm_func.func.locals);
-- 
2.43.0


From c7dee712e3cd1d0d153099c412325c4335ef9fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:39 +0000
Subject: [PATCH 24/32] fix: count nested calls from host functions towards the
 call depth limit

---
 crates/tinywasm/src/func.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/crates/tinywasm/src/func.rs b/crates/tinywasm/src/func.rs
index 0f62b18..ba85323 100644
--- a/crates/tinywasm/src/func.rs
+++ b/crates/tinywasm/src/func.rs
@@ -352,11 +352,17 @@ impl FuncContext<'_> {
                     .enter_locals(&wasm_func.func.params, &wasm_func.func.locals)
                     .inspect_err(|_| self.store.value_stack.truncate_to_base(value_stack_base))?;
 
+                // Nested calls use the native stack, so they count towards the call depth limit.
                 let callframe = CallFrame::new(func.addr, locals_base, wasm_func.func.locals);
-                InterpreterRuntime::exec(self.store, callframe, call_stack_base).inspect_err(|_| {
-                    self.store.call_stack.truncate_to(call_stack_base);
-                    self.store.value_stack.truncate_to_base(value_stack_base);
-                })?;
+                self.store
+                    .call_stack
+                    .push(callframe)
+                    .and_then(|()| InterpreterRuntime::exec(self.store, callframe, call_stack_base + 1))
+                    .inspect_err(|_| {
+                        self.store.call_stack.truncate_to(call_stack_base);
+                        self.store.value_stack.truncate_to_base(value_stack_base);
+                    })?;
+                self.store.call_stack.truncate_to(call_stack_base);
 
                 collect_call_results(&mut self.store.value_stack, &func.ty)
             }
-- 
2.43.0


From 19a902bfaa6ffe74425cd5b8c860217e78edf36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:01 +0000
Subject: [PATCH 25/32] fix: canonicalize NaN results of vector demote and
 promote

---
 crates/tinywasm/src/interpreter/simd/instructions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/tinywasm/src/interpreter/simd/instructions.rs b/crates/tinywasm/src/interpreter/simd/instructions.rs
index c859caf..4c60993 100644
--- a/crates/tinywasm/src/interpreter/simd/instructions.rs
+++ b/crates/tinywasm/src/interpreter/simd/instructions.rs
@@ -1015,13 +1015,13 @@ impl Value128 {
     #[doc(alias = "f32x4.demote_f64x2_zero")]
     pub fn f32x4_demote_f64x2_zero(self) -> Self {
         let [a, b] = self.as_f64x2();
-        Self::from_f32x4([a as f32, b as f32, 0.0, 0.0])
+        Self::from_f32x4([canonicalize_simd_f32_nan(a as f32), canonicalize_simd_f32_nan(b as f32), 0.0, 0.0])
     }
 
     #[doc(alias = "f64x2.promote_low_f32x4")]
     pub fn f64x2_promote_low_f32x4(self) -> Self {
         let [a, b, ..] = self.as_f32x4();
-        Self::from_f64x2([a as f64, b as f64])
+        Self::from_f64x2([canonicalize_simd_f64_nan(a as f64), canonicalize_simd_f64_nan(b as f64)])
     }
 
     #[doc(alias = "i16x8.splat")]
-- 
2.43.0


From 8bc5d4899af1b4f079a02dd559ad32e9dab8db3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:41 +0000
Subject: [PATCH 26/32] fix: accept a negative first argument on the command
 line

---
 crates/cli/src/cli.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cli/src/cli.rs b/crates/cli/src/cli.rs
index ae367d2..5aa3229 100644
--- a/crates/cli/src/cli.rs
+++ b/crates/cli/src/cli.rs
@@ -65,7 +65,7 @@ pub struct RunArgs {
     pub engine: EngineFlags,
 
     /// Arguments passed to the invoked Wasm function
-    #[arg(trailing_var_arg = true)]
+    #[arg(trailing_var_arg = true, allow_negative_numbers = true)]
     pub args: Vec<String>,
 }
 
-- 
2.43.0


From 424764d1c112f16788fa5a73255076bf324a723a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:29 +0000
Subject: [PATCH 27/32] fix: trap on indirect calls through references of no
 function in the store

---
 crates/tinywasm/src/interpreter/executor.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/tinywasm/src/interpreter/executor.rs b/crates/tinywasm/src/interpreter/executor.rs
index 0d2d934..664b8bb 100644
--- a/crates/tinywasm/src/interpreter/executor.rs
+++ b/crates/tinywasm/src/interpreter/executor.rs
@@ -1050,8 +1050,14 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
             return Err(Trap::UninitializedElement { index: table_idx });
         };
 
+        // the embedder can put references into tables that do not belong to any function of this store
+        let Some(func) = self.store.state.funcs.get(func_ref as usize) else {
+            cold_path();
+            return Err(Trap::InvalidStore);
+        };
+
         let call_ty = self.module.func_type_by_type_index(type_addr);
-        match self.store.state.get_func(func_ref) {
+        match func {
             crate::FunctionInstance::Wasm(wasm_func) => {
                 if wasm_func.ty() != call_ty {
                     cold_path();
-- 
2.43.0


From da1141510e832ed19cdddeffe19deefebfeb247d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:52 +0000
Subject: [PATCH 28/32] fix: do not fuse a local.tee as the right operand of
 the value below it

---
 crates/parser/src/macros.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/parser/src/macros.rs b/crates/parser/src/macros.rs
index ff216a5..59d9fcb 100644
--- a/crates/parser/src/macros.rs
+++ b/crates/parser/src/macros.rs
@@ -229,7 +229,12 @@ pub(crate) mod optimize {
                 && let Some(op) = $op(raw_op)
             {
                 if let Some((rhs_instr, rhs)) = $source(rhs_src) {
-                    if rhs_instr.is_none() || rhs != lhs {
+                    // a plain tee takes its operand from `lhs_src`, so it cannot be the right operand on its own
+                    let rhs_is_tee = matches!(
+                        rhs_src,
+                        Instruction::LocalTee32(_) | Instruction::LocalTee64(_) | Instruction::LocalTee128(_)
+                    );
+                    if rhs_instr.is_none() || (rhs != lhs && !rhs_is_tee) {
                         $instrs.tail_rewritten = true;
                         $instrs.truncate($read - 3);
                         $instrs.extend(lhs_instr);
-- 
2.43.0


From 071c7a13952be20b0ea5ace23f00fcccb080fab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:44 +0000
Subject: [PATCH 29/32] fix: script runner: register the module a register
 directive names

(register "n" $m) registered the most recent module instead of $m.
---
 crates/cli/src/wast_runner.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/crates/cli/src/wast_runner.rs b/crates/cli/src/wast_runner.rs
index 99f1efe..5ba4442 100644
--- a/crates/cli/src/wast_runner.rs
+++ b/crates/cli/src/wast_runner.rs
@@ -36,7 +36,6 @@ impl ModuleRegistry {
     fn register(&mut self, name: String, module: ModuleInstance) {
         debug!("registering module: {name}");
         self.modules.insert(name.clone(), module.clone());
-        self.last_module = Some(module.clone());
         self.named_modules.insert(name, module);
     }
 
@@ -59,10 +58,6 @@ impl ModuleRegistry {
             None => self.last_module.clone(),
         }
     }
-
-    fn last(&self) -> Option<ModuleInstance> {
-        self.last_module.clone()
-    }
 }
 
 #[derive(Default)]
@@ -223,8 +218,8 @@ impl WastRunner {
             };
 
             match directive {
-                Register { span, name, .. } => {
-                    let Some(last) = module_registry.last() else {
+                Register { span, name, module } => {
+                    let Some(instance) = module_registry.get(module) else {
                         test_group.add_result(
                             &format!("Register({i})"),
                             span.linecol_in(wast_raw),
@@ -232,7 +227,7 @@ impl WastRunner {
                         );
                         continue;
                     };
-                    module_registry.register(name.to_string(), last);
+                    module_registry.register(name.to_string(), instance);
                     test_group.add_result(&format!("Register({i})"), span.linecol_in(wast_raw), Ok(()));
                 }
                 Wat(module) => {
-- 
2.43.0


From 93977063e1a13c6e26cad81b17822404849d367e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:44 +0000
Subject: [PATCH 30/32] fix: script runner: keep module ids and registered
 names apart

$id in a script found a module registered under that name before the
module defined with that id.
---
 crates/cli/src/wast_runner.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/crates/cli/src/wast_runner.rs b/crates/cli/src/wast_runner.rs
index 5ba4442..4a54f24 100644
--- a/crates/cli/src/wast_runner.rs
+++ b/crates/cli/src/wast_runner.rs
@@ -35,26 +35,19 @@ impl ModuleRegistry {
 
     fn register(&mut self, name: String, module: ModuleInstance) {
         debug!("registering module: {name}");
-        self.modules.insert(name.clone(), module.clone());
-        self.named_modules.insert(name, module);
+        self.modules.insert(name, module);
     }
 
     fn get_idx(&self, module_id: Option<wast::token::Id<'_>>) -> Option<u32> {
         match module_id {
-            Some(module) => self
-                .modules
-                .get(module.name())
-                .or_else(|| self.named_modules.get(module.name()))
-                .map(ModuleInstance::id),
+            Some(module) => self.named_modules.get(module.name()).map(ModuleInstance::id),
             None => self.last_module.as_ref().map(ModuleInstance::id),
         }
     }
 
     fn get(&self, module_id: Option<wast::token::Id<'_>>) -> Option<ModuleInstance> {
         match module_id {
-            Some(module_id) => {
-                self.modules.get(module_id.name()).or_else(|| self.named_modules.get(module_id.name())).cloned()
-            }
+            Some(module_id) => self.named_modules.get(module_id.name()).cloned(),
             None => self.last_module.clone(),
         }
     }
-- 
2.43.0


From 0c65298d803bae6cad42e6e5bcbb1dd3167a4e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:16 +0000
Subject: [PATCH 31/32] fix: return quiet NaNs from rounding when NaNs are not
 canonicalized

ceil, floor, trunc and nearest passed signaling NaNs through.
---
 crates/tinywasm/src/interpreter/executor.rs      | 12 ++++++------
 crates/tinywasm/src/interpreter/num_helpers.rs   | 16 ++++++++++++----
 .../src/interpreter/simd/instructions.rs         | 16 ++++++++--------
 3 files changed, 26 insertions(+), 18 deletions(-)

diff --git a/crates/tinywasm/src/interpreter/executor.rs b/crates/tinywasm/src/interpreter/executor.rs
index 664b8bb..b7c2247 100644
--- a/crates/tinywasm/src/interpreter/executor.rs
+++ b/crates/tinywasm/src/interpreter/executor.rs
@@ -518,12 +518,12 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
             F64Abs => stack_op!(unary f64, |v| v.abs()),
             F32Neg => stack_op!(unary f32, |v| -v),
             F64Neg => stack_op!(unary f64, |v| -v),
-            F32Ceil => stack_op!(unary f32, |v| v.ceil().tw_canonicalize()),
-            F64Ceil => stack_op!(unary f64, |v| v.ceil().tw_canonicalize()),
-            F32Floor => stack_op!(unary f32, |v| v.floor().tw_canonicalize()),
-            F64Floor => stack_op!(unary f64, |v| v.floor().tw_canonicalize()),
-            F32Trunc => stack_op!(unary f32, |v| v.trunc().tw_canonicalize()),
-            F64Trunc => stack_op!(unary f64, |v| v.trunc().tw_canonicalize()),
+            F32Ceil => stack_op!(unary f32, |v| v.ceil().tw_quiet()),
+            F64Ceil => stack_op!(unary f64, |v| v.ceil().tw_quiet()),
+            F32Floor => stack_op!(unary f32, |v| v.floor().tw_quiet()),
+            F64Floor => stack_op!(unary f64, |v| v.floor().tw_quiet()),
+            F32Trunc => stack_op!(unary f32, |v| v.trunc().tw_quiet()),
+            F64Trunc => stack_op!(unary f64, |v| v.trunc().tw_quiet()),
             F32Nearest => stack_op!(unary f32, |v| v.tw_nearest()),
             F64Nearest => stack_op!(unary f64, |v| v.tw_nearest()),
             F32Sqrt => stack_op!(unary f32, |v| v.sqrt().tw_canonicalize()),
diff --git a/crates/tinywasm/src/interpreter/num_helpers.rs b/crates/tinywasm/src/interpreter/num_helpers.rs
index 4640ec8..dff23f3 100644
--- a/crates/tinywasm/src/interpreter/num_helpers.rs
+++ b/crates/tinywasm/src/interpreter/num_helpers.rs
@@ -50,6 +50,7 @@ pub(crate) trait TinywasmFloatExt {
     fn tw_maximum(self, other: Self) -> Self;
     fn tw_nearest(self) -> Self;
     fn tw_canonicalize(self) -> Self;
+    fn tw_quiet(self) -> Self;
 }
 
 use crate::{Result, Trap};
@@ -64,10 +65,7 @@ macro_rules! impl_wasm_float_ops {
             #[inline]
             fn tw_nearest(self) -> Self {
                 match self {
-                    #[cfg(not(feature = "canonicalize-nans"))]
-                    x if x.is_nan() => x, // preserve NaN
-                    #[cfg(feature = "canonicalize-nans")]
-                    x if x.is_nan() => Self::NAN, // Do not preserve NaN
+                    x if x.is_nan() => x.tw_quiet(),
                     x if x.is_infinite() || x == 0.0 => x, // preserve infinities and zeros
                     x if (0.0..=0.5).contains(&x) => 0.0,
                     x if (-0.5..0.0).contains(&x) => -0.0,
@@ -94,6 +92,16 @@ macro_rules! impl_wasm_float_ops {
                 self
             }
 
+            /// Makes NaN results of rounding quiet, or canonical if `canonicalize-nans` is enabled.
+            #[inline(always)]
+            fn tw_quiet(self) -> Self {
+                #[cfg(not(feature = "canonicalize-nans"))]
+                if self.is_nan() {
+                    return Self::from_bits(self.to_bits() | (1 << (Self::MANTISSA_DIGITS - 2)));
+                }
+                self.tw_canonicalize()
+            }
+
             // https://webassembly.github.io/spec/core/exec/numerics.html#op-fmin
             // Based on f32::minimum (which is not yet stable)
             #[inline]
diff --git a/crates/tinywasm/src/interpreter/simd/instructions.rs b/crates/tinywasm/src/interpreter/simd/instructions.rs
index 4c60993..47b8572 100644
--- a/crates/tinywasm/src/interpreter/simd/instructions.rs
+++ b/crates/tinywasm/src/interpreter/simd/instructions.rs
@@ -756,42 +756,42 @@ impl Value128 {
 
     #[doc(alias = "f32x4.ceil")]
     pub fn f32x4_ceil(self) -> Self {
-        self.map_f32x4(|x| canonicalize_simd_f32_nan(x.ceil()))
+        self.map_f32x4(|x| x.ceil().tw_quiet())
     }
 
     #[doc(alias = "f64x2.ceil")]
     pub fn f64x2_ceil(self) -> Self {
-        self.map_f64x2(|x| canonicalize_simd_f64_nan(x.ceil()))
+        self.map_f64x2(|x| x.ceil().tw_quiet())
     }
 
     #[doc(alias = "f32x4.floor")]
     pub fn f32x4_floor(self) -> Self {
-        self.map_f32x4(|x| canonicalize_simd_f32_nan(x.floor()))
+        self.map_f32x4(|x| x.floor().tw_quiet())
     }
 
     #[doc(alias = "f64x2.floor")]
     pub fn f64x2_floor(self) -> Self {
-        self.map_f64x2(|x| canonicalize_simd_f64_nan(x.floor()))
+        self.map_f64x2(|x| x.floor().tw_quiet())
     }
 
     #[doc(alias = "f32x4.trunc")]
     pub fn f32x4_trunc(self) -> Self {
-        self.map_f32x4(|x| canonicalize_simd_f32_nan(x.trunc()))
+        self.map_f32x4(|x| x.trunc().tw_quiet())
     }
 
     #[doc(alias = "f64x2.trunc")]
     pub fn f64x2_trunc(self) -> Self {
-        self.map_f64x2(|x| canonicalize_simd_f64_nan(x.trunc()))
+        self.map_f64x2(|x| x.trunc().tw_quiet())
     }
 
     #[doc(alias = "f32x4.nearest")]
     pub fn f32x4_nearest(self) -> Self {
-        self.map_f32x4(|x| canonicalize_simd_f32_nan(TinywasmFloatExt::tw_nearest(x)))
+        self.map_f32x4(|x| x.tw_nearest())
     }
 
     #[doc(alias = "f64x2.nearest")]
     pub fn f64x2_nearest(self) -> Self {
-        self.map_f64x2(|x| canonicalize_simd_f64_nan(TinywasmFloatExt::tw_nearest(x)))
+        self.map_f64x2(|x| x.tw_nearest())
     }
 
     #[doc(alias = "f32x4.abs")]
-- 
2.43.0


From 794f806e812c712b973302cc73e31a3951b9b2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:51 +0000
Subject: [PATCH 32/32] fix: retry interrupted reads when parsing a module from
 a stream

---
 crates/parser/src/lib.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/parser/src/lib.rs b/crates/parser/src/lib.rs
index cd277b5..f72c0ee 100644
--- a/crates/parser/src/lib.rs
+++ b/crates/parser/src/lib.rs
@@ -181,9 +181,13 @@ impl Parser {
 
         let len = buffer.len();
         buffer.resize(len + hint.min(MAX_READ_SIZE), 0);
-        let read_bytes = stream
-            .read(&mut buffer[len..])
-            .map_err(|e| ParseError::Other(alloc::format!("Error reading from stream: {e}")))?;
+        let read_bytes = loop {
+            match stream.read(&mut buffer[len..]) {
+                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
+                result => break result,
+            }
+        }
+        .map_err(|e| ParseError::Other(alloc::format!("Error reading from stream: {e}")))?;
         buffer.truncate(len + read_bytes);
         Ok(read_bytes)
     }
-- 
2.43.0

