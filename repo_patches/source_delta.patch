From ea8bd1a1b50e84e142b3876e155696b06d649973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:44 +0000
Subject: [PATCH 01/19] fix: recognise the shift amounts that really
 sign-extend

---
 crates/parser/src/optimize.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/parser/src/optimize.rs b/crates/parser/src/optimize.rs
index 80dfa0d..b346234 100644
--- a/crates/parser/src/optimize.rs
+++ b/crates/parser/src/optimize.rs
@@ -105,7 +105,7 @@ fn rewrite(
                 rewrite!(instrs, i, [LocalGet32(local), Const32(c)] => BinOpLocalConst32(op, local, c));
                 rewrite!(instrs, i, [GlobalGet(global)] => BinOpStackGlobal32(op, global));
                 if matches!(op, BinOp::IShrS) {
-                    rewrite!(instrs, i, [BinOpLocalConst32(BinOp::IShl, local, 8), Const32(8)] => [LocalGet32(local), I32Extend8S]);
+                    rewrite!(instrs, i, [BinOpLocalConst32(BinOp::IShl, local, 24), Const32(24)] => [LocalGet32(local), I32Extend8S]);
                     rewrite!(instrs, i, [BinOpLocalConst32(BinOp::IShl, local, 16), Const32(16)] => [LocalGet32(local), I32Extend16S]);
                 }
             }
@@ -126,8 +126,8 @@ fn rewrite(
                 rewrite!(instrs, i, [LocalGet64(local), Const64(c)] => BinOpLocalConst64(op, local, c));
                 rewrite!(instrs, i, [GlobalGet(global)] => BinOpStackGlobal64(op, global));
                 if matches!(op, BinOp::IShrS) {
-                    rewrite!(instrs, i, [BinOpLocalConst64(BinOp::IShl, local, 8), Const64(8)] => [LocalGet64(local), I64Extend8S]);
-                    rewrite!(instrs, i, [BinOpLocalConst64(BinOp::IShl, local, 16), Const64(16)] => [LocalGet64(local), I64Extend16S]);
+                    rewrite!(instrs, i, [BinOpLocalConst64(BinOp::IShl, local, 56), Const64(56)] => [LocalGet64(local), I64Extend8S]);
+                    rewrite!(instrs, i, [BinOpLocalConst64(BinOp::IShl, local, 48), Const64(48)] => [LocalGet64(local), I64Extend16S]);
                     rewrite!(instrs, i, [BinOpLocalConst64(BinOp::IShl, local, 32), Const64(32)] => [LocalGet64(local), I64Extend32S]);
                 }
             }
-- 
2.43.0


From 29ff73a466e3df24bd433f078107261d28437109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:44 +0000
Subject: [PATCH 02/19] fix: do not take a plain tee for the second operand of
 a folded operation

---
 crates/parser/src/macros.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/parser/src/macros.rs b/crates/parser/src/macros.rs
index ff216a5..09eefa7 100644
--- a/crates/parser/src/macros.rs
+++ b/crates/parser/src/macros.rs
@@ -229,7 +229,12 @@ pub(crate) mod optimize {
                 && let Some(op) = $op(raw_op)
             {
                 if let Some((rhs_instr, rhs)) = $source(rhs_src) {
-                    if rhs_instr.is_none() || rhs != lhs {
+                    // a plain tee passes its operand on and pushes nothing of its own
+                    let passes_through = matches!(
+                        rhs_src,
+                        Instruction::LocalTee32(_) | Instruction::LocalTee64(_) | Instruction::LocalTee128(_)
+                    );
+                    if !passes_through && (rhs_instr.is_none() || rhs != lhs) {
                         $instrs.tail_rewritten = true;
                         $instrs.truncate($read - 3);
                         $instrs.extend(lhs_instr);
-- 
2.43.0


From df5e76b297b5290a6ea6b2fa54798e139c823807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:15 +0000
Subject: [PATCH 03/19] fix: bulk memory operations use unsigned operands of
 their memory's width

memory.copy, memory.fill and memory.init popped signed 32 bit operands: on a 64 bit memory that
panicked, offsets past 2 GiB were sign-extended, and memory.init added its operands with overflow.
memory.copy between two indices of one imported memory compared indices instead of addresses.
---
 crates/tinywasm/src/interpreter/executor.rs | 80 +++++++++++----------
 1 file changed, 41 insertions(+), 39 deletions(-)

diff --git a/crates/tinywasm/src/interpreter/executor.rs b/crates/tinywasm/src/interpreter/executor.rs
index 739c136..5987757 100644
--- a/crates/tinywasm/src/interpreter/executor.rs
+++ b/crates/tinywasm/src/interpreter/executor.rs
@@ -1291,78 +1291,80 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
     }
 
     fn exec_memory_copy(&mut self, dst_mem: u32, src_mem: u32) -> Result<(), Trap> {
-        let size = i32::stack_pop(&mut self.store.value_stack);
-        let src = i32::stack_pop(&mut self.store.value_stack);
-        let dst = i32::stack_pop(&mut self.store.value_stack);
         let dst_mem_addr = self.module.resolve_mem_addr(dst_mem);
+        let src_mem_addr = self.module.resolve_mem_addr(src_mem);
+        let dst_arch = self.store.state.get_mem(dst_mem_addr).kind.arch();
+        let src_arch = self.store.state.get_mem(src_mem_addr).kind.arch();
+        let len_arch =
+            if dst_arch == MemoryArch::I32 || src_arch == MemoryArch::I32 { MemoryArch::I32 } else { MemoryArch::I64 };
+        let size = self.pop_mem_operand(len_arch)?;
+        let src = self.pop_mem_operand(src_arch)?;
+        let dst = self.pop_mem_operand(dst_arch)?;
 
-        if dst_mem == src_mem {
+        if dst_mem_addr == src_mem_addr {
             // copy within the same memory
-            let mem = self.store.state.get_mem_mut(dst_mem_addr);
-            mem.copy_within(dst as usize, src as usize, size as usize)?;
+            self.store.state.get_mem_mut(dst_mem_addr).copy_within(dst, src, size)?;
         } else {
             // copy between two memories
-            let src_mem_addr = self.module.resolve_mem_addr(src_mem);
             let (dst_memory, src_memory) = self.store.state.get_mems_mut(dst_mem_addr, src_mem_addr);
-            dst_memory.copy_from_memory(dst as usize, src_memory, src as usize, size as usize)?;
+            dst_memory.copy_from_memory(dst, src_memory, src, size)?;
         }
         Ok(())
     }
 
     fn exec_memory_fill(&mut self, addr: u32) -> Result<(), Trap> {
-        let size = i32::stack_pop(&mut self.store.value_stack);
+        let mem_addr = self.module.resolve_mem_addr(addr);
+        let arch = self.store.state.get_mem(mem_addr).kind.arch();
+        let size = self.pop_mem_operand(arch)?;
         let val = i32::stack_pop(&mut self.store.value_stack);
-        let dst = i32::stack_pop(&mut self.store.value_stack);
-        self.exec_memory_fill_impl(addr, dst, val as u8, size)
+        let dst = self.pop_mem_operand(arch)?;
+        self.exec_memory_fill_impl(mem_addr, dst, val as u8, size)
     }
 
     fn exec_memory_fill_imm(&mut self, addr: u32, val: u8, size: i32) -> Result<(), Trap> {
-        let dst = i32::stack_pop(&mut self.store.value_stack);
-        self.exec_memory_fill_impl(addr, dst, val, size)
+        let mem_addr = self.module.resolve_mem_addr(addr);
+        let dst = self.pop_mem_operand(self.store.state.get_mem(mem_addr).kind.arch())?;
+        self.exec_memory_fill_impl(mem_addr, dst, val, size as u32 as usize)
     }
 
-    fn exec_memory_fill_impl(&mut self, addr: u32, dst: i32, val: u8, size: i32) -> Result<(), Trap> {
-        let mem = self.store.state.get_mem_mut(self.module.resolve_mem_addr(addr));
-        if mem.inner.fill(dst as usize, size as usize, val).is_none() {
+    fn exec_memory_fill_impl(&mut self, mem_addr: MemAddr, dst: usize, val: u8, size: usize) -> Result<(), Trap> {
+        let mem = self.store.state.get_mem_mut(mem_addr);
+        if mem.inner.fill(dst, size, val).is_none() {
             cold_path();
-            return Err(Trap::MemoryOutOfBounds {
-                offset: dst as usize,
-                len: size as usize,
-                max: self.store.state.get_mem(self.module.resolve_mem_addr(addr)).inner.len(),
-            });
+            return Err(Trap::MemoryOutOfBounds { offset: dst, len: size, max: mem.inner.len() });
         }
         Ok(())
     }
 
     fn exec_memory_init(&mut self, data_index: u32, mem_index: u32) -> Result<(), Trap> {
-        let size = i32::stack_pop(&mut self.store.value_stack);
-        let offset = i32::stack_pop(&mut self.store.value_stack);
-        let dst = i32::stack_pop(&mut self.store.value_stack);
+        let mem_addr = self.module.resolve_mem_addr(mem_index);
+        let size = self.pop_mem_operand(MemoryArch::I32)?;
+        let offset = self.pop_mem_operand(MemoryArch::I32)?;
+        let dst = self.pop_mem_operand(self.store.state.get_mem(mem_addr).kind.arch())?;
 
         let data = &self.store.state.data[self.module.resolve_data_addr(data_index) as usize];
-        let mem = &mut self.store.state.memories[self.module.resolve_mem_addr(mem_index) as usize];
-        let data_len = data.data.as_ref().map_or(0, |d| d.len());
-        if ((size + offset) as usize > data_len) || ((dst + size) as usize > mem.inner.len()) {
-            cold_path();
-            return Err(Trap::MemoryOutOfBounds { offset: offset as usize, len: size as usize, max: data_len });
-        }
-
-        if size == 0 {
-            return Ok(());
-        }
-
-        let Some(data) = &data.data else {
+        let mem = &mut self.store.state.memories[mem_addr as usize];
+        let data = data.data.as_deref().unwrap_or(&[]);
+        let Some(src) = offset.checked_add(size).and_then(|end| data.get(offset..end)) else {
             cold_path();
-            return Err(Trap::MemoryOutOfBounds { offset: 0, len: 0, max: 0 });
+            return Err(Trap::MemoryOutOfBounds { offset, len: size, max: data.len() });
         };
 
-        if mem.inner.write_all(dst as usize, &data[offset as usize..((offset + size) as usize)]).is_none() {
+        if mem.inner.write_all(dst, src).is_none() {
             cold_path();
-            return Err(Trap::MemoryOutOfBounds { offset: dst as usize, len: size as usize, max: mem.inner.len() });
+            return Err(Trap::MemoryOutOfBounds { offset: dst, len: size, max: mem.inner.len() });
         }
         Ok(())
     }
 
+    fn pop_mem_operand(&mut self, arch: MemoryArch) -> Result<usize, Trap> {
+        let value = match arch {
+            MemoryArch::I32 => u64::from(<i32>::stack_pop(&mut self.store.value_stack) as u32),
+            MemoryArch::I64 => <i64>::stack_pop(&mut self.store.value_stack) as u64,
+        };
+        usize::try_from(value).map_err(|_| Trap::MemoryOutOfBounds { offset: usize::MAX, len: 1, max: usize::MAX })
+    }
+
     fn exec_table_copy(&mut self, dst_table: u32, src_table: u32) -> Result<(), Trap> {
         let dst_table_addr = self.module.resolve_table_addr(dst_table);
         let src_table_addr = self.module.resolve_table_addr(src_table);
-- 
2.43.0


From 2233b01afb59f79e0741a4f037d9bbedf35a7e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:19 +0000
Subject: [PATCH 04/19] fix: the fused multiply-add store pops an address of
 its memory's width

---
 crates/tinywasm/src/interpreter/executor.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/tinywasm/src/interpreter/executor.rs b/crates/tinywasm/src/interpreter/executor.rs
index 5987757..64c1a36 100644
--- a/crates/tinywasm/src/interpreter/executor.rs
+++ b/crates/tinywasm/src/interpreter/executor.rs
@@ -1168,10 +1168,9 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
         let rhs = T::stack_pop(&mut self.store.value_stack);
         let lhs = T::stack_pop(&mut self.store.value_stack);
         let acc = T::stack_pop(&mut self.store.value_stack);
-        let addr = i32::stack_pop(&mut self.store.value_stack);
         let fma = acc + lhs * rhs;
         let mem = self.store.state.get_mem_mut(self.module.resolve_mem_addr(m.mem_addr()));
-        let addr = mem.effective_addr_32::<N>(addr as u32, m.offset())?;
+        let addr = Self::pop_memory_addr::<N>(&mut self.store.value_stack, mem, m.offset())?;
         fma.store_at(&mut *mem.inner, addr)?;
         Ok(())
     }
-- 
2.43.0


From 1d9378536ccccd4b04c5ce29daa65ae9336fb5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:47 +0000
Subject: [PATCH 05/19] fix: table.fill stores the reference it was given

The operand is already a store address; resolving it again through the instance's function
addresses stored another function or panicked for every instance but the first.
---
 crates/tinywasm/src/instance.rs             |  5 -----
 crates/tinywasm/src/interpreter/executor.rs |  2 +-
 crates/tinywasm/src/store/table.rs          | 20 +-------------------
 3 files changed, 2 insertions(+), 25 deletions(-)

diff --git a/crates/tinywasm/src/instance.rs b/crates/tinywasm/src/instance.rs
index 8cff310..68397ba 100644
--- a/crates/tinywasm/src/instance.rs
+++ b/crates/tinywasm/src/instance.rs
@@ -77,11 +77,6 @@ impl ModuleInstance {
         *self.0.func_type_idxs.get(addr as usize).unwrap_or_else(|| unreachable!("invalid function address: {addr}"))
     }
 
-    #[inline]
-    pub(crate) fn func_addrs(&self) -> &[FuncAddr] {
-        &self.0.func_addrs
-    }
-
     /// resolve a function address to the global store address
     #[inline]
     pub(crate) fn resolve_func_addr(&self, addr: FuncAddr) -> FuncAddr {
diff --git a/crates/tinywasm/src/interpreter/executor.rs b/crates/tinywasm/src/interpreter/executor.rs
index 64c1a36..95fee02 100644
--- a/crates/tinywasm/src/interpreter/executor.rs
+++ b/crates/tinywasm/src/interpreter/executor.rs
@@ -1534,7 +1534,7 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
         let n = self.pop_table_operand(arch)?;
         let val = <ValueRef>::stack_pop(&mut self.store.value_stack);
         let i = self.pop_table_operand(arch)?;
-        self.store.state.get_table_mut(table_addr).fill(self.module.func_addrs(), i, n, val.addr().into())
+        self.store.state.get_table_mut(table_addr).fill(i, n, val.addr().into())
     }
 
     fn pop_table_operand(&mut self, arch: MemoryArch) -> Result<usize, Trap> {
diff --git a/crates/tinywasm/src/store/table.rs b/crates/tinywasm/src/store/table.rs
index d5f1019..c044bf8 100644
--- a/crates/tinywasm/src/store/table.rs
+++ b/crates/tinywasm/src/store/table.rs
@@ -54,8 +54,7 @@ impl TableInstance {
         })
     }
 
-    pub(crate) fn fill(&mut self, func_addrs: &[u32], addr: usize, len: usize, val: TableElement) -> Result<(), Trap> {
-        let val = val.map(|addr| self.resolve_func_ref(func_addrs, addr));
+    pub(crate) fn fill(&mut self, addr: usize, len: usize, val: TableElement) -> Result<(), Trap> {
         let range = self.checked_range(addr, len)?;
         self.elements[range].fill(val);
         Ok(())
@@ -105,16 +104,6 @@ impl TableInstance {
         self.elements.len()
     }
 
-    fn resolve_func_ref(&self, func_addrs: &[u32], addr: Addr) -> Addr {
-        if self.kind.element_type != WasmType::RefFunc {
-            return addr;
-        }
-
-        *func_addrs
-            .get(addr as usize)
-            .expect("error initializing table: function not found. This should have been caught by the validator")
-    }
-
     pub(crate) fn init(&mut self, offset: usize, init: &[TableElement]) -> Result<(), Trap> {
         let range = self.checked_range(offset, init.len())?;
         self.elements[range].copy_from_slice(init);
@@ -145,13 +134,6 @@ impl TableElement {
             Self::Initialized(addr) => Some(*addr),
         }
     }
-
-    pub(crate) fn map(self, f: impl FnOnce(Addr) -> Addr) -> Self {
-        match self {
-            Self::Uninitialized => Self::Uninitialized,
-            Self::Initialized(addr) => Self::Initialized(f(addr)),
-        }
-    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From b003d0b206ce23a9dc54564336b89cfde2e5f49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:31 +0000
Subject: [PATCH 06/19] fix: a tail call to a host function returns from its
 caller

return_call and return_call_indirect to a host function went on with the instruction after them.
---
 crates/tinywasm/src/interpreter/executor.rs | 31 +++++++++++++++------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/crates/tinywasm/src/interpreter/executor.rs b/crates/tinywasm/src/interpreter/executor.rs
index 95fee02..89f87f9 100644
--- a/crates/tinywasm/src/interpreter/executor.rs
+++ b/crates/tinywasm/src/interpreter/executor.rs
@@ -225,9 +225,9 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
             Call(v) => { self.exec_call_direct(*v)?; return Ok(None); }
             CallSelf => { self.exec_call_self()?; return Ok(None); }
             CallIndirect(ty, table) => { self.exec_call_indirect::<false>(*ty, *table)?; return Ok(None); }
-            ReturnCall(v) => { self.exec_return_call_direct(*v)?; return Ok(None); }
+            ReturnCall(v) => { return self.exec_return_call_direct(*v); }
             ReturnCallSelf => { self.exec_return_call_self()?; return Ok(None); }
-            ReturnCallIndirect(ty, table) => { self.exec_call_indirect::<true>(*ty, *table)?; return Ok(None); }
+            ReturnCallIndirect(ty, table) => { return self.exec_call_indirect::<true>(*ty, *table); }
             Jump(ip) => { self.cf.instr_ptr = *ip as usize; return Ok(None); }
             JumpIfZero32(ip) => if self.exec_jump_zero_32(*ip) { return Ok(None) },
             JumpIfNonZero32(ip) => if self.exec_jump_non_zero_32(*ip) { return Ok(None) },
@@ -976,6 +976,11 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
         Ok(())
     }
 
+    fn exec_return_call_host(&mut self, host_func: Rc<HostFunction>) -> Result<Option<()>, Trap> {
+        self.exec_call_host(host_func)?;
+        Ok(self.exec_return().then_some(()))
+    }
+
     fn exec_call_direct(&mut self, v: u32) -> Result<(), Trap> {
         self.charge_call_fuel(FUEL_COST_CALL_TOTAL);
         let addr = self.module.resolve_func_addr(v);
@@ -985,12 +990,12 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
         }
     }
 
-    fn exec_return_call_direct(&mut self, v: u32) -> Result<(), Trap> {
+    fn exec_return_call_direct(&mut self, v: u32) -> Result<Option<()>, Trap> {
         self.charge_call_fuel(FUEL_COST_CALL_TOTAL);
         let addr = self.module.resolve_func_addr(v);
         match self.store.state.get_func(addr) {
-            crate::FunctionInstance::Wasm(wasm_func) => self.exec_return_call(wasm_func.clone(), addr),
-            crate::FunctionInstance::Host(host_func) => self.exec_call_host(host_func.clone()),
+            crate::FunctionInstance::Wasm(wasm_func) => self.exec_return_call(wasm_func.clone(), addr).map(|()| None),
+            crate::FunctionInstance::Host(host_func) => self.exec_return_call_host(host_func.clone()),
         }
     }
 
@@ -1019,7 +1024,11 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
         Ok(())
     }
 
-    fn exec_call_indirect<const IS_RETURN_CALL: bool>(&mut self, type_addr: u32, table_addr: u32) -> Result<(), Trap> {
+    fn exec_call_indirect<const IS_RETURN_CALL: bool>(
+        &mut self,
+        type_addr: u32,
+        table_addr: u32,
+    ) -> Result<Option<()>, Trap> {
         self.charge_call_fuel(FUEL_COST_CALL_TOTAL);
 
         // verify that the table is of the right type, this should be validated by the parser already
@@ -1050,9 +1059,10 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
                 }
 
                 match IS_RETURN_CALL {
-                    true => self.exec_return_call(wasm_func.clone(), func_ref),
-                    false => self.exec_call(wasm_func.clone(), func_ref),
+                    true => self.exec_return_call(wasm_func.clone(), func_ref)?,
+                    false => self.exec_call(wasm_func.clone(), func_ref)?,
                 }
+                Ok(None)
             }
             crate::FunctionInstance::Host(host_func) => {
                 if host_func.ty != *call_ty {
@@ -1063,7 +1073,10 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
                     });
                 }
 
-                self.exec_call_host(host_func.clone())
+                match IS_RETURN_CALL {
+                    true => self.exec_return_call_host(host_func.clone()),
+                    false => self.exec_call_host(host_func.clone()).map(|()| None),
+                }
             }
         }
     }
-- 
2.43.0


From 39764834581fde1df6c2057e9a8372cf9a1b442f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:00 +0000
Subject: [PATCH 07/19] fix: imports of globals, tables and memories of another
 store are refused

---
 crates/tinywasm/src/imports.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/crates/tinywasm/src/imports.rs b/crates/tinywasm/src/imports.rs
index 056d706..ce001e7 100644
--- a/crates/tinywasm/src/imports.rs
+++ b/crates/tinywasm/src/imports.rs
@@ -221,9 +221,18 @@ impl Imports {
         for import in &*module.imports {
             let (val, func_handle) = if let Some(defined) = self.take_defined(import) {
                 match defined {
-                    Extern::Global(global) => (ExternVal::Global(global.0.addr), None),
-                    Extern::Table(table) => (ExternVal::Table(table.0.addr), None),
-                    Extern::Memory(memory) => (ExternVal::Memory(memory.0.addr), None),
+                    Extern::Global(global) => {
+                        global.0.validate_store(store)?;
+                        (ExternVal::Global(global.0.addr), None)
+                    }
+                    Extern::Table(table) => {
+                        table.0.validate_store(store)?;
+                        (ExternVal::Table(table.0.addr), None)
+                    }
+                    Extern::Memory(memory) => {
+                        memory.0.validate_store(store)?;
+                        (ExternVal::Memory(memory.0.addr), None)
+                    }
                     Extern::Function(func) => (ExternVal::Func(func.addr), Some(func)),
                 }
             } else {
-- 
2.43.0


From 467b58e5ea8445a6c3974e1dc7e435e3a3f5bbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:01 +0000
Subject: [PATCH 08/19] fix: a growing call stack keeps to its maximum size

An amortised reservation may hand out more capacity than asked for, and capacity is what the limit is checked against.
---
 crates/tinywasm/src/interpreter/stack/call_stack.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tinywasm/src/interpreter/stack/call_stack.rs b/crates/tinywasm/src/interpreter/stack/call_stack.rs
index 62f1f8e..cc3782e 100644
--- a/crates/tinywasm/src/interpreter/stack/call_stack.rs
+++ b/crates/tinywasm/src/interpreter/stack/call_stack.rs
@@ -56,7 +56,7 @@ impl CallStack {
         }
 
         let target_capacity = required_len.max(self.stack.capacity().max(1).saturating_mul(2)).min(self.max_size);
-        let Ok(()) = self.stack.try_reserve(target_capacity.saturating_sub(self.stack.len())) else {
+        let Ok(()) = self.stack.try_reserve_exact(target_capacity.saturating_sub(self.stack.len())) else {
             cold_path();
             return Err(Trap::CallStackOverflow);
         };
-- 
2.43.0


From b238fb10655210db57c2f613314706ff36fade9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:04 +0000
Subject: [PATCH 09/19] fix: byte sizes of 64 bit memories do not overflow

A declared 2^48 pages of 64 KiB is 2^64 bytes: the product panicked, or wrapped to 0 without overflow checks.
---
 crates/types/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/types/src/lib.rs b/crates/types/src/lib.rs
index fcac23c..2e1cfe5 100644
--- a/crates/types/src/lib.rs
+++ b/crates/types/src/lib.rs
@@ -574,12 +574,12 @@ impl MemoryType {
 
     #[inline]
     pub const fn initial_size(&self) -> u64 {
-        self.page_count_initial * self.page_size()
+        self.page_count_initial.saturating_mul(self.page_size())
     }
 
     #[inline]
     pub const fn max_size(&self) -> u64 {
-        self.page_count_max() * self.page_size()
+        self.page_count_max().saturating_mul(self.page_size())
     }
 
     /// Set a different memory architecture.
-- 
2.43.0


From 53a93a40f4cc4903145e1b8a4d211bc60728c3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:30 +0000
Subject: [PATCH 10/19] fix: a memory larger than supported is refused instead
 of panicking

A 64 bit memory without a maximum may declare more than the 4 GiB this implementation supports.
---
 crates/tinywasm/src/store/memory/instance.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/tinywasm/src/store/memory/instance.rs b/crates/tinywasm/src/store/memory/instance.rs
index be0f3b4..afc7d37 100644
--- a/crates/tinywasm/src/store/memory/instance.rs
+++ b/crates/tinywasm/src/store/memory/instance.rs
@@ -57,7 +57,10 @@ impl MemoryInstance {
     }
 
     pub(crate) fn new(kind: MemoryType, backend: &MemoryBackend) -> Result<Self> {
-        assert!(kind.page_count_initial() <= kind.page_count_max());
+        if kind.page_count_initial() > kind.page_count_max() {
+            cold_path();
+            return Err(Error::UnsupportedFeature("memory size exceeds the supported maximum"));
+        }
 
         let initial_len = usize::try_from(kind.initial_size())
             .map_err(|_| Error::UnsupportedFeature("memory size exceeds the host address space"))?;
@@ -80,7 +83,10 @@ impl MemoryInstance {
     }
 
     pub(crate) fn new_lazy(kind: MemoryType, backend: &MemoryBackend) -> Result<Self> {
-        assert!(kind.page_count_initial() <= kind.page_count_max());
+        if kind.page_count_initial() > kind.page_count_max() {
+            cold_path();
+            return Err(Error::UnsupportedFeature("memory size exceeds the supported maximum"));
+        }
 
         let initial_len = usize::try_from(kind.initial_size())
             .map_err(|_| Error::UnsupportedFeature("memory size exceeds the host address space"))?;
-- 
2.43.0


From e8bfbd576d05a23061990b25bea5d4bb6dc6ea19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:10 +0000
Subject: [PATCH 11/19] fix: memory.init of a 64 bit memory takes 32 bit source
 and length

---
 crates/parser/src/visit.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/parser/src/visit.rs b/crates/parser/src/visit.rs
index dae9ff2..a450c1a 100644
--- a/crates/parser/src/visit.rs
+++ b/crates/parser/src/visit.rs
@@ -375,10 +375,8 @@ impl<'a> wasmparser::VisitOperator<'a> for FunctionBuilder<'_> {
         global [] => [Addr] { visit_global_get(global_index: u32) => GlobalGet }
         memory_index [] => [Addr] { visit_memory_size(memory: u32) => MemorySize }
         memory_index [Addr] => [Addr] { visit_memory_grow(memory: u32) => MemoryGrow }
-        memory_index [Addr, S32, Addr] => [] {
-            visit_memory_init(data_index: u32, memory: u32) => MemoryInit,
-            visit_memory_fill(memory: u32) => MemoryFill,
-        }
+        memory_index [Addr, S32, S32] => [] { visit_memory_init(data_index: u32, memory: u32) => MemoryInit }
+        memory_index [Addr, S32, Addr] => [] { visit_memory_fill(memory: u32) => MemoryFill }
         table [Addr] => [S32] { visit_table_get(table: u32) => TableGet }
         table [Addr, S32] => [] { visit_table_set(table: u32) => TableSet }
         table [] => [Addr] { visit_table_size(table: u32) => TableSize }
-- 
2.43.0


From 7429e705556dada3992b7b47bbae1bebd4208d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:53 +0000
Subject: [PATCH 12/19] fix: a trapped resumable execution can not be resumed
 again

---
 crates/tinywasm/src/func.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/tinywasm/src/func.rs b/crates/tinywasm/src/func.rs
index 9777a47..8de91ba 100644
--- a/crates/tinywasm/src/func.rs
+++ b/crates/tinywasm/src/func.rs
@@ -439,7 +439,10 @@ impl<'store> FuncExecution<'store> {
         let result = run(self.store, callframe);
         self.store.exit_execution();
 
-        match result? {
+        // a trap ends the execution, its frames can not be resumed
+        let result = result.inspect_err(|_| self.state = FuncExecutionState::Completed { result: None })?;
+
+        match result {
             crate::interpreter::ExecState::Completed => {
                 let result_ty = self.store.state.get_func(root_func_addr).ty().clone();
                 self.state = FuncExecutionState::Completed { result: None };
-- 
2.43.0


From fc7ca715168411e64089a3502d1338d2033f5e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:53 +0000
Subject: [PATCH 13/19] fix: no fuel is left over for calls after a fueled
 execution ended

---
 crates/tinywasm/src/store/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/tinywasm/src/store/mod.rs b/crates/tinywasm/src/store/mod.rs
index 61b09ef..c65bce8 100644
--- a/crates/tinywasm/src/store/mod.rs
+++ b/crates/tinywasm/src/store/mod.rs
@@ -104,6 +104,7 @@ impl Store {
 
     pub(crate) fn exit_execution(&mut self) {
         self.execution_active = false;
+        self.execution_fuel = 0;
     }
 }
 
-- 
2.43.0


From 53ec99090641cca5e986ce4b8b1ba0fa01678daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:38 +0000
Subject: [PATCH 14/19] fix: a directly called host function starts with empty
 stacks

---
 crates/tinywasm/src/func.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/crates/tinywasm/src/func.rs b/crates/tinywasm/src/func.rs
index 8de91ba..74af48e 100644
--- a/crates/tinywasm/src/func.rs
+++ b/crates/tinywasm/src/func.rs
@@ -13,6 +13,10 @@ impl Function {
     pub fn call(&self, store: &mut Store, params: &[WasmValue]) -> Result<Vec<WasmValue>> {
         #[inline]
         fn call_inner(func: &Function, store: &mut Store, params: &[WasmValue]) -> Result<Vec<WasmValue>> {
+            // Start from empty stacks, an earlier execution that trapped or was abandoned may have left something behind.
+            store.call_stack.clear();
+            store.value_stack.clear();
+
             let func_instance = store.state.get_func(func.addr);
             let wasm_func = match func_instance {
                 FunctionInstance::Host(host_func) => {
@@ -21,9 +25,7 @@ impl Function {
                 FunctionInstance::Wasm(wasm_func) => wasm_func,
             };
 
-            // Reset stack, push args, allocate locals, create entry frame.
-            store.call_stack.clear();
-            store.value_stack.clear();
+            // Push args, allocate locals, create entry frame.
             store.value_stack.extend_from_wasmvalues(params)?;
             let locals_base = store.value_stack.enter_locals(&wasm_func.func.params, &wasm_func.func.locals)?;
             let callframe = CallFrame::new(func.addr, locals_base, wasm_func.func.locals);
@@ -59,6 +61,10 @@ impl Function {
             store: &mut Store,
             params: &[WasmValue],
         ) -> Result<FuncExecutionState> {
+            // Start from empty stacks, an earlier execution that trapped or was abandoned may have left something behind.
+            store.call_stack.clear();
+            store.value_stack.clear();
+
             let func_instance = store.state.get_func(func.addr);
             match func_instance {
                 FunctionInstance::Host(host_func) => host_func
@@ -66,8 +72,6 @@ impl Function {
                     .call(FuncContext { store, module_addr: func.module_addr }, params)
                     .map(|result| FuncExecutionState::Completed { result: Some(result) }),
                 FunctionInstance::Wasm(wasm_func) => {
-                    store.call_stack.clear();
-                    store.value_stack.clear();
                     store.value_stack.extend_from_wasmvalues(params)?;
                     let locals_base = store.value_stack.enter_locals(&wasm_func.func.params, &wasm_func.func.locals)?;
                     let callframe = CallFrame::new(func.addr, locals_base, wasm_func.func.locals);
-- 
2.43.0


From 3abd951f3ecfb70f62a6437adaf869f2e7478267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:08 +0000
Subject: [PATCH 15/19] fix: a failed instantiation keeps its remaining
 segments and writes no data after an element segment trapped

---
 crates/tinywasm/src/instance.rs  |  7 ++---
 crates/tinywasm/src/store/mod.rs | 46 +++++++++++++++++---------------
 2 files changed, 28 insertions(+), 25 deletions(-)

diff --git a/crates/tinywasm/src/instance.rs b/crates/tinywasm/src/instance.rs
index 68397ba..5f2e675 100644
--- a/crates/tinywasm/src/instance.rs
+++ b/crates/tinywasm/src/instance.rs
@@ -184,8 +184,9 @@ impl ModuleInstance {
         store.init_globals(&mut addrs.globals, &module.globals, &addrs.funcs)?;
         let (elem_addrs, elem_trapped) =
             store.init_elements(&addrs.tables, &addrs.funcs, &addrs.globals, &module.elements)?;
-        let (data_addrs, data_trapped) =
-            store.init_data(&addrs.memories, &addrs.globals, &addrs.funcs, &module.data)?;
+        // nothing is written to the memories once an element segment trapped
+        let (data_addrs, trapped) =
+            store.init_data(&addrs.memories, &addrs.globals, &addrs.funcs, &module.data, elem_trapped)?;
 
         let instance = ModuleInstanceInner {
             store_id: store.id(),
@@ -205,7 +206,7 @@ impl ModuleInstance {
         let instance = ModuleInstance(Rc::new(instance));
         store.add_instance(instance.clone());
 
-        if let Some(trap) = elem_trapped.or(data_trapped) {
+        if let Some(trap) = trapped {
             cold_path();
             return Err(trap.into());
         }
diff --git a/crates/tinywasm/src/store/mod.rs b/crates/tinywasm/src/store/mod.rs
index c65bce8..1db7c5e 100644
--- a/crates/tinywasm/src/store/mod.rs
+++ b/crates/tinywasm/src/store/mod.rs
@@ -356,6 +356,7 @@ impl Store {
     ) -> Result<(Box<[Addr]>, Option<Trap>)> {
         let elem_count = self.state.elements.len();
         let mut elem_addrs = Vec::with_capacity(elem_count);
+        let mut trapped = None;
         for (i, element) in elements.iter().enumerate() {
             let init = element
                 .items
@@ -364,6 +365,9 @@ impl Store {
                 .collect::<Result<Vec<_>>>()?;
 
             let items = match &element.kind {
+                // instantiation already failed, this segment is never copied to its table
+                ElementKind::Active { .. } if trapped.is_some() => Some(init),
+
                 // doesn't need to be initialized, can be initialized lazily using the `table.init` instruction
                 ElementKind::Passive => Some(init),
 
@@ -387,19 +391,15 @@ impl Store {
                     // This isn't mentioned in the spec, but the "unofficial" testsuite has a test for it:
                     // https://github.com/WebAssembly/testsuite/blob/5a1a590603d81f40ef471abba70a90a9ae5f4627/linking.wast#L264-L276
                     // I have NO IDEA why this is allowed, but it is.
-                    let Ok(offset) = usize::try_from(offset) else {
-                        return Ok((
-                            elem_addrs.into_boxed_slice(),
-                            Some(Trap::TableOutOfBounds { offset: usize::MAX, len: init.len(), max: table.size() }),
-                        ));
-                    };
-
-                    if let Err(trap) = table.init(offset, &init) {
-                        return Ok((elem_addrs.into_boxed_slice(), Some(trap)));
+                    let offset = usize::try_from(offset).unwrap_or(usize::MAX);
+                    match table.init(offset, &init) {
+                        // f. Execute the instruction elm.drop i
+                        Ok(()) => None,
+                        Err(trap) => {
+                            trapped = Some(trap);
+                            Some(init)
+                        }
                     }
-
-                    // f. Execute the instruction elm.drop i
-                    None
                 }
             };
 
@@ -408,7 +408,7 @@ impl Store {
         }
 
         // this should be optimized out by the compiler
-        Ok((elem_addrs.into_boxed_slice(), None))
+        Ok((elem_addrs.into_boxed_slice(), trapped))
     }
 
     /// Add data to the store, returning their addresses in the store
@@ -418,11 +418,15 @@ impl Store {
         global_addrs: &[Addr],
         func_addrs: &[FuncAddr],
         data: &[Data],
+        mut trapped: Option<Trap>,
     ) -> Result<(Box<[Addr]>, Option<Trap>)> {
         let data_count = self.state.data.len();
         let mut data_addrs = Vec::with_capacity(data_count);
         for (i, data) in data.iter().enumerate() {
             let data_val = match &data.kind {
+                // instantiation already failed, this segment is never copied to its memory
+                _ if trapped.is_some() => Some(data.data.to_vec()),
+
                 tinywasm_types::DataKind::Active { mem: mem_addr, offset } => {
                     let Some(mem_addr) = mem_addrs.get(*mem_addr as usize) else {
                         return Err(Error::Other(format!("memory {mem_addr} not found for data segment {i}")));
@@ -437,14 +441,12 @@ impl Store {
                     match mem.inner.write_all(offset, &data.data) {
                         Some(()) => None,
                         None => {
-                            return Ok((
-                                data_addrs.into_boxed_slice(),
-                                Some(crate::Trap::MemoryOutOfBounds {
-                                    offset,
-                                    len: data.data.len(),
-                                    max: mem.inner.len(),
-                                }),
-                            ));
+                            trapped = Some(crate::Trap::MemoryOutOfBounds {
+                                offset,
+                                len: data.data.len(),
+                                max: mem.inner.len(),
+                            });
+                            Some(data.data.to_vec())
                         }
                     }
                 }
@@ -456,7 +458,7 @@ impl Store {
         }
 
         // this should be optimized out by the compiler
-        Ok((data_addrs.into_boxed_slice(), None))
+        Ok((data_addrs.into_boxed_slice(), trapped))
     }
 
     pub(crate) fn add_func(&mut self, func: FunctionInstance) -> FuncAddr {
-- 
2.43.0


From 4d75419428da8aca94c6b2cb06be65d6f9f73461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:09 +0000
Subject: [PATCH 16/19] fix: read_js_string decodes surrogate pairs

---
 crates/tinywasm/src/reference.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/crates/tinywasm/src/reference.rs b/crates/tinywasm/src/reference.rs
index e46db51..ae95538 100644
--- a/crates/tinywasm/src/reference.rs
+++ b/crates/tinywasm/src/reference.rs
@@ -310,14 +310,10 @@ impl Memory {
     /// Reads a JavaScript-style utf-16 string from memory.
     pub fn read_js_string(&self, store: &Store, offset: usize, len: usize) -> Result<String> {
         let bytes = self.read_vec(store, offset, len)?;
-        let mut string = String::new();
-        for i in 0..(len / 2) {
-            let c = u16::from_le_bytes([bytes[i * 2], bytes[i * 2 + 1]]);
-            string.push(
-                char::from_u32(u32::from(c)).ok_or_else(|| crate::Error::Other("Invalid UTF-16 string".to_string()))?,
-            );
-        }
-        Ok(string)
+        let units = bytes.chunks_exact(2).map(|unit| u16::from_le_bytes([unit[0], unit[1]]));
+        char::decode_utf16(units)
+            .collect::<Result<String, _>>()
+            .map_err(|_| crate::Error::Other("Invalid UTF-16 string".to_string()))
     }
 }
 
-- 
2.43.0


From 9689ca8ac94df3712044e7d07012c9173716ed2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:07 +0000
Subject: [PATCH 17/19] fix: memory.init counts as a use of its memory, not of
 its segment's index

---
 crates/types/src/instructions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/types/src/instructions.rs b/crates/types/src/instructions.rs
index a22279e..cf8a217 100644
--- a/crates/types/src/instructions.rs
+++ b/crates/types/src/instructions.rs
@@ -305,7 +305,7 @@ pub enum Instruction {
     TableFill(TableAddr),
 
     // > Bulk Memory Instructions
-    MemoryInit(MemAddr, DataAddr),
+    MemoryInit(DataAddr, MemAddr),
     MemoryCopy { dst_mem: MemAddr, src_mem: MemAddr },
     MemoryFill(MemAddr),
     MemoryFillImm(MemAddr, u8, i32),
@@ -468,7 +468,7 @@ impl Instruction {
             | Self::V128Store64Lane(arg, ..) => Some(arg.mem_addr()),
             Self::MemorySize(mem)
             | Self::MemoryGrow(mem)
-            | Self::MemoryInit(mem, ..)
+            | Self::MemoryInit(_, mem)
             | Self::MemoryFill(mem)
             | Self::MemoryFillImm(mem, ..) => Some(*mem),
             Self::MemoryCopy { dst_mem, src_mem } => Some(if *dst_mem >= *src_mem { *dst_mem } else { *src_mem }),
-- 
2.43.0


From f5be346770a3a57254e70e9f5e4b1db1a64c57e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:45 +0000
Subject: [PATCH 18/19] fix: limits of imported memories are compared as
 declared

---
 crates/tinywasm/src/imports.rs | 8 ++++++--
 crates/types/src/lib.rs        | 6 ++++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/tinywasm/src/imports.rs b/crates/tinywasm/src/imports.rs
index ce001e7..4f3f355 100644
--- a/crates/tinywasm/src/imports.rs
+++ b/crates/tinywasm/src/imports.rs
@@ -195,8 +195,12 @@ impl Imports {
             return Err(LinkingError::incompatible_import_type(import).into());
         }
 
-        if expected.page_count_max() > actual.page_count_max() {
-            return Err(LinkingError::incompatible_import_type(import).into());
+        match (expected.declared_page_count_max(), actual.declared_page_count_max()) {
+            (None, Some(_)) => return Err(LinkingError::incompatible_import_type(import).into()),
+            (Some(expected_max), Some(actual_max)) if expected_max > actual_max => {
+                return Err(LinkingError::incompatible_import_type(import).into());
+            }
+            _ => {}
         }
 
         Ok(())
diff --git a/crates/types/src/lib.rs b/crates/types/src/lib.rs
index 2e1cfe5..ea56fef 100644
--- a/crates/types/src/lib.rs
+++ b/crates/types/src/lib.rs
@@ -567,6 +567,12 @@ impl MemoryType {
         if let Some(page_count_max) = self.page_count_max { page_count_max } else { max_page_count(self.page_size()) }
     }
 
+    /// The maximum the type declares, if it declares one.
+    #[inline]
+    pub const fn declared_page_count_max(&self) -> Option<u64> {
+        self.page_count_max
+    }
+
     #[inline]
     pub const fn page_size(&self) -> u64 {
         if let Some(page_size) = self.page_size { page_size } else { MEM_PAGE_SIZE }
-- 
2.43.0


From cdfbe4ef6fb1ab62af4341b87824e181049eb4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:15 +0000
Subject: [PATCH 19/19] fix: builds without std or canonicalize-nans return
 quiet NaNs when rounding

---
 crates/tinywasm/src/interpreter/no_std_floats.rs | 13 +++++++------
 crates/tinywasm/src/interpreter/num_helpers.rs   |  2 +-
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/crates/tinywasm/src/interpreter/no_std_floats.rs b/crates/tinywasm/src/interpreter/no_std_floats.rs
index b6ce998..079e1b2 100644
--- a/crates/tinywasm/src/interpreter/no_std_floats.rs
+++ b/crates/tinywasm/src/interpreter/no_std_floats.rs
@@ -7,20 +7,21 @@ pub(super) trait NoStdFloatExt {
     fn sqrt(self) -> Self;
 }
 
+// `libm` returns a signalling NaN as it is, wasm requires a quiet one: use `+` to quiet it.
 #[rustfmt::skip]
 impl NoStdFloatExt for f64 {
     #[inline] fn round(self) -> Self { libm::round(self) }
-    #[inline] fn ceil(self) -> Self { libm::ceil(self) }
-    #[inline] fn floor(self) -> Self { libm::floor(self) }
-    #[inline] fn trunc(self) -> Self { libm::trunc(self) }
+    #[inline] fn ceil(self) -> Self { if self.is_nan() { self + self } else { libm::ceil(self) } }
+    #[inline] fn floor(self) -> Self { if self.is_nan() { self + self } else { libm::floor(self) } }
+    #[inline] fn trunc(self) -> Self { if self.is_nan() { self + self } else { libm::trunc(self) } }
     #[inline] fn sqrt(self) -> Self { libm::sqrt(self) }
 }
 
 #[rustfmt::skip]
 impl NoStdFloatExt for f32 {
     #[inline] fn round(self) -> Self { libm::roundf(self) }
-    #[inline] fn ceil(self) -> Self { libm::ceilf(self) }
-    #[inline] fn floor(self) -> Self { libm::floorf(self) }
-    #[inline] fn trunc(self) -> Self { libm::truncf(self) }
+    #[inline] fn ceil(self) -> Self { if self.is_nan() { self + self } else { libm::ceilf(self) } }
+    #[inline] fn floor(self) -> Self { if self.is_nan() { self + self } else { libm::floorf(self) } }
+    #[inline] fn trunc(self) -> Self { if self.is_nan() { self + self } else { libm::truncf(self) } }
     #[inline] fn sqrt(self) -> Self { libm::sqrtf(self) }
 }
diff --git a/crates/tinywasm/src/interpreter/num_helpers.rs b/crates/tinywasm/src/interpreter/num_helpers.rs
index 7b3807e..f6d7822 100644
--- a/crates/tinywasm/src/interpreter/num_helpers.rs
+++ b/crates/tinywasm/src/interpreter/num_helpers.rs
@@ -64,7 +64,7 @@ macro_rules! impl_wasm_float_ops {
             fn tw_nearest(self) -> Self {
                 match self {
                     #[cfg(not(feature = "canonicalize-nans"))]
-                    x if x.is_nan() => x, // preserve NaN
+                    x if x.is_nan() => x + x, // preserve NaN, `+` quiets it
                     #[cfg(feature = "canonicalize-nans")]
                     x if x.is_nan() => Self::NAN, // Do not preserve NaN
                     x if x.is_infinite() || x == 0.0 => x, // preserve infinities and zeros
-- 
2.43.0

