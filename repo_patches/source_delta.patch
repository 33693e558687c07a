From d3c2b412de194b27b3e21eee129708805c5b6953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:59:57 +0000
Subject: [PATCH 1/8] fix: do not preallocate vectors from the untrusted length
 prefix

A 5 byte length prefix could request up to 2^32 elements up front, which
aborts the process on allocation failure before any element is read.
---
 whasm/src/binary/core/vec.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/whasm/src/binary/core/vec.rs b/whasm/src/binary/core/vec.rs
index c1f359a..b729fcb 100644
--- a/whasm/src/binary/core/vec.rs
+++ b/whasm/src/binary/core/vec.rs
@@ -55,7 +55,7 @@ use crate::binary::{WasmBinary, WasmBinaryParse, WasmBinaryParseProxy, Result};
 impl<T: WasmBinaryParse> WasmBinaryParse for Vec<T> {
     fn parse<Binary: WasmBinary>(bin: &mut Binary) -> Result<Self> {
         let n: u32 = bin.parse()?;
-        let mut result = Vec::with_capacity(n as usize);
+        let mut result = Vec::new();
         for _ in 0..n {
             result.push(bin.parse()?);
         }
@@ -87,7 +87,7 @@ pub struct UnwrappingVec<T: WasmBinaryParseProxy> ( Vec<T::Inner> );
 impl<T: WasmBinaryParseProxy> WasmBinaryParse for UnwrappingVec<T> {
     fn parse<Binary: WasmBinary>(bin: &mut Binary) -> Result<Self> {
         let n: u32 = bin.parse()?;
-        let mut result = Vec::with_capacity(n as usize);
+        let mut result = Vec::new();
         for _ in 0..n {
             result.push(<T as WasmBinaryParse>::parse(bin)?.unwrap());
         }
-- 
2.43.0


From e95bcffeffd8b4535c80b20d4afa8e9b07b6f865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:59:57 +0000
Subject: [PATCH 2/8] fix: reject modules with a function section but no code
 section

The two lengths were only compared while parsing the code section, so a
module without one parsed successfully and lost its declared functions.
---
 whasm/src/binary/module.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/whasm/src/binary/module.rs b/whasm/src/binary/module.rs
index f109086..e17de81 100644
--- a/whasm/src/binary/module.rs
+++ b/whasm/src/binary/module.rs
@@ -67,6 +67,10 @@ impl WasmBinaryParse for module::Module {
             }
         }
 
+        if result.funcs.len() != func_types.len() {
+            return Err(Error::UnexpectedEndOfFile);
+        }
+
         Ok(result)
     }
 }
-- 
2.43.0


From 7bd3d5c00da88e173f0f4cb665a27979367cac10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:59:57 +0000
Subject: [PATCH 3/8] fix: allow branching to the label of the function body

The outermost label of a function body is a valid branch target, but
validation rejected it.
---
 whasm/src/validation/idx.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/whasm/src/validation/idx.rs b/whasm/src/validation/idx.rs
index 562bb2b..7d56300 100644
--- a/whasm/src/validation/idx.rs
+++ b/whasm/src/validation/idx.rs
@@ -71,10 +71,9 @@ impl<'a> Validate<'a> for idx::Label {
     type ValidationResult = Frame<'a>;
     fn validate(&'a self, ctx: &mut Context<'a>) -> Result<Self::ValidationResult> {
         let idx = self.0 as usize;
-        // the stack must have at least idx+1 elements
-        // since the base frame can not be indexed with
-        // a label.
-        if !( idx + 1 < ctx.stacks.frames.len() ) {
+        // label 0 is the innermost frame, the outermost
+        // label is the function body itself.
+        if !( idx < ctx.stacks.frames.len() ) {
             return Err(Error::UnexpectedEndOfFile);
         }
         let idx = ctx.stacks.frames.len() - idx - 1;
-- 
2.43.0


From cb5ad351d16f1eabcd17981ddd3a948f2604afba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:59:57 +0000
Subject: [PATCH 4/8] fix: allow memories of 65536 pages

The limit of a memory is 2^16 pages inclusive.
---
 whasm/src/validation/ty.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whasm/src/validation/ty.rs b/whasm/src/validation/ty.rs
index 9ddcaa9..999f6de 100644
--- a/whasm/src/validation/ty.rs
+++ b/whasm/src/validation/ty.rs
@@ -38,7 +38,7 @@ impl<'a> Validate<'a> for ty::Mem {
     type ValidationResult = ();
     fn validate(&'a self, ctx: &mut Context<'a>) -> Result<Self::ValidationResult> {
         let range = self.lim.validate(ctx)?;
-        if !(range <= (std::u16::MAX as u32)) {
+        if !(range <= (std::u16::MAX as u32) + 1) {
             return Err(Error::UnexpectedEndOfFile);
         }
         Ok(())
-- 
2.43.0


From 486b365605688e4ae6e47c7fea7c4e7237694f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:59:57 +0000
Subject: [PATCH 5/8] fix: validate global initializers against the imported
 globals

Only imported globals are visible to global initializers. The context was
built from the globals of the module itself.
---
 whasm/src/validation/module.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whasm/src/validation/module.rs b/whasm/src/validation/module.rs
index f4d45f8..1c86d1e 100644
--- a/whasm/src/validation/module.rs
+++ b/whasm/src/validation/module.rs
@@ -31,7 +31,7 @@ impl<'a> Validate<'a> for module::Module {
     fn validate(&'a self, _ctx: &mut Context<'a>) -> Result<Self::ValidationResult> {
         let mut ctx = Context::from(&self)?;
         let mut ctx_globals = Context::default();
-        ctx_globals.use_globals(&self.globals);
+        ctx_globals.use_imported_globals(&self.imports);
 
         for ty in self.types.iter() {
             ty.validate(&mut ctx)?;
-- 
2.43.0


From 72da1d4f4ce1cd40eca8b36c9bae04a15ef97986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:59:57 +0000
Subject: [PATCH 6/8] fix: count imported tables and memories towards the limit
 of one

---
 whasm/src/validation/module.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/whasm/src/validation/module.rs b/whasm/src/validation/module.rs
index 1c86d1e..846bdca 100644
--- a/whasm/src/validation/module.rs
+++ b/whasm/src/validation/module.rs
@@ -68,10 +68,10 @@ impl<'a> Validate<'a> for module::Module {
             exports.push(ty);
         }
 
-        if !(self.tables.len() <= 1) {
+        if !(ctx.tables.len() <= 1) {
             return Err(Error::UnexpectedEndOfFile);
         }
-        if !(self.mems.len() <= 1) {
+        if !(ctx.mems.len() <= 1) {
             return Err(Error::UnexpectedEndOfFile);
         }
 
-- 
2.43.0


From 80b42c1f2ed429934e9acc79688eab4cda0dfd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:59:57 +0000
Subject: [PATCH 7/8] fix: reject memory accesses with more than their natural
 alignment

The alignment is the first immediate of a memory instruction. The check
had been disabled, and was given the offset instead.
---
 whasm/src/validation/instr.rs | 58 ++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 31 deletions(-)

diff --git a/whasm/src/validation/instr.rs b/whasm/src/validation/instr.rs
index f750d85..ccf4e7b 100644
--- a/whasm/src/validation/instr.rs
+++ b/whasm/src/validation/instr.rs
@@ -160,74 +160,74 @@ impl<'a> Validate<'a> for instr::Instr {
             }
             // ... reserved ...
             // Memory load
-            /* 0x28 */ Instr::I32Load(_offset, align) => {
+            /* 0x28 */ Instr::I32Load(align, _offset) => {
                 validate_load(ctx, *align, 32, ty::Val::I32)?;
             }
-            /* 0x29 */ Instr::I64Load(_offset, align) => {
+            /* 0x29 */ Instr::I64Load(align, _offset) => {
                 validate_load(ctx, *align, 64, ty::Val::I64)?;
             }
-            /* 0x2A */ Instr::F32Load(_offset, align) => {
+            /* 0x2A */ Instr::F32Load(align, _offset) => {
                 validate_load(ctx, *align, 32, ty::Val::F32)?;
             }
-            /* 0x2B */ Instr::F64Load(_offset, align) => {
+            /* 0x2B */ Instr::F64Load(align, _offset) => {
                 validate_load(ctx, *align, 64, ty::Val::F64)?;
             }
-            /* 0x2C */ Instr::I32Load8S(_offset, align) => {
+            /* 0x2C */ Instr::I32Load8S(align, _offset) => {
                 validate_load(ctx, *align, 8, ty::Val::I32)?;
             }
-            /* 0x2D */ Instr::I32Load8U(_offset, align) => {
+            /* 0x2D */ Instr::I32Load8U(align, _offset) => {
                 validate_load(ctx, *align, 8, ty::Val::I32)?;
             }
-            /* 0x2E */ Instr::I32Load16S(_offset, align) => {
+            /* 0x2E */ Instr::I32Load16S(align, _offset) => {
                 validate_load(ctx, *align, 16, ty::Val::I32)?;
             }
-            /* 0x2F */ Instr::I32Load16U(_offset, align) => {
+            /* 0x2F */ Instr::I32Load16U(align, _offset) => {
                 validate_load(ctx, *align, 16, ty::Val::I32)?;
             }
-            /* 0x30 */ Instr::I64Load8S(_offset, align) => {
+            /* 0x30 */ Instr::I64Load8S(align, _offset) => {
                 validate_load(ctx, *align, 8, ty::Val::I64)?;
             }
-            /* 0x31 */ Instr::I64Load8U(_offset, align) => {
+            /* 0x31 */ Instr::I64Load8U(align, _offset) => {
                 validate_load(ctx, *align, 8, ty::Val::I64)?;
             }
-            /* 0x32 */ Instr::I64Load16S(_offset, align) => {
+            /* 0x32 */ Instr::I64Load16S(align, _offset) => {
                 validate_load(ctx, *align, 16, ty::Val::I64)?;
             }
-            /* 0x33 */ Instr::I64Load16U(_offset, align) => {
+            /* 0x33 */ Instr::I64Load16U(align, _offset) => {
                 validate_load(ctx, *align, 16, ty::Val::I64)?;
             }
-            /* 0x34 */ Instr::I64Load32S(_offset, align) => {
+            /* 0x34 */ Instr::I64Load32S(align, _offset) => {
                 validate_load(ctx, *align, 32, ty::Val::I64)?;
             }
-            /* 0x35 */ Instr::I64Load32U(_offset, align) => {
+            /* 0x35 */ Instr::I64Load32U(align, _offset) => {
                 validate_load(ctx, *align, 32, ty::Val::I64)?;
             }
             // Memory store
-            /* 0x36 */ Instr::I32Store(_offset, align) => {
+            /* 0x36 */ Instr::I32Store(align, _offset) => {
                 validate_store(ctx, *align, 32, ty::Val::I32)?;
             }
-            /* 0x37 */ Instr::I64Store(_offset, align) => {
+            /* 0x37 */ Instr::I64Store(align, _offset) => {
                 validate_store(ctx, *align, 64, ty::Val::I64)?;
             }
-            /* 0x38 */ Instr::F32Store(_offset, align) => {
+            /* 0x38 */ Instr::F32Store(align, _offset) => {
                 validate_store(ctx, *align, 32, ty::Val::F32)?;
             }
-            /* 0x39 */ Instr::F64Store(_offset, align) => {
+            /* 0x39 */ Instr::F64Store(align, _offset) => {
                 validate_store(ctx, *align, 64, ty::Val::F64)?;
             }
-            /* 0x3A */ Instr::I32Store8(_offset, align) => {
+            /* 0x3A */ Instr::I32Store8(align, _offset) => {
                 validate_store(ctx, *align, 8, ty::Val::I32)?;
             }
-            /* 0x3B */ Instr::I32Store16(_offset, align) => {
+            /* 0x3B */ Instr::I32Store16(align, _offset) => {
                 validate_store(ctx, *align, 16, ty::Val::I32)?;
             }
-            /* 0x3C */ Instr::I64Store8(_offset, align) => {
+            /* 0x3C */ Instr::I64Store8(align, _offset) => {
                 validate_store(ctx, *align, 8, ty::Val::I64)?;
             }
-            /* 0x3D */ Instr::I64Store16(_offset, align) => {
+            /* 0x3D */ Instr::I64Store16(align, _offset) => {
                 validate_store(ctx, *align, 16, ty::Val::I64)?;
             }
-            /* 0x3E */ Instr::I64Store32(_offset, align) => {
+            /* 0x3E */ Instr::I64Store32(align, _offset) => {
                 validate_store(ctx, *align, 32, ty::Val::I64)?;
             }
             // Memory management
@@ -760,25 +760,21 @@ impl<'a> Validate<'a> for instr::Instr {
     }
 }
 
-fn validate_load<'a>(ctx: &mut Context<'a>, _align: u32, _size: u32, val: ty::Val) -> Result<()> {
+fn validate_load<'a>(ctx: &mut Context<'a>, align: u32, size: u32, val: ty::Val) -> Result<()> {
     idx::Mem(0).validate(ctx)?;
-    /*
-    if !( 1<<align <= size/8 ) {
+    if !( align < 32 && 1u32<<align <= size/8 ) {
         return Err(Error::UnexpectedEndOfFile);
     }
-    */
     ctx.stacks.pop_operands(&[ty::Val::I32])?;
     ctx.stacks.push_operands(&[val]);
     Ok(())
 }
 
-fn validate_store<'a>(ctx: &mut Context<'a>, _align: u32, _size: u32, val: ty::Val) -> Result<()> {
+fn validate_store<'a>(ctx: &mut Context<'a>, align: u32, size: u32, val: ty::Val) -> Result<()> {
     idx::Mem(0).validate(ctx)?;
-    /*
-    if !( 1<<align <= size/8 ) {
+    if !( align < 32 && 1u32<<align <= size/8 ) {
         return Err(Error::UnexpectedEndOfFile);
     }
-    */
     ctx.stacks.pop_operands(&[ty::Val::I32, val])?;
     Ok(())
 }
\ No newline at end of file
-- 
2.43.0


From 816c4847d4300ac326da94abe808f7f59ebac9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:19:52 +0000
Subject: [PATCH 8/8] fix: say unsigned in the message for out-of-range
 unsigned integers

---
 whasm/src/binary/core/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whasm/src/binary/core/error.rs b/whasm/src/binary/core/error.rs
index fd03eaa..dc7817c 100644
--- a/whasm/src/binary/core/error.rs
+++ b/whasm/src/binary/core/error.rs
@@ -15,7 +15,7 @@ pub enum Error {
     #[error(display = "Reading out of range signed integer.")]
     OutOfRangeSignedInteger,
 
-    #[error(display = "Reading out of range signed integer.")]
+    #[error(display = "Reading out of range unsigned integer.")]
     OutOfRangeUnsignedInteger,
 
     #[error(display = "Byte sequence is not a valid utf-8 encoding.")]
-- 
2.43.0

