From 9ebc89e9429d1c8d5873eea7e41b27e75c60f431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:30 +0000
Subject: [PATCH 01/16] fix: keep repeated opcode bytes when generating
 instruction encodings

Encoding::put_opcode_part dropped an opcode byte equal to an earlier one,
so PMINSB (66 0F 38 38 /r) was emitted as 66 0F 38 /r.
---
 xten0/src/asm/inst.rs            | 6 ++++--
 xten1/asm/inst.llrl              | 6 ++++--
 xtencg/src/instr/encoding.rs     | 7 ++-----
 xtencg/supported-instructions.md | 2 +-
 4 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/xten0/src/asm/inst.rs b/xten0/src/asm/inst.rs
index 9c994c7..32e8b52 100644
--- a/xten0/src/asm/inst.rs
+++ b/xten0/src/asm/inst.rs
@@ -14831,12 +14831,13 @@ pub struct Pminsb<Op0, Op1>(pub Op0, pub Op1);
 /// pminsb xmm xmm: Compare packed signed byte integers in xmm1 and xmm2/m128 and store packed minimum values in xmm1.
 impl<W: io::Write + ?Sized> WriteInst<W> for Pminsb<Xmm, Xmm> {
     fn write_inst(&self, w: &mut W) -> io::Result<()> {
-        // 66 0F 38 /r
+        // 66 0F 38 38 /r
         let modrm = ModRM::new(self.0, self.1);
         put(w, 0x66)?;
         puts(w, modrm.rex_byte(false))?;
         put(w, 0x0F)?;
         put(w, 0x38)?;
+        put(w, 0x38)?;
         put(w, modrm.byte())?;
         puts(w, modrm.sib_byte())?;
         puts(w, modrm.disp_bytes().into_iter().flatten())?;
@@ -14847,12 +14848,13 @@ impl<W: io::Write + ?Sized> WriteInst<W> for Pminsb<Xmm, Xmm> {
 /// pminsb xmm m128: Compare packed signed byte integers in xmm1 and xmm2/m128 and store packed minimum values in xmm1.
 impl<W: io::Write + ?Sized> WriteInst<W> for Pminsb<Xmm, Memory> {
     fn write_inst(&self, w: &mut W) -> io::Result<()> {
-        // 66 0F 38 /r
+        // 66 0F 38 38 /r
         let modrm = ModRM::new(self.0, self.1);
         put(w, 0x66)?;
         puts(w, modrm.rex_byte(false))?;
         put(w, 0x0F)?;
         put(w, 0x38)?;
+        put(w, 0x38)?;
         put(w, modrm.byte())?;
         puts(w, modrm.sib_byte())?;
         puts(w, modrm.disp_bytes().into_iter().flatten())?;
diff --git a/xten1/asm/inst.llrl b/xten1/asm/inst.llrl
index 567046d..b993329 100644
--- a/xten1/asm/inst.llrl
+++ b/xten1/asm/inst.llrl
@@ -11814,13 +11814,14 @@
 ; pminsb xmm xmm: Compare packed signed byte integers in xmm1 and xmm2/m128 and store packed minimum values in xmm1.
 (instance WriteInst.Pminsb.Xmm.Xmm (forall W Error) (WriteInst W Error (Pminsb Xmm Xmm)) (where (Write W Error))
   (function (write-inst! w inst)
-    ; 66 0F 38 /r
+    ; 66 0F 38 38 /r
     (with1 (pminsb: (let op0) (let op1)) inst
       (let ([modrm (mod-rm/new op0 op1)])
         (write-u8! 102 w)!
         (when-match1 (some (let b)) (mod-rm/rex-byte? modrm #f) (write-u8! b w)!)
         (write-u8! 15 w)!
         (write-u8! 56 w)!
+        (write-u8! 56 w)!
         (write-u8! (mod-rm/byte modrm) w)!
         (when-match1 (some (let b)) (mod-rm/sib-byte? modrm) (write-u8! b w)!)
         (write-bytes! (mod-rm/disp-bytes modrm) w)!
@@ -11829,13 +11830,14 @@
 ; pminsb xmm m128: Compare packed signed byte integers in xmm1 and xmm2/m128 and store packed minimum values in xmm1.
 (instance WriteInst.Pminsb.Xmm.Memory (forall W Error) (WriteInst W Error (Pminsb Xmm Memory)) (where (Write W Error))
   (function (write-inst! w inst)
-    ; 66 0F 38 /r
+    ; 66 0F 38 38 /r
     (with1 (pminsb: (let op0) (let op1)) inst
       (let ([modrm (mod-rm/new op0 op1)])
         (write-u8! 102 w)!
         (when-match1 (some (let b)) (mod-rm/rex-byte? modrm #f) (write-u8! b w)!)
         (write-u8! 15 w)!
         (write-u8! 56 w)!
+        (write-u8! 56 w)!
         (write-u8! (mod-rm/byte modrm) w)!
         (when-match1 (some (let b)) (mod-rm/sib-byte? modrm) (write-u8! b w)!)
         (write-bytes! (mod-rm/disp-bytes modrm) w)!
diff --git a/xtencg/src/instr/encoding.rs b/xtencg/src/instr/encoding.rs
index 0b297a0..d324d7d 100644
--- a/xtencg/src/instr/encoding.rs
+++ b/xtencg/src/instr/encoding.rs
@@ -155,11 +155,8 @@ impl Encoding {
     }
 
     pub fn put_opcode_part(&mut self, byte: u8) -> Result<(), &'static str> {
-        if self.opcode().any(|b| b == byte) {
-            Ok(())
-        } else {
-            self.opcode.push(byte).map_err(|_| "Too much opcode")
-        }
+        // An opcode may contain the same byte twice (e.g. 0F 38 38), so every part must be kept
+        self.opcode.push(byte).map_err(|_| "Too much opcode")
     }
 
     pub fn reg_in_opcode(&self) -> Option<Size> {
diff --git a/xtencg/supported-instructions.md b/xtencg/supported-instructions.md
index cdcdd9d..2ccd8e8 100644
--- a/xtencg/supported-instructions.md
+++ b/xtencg/supported-instructions.md
@@ -1673,7 +1673,7 @@
 # pminsb
 | Instruction | Encoding | Description |
 | ----------- | -------- | ----------- |
-| pminsb xmm xmm/m128 | `66 0F 38 /r [reg=0, rm=1]` | Compare packed signed byte integers in xmm1 and xmm2/m128 and store packed minimum values in xmm1. |
+| pminsb xmm xmm/m128 | `66 0F 38 38 /r [reg=0, rm=1]` | Compare packed signed byte integers in xmm1 and xmm2/m128 and store packed minimum values in xmm1. |
 
 # pminsd
 | Instruction | Encoding | Description |
-- 
2.43.0


From 715425ca4a581b16b2da77cc2734c95d3a151752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:36 +0000
Subject: [PATCH 02/16] fix: account for the immediate operand in movq label,
 imm32

The displacement field of movq label, imm32 is followed by the 4-byte
immediate, so it lies 8 bytes before the next instruction, not 4.
---
 xten0/src/asm/writer.rs | 11 ++++++-----
 xten1/asm/writer.llrl   |  5 +++--
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/xten0/src/asm/writer.rs b/xten0/src/asm/writer.rs
index 93fece2..1a3e207 100644
--- a/xten0/src/asm/writer.rs
+++ b/xten0/src/asm/writer.rs
@@ -425,8 +425,9 @@ impl_conditional_jmp!(Jpo::jpo);
 impl_conditional_jmp!(Js::js);
 impl_conditional_jmp!(Jz::jz);
 
+// The displacement field is followed by the immediate operand ($imm bytes), if any.
 macro_rules! impl_movq_label_o {
-    ($o:tt) => {
+    ($o:tt, $imm:expr) => {
         /// movq Label O
         impl<W> WriteInst<W> for super::inst::Movq<Label, $o>
         where
@@ -434,16 +435,16 @@ macro_rules! impl_movq_label_o {
         {
             fn write_inst(&self, w: &mut W) -> io::Result<()> {
                 w.movq(memory(Rip + 0i32), self.1)?;
-                w.use_relative(-4, self.0, -4, RelocType::PcRel32);
+                w.use_relative(-4 - $imm, self.0, -4 - $imm, RelocType::PcRel32);
                 Ok(())
             }
         }
     };
 }
 
-impl_movq_label_o!(Gpr64);
-impl_movq_label_o!(Xmm);
-impl_movq_label_o!(i32);
+impl_movq_label_o!(Gpr64, 0);
+impl_movq_label_o!(Xmm, 0);
+impl_movq_label_o!(i32, 4);
 
 macro_rules! impl_movq_o_label {
     ($o:tt) => {
diff --git a/xten1/asm/writer.llrl b/xten1/asm/writer.llrl
index fd33fe5..e322e54 100644
--- a/xten1/asm/writer.llrl
+++ b/xten1/asm/writer.llrl
@@ -305,14 +305,15 @@
         (.use-relative! w -1 label -1 reloc-type:pc-rel8)
         (ok unit)))))
 
-($for1 $O (Gpr64 Xmm I32)
+; the displacement field is followed by the immediate operand, if any
+($for ($O $offset) ((Gpr64 -4) (Xmm -4) (I32 -8))
   ; movq Label $O
   (instance ($symbol WriteInst.Section.Movq.Label. $O)
     (forall W Error) (WriteInst W Error (Movq Label $O)) (where (Write W Error) (Section W))
     (function (write-inst! w inst)
       (with1 (movq: (let label) (let o)) inst
         (write-inst! w (movq: (memory (+. rip 0 {I32})) o))!
-        (.use-relative! w -4 label -4 reloc-type:pc-rel32)
+        (.use-relative! w $offset label $offset reloc-type:pc-rel32)
         (ok unit)))))
 
 ($for1 $O (Gpr64 Xmm)
-- 
2.43.0


From 0840030af57b4fdc3fa488b6e6df586bad53fbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:36 +0000
Subject: [PATCH 03/16] fix: reject out-of-range JIT relocations

The range check could never be true, so that an offset that does not fit
was truncated silently.
---
 xten0/src/jit.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xten0/src/jit.rs b/xten0/src/jit.rs
index ff21ee5..3b2f39d 100644
--- a/xten0/src/jit.rs
+++ b/xten0/src/jit.rs
@@ -186,7 +186,7 @@ impl<'a, R: SymbolResolver> Linker<'a, R> {
                 // S + A - P
                 let src = self.reloc_target_direct(reloc)?;
                 let value = unsafe { src.wrapping_offset(addend).offset_from(dest) };
-                if value < (i8::MIN as isize) && (i8::MAX as isize) < value {
+                if value < (i8::MIN as isize) || (i8::MAX as isize) < value {
                     Err(Error::OffsetOutOfRange(reloc.ty, value))?;
                 }
                 unsafe { ptr::write(dest as *mut i8, value as i8) };
@@ -195,7 +195,7 @@ impl<'a, R: SymbolResolver> Linker<'a, R> {
                 // S + A - P
                 let src = self.reloc_target_direct(reloc)?;
                 let value = unsafe { src.wrapping_offset(addend).offset_from(dest) };
-                if value < (i32::MIN as isize) && (i32::MAX as isize) < value {
+                if value < (i32::MIN as isize) || (i32::MAX as isize) < value {
                     Err(Error::OffsetOutOfRange(reloc.ty, value))?;
                 }
                 unsafe { ptr::write(dest as *mut i32, value as i32) };
@@ -204,7 +204,7 @@ impl<'a, R: SymbolResolver> Linker<'a, R> {
                 // <AddressTableEntry> + A - P
                 let src = self.reloc_target_address_table_entry(reloc)? as *const u8;
                 let value = unsafe { src.wrapping_offset(addend).offset_from(dest) };
-                if value < (i32::MIN as isize) && (i32::MAX as isize) < value {
+                if value < (i32::MIN as isize) || (i32::MAX as isize) < value {
                     Err(Error::OffsetOutOfRange(reloc.ty, value))?;
                 }
                 unsafe { ptr::write(dest as *mut i32, value as i32) };
-- 
2.43.0


From ad38ca85f6423040388e0a54d94e0fa6e1b77d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:22 +0000
Subject: [PATCH 04/16] fix: report a program killed by a signal as a failure

status.code() is None in that case, so that llrl0 exited with 0.
---
 llrl0/src/main.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/llrl0/src/main.rs b/llrl0/src/main.rs
index a7107a6..012dad0 100644
--- a/llrl0/src/main.rs
+++ b/llrl0/src/main.rs
@@ -1,14 +1,15 @@
 use llrl::prelude::*;
 use std::env;
 use std::io;
+use std::os::unix::process::ExitStatusExt;
 use std::path;
 use std::process::{exit, ExitStatus};
 
 fn main() {
     match run_pipeline() {
         Ok(status) => {
-            if let Some(code) = status.and_then(|s| s.code()) {
-                exit(code);
+            if let Some(status) = status {
+                exit(exit_code(status));
             }
         }
         Err(e) => {
@@ -18,6 +19,14 @@ fn main() {
     }
 }
 
+/// The exit code to report for the program run. A program terminated by a signal is a failure.
+fn exit_code(status: ExitStatus) -> i32 {
+    status
+        .code()
+        .or_else(|| status.signal().map(|signal| 128 + signal))
+        .unwrap_or(1)
+}
+
 #[derive(thiserror::Error, Debug)]
 pub enum Error {
     #[error(transparent)]
-- 
2.43.0


From 6524dbf8817693c27d8d796d779b194d101f9df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:05 +0000
Subject: [PATCH 05/16] fix: make float comparisons with NaN false in the chibi
 backend

---
 llrl0/src/backend/chibi/codegen.rs | 23 ++++++++++++++---------
 llrl1/backend/chibi/codegen.llrl   | 23 ++++++++++++++++-------
 2 files changed, 30 insertions(+), 16 deletions(-)

diff --git a/llrl0/src/backend/chibi/codegen.rs b/llrl0/src/backend/chibi/codegen.rs
index ae754a5..710c997 100644
--- a/llrl0/src/backend/chibi/codegen.rs
+++ b/llrl0/src/backend/chibi/codegen.rs
@@ -972,17 +972,22 @@ impl<'a> FunctionCodegen<'a> {
             }
             FEq | FLt | FLe | FGt | FGe => {
                 self.pop_eightbyte(Xmm1)?; // left operand
-                match b_layout.size {
-                    4 => self.w.comiss(Xmm1, Xmm0)?,
-                    8 => self.w.comisd(Xmm1, Xmm0)?,
-                    s => unsupported_op!(op, size: s),
+                // Comparisons with NaN are false: CF, ZF, and PF are set if unordered
+                match (op, b_layout.size) {
+                    (FLt | FLe, 4) => self.w.comiss(Xmm0, Xmm1)?,
+                    (FLt | FLe, 8) => self.w.comisd(Xmm0, Xmm1)?,
+                    (_, 4) => self.w.comiss(Xmm1, Xmm0)?,
+                    (_, 8) => self.w.comisd(Xmm1, Xmm0)?,
+                    (_, s) => unsupported_op!(op, size: s),
                 }
                 match op {
-                    FEq => self.w.sete(Al)?,
-                    FLt => self.w.setb(Al)?,
-                    FLe => self.w.setbe(Al)?,
-                    FGt => self.w.seta(Al)?,
-                    FGe => self.w.setae(Al)?,
+                    FEq => {
+                        self.w.sete(Al)?;
+                        self.w.setnp(Cl)?;
+                        self.w.andb(Al, Cl)?;
+                    }
+                    FLt | FGt => self.w.seta(Al)?,
+                    FLe | FGe => self.w.setae(Al)?,
                     _ => panic!(),
                 }
                 Some(Layout::integer(1))
diff --git a/llrl1/backend/chibi/codegen.llrl b/llrl1/backend/chibi/codegen.llrl
index 9efab8d..8ca2afb 100644
--- a/llrl1/backend/chibi/codegen.llrl
+++ b/llrl1/backend/chibi/codegen.llrl
@@ -849,14 +849,23 @@
       (some b-layout)]
     [ir/binary:f-eq
       (..pop-eightbyte! cg xmm1)! ; left operand
-      (match (layout/size b-layout)
-        [4 (comiss! cg xmm1 xmm0)!]
-        [8 (comisd! cg xmm1 xmm0)!]
-        [(let s) (unsupported-op op size: s)])
+      ; Comparisons with NaN are false: CF, ZF, and PF are set if unordered
+      (if (or (eq? op ir/binary:f-lt) (eq? op ir/binary:f-le))
+        (match (layout/size b-layout)
+          [4 (comiss! cg xmm0 xmm1)!]
+          [8 (comisd! cg xmm0 xmm1)!]
+          [(let s) (unsupported-op op size: s)])
+        (match (layout/size b-layout)
+          [4 (comiss! cg xmm1 xmm0)!]
+          [8 (comisd! cg xmm1 xmm0)!]
+          [(let s) (unsupported-op op size: s)]))
       (match op
-        [ir/binary:f-eq (sete! cg al)!]
-        [ir/binary:f-lt (setb! cg al)!]
-        [ir/binary:f-le (setbe! cg al)!]
+        [ir/binary:f-eq
+          (sete! cg al)!
+          (setnp! cg cl)!
+          (andb! cg al cl)!]
+        [ir/binary:f-lt (seta! cg al)!]
+        [ir/binary:f-le (setae! cg al)!]
         [ir/binary:f-gt (seta! cg al)!]
         [ir/binary:f-ge (setae! cg al)!]
         [_ (unsupported-op op)])
-- 
2.43.0


From 7192a04b6d850dbff003a4b0555e5d93b0a495ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:23 +0000
Subject: [PATCH 06/16] fix: report a failure to flush the object file

---
 xten0/src/elf/adapter.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xten0/src/elf/adapter.rs b/xten0/src/elf/adapter.rs
index a412e09..113b54c 100644
--- a/xten0/src/elf/adapter.rs
+++ b/xten0/src/elf/adapter.rs
@@ -2,14 +2,15 @@ use super::format::*;
 use crate::asm::{Binding, LocationSection, Object, RelocTarget};
 use std::collections::HashMap;
 use std::fs;
-use std::io;
+use std::io::{self, Write};
 use std::path::Path;
 
 pub fn write_relocatable_object(path: &Path, o: Object) -> io::Result<()> {
     let name = path.file_name().unwrap().to_str().unwrap();
     let o = into_relocatable_object(name, o);
     let mut file = io::BufWriter::new(fs::File::create(path)?);
-    o.write(&mut file)
+    o.write(&mut file)?;
+    file.flush()
 }
 
 /// Convert `asm::Object` into a relocatable ELF object.
-- 
2.43.0


From 79a473a9cc09cc9f0734e573689b7579358e9b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:01 +0000
Subject: [PATCH 07/16] fix: bind address table references to local symbols in
 the JIT

---
 xten0/src/jit.rs               | 11 +++++++----
 xten0/src/jit/address_table.rs |  5 +++++
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/xten0/src/jit.rs b/xten0/src/jit.rs
index 3b2f39d..92d567d 100644
--- a/xten0/src/jit.rs
+++ b/xten0/src/jit.rs
@@ -237,10 +237,13 @@ impl<'a, R: SymbolResolver> Linker<'a, R> {
         reloc: &'a Reloc,
     ) -> Result<*const *const u8, Error> {
         match reloc.target {
-            RelocTarget::Symbol(ref symbol) => self
-                .address_table
-                .prepare(symbol, || self.symbol_table.resolve(symbol))?
-                .ok_or_else(|| Error::UndefinedSymbol(symbol.to_owned())),
+            RelocTarget::Symbol(ref symbol) => match self.local_symbols.get(symbol.as_str()) {
+                Some(ptr) => Ok(self.address_table.put(*ptr)?),
+                None => self
+                    .address_table
+                    .prepare(symbol, || self.symbol_table.resolve(symbol))?
+                    .ok_or_else(|| Error::UndefinedSymbol(symbol.to_owned())),
+            },
             RelocTarget::Section(_) => Err(Error::UnsupportedSectionRelocation(reloc.ty)),
         }
     }
diff --git a/xten0/src/jit/address_table.rs b/xten0/src/jit/address_table.rs
index 8129c76..f0b7cdd 100644
--- a/xten0/src/jit/address_table.rs
+++ b/xten0/src/jit/address_table.rs
@@ -16,6 +16,11 @@ impl AddressTable {
         }
     }
 
+    /// Add an entry that is not shared by name. This is used for local symbols.
+    pub fn put(&mut self, ptr: *const u8) -> Result<*const *const u8, Error> {
+        self.payload.put(ptr)
+    }
+
     pub fn prepare(
         &mut self,
         symbol: &str,
-- 
2.43.0


From 45e329ffc7d2fc6eb31f7663089e1ffbc30d6ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:10 +0000
Subject: [PATCH 08/16] fix: convert floats of 2^63 and above to U64 in the
 chibi backend

---
 llrl0/src/backend/chibi/codegen.rs | 45 ++++++++++++++++++++++++++++--
 1 file changed, 42 insertions(+), 3 deletions(-)

diff --git a/llrl0/src/backend/chibi/codegen.rs b/llrl0/src/backend/chibi/codegen.rs
index 710c997..4e276a0 100644
--- a/llrl0/src/backend/chibi/codegen.rs
+++ b/llrl0/src/backend/chibi/codegen.rs
@@ -795,13 +795,52 @@ impl<'a> FunctionCodegen<'a> {
                     (FToS(_) | FToU(_), 8, 1 | 2) | (FToS(_), 8, 4) => {
                         self.w.cvttsd2si(Eax, Xmm0)?;
                     }
-                    (FToU(_), 4, 4) | (FToS(_) | FToU(_), 4, 8) => {
+                    (FToU(_), 4, 4) | (FToS(_), 4, 8) => {
                         self.w.cvttss2si(Rax, Xmm0)?;
                     }
-                    (FToU(_), 8, 4) | (FToS(_) | FToU(_), 8, 8) => {
-                        // FIXME: More precise convertion for (FToS(_) | FToU(_), 8, 8)
+                    (FToU(_), 8, 4) | (FToS(_), 8, 8) => {
                         self.w.cvttsd2si(Rax, Xmm0)?;
                     }
+                    (FToU(_), s @ (4 | 8), 8) => {
+                        // cvttss2si and cvttsd2si cover less than 2^63
+                        let large_label = self.w.issue_label();
+                        let cont_label = self.w.issue_label();
+                        match s {
+                            4 => {
+                                self.w.movl(Eax, 2f32.powi(63).to_bits() as i32)?;
+                                self.w.movd(Xmm1, Eax)?;
+                                self.w.ucomiss(Xmm0, Xmm1)?;
+                            }
+                            8 => {
+                                self.w.movq(Rax, 2f64.powi(63).to_bits() as i64)?;
+                                self.w.movq(Xmm1, Rax)?;
+                                self.w.ucomisd(Xmm0, Xmm1)?;
+                            }
+                            _ => panic!(),
+                        }
+                        self.w.jae(Short(large_label))?;
+                        match s {
+                            4 => self.w.cvttss2si(Rax, Xmm0)?,
+                            8 => self.w.cvttsd2si(Rax, Xmm0)?,
+                            _ => panic!(),
+                        }
+                        self.w.jmpq(Short(cont_label))?;
+                        self.w.define(large_label, false);
+                        match s {
+                            4 => {
+                                self.w.subss(Xmm0, Xmm1)?;
+                                self.w.cvttss2si(Rax, Xmm0)?;
+                            }
+                            8 => {
+                                self.w.subsd(Xmm0, Xmm1)?;
+                                self.w.cvttsd2si(Rax, Xmm0)?;
+                            }
+                            _ => panic!(),
+                        }
+                        self.w.movq(Rdx, i64::MIN)?;
+                        self.w.xorq(Rax, Rdx)?;
+                        self.w.define(cont_label, false);
+                    }
                     (FTrunc(_), 8, 4) => self.w.cvtsd2ss(Xmm0, Xmm0)?,
                     (FExt(_), 4, 8) => self.w.cvtss2sd(Xmm0, Xmm0)?,
                     (_, from, to) => unsupported_op!(op, from: from, to: to),
-- 
2.43.0


From 61fbcaa602e1fc6e3587c182dcf1bef129c6ec27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:00 +0000
Subject: [PATCH 09/16] fix: move a struct field to its own register class in
 the chibi backend

---
 llrl0/src/backend/chibi/codegen.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/llrl0/src/backend/chibi/codegen.rs b/llrl0/src/backend/chibi/codegen.rs
index 4e276a0..2c7018c 100644
--- a/llrl0/src/backend/chibi/codegen.rs
+++ b/llrl0/src/backend/chibi/codegen.rs
@@ -640,7 +640,10 @@ impl<'a> FunctionCodegen<'a> {
             }
             StructElem(_, i) => {
                 let (offset, layout) = a_layout.composite.as_ref().unwrap().elems[*i].clone();
-                if offset != 0 || a_layout.num_eightbytes() > layout.num_eightbytes() {
+                if offset != 0
+                    || a_layout.num_eightbytes() > layout.num_eightbytes()
+                    || a_layout.class != layout.class
+                {
                     let diff = (a_layout.num_eightbytes() - layout.num_eightbytes()) * 8;
                     self.push(&a_layout)?;
                     self.slide_in_stack(offset, diff, &layout)?;
-- 
2.43.0


From 3e3219cb04bbdc68879b59be3c2f821f588879eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:37 +0000
Subject: [PATCH 10/16] fix: evaluate a diverging callee and its arguments in
 the chibi backend

---
 llrl0/src/backend/chibi/codegen.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/llrl0/src/backend/chibi/codegen.rs b/llrl0/src/backend/chibi/codegen.rs
index 2c7018c..a2fd2ac 100644
--- a/llrl0/src/backend/chibi/codegen.rs
+++ b/llrl0/src/backend/chibi/codegen.rs
@@ -404,7 +404,13 @@ impl<'a> FunctionCodegen<'a> {
     }
 
     fn eval_call(&mut self, callee: &Rt, args: &[Rt]) -> io::Result<Option<Layout>> {
-        let callee_ty = continues!(callee.ty());
+        let callee_ty = match callee.ty() {
+            Some(ty) => ty,
+            None => {
+                continues!(self.eval_seq(args)?);
+                diverges!(self.eval(callee)?)
+            }
+        };
         let Ct::Clos(callee_ty) = callee_ty.as_ref() else {
             panic!("Type error: Callee is not a closure")
         };
-- 
2.43.0


From 5be5d2a8a7ed17a6b082fd154176f2e1895f07b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:34 +0000
Subject: [PATCH 11/16] fix: restore the stack depth after a while loop in the
 chibi backend

---
 llrl0/src/backend/chibi/codegen.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/llrl0/src/backend/chibi/codegen.rs b/llrl0/src/backend/chibi/codegen.rs
index a2fd2ac..de038f4 100644
--- a/llrl0/src/backend/chibi/codegen.rs
+++ b/llrl0/src/backend/chibi/codegen.rs
@@ -590,12 +590,15 @@ impl<'a> FunctionCodegen<'a> {
         self.w.cmpb(Al, 0i8)?;
         self.w.je(cont_label)?;
 
+        let init_depth = self.stack_frame.depth;
+
         if let Some(l) = self.eval(body)? {
             self.discard(&l)?;
             self.w.jmpq(init_label)?;
         }
 
         self.w.define(cont_label, false);
+        self.stack_frame.depth = init_depth;
         Ok(Some(Layout::unit()))
     }
 
-- 
2.43.0


From edc9a61e73aa32823143daa08e799a530023680b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:07 +0000
Subject: [PATCH 12/16] fix: give a float >= comparison the type Bool in the IR

Binary::ty listed FGe among the operators whose result has the type of their
operands, so a consumer of the IR type treated the result of FGe as a float.
---
 llrl0/src/lowering/ir/rt.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/llrl0/src/lowering/ir/rt.rs b/llrl0/src/lowering/ir/rt.rs
index 8584886..ace6eb1 100644
--- a/llrl0/src/lowering/ir/rt.rs
+++ b/llrl0/src/lowering/ir/rt.rs
@@ -432,11 +432,9 @@ impl Binary {
             Store => Cow::Owned(Ct::Unit),
             Offset => b.ty()?,
             IShl | IAShr | ILShr | IAnd | IOr | IXor | SAdd | SSub | SMul | SDiv | SRem | UAdd
-            | USub | UMul | UDiv | URem | FGe | FAdd | FSub | FMul | FDiv | FRem | MathPow => {
-                a.ty()?
-            }
+            | USub | UMul | UDiv | URem | FAdd | FSub | FMul | FDiv | FRem | MathPow => a.ty()?,
             PtrEq | PtrLt | PtrLe | PtrGt | PtrGe | IEq | SLt | SLe | SGt | SGe | ULt | ULe
-            | UGt | UGe | FEq | FLt | FLe | FGt | StringEq => Cow::Owned(Ct::BOOL),
+            | UGt | UGe | FEq | FLt | FLe | FGt | FGe | StringEq => Cow::Owned(Ct::BOOL),
             StringConstruct => Cow::Owned(Ct::String),
             StringCmp => Cow::Owned(Ct::S(32)),
             StringConcat => Cow::Owned(Ct::String),
-- 
2.43.0


From 30eba25722a789ad211b63f3203ea524335f6903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:12 +0000
Subject: [PATCH 13/16] fix: duplicated definitions in inlined arguments crash
 the compiler

A transparent function that mentions a parameter more than once duplicates
the argument expression, so the definitions in it are visited repeatedly.
Renaming asserted that this never happens.
---
 llrl0/src/lowering/ir/rewriter.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/llrl0/src/lowering/ir/rewriter.rs b/llrl0/src/lowering/ir/rewriter.rs
index d79a62f..6202357 100644
--- a/llrl0/src/lowering/ir/rewriter.rs
+++ b/llrl0/src/lowering/ir/rewriter.rs
@@ -554,8 +554,10 @@ impl<F: FnMut() -> RtId> Rewriter for ReallocRts<F> {
     type Error = ();
 
     fn after_rt_def(&mut self, id: &mut RtId, _ty: impl FnOnce() -> Ct) -> Result<(), Self::Error> {
+        // The same definition may appear more than once if the expression containing it has been
+        // duplicated. Their scopes do not overlap, so we can simply use the most recent one.
         let new_id = (self.0)();
-        assert!(self.1.insert(*id, new_id).is_none());
+        self.1.insert(*id, new_id);
         *id = new_id;
         Ok(())
     }
-- 
2.43.0


From b44691f69f6c059c62677d3ac9fa35879ccadcc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:42 +0000
Subject: [PATCH 14/16] fix: continuations of an inlined function keep their
 identifiers

---
 llrl0/src/lowering/ir/rewriter.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/llrl0/src/lowering/ir/rewriter.rs b/llrl0/src/lowering/ir/rewriter.rs
index 6202357..331f035 100644
--- a/llrl0/src/lowering/ir/rewriter.rs
+++ b/llrl0/src/lowering/ir/rewriter.rs
@@ -46,6 +46,14 @@ pub trait Rewriter: Sized {
     ) -> Result<(), Self::Error> {
         Ok(())
     }
+
+    fn after_rt_cont_use(&mut self, _id: &mut RtId) -> Result<(), Self::Error> {
+        Ok(())
+    }
+
+    fn after_rt_cont_def(&mut self, _id: &mut RtId) -> Result<(), Self::Error> {
+        Ok(())
+    }
 }
 
 pub trait Rewrite {
@@ -215,6 +223,7 @@ impl Rewrite for Rt {
                     rewriter.rewrite(&mut call.args)?;
                 }
                 Self::ContCall(call) => {
+                    rewriter.after_rt_cont_use(&mut call.cont)?;
                     rewriter.rewrite(&mut call.args)?;
                     rewriter.rewrite(&mut call.ret)?;
                 }
@@ -493,6 +502,7 @@ impl Rewrite for RtVar {
 
 impl Rewrite for RtCont {
     fn rewrite<T: Rewriter>(&mut self, rewriter: &mut T) -> Result<(), T::Error> {
+        rewriter.after_rt_cont_def(&mut self.id)?;
         rewriter.rewrite(&mut self.params)?;
         rewriter.rewrite(&mut self.body)
     }
@@ -568,4 +578,12 @@ impl<F: FnMut() -> RtId> Rewriter for ReallocRts<F> {
         }
         Ok(())
     }
+
+    fn after_rt_cont_def(&mut self, id: &mut RtId) -> Result<(), Self::Error> {
+        self.after_rt_def(id, || Ct::Unit)
+    }
+
+    fn after_rt_cont_use(&mut self, id: &mut RtId) -> Result<(), Self::Error> {
+        self.after_rt_use(id)
+    }
 }
-- 
2.43.0


From 09b845c2883f50a2c1b0781ea8f512d03d250f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:08 +0000
Subject: [PATCH 15/16] fix: matching an instance against a constraint no
 longer binds the constraint's type variables

With an instance whose type parameter occurs twice, such as (Conv A A), the
second occurrence is already bound to a part of the constraint, and the match
went on to bind type variables in it. A constraint put off from a local
function was then satisfied by deciding a variable of the enclosing scope.
---
 .../module/sema/type_inference/unification.rs |  3 ++-
 llrl0/src/unification/types.rs                | 21 ++++++++++++++++---
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/llrl0/src/module/sema/type_inference/unification.rs b/llrl0/src/module/sema/type_inference/unification.rs
index a20cfee..af07121 100644
--- a/llrl0/src/module/sema/type_inference/unification.rs
+++ b/llrl0/src/module/sema/type_inference/unification.rs
@@ -118,8 +118,9 @@ impl Constraint {
             (&self.rep, &other.rep),
             (ConstraintRep::Class(a, _), ConstraintRep::Class(b, _)) if a == b
         ));
+        let fixed_vars = other.get_vars(Level::top(), ctx);
         for (a, b) in self.types().zip(other.types()) {
-            ctx.match_to_right(a, b)?;
+            ctx.match_to_right_on(&fixed_vars, a, b)?;
         }
         Ok(())
     }
diff --git a/llrl0/src/unification/types.rs b/llrl0/src/unification/types.rs
index 39f612f..d6a7fa4 100644
--- a/llrl0/src/unification/types.rs
+++ b/llrl0/src/unification/types.rs
@@ -170,6 +170,21 @@ impl<E: KindEnvironment> Context<E> {
     }
 
     pub fn match_to_right<A, B>(&mut self, a: A, b: B) -> Result<(), Error>
+    where
+        Self: Resolve<A> + Resolve<B>,
+    {
+        let b = self.resolve(b);
+        let fixed_vars = self.get_vars(b, Level::top());
+        self.match_to_right_on(&fixed_vars, a, b)
+    }
+
+    /// Match `a` to `b` without binding any of `fixed_vars`, the type variables of the right side.
+    pub fn match_to_right_on<A, B>(
+        &mut self,
+        fixed_vars: &BTreeSet<Var>,
+        a: A,
+        b: B,
+    ) -> Result<(), Error>
     where
         Self: Resolve<A> + Resolve<B>,
     {
@@ -177,7 +192,7 @@ impl<E: KindEnvironment> Context<E> {
         let b = self.resolve(b);
         match (a, b) {
             (a, b) if a == b => Ok(()),
-            (Type::Var(var, k, lv), t) => {
+            (Type::Var(var, k, lv), t) if !fixed_vars.contains(&var) => {
                 // In fact, occurs check is not required for all use cases of `match_to_right`.
                 // Add an option to skip occurs check for optimization?
                 if self.occurs_check(t, var).is_err() {
@@ -194,9 +209,9 @@ impl<E: KindEnvironment> Context<E> {
                 if a_args.len() != b_args.len() {
                     return Err(Error::Mismatch);
                 }
-                self.match_to_right(a_callee, b_callee)?;
+                self.match_to_right_on(fixed_vars, a_callee, b_callee)?;
                 for (a, b) in a_args.iter().zip(b_args.iter()) {
-                    self.match_to_right(a, b)?;
+                    self.match_to_right_on(fixed_vars, a, b)?;
                 }
                 Ok(())
             }
-- 
2.43.0


From ac24a233d4b075f8e218cda5ce75d61e254315c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:59 +0000
Subject: [PATCH 16/16] fix: encode and decode characters above U+1B333 as
 UTF-8

---
 std/internal/utf-8.llrl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/std/internal/utf-8.llrl b/std/internal/utf-8.llrl
index f8a6b2e..fe7c63b 100644
--- a/std/internal/utf-8.llrl
+++ b/std/internal/utf-8.llrl
@@ -41,7 +41,7 @@
         (if (and (<= 2048 x 65535) (not (<= 55296 x 57343))) (decode:produce x) decode:invalid))]
     [(complete:4 (let a) (let b) (let c) (let d))
       (let1 x (bw| (&<< a 7 18) (bw| (&<< b 63 12) (bw| (&<< c 63 6) (&<< d 63 0))))
-        (if (<= 65536 x 111411) (decode:produce x) decode:invalid))]))
+        (if (<= 65536 x 1114111) (decode:produce x) decode:invalid))]))
 
 (function (decode-step s n) {(-> (Option Incomplete) U8 Decode)}
   (match (: s (input-class n))
@@ -86,7 +86,7 @@
       (encode:success (complete:2 (>>&| x 6 31 192) (>>&| x 0 63 128)))]
     [(and (<= 2048 x 65535) (not (<= 55296 x 57343)))
       (encode:success (complete:3 (>>&| x 12 15 224) (>>&| x 6 63 128) (>>&| x 0 63 128)))]
-    [(<= 65536 x 111411)
+    [(<= 65536 x 1114111)
       (encode:success (complete:4 (>>&| x 18 7 240) (>>&| x 12 63 128) (>>&| x 6 63 128) (>>&| x 0 63 128)))]
     [else
       encode:invalid]))
-- 
2.43.0

