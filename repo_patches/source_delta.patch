From 0acb5b49232c6232bd014dbc548b49812215dc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:01:55 +0000
Subject: [PATCH 01/24] fix: do not overflow on x86-64 operands located below
 the thunk template

The distance from the template to an IP-relative operand was computed with a
plain subtraction. It overflowed, and panicked in builds with overflow checks,
whenever the operand lies at a lower address than the template.
---
 src/safe_jit/x86_64.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/safe_jit/x86_64.rs b/src/safe_jit/x86_64.rs
index fe9e237..5a65412 100644
--- a/src/safe_jit/x86_64.rs
+++ b/src/safe_jit/x86_64.rs
@@ -47,7 +47,7 @@ pub fn try_reloc_thunk_template<'a>(
         let needs_reloc = instruction.is_ip_rel_memory_operand();
         if needs_reloc {
             let closure_ptr_offset = magic_offset.wrapping_add_signed(consts::CLOSURE_ADDR_OFFSET);
-            if (instruction.memory_displacement64() - ip) as usize == closure_ptr_offset {
+            if instruction.memory_displacement64().wrapping_sub(ip) as usize == closure_ptr_offset {
                 thunk_asm_offset = Some(decoder.position() - instruction.len());
                 break;
             }
-- 
2.43.0


From d4e9933fd69e6fe839470b1b1204f59c05510934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:01:55 +0000
Subject: [PATCH 02/24] fix: use the right index for the closure register write
 on x86-64

The write of the closure register by the thunk asm block was recorded at the
byte length of its instruction instead of at the end of the prologue. An
IP-relative instruction further in than that could not use the register, and
the prologue was refused with NoAvailableRegister.
---
 src/safe_jit/x86_64.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/safe_jit/x86_64.rs b/src/safe_jit/x86_64.rs
index 5a65412..ee61ba0 100644
--- a/src/safe_jit/x86_64.rs
+++ b/src/safe_jit/x86_64.rs
@@ -89,7 +89,7 @@ pub fn try_reloc_thunk_template<'a>(
     let cl_read_reg = decoder.decode().op0_register();
 
     let mut gpr_ops = [GprOp::None; 16];
-    gpr_ops[cl_read_reg as usize - Register::RAX as usize] = GprOp::Write(instruction.len());
+    gpr_ops[cl_read_reg as usize - Register::RAX as usize] = GprOp::Write(instructions.len());
 
     let mut info_factory = InstructionInfoFactory::new();
     let mut chosen_registers = Vec::with_capacity(num_ip_rel_reloc);
-- 
2.43.0


From ab3e6a919fef6c476e1e49f31a152a6187ede96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:06:11 +0000
Subject: [PATCH 03/24] fix: account for conditional branches when relocating
 x86-64 prologues

Relocating an IP-relative instruction makes it longer. A conditional branch
jumping over such an instruction kept its old displacement and landed in the
middle of other code. These prologues are now refused.

The search for a free register also treated code skipped by a branch as always
executed. It could pick a register that is still live when the branch is taken.
---
 src/safe_jit/x86_64.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/safe_jit/x86_64.rs b/src/safe_jit/x86_64.rs
index ee61ba0..130bbf9 100644
--- a/src/safe_jit/x86_64.rs
+++ b/src/safe_jit/x86_64.rs
@@ -72,6 +72,17 @@ pub fn try_reloc_thunk_template<'a>(
         });
     }
 
+    // relocated instructions grow, so a conditional branch jumping over one (in either direction)
+    // would no longer land on its target
+    let jumps_over_reloc = |jcc: &Instruction| {
+        let target = jcc.near_branch_target();
+        let span = jcc.ip().min(target)..jcc.ip().max(target);
+        instructions.iter().any(|(instr, needs_reloc)| *needs_reloc && span.contains(&instr.ip()))
+    };
+    if instructions.iter().any(|(i, _)| i.is_jcc_short_or_near() && jumps_over_reloc(i)) {
+        return Err(JitError::UnsupportedControlFlow);
+    }
+
     // go through the instructions backwards and track the last visible read/write
     // operation on general purpose registers
     //
@@ -94,6 +105,17 @@ pub fn try_reloc_thunk_template<'a>(
     let mut info_factory = InstructionInfoFactory::new();
     let mut chosen_registers = Vec::with_capacity(num_ip_rel_reloc);
     for (i, &(instr, needs_reloc)) in instructions.iter().enumerate().rev() {
+        if instr.is_jcc_short_or_near() {
+            // writes skipped when the branch is taken do not clobber the register on all paths
+            let target = instr.near_branch_target();
+            for op in gpr_ops.iter_mut() {
+                if matches!(*op, GprOp::Write(w) if instructions.get(w).is_some_and(|(i, _)| i.ip() < target))
+                {
+                    *op = GprOp::None;
+                }
+            }
+        }
+
         let info = info_factory.info_options(&instr, InstructionInfoOptions::NO_MEMORY_USAGE);
         for used_gpr in info.used_registers().iter().filter(|u| u.register().is_gpr()) {
             let full_register = used_gpr.register().full_register();
-- 
2.43.0


From 4de09ae6747d817fab2f4b9248d742bc94eef3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:10:10 +0000
Subject: [PATCH 04/24] fix: sign-extend the full 21-bit immediate of AArch64
 ADR and ADRP

The immediate was sign-extended from 20 bits. Targets more than 512 KiB (ADR)
or 2 GiB (ADRP) away were relocated to the wrong address.
---
 src/safe_jit/arm_util/encoding_aarch64.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/safe_jit/arm_util/encoding_aarch64.rs b/src/safe_jit/arm_util/encoding_aarch64.rs
index 167531e..0d6541d 100644
--- a/src/safe_jit/arm_util/encoding_aarch64.rs
+++ b/src/safe_jit/arm_util/encoding_aarch64.rs
@@ -104,7 +104,7 @@ impl Adr {
 
     pub fn target_pc(&self, pc: usize) -> usize {
         let unsigned_imm = self.imm_hi() << 2 | self.imm_lo();
-        let signed_imm = ((unsigned_imm << 12) as i32 >> 12) as isize;
+        let signed_imm = ((unsigned_imm << 11) as i32 >> 11) as isize;
 
         if self.is_adrp() {
             (pc & !0xFFF).wrapping_add_signed(signed_imm * 0x1000)
-- 
2.43.0


From 56f685196420c2ba2cc694178c9a39f292c74186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:21 +0000
Subject: [PATCH 05/24] fix: refuse AArch64 vector literal loads in prologues

LDR (SIMD&FP, literal) was copied unchanged. The copy loaded from an address
relative to the relocated code, giving wrong data or a crash.
---
 src/safe_jit/aarch64.rs                   | 5 +++++
 src/safe_jit/arm_util/encoding_aarch64.rs | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/safe_jit/aarch64.rs b/src/safe_jit/aarch64.rs
index 3c60a6e..a9b373f 100644
--- a/src/safe_jit/aarch64.rs
+++ b/src/safe_jit/aarch64.rs
@@ -63,6 +63,11 @@ pub fn try_reloc_thunk_template<'a>(
             let to_encode = cow_buf.replace(offset, &[0; 4]);
             extra_ldrs.push((to_encode, adr.reg(), adr.target_pc(instr_pc)))
         }
+        // LDR (SIMD&FP) reg, label
+        // there is no general purpose register to load the absolute address into
+        else if LdrImm::is_simd_fp(instr_u32) {
+            return Err(JitError::UnsupportedInstruction);
+        }
         // B label
         else if let Ok(branch) = Branch::try_from_raw(instr_u32) {
             // follow forward branches that stay within the thunk
diff --git a/src/safe_jit/arm_util/encoding_aarch64.rs b/src/safe_jit/arm_util/encoding_aarch64.rs
index 0d6541d..b59a5ca 100644
--- a/src/safe_jit/arm_util/encoding_aarch64.rs
+++ b/src/safe_jit/arm_util/encoding_aarch64.rs
@@ -41,6 +41,11 @@ impl LdrImm {
         ins.assert_opcode().then_some(ins).ok_or(())
     }
 
+    /// Whether `raw` encodes the SIMD&FP variant of the instruction, which loads a vector register.
+    pub fn is_simd_fp(raw: u32) -> bool {
+        Self::from_raw(raw).fixed() == 0b11100
+    }
+
     #[allow(unused)]
     pub fn new_at(pc: usize, opc: LdrImmOpc, reg: u32, target: usize) -> Result<Self, Error> {
         let diff = target as isize - pc as isize;
-- 
2.43.0


From 921c1fc90b6905e8fce8838bb6cf61b29594e3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:15:17 +0000
Subject: [PATCH 06/24] fix: only follow unconditional forward branches in ARM
 prologues

Conditional branches were followed as if they were always taken, so the code
they skip was not analysed. Backward branches were followed forever. Branches
out of the prologue were kept although their target moves with the code.
---
 src/safe_jit/arm.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/safe_jit/arm.rs b/src/safe_jit/arm.rs
index 8e3e2d4..e60190e 100644
--- a/src/safe_jit/arm.rs
+++ b/src/safe_jit/arm.rs
@@ -44,20 +44,23 @@ pub fn try_reloc_thunk_template<'a>(
         let arch_detail = detail.arch_detail();
         let arm_detail = arch_detail.arm().unwrap();
 
-        // Regular branch (B)
+        // Regular branch (B): follow unconditional forward branches that stay within the thunk
         if instr_id == ArmInsn::ARM_INS_B {
             let ArmOperandType::Imm(target) = arm_detail.operands().next().unwrap().op_type
             else {
                 unreachable!()
             };
             let target = target as usize;
-            if (pc..thunk_template_end).contains(&target) {
-                disasm_iter.reset(&thunk_template[target - pc..], target as u64);
-                continue;
+            if arm_detail.cc() != ArmCC::ARM_CC_AL
+                || !(instr_pc + instr.len()..thunk_template_end).contains(&target)
+            {
+                return Err(JitError::UnsupportedInstruction);
             }
+            disasm_iter.reset(&thunk_template[target - pc..], target as u64);
+            continue;
         }
         // error on other instruction writing to PC or from unsupported groups
-        else if detail.regs_write().iter().any(|r| r.0 as u32 == ArmReg::ARM_REG_PC)
+        if detail.regs_write().iter().any(|r| r.0 as u32 == ArmReg::ARM_REG_PC)
             || has_unsupported_insn_group(detail.groups())
         {
             return Err(JitError::UnsupportedInstruction);
-- 
2.43.0


From 47074198ce0c94f3f1132193b07f68ff78a76237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:15:50 +0000
Subject: [PATCH 07/24] fix: do not treat ARM register-offset loads from PC as
 literal loads

LDR Rt, [PC, Rm] and its byte, halfword and doubleword variants were decoded as
if the low bits were an immediate. They loaded from an unrelated address after
relocation. They are now refused.
---
 src/safe_jit/arm_util/encoding_arm.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/safe_jit/arm_util/encoding_arm.rs b/src/safe_jit/arm_util/encoding_arm.rs
index 44822cb..3691378 100644
--- a/src/safe_jit/arm_util/encoding_arm.rs
+++ b/src/safe_jit/arm_util/encoding_arm.rs
@@ -62,7 +62,8 @@ bitflags! {
         imm set_imm: 0..12,
         rt set_rt: 12..16,
         rn set_rn: 16..20,
-        u set_u: 23..24
+        u set_u: 23..24,
+        is_reg: 25..26
     }
 
     /// Operands for extra load instructions with immediates
@@ -73,6 +74,7 @@ bitflags! {
         imm_hi set_imm_hi: 8..12,
         rt set_rt: 12..16,
         rn set_rn: 16..20,
+        is_imm: 22..23,
         u set_u: 23..24
     }
 }
@@ -110,8 +112,10 @@ impl LoadImm {
     pub fn target_pc(&self, instr_pc: usize) -> Option<usize> {
         let pc = effective_pc(instr_pc);
         let (u, imm) = match self {
-            Self::WB(ins) if ins.rn() == 0b1111 => (ins.u(), ins.imm()),
-            Self::Ex(ins) if ins.rn() == 0b1111 => (ins.u(), ins.imm_hi() << 4 | ins.imm_lo()),
+            Self::WB(ins) if ins.rn() == 0b1111 && ins.is_reg() == 0 => (ins.u(), ins.imm()),
+            Self::Ex(ins) if ins.rn() == 0b1111 && ins.is_imm() == 1 => {
+                (ins.u(), ins.imm_hi() << 4 | ins.imm_lo())
+            }
             _ => return None,
         };
         Some(if u == 1 { pc + imm as usize } else { pc - imm as usize })
-- 
2.43.0


From ae2d528bcdc86237c4235d0322b4ea37f4d67903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:18:53 +0000
Subject: [PATCH 08/24] fix: honour the sign of wide Thumb literal load offsets

LDR.W and its byte and halfword variants ignored the U bit of their literal form.
Loads from below the instruction were relocated to the address above it.
---
 src/safe_jit/arm_util/encoding_thumb.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/safe_jit/arm_util/encoding_thumb.rs b/src/safe_jit/arm_util/encoding_thumb.rs
index ed9cfb6..42f7e47 100644
--- a/src/safe_jit/arm_util/encoding_thumb.rs
+++ b/src/safe_jit/arm_util/encoding_thumb.rs
@@ -166,7 +166,10 @@ impl LoadImm {
         let pc = effective_pc(instr_pc);
         match self {
             Self::LdrLitT1(ldr) => Some(pc + ldr.imm() as usize * 4),
-            Self::LdrW(ldr) if ldr.rn() == 0b1111 => Some(pc + ldr.imm() as usize),
+            Self::LdrW(ldr) if ldr.rn() == 0b1111 => {
+                let imm = if ldr.u() == 1 { ldr.imm() as isize } else { -(ldr.imm() as isize) };
+                Some(pc.wrapping_add_signed(imm))
+            }
             Self::LdrT(ldr) if ldr.rn() == 0b1111 => Some(pc + ldr.imm() as usize),
             Self::LdrD(ldr) if ldr.rn() == 0b1111 => {
                 let imm = if ldr.u() == 1 { ldr.imm() as isize } else { -(ldr.imm() as isize) };
-- 
2.43.0


From cc0a72ca00572e9d874721f879ec38df14d403ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:18:53 +0000
Subject: [PATCH 09/24] fix: Thumb LDRD literal offset sign

The offset was subtracted from PC instead of added, so a relocated LDRD literal
load read from the wrong side of the instruction.
---
 src/safe_jit/arm_util/encoding_thumb.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/safe_jit/arm_util/encoding_thumb.rs b/src/safe_jit/arm_util/encoding_thumb.rs
index 42f7e47..7e02f84 100644
--- a/src/safe_jit/arm_util/encoding_thumb.rs
+++ b/src/safe_jit/arm_util/encoding_thumb.rs
@@ -173,7 +173,7 @@ impl LoadImm {
             Self::LdrT(ldr) if ldr.rn() == 0b1111 => Some(pc + ldr.imm() as usize),
             Self::LdrD(ldr) if ldr.rn() == 0b1111 => {
                 let imm = if ldr.u() == 1 { ldr.imm() as isize } else { -(ldr.imm() as isize) };
-                Some(pc.wrapping_sub_signed(imm * 4))
+                Some(pc.wrapping_add_signed(imm * 4))
             }
             _ => None,
         }
-- 
2.43.0


From a720b496ec80f10f3f03cecf784645dc8cc95d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:19:46 +0000
Subject: [PATCH 10/24] fix: relocate Thumb ADR instructions

ADR only reads PC implicitly, so it was copied unchanged and yielded an address
inside the relocated code. The wide forms were also never recognised because the
check on their sign bits was inverted. A rewritten narrow ADR is now padded, so
that PC-relative literals after it keep their alignment.
---
 src/safe_jit/arm.rs                     | 14 ++++++++++----
 src/safe_jit/arm_util/encoding_thumb.rs |  2 +-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/safe_jit/arm.rs b/src/safe_jit/arm.rs
index e60190e..944bee1 100644
--- a/src/safe_jit/arm.rs
+++ b/src/safe_jit/arm.rs
@@ -66,8 +66,10 @@ pub fn try_reloc_thunk_template<'a>(
             return Err(JitError::UnsupportedInstruction);
         }
         // if the instruction doesn't read the PC, we don't care about it at this point.
-        // it's OK to relocate it.
-        if !detail.regs_read().iter().any(|r| r.0 as u32 == ArmReg::ARM_REG_PC) {
+        // it's OK to relocate it. Note that PC is only an implicit operand of ADR.
+        if instr_id != ArmInsn::ARM_INS_ADR
+            && !detail.regs_read().iter().any(|r| r.0 as u32 == ArmReg::ARM_REG_PC)
+        {
             continue;
         }
         // We don't support relocating instructions that conditionally read the PC.
@@ -77,12 +79,16 @@ pub fn try_reloc_thunk_template<'a>(
 
         // ADR reg, label => LDR reg, =label_address
         if let Some(adr) = Adr::try_from_raw(instr.bytes()) {
-            new_magic_offset += 4 - instr.len();
-
             // allocate space for a new LDR
             let ldr_ofs = cow_buf.append(offset, &[0; 4]);
             extra_ldrs.push((ldr_ofs, adr.dest_reg(), adr.target_pc(instr_pc)));
 
+            // pad a narrow ADR with a NOP, so that what follows keeps its alignment
+            if instr.len() == 2 {
+                cow_buf.append(offset, &0xBF00u16.to_ne_bytes());
+                new_magic_offset += 4;
+            }
+
             // ignore the original ADR instruction
             cow_buf.ignore(offset, instr.len());
             continue;
diff --git a/src/safe_jit/arm_util/encoding_thumb.rs b/src/safe_jit/arm_util/encoding_thumb.rs
index 7e02f84..db666be 100644
--- a/src/safe_jit/arm_util/encoding_thumb.rs
+++ b/src/safe_jit/arm_util/encoding_thumb.rs
@@ -250,7 +250,7 @@ impl Adr {
             }
 
             let ins = AdrT23::from_raw(raw);
-            (ins.s1() != ins.s2()).then_some(Self::T23(ins))
+            (ins.s1() == ins.s2()).then_some(Self::T23(ins))
         }
     }
 
-- 
2.43.0


From b745b4ad7d1939af6433bb086f4512430f3fd9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:25:24 +0000
Subject: [PATCH 11/24] fix: range check of signed AArch64 immediates

The check allowed one bit too many. In prologues longer than 1 MB, the relocated
literal loads then wrapped around to the wrong address instead of being refused.
---
 src/safe_jit/arm_util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/safe_jit/arm_util.rs b/src/safe_jit/arm_util.rs
index 9954ce0..3f57174 100644
--- a/src/safe_jit/arm_util.rs
+++ b/src/safe_jit/arm_util.rs
@@ -246,7 +246,7 @@ macro_rules! bitflags_field {
                 const SIZE_MASK: $t = ((1u128 << SIZE) - 1) as $t;
                 const MASK: $t = SIZE_MASK << ($start as u32);
 
-                let extra_bits = val >> SIZE;
+                let extra_bits = val >> (SIZE - 1);
                 if extra_bits != -1 && extra_bits != 0 {
                     return Err(())
                 }
-- 
2.43.0


From 356104202f820ab429d43222790755d0cb7a46d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:56:17 +0000
Subject: [PATCH 12/24] fix: drop the closure when creating its thunk fails

The boxed closure was leaked when the JIT allocator returned an error, or
when the allocator or the prologue relocation panicked.
---
 src/bare_closure.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/bare_closure.rs b/src/bare_closure.rs
index 5cd6772..fcee31b 100644
--- a/src/bare_closure.rs
+++ b/src/bare_closure.rs
@@ -254,6 +254,16 @@ macro_rules! cc_shorthand_in {
     };
 }
 
+/// Frees the type-erased closure on drop. Used to reclaim it when creating its thunk fails.
+struct StorageGuard<S: ?Sized>(*mut S);
+
+impl<S: ?Sized> Drop for StorageGuard<S> {
+    fn drop(&mut self) {
+        // SAFETY: The pointer was obtained from `Box::into_raw` and has not been reclaimed
+        drop(unsafe { Box::from_raw(self.0) })
+    }
+}
+
 macro_rules! bare_closure_impl {
     (
         ty_name: $ty_name:ident,
@@ -593,6 +603,7 @@ macro_rules! bare_closure_impl {
                 (CC, F): $trait_ident<B>,
             {
                 let storage = Box::into_raw(F::to_boxed_unsize(fun));
+                let guard = StorageGuard(storage);
 
                 // SAFETY:
                 // - thunk_template pointer obtained from the correct source
@@ -604,6 +615,7 @@ macro_rules! bare_closure_impl {
                         jit_alloc
                     )?
                 };
+                core::mem::forget(guard);
                 Ok(Self {
                     untyped: $erased_ty_name {
                         thunk,
@@ -665,6 +677,7 @@ macro_rules! bare_closure_impl {
             {
                 // SAFETY: All implementors of `Fn*Thunk` are #[repr(transparent)] with the closure
                 let storage = Box::into_raw(T::to_boxed_unsize(thunk));
+                let guard = StorageGuard(storage);
 
                 // SAFETY:
                 // - thunk_template pointer obtained from the correct source
@@ -677,6 +690,7 @@ macro_rules! bare_closure_impl {
                         jit_alloc
                     )?
                 };
+                core::mem::forget(guard);
                 Ok(Self {
                     untyped: $erased_ty_name {
                         thunk,
-- 
2.43.0


From 10d33d2b3ea9657d19cc3266adbaa4ffc30979ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:56:17 +0000
Subject: [PATCH 13/24] fix: release the executable memory when the JIT
 allocator unwinds

A panic in protect_jit_memory or flush_instruction_cache leaked the block
that had already been allocated for the thunk.
---
 src/arch.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/arch.rs b/src/arch.rs
index 44ed717..ceaef93 100644
--- a/src/arch.rs
+++ b/src/arch.rs
@@ -249,6 +249,13 @@ impl<J: JitAlloc> AllocatedThunk<J> {
 
         // Skip initial bytes for proper alignment
         let (rx, rw) = jit.alloc(thunk.len() + MAGIC_ALIGN - 1)?;
+        // From here on, the memory is given back if the allocator unwinds
+        let mut allocated = AllocatedThunk {
+            alloc_base: rx,
+            thunk: core::ptr::null(),
+            jit,
+        };
+        let jit = &allocated.jit;
         let align_offset = rw.add(magic_offset).align_offset(MAGIC_ALIGN);
         let (thunk_rx, rw) = (rx.add(align_offset), rw.add(align_offset));
 
@@ -279,11 +286,8 @@ impl<J: JitAlloc> AllocatedThunk<J> {
         #[cfg(thumb_mode)]
         let thunk_rx = thunk_rx.map_addr(|a| a | 1);
 
-        Ok(AllocatedThunk {
-            alloc_base: rx,
-            thunk: thunk_rx.cast(),
-            jit,
-        })
+        allocated.thunk = thunk_rx.cast();
+        Ok(allocated)
     }
 }
 
-- 
2.43.0


From ebb1c4e41910c931ffb52d1a8da9ee96b1fbd431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:08 +0000
Subject: [PATCH 14/24] fix: thunk factory results are Send/Sync only when the
 closure is

The wrapper used to preserve the markers implemented both of them for any
closure, so that e.g. the result of make_sync was also Send and a closure that
must stay on its thread could be put into a Send wrapper.
---
 src/thunk_factory.rs | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/thunk_factory.rs b/src/thunk_factory.rs
index 1abd653..f4080f1 100644
--- a/src/thunk_factory.rs
+++ b/src/thunk_factory.rs
@@ -1,6 +1,8 @@
 //! Provides factory functions for creating [`FnThunk`] implementations from a closure while
 //! preserving its [Sync]/[Send]ness.
 
+use core::marker::PhantomData;
+
 use crate::traits::{FnMutThunk, FnOnceThunk, FnPtr, FnThunk, PackedFn, PackedFnMut, PackedFnOnce};
 
 // SAFETY: Using the `SendSyncWrapper` type below is only unsound if `FnPtr::make_thunk` and friends
@@ -28,7 +30,7 @@ where
     F: Send + for<'x, 'y, 'z> PackedFnOnce<'x, 'y, 'z, B>,
 {
     let thunk = B::make_once_thunk(fun);
-    SendSyncWrapper(thunk)
+    SendSyncWrapper(thunk, PhantomData::<F>)
 }
 
 /// Creates a [Sync] [`FnOnceThunk`] implementation from a closure taking the same arguments as
@@ -39,7 +41,7 @@ where
     F: Sync + for<'x, 'y, 'z> PackedFnOnce<'x, 'y, 'z, B>,
 {
     let thunk = B::make_once_thunk(fun);
-    SendSyncWrapper(thunk)
+    SendSyncWrapper(thunk, PhantomData::<F>)
 }
 
 /// Creates a [Send] and [Sync] [`FnOnceThunk`] implementation from a closure taking the same
@@ -50,7 +52,7 @@ where
     F: Send + Sync + for<'x, 'y, 'z> PackedFnOnce<'x, 'y, 'z, B>,
 {
     let thunk = B::make_once_thunk(fun);
-    SendSyncWrapper(thunk)
+    SendSyncWrapper(thunk, PhantomData::<F>)
 }
 
 /// Creates a [`FnMutThunk`] implementation from a closure taking the same arguments as this
@@ -73,7 +75,7 @@ where
     F: Send + for<'x, 'y, 'z> PackedFnMut<'x, 'y, 'z, B>,
 {
     let thunk = B::make_mut_thunk(fun);
-    SendSyncWrapper(thunk)
+    SendSyncWrapper(thunk, PhantomData::<F>)
 }
 
 /// Creates a [Sync] [`FnMutThunk`] implementation from a closure taking the same arguments as
@@ -84,7 +86,7 @@ where
     F: Sync + for<'x, 'y, 'z> PackedFnMut<'x, 'y, 'z, B>,
 {
     let thunk = B::make_mut_thunk(fun);
-    SendSyncWrapper(thunk)
+    SendSyncWrapper(thunk, PhantomData::<F>)
 }
 
 /// Creates a [Send] and [Sync] [`FnMutThunk`] implementation from a closure taking the same
@@ -95,7 +97,7 @@ where
     F: Send + Sync + for<'x, 'y, 'z> PackedFnMut<'x, 'y, 'z, B>,
 {
     let thunk = B::make_mut_thunk(fun);
-    SendSyncWrapper(thunk)
+    SendSyncWrapper(thunk, PhantomData::<F>)
 }
 
 /// Creates a [`FnThunk`] implementation from a closure taking the same arguments as this
@@ -117,7 +119,7 @@ where
     F: Send + for<'x, 'y, 'z> PackedFn<'x, 'y, 'z, B>,
 {
     let thunk = B::make_thunk(fun);
-    SendSyncWrapper(thunk)
+    SendSyncWrapper(thunk, PhantomData::<F>)
 }
 
 /// Creates a [Sync] [`FnThunk`] implementation from a closure taking the same arguments as
@@ -128,7 +130,7 @@ where
     F: Sync + for<'x, 'y, 'z> PackedFn<'x, 'y, 'z, B>,
 {
     let thunk = B::make_thunk(fun);
-    SendSyncWrapper(thunk)
+    SendSyncWrapper(thunk, PhantomData::<F>)
 }
 
 /// Creates a [Send] and [Sync] [`FnThunk`] implementation from a closure taking the same
@@ -139,14 +141,14 @@ where
     F: Send + Sync + for<'x, 'y, 'z> PackedFn<'x, 'y, 'z, B>,
 {
     let thunk = B::make_thunk(fun);
-    SendSyncWrapper(thunk)
+    SendSyncWrapper(thunk, PhantomData::<F>)
 }
 
 #[repr(transparent)]
-struct SendSyncWrapper<T>(T);
-unsafe impl<T> Send for SendSyncWrapper<T> {}
-unsafe impl<T> Sync for SendSyncWrapper<T> {}
-unsafe impl<B: FnPtr, T: FnOnceThunk<B>> FnOnceThunk<B> for SendSyncWrapper<T> {
+struct SendSyncWrapper<T, F>(T, PhantomData<F>);
+unsafe impl<T, F: Send> Send for SendSyncWrapper<T, F> {}
+unsafe impl<T, F: Sync> Sync for SendSyncWrapper<T, F> {}
+unsafe impl<B: FnPtr, T: FnOnceThunk<B>, F> FnOnceThunk<B> for SendSyncWrapper<T, F> {
     const THUNK_TEMPLATE_ONCE: *const u8 = T::THUNK_TEMPLATE_ONCE;
     unsafe fn call_once<'a, 'b, 'c>(
         self,
@@ -155,7 +157,7 @@ unsafe impl<B: FnPtr, T: FnOnceThunk<B>> FnOnceThunk<B> for SendSyncWrapper<T> {
         self.0.call_once(args)
     }
 }
-unsafe impl<B: FnPtr, T: FnMutThunk<B>> FnMutThunk<B> for SendSyncWrapper<T> {
+unsafe impl<B: FnPtr, T: FnMutThunk<B>, F> FnMutThunk<B> for SendSyncWrapper<T, F> {
     const THUNK_TEMPLATE_MUT: *const u8 = T::THUNK_TEMPLATE_MUT;
     unsafe fn call_mut<'a, 'b, 'c>(
         &mut self,
@@ -164,7 +166,7 @@ unsafe impl<B: FnPtr, T: FnMutThunk<B>> FnMutThunk<B> for SendSyncWrapper<T> {
         self.0.call_mut(args)
     }
 }
-unsafe impl<B: FnPtr, T: FnThunk<B>> FnThunk<B> for SendSyncWrapper<T> {
+unsafe impl<B: FnPtr, T: FnThunk<B>, F> FnThunk<B> for SendSyncWrapper<T, F> {
     const THUNK_TEMPLATE: *const u8 = T::THUNK_TEMPLATE;
     unsafe fn call<'a, 'b, 'c>(
         &self,
-- 
2.43.0


From 9e51f117982edc698d68b80b3d3d3b37e2efb4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:08 +0000
Subject: [PATCH 15/24] fix: thunk_factory::make_once does not require Send

It is documented to be identical to FnPtr::make_once_thunk, and make and
make_mut have no such requirement.
---
 src/thunk_factory.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thunk_factory.rs b/src/thunk_factory.rs
index f4080f1..88315c6 100644
--- a/src/thunk_factory.rs
+++ b/src/thunk_factory.rs
@@ -17,7 +17,7 @@ use crate::traits::{FnMutThunk, FnOnceThunk, FnPtr, FnThunk, PackedFn, PackedFnM
 #[inline(always)]
 pub fn make_once<B: FnPtr, F>(fun: F) -> impl FnOnceThunk<B>
 where
-    F: Send + for<'x, 'y, 'z> PackedFnOnce<'x, 'y, 'z, B>,
+    F: for<'x, 'y, 'z> PackedFnOnce<'x, 'y, 'z, B>,
 {
     B::make_once_thunk(fun)
 }
-- 
2.43.0


From 34407b8f70684fda0515a745786d65a82734a049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:08 +0000
Subject: [PATCH 16/24] fix: bare_hrtb! thunks carry the where clause of the
 alias

The generated thunk function repeated the alias's generic parameters but
not its where clause.  An alias whose signature needs the clause, such as
`type A<T> where T: Tr = for<'a> fn(&'a u32, T::Out)`, did not compile.
---
 proc_macros/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/proc_macros/src/lib.rs b/proc_macros/src/lib.rs
index 44ace28..f8b5ade 100644
--- a/proc_macros/src/lib.rs
+++ b/proc_macros/src/lib.rs
@@ -322,6 +322,7 @@ pub fn bare_hrtb(tokens: TokenStream) -> TokenStream {
 
         let mut thunk_sig = thunk_sig.clone();
         thunk_sig.generics.params.extend(generics.params.clone());
+        thunk_sig.generics.where_clause = generics.where_clause.clone();
 
         let (impl_generics, _, where_clause) = generics.split_for_impl();
         let sig_tys = generics.type_params().map(|t| &t.ident);
-- 
2.43.0


From 0eac3835a24151e9143b904863c0e3c51ae28793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:08 +0000
Subject: [PATCH 17/24] fix: bare_hrtb! accepts aliases with const generic
 parameters

Only type parameters were passed on to the generated thunk function, so
any alias with a const parameter failed to compile.
---
 proc_macros/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/proc_macros/src/lib.rs b/proc_macros/src/lib.rs
index f8b5ade..c243b7e 100644
--- a/proc_macros/src/lib.rs
+++ b/proc_macros/src/lib.rs
@@ -325,7 +325,11 @@ pub fn bare_hrtb(tokens: TokenStream) -> TokenStream {
         thunk_sig.generics.where_clause = generics.where_clause.clone();
 
         let (impl_generics, _, where_clause) = generics.split_for_impl();
-        let sig_tys = generics.type_params().map(|t| &t.ident);
+        let sig_tys = generics.params.iter().filter_map(|p| match p {
+            syn::GenericParam::Type(t) => Some(&t.ident),
+            syn::GenericParam::Const(c) => Some(&c.ident),
+            syn::GenericParam::Lifetime(_) => None,
+        });
 
         let thunk_impl = quote! {
             unsafe impl #impl_generics #thunk_trait<#alias_ident #alias_ty_params>
-- 
2.43.0


From ca31878cd9e4edd493d990d172e95857dd3da794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:08 +0000
Subject: [PATCH 18/24] fix: bare_hrtb! does not reserve the type name F

The generated factory functions had a type parameter called `F`.  It
clashed with an alias parameter of that name, and captured a type of the
caller's called `F` used in the signature.
---
 proc_macros/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proc_macros/src/lib.rs b/proc_macros/src/lib.rs
index c243b7e..34e1481 100644
--- a/proc_macros/src/lib.rs
+++ b/proc_macros/src/lib.rs
@@ -360,9 +360,9 @@ pub fn bare_hrtb(tokens: TokenStream) -> TokenStream {
         let thunk_factory_impl = quote! {
             #[inline(always)]
             #[allow(unused_mut)]
-            fn #factory_ident<F>(mut fun: F) -> impl #thunk_trait<Self>
+            fn #factory_ident<_Fun>(mut fun: _Fun) -> impl #thunk_trait<Self>
             where
-                F: for<'_x, '_y, '_z> #crate_path::#factory_bound_path<'_x, '_y, '_z, Self>
+                _Fun: for<'_x, '_y, '_z> #crate_path::#factory_bound_path<'_x, '_y, '_z, Self>
             {
                 #[inline(always)]
                 fn coerce #impl_generics (fun: #f_ident) -> #f_ident #where_clause {
-- 
2.43.0


From 5fc704af6b5aa0769f733cfc43398134bf8c87f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:08 +0000
Subject: [PATCH 19/24] fix: bare_hrtb! names the alias parameters when
 coercing closures

They were left to inference, which fails when a parameter only occurs
inside an associated type, as in `fn(&'a u32, <T as Tr>::Out)`.
---
 proc_macros/src/lib.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/proc_macros/src/lib.rs b/proc_macros/src/lib.rs
index 34e1481..676d01d 100644
--- a/proc_macros/src/lib.rs
+++ b/proc_macros/src/lib.rs
@@ -140,6 +140,19 @@ fn bare_fn_to_sig(
     }
 }
 
+/// Type and const parameters of `generics`, as arguments to pass to a generic function.
+fn generic_args(generics: &syn::Generics) -> Vec<&syn::Ident> {
+    generics
+        .params
+        .iter()
+        .filter_map(|p| match p {
+            syn::GenericParam::Type(t) => Some(&t.ident),
+            syn::GenericParam::Const(c) => Some(&c.ident),
+            syn::GenericParam::Lifetime(_) => None,
+        })
+        .collect()
+}
+
 fn path_from_str(str: &str) -> syn::Path {
     syn::parse(TokenStream::from_str(str).unwrap()).unwrap()
 }
@@ -325,11 +338,8 @@ pub fn bare_hrtb(tokens: TokenStream) -> TokenStream {
         thunk_sig.generics.where_clause = generics.where_clause.clone();
 
         let (impl_generics, _, where_clause) = generics.split_for_impl();
-        let sig_tys = generics.params.iter().filter_map(|p| match p {
-            syn::GenericParam::Type(t) => Some(&t.ident),
-            syn::GenericParam::Const(c) => Some(&c.ident),
-            syn::GenericParam::Lifetime(_) => None,
-        });
+        let alias_args = generic_args(&input.alias.generics);
+        let sig_tys = generic_args(&generics);
 
         let thunk_impl = quote! {
             unsafe impl #impl_generics #thunk_trait<#alias_ident #alias_ty_params>
@@ -369,7 +379,7 @@ pub fn bare_hrtb(tokens: TokenStream) -> TokenStream {
                     fun
                 }
 
-                let coerced = coerce(move |#(#arg_idents,)*| fun((#(#arg_idents,)*)));
+                let coerced = coerce::<#(#alias_args,)* _>(move |#(#arg_idents,)*| fun((#(#arg_idents,)*)));
                 (#cc_marker_ident, coerced)
             }
         };
-- 
2.43.0


From bf561641276176bf2ad880cb302551712680ad38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:08 +0000
Subject: [PATCH 20/24] fix: bare_hrtb! rejects variadic aliases

The variadic part was silently dropped from the generated thunks.  The
variable arguments never reached the closure, and where variadic calls
pass fixed arguments differently (32-bit ARM with hardware floating
point) neither did those.
---
 proc_macros/src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/proc_macros/src/lib.rs b/proc_macros/src/lib.rs
index 676d01d..e80cc08 100644
--- a/proc_macros/src/lib.rs
+++ b/proc_macros/src/lib.rs
@@ -30,6 +30,13 @@ impl syn::parse::Parse for MacroInput {
                     }
                 }
 
+                if let Some(variadic) = &bare_fn.variadic {
+                    return Err(syn::Error::new_spanned(
+                        variadic,
+                        "Variadic functions are not supported",
+                    ));
+                }
+
                 // Check that bare_fn has no implicit lifetimes
                 struct HasImplicitBoundLt(Vec<pm2::Span>);
                 impl<'a> Visit<'a> for HasImplicitBoundLt {
-- 
2.43.0


From 089216128c01e6873390dbe0de467b7241edc7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:08 +0000
Subject: [PATCH 21/24] fix: bare_hrtb! refers to core by its absolute path
 everywhere

One path in the generated code was relative, so the macro failed in a
scope with a module called `core`.
---
 proc_macros/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proc_macros/src/lib.rs b/proc_macros/src/lib.rs
index e80cc08..cd7439e 100644
--- a/proc_macros/src/lib.rs
+++ b/proc_macros/src/lib.rs
@@ -482,7 +482,7 @@ pub fn bare_hrtb(tokens: TokenStream) -> TokenStream {
 
             #[inline(always)]
             unsafe fn from_ptr(ptr: *const ()) -> Self {
-                unsafe { core::mem::transmute_copy(&ptr) }
+                unsafe { ::core::mem::transmute_copy(&ptr) }
             }
 
             #[inline(always)]
-- 
2.43.0


From 62edd1be889c0ac77cacb39b8ea98cbd86d78b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:08 +0000
Subject: [PATCH 22/24] fix: bare_hrtb! accepts aliases with defaulted generic
 parameters

The defaults were repeated on the generated thunk functions, where they
are not permitted.
---
 proc_macros/src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/proc_macros/src/lib.rs b/proc_macros/src/lib.rs
index cd7439e..afe65d9 100644
--- a/proc_macros/src/lib.rs
+++ b/proc_macros/src/lib.rs
@@ -331,6 +331,14 @@ pub fn bare_hrtb(tokens: TokenStream) -> TokenStream {
         thunk_trait.segments.extend(path_from_str(impl_block.thunk_trait_path).segments);
 
         let mut generics = input.alias.generics.clone();
+        for param in &mut generics.params {
+            // defaults are only permitted on the struct
+            match param {
+                syn::GenericParam::Type(t) => t.default = None,
+                syn::GenericParam::Const(c) => c.default = None,
+                syn::GenericParam::Lifetime(_) => {}
+            }
+        }
         generics.params.push(syn::GenericParam::Type(syn::TypeParam {
             attrs: Default::default(),
             ident: f_ident.clone(),
-- 
2.43.0


From daa53ebaee515b8faeadd98f659981e7e9bf305d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:27:48 +0000
Subject: [PATCH 23/24] fix: AArch64 prologues may read system registers

Optimised closures that use a thread-local have the read of the thread
pointer (mrs reg, tpidr_el0) scheduled in front of the thunk assembly.
Capstone considers every MRS privileged, so relocating the prologue was
refused and constructing the wrapper panicked. MRS is position
independent and can be copied as is.
---
 src/safe_jit/aarch64.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/safe_jit/aarch64.rs b/src/safe_jit/aarch64.rs
index a9b373f..f95b2e2 100644
--- a/src/safe_jit/aarch64.rs
+++ b/src/safe_jit/aarch64.rs
@@ -79,6 +79,12 @@ pub fn try_reloc_thunk_template<'a>(
                 return Err(JitError::UnsupportedInstruction);
             }
         }
+        // MRS reg, sysreg
+        // position independent, but capstone considers every system register read privileged.
+        // compilers hoist reads of the thread pointer above the thunk assembly.
+        else if instr_u32 & 0xFFF0_0000 == 0xD530_0000 {
+            continue;
+        }
         else if has_unsupported_insn_group(cs.insn_detail(&instr).unwrap().groups()) {
             return Err(JitError::UnsupportedInstruction);
         }
-- 
2.43.0


From b2a18976f1f294ebeef862c4a383f4e19fc694cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:49:14 +0000
Subject: [PATCH 24/24] fix: ThreadJitAlloc reports an error during thread
 shutdown

Thread-local destructors that run after the thread's allocator is gone used to
panic inside LocalKey::with, which aborts the process. Allocation and release
now fail with JitAllocError instead.
---
 src/jit_alloc.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jit_alloc.rs b/src/jit_alloc.rs
index 6109db5..e24c2c7 100644
--- a/src/jit_alloc.rs
+++ b/src/jit_alloc.rs
@@ -189,13 +189,15 @@ mod default_jit_alloc {
         impl JitAlloc for ThreadJitAlloc {
             fn alloc(&self, size: usize) -> Result<(*const u8, *mut u8), JitAllocError> {
                 THREAD_JIT_ALLOC
-                    .with(|a| unsafe { &mut *a.get() }.alloc(size))
+                    .try_with(|a| unsafe { &mut *a.get() }.alloc(size))
+                    .map_err(|_| JitAllocError)?
                     .map_err(|_| JitAllocError)
             }
 
             unsafe fn release(&self, rx_ptr: *const u8) -> Result<(), JitAllocError> {
                 THREAD_JIT_ALLOC
-                    .with(|a| unsafe { &mut *a.get() }.release(rx_ptr))
+                    .try_with(|a| unsafe { &mut *a.get() }.release(rx_ptr))
+                    .map_err(|_| JitAllocError)?
                     .map_err(|_| JitAllocError)
             }
 
-- 
2.43.0

