From 7f08287c9497054c124de36e9d5cda25b25f9d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:24 +0000
Subject: [PATCH 1/9] fix: reject rsp as an index register

rsp as index was encoded as SIB.index=100, which the processor reads as
"no index": the operand silently addressed base + disp.
---
 monoasm/src/jit_memory.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/monoasm/src/jit_memory.rs b/monoasm/src/jit_memory.rs
index 8cfc567..d0db750 100644
--- a/monoasm/src/jit_memory.rs
+++ b/monoasm/src/jit_memory.rs
@@ -696,6 +696,10 @@ impl JitMemory {
             Rex::Byte => JitMemory::rex_none_byte,
         };
         assert!(!reg.is_rip());
+        if let Scale::S1(_, index) = rm.mode.scale() {
+            // SIB.index == 4 without REX.X means "no index".
+            assert!(index != Reg(4), "rsp can not be used as an index register.");
+        }
         if rm.base.is_rip() {
             // For rip, only indirect addressing with disp32 ([rip + disp32]) is allowed.
             // [rip] and [rip + disp8] are to be converted to [rip + disp32].
-- 
2.43.0


From 6fe4786f168c1a7f5f72d1102c29ab581f9d31de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:24 +0000
Subject: [PATCH 2/9] fix: cvttsd2siq converts to a 64-bit integer

REX.W was missing, so the result was truncated to 32 bits.
---
 monoasm_macro/src/asm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monoasm_macro/src/asm.rs b/monoasm_macro/src/asm.rs
index a7ff5c2..61159e4 100644
--- a/monoasm_macro/src/asm.rs
+++ b/monoasm_macro/src/asm.rs
@@ -218,7 +218,7 @@ pub fn compile(inst: Inst) -> TokenStream {
         Inst::Cvttsd2siq(op1, op2) => {
             quote! {
                 jit.emitb(0xf2);
-                jit.enc_mr(&[0x0f, 0x2c], #op1, #op2);
+                jit.enc_rexw_mr(&[0x0f, 0x2c], #op1, #op2);
             }
         }
 
-- 
2.43.0


From e20294f6cfd290ef429ffcf01ded93d881f0056b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:24 +0000
Subject: [PATCH 3/9] fix: include() covers the two code pages whichever page
 is selected

It started from the selected page, so with page 1 selected it missed page 0
and accepted the data page.
---
 monoasm/src/jit_memory.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/monoasm/src/jit_memory.rs b/monoasm/src/jit_memory.rs
index d0db750..b37836c 100644
--- a/monoasm/src/jit_memory.rs
+++ b/monoasm/src/jit_memory.rs
@@ -272,7 +272,8 @@ impl JitMemory {
     }
 
     pub fn include(&self, ptr: *mut u8) -> bool {
-        self.contents() <= ptr && ptr < unsafe { self.contents().add(PAGE_SIZE * 2) }
+        let contents = self.pages[0].contents();
+        contents <= ptr && ptr < unsafe { contents.add(PAGE_SIZE * 2) }
     }
 
     /// Resolve all relocations and return the top addresss of generated machine code as a function pointer.
-- 
2.43.0


From dc4f6e551317b3073f0f5683c92e1116b515a206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:35 +0000
Subject: [PATCH 4/9] fix: account for roundpd's trailing imm8 in rip-relative
 operands

The immediate was emitted after the relocation had been recorded with
offset 4, so [rip + label] pointed one byte past the label.
---
 monoasm/src/jit_memory.rs | 5 +++++
 monoasm_macro/src/asm.rs  | 3 +--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/monoasm/src/jit_memory.rs b/monoasm/src/jit_memory.rs
index b37836c..208752d 100644
--- a/monoasm/src/jit_memory.rs
+++ b/monoasm/src/jit_memory.rs
@@ -630,6 +630,11 @@ impl JitMemory {
         self.encode(op, Rex::None, ModRM::Reg(reg), rm_op, Imm::None);
     }
 
+    /// REX Op ModRM imm
+    pub fn enc_mr_imm(&mut self, op: &[u8], reg: Reg, rm_op: Rm, imm: Imm) {
+        self.encode(op, Rex::None, ModRM::Reg(reg), rm_op, imm);
+    }
+
     pub fn enc_mr_byte(&mut self, op: &[u8], reg: Reg, rm_op: Rm) {
         self.encode(op, Rex::Byte, ModRM::Reg(reg), rm_op, Imm::None);
     }
diff --git a/monoasm_macro/src/asm.rs b/monoasm_macro/src/asm.rs
index 61159e4..ada3c30 100644
--- a/monoasm_macro/src/asm.rs
+++ b/monoasm_macro/src/asm.rs
@@ -239,8 +239,7 @@ pub fn compile(inst: Inst) -> TokenStream {
         Inst::Roundpd(Xmm(op1), op2, ImmOperand(op3)) => {
             quote! {
                 jit.emitb(0x66);
-                jit.enc_mr(&[0x0f, 0x3a, 0x09], Reg::from(#op1), #op2);
-                jit.emitb(#op3);
+                jit.enc_mr_imm(&[0x0f, 0x3a, 0x09], Reg::from(#op1), #op2, Imm::B(u8::cast_signed(#op3)));
             }
         }
 
-- 
2.43.0


From 7b9c5552300476ea56dc58a07cacbdab10f258c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:36 +0000
Subject: [PATCH 5/9] fix: keep the generated code's variables out of operand
 expressions

An operand expression that mentions a variable named imm, op1, op2 or rm_op
was evaluated with the macro's own variable of that name, set by the same or
an earlier instruction of the block: let imm = 100i64; monoasm!(&mut jit,
addq rax, 5; addq [rcx + (imm)], 7;) used 7 as the displacement.
---
 monoasm_macro/src/asm.rs | 165 +++++++++++++++++++++------------------
 1 file changed, 88 insertions(+), 77 deletions(-)

diff --git a/monoasm_macro/src/asm.rs b/monoasm_macro/src/asm.rs
index ada3c30..93abbc1 100644
--- a/monoasm_macro/src/asm.rs
+++ b/monoasm_macro/src/asm.rs
@@ -1,8 +1,14 @@
 use super::inst::*;
-use proc_macro2::TokenStream;
+use proc_macro2::{Ident, Span, TokenStream};
 use quote::quote;
 
+/// The variable holding an immediate in the generated code, invisible to the operand expressions.
+fn imm_ident() -> Ident {
+    Ident::new("imm", Span::mixed_site())
+}
+
 pub fn compile(inst: Inst) -> TokenStream {
+    let imm = imm_ident();
     match inst {
         Inst::Label(ident) => quote!( jit.bind_label(#ident); ),
         Inst::F64(f) => {
@@ -64,13 +70,13 @@ pub fn compile(inst: Inst) -> TokenStream {
                 match &op1 {
                     RmOperand::Reg(reg) => {
                         quote! {
-                            let imm = (#i) as i64;
-                            if let Ok(imm) = i32::try_from(imm)  {
+                            let #imm = (#i) as i64;
+                            if let Ok(#imm) = i32::try_from(#imm)  {
                                 if #reg.is_rax() {
                                     jit.emit(&[0x48, 0xa9]);
-                                    jit.emitl(imm as u32);
+                                    jit.emitl(#imm as u32);
                                 } else {
-                                    jit.enc_rexw_mi(0xf7, #op1, Imm::L(imm));
+                                    jit.enc_rexw_mi(0xf7, #op1, Imm::L(#imm));
                                 }
                             } else {
                                 panic!("'TEST {}, imm64' does not exists.", #op1_str);
@@ -79,9 +85,9 @@ pub fn compile(inst: Inst) -> TokenStream {
                     }
                     _ => {
                         quote! {
-                            let imm = (#i) as i64;
-                            if let Ok(imm) = i32::try_from(imm)  {
-                                jit.enc_rexw_mi(0xf7, #op1, Imm::L(imm));
+                            let #imm = (#i) as i64;
+                            if let Ok(#imm) = i32::try_from(#imm)  {
+                                jit.enc_rexw_mi(0xf7, #op1, Imm::L(#imm));
                             } else {
                                 panic!("'TEST {}, imm64' does not exists.", #op1_str);
                             }
@@ -97,13 +103,13 @@ pub fn compile(inst: Inst) -> TokenStream {
                 match &op1 {
                     RmOperand::Reg(reg) => {
                         quote! {
-                            let imm = (#i) as i64;
-                            if let Ok(imm) = i8::try_from(imm)  {
+                            let #imm = (#i) as i64;
+                            if let Ok(#imm) = i8::try_from(#imm)  {
                                 if #reg.is_rax() {
                                     jit.emit(&[0xa8]);
-                                    jit.emitb(imm as u8);
+                                    jit.emitb(#imm as u8);
                                 } else {
-                                    jit.enc_mi_byte(0xf6, #op1, Imm::B(imm));
+                                    jit.enc_mi_byte(0xf6, #op1, Imm::B(#imm));
                                 }
                             } else {
                                 panic!("'TEST {}, imm64' does not exists.", #op1_str);
@@ -112,9 +118,9 @@ pub fn compile(inst: Inst) -> TokenStream {
                     }
                     _ => {
                         quote! {
-                            let imm = (#i) as i64;
-                            if let Ok(imm) = i8::try_from(imm)  {
-                                jit.enc_mi_byte(0xf6, #op1, Imm::B(imm));
+                            let #imm = (#i) as i64;
+                            if let Ok(#imm) = i8::try_from(#imm)  {
+                                jit.enc_mi_byte(0xf6, #op1, Imm::B(#imm));
                             } else {
                                 panic!("'TEST {}, imm64' does not exists.", #op1_str);
                             }
@@ -345,13 +351,13 @@ pub fn compile(inst: Inst) -> TokenStream {
 }
 
 fn movq(op1: MovOperand, op2: MovOperand) -> TokenStream {
+    let imm = imm_ident();
     match (op1, op2) {
         (MovOperand::Xmm(op1), op2) => match &op2 {
             MovOperand::Imm(..) => panic!("'MOV xmm, Imm' does not exists."),
             MovOperand::Reg(op2) => quote! {
-                let op2 = Rm::reg(#op2);
                 jit.emitb(0x66);
-                jit.enc_rexw_mr(&[0x0f, 0x6e], Reg::from(#op1), op2);
+                jit.enc_rexw_mr(&[0x0f, 0x6e], Reg::from(#op1), Rm::reg(#op2));
             },
             op2 => quote! {
                 jit.emitb(0xf3);
@@ -370,23 +376,21 @@ fn movq(op1: MovOperand, op2: MovOperand) -> TokenStream {
             if let Some(size) = size {
                 assert_eq!(OperandSize::QWORD, size);
                 quote!(
-                    let imm = (#i) as i64;
-                    let rm_op = Rm::reg(#expr);
+                    let #imm = (#i) as i64;
                     // MOV r64, imm64
                     jit.enc_rexw_o(0xb8, #expr);
-                    jit.emitq(imm as u64);
+                    jit.emitq(#imm as u64);
                 )
             } else {
                 quote!(
-                    let imm = (#i) as i64;
-                    let rm_op = Rm::reg(#expr);
+                    let #imm = (#i) as i64;
                     //if let Ok(imm) = i32::try_from(imm) {
                     //    // MOV r/m64, imm32
                     //    jit.enc_rexw_mi(0xc7, rm_op, Imm::L(imm));
                     //} else {
                     //    // MOV r64, imm64
                         jit.enc_rexw_o(0xb8, #expr);
-                        jit.emitq(imm as u64);
+                        jit.emitq(#imm as u64);
                     //};
                 )
             }
@@ -397,9 +401,9 @@ fn movq(op1: MovOperand, op2: MovOperand) -> TokenStream {
         (op1, MovOperand::Imm(i, None)) => {
             let op1_str = format!("{}", op1);
             quote! {
-                let imm = (#i) as i64;
-                if let Ok(imm) = i32::try_from(imm)  {
-                    jit.enc_rexw_mi(0xc7, #op1, Imm::L(imm));
+                let #imm = (#i) as i64;
+                if let Ok(#imm) = i32::try_from(#imm)  {
+                    jit.enc_rexw_mi(0xc7, #op1, Imm::L(#imm));
                 } else {
                     panic!("'MOV {}, imm64' does not exists.", #op1_str);
                 }
@@ -410,9 +414,8 @@ fn movq(op1: MovOperand, op2: MovOperand) -> TokenStream {
         // MR
         (op1, MovOperand::Reg(expr)) => quote!( jit.enc_rexw_mr(&[0x89], #expr, #op1); ),
         (MovOperand::Reg(op1), MovOperand::Xmm(op2)) => quote! {
-            let op1 = Rm::reg(#op1);
             jit.emitb(0x66);
-            jit.enc_rexw_mr(&[0x0f, 0x7e],  Reg::from(#op2), op1);
+            jit.enc_rexw_mr(&[0x0f, 0x7e],  Reg::from(#op2), Rm::reg(#op1));
         },
         (op1, MovOperand::Xmm(op2)) => quote! {
             jit.emitb(0x66);
@@ -427,19 +430,20 @@ fn movq(op1: MovOperand, op2: MovOperand) -> TokenStream {
 }
 
 fn movl(op1: RmOperand, op2: RmiOperand) -> TokenStream {
+    let imm = imm_ident();
     match (op1, op2) {
         // MOV r32, imm32
         // B8+ rd id
         // OI
         (RmOperand::Reg(expr), RmiOperand::Imm(i)) => {
             quote!(
-                let imm = (#i) as i64;
-                if let Ok(imm) = i32::try_from(imm) {
+                let #imm = (#i) as i64;
+                if let Ok(#imm) = i32::try_from(#imm) {
                     // MOV r32, imm32
                     jit.enc_oi(0xb8, #expr);
-                    jit.emitl(imm as u32);
+                    jit.emitl(#imm as u32);
                 } else {
-                    panic!("'MOVL {}, {}' does not exists.", #expr, imm);
+                    panic!("'MOVL {}, {}' does not exists.", #expr, #imm);
                 };
             )
         }
@@ -449,9 +453,9 @@ fn movl(op1: RmOperand, op2: RmiOperand) -> TokenStream {
         (op1, RmiOperand::Imm(i)) => {
             let op1_str = format!("{}", op1);
             quote! {
-                let imm = (#i) as i64;
-                if let Ok(imm) = i32::try_from(imm)  {
-                    jit.enc_mi(0xc7, #op1, Imm::L(imm));
+                let #imm = (#i) as i64;
+                if let Ok(#imm) = i32::try_from(#imm)  {
+                    jit.enc_mi(0xc7, #op1, Imm::L(#imm));
                 } else {
                     panic!("'MOVL {}, imm64' does not exists.", #op1_str);
                 }
@@ -470,19 +474,20 @@ fn movl(op1: RmOperand, op2: RmiOperand) -> TokenStream {
 }
 
 fn movw(op1: RmOperand, op2: RmiOperand) -> TokenStream {
+    let imm = imm_ident();
     match (op1, op2) {
         // MOV r16, imm16
         // B8+ rw iw
         (RmOperand::Reg(expr), RmiOperand::Imm(i)) => {
             quote!(
-                let imm = (#i) as i64;
-                if let Ok(imm) = i16::try_from(imm) {
+                let #imm = (#i) as i64;
+                if let Ok(#imm) = i16::try_from(#imm) {
                     // MOV r16, imm16
                     jit.emitb(0x66);
                     jit.enc_oi(0xb8, #expr);
-                    jit.emitw(imm as u16);
+                    jit.emitw(#imm as u16);
                 } else {
-                    panic!("'MOVW {}, {}' does not exists.", #expr, imm);
+                    panic!("'MOVW {}, {}' does not exists.", #expr, #imm);
                 };
             )
         }
@@ -491,12 +496,12 @@ fn movw(op1: RmOperand, op2: RmiOperand) -> TokenStream {
         (op1, RmiOperand::Imm(i)) => {
             let op1_str = format!("{}", op1);
             quote! {
-                let imm = (#i) as i64;
-                if let Ok(imm) = i16::try_from(imm)  {
+                let #imm = (#i) as i64;
+                if let Ok(#imm) = i16::try_from(#imm)  {
                     jit.emitb(0x66);
-                    jit.enc_mi(0xc7, #op1, Imm::W(imm));
+                    jit.enc_mi(0xc7, #op1, Imm::W(#imm));
                 } else {
-                    panic!("'MOVW {}, {}' does not exists.", #op1_str, imm);
+                    panic!("'MOVW {}, {}' does not exists.", #op1_str, #imm);
                 }
             }
         }
@@ -517,19 +522,20 @@ fn movw(op1: RmOperand, op2: RmiOperand) -> TokenStream {
 }
 
 fn movb(op1: RmOperand, op2: RmiOperand) -> TokenStream {
+    let imm = imm_ident();
     match (op1, op2) {
         // MOV r8, imm8
         // B0+ rb ib
         (RmOperand::Reg(expr), RmiOperand::Imm(i)) => {
             quote!(
-                let imm = (#i) as i64;
-                if let Ok(imm) = i8::try_from(imm) {
+                let #imm = (#i) as i64;
+                if let Ok(#imm) = i8::try_from(#imm) {
                     // MOV r8, imm8
                     //jit.emitb(0x66);
                     jit.enc_oi_byte(0xb0, #expr);
-                    jit.emitb(imm as u8);
+                    jit.emitb(#imm as u8);
                 } else {
-                    panic!("'MOVW {}, {}' does not exists.", #expr, imm);
+                    panic!("'MOVW {}, {}' does not exists.", #expr, #imm);
                 };
             )
         }
@@ -538,11 +544,11 @@ fn movb(op1: RmOperand, op2: RmiOperand) -> TokenStream {
         (op1, RmiOperand::Imm(i)) => {
             let op1_str = format!("{}", op1);
             quote! {
-                let imm = (#i) as i64;
-                if let Ok(imm) = i8::try_from(imm)  {
-                    jit.enc_mi_byte(0xc6, #op1, Imm::B(imm));
+                let #imm = (#i) as i64;
+                if let Ok(#imm) = i8::try_from(#imm)  {
+                    jit.enc_mi_byte(0xc6, #op1, Imm::B(#imm));
                 } else {
-                    panic!("'MOVW {}, {}' does not exists.", #op1_str, imm);
+                    panic!("'MOVW {}, {}' does not exists.", #op1_str, #imm);
                 }
             }
         }
@@ -579,6 +585,7 @@ fn binary_op(
 }
 
 fn binary_opq(op_name: &str, op_mr: u8, digit: u8, op1: RmOperand, op2: RmiOperand) -> TokenStream {
+    let imm = imm_ident();
     let op_rm = op_mr + 2;
     match (op1, op2) {
         // OP r/m64, imm32
@@ -603,11 +610,11 @@ fn binary_opq(op_name: &str, op_mr: u8, digit: u8, op1: RmOperand, op2: RmiOpera
         (op1, RmiOperand::Imm(i)) => {
             let op1_str = format!("{}", op1);
             quote! {
-                let imm = (#i) as i64;
-                if let Ok(imm) = i8::try_from(imm) {
-                    jit.enc_rexw_digit(&[0x83], #op1, #digit, Imm::B(imm));
-                } else if let Ok(imm) = i32::try_from(imm) {
-                    jit.enc_rexw_digit(&[0x81], #op1, #digit, Imm::L(imm));
+                let #imm = (#i) as i64;
+                if let Ok(#imm) = i8::try_from(#imm) {
+                    jit.enc_rexw_digit(&[0x83], #op1, #digit, Imm::B(#imm));
+                } else if let Ok(#imm) = i32::try_from(#imm) {
+                    jit.enc_rexw_digit(&[0x81], #op1, #digit, Imm::L(#imm));
                 } else {
                     panic!("'{} {}, imm64' does not exists.", #op_name, #op1_str);
                 }
@@ -638,6 +645,7 @@ fn binary_opq(op_name: &str, op_mr: u8, digit: u8, op1: RmOperand, op2: RmiOpera
 }
 
 fn binary_opl(op_name: &str, op_mr: u8, digit: u8, op1: RmOperand, op2: RmiOperand) -> TokenStream {
+    let imm = imm_ident();
     let op_rm = op_mr + 2;
     match (op1, op2) {
         // OP r/m32, imm32
@@ -662,11 +670,11 @@ fn binary_opl(op_name: &str, op_mr: u8, digit: u8, op1: RmOperand, op2: RmiOpera
         (op1, RmiOperand::Imm(i)) => {
             let op1_str = format!("{}", op1);
             quote! {
-                let imm = (#i) as i64;
-                if let Ok(imm) = i8::try_from(imm) {
-                    jit.enc_digit_imm(&[0x83], #op1, #digit, Imm::B(imm));
-                } else if let Ok(imm) = i32::try_from(imm) {
-                    jit.enc_digit_imm(&[0x81], #op1, #digit, Imm::L(imm));
+                let #imm = (#i) as i64;
+                if let Ok(#imm) = i8::try_from(#imm) {
+                    jit.enc_digit_imm(&[0x83], #op1, #digit, Imm::B(#imm));
+                } else if let Ok(#imm) = i32::try_from(#imm) {
+                    jit.enc_digit_imm(&[0x81], #op1, #digit, Imm::L(#imm));
                 } else {
                     panic!("'{} {}, imm64' does not exists.", #op_name, #op1_str);
                 }
@@ -697,6 +705,7 @@ fn binary_opl(op_name: &str, op_mr: u8, digit: u8, op1: RmOperand, op2: RmiOpera
 }
 
 fn binary_opw(op_name: &str, op_mr: u8, digit: u8, op1: RmOperand, op2: RmiOperand) -> TokenStream {
+    let imm = imm_ident();
     let op_rm = op_mr + 2;
     match (op1, op2) {
         // OP r/m16, imm16
@@ -721,12 +730,12 @@ fn binary_opw(op_name: &str, op_mr: u8, digit: u8, op1: RmOperand, op2: RmiOpera
         (op1, RmiOperand::Imm(i)) => {
             let op1_str = format!("{}", op1);
             quote! {
-                let imm = (#i) as i64;
+                let #imm = (#i) as i64;
                 jit.emitb(0x66);
-                if let Ok(imm) = i8::try_from(imm) {
-                    jit.enc_digit_imm(&[0x83], #op1, #digit, Imm::B(imm));
-                } else if let Ok(imm) = i16::try_from(imm) {
-                    jit.enc_digit_imm(&[0x81], #op1, #digit, Imm::W(imm));
+                if let Ok(#imm) = i8::try_from(#imm) {
+                    jit.enc_digit_imm(&[0x83], #op1, #digit, Imm::B(#imm));
+                } else if let Ok(#imm) = i16::try_from(#imm) {
+                    jit.enc_digit_imm(&[0x81], #op1, #digit, Imm::W(#imm));
                 } else {
                     panic!("'{} {}, imm64' does not exists.", #op_name, #op1_str);
                 }
@@ -763,6 +772,7 @@ fn binary_opw(op_name: &str, op_mr: u8, digit: u8, op1: RmOperand, op2: RmiOpera
 }
 
 fn binary_opb(op_name: &str, op_mr: u8, digit: u8, op1: RmOperand, op2: RmiOperand) -> TokenStream {
+    let imm = imm_ident();
     let op_rm = op_mr + 2;
     match (op1, op2) {
         // OP r/m8, imm8
@@ -787,9 +797,9 @@ fn binary_opb(op_name: &str, op_mr: u8, digit: u8, op1: RmOperand, op2: RmiOpera
         (op1, RmiOperand::Imm(i)) => {
             let op_al = op_mr + 4;
             quote! {
-                let imm = (#i) as i64;
-                if let Ok(imm) = i8::try_from(imm) {
-                    jit.enc_digit_imm_byte(&[0x80], #op_al, #op1, #digit, Imm::B(imm));
+                let #imm = (#i) as i64;
+                if let Ok(#imm) = i8::try_from(#imm) {
+                    jit.enc_digit_imm_byte(&[0x80], #op_al, #op1, #digit, Imm::B(#imm));
                 } else {
                     panic!("{} is out of 8bit.", #i);
                 }
@@ -869,6 +879,7 @@ fn shift_op(
     op2: RiOperand,
     inst_str: &str,
 ) -> TokenStream {
+    let imm = imm_ident();
     match width {
         OperandSize::QWORD => match (op1, op2) {
             (op1, RiOperand::Imm(i)) => {
@@ -876,11 +887,11 @@ fn shift_op(
                 // Shl r/m64, imm8
                 // REX.W C1 /4 ib
                 quote! {
-                    let imm = (#i) as i64;
-                    if imm == 1 {
+                    let #imm = (#i) as i64;
+                    if #imm == 1 {
                         jit.enc_rexw_digit(&[0xd1], #op1, #digit, Imm::None);
-                    } else if let Ok(imm) = i8::try_from(imm) {
-                        jit.enc_rexw_digit(&[0xc1], #op1, #digit, Imm::B(imm));
+                    } else if let Ok(#imm) = i8::try_from(#imm) {
+                        jit.enc_rexw_digit(&[0xc1], #op1, #digit, Imm::B(#imm));
                     } else {
                         panic!("'{} {}, imm' imm should be 8 bit.", #inst_str, #op1_str);
                     }
@@ -904,11 +915,11 @@ fn shift_op(
                 // Shl r/m32, imm8
                 // REX C1 /4 ib
                 quote! {
-                    let imm = (#i) as i64;
-                    if imm == 1 {
+                    let #imm = (#i) as i64;
+                    if #imm == 1 {
                         jit.enc_digit(&[0xd1], #op1, #digit);
-                    } else if let Ok(imm) = i8::try_from(imm) {
-                        jit.enc_digit_imm(&[0xc1], #op1, #digit, Imm::B(imm));
+                    } else if let Ok(#imm) = i8::try_from(#imm) {
+                        jit.enc_digit_imm(&[0xc1], #op1, #digit, Imm::B(#imm));
                     } else {
                         panic!("'{} {}, imm' imm should be 8 bit.", #inst_str, #op1_str);
                     }
-- 
2.43.0


From 386bf7349ab70fe8984c6b5e0c33bfb59c3c2762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:46 +0000
Subject: [PATCH 6/9] fix: evaluate the register expressions of xchg and test
 once

---
 monoasm_macro/src/asm.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/monoasm_macro/src/asm.rs b/monoasm_macro/src/asm.rs
index 93abbc1..22afb35 100644
--- a/monoasm_macro/src/asm.rs
+++ b/monoasm_macro/src/asm.rs
@@ -9,6 +9,8 @@ fn imm_ident() -> Ident {
 
 pub fn compile(inst: Inst) -> TokenStream {
     let imm = imm_ident();
+    let reg1 = Ident::new("reg1", Span::mixed_site());
+    let reg2 = Ident::new("reg2", Span::mixed_site());
     match inst {
         Inst::Label(ident) => quote!( jit.bind_label(#ident); ),
         Inst::F64(f) => {
@@ -39,16 +41,18 @@ pub fn compile(inst: Inst) -> TokenStream {
         Inst::Xchg(size, op1, op2) => match size {
             OperandSize::QWORD => match (&op1, &op2) {
                 (RmOperand::Reg(r1), RmOperand::Reg(r2)) => quote! {
-                    if #r1 == Reg::from(0) {
-                        if #r2 == Reg::from(0) {
+                    // the operands may be expressions: evaluate each of them once.
+                    let (#reg1, #reg2) = (#r1, #r2);
+                    if #reg1 == Reg::from(0) {
+                        if #reg2 == Reg::from(0) {
                             jit.emitb(0x90);
                         } else {
-                            jit.enc_rexw_o(0x90, #r2);
+                            jit.enc_rexw_o(0x90, #reg2);
                         }
-                    } else if #r2 == Reg::from(0) {
-                        jit.enc_rexw_o(0x90, #r1);
+                    } else if #reg2 == Reg::from(0) {
+                        jit.enc_rexw_o(0x90, #reg1);
                     } else {
-                        jit.enc_rexw_mr(&[0x87], #r2, #op1);
+                        jit.enc_rexw_mr(&[0x87], #reg2, Rm::reg(#reg1));
                     }
                 },
                 (op1, RmOperand::Reg(op2)) => quote! {
@@ -72,11 +76,12 @@ pub fn compile(inst: Inst) -> TokenStream {
                         quote! {
                             let #imm = (#i) as i64;
                             if let Ok(#imm) = i32::try_from(#imm)  {
-                                if #reg.is_rax() {
+                                let #reg1 = #reg;
+                                if #reg1.is_rax() {
                                     jit.emit(&[0x48, 0xa9]);
                                     jit.emitl(#imm as u32);
                                 } else {
-                                    jit.enc_rexw_mi(0xf7, #op1, Imm::L(#imm));
+                                    jit.enc_rexw_mi(0xf7, Rm::reg(#reg1), Imm::L(#imm));
                                 }
                             } else {
                                 panic!("'TEST {}, imm64' does not exists.", #op1_str);
@@ -105,11 +110,12 @@ pub fn compile(inst: Inst) -> TokenStream {
                         quote! {
                             let #imm = (#i) as i64;
                             if let Ok(#imm) = i8::try_from(#imm)  {
-                                if #reg.is_rax() {
+                                let #reg1 = #reg;
+                                if #reg1.is_rax() {
                                     jit.emit(&[0xa8]);
                                     jit.emitb(#imm as u8);
                                 } else {
-                                    jit.enc_mi_byte(0xf6, #op1, Imm::B(#imm));
+                                    jit.enc_mi_byte(0xf6, Rm::reg(#reg1), Imm::B(#imm));
                                 }
                             } else {
                                 panic!("'TEST {}, imm64' does not exists.", #op1_str);
-- 
2.43.0


From 10abb8cea7f274e65a537ff9b08c80b9ea2cf857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:46 +0000
Subject: [PATCH 7/9] fix: reject register numbers above 16

---
 monoasm/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/monoasm/src/lib.rs b/monoasm/src/lib.rs
index f36aeab..9e478af 100644
--- a/monoasm/src/lib.rs
+++ b/monoasm/src/lib.rs
@@ -47,6 +47,7 @@ pub struct Reg(u8);
 
 impl Reg {
     pub fn from(num: u64) -> Self {
+        assert!(num <= 16, "Illegal register number.");
         Reg(num as u8)
     }
 
-- 
2.43.0


From 55a4c7a5ad25908186a87351dd48d2536df809c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:33 +0000
Subject: [PATCH 8/9] fix: reject a subtracted label and an unrepresentable
 negated displacement

---
 monoasm_macro/src/parse.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/monoasm_macro/src/parse.rs b/monoasm_macro/src/parse.rs
index 073c872..a8fa429 100644
--- a/monoasm_macro/src/parse.rs
+++ b/monoasm_macro/src/parse.rs
@@ -271,11 +271,11 @@ impl Parse for IndAddr {
             };
 
             if negate {
-                let disp = content.parse::<Disp>()?;
+                let disp = content.parse::<Disp>()?.neg(&content)?;
                 Ok(IndAddr {
                     base,
                     scale: Scale::None,
-                    disp: disp.neg(),
+                    disp,
                 })
             } else if content.peek(Ident) {
                 let ident = content.parse::<Ident>().unwrap();
@@ -301,7 +301,7 @@ impl Parse for IndAddr {
                             };
                             let disp = content.parse::<Disp>()?;
                             if negate {
-                                disp.neg()
+                                disp.neg(&content)?
                             } else {
                                 disp
                             }
@@ -441,11 +441,14 @@ pub enum Disp {
 }
 
 impl Disp {
-    fn neg(self) -> Self {
+    fn neg(self, input: ParseStream) -> Result<Self, Error> {
         match self {
-            Disp::Imm(disp) => Disp::Imm(-disp),
-            Disp::Expr(ts) => Disp::Expr(quote!(-(#ts))),
-            disp => disp,
+            Disp::Imm(disp) => match disp.checked_neg() {
+                Some(disp) => Ok(Disp::Imm(disp)),
+                None => Err(input.error("displacement is out of range.")),
+            },
+            Disp::Expr(ts) => Ok(Disp::Expr(quote!(-(#ts)))),
+            Disp::Label(_) => Err(input.error("a label can not be subtracted.")),
         }
     }
 }
-- 
2.43.0


From f04b18fcc506ea0d0ea161427a1b63505bfbae5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:06 +0000
Subject: [PATCH 9/9] fix: panic on a label displacement with a base other than
 rip

---
 monoasm/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/monoasm/src/lib.rs b/monoasm/src/lib.rs
index 9e478af..cb35000 100644
--- a/monoasm/src/lib.rs
+++ b/monoasm/src/lib.rs
@@ -227,6 +227,11 @@ impl Rm {
     }
 
     pub fn ind(base: Reg, disp: Disp, scale: Scale) -> Self {
+        // A label is resolved relative to rip.
+        assert!(
+            base.is_rip() || !matches!(disp, Disp::Label(_)),
+            "a label is allowed only with rip."
+        );
         let mode = Mode::Ind(scale, disp);
         Self { base, mode }
     }
-- 
2.43.0

