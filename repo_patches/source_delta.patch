From 257d8fd6a4f91df4d53b1a2a13ab000a45109f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:59 +0000
Subject: [PATCH 01/25] fix: sign-extend LEB128 values of 32 bits and more with
 a 64 bit mask

---
 pwart/util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwart/util.c b/pwart/util.c
index 2bcd459..a9801cc 100644
--- a/pwart/util.c
+++ b/pwart/util.c
@@ -89,7 +89,7 @@ static uint64_t read_LEB_(uint8_t *bytes, uint32_t *pos, uint32_t maxbits, int s
     }
     if (sign && (shift < maxbits) && (byte & 0x40)) {
         // Sign extend
-        result |= - (1 << shift);
+        result |= - ((uint64_t)1 << shift);
     }
     return result;
 }
-- 
2.43.0


From b9653b2a9ebab025648bdbd7c1960aa432ec6f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:59 +0000
Subject: [PATCH 02/25] fix: i64.extend16_s and i64.extend32_s use the right
 operand width

---
 pwart/opgen_num.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pwart/opgen_num.c b/pwart/opgen_num.c
index 5cb9b74..7c43ed0 100644
--- a/pwart/opgen_num.c
+++ b/pwart/opgen_num.c
@@ -1294,7 +1294,7 @@ static void opgen_GenConvertOp(ModuleCompiler *m,int opcode){
                      sv->val.tworeg.opr2, 0, SLJIT_IMM, 31);
     } else {
       a = pwart_GetFreeReg(m, RT_INTEGER, 1);
-      sljit_emit_op1(m->jitc, SLJIT_MOV_S8, a, 0, sv->val.op, sv->val.opw);
+      sljit_emit_op1(m->jitc, SLJIT_MOV_S16, a, 0, sv->val.op, sv->val.opw);
       sv->val.op = a;
       sv->val.opw = 0;
     }
@@ -1307,7 +1307,7 @@ static void opgen_GenConvertOp(ModuleCompiler *m,int opcode){
                      sv->val.tworeg.opr1, 0, SLJIT_IMM, 31);
     } else {
       a = pwart_GetFreeReg(m, RT_INTEGER, 1);
-      sljit_emit_op1(m->jitc, SLJIT_MOV_S8, a, 0, sv->val.op, sv->val.opw);
+      sljit_emit_op1(m->jitc, SLJIT_MOV_S32, a, 0, sv->val.op, sv->val.opw);
       sv->val.op = a;
       sv->val.opw = 0;
     }
-- 
2.43.0


From 2699080717a556812a0c98a49e0d82c17a492342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:59 +0000
Subject: [PATCH 03/25] fix: f32.copysign and f64.copysign take the sign of the
 second operand

---
 pwart/extfunc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index d7bce97..d7078e1 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -228,7 +228,7 @@ static void insn_f32min(float *fp){
   *fp = (*fp) < *(fp + 1) ? (*fp) : *(fp + 1);
 }
 static void insn_f32copysign(float *fp){
-  *fp = signbit(*fp) ? -fabs(*(fp + 1)) : fabs(*(fp + 1));
+  *fp = copysignf(*fp, *(fp + 1));
 }
 
 static void insn_f64max(double *fp){
@@ -238,7 +238,7 @@ static void insn_f64min(double *fp){
   *fp = (*fp) < *(fp + 1) ? (*fp) : *(fp + 1);
 }
 static void insn_f64copysign(double *fp){
-  *fp = signbit(*fp) ? -fabs(*(fp + 1)) : fabs(*(fp + 1));
+  *fp = copysign(*fp, *(fp + 1));
 }
 
 static void insn_i32truncf32u(uint32_t *fp){
-- 
2.43.0


From 5730bbcadf2ec01536796fb3d8ab3a634f031bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:59 +0000
Subject: [PATCH 04/25] fix: float min/max propagate NaN and order signed zeros

---
 pwart/extfunc.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index d7078e1..df19051 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -222,20 +222,32 @@ static void insn_i64shrs(int64_t *fp){ *fp = (*fp) >> (*(fp + 1)); }
 static void insn_i64shru(uint64_t *fp){ *fp = (*fp) >> (*(fp + 1)); }
 
 static void insn_f32max(float *fp){
-  *fp = (*fp) > *(fp + 1) ? (*fp) : *(fp + 1);
+  float a = *fp, b = *(fp + 1);
+  if (isnan(a) || isnan(b)) *fp = a + b;
+  else if (a == b) *fp = signbit(a) ? b : a;
+  else *fp = a > b ? a : b;
 }
 static void insn_f32min(float *fp){
-  *fp = (*fp) < *(fp + 1) ? (*fp) : *(fp + 1);
+  float a = *fp, b = *(fp + 1);
+  if (isnan(a) || isnan(b)) *fp = a + b;
+  else if (a == b) *fp = signbit(a) ? a : b;
+  else *fp = a < b ? a : b;
 }
 static void insn_f32copysign(float *fp){
   *fp = copysignf(*fp, *(fp + 1));
 }
 
 static void insn_f64max(double *fp){
-  *fp = (*fp) > *(fp + 1) ? (*fp) : *(fp + 1);
+  double a = *fp, b = *(fp + 1);
+  if (isnan(a) || isnan(b)) *fp = a + b;
+  else if (a == b) *fp = signbit(a) ? b : a;
+  else *fp = a > b ? a : b;
 }
 static void insn_f64min(double *fp){
-  *fp = (*fp) < *(fp + 1) ? (*fp) : *(fp + 1);
+  double a = *fp, b = *(fp + 1);
+  if (isnan(a) || isnan(b)) *fp = a + b;
+  else if (a == b) *fp = signbit(a) ? a : b;
+  else *fp = a < b ? a : b;
 }
 static void insn_f64copysign(double *fp){
   *fp = copysign(*fp, *(fp + 1));
-- 
2.43.0


From 65ceb17747871d2c4bf6ad35ab86acb9997a7366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:59 +0000
Subject: [PATCH 05/25] fix: i64.clz, i64.ctz and i64.popcnt write the whole 64
 bit result

---
 pwart/extfunc.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index df19051..f4bb495 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -25,9 +25,9 @@ static void insn_i64clz(void *fp){
       x >>= 4, c -= 4;
     if (x >> 2)
       x >>= 2, c -= 2;
-    *(uint32_t *)fp = c - (x >> 1);
+    *(uint64_t *)fp = c - (x >> 1);
   } else {
-    *(uint32_t *)fp = 64;
+    *(uint64_t *)fp = 64;
   }
 }
 static void insn_i64ctz(void *fp){
@@ -46,9 +46,9 @@ static void insn_i64ctz(void *fp){
       x <<= 2, c -= 2;
     if (x << 1)
       c -= 1;
-    *(uint32_t *)fp = c;
+    *(uint64_t *)fp = c;
   } else {
-    *(uint32_t *)fp = 64;
+    *(uint64_t *)fp = 64;
   }
 }
 static void insn_i64popcount(void *fp){
@@ -56,7 +56,7 @@ static void insn_i64popcount(void *fp){
   x -= (x & 0xaaaaaaaaaaaaaaaaull) >> 1;
   x = (x & 0x3333333333333333ull) + ((x & 0xccccccccccccccccull) >> 2);
   x = ((x * 0x11) & 0xf0f0f0f0f0f0f0f0ull) >> 4;
-  *(uint32_t *)fp = (uint32_t)((x * 0x0101010101010101ull) >> 56);
+  *(uint64_t *)fp = (uint32_t)((x * 0x0101010101010101ull) >> 56);
 }
 
 static void insn_i32clz(void *fp){
-- 
2.43.0


From dc9356a46cdee230fa0181fe83d95f10291eff8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:59 +0000
Subject: [PATCH 06/25] fix: zero-initialise all 8 bytes of f64 locals

---
 pwart/opgen_utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwart/opgen_utils.c b/pwart/opgen_utils.c
index 5be0754..358e6d1 100644
--- a/pwart/opgen_utils.c
+++ b/pwart/opgen_utils.c
@@ -758,7 +758,7 @@ static char* pwart_EmitFuncEnter(ModuleCompiler *m) {
         opgen_GenF32Const(m,(uint8_t *)&f32zero);
         break;
         case WVT_F64:
-        opgen_GenF32Const(m,(uint8_t *)&f64zero);
+        opgen_GenF64Const(m,(uint8_t *)&f64zero);
         break;
         case WVT_I32:
         opgen_GenI32Const(m,0);
-- 
2.43.0


From 20cc68bc543e1e8feeb75dc244b00e881de7b03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:59 +0000
Subject: [PATCH 07/25] fix: prepare pass reads the memory index before the
 offset, as the generate pass does

---
 pwart/wagen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwart/wagen.c b/pwart/wagen.c
index 2a0a59f..f05d7ac 100644
--- a/pwart/wagen.c
+++ b/pwart/wagen.c
@@ -224,8 +224,8 @@ static char *pwart_PrepareFunc(ModuleCompiler *m) {
     case 0x28:  case 0x29:  case 0x2a:  case 0x2b:  case 0x2c:  case 0x2d:  case 0x2e:  case 0x2f:  case 0x30:  case 0x31:  case 0x32:  case 0x33:  case 0x34:  case 0x35:  case 0x36:  case 0x37:  case 0x38:  case 0x39:  case 0x3a:  case 0x3b:  case 0x3c:  case 0x3d:  case 0x3e: 
       midx=0;
       arg = read_LEB(m->bytes, &m->pc, 32);
-      offset = read_LEB(m->bytes, &m->pc, 32);
       if(arg&0x40)midx=read_LEB(m->bytes, &m->pc, 32);
+      offset = read_LEB(m->bytes, &m->pc, 32);
       if(m->cached_midx<0 && (*dynarr_get(m->context->memories,Memory *,midx))->bytes!=NULL){
         m->mem_base_local = -2;
         m->cached_midx=midx;
-- 
2.43.0


From 3452de19b3f3d7a9105739a3fcee01bf255c01f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:59 +0000
Subject: [PATCH 08/25] fix: do not hand out a float register beyond the last
 scratch float register

---
 pwart/opgen_utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwart/opgen_utils.c b/pwart/opgen_utils.c
index 358e6d1..f08778c 100644
--- a/pwart/opgen_utils.c
+++ b/pwart/opgen_utils.c
@@ -564,7 +564,7 @@ static sljit_s32 pwart_GetFreeReg(ModuleCompiler *m, sljit_s32 regtype, int upst
     }
   } else {
     for (fr = SLJIT_FR0;
-         fr <= SLJIT_FR0 + SLJIT_NUMBER_OF_SCRATCH_FLOAT_REGISTERS; fr++) {
+         fr < SLJIT_FR0 + SLJIT_NUMBER_OF_SCRATCH_FLOAT_REGISTERS; fr++) {
       if (m->float_registers_status[fr - SLJIT_FR0] & RS_RESERVED) {
         continue;
       }
-- 
2.43.0


From 11082c636f1ec7cace4ec2f21623a4884efdd561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:59 +0000
Subject: [PATCH 09/25] fix: div/rem load operands that are addressed through
 R0 or R1

---
 pwart/opgen_num.c | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/pwart/opgen_num.c b/pwart/opgen_num.c
index 7c43ed0..71a274b 100644
--- a/pwart/opgen_num.c
+++ b/pwart/opgen_num.c
@@ -459,14 +459,14 @@ static void opgen_GenArithmeticOp(ModuleCompiler *m,int opcode){
     {
       StackValue *sv3;
       sv3 = stackvalue_FindSvalueUseReg(m, SLJIT_R0, RT_INTEGER, 0);
-      if (sv3 != sv) {
+      if (sv3 != sv || sv->val.op != SLJIT_R0) {
         if (sv3 != NULL) {
           pwart_EmitSaveStack(m, sv3);
         }
         pwart_EmitLoadReg(m, sv, SLJIT_R0);
       }
       sv3 = stackvalue_FindSvalueUseReg(m, SLJIT_R1, RT_INTEGER, 0);
-      if (sv3 != sv2) {
+      if (sv3 != sv2 || sv2->val.op != SLJIT_R1) {
         if (sv3 != NULL) {
           pwart_EmitSaveStack(m, sv3);
         }
@@ -479,14 +479,14 @@ static void opgen_GenArithmeticOp(ModuleCompiler *m,int opcode){
     {
       StackValue *sv3;
       sv3 = stackvalue_FindSvalueUseReg(m, SLJIT_R0, RT_INTEGER, 0);
-      if (sv3 != sv) {
+      if (sv3 != sv || sv->val.op != SLJIT_R0) {
         if (sv3 != NULL) {
           pwart_EmitSaveStack(m, sv3);
         }
         pwart_EmitLoadReg(m, sv, SLJIT_R0);
       }
       sv3 = stackvalue_FindSvalueUseReg(m, SLJIT_R1, RT_INTEGER, 0);
-      if (sv3 != sv2) {
+      if (sv3 != sv2 || sv2->val.op != SLJIT_R1) {
         if (sv3 != NULL) {
           pwart_EmitSaveStack(m, sv3);
         }
@@ -499,14 +499,14 @@ static void opgen_GenArithmeticOp(ModuleCompiler *m,int opcode){
     {
       StackValue *sv3;
       sv3 = stackvalue_FindSvalueUseReg(m, SLJIT_R0, RT_INTEGER, 0);
-      if (sv3 != sv) {
+      if (sv3 != sv || sv->val.op != SLJIT_R0) {
         if (sv3 != NULL) {
           pwart_EmitSaveStack(m, sv3);
         }
         pwart_EmitLoadReg(m, sv, SLJIT_R0);
       }
       sv3 = stackvalue_FindSvalueUseReg(m, SLJIT_R1, RT_INTEGER, 0);
-      if (sv3 != sv2) {
+      if (sv3 != sv2 || sv2->val.op != SLJIT_R1) {
         if (sv3 != NULL) {
           pwart_EmitSaveStack(m, sv3);
         }
@@ -519,14 +519,14 @@ static void opgen_GenArithmeticOp(ModuleCompiler *m,int opcode){
     {
       StackValue *sv3;
       sv3 = stackvalue_FindSvalueUseReg(m, SLJIT_R0, RT_INTEGER, 0);
-      if (sv3 != sv) {
+      if (sv3 != sv || sv->val.op != SLJIT_R0) {
         if (sv3 != NULL) {
           pwart_EmitSaveStack(m, sv3);
         }
         pwart_EmitLoadReg(m, sv, SLJIT_R0);
       }
       sv3 = stackvalue_FindSvalueUseReg(m, SLJIT_R1, RT_INTEGER, 0);
-      if (sv3 != sv2) {
+      if (sv3 != sv2 || sv2->val.op != SLJIT_R1) {
         if (sv3 != NULL) {
           pwart_EmitSaveStack(m, sv3);
         }
@@ -603,14 +603,14 @@ static void opgen_GenArithmeticOp(ModuleCompiler *m,int opcode){
       {
         StackValue *sv3;
         sv3 = stackvalue_FindSvalueUseReg(m, SLJIT_R0, RT_INTEGER, 0);
-        if (sv3 != sv) {
+        if (sv3 != sv || sv->val.op != SLJIT_R0) {
           if (sv3 != NULL) {
             pwart_EmitSaveStack(m, sv3);
           }
           pwart_EmitLoadReg(m, sv, SLJIT_R0);
         }
         sv3 = stackvalue_FindSvalueUseReg(m, SLJIT_R1, RT_INTEGER, 0);
-        if (sv3 != sv2) {
+        if (sv3 != sv2 || sv2->val.op != SLJIT_R1) {
           if (sv3 != NULL) {
             pwart_EmitSaveStack(m, sv3);
           }
@@ -623,14 +623,14 @@ static void opgen_GenArithmeticOp(ModuleCompiler *m,int opcode){
       {
         StackValue *sv3;
         sv3 = stackvalue_FindSvalueUseReg(m, SLJIT_R0, RT_INTEGER, 0);
-        if (sv3 != sv) {
+        if (sv3 != sv || sv->val.op != SLJIT_R0) {
           if (sv3 != NULL) {
             pwart_EmitSaveStack(m, sv3);
           }
           pwart_EmitLoadReg(m, sv, SLJIT_R0);
         }
         sv3 = stackvalue_FindSvalueUseReg(m, SLJIT_R1, RT_INTEGER, 0);
-        if (sv3 != sv2) {
+        if (sv3 != sv2 || sv2->val.op != SLJIT_R1) {
           if (sv3 != NULL) {
             pwart_EmitSaveStack(m, sv3);
           }
@@ -643,14 +643,14 @@ static void opgen_GenArithmeticOp(ModuleCompiler *m,int opcode){
       {
         StackValue *sv3;
         sv3 = stackvalue_FindSvalueUseReg(m, SLJIT_R0, RT_INTEGER, 0);
-        if (sv3 != sv) {
+        if (sv3 != sv || sv->val.op != SLJIT_R0) {
           if (sv3 != NULL) {
             pwart_EmitSaveStack(m, sv3);
           }
           pwart_EmitLoadReg(m, sv, SLJIT_R0);
         }
         sv3 = stackvalue_FindSvalueUseReg(m, SLJIT_R1, RT_INTEGER, 0);
-        if (sv3 != sv2) {
+        if (sv3 != sv2 || sv2->val.op != SLJIT_R1) {
           if (sv3 != NULL) {
             pwart_EmitSaveStack(m, sv3);
           }
@@ -663,14 +663,14 @@ static void opgen_GenArithmeticOp(ModuleCompiler *m,int opcode){
       {
         StackValue *sv3;
         sv3 = stackvalue_FindSvalueUseReg(m, SLJIT_R0, RT_INTEGER, 0);
-        if (sv3 != sv) {
+        if (sv3 != sv || sv->val.op != SLJIT_R0) {
           if (sv3 != NULL) {
             pwart_EmitSaveStack(m, sv3);
           }
           pwart_EmitLoadReg(m, sv, SLJIT_R0);
         }
         sv3 = stackvalue_FindSvalueUseReg(m, SLJIT_R1, RT_INTEGER, 0);
-        if (sv3 != sv2) {
+        if (sv3 != sv2 || sv2->val.op != SLJIT_R1) {
           if (sv3 != NULL) {
             pwart_EmitSaveStack(m, sv3);
           }
-- 
2.43.0


From dd10ae39ac5da2529d29da334cf1324095a4db2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:30 +0000
Subject: [PATCH 10/25] fix: a float stack value addressed through an integer
 register keeps that register in use

---
 pwart/opgen_utils.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pwart/opgen_utils.c b/pwart/opgen_utils.c
index f08778c..809c59c 100644
--- a/pwart/opgen_utils.c
+++ b/pwart/opgen_utils.c
@@ -29,6 +29,10 @@ static uint32_t wasmtype_GetSizeAndAlign(int wasm_type,uint32_t *align){
 static int stackvalue_IsFloat(StackValue *sv) {
   return sv->wasm_type == WVT_F32 || sv->wasm_type == WVT_F64;
 }
+// whether the operand of the stack value is a float register. A float stack value may also live in memory.
+static int stackvalue_UseFloatReg(StackValue *sv) {
+  return stackvalue_IsFloat(sv) && !(sv->jit_type == SVT_GENERAL && (sv->val.op & SLJIT_MEM));
+}
 static uint32_t stackvalue_GetSizeAndAlign(StackValue *sv, uint32_t *align) {
   return wasmtype_GetSizeAndAlign(sv->wasm_type,align);
 }
@@ -83,7 +87,7 @@ static StackValue *stackvalue_FindSvalueUseReg(ModuleCompiler *m, sljit_s32 r,
   int i, used = 0;
   for (i = 0; i <= m->sp - upstack; i++) {
     sv = &m->stack[i];
-    if ((regtype == RT_FLOAT) != stackvalue_IsFloat(sv)) {
+    if ((regtype == RT_FLOAT) != stackvalue_UseFloatReg(sv)) {
       continue;
     }
     if (sv->jit_type == SVT_GENERAL) {
-- 
2.43.0


From f3f817d966b03ddd28e120853ff90fc3ea33d29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:30 +0000
Subject: [PATCH 11/25] fix: local.set saves a reinterpreted copy of the local
 that is still on the stack

---
 pwart/opgen_mem.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pwart/opgen_mem.c b/pwart/opgen_mem.c
index 629d9ed..fa76c90 100644
--- a/pwart/opgen_mem.c
+++ b/pwart/opgen_mem.c
@@ -20,7 +20,7 @@ static void opgen_GenLocalSet(ModuleCompiler *m, uint32_t idx) {
   // check if local variable still on stack.
   for (int i = 0; i < m->sp; i++) {
     // XXX: If we use SLJIT_MEM(SLJIT_Sx), here need change.
-    if (stack[i].jit_type==SVT_GENERAL && stackvalue_IsFloat(&stack[i]) == stackvalue_IsFloat(sv) && stack[i].val.op == sv->val.op  && stack[i].val.opw == sv->val.opw ) {
+    if (stack[i].jit_type==SVT_GENERAL && stackvalue_UseFloatReg(&stack[i]) == stackvalue_UseFloatReg(sv) && stack[i].val.op == sv->val.op  && stack[i].val.opw == sv->val.opw ) {
       pwart_EmitSaveStack(m, &stack[i]);
     }
   }
@@ -36,7 +36,7 @@ static void opgen_GenLocalTee(ModuleCompiler *m, uint32_t idx) {
   // check if local variable still on stack.
   for (int i = 0; i < m->sp; i++) {
     // XXX: If we use SLJIT_MEM(SLJIT_Sx), here need change.
-    if (stack[i].jit_type==SVT_GENERAL && stackvalue_IsFloat(&stack[i]) == stackvalue_IsFloat(sv) && stack[i].val.op == sv->val.op  && stack[i].val.opw == sv->val.opw ) {
+    if (stack[i].jit_type==SVT_GENERAL && stackvalue_UseFloatReg(&stack[i]) == stackvalue_UseFloatReg(sv) && stack[i].val.op == sv->val.op  && stack[i].val.opw == sv->val.opw ) {
       pwart_EmitSaveStack(m, &stack[i]);
     }
   }
-- 
2.43.0


From 31390472fd0e7c37df328ae77e0e99883ae035f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:30 +0000
Subject: [PATCH 12/25] fix: returning several results does not overwrite
 parameters that are still to be returned

---
 pwart/opgen_utils.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pwart/opgen_utils.c b/pwart/opgen_utils.c
index 809c59c..27be5ee 100644
--- a/pwart/opgen_utils.c
+++ b/pwart/opgen_utils.c
@@ -485,6 +485,15 @@ static char *pwart_EmitFuncReturn(ModuleCompiler *m) {
     /* maybe unreachable code, Do nothing */
     return NULL;
   }
+  if(len>1){
+    // a result may be the value of a parameter that a previous result overwrites.
+    for (idx = 0; idx < len; idx++) {
+      sv = &m->stack[m->sp - len + idx + 1];
+      if(sv->jit_type==SVT_GENERAL && sv->val.op==SLJIT_MEM1(SLJIT_S0) && sv->val.opw<m->first_stackvalue_offset){
+        pwart_EmitSaveStack(m,sv);
+      }
+    }
+  }
   for (idx = 0; idx < len; idx++) {
     sv = &m->stack[m->sp - len + idx + 1];
     if(pwart_gcfg.stack_flags & PWART_STACK_FLAGS_AUTO_ALIGN){
-- 
2.43.0


From d189f9d8a0270de5d3aa74e5b8a6fd5c00d2d895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:30 +0000
Subject: [PATCH 13/25] fix: tail call moves its arguments without overwriting
 parameters they are read from

---
 pwart/opgen_utils.c | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/pwart/opgen_utils.c b/pwart/opgen_utils.c
index 27be5ee..54b6627 100644
--- a/pwart/opgen_utils.c
+++ b/pwart/opgen_utils.c
@@ -385,7 +385,23 @@ static char *pwart_EmitCallFunc2(ModuleCompiler *m, Type *type, sljit_s32 memreg
   }
   sv = m->stack+m->sp + 1; // first argument
 
-  if((pwart_gcfg.stack_flags&PWART_STACK_FLAGS_AUTO_ALIGN) && ((sv->frame_offset&7)>0)){
+  if(callReturn){
+    //tail call, first save all arguments to their own slot, as the arguments may be the parameters to overwrite.
+    for(a=0;a<len;a++){
+      pwart_EmitSaveStack(m,sv+a);
+    }
+    b=0;
+    for(a=0;a<len;a++){
+      if(pwart_gcfg.stack_flags&PWART_STACK_FLAGS_AUTO_ALIGN){
+        sv[a].frame_offset=stackvalue_GetAlignedOffset(sv+a,b,&b);
+      }else{
+        sv[a].frame_offset=b;
+        b+=stackvalue_GetSizeAndAlign(sv+a,NULL);
+      }
+      pwart_EmitSaveStack(m,sv+a);
+    }
+    sv->frame_offset=0;
+  }else if((pwart_gcfg.stack_flags&PWART_STACK_FLAGS_AUTO_ALIGN) && ((sv->frame_offset&7)>0)){
     //XXX: move stack value to align frame to 8 ,we should avoid this happen.
     sv->frame_offset+=4;
     if(len>0){
@@ -405,22 +421,6 @@ static char *pwart_EmitCallFunc2(ModuleCompiler *m, Type *type, sljit_s32 memreg
       m->sp-=len;
       sv=m->stack+m->sp+1; // first argument
     }
-  }else if(callReturn){
-    //tail call
-    sv->frame_offset=0;
-    if(len>0){
-      pwart_EmitSaveStack(m,sv);
-      b=sv->frame_offset+stackvalue_GetSizeAndAlign(sv,NULL);
-      m->sp+=len;
-      for(a=1;a<len;a++){
-        sv++;
-        sv->frame_offset = stackvalue_GetAlignedOffset(sv,b,&b);
-        pwart_EmitSaveStack(m,sv);
-      }
-      //move sp back
-      m->sp-=len;
-      sv=m->stack+m->sp+1; // first argument
-    }
   }else{
     for(i=len;i>0;i--){
       m->sp++;
-- 
2.43.0


From d3d3811a22d2c3f9162d0cd04331a25dd5ae9533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:06 +0000
Subject: [PATCH 14/25] fix: i32.rem_s and i64.rem_s of the smallest integer by
 -1 is 0 instead of a host trap

---
 pwart/extfunc.c   |  2 +-
 pwart/opgen_num.c | 10 ++++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index f4bb495..eeed427 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -215,7 +215,7 @@ static void insn_i64rotr(uint64_t *fp){
 static void insn_i64mul(uint64_t *fp){ *fp = (*fp) * (*(fp + 1)); }
 static void insn_i64divs(int64_t *fp){ *fp = (*fp) / (*(fp + 1)); }
 static void insn_i64divu(uint64_t *fp){ *fp = (*fp) / (*(fp + 1)); }
-static void insn_i64rems(int64_t *fp){ *fp = (*fp) % (*(fp + 1)); }
+static void insn_i64rems(int64_t *fp){ *fp = *(fp + 1) == -1 ? 0 : (*fp) % (*(fp + 1)); }
 static void insn_i64remu(uint64_t *fp){ *fp = (*fp) % (*(fp + 1)); }
 static void insn_i64shl(uint64_t *fp){ *fp = (*fp) << (*(fp + 1)); }
 static void insn_i64shrs(int64_t *fp){ *fp = (*fp) >> (*(fp + 1)); }
diff --git a/pwart/opgen_num.c b/pwart/opgen_num.c
index 71a274b..164e159 100644
--- a/pwart/opgen_num.c
+++ b/pwart/opgen_num.c
@@ -316,6 +316,14 @@ static void opgen_GenCompareOp(ModuleCompiler *m,int opcode){
   }
 }
 
+// x rem -1 is 0 for every x, but dividing the smallest integer by -1 traps on some hosts, so divide 0 instead.
+// dividend in R0 and divisor in R1, op32 is SLJIT_32 or 0.
+static void opgen_EmitRemSignedFixup(ModuleCompiler *m, sljit_s32 op32){
+  struct sljit_jump *jump = sljit_emit_cmp(m->jitc, SLJIT_NOT_EQUAL | op32, SLJIT_R1, 0, SLJIT_IMM, -1);
+  sljit_emit_op1(m->jitc, SLJIT_MOV, SLJIT_R0, 0, SLJIT_IMM, 0);
+  sljit_set_label(jump, sljit_emit_label(m->jitc));
+}
+
 static void opgen_GenArithmeticOp(ModuleCompiler *m,int opcode){
   StackValue *sv, *sv2;
   int32_t a, b;
@@ -513,6 +521,7 @@ static void opgen_GenArithmeticOp(ModuleCompiler *m,int opcode){
         pwart_EmitLoadReg(m, sv2, SLJIT_R1);
       }
       a = SLJIT_R1;
+      opgen_EmitRemSignedFixup(m, SLJIT_32);
       sljit_emit_op0(m->jitc, SLJIT_DIVMOD_S32);
     } break;
     case 0x70: // i32.rem_u
@@ -657,6 +666,7 @@ static void opgen_GenArithmeticOp(ModuleCompiler *m,int opcode){
           pwart_EmitLoadReg(m, sv2, SLJIT_R1);
         }
         a = SLJIT_R1;
+        opgen_EmitRemSignedFixup(m, 0);
         sljit_emit_op0(m->jitc, SLJIT_DIVMOD_SW);
       } break;
       case 0x82: // i64.rem_u
-- 
2.43.0


From b1da3bde2f970702d3c13a85e5485a5458f65268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:06 +0000
Subject: [PATCH 15/25] fix: memory.grow neither wraps its page count nor its
 byte count, and keeps the memory if allocation fails

---
 pwart/extfunc.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index eeed427..a948b25 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -304,17 +304,23 @@ static void insn_memorygrow(void *fp){
   uint32_t index=pwart_rstack_get_i32(&sp); // memory index
   RuntimeContext *m=pwart_rstack_get_ref(&sp);
   Memory *mem=*dynarr_get(m->memories,Memory *,index);
-  int32_t prev_pages = mem->pages;
-  if (delta + prev_pages > mem->maximum) {
+  uint32_t prev_pages = mem->pages;
+  if ((uint64_t)delta + prev_pages > mem->maximum) {
     sp=fp;
     pwart_rstack_put_i32(&sp,-1);
     return;
   }
-  mem->pages += delta;
-  if(!mem->fixed){
-    mem->bytes = wa_realloc(mem->bytes, mem->pages * PAGE_SIZE);
-    memset(mem->bytes+prev_pages*PAGE_SIZE,0,delta*PAGE_SIZE);
+  if(!mem->fixed && delta > 0){
+    uint8_t *bytes = wa_realloc(mem->bytes, ((size_t)prev_pages + delta) * PAGE_SIZE);
+    if(bytes==NULL){
+      sp=fp;
+      pwart_rstack_put_i32(&sp,-1);
+      return;
+    }
+    mem->bytes = bytes;
+    memset(mem->bytes+(size_t)prev_pages*PAGE_SIZE,0,(size_t)delta*PAGE_SIZE);
   }
+  mem->pages += delta;
   sp=fp;
   pwart_rstack_put_i32(&sp,prev_pages);
   return;
-- 
2.43.0


From 2008041dd31f1332fe3a7a60b7ad821ea1ac0bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:06 +0000
Subject: [PATCH 16/25] fix: memory with a declared maximum is allocated to the
 maximum it can grow to

---
 pwart/modparser.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pwart/modparser.c b/pwart/modparser.c
index f1f40c3..70d12ab 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -329,9 +329,10 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                 parse_memory_type(m, &pos,memory);
                 //XXX: custom memory creator?
                 if(memory->fixed){
-                    memory->bytes = wa_calloc(memory->initial*PAGE_SIZE);
+                    //the base of fixed memory can't change, so allocate to maximum.
+                    memory->bytes = wa_calloc((size_t)memory->maximum*PAGE_SIZE);
                 }else{
-                    memory->bytes = wa_calloc(memory->maximum*PAGE_SIZE);
+                    memory->bytes = wa_calloc((size_t)memory->initial*PAGE_SIZE);
                 }
                 *dynarr_push_type(&m->context->memories,Memory *)=memory;
             }
-- 
2.43.0


From 7328fa4c3ea859a95f5a20d2f6f680844970d34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:36 +0000
Subject: [PATCH 17/25] fix: skip the immediates of tail calls, table.get/set
 and typed select, and accept typed select

---
 pwart/opgen_ctl.c |  5 ++++-
 pwart/wagen.c     | 17 +++++++++++++----
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/pwart/opgen_ctl.c b/pwart/opgen_ctl.c
index e5325c4..6fb43b8 100644
--- a/pwart/opgen_ctl.c
+++ b/pwart/opgen_ctl.c
@@ -372,7 +372,10 @@ static char *opgen_GenCtlOp(ModuleCompiler *m, int opcode) {
     opgen_GenDrop(m);
     break;
   case WASMOPC_select_t:                     // select t
-    m->pc++;
+    count = read_LEB(bytes, &m->pc, 32);
+    for (uint32_t i = 0; i < count; i++) {
+      read_LEB(bytes, &m->pc, 32);
+    }
   case WASMOPC_select:                     // select
     opgen_GenSelect(m);
     break;
diff --git a/pwart/wagen.c b/pwart/wagen.c
index f05d7ac..a5ed5ac 100644
--- a/pwart/wagen.c
+++ b/pwart/wagen.c
@@ -17,11 +17,12 @@ static void wasm_SkipImmediates(uint8_t *bytes, uint32_t *pos) {
   switch (opcode) {
   // varuint1
   case 0x3f: case 0x40: // current_memory, memory.grow
-    read_LEB(bytes, pos, 1);
+    read_LEB(bytes, pos, 32);
     break;
   // varuint32, varint32
   case 0x0c: case 0x0d: // br, br_if
   case 0x10:          // call
+  case 0x12:          // return_call
     read_LEB(bytes, pos, 32);
     break;
   case 0x20: //local.get
@@ -35,6 +36,8 @@ static void wasm_SkipImmediates(uint8_t *bytes, uint32_t *pos) {
     break;
   case 0x23: //global.get
   case 0x24: //global.set
+  case 0x25: //table.get
+  case 0x26: //table.set
   case 0xd0: //ref.null
   case 0xd2: //ref.func
     read_LEB(bytes, pos, 32);
@@ -44,11 +47,15 @@ static void wasm_SkipImmediates(uint8_t *bytes, uint32_t *pos) {
     break;
   // varuint32 + varuint1
   case 0x11: // call_indirect
+  case 0x13: // return_call_indirect
+    read_LEB(bytes, pos, 32);
     read_LEB(bytes, pos, 32);
-    read_LEB(bytes, pos, 1);
     break;
   case 0x1c: // select t
-    read_LEB(bytes, pos, 32);
+    count = read_LEB(bytes, pos, 32);
+    for (uint32_t i = 0; i < count; i++) {
+      read_LEB(bytes, pos, 32);
+    }
     break;
   // varint64
   case 0x42: // i64.const
@@ -88,11 +95,13 @@ static void wasm_SkipImmediates(uint8_t *bytes, uint32_t *pos) {
     int opc2=bytes[*pos];
     *pos = *pos + 1;
     switch(opc2){
+      case 0x8: case 0xc:
       case 0xa:
       case 0xe:
       read_LEB(bytes,pos,32); 
       read_LEB(bytes,pos,32); 
       break;
+      case 0x9: case 0xd:
       case 0x0b:
       case 0x0f: case 0x10: case 0x11:
       read_LEB(bytes,pos,32); 
@@ -334,7 +343,7 @@ static char *pwart_GenCode(ModuleCompiler *m) {
       pwart_EmitStackValueLoadReg(m, &m->stack[m->sp]);
     }
 
-    if (opcode >= 0 && opcode <= 0x1b) {
+    if (opcode >= 0 && opcode <= WASMOPC_select_t) {
       ReturnIfErr(opgen_GenCtlOp(m, opcode));
     } else if (opcode <= 0x44) {
       ReturnIfErr(opgen_GenMemOp(m, opcode));
-- 
2.43.0


From c7f827d0f56512aa1ba303bcf9096f2c80dbbfbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:43 +0000
Subject: [PATCH 18/25] fix: do not generate code for unreachable instructions,
 whose operand stack is not known

---
 pwart/def.h       |  1 +
 pwart/opgen_ctl.c | 58 +++++++++++++++++++++++++++++++----------------
 pwart/wagen.c     | 25 ++++++++++++++++++++
 3 files changed, 64 insertions(+), 20 deletions(-)

diff --git a/pwart/def.h b/pwart/def.h
index f0cfee0..e03e8f8 100644
--- a/pwart/def.h
+++ b/pwart/def.h
@@ -66,6 +66,7 @@ typedef struct Block {
     uint8_t    block_type;    // 0x00: function, 0x01: init_exp
                               // 0x02: block, 0x03: loop, 0x04: if
     int8_t     stack_offset;  //stack offset after block end.
+    uint8_t    result_type;   //wasm type of the block result, 0 if none.
     int16_t    saved_sp;      //sp when enter block.
     //Type      *type;           params/results type
     struct sljit_jump *else_jump;     // if block only
diff --git a/pwart/opgen_ctl.c b/pwart/opgen_ctl.c
index 6fb43b8..ab6abbe 100644
--- a/pwart/opgen_ctl.c
+++ b/pwart/opgen_ctl.c
@@ -7,17 +7,19 @@
 #include "opgen_utils.c"
 
 static void opgen_GenUnreachable(ModuleCompiler *m) {
-  //just do nothing now.
+  sljit_emit_op0(m->jitc, SLJIT_BREAKPOINT);
+  m->block_returned=1;
 }
 
-static void opgen_GenBlock(ModuleCompiler *m,int stackOffset) {
+static void opgen_GenBlock(ModuleCompiler *m,int resultType) {
   Block *block;
   pwart_EmitSaveStackAll(m);
   block = dynarr_push_type(&m->blocks, Block);
   block->block_type = 0x2;
   dynarr_init(&block->br_jump, sizeof(struct sljit_jump *));
   block->else_jump = NULL;
-  block->stack_offset=stackOffset;
+  block->stack_offset=(resultType!=0);
+  block->result_type=resultType;
   block->saved_sp=m->sp;
   #if PWART_DEBUG_RUNTIME_PROBE
   sljit_emit_op1(m->jitc,SLJIT_MOV,SLJIT_R0,0,SLJIT_IMM,m->pc-1);
@@ -25,13 +27,14 @@ static void opgen_GenBlock(ModuleCompiler *m,int stackOffset) {
   #endif
 }
 /* blktype 0x40 indicating the empty type. */
-static void opgen_GenLoop(ModuleCompiler *m,int stackOffset) {
+static void opgen_GenLoop(ModuleCompiler *m,int resultType) {
   Block *block;
   pwart_EmitSaveStackAll(m);
   block = dynarr_push_type(&m->blocks, Block);
   block->block_type = 0x3;
   block->br_label = sljit_emit_label(m->jitc);
-  block->stack_offset=stackOffset;
+  block->stack_offset=(resultType!=0);
+  block->result_type=resultType;
   block->saved_sp=m->sp;
   #if PWART_DEBUG_RUNTIME_PROBE
   sljit_emit_op1(m->jitc,SLJIT_MOV,SLJIT_R0,0,SLJIT_IMM,m->pc-1);
@@ -39,7 +42,7 @@ static void opgen_GenLoop(ModuleCompiler *m,int stackOffset) {
   #endif
 }
 /* blktype 0x40 indicating the empty type. */
-static void opgen_GenIf(ModuleCompiler *m,int stackOffset) {
+static void opgen_GenIf(ModuleCompiler *m,int resultType) {
   Block *block;
   StackValue *sv;
   struct sljit_jump *jump;
@@ -68,17 +71,21 @@ static void opgen_GenIf(ModuleCompiler *m,int stackOffset) {
   }
   block->else_jump = jump;
   m->sp--;
-  block->stack_offset=stackOffset;
+  block->stack_offset=(resultType!=0);
+  block->result_type=resultType;
   block->saved_sp=m->sp;
   
 }
 
 static void opgen_GenElse(ModuleCompiler *m) {
   Block *block;
-  pwart_EmitSaveStackAll(m);
   block = dynarr_get(m->blocks, Block, m->blocks->len - 1);
-  *dynarr_push_type(&block->br_jump, struct sljit_jump *) =
-      sljit_emit_jump(m->jitc, SLJIT_JUMP);
+  if(!m->block_returned){
+    pwart_EmitSaveStackAll(m);
+    *dynarr_push_type(&block->br_jump, struct sljit_jump *) =
+        sljit_emit_jump(m->jitc, SLJIT_JUMP);
+  }
+  m->block_returned=0;
   sljit_set_label(block->else_jump, sljit_emit_label(m->jitc));
   block->else_jump = NULL;
   m->sp=block->saved_sp;
@@ -93,7 +100,9 @@ static void opgen_GenEnd(ModuleCompiler *m) {
   Block *block = dynarr_pop_type(&m->blocks, Block);
   int a;
   if (block->block_type == 0x2 || block->block_type == 0x4) {
-    pwart_EmitSaveStackAll(m);
+    if(!m->block_returned){
+      pwart_EmitSaveStackAll(m);
+    }
     // if block
     block->br_label = sljit_emit_label(m->jitc);
     for (a = 0; a < block->br_jump->len; a++) {
@@ -111,6 +120,14 @@ static void opgen_GenEnd(ModuleCompiler *m) {
     }
     m->eof = 1;
   } 
+  if(block->stack_offset>0 && m->block_returned){
+    // the end is only reached by branches, which leave the result in the frame.
+    StackValue *sv;
+    m->sp=block->saved_sp;
+    sv=stackvalue_Push(m,block->result_type);
+    sv->val.op=SLJIT_MEM1(SLJIT_S0);
+    sv->val.opw=sv->frame_offset;
+  }
   m->sp=block->saved_sp+block->stack_offset;
   if (block->br_jump != NULL) {
     dynarr_free(&block->br_jump);
@@ -136,9 +153,7 @@ static void opgen_GenBr(ModuleCompiler *m, int32_t depth) {
     *dynarr_push_type(&block->br_jump, struct sljit_jump *) =
         sljit_emit_jump(m->jitc, SLJIT_JUMP);
   }
-  if(block->block_type==0x2 || block->block_type==0x4){
-    m->block_returned=1;
-  }
+  m->block_returned=1;
 }
 
 static void opgen_GenBrIf(ModuleCompiler *m, int32_t depth) {
@@ -225,6 +240,7 @@ static void opgen_GenBrTable(ModuleCompiler *m) {
         sljit_emit_jump(m->jitc, SLJIT_JUMP);
   }
   m->sp--;
+  m->block_returned=1;
 }
 
 static void opgen_GenReturn(ModuleCompiler *m) {
@@ -248,6 +264,8 @@ static void opgen_GenCall(ModuleCompiler *m, int32_t fidx, int callReturn) {
     sljit_emit_op1(m->jitc, SLJIT_MOV, a, 0, SLJIT_IMM,(sljit_uw)(m->context->funcentries+fidx));
     type = dynarr_get(m->types, Type, fn->tidx);
     pwart_EmitCallFunc2(m, type, SLJIT_MEM1(a), 0,callReturn);
+  }else if(callReturn){
+    opgen_GenReturn(m);
   }
 }
 
@@ -292,12 +310,12 @@ static void opgen_GenSelect(ModuleCompiler *m) {
   sljit_set_label(jump, sljit_emit_label(m->jitc));
 }
 
-static char *opgen_ParseBlockStackOffset(ModuleCompiler *m,int *stackOffset){
+static char *opgen_ParseBlockResultType(ModuleCompiler *m,int *resultType){
   if(*(m->bytes+m->pc)==0x40){
-    *stackOffset=0;
+    *resultType=0;
     m->pc++;
   }else if(((*(m->bytes+m->pc))&0xC0)==0x40){
-    *stackOffset=1;
+    *resultType=*(m->bytes+m->pc);
     m->pc++;
   }else{
     return "Not support type index for block type";
@@ -316,15 +334,15 @@ static char *opgen_GenCtlOp(ModuleCompiler *m, int opcode) {
   case 0x01: // nop
     break;
   case 0x02: // block
-    ReturnIfErr(opgen_ParseBlockStackOffset(m,&count));
+    ReturnIfErr(opgen_ParseBlockResultType(m,&count));
     opgen_GenBlock(m,count);
     break;
   case 0x03: // loop
-    ReturnIfErr(opgen_ParseBlockStackOffset(m,&count));
+    ReturnIfErr(opgen_ParseBlockResultType(m,&count));
     opgen_GenLoop(m,count);
     break;
   case 0x04: // if
-    ReturnIfErr(opgen_ParseBlockStackOffset(m,&count));
+    ReturnIfErr(opgen_ParseBlockResultType(m,&count));
     opgen_GenIf(m,count);
     break;
   case 0x05: // else
diff --git a/pwart/wagen.c b/pwart/wagen.c
index a5ed5ac..d903c5e 100644
--- a/pwart/wagen.c
+++ b/pwart/wagen.c
@@ -296,6 +296,27 @@ static char *pwart_PrepareFunc(ModuleCompiler *m) {
   return NULL;
 }
 
+//no code is generated for unreachable instructions, go forward to the matching else/end.
+static void pwart_SkipUnreachable(ModuleCompiler *m) {
+  uint8_t opcode;
+  int nested = 0;
+  while (m->pc < m->byte_count) {
+    opcode = m->bytes[m->pc];
+    if (opcode == 0x02 || opcode == 0x03 || opcode == WASMOPC_if) { // block, loop, if
+      nested++;
+    } else if (opcode == 0x05 && nested == 0) {
+      break;
+    } else if (opcode == WASMOPC_end) {
+      if (nested == 0) break;
+      nested--;
+    }
+    wasm_SkipImmediates(m->bytes, &m->pc);
+#if DEBUG_BUILD
+    m->insnCnt--;
+#endif
+  }
+}
+
 /*
 r0,r1,r2 is scratch registers(at least three registers are required.).
 s0(arg0) contains stack frame pointer.
@@ -352,6 +373,10 @@ static char *pwart_GenCode(ModuleCompiler *m) {
     } else {
       ReturnIfErr(opgen_GenMiscOp(m, opcode));
     }
+
+    if (m->block_returned && !m->eof) {
+      pwart_SkipUnreachable(m);
+    }
   }
 
   #if DEBUG_BUILD
-- 
2.43.0


From 0e451c3a3cec482b9b33c1b299b6a86d21561b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:26 +0000
Subject: [PATCH 19/25] fix: branches move the block result to where the block
 end expects it, and may target the function body

---
 pwart/opgen_ctl.c | 114 ++++++++++++++++++++++++++++++----------------
 1 file changed, 75 insertions(+), 39 deletions(-)

diff --git a/pwart/opgen_ctl.c b/pwart/opgen_ctl.c
index ab6abbe..879a1fd 100644
--- a/pwart/opgen_ctl.c
+++ b/pwart/opgen_ctl.c
@@ -26,6 +26,50 @@ static void opgen_GenBlock(ModuleCompiler *m,int resultType) {
   sljit_emit_icall(m->jitc,SLJIT_CALL,SLJIT_ARGS1(VOID,W),SLJIT_IMM,(sljit_sw)&debug_PrintBlockInstr);
   #endif
 }
+// offset of the frame slot that holds the block result behind the block end, however the end is reached.
+static int opgen_BlockResultOffset(ModuleCompiler *m, Block *block) {
+  StackValue saved;
+  int offset, sp = m->sp;
+  m->sp = block->saved_sp;
+  saved = m->stack[m->sp + 1];
+  offset = stackvalue_Push(m, block->result_type)->frame_offset;
+  m->stack[m->sp] = saved;
+  m->sp = sp;
+  return offset;
+}
+// move the block result on stack top to the slot expected behind the block end.
+static void opgen_EmitBlockResult(ModuleCompiler *m, Block *block) {
+  if (block->stack_offset > 0) {
+    pwart_EmitStoreStackValue(m, &m->stack[m->sp], SLJIT_MEM1(SLJIT_S0), opgen_BlockResultOffset(m, block));
+  }
+}
+// whether a branch to block needs more than a jump.
+static int opgen_BranchNeedsMove(ModuleCompiler *m, Block *block) {
+  StackValue *sv = &m->stack[m->sp];
+  if (block->block_type == 0x00) return 1;
+  if (block->block_type == 0x3 || block->stack_offset == 0) return 0;
+  return !(sv->jit_type == SVT_GENERAL && sv->val.op == SLJIT_MEM1(SLJIT_S0) &&
+           sv->val.opw == opgen_BlockResultOffset(m, block));
+}
+static void opgen_BindBranch(ModuleCompiler *m, Block *block, struct sljit_jump *jump) {
+  if (block->block_type == 0x3) {
+    sljit_set_label(jump, block->br_label);
+  } else {
+    *dynarr_push_type(&block->br_jump, struct sljit_jump *) = jump;
+  }
+}
+// branch unconditionally, the block result is on stack top.
+static void opgen_EmitBranch(ModuleCompiler *m, Block *block) {
+  if (block->block_type == 0x00) {
+    // branch to the function body
+    pwart_EmitFuncReturn(m);
+    return;
+  }
+  if (block->block_type != 0x3) {
+    opgen_EmitBlockResult(m, block);
+  }
+  opgen_BindBranch(m, block, sljit_emit_jump(m->jitc, SLJIT_JUMP));
+}
 /* blktype 0x40 indicating the empty type. */
 static void opgen_GenLoop(ModuleCompiler *m,int resultType) {
   Block *block;
@@ -82,8 +126,7 @@ static void opgen_GenElse(ModuleCompiler *m) {
   block = dynarr_get(m->blocks, Block, m->blocks->len - 1);
   if(!m->block_returned){
     pwart_EmitSaveStackAll(m);
-    *dynarr_push_type(&block->br_jump, struct sljit_jump *) =
-        sljit_emit_jump(m->jitc, SLJIT_JUMP);
+    opgen_EmitBranch(m, block);
   }
   m->block_returned=0;
   sljit_set_label(block->else_jump, sljit_emit_label(m->jitc));
@@ -102,6 +145,7 @@ static void opgen_GenEnd(ModuleCompiler *m) {
   if (block->block_type == 0x2 || block->block_type == 0x4) {
     if(!m->block_returned){
       pwart_EmitSaveStackAll(m);
+      opgen_EmitBlockResult(m, block);
     }
     // if block
     block->br_label = sljit_emit_label(m->jitc);
@@ -120,8 +164,8 @@ static void opgen_GenEnd(ModuleCompiler *m) {
     }
     m->eof = 1;
   } 
-  if(block->stack_offset>0 && m->block_returned){
-    // the end is only reached by branches, which leave the result in the frame.
+  if(block->stack_offset>0 && (m->block_returned || block->block_type != 0x3)){
+    // the result is left in the frame.
     StackValue *sv;
     m->sp=block->saved_sp;
     sv=stackvalue_Push(m,block->result_type);
@@ -147,17 +191,14 @@ static void opgen_GenBr(ModuleCompiler *m, int32_t depth) {
   sljit_emit_icall(m->jitc,SLJIT_CALL,SLJIT_ARGS1(VOID,W),SLJIT_IMM,(sljit_sw)&debug_PrintBlockInstr);
   #endif
   block = dynarr_get(m->blocks, Block, m->blocks->len - 1 - depth);
-  if (block->br_label != NULL) {
-    sljit_set_label(sljit_emit_jump(m->jitc, SLJIT_JUMP), block->br_label);
-  } else {
-    *dynarr_push_type(&block->br_jump, struct sljit_jump *) =
-        sljit_emit_jump(m->jitc, SLJIT_JUMP);
-  }
+  opgen_EmitBranch(m, block);
   m->block_returned=1;
 }
 
 static void opgen_GenBrIf(ModuleCompiler *m, int32_t depth) {
   StackValue *sv;
+  struct sljit_jump *jump;
+  int skip;
   Block *block;
   StackValue *stack = m->stack;
   sv = &stack[m->sp];
@@ -171,29 +212,27 @@ static void opgen_GenBrIf(ModuleCompiler *m, int32_t depth) {
   sljit_emit_icall(m->jitc,SLJIT_CALL,SLJIT_ARGS1(VOID,W),SLJIT_IMM,(sljit_sw)&debug_PrintBlockInstr);
   #endif
   block = dynarr_get(m->blocks, Block, m->blocks->len - 1 - depth);
+  // sljit_emit_cmp always use machine word length, So load to register first.
+  if (sv->jit_type == SVT_GENERAL) {
+    pwart_EmitStackValueLoadReg(m, sv);
+  }
+  m->sp--;
+  // jump over the branch if more than a jump is needed.
+  skip = opgen_BranchNeedsMove(m, block);
   if (sv->jit_type == SVT_CMP) {
-    if (block->br_label != NULL) {
-      sljit_set_label(sljit_emit_jump(m->jitc, sv->val.cmp.flag),
-                      block->br_label);
-    } else {
-      *dynarr_push_type(&block->br_jump, struct sljit_jump *) =
-          sljit_emit_jump(m->jitc, sv->val.cmp.flag);
-    }
+    jump = sljit_emit_jump(m->jitc, sv->val.cmp.flag ^ skip);
   } else if (sv->jit_type == SVT_GENERAL) {
-    // sljit_emit_cmp always use machine word length, So load to register first.
-    pwart_EmitStackValueLoadReg(m, sv);
-    if (block->br_label != NULL) {
-      sljit_set_label(sljit_emit_cmp(m->jitc, SLJIT_NOT_EQUAL, sv->val.op,
-                                     sv->val.opw, SLJIT_IMM, 0),
-                      block->br_label);
-    } else {
-      *dynarr_push_type(&block->br_jump, struct sljit_jump *) = sljit_emit_cmp(
-          m->jitc, SLJIT_NOT_EQUAL, sv->val.op, sv->val.opw, SLJIT_IMM, 0);
-    }
+    jump = sljit_emit_cmp(m->jitc, skip ? SLJIT_EQUAL : SLJIT_NOT_EQUAL,
+                          sv->val.op, sv->val.opw, SLJIT_IMM, 0);
   } else {
     SLJIT_UNREACHABLE();
   }
-  m->sp--;
+  if (skip) {
+    opgen_EmitBranch(m, block);
+    sljit_set_label(jump, sljit_emit_label(m->jitc));
+  } else {
+    opgen_BindBranch(m, block, jump);
+  }
 }
 
 static void opgen_GenBrTable(ModuleCompiler *m) {
@@ -201,6 +240,7 @@ static void opgen_GenBrTable(ModuleCompiler *m) {
   int a, count;
   Block *block;
   StackValue *sv;
+  struct sljit_jump *jump;
   sv=m->stack+m->sp;
   count = m->br_table->len-1;
   for (int i = 0; i < m->sp; i++) {
@@ -212,6 +252,7 @@ static void opgen_GenBrTable(ModuleCompiler *m) {
   sljit_emit_icall(m->jitc,SLJIT_CALL,SLJIT_ARGS1(VOID,W),SLJIT_IMM,(sljit_sw)&debug_PrintBlockInstr);
   #endif
   pwart_EmitStackValueLoadReg(m, sv);
+  m->sp--;
   for (a = 0; a < count; a++) {
     depth = *dynarr_get(m->br_table, uint32_t, a);
     block = dynarr_get(m->blocks, Block, m->blocks->len - 1 - depth);
@@ -222,24 +263,19 @@ static void opgen_GenBrTable(ModuleCompiler *m) {
       sljit_emit_op2(m->jitc, SLJIT_SUB32 | SLJIT_SET_Z, sv->val.op,
                      sv->val.opw, sv->val.op, sv->val.opw, SLJIT_IMM, 1);
     }
-    if (block->br_label != NULL) {
-      sljit_set_label(sljit_emit_jump(m->jitc, SLJIT_ZERO), block->br_label);
+    if (opgen_BranchNeedsMove(m, block)) {
+      jump = sljit_emit_jump(m->jitc, SLJIT_NOT_ZERO);
+      opgen_EmitBranch(m, block);
+      sljit_set_label(jump, sljit_emit_label(m->jitc));
     } else {
-      *dynarr_push_type(&block->br_jump, struct sljit_jump *) =
-          sljit_emit_jump(m->jitc, SLJIT_ZERO);
+      opgen_BindBranch(m, block, sljit_emit_jump(m->jitc, SLJIT_ZERO));
     }
   }
 
   // default
   depth = *dynarr_get(m->br_table, uint32_t, count);
   block = dynarr_get(m->blocks, Block, m->blocks->len - 1 - depth);
-  if (block->br_label != NULL) {
-    sljit_set_label(sljit_emit_jump(m->jitc, SLJIT_JUMP), block->br_label);
-  } else {
-    *dynarr_push_type(&block->br_jump, struct sljit_jump *) =
-        sljit_emit_jump(m->jitc, SLJIT_JUMP);
-  }
-  m->sp--;
+  opgen_EmitBranch(m, block);
   m->block_returned=1;
 }
 
-- 
2.43.0


From f8dd82e04e7ff192bf45c1060611f9b8213dcca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:58 +0000
Subject: [PATCH 20/25] fix: br_table does not decrement the local variable
 that holds the index

---
 pwart/opgen_ctl.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pwart/opgen_ctl.c b/pwart/opgen_ctl.c
index 879a1fd..dc03af8 100644
--- a/pwart/opgen_ctl.c
+++ b/pwart/opgen_ctl.c
@@ -252,6 +252,12 @@ static void opgen_GenBrTable(ModuleCompiler *m) {
   sljit_emit_icall(m->jitc,SLJIT_CALL,SLJIT_ARGS1(VOID,W),SLJIT_IMM,(sljit_sw)&debug_PrintBlockInstr);
   #endif
   pwart_EmitStackValueLoadReg(m, sv);
+  if (sv->val.op >= SLJIT_FIRST_SAVED_REG) {
+    // the index is decremented below, don't touch the local variable it comes from.
+    a = pwart_GetFreeReg(m, RT_INTEGER, 0);
+    pwart_EmitLoadReg(m, sv, a);
+    sv->val.op = a;
+  }
   m->sp--;
   for (a = 0; a < count; a++) {
     depth = *dynarr_get(m->br_table, uint32_t, a);
-- 
2.43.0


From 81e327193826dadc4459bfff57ff54cb7afff841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:23 +0000
Subject: [PATCH 21/25] fix: save every scratch float register before a call,
 not only the first few

---
 pwart/opgen_utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwart/opgen_utils.c b/pwart/opgen_utils.c
index 54b6627..fd2c1de 100644
--- a/pwart/opgen_utils.c
+++ b/pwart/opgen_utils.c
@@ -238,7 +238,7 @@ static char* pwart_EmitSaveScratchRegisterAll(ModuleCompiler *m,int upstack) {
   for (i = 0; i <= m->sp-upstack; i++) {
     if(m->stack[i].jit_type==SVT_GENERAL){
       usereg=SLJIT_GET_REG_PART(m->stack[i].val.op);
-      if(usereg!=0 && usereg< SLJIT_FIRST_SAVED_REG){
+      if(usereg!=0 && usereg< (stackvalue_UseFloatReg(&m->stack[i]) ? SLJIT_FIRST_SAVED_FLOAT_REG : SLJIT_FIRST_SAVED_REG)){
         pwart_EmitSaveStack(m,m->stack+i);
       }
     }else if(m->stack[i].jit_type==SVT_TWO_REG){
-- 
2.43.0


From bd441536ed5275c34abcfb06752ac84c4fd2a042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:08 +0000
Subject: [PATCH 22/25] fix: with PWART_STACK_FLAGS_AUTO_ALIGN, no gap is left
 in front of a call result used as argument

---
 pwart/opgen_utils.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pwart/opgen_utils.c b/pwart/opgen_utils.c
index fd2c1de..46c5880 100644
--- a/pwart/opgen_utils.c
+++ b/pwart/opgen_utils.c
@@ -444,15 +444,19 @@ static char *pwart_EmitCallFunc2(ModuleCompiler *m, Type *type, sljit_s32 memreg
     m->block_returned=1;
   }
   len = strlen((const char *)type->results);
+  b = func_frame_offset;
   for (a = 0; a < len; a++) {
-    b = type->results[a];
-    sv = stackvalue_Push(m, b);
+    sv = stackvalue_Push(m, type->results[a]);
     sv->jit_type = SVT_GENERAL;
     sv->val.op = SLJIT_MEM1(SLJIT_S0);
-    if(a==0){
-      sv->frame_offset=func_frame_offset;
+    if(pwart_gcfg.stack_flags&PWART_STACK_FLAGS_AUTO_ALIGN){
+      sv->val.opw = stackvalue_GetAlignedOffset(sv,b,&b);
+    }else{
+      sv->val.opw = b;
+      b += stackvalue_GetSizeAndAlign(sv,NULL);
     }
-    sv->val.opw = sv->frame_offset;
+    //the frame of the callee may have been aligned, move the result to its own slot, so no gap is left in front of it.
+    pwart_EmitSaveStack(m,sv);
   }
   
   if((m->mem_base_local >= 0)){
-- 
2.43.0


From c74a9a28fa8851dc336277e7c675ba1694eacecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:30 +0000
Subject: [PATCH 23/25] fix: memory.size and table.size load their value at
 once instead of through a register the next instruction overwrites

---
 pwart/opgen_mem.c  | 4 +++-
 pwart/opgen_misc.c | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/pwart/opgen_mem.c b/pwart/opgen_mem.c
index fa76c90..07876f7 100644
--- a/pwart/opgen_mem.c
+++ b/pwart/opgen_mem.c
@@ -140,9 +140,11 @@ static void opgen_GenCurrentMemory(ModuleCompiler *m,uint32_t index) {
   StackValue *sv;
   a = pwart_GetFreeReg(m, RT_INTEGER, 0);
   sljit_emit_op1(m->jitc,SLJIT_MOV,a,0,SLJIT_IMM,(sljit_uw)(&(*dynarr_get(m->context->memories,Memory *,index))->pages));
+  //load the value now, an operation may use the base register of its second operand as destination.
+  sljit_emit_op1(m->jitc,SLJIT_MOV32,a,0,SLJIT_MEM1(a),0);
   sv = stackvalue_Push(m, WVT_I32);
   sv->jit_type = SVT_GENERAL;
-  sv->val.op = SLJIT_MEM1(a);
+  sv->val.op = a;
   sv->val.opw = 0;
 }
 static void opgen_GenMemoryGrow(ModuleCompiler *m,uint32_t index) {
diff --git a/pwart/opgen_misc.c b/pwart/opgen_misc.c
index e7c4cb3..f11fc16 100644
--- a/pwart/opgen_misc.c
+++ b/pwart/opgen_misc.c
@@ -48,9 +48,10 @@ static void opgen_GenTableSize(ModuleCompiler *m,int tabidx){
   r = pwart_GetFreeReg(m, RT_INTEGER, 0);
   Table *tab=*dynarr_get(m->context->tables,Table *,tabidx);
   sljit_emit_op1(m->jitc,SLJIT_MOV,r,0,SLJIT_IMM,(sljit_sw)&tab->size);
+  sljit_emit_op1(m->jitc,SLJIT_MOV32,r,0,SLJIT_MEM1(r),0);
   sv = stackvalue_Push(m, WVT_I32);
   sv->jit_type = SVT_GENERAL;
-  sv->val.op = SLJIT_MEM1(r);
+  sv->val.op = r;
   sv->val.opw = 0;
 }
 
-- 
2.43.0


From 665917adb8eb60fd4583b49c4d1533b4c56732f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:49 +0000
Subject: [PATCH 24/25] fix: reserve the table base for functions that use
 table 0 only by table.copy or table.fill

---
 pwart/wagen.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pwart/wagen.c b/pwart/wagen.c
index d903c5e..fa08361 100644
--- a/pwart/wagen.c
+++ b/pwart/wagen.c
@@ -243,6 +243,16 @@ static char *pwart_PrepareFunc(ModuleCompiler *m) {
     case 0xd2: // ref.func
       fidx = read_LEB(bytes, &m->pc, 32);
       break;
+    case 0xfc: // misc op
+      val = bytes[m->pc];
+      if(val==0x0e || val==0x11){ // table.copy, table.fill
+        addr = m->pc + 1;
+        if(read_LEB(bytes, &addr, 32)==0)m->table_entries_local = -2;
+        if(val==0x0e && read_LEB(bytes, &addr, 32)==0)m->table_entries_local = -2;
+      }
+      m->pc--;
+      wasm_SkipImmediates(m->bytes, &m->pc);
+      break;
     case 0x20: //local.get
       arg=read_LEB(bytes, &m->pc, 32);
       sv=dynarr_get(m->locals,StackValue,arg);
-- 
2.43.0


From 8180aa3d31d53decec49f61ef046197e3787f1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:49 +0000
Subject: [PATCH 25/25] fix: i32 loads and stores with a memory offset of 2 GiB
 and more

---
 pwart/opgen_mem.c   | 2 +-
 pwart/opgen_utils.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pwart/opgen_mem.c b/pwart/opgen_mem.c
index 07876f7..106187c 100644
--- a/pwart/opgen_mem.c
+++ b/pwart/opgen_mem.c
@@ -154,7 +154,7 @@ static void opgen_GenMemoryGrow(ModuleCompiler *m,uint32_t index) {
                      (sljit_sw)&insn_memorygrow);
 }
 
-static void opgen_GenI32Load(ModuleCompiler *m, int32_t opcode, int offset) {
+static void opgen_GenI32Load(ModuleCompiler *m, int32_t opcode, sljit_sw offset) {
   StackValue *sv=m->stack+m->sp;
   int a=pwart_GetFreeReg(m,RT_INTEGER,1);
   switch (opcode) {
diff --git a/pwart/opgen_utils.c b/pwart/opgen_utils.c
index 46c5880..0a6ce1a 100644
--- a/pwart/opgen_utils.c
+++ b/pwart/opgen_utils.c
@@ -115,7 +115,7 @@ static StackValue *stackvalue_FindSvalueUseReg(ModuleCompiler *m, sljit_s32 r,
 }
 
 static char *pwart_EmitStoreStackValue(ModuleCompiler *m, StackValue *sv, int memreg,
-                                     int offset) {
+                                     sljit_sw offset) {
   if (sv->jit_type == SVT_GENERAL) {
     if(memreg==sv->val.op && offset==sv->val.opw)return 0;
     if (m->target_ptr_size == 64) {
-- 
2.43.0

