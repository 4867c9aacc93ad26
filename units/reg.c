/* The register allocator and the bulk spills, real code, on operand stacks of every depth.  FN 0: pwart_GetFreeReg, 1: pwart_EmitSaveStackAll,
 * 2: pwart_EmitSaveScratchRegisterAll: these are verified against the contract of pwart_EmitSaveStack (the entry given goes to its
 * own slot, keeping its value; nothing else changes), which FN 3 proves for the real one.  Entry k is an arbitrary one of the stack. */
#include "jit.h"
#ifndef DEPTH
#define DEPTH OPERAND_STACK_COUNT
#endif
char *g_SaveStackC(ModuleCompiler *m, StackValue *sv) {
  for (int i = 0; i < DEPTH; i++) if (sv == &m->stack[i]) {
    __CPROVER_assert(i <= m->sp, "a spilled value is an entry of the operand stack");
    m->stack[i].val.op = SLJIT_MEM1(SLJIT_S0); m->stack[i].val.opw = m->stack[i].frame_offset; m->stack[i].jit_type = SVT_GENERAL;
    return NULL;
  }
  __CPROVER_assert(0, "a spilled value is an entry of the operand stack");
  return NULL;
}
#if FN == 3
void h_main(void) {
  j_init();
  ModuleCompiler *m = &GM;
  m->sp = 1;
  j_entry(0, j_type(), K_ALL); j_entry(1, j_type(), K_ALL);
  if (nondet_bool()) { __CPROVER_assume(m->stack[1].wasm_type == WVT_I32); j_cmp(1); }
  j_snapshot(2);
  int k = nondet_bool() ? 0 : 1, o = 1 - k;
  StackValue O = m->stack[o], K = m->stack[k];
  if (k == 0) pwart_EmitSaveStack(m, &m->stack[0]); else pwart_EmitSaveStack(m, &m->stack[1]);
  __CPROVER_assert(m->stack[k].jit_type == SVT_GENERAL && m->stack[k].val.op == SLJIT_MEM1(SLJIT_S0) && m->stack[k].val.opw == K.frame_offset && m->stack[k].frame_offset == K.frame_offset, "the operand is saved to its slot");
  __CPROVER_assert(m->stack[o].jit_type == O.jit_type && m->stack[o].val.op == O.val.op && m->stack[o].val.opw == O.val.opw && m->stack[o].frame_offset == O.frame_offset, "other operands stay where they are");
  __CPROVER_assert(m->sp == 1, "operand stack height");
  j_check_wit(); j_check_locals(); j_check_mem();
  __CPROVER_assert(0, "cover: end of the triple");
}
#else
static void e_any(int i) {
  ModuleCompiler *m = &GM; StackValue *sv = &m->stack[i];
  g_u8 c = nondet_g_u8(); g_u8 t = c & 7, k = c >> 3 & 7, r = nondet_g_u8() & 15;
  sv->wasm_type = t == 0 ? WVT_I32 : t == 1 ? WVT_I64 : t == 2 ? WVT_F32 : t == 3 ? WVT_F64 : t == 4 ? WVT_REF : WVT_FUNC;
  _Bool fl = t == 2 || t == 3;
  sv->jit_type = SVT_GENERAL; sv->frame_offset = 4096 + 8 * i; sv->val.opw = 0;
  if (k == 0) { sv->val.op = SLJIT_IMM; __CPROVER_assume(!fl); sv->val.opw = nondet_g_u8(); }
  else if (k == 1) { sv->val.op = r; __CPROVER_assume(r >= 1 && r <= (fl ? 15 : 12)); }
  else if (k == 2) { sv->val.op = SLJIT_MEM1(SLJIT_S0); sv->val.opw = sv->frame_offset; }
  else if (k == 3) { sv->val.op = SLJIT_MEM1(SLJIT_S0); sv->val.opw = r; }
  else if (k == 4) { sv->val.op = SLJIT_MEM1(SLJIT_SP); sv->val.opw = r; }
  else { sv->val.op = SLJIT_MEM | r; __CPROVER_assume(k == 5 && t == 5 && r >= 1 && r <= 7); }
}
void h_main(void) {
  ModuleCompiler m0; GM = m0;
  ModuleCompiler *m = &GM;
  m->target_ptr_size = 64; m->first_stackvalue_offset = 4096;
  g_u8 owner[64];
  int sp = (int)(nondet_g_u8() & 31) - 1; __CPROVER_assume(sp <= DEPTH - 2); m->sp = sp;
  for (int i = 0; i < DEPTH - 1; i++) { e_any(i); int s = g_scratch(&m->stack[i]); __CPROVER_assume(s == 0 || owner[s] == i); }
  if (FN != 0 && sp >= 0 && nondet_bool()) { m->stack[sp].wasm_type = WVT_I32; m->stack[sp].jit_type = SVT_CMP; m->stack[sp].val.cmp.flag = nondet_g_u8() & 31; }
  for (int i = 0; i < 7; i++) m->registers_status[i] = nondet_bool() ? RS_RESERVED : 0;
  for (int i = 0; i < 15; i++) m->float_registers_status[i] = nondet_bool() ? RS_RESERVED : 0;
  static StackValue B[DEPTH]; for (int i = 0; i < DEPTH; i++) B[i] = m->stack[i];
#define EACH for (int k = 0; k < DEPTH - 1; k++)
#define K B[k]
#if FN == 0
  int up = nondet_g_u8() & 3; __CPROVER_assume(sp - up >= -1);
  const int rt = RTC; const _Bool fl = rt == RT_FLOAT;
  _Bool some = 0; for (int i = 0; i < (fl ? 15 : 7); i++) some |= !(fl ? m->float_registers_status[i] : m->registers_status[i]);
  __CPROVER_assume(some);
  sljit_s32 r = pwart_GetFreeReg(m, rt, up);
  __CPROVER_assert(r >= 1 && r <= (fl ? 15 : 7), "an allocated register is a scratch register of the class");
  __CPROVER_assume(r >= 1 && r <= (fl ? 15 : 7));
  __CPROVER_assert(!((fl ? m->float_registers_status[r-1] : m->registers_status[r-1]) & RS_RESERVED), "an allocated register is not reserved");
#define kused (g_scratch(&K) == (fl ? 32 + r : r))
#define kin (k <= sp - up)
  EACH {
  __CPROVER_assert(!kin || g_scratch(&m->stack[k]) != (fl ? 32 + r : r), "no operand considered is in an allocated register");
  if (!(kin && kused)) __CPROVER_assert(m->stack[k].jit_type == K.jit_type && m->stack[k].val.op == K.val.op && m->stack[k].val.opw == K.val.opw, "other operands stay where they are");
  }
#elif FN == 1
  pwart_EmitSaveStackAll(m);
  EACH if (k <= sp) __CPROVER_assert(m->stack[k].jit_type == SVT_GENERAL && m->stack[k].val.op == SLJIT_MEM1(SLJIT_S0) && m->stack[k].val.opw == K.frame_offset, "every operand is saved to its slot");
#else
  int up = nondet_g_u8() & 3;
  pwart_EmitSaveScratchRegisterAll(m, up);
  EACH if (k <= sp - up) __CPROVER_assert(g_scratch(&m->stack[k]) == 0, "no operand is left in a scratch register");
#endif
  __CPROVER_assert(m->sp == sp, "operand stack height");
  EACH __CPROVER_assert( m->stack[k].wasm_type == K.wasm_type && m->stack[k].frame_offset == K.frame_offset, "the operand keeps its type and slot");
  EACH __CPROVER_assert((m->stack[k].val.op == K.val.op && m->stack[k].val.opw == K.val.opw && m->stack[k].jit_type == K.jit_type) || (m->stack[k].val.op == SLJIT_MEM1(SLJIT_S0) && m->stack[k].val.opw == K.frame_offset && m->stack[k].jit_type == SVT_GENERAL && k <= sp), "an operand stays where it is or is saved to its slot");
  __CPROVER_assert(0, "cover: end of the triple");
}
#endif
