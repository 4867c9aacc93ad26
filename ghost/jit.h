/* Common part of the operation-level harnesses: one wasm instruction is generated by the real code
 * generator from an arbitrary well-formed compile-time operand stack, and the generated instructions are
 * given their meaning by ghost.h. */
#ifndef JIT_H
#define JIT_H
#include "pwart.c"
#include "ghost.h"
#include "wf.h"
#include "real.h"


/* the contract of the register allocator (proved for the real one in units/reg.c): some unreserved
 * scratch register of the class; every stack entry up to sp-upstack that uses it is stored to its own slot */
sljit_s32 g_GetFreeReg(ModuleCompiler *m, sljit_s32 regtype, int upstack) {
  _Bool fl = regtype == RT_FLOAT;
  sljit_s32 r = nondet_int();
  __CPROVER_assume(fl ? r >= 1 && r <= 15 : r >= 1 && r <= 7);
  __CPROVER_assume(!((fl ? m->float_registers_status[r - 1] : m->registers_status[r - 1]) & RS_RESERVED));
  _Bool on = 0; g_u16 fa = 0; g_u8 n = 8; g_u64 v = 0;
  for (int i = 0; i <= m->sp - upstack; i++) {
    StackValue *sv = &m->stack[i];
    if (g_scratch(sv) == (fl ? 32 + r : r)) {
      on = 1; fa = sv->frame_offset; n = g_size(sv->wasm_type);
      v = fl ? G.F[r] : sv->val.op & SLJIT_MEM ? g_readh(G.R[r], n) : G.R[r];
      sv->val.op = SLJIT_MEM1(SLJIT_S0); sv->val.opw = fa;
    }
  }
  g_logf(on && !G.skip, 0, 0, fa, n, v);
  return r;
}
/* Two functions of the code generator keep their text (copied mechanically, with the prefix real_) but are
 * entered through a wrapper that splits cases on the stack entry meant and keeps the ghost log short. */
#ifndef J_ABOVE
#define J_ABOVE 0      /* entries above the stack pointer that may be saved */
#endif
#ifdef HAVE_pwart_EmitSaveStack
char *g_EmitSaveStack(ModuleCompiler *m, StackValue *sv) {
  unsigned n = G.nw + 1;
  for (int i = 0; i <= m->sp; i++) if (sv == &m->stack[i]) { char *r = real_pwart_EmitSaveStack(m, &m->stack[i]); g_pad(n); return r; }
  for (int i = 1; i <= J_ABOVE; i++) if (sv == &m->stack[m->sp + i]) { char *r = real_pwart_EmitSaveStack(m, &m->stack[m->sp + i]); g_pad(n); return r; }
  __CPROVER_assert(0, "harness: a spilled value is an entry of the operand stack");
  __CPROVER_assume(0);
  return NULL;
}
#endif
#ifdef HAVE_stackvalue_AnyRegUsedBySvalue
int g_AnyRegUsedBySvalue(StackValue *sv) {
  for (int i = 0; i < OPERAND_STACK_COUNT; i++) if (sv == &GM.stack[i]) return real_stackvalue_AnyRegUsedBySvalue(&GM.stack[i]);
  __CPROVER_assert(0, "harness: a spilled value is an entry of the operand stack");
  __CPROVER_assume(0);
  return 0;
}
#endif
#ifdef HAVE_pwart_EmitSaveScratchRegisterAll
char *g_EmitSaveScratchRegisterAll(ModuleCompiler *m, int upstack) {
  unsigned n = G.nw + m->sp + 1;
  char *r = real_pwart_EmitSaveScratchRegisterAll(m, upstack);
  g_pad(n);
  return r;
}
#endif
static void j_init(void) {
  struct ghost g0; G = g0;
  ModuleCompiler m0; GM = m0;
  ModuleCompiler *m = &GM;
  G.skip = 0; G.nw = 0; G.nh = 0; G.njump = 0; G.helper = 0; G.nlabel = 0; G.nemit = 0; G.ncall = 0; G.zvalid = 0; G.vtype = -1; G.label_at = -1;
  g_locsz = nondet_g_u32(); g_locsz &= 0x3ff8;
  m->target_ptr_size = 64;
  for (int i = 0; i < 7; i++) m->registers_status[i] = 0;
  for (int i = 0; i < 15; i++) m->float_registers_status[i] = 0;
  m->first_stackvalue_offset = nondet_g_u32() & 0x1ffc;
  m->pc = 0; m->jitc = 0;
  m->mem_base_local = -1; m->table_entries_local = -1; m->block_returned = 0; m->eof = 0;
  pwart_gcfg.misc_flags = PWART_MISC_FLAGS_EXTEND_INDEX;
  pwart_gcfg.stack_flags = nondet_bool() ? PWART_STACK_FLAGS_AUTO_ALIGN : 0;
  G.R[13] = G_S0V; G.R[14] = G_SPV;
}
/* entry i: an arbitrary well-formed operand of type wt; its memory cell is created */
#define K_IMM 1
#define K_REG 2
#define K_SAVED 4
#define K_SLOT 8
#define K_PARAM 16
#define K_LOCAL 32
#define K_IND 64
#define K_ALL 127
/* slots are laid out by the same rule as parameters: packed, or naturally aligned if so configured */
static g_u32 j_slot(g_u32 off, int wt) {
  return (pwart_gcfg.stack_flags & PWART_STACK_FLAGS_AUTO_ALIGN) && g_size(wt) == 8 ? (off + 7) & ~7u : off;
}
static void j_entry(int i, int wt, int kinds) {
  ModuleCompiler *m = &GM;
  StackValue *sv = &m->stack[i];
  sv->wasm_type = wt; sv->jit_type = SVT_GENERAL;
  _Bool fl = g_isf(wt);
  g_u8 n = g_size(wt);
  sv->frame_offset = j_slot(i == 0 ? m->first_stackvalue_offset + (nondet_g_u32() & 0x1fc) : m->stack[i-1].frame_offset + g_size(m->stack[i-1].wasm_type), wt);
  int k = (kinds & (kinds - 1)) ? nondet_int() & kinds : kinds, r = nondet_g_u32() & 15; g_u16 w = nondet_g_u32() & 0x3ffc;
  __CPROVER_assume(k && !(k & (k - 1)));
  if (fl) __CPROVER_assume(k != K_IMM && k != K_SAVED && k != K_IND && r >= 1);
  else if (k == K_SAVED) __CPROVER_assume(r >= 8 && r <= 12);
  else __CPROVER_assume(r >= 1 && r <= 7);
  if (wt != WVT_FUNC) __CPROVER_assume(k != K_IND);
  sljit_s32 op; sljit_sw opw; _Bool sp = k == K_LOCAL; g_u16 fa = k == K_SLOT ? sv->frame_offset : w;
  switch (k) {
  case K_IMM: op = SLJIT_IMM; opw = nondet_g_u64(); break;
  case K_REG: case K_SAVED: op = r; opw = 0; break;
  case K_SLOT: op = SLJIT_MEM1(SLJIT_S0); opw = sv->frame_offset; break;
  case K_PARAM: op = SLJIT_MEM1(SLJIT_S0); opw = w; __CPROVER_assume(w + n <= m->first_stackvalue_offset); break;
  case K_LOCAL: op = SLJIT_MEM1(SLJIT_SP); opw = w; __CPROVER_assume(w + n <= g_locsz); break;
  default: op = SLJIT_MEM | r; opw = 0; break;
  }
  sv->val.op = op; sv->val.opw = opw;
  __CPROVER_assume(g_wfz(sv));
  /* operands read from memory are the same variable, or disjoint; the newest cell decides the common value */
  if (kinds & (K_SLOT | K_PARAM | K_LOCAL)) {
    _Bool fr = (k & (K_SLOT | K_PARAM | K_LOCAL)) != 0;
    for (unsigned c = 0; c < G_NW && c < G.nw; c++)
      if (fr && G.W[c].on && G.W[c].sp == sp) __CPROVER_assume((G.W[c].a == fa && G.W[c].n == n) || G.W[c].a + G.W[c].n <= fa || fa + n <= G.W[c].a);
    g_logf(fr, 0, sp, fa, n, nondet_g_u64());
  }
  if ((kinds & K_IND) && wt == WVT_FUNC) {
    _Bool in = k == K_IND;
    if (in) __CPROVER_assume(g_outside_frames(G.R[r]));
    for (unsigned c = 0; c < G_NH && c < G.nh; c++)
      if (in && G.H[c].on) __CPROVER_assume((G.H[c].a == G.R[r] && G.H[c].n == n) || G.H[c].a - G.R[r] >= 8 && G.R[r] - G.H[c].a >= 8);
    g_logh(in, 2, G.R[r], n, nondet_g_u64());
  }
  for (int j = 0; j < i; j++)
    __CPROVER_assume(g_scratch(sv) == 0 || g_scratch(sv) != g_scratch(&m->stack[j]));
}
static int j_type(void) {
  g_u8 t = nondet_g_u8() & 7;
  return t == 0 ? WVT_I32 : t == 1 ? WVT_I64 : t == 2 ? WVT_F32 : t == 3 ? WVT_F64 : t == 4 ? WVT_REF : WVT_FUNC;
}
/* the entry is a pending comparison */
static void j_cmp(int i) {
  StackValue *sv = &GM.stack[i];
  {
    g_u8 f = nondet_g_u8();
    __CPROVER_assume(f == SLJIT_EQUAL || f == SLJIT_NOT_EQUAL || (f >= SLJIT_LESS && f <= SLJIT_SIG_LESS_EQUAL) || (f >= SLJIT_F_EQUAL && f <= SLJIT_UNORDERED_OR_GREATER));
    sv->jit_type = SVT_CMP; sv->val.cmp.flag = f;
    G.zvalid = 1; G.zflag = nondet_bool();
    if (f > SLJIT_NOT_EQUAL) { G.vtype = f & ~1; G.vflag = nondet_bool(); }
  }
}
/* what an instruction must leave alone */
static struct { int n; int wt[2]; g_u64 den[2]; int lr; g_u64 lv; unsigned nw, nh; } J;
static void j_snapshot(int nwit) {
  ModuleCompiler *m = &GM;
  J.n = nwit; J.nw = G.nw; J.nh = G.nh;
  for (int i = 0; i < nwit; i++) { J.wt[i] = m->stack[i].wasm_type; J.den[i] = g_den(&m->stack[i]); }
  J.lr = 8 + nondet_g_u32() % 7; __CPROVER_assume(J.lr >= 8 && J.lr <= 14); J.lv = G.R[J.lr];
}
static void j_check_stack(int sp, _Bool topcmp) {
  ModuleCompiler *m = &GM;
  __CPROVER_assert(G.skip == 0, "control falls through to the next instruction");
  __CPROVER_assert(m->sp == sp, "operand stack height after the instruction");
  __CPROVER_assume(m->sp == sp);
  for (int i = 0; i <= sp; i++) {
    __CPROVER_assert(g_wf1(m, i, topcmp && i == sp), "operand stack entry stays well formed");
    __CPROVER_assert(g_wfz(&m->stack[i]), "an i32 operand in a register that is zero has no other bits");
    if (i > 0) __CPROVER_assert(m->stack[i].frame_offset == j_slot(m->stack[i-1].frame_offset + g_size(m->stack[i-1].wasm_type), m->stack[i].wasm_type), "operand slots are laid out like parameters");
    for (int j = 0; j < i; j++)
      __CPROVER_assert(g_scratch(&m->stack[i]) == 0 || g_scratch(&m->stack[i]) != g_scratch(&m->stack[j]), "no scratch register holds two operands");
  }
}
static void j_check_wit(void) {
  ModuleCompiler *m = &GM;
  for (int i = 0; i < J.n; i++) {
    __CPROVER_assert(m->stack[i].wasm_type == J.wt[i], "deeper operand keeps its type");
    __CPROVER_assert(g_den(&m->stack[i]) == J.den[i], "deeper operand keeps its value");
  }
}
static void j_check_locals(void) {
  __CPROVER_assert(G.R[J.lr] == J.lv, "locals in registers, frame pointer and stack pointer unchanged");
}
/* every store is into the operand area of the frame: parameters, memory locals and all other memory are unchanged */
static void j_check_mem(void) {
  for (unsigned i = 0; i < G_NW; i++)
    if (i >= J.nw && i < G.nw && G.W[i].on)
      __CPROVER_assert(G.W[i].kind == 1 || (!G.W[i].sp && G.W[i].a >= GM.first_stackvalue_offset), "parameters and memory locals unchanged");
  __CPROVER_assert(G.nh == J.nh, "memory outside the frame unchanged");
}
#endif
