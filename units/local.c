/* Hoare triple for local.get / local.set / local.tee (OPC 0x20..0x22) on local 130 of type TY in place LK (0 register, 1 parameter slot,
 * 2 native frame): the local and every other place a local or parameter can live, and operands that alias them. */
#define G_NH 6
#include "jit.h"
#include "ctx.h"
#ifndef NWIT
#define NWIT 1
#endif
#define IDX 130
static DARR(StackValue, IDX + 1) L_locals;
void h_main(void) {
  j_init(); c_init();
  ModuleCompiler *m = &GM;
  L_locals.len = L_locals.cap = IDX + 1; L_locals.elem = sizeof(StackValue);
  m->locals = (struct dynarr *)&L_locals;
  int sp = OPC == 0x20 ? NWIT - 1 : NWIT; m->sp = sp;
  /* the local: a saved register, a parameter slot or a slot of the native frame */
  StackValue *x = &L_locals.v[IDX];
  int wt = TY == 1 ? WVT_I32 : TY == 2 ? WVT_I64 : TY == 3 ? WVT_F32 : TY == 4 ? WVT_F64 : nondet_bool() ? WVT_REF : WVT_FUNC;
  g_u8 n = g_size(wt); const g_u8 k = LK; g_u16 w = nondet_g_u32() & 0x3ffc; int r = 8 + (nondet_g_u32() & 7);
  __CPROVER_assume(r <= 12);
  if (g_isf(wt)) __CPROVER_assume(k != 0);
  x->wasm_type = wt; x->jit_type = SVT_GENERAL;
  x->val.op = k == 0 ? r : k == 1 ? SLJIT_MEM1(SLJIT_S0) : SLJIT_MEM1(SLJIT_SP); x->val.opw = k == 0 ? 0 : w;
  if (k == 1) __CPROVER_assume(w + n <= m->first_stackvalue_offset);
  if (k == 2) __CPROVER_assume(w + n <= g_locsz);
  g_logf(k != 0, 0, k == 2, w, n, nondet_g_u64());
  for (int i = 0; i <= sp; i++) j_entry(i, OPC != 0x20 && i == sp ? wt : j_type(), OPC != 0x20 && i == 1 && i < sp ? K_SAVED | K_PARAM | K_LOCAL : K_ALL);
  g_u64 x0 = g_den(x), v = OPC == 0x20 ? x0 : g_den(&m->stack[sp]);
  StackValue d = *x;
  __CPROVER_assume(g_wfz(x));
  imm_val(IDX); imm_done();
  j_snapshot(OPC == 0x20 ? NWIT : NWIT);
  if (OPC != 0x20) __CPROVER_assume(k != 0 || J.lr != r);
  char *err = opgen_GenMemOp(m, OPC);
  __CPROVER_assert(err == NULL, "instruction is accepted");
  imm_check();
  j_check_stack(OPC == 0x21 ? sp - 1 : OPC == 0x22 ? sp : sp + 1, 0);
  __CPROVER_assert(x->wasm_type == d.wasm_type && x->jit_type == d.jit_type && x->val.op == d.val.op && x->val.opw == d.val.opw, "the place of the local does not change");
  __CPROVER_assert(g_wfz(x), "an i32 local in a register that is zero has no other bits");
  __CPROVER_assert(g_den(x) == v, "the local has its value");
#if OPC != 0x21
  int top = OPC == 0x22 ? sp : sp + 1;
  __CPROVER_assert(m->stack[top].wasm_type == wt, "result type");
  __CPROVER_assert(g_den(&m->stack[top]) == v, "the pushed value is the value of the local");
#endif
  j_check_wit(); j_check_locals();
  /* nothing but operand slots and the local itself is written */
  for (unsigned i = 0; i < G_NW; i++)
    if (i >= J.nw && i < G.nw && G.W[i].on)
      __CPROVER_assert((!G.W[i].sp && G.W[i].a >= m->first_stackvalue_offset) || (OPC != 0x20 && k != 0 && G.W[i].sp == (k == 2) && G.W[i].a == w && G.W[i].n == n), "other parameters and memory locals unchanged");
  __CPROVER_assert(G.nh == J.nh, "memory outside the frame unchanged");
  __CPROVER_assert(0, "cover: end of the triple");
}
