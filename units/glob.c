/* Hoare triple for global.get / global.set (OPC 0x23, 0x24): the global is the cell at the address in its descriptor. */
#define G_NH 6
#include "jit.h"
#include "ctx.h"
#ifndef NWIT
#define NWIT 1
#endif
#define IDX 200
static DARR(StackValue, IDX + 1) L_globals;
void h_main(void) {
  j_init(); c_init();
  ModuleCompiler *m = &GM;
  L_globals.len = L_globals.cap = IDX + 1; L_globals.elem = sizeof(StackValue);
  m->globals = (struct dynarr *)&L_globals;
  int wt = TY == 1 ? WVT_I32 : TY == 2 ? WVT_I64 : TY == 3 ? WVT_F32 : TY == 4 ? WVT_F64 : nondet_bool() ? WVT_REF : WVT_FUNC;
  StackValue *g = &L_globals.v[IDX]; g_u64 a = nondet_g_u64(); g_u8 n = g_size(wt);
  g->wasm_type = wt; g->jit_type = SVT_GENERAL; g->val.op = SLJIT_MEM0(); g->val.opw = a;
  int sp = OPC == 0x23 ? NWIT - 1 : NWIT; m->sp = sp;
  for (int i = 0; i <= sp; i++) j_entry(i, OPC != 0x23 && i == sp ? wt : j_type(), K_ALL);
  g_u64 old = c_cell(a, n), v = OPC == 0x23 ? old : g_den(&m->stack[sp]);
  imm_val(IDX); imm_done();
  j_snapshot(NWIT);
  char *err = opgen_GenMemOp(m, OPC);
  __CPROVER_assert(err == NULL, "instruction is accepted");
  imm_check();
  j_check_stack(OPC == 0x23 ? sp + 1 : sp - 1, 0);
#if OPC == 0x23
  __CPROVER_assert(m->stack[sp + 1].wasm_type == wt, "result type");
  __CPROVER_assert(g_den(&m->stack[sp + 1]) == old, "the pushed value is the value of the global");
  /* it stays so when the global is written afterwards */
  __CPROVER_assert(g_scratch(&m->stack[sp + 1]) != 0 && !(m->stack[sp + 1].val.op & SLJIT_MEM), "the value of the global is loaded, not referred to");
#else
  __CPROVER_assert(G.nh == J.nh + 1, "exactly one store outside the frame");
  __CPROVER_assume(G.nh == J.nh + 1);
  g_hcell *h = &G.H[J.nh];
  __CPROVER_assert(h->on && h->kind == 0 && h->a == a, "the store is to the global");
  __CPROVER_assert(h->n == n, "the store has the width of the global");
  __CPROVER_assert(g_trunc(h->v, n) == v, "the stored value is the operand");
  J.nh++;
#endif
  j_check_wit(); j_check_locals(); j_check_mem();
  __CPROVER_assert(0, "cover: end of the triple");
}
