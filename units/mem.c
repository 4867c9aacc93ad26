/* Hoare triple for one load or store OPC.  MODE 0: memory 0, base cached in a register; 1: memory 1, not cached, index given;
 * 2: raw (native) memory with a 64-bit index; 3: memory 0, not cached; 4: memory 1 cached, index given. */
#define G_NH 6
#include "jit.h"
#include "ctx.h"
#ifndef NWIT
#define NWIT 1
#endif
#define STORE (OPC >= 0x36)
#define TV ((OPC == 0x28 || (OPC >= 0x2c && OPC <= 0x2f) || OPC == 0x36 || OPC == 0x3a || OPC == 0x3b) ? WVT_I32 : (OPC == 0x2a || OPC == 0x38) ? WVT_F32 : (OPC == 0x2b || OPC == 0x39) ? WVT_F64 : WVT_I64)
static const g_u8 WID = (OPC == 0x28 || OPC == 0x2a || OPC == 0x34 || OPC == 0x35 || OPC == 0x36 || OPC == 0x38 || OPC == 0x3e) ? 4 : (OPC == 0x29 || OPC == 0x2b || OPC == 0x37 || OPC == 0x39) ? 8 : (OPC == 0x2c || OPC == 0x2d || OPC == 0x30 || OPC == 0x31 || OPC == 0x3a || OPC == 0x3c) ? 1 : 2;
static g_u64 extend(g_u64 v) {
  switch (OPC) {
  case 0x2c: return (g_u32)(g_s32)(g_s8)v; case 0x2e: return (g_u32)(g_s32)(g_s16)v;
  case 0x30: return (g_u64)(g_s64)(g_s8)v; case 0x32: return (g_u64)(g_s64)(g_s16)v; case 0x34: return (g_u64)(g_s64)(g_s32)v;
  }
  return g_trunc(v, WID);
}
void h_main(void) {
  j_init(); c_init();
  ModuleCompiler *m = &GM;
  int MI = MODE == 1 || MODE == 4 ? 1 : 0;
  int sp = NWIT + STORE; m->sp = sp;
  for (int i = 0; i < NWIT; i++) j_entry(i, j_type(), K_ALL);
  j_entry(NWIT, MODE == 2 ? WVT_I64 : WVT_I32, K_ALL);
  if (STORE) j_entry(sp, TV, K_ALL);
  if (MODE == 2) C_mem[0].bytes = NULL; else c_memory(MI, MODE == 0 || MODE == 4);
  g_u64 i = g_den(&m->stack[NWIT]); g_u32 off = nondet_g_u32();
  g_u64 v = STORE ? g_den(&m->stack[sp]) : 0;
  g_u64 ea = MODE == 2 ? i : g_arith(0, GA_ADD, C_base[MI], i);
  if (off) ea = g_arith(0, GA_ADD, ea, off);
  /* the access is inside the memory, which is disjoint from the frames and from what pwart keeps itself */
  g_u64 old = c_cell(ea, WID);
  const int al = WID == 1 ? 0 : WID == 2 ? 1 : WID == 4 ? 2 : 3;      /* natural alignment */
  if (MI) { imm_val(al | 0x40); imm_val(1); } else imm_val(al);
  imm_val(off); imm_done();
  j_snapshot(NWIT);
  char *err = opgen_GenMemOp(m, OPC);
  __CPROVER_assert(err == NULL, "instruction is accepted");
  imm_check();
  j_check_stack(STORE ? NWIT - 1 : NWIT, 0);
#if STORE
  __CPROVER_assert(G.nh == J.nh + 1, "exactly one store outside the frame");
  __CPROVER_assume(G.nh == J.nh + 1);
  g_hcell *h = &G.H[J.nh];
  __CPROVER_assert(h->on && h->kind == 0 && h->a == ea, "the store is at the effective address");
  __CPROVER_assert(h->n == WID, "the store has the width of the instruction");
  __CPROVER_assert(g_trunc(h->v, WID) == g_trunc(v, WID), "the stored value is the operand");
  J.nh++;
#else
  __CPROVER_assert(m->stack[NWIT].wasm_type == TV, "result type");
  g_u64 r = g_den(&m->stack[NWIT]);
  __CPROVER_assert(r == extend(old), "the result is the extended value at the effective address");
#endif
  j_check_wit(); j_check_locals(); j_check_mem();
  __CPROVER_assert(0, "cover: end of the triple");
}
