/* select, select t, drop, nop, unreachable (OPC 0x1b, 0x1c, 0x1a, 0x01, 0x00) */
#define G_NH 6
#include "blk.h"
#ifndef CMPTOP
#define CMPTOP 0
#endif
void h_main(void) {
  j_init(); c_init(); blk_init();
  ModuleCompiler *m = &GM;
  const int SEL = OPC == 0x1b || OPC == 0x1c;
  int t = j_type();
  if (OPC == 0x1b) __CPROVER_assume(t != WVT_REF && t != WVT_FUNC);
  int sp = SEL ? 3 : 1; m->sp = sp;
  j_entry(0, j_type(), SEL ? K_REG | K_SLOT | K_PARAM | K_IND : K_ALL);
  j_entry(1, SEL ? t : j_type(), K_ALL);
  if (SEL) { j_entry(2, t, K_ALL); j_entry(3, WVT_I32, CMPTOP ? K_IMM : K_ALL); if (CMPTOP) j_cmp(3); }
  g_u64 a = g_den(&m->stack[1]), b = SEL ? g_den(&m->stack[2]) : 0; g_u32 c = SEL ? g_den(&m->stack[3]) : 0;
  if (OPC == 0x1c) { imm_val(1); imm_val(t); }
  imm_done();
  j_snapshot(SEL || OPC == 0x1a ? 1 : 2);
  char *err = opgen_GenCtlOp(m, OPC);
  __CPROVER_assert(err == NULL, "instruction is accepted");
  imm_check();
#if OPC == 0x00
  __CPROVER_assert(G.skip == G_TRAP && m->block_returned, "unreachable traps");
#else
  j_check_stack(OPC == 0x1a ? 0 : 1, 0);
  if (SEL) {
    __CPROVER_assert(m->stack[1].wasm_type == t, "result type");
    __CPROVER_assert(g_den(&m->stack[1]) == (c ? a : b), "select takes the first operand if the condition is not zero, else the second");
  }
  j_check_wit();
#endif
  j_check_locals(); j_check_mem();
  __CPROVER_assert(0, "cover: end of the triple");
}
