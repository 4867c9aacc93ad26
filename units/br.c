/* Branches: OPC 0x0c br, 0x0d br_if, 0x0e br_table, 0x0f return, to a target TGT: 0 the function body, 2 block, 3 loop, 4 if.
 * RT: 1 if the target has a result.  The operand stack is [witness in its slot | junk | result | condition]. */
#define G_NH 6
#include "blk.h"
#ifndef NRES
#define NRES RT
#endif
#ifndef CMPTOP
#define CMPTOP 0
#endif
static Type L_ftype; static uint8_t L_params[1], L_res[4];
void h_main(void) {
  j_init(); c_init(); blk_init();
  ModuleCompiler *m = &GM;
  int rt[3]; for (int i = 0; i < 3; i++) rt[i] = j_type();
  int nr = TGT == 0 ? NRES : RT;
  L_ftype.params = L_params; L_ftype.results = L_res; m->function_type = &L_ftype;
  for (int i = 0; i < 4; i++) L_res[i] = i < nr ? rt[i] : 0;
  g_str[0] = L_res; g_strn[0] = nr; g_str[1] = L_params; g_strn[1] = 0;
  const int COND = OPC == 0x0d || OPC == 0x0e, TAKES = TGT != 3 && RT;   /* a branch to a loop takes no operand */
  int nv = TGT == 3 ? 0 : nr, sp = 1 + nv + COND; m->sp = sp;
  j_entry(0, j_type(), TGT == 0 ? K_REG : K_SLOT);
  j_entry(1, nondet_bool() ? WVT_I32 : WVT_I64, K_IMM);
  for (int i = 0; i < nv; i++) j_entry(2 + i, rt[i], K_ALL);
  if (COND) { j_entry(sp, WVT_I32, CMPTOP ? K_IMM : K_ALL); }
  blk_open(0, 0, -1);
  Block *b = TGT == 0 ? &C_blocks.v[0] : blk_open(TGT, RT ? rt[0] : 0, 0);
  if (OPC != 0x0f) blk_open(2, 0, 1);          /* an inner block that is jumped out of */
  if (COND && CMPTOP) j_cmp(sp);
  g_u64 v[3]; for (int i = 0; i < nv; i++) v[i] = g_den(&m->stack[2 + i]);
  g_u32 c = COND ? g_den(&m->stack[sp]) : 0, off[3], o = 0;
  if (TGT == 0) for (int i = 0; i < nv; i++) { off[i] = j_slot(o, rt[i]); o = off[i] + g_size(rt[i]); }
  else if (nv) off[0] = blk_slot(0, rt[0]);
  g_u64 w0 = g_den(&m->stack[0]); g_u16 wo = m->stack[0].frame_offset; int wt = m->stack[0].wasm_type;
  if (OPC == 0x0c || OPC == 0x0d) imm_val(1);
  imm_done();
  j_snapshot(2);
  char *err = opgen_GenCtlOp(m, OPC);
  __CPROVER_assert(err == NULL, "instruction is accepted");
  imm_check();
  _Bool taken = OPC == 0x0d ? c != 0 : 1;
  if (taken) {
    __CPROVER_assert(blk_leaves_to(b), "control goes to the target of the branch");
    for (int i = 0; i < nv; i++) __CPROVER_assert(g_readf(0, off[i], g_size(rt[i])) == v[i], "the result is where the target expects it");
    if (TGT != 0) {
      __CPROVER_assert(g_readf(0, wo, g_size(wt)) == w0, "operands below the block keep their values in their slots");
    }
    j_check_locals();
  } else {
    j_check_stack(sp - 1, 0);
    j_check_wit(); j_check_locals(); 
    for (int i = 0; i < nv; i++) __CPROVER_assert(g_den(&m->stack[2 + i]) == v[i], "operands of a branch that is not taken keep their values");
  }
  __CPROVER_assert(m->block_returned == (OPC != 0x0d), "code behind an unconditional branch is unreachable");
  if (OPC == 0x0d && TGT != 0) __CPROVER_assert(blk_in_slot(0), "operands below an open block stay in their slots");
  /* stores: operand slots, or (return) results at the bottom of the frame */
  if (TGT != 0) j_check_mem();
  __CPROVER_assert(G.nh == J.nh, "memory outside the frame unchanged");
  __CPROVER_assert(0, "cover: end of the triple");
}
