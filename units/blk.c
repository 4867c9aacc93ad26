/* Block entry and end.  OPC 0x02 block, 0x03 loop, 0x04 if, 0x05 else, 0x0b end.  RT: 1 if the block has a result. For else and
 * end, BT is the type of the innermost block; control arrives by falling through, through a branch to its end, or by else_jump. */
#define G_NH 6
#include "blk.h"
#ifndef CMPTOP
#define CMPTOP 0
#endif
#ifndef DEAD
#define DEAD 0          /* the end of the block is not reached by falling through */
#endif
static Type L_ftype; static uint8_t L_params[1], L_res[4];
void h_main(void) {
  j_init(); c_init(); blk_init();
  ModuleCompiler *m = &GM;
  int rt = j_type(); g_u64 v = 0;
  L_ftype.params = L_params; L_ftype.results = L_res; m->function_type = &L_ftype;
  blk_open(0, 0, -1);
#if OPC == 0x02 || OPC == 0x03 || OPC == 0x04
  int sp = 1 + (OPC == 0x04); m->sp = sp;
  j_entry(0, j_type(), K_ALL); j_entry(1, j_type(), K_ALL);
  if (OPC == 0x04) { j_entry(2, WVT_I32, CMPTOP ? K_IMM : K_ALL); if (CMPTOP) j_cmp(2); }
  g_u32 c = OPC == 0x04 ? g_den(&m->stack[2]) : 1;
  imm_raw(RT ? rt : 0x40); imm_done();
  j_snapshot(2);
  int nl = G.nlabel;
  char *err = opgen_GenCtlOp(m, OPC);
  __CPROVER_assert(err == NULL, "instruction is accepted");
  imm_check();
  __CPROVER_assert(m->blocks->len == 2, "a block is opened");
  Block *b = &C_blocks.v[1];
  __CPROVER_assert(b->block_type == OPC && b->stack_offset == RT && b->result_type == (RT ? rt : 0) && b->saved_sp == 1, "the block is described");
  if (OPC == 0x03) __CPROVER_assert(b->br_label == G_LABEL(nl + 1) && G.lastlabel == nl + 1 && G.label_at == G.nemit, "the loop head label is at the head");
  else __CPROVER_assert(b->br_jump != NULL && b->br_jump->len == 0 && b->br_jump->elemSize == sizeof(void *) && (OPC == 0x04) == (b->else_jump != NULL), "no branch to the block yet");
  __CPROVER_assert(OPC != 0x04 || (c ? G.skip == 0 : G.skip > 0 && b->else_jump == G_JUMP(G.skip)), "control enters the block, or goes to the else part if the condition is zero");
  __CPROVER_assert(m->block_returned == 0, "the block is reachable");
  G.skip = 0;      /* both ways: the state the continuation sees */
  j_check_stack(1, 0); j_check_wit(); j_check_locals(); j_check_mem();
  for (int i = 0; i < 2; i++) __CPROVER_assert(blk_in_slot(i), "operands below an open block are in their slots");
#else
  /* at the end of the block: [0 in slot | result] (or, if DEAD, anything) */
  int sp = RT && !DEAD ? 1 : 0; m->sp = sp;
  j_entry(0, j_type(), K_SLOT);
  Block *b = blk_open(BT, RT ? rt : 0, 0);
  g_u32 off = blk_slot(0, rt);
  int way = 0;          /* 0 falling through, 1 branch to the end, 2 else_jump */
  if (BT == 2 || BT == 4) {
    way = nondet_g_u8() % 3;
    struct sljit_jump *j1 = sljit_emit_jump(NULL, SLJIT_JUMP); C_jumps[1].v[0] = j1; C_jumps[1].len = 1;
    int id1 = G.skip; G.skip = 0;
    struct sljit_jump *j2 = sljit_emit_jump(NULL, SLJIT_JUMP); int id2 = G.skip; G.skip = 0;
    _Bool haselse = OPC == 0x05 || (BT == 4 && !RT && nondet_bool());
    if (haselse) b->else_jump = j2; else __CPROVER_assume(way != 2);
    if (way == 1) G.skip = id1;
    if (way == 2) G.skip = id2;
  }
  if (DEAD) { __CPROVER_assume(way != 0); m->block_returned = 1; m->sp = nondet_bool() ? -1 : 2; }
  /* a branch to the end leaves the result in the slot */
  if (RT && !DEAD) { j_entry(1, rt, K_ALL); }
  g_u64 vb = nondet_g_u64(); if (RT) g_logf(way == 1, 0, 0, off, g_size(rt), vb);
  v = way == 1 ? g_trunc(vb, g_size(rt)) : RT && !DEAD ? g_den(&m->stack[1]) : 0;
  imm_done(); 
  J.nw = G.nw;
  { J.n = 1; J.nh = G.nh; J.wt[0] = m->stack[0].wasm_type; J.den[0] = g_den(&m->stack[0]); J.lr = 8 + nondet_g_u32() % 7; __CPROVER_assume(J.lr >= 8 && J.lr <= 14); J.lv = G.R[J.lr]; }
  int nl = G.nlabel;
  char *err = opgen_GenCtlOp(m, OPC);
  __CPROVER_assert(err == NULL, "instruction is accepted");
  imm_check();
#if OPC == 0x0b
  __CPROVER_assert(m->blocks->len == 1, "the block is closed");
  j_check_stack(RT, 0); j_check_wit(); j_check_locals(); j_check_mem();
  __CPROVER_assert(blk_in_slot(0), "operands below an open block stay in their slots");
  if (RT) {
    __CPROVER_assert(m->stack[1].wasm_type == rt, "result type of the block");
    __CPROVER_assert(g_den(&m->stack[1]) == v, "the block result is the value its branch or its end leaves");
    if (BT != 3) __CPROVER_assert(blk_in_slot(1), "the block result is where all branches leave it");
  }
#else
  /* else: control that fell through the then part goes to the end of the block, with the result; the else part starts with else_jump */
  __CPROVER_assert(m->blocks->len == 1 + 1 && C_blocks.v[1].else_jump == NULL, "the block stays open, the else part has begun");
  if (way == 2) { j_check_stack(0, 0); j_check_wit(); j_check_locals(); j_check_mem(); }
  else {
    __CPROVER_assert(blk_leaves_to(b), "control goes to the end of the block");
    if (RT) __CPROVER_assert(g_readf(0, off, g_size(rt)) == v, "the result is where the end of the block expects it");
    __CPROVER_assert(g_readf(0, m->stack[0].frame_offset, g_size(J.wt[0])) == J.den[0], "operands below the block keep their values in their slots");
    j_check_locals();
  }
  __CPROVER_assert(m->sp == 0 && blk_in_slot(0), "operand stack at the start of the else part");
#endif
  __CPROVER_assert(m->block_returned == 0, "the continuation is reachable");
#endif
  __CPROVER_assert(0, "cover: end of the triple");
}
