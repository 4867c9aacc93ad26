/* Control-flow context: the block stack of the compiler.  Invariant of an open block b: the operands 0..b.saved_sp are in their
 * own frame slots (and stay there while the block is open); control reaches the end of a block (the head of a loop) with those
 * slots unchanged and, if the block has a result, with the result in the slot of operand saved_sp+1. */
#ifndef BLK_H
#define BLK_H
#include "jit.h"
#include "ctx.h"
static DARR(Block, 6) C_blocks;
static DARR(struct sljit_jump *, 8) C_jumps[3];
static DARR(uint32_t, 8) C_brt;
static int blk_label;            /* id of the loop head label */
static void blk_init(void) {
  ModuleCompiler *m = &GM;
  DINIT(C_blocks, 0); C_blocks.cap = 64; m->blocks = (struct dynarr *)&C_blocks;
  DINIT(C_brt, 0); C_brt.cap = 64; m->br_table = (struct dynarr *)&C_brt;
  for (int i = 0; i < 3; i++) { DINIT(C_jumps[i], 0); C_jumps[i].cap = 64; }
}
/* open block: type 0 function, 2 block, 3 loop, 4 if; rt: result type or 0 */
static Block *blk_open(int type, int rt, int saved_sp) {
  int i = C_blocks.len++;
  Block *b = &C_blocks.v[i];
  b->block_type = type; b->stack_offset = rt != 0; b->result_type = rt; b->saved_sp = saved_sp; b->else_jump = NULL; b->br_label = NULL; b->br_jump = NULL;
  if (type == 2 || type == 4) b->br_jump = (struct dynarr *)&C_jumps[i % 3];
  if (type == 3) { b->br_label = sljit_emit_label(NULL); blk_label = G_LABELID(b->br_label); }
  return b;
}
/* the frame slot of operand saved_sp+1 if its type is rt: the layout rule of operands */
static g_u32 blk_slot(int saved_sp, int rt) {
  ModuleCompiler *m = &GM;
  return j_slot(saved_sp < 0 ? m->first_stackvalue_offset : m->stack[saved_sp].frame_offset + g_size(m->stack[saved_sp].wasm_type), rt);
}
/* control is on its way to the target of a branch to b */
static _Bool blk_leaves_to(Block *b) {
  if (b->block_type == 0) return G.skip == G_RET;
  if (b->block_type == 3) return G.skip == G_BACK && G.backlabel == G_LABELID(b->br_label);
  struct dynarr *d = b->br_jump; _Bool in = 0;
  struct sljit_jump **v = (struct sljit_jump **)d->data;
  for (unsigned k = 0; k < 8; k++) if (k < d->len && G.skip > 0 && v[k] == G_JUMP(G.skip)) in = 1;
  return in;
}
static _Bool blk_in_slot(int i) {
  StackValue *sv = &GM.stack[i];
  return sv->jit_type == SVT_GENERAL && sv->val.op == SLJIT_MEM1(SLJIT_S0) && sv->val.opw == sv->frame_offset;
}
#endif
