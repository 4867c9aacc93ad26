/* Hoare triples for the table and reference instructions.  OPC 0x25 table.get, 0x26 table.set, 0xd0 ref.null, 0xd1 ref.is_null,
 * 0xd2 ref.func, 0x10 table.size, 0x0f table.grow, 0x3f memory.size (the 0xfc prefix is added for the middle three).  TI: table index. */
#define G_NH 6
#include "jit.h"
#include "ctx.h"
#ifndef NWIT
#define NWIT 1
#endif
#ifndef TI
#define TI 0
#endif
#ifndef VT
#define VT 2
#endif
#define FC (OPC == 0x10 || OPC == 0x0f)
#define POPS (OPC == 0x26 || OPC == 0x0f ? 2 : OPC == 0x25 || OPC == 0xd1 ? 1 : 0)
#define PUSHES (OPC == 0x26 ? 0 : 1)
#define TABACC (OPC == 0x25 || OPC == 0x26)
static WasmFunctionEntry C_fe[16];
void h_main(void) {
  j_init(); c_init();
  ModuleCompiler *m = &GM;
  C_ctx.funcentries = C_fe;
  int sp = NWIT + POPS - 1; m->sp = sp;
  for (int i = 0; i < NWIT; i++) j_entry(i, j_type(), K_ALL);
  int rt = VT == 0 ? WVT_REF : VT == 1 ? WVT_FUNC : nondet_bool() ? WVT_REF : WVT_FUNC;
  if (OPC == 0x25) j_entry(NWIT, WVT_I32, K_ALL);
  if (OPC == 0x26) { j_entry(NWIT, WVT_I32, K_ALL); j_entry(NWIT + 1, rt, K_ALL); }
  if (OPC == 0x0f) { j_entry(NWIT, rt, K_ALL); j_entry(NWIT + 1, WVT_I32, K_ALL); }
  if (OPC == 0xd1) j_entry(NWIT, rt, K_ALL);
  if (TABACC) c_table(TI);
  g_u64 x = POPS ? g_den(&m->stack[NWIT]) : 0, y = POPS == 2 ? g_den(&m->stack[NWIT + 1]) : 0, ea = 0, old = 0, want = 0;
  if (TABACC) { ea = g_arith(0, GA_ADD, g_arith(0, GA_SHL, x, 3), C_tbase[TI]); old = c_cell(ea, 8); }
  if (OPC == 0x10) want = c_cell((g_u64)(sljit_uw)&C_tab[TI].size, 4);
  if (OPC == 0x3f) want = c_cell((g_u64)(sljit_uw)&C_mem[TI].pages, 4);
  if (FC) imm_raw(OPC);
  if (OPC == 0xd0) imm_val(0x70); else if (OPC == 0xd2) imm_val(9); else if (OPC != 0xd1) imm_val(TI);
  imm_done();
  j_snapshot(NWIT);
  char *err = TABACC || OPC == 0x3f ? opgen_GenMemOp(m, OPC) : opgen_GenMiscOp(m, FC ? 0xfc : OPC);
  __CPROVER_assert(err == NULL, "instruction is accepted");
  imm_check();
  j_check_stack(sp - POPS + PUSHES, OPC == 0xd1);
  StackValue *t = &m->stack[NWIT];
#if OPC == 0x26
  __CPROVER_assert(G.nh == J.nh + 1, "exactly one store outside the frame");
  __CPROVER_assume(G.nh == J.nh + 1);
  g_hcell *h = &G.H[J.nh];
  __CPROVER_assert(h->on && h->kind == 0 && h->a == ea && h->n == 8, "the store is to the entry of the table");
  __CPROVER_assert(h->v == y, "the stored value is the operand");
  J.nh++;
#elif OPC == 0xd2
  /* the reference is what the function entry holds at run time */
  C_fe[9] = (WasmFunctionEntry)0;
  __CPROVER_assert(t->wasm_type == WVT_FUNC && t->jit_type == SVT_GENERAL && (t->val.op & SLJIT_MEM), "the function reference is read from its entry");
  __CPROVER_assert(g_addr(t->val.op, t->val.opw) == (g_u64)(sljit_uw)&C_fe[9], "the function reference is that of the given function");
#else
  g_u64 r = g_den(t);
  if (OPC == 0x25) __CPROVER_assert(r == old && (t->wasm_type == WVT_REF || t->wasm_type == WVT_FUNC), "the result is the entry of the table");
  if (OPC == 0xd0) __CPROVER_assert(r == 0 && (t->wasm_type == WVT_REF || t->wasm_type == WVT_FUNC), "the result is the null reference");
  if (OPC == 0xd1) __CPROVER_assert(t->wasm_type == WVT_I32 && r == (x == 0), "the result tells whether the reference is null");
  if (OPC == 0x0f) __CPROVER_assert(t->wasm_type == WVT_I32 && r == 0xffffffff, "growing a table fails and says so");
  if (OPC == 0x10) __CPROVER_assert(t->wasm_type == WVT_I32 && r == want, "the result is the size of the table");
  if (OPC == 0x3f) __CPROVER_assert(t->wasm_type == WVT_I32 && r == want, "the result is the size of the memory in pages");
  if (TABACC || OPC == 0x10 || OPC == 0x3f) __CPROVER_assert(g_scratch(t) != 0 && !(t->val.op & SLJIT_MEM), "the value is loaded, not referred to");
#endif
  j_check_wit(); j_check_locals(); j_check_mem();
  __CPROVER_assert(0, "cover: end of the triple");
}
