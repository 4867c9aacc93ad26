/* Hoare triple for the constant instruction OPC (0x41..0x44): pushes the encoded value, consumes exactly the immediate. */
#define G_NH 6
#include "jit.h"
#include "ctx.h"
void h_main(void) {
  j_init(); c_init();
  ModuleCompiler *m = &GM;
  m->sp = 1;
  j_entry(0, j_type(), K_ALL); j_entry(1, j_type(), K_ALL);
  g_u64 v = nondet_g_u64();
#if OPC == 0x41 || OPC == 0x42
  imm_val(v);
#else
  for (int i = 0; i < (OPC == 0x43 ? 4 : 8); i++) imm_raw((g_u8)(v >> 8 * i));
#endif
  imm_done();
  j_snapshot(2);
  char *err = opgen_GenMemOp(m, OPC);
  __CPROVER_assert(err == NULL, "instruction is accepted");
  imm_check();
  j_check_stack(2, 0);
  int t = OPC == 0x41 ? WVT_I32 : OPC == 0x42 ? WVT_I64 : OPC == 0x43 ? WVT_F32 : WVT_F64;
  __CPROVER_assert(m->stack[2].wasm_type == t, "result type");
  __CPROVER_assert(g_den(&m->stack[2]) == g_trunc(v, g_size(t)), "the pushed value is the encoded constant");
  j_check_wit(); j_check_locals(); j_check_mem();
  __CPROVER_assert(0, "cover: end of the triple");
}
