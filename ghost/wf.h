/* Representation invariant of the compile-time operand stack, relative to the ghost machine. */
#ifndef WF_H
#define WF_H
#define G_S0 13
#define G_SP 14
static struct ModuleCompiler GM;

static _Bool g_isf(int wt) { return wt == WVT_F32 || wt == WVT_F64; }
static g_u8 g_size(int wt) { return (wt == WVT_I32 || wt == WVT_F32) ? 4 : 8; }
static _Bool g_wt(int wt) { return wt == WVT_I32 || wt == WVT_I64 || wt == WVT_F32 || wt == WVT_F64 || wt == WVT_REF || wt == WVT_FUNC; }
/* value denoted by a stack value in the current machine state */
static g_u64 g_den(StackValue *sv) {
  g_u8 n = g_size(sv->wasm_type);
  if (sv->jit_type == SVT_CMP) return g_flag(sv->val.cmp.flag);
  if (g_isf(sv->wasm_type)) return g_fsrc(sv->val.op, sv->val.opw, n);
  return g_src(sv->val.op, sv->val.opw, n);
}
/* no address of the frame or of the locals is inside [a, a+8) */
static _Bool g_outside_frames(g_u64 a) {
  g_u64 p = (a + 8) >> 16, q = a >> 16;
  return q != G_S0V >> 16 && p != G_S0V >> 16 && q != G_SPV >> 16 && p != G_SPV >> 16;
}
static _Bool g_wf1(ModuleCompiler *m, int i, _Bool top_cmp_ok) {
  StackValue *sv = &m->stack[i];
  int op = sv->val.op; sljit_sw w = sv->val.opw; int b = op & 0x7f;
  if (!g_wt(sv->wasm_type)) return 0;
  if (sv->frame_offset < m->first_stackvalue_offset) return 0;
  if (sv->jit_type == SVT_CMP) return top_cmp_ok && sv->wasm_type == WVT_I32;
  if (sv->jit_type != SVT_GENERAL) return 0;
  if (op == SLJIT_MEM1(SLJIT_S0))
    return w == sv->frame_offset || (w >= 0 && w + g_size(sv->wasm_type) <= m->first_stackvalue_offset);
  if (op == SLJIT_MEM1(SLJIT_SP)) return w >= 0 && w + g_size(sv->wasm_type) <= g_locsz;
  if (g_isf(sv->wasm_type) && !(op & SLJIT_MEM)) return w == 0 && op >= 1 && op <= 15;
  if (op == SLJIT_IMM) return 1;
  if (op >= 1 && op <= 7) return w == 0;
  if (op >= 8 && op <= 12) return w == 0;
  if ((op & SLJIT_MEM) && b >= 1 && b <= 7 && op == (SLJIT_MEM | b))
    return w == 0 && sv->wasm_type == WVT_FUNC && g_outside_frames(G.R[b]);
  return 0;
}
/* an i32 in an integer register is zero only if the whole register is: conditions are tested at machine word length */
static _Bool g_wfz(StackValue *sv) {
  int op = sv->val.op;
  if (sv->jit_type != SVT_GENERAL || sv->wasm_type != WVT_I32 || op < 1 || op > 12) return 1;
  return (g_u32)G.R[op] != 0 || G.R[op] == 0;
}
/* scratch register used by a stack value, 0 if none; floats are numbered from 32 */
static int g_scratch(StackValue *sv) {
  if (sv->jit_type != SVT_GENERAL) return 0;
  int b = sv->val.op & 0x7f;
  if (sv->val.op & SLJIT_MEM) return b >= 1 && b <= 7 ? b : 0;
  if (sv->val.op == SLJIT_IMM) return 0;
  if (g_isf(sv->wasm_type)) return 32 + sv->val.op;
  return b <= 7 ? b : 0;
}
#endif
