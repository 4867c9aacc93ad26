/* A compile-time context for the harnesses that need memories, tables, globals, locals, types and functions.
 * The containers have the representation of struct dynarr. */
#ifndef CTX_H
#define CTX_H
#define DARR(T, n) struct __attribute__((packed)) { uint32_t len, cap, elem; T v[n]; }
static DARR(StackValue, 8) C_locals, C_globals;
static DARR(Memory *, 3) C_mems;
static DARR(Table *, 3) C_tabs;
static DARR(Type, 3) C_types;
static DARR(WasmFunction, 3) C_funcs;
static Memory C_mem[3];
static Table C_tab[3];
static RuntimeContext C_ctx;
#define DINIT(d, n) ((d).len = (n), (d).cap = (n) + 1, (d).elem = sizeof((d).v[0]))
static g_u64 C_base[3], C_tbase[3];
static void c_init(void) {
  ModuleCompiler *m = &GM;
  m->context = &C_ctx;
  DINIT(C_locals, 0); DINIT(C_globals, 0); DINIT(C_mems, 3); DINIT(C_tabs, 3); DINIT(C_types, 0); DINIT(C_funcs, 0);
  for (int i = 0; i < 3; i++) { C_mems.v[i] = &C_mem[i]; C_tabs.v[i] = &C_tab[i]; C_mem[i].bytes = (uint8_t *)1; }
  C_ctx.memories = (struct dynarr *)&C_mems; C_ctx.tables = (struct dynarr *)&C_tabs;
  m->locals = (struct dynarr *)&C_locals; m->globals = (struct dynarr *)&C_globals; m->types = (struct dynarr *)&C_types; m->functions = (struct dynarr *)&C_funcs;
  m->cached_midx = -1; m->mem_base_local = -1; m->table_entries_local = -1;
}
/* a new host cell of n bytes at a: neither in the frames nor in another cell; returns its value */
static g_u64 c_cell(g_u64 a, g_u8 n) {
  __CPROVER_assume(g_outside_frames(a));
  for (unsigned c = 0; c < G_NH && c < G.nh; c++) if (G.H[c].on) __CPROVER_assume(a - G.H[c].a >= 8 && G.H[c].a - a >= 8);
  g_u64 v = nondet_g_u64();
  g_logh(1, 2, a, n, v);
  return g_trunc(v, n);
}
/* memory i: its base is in its descriptor; cached: also in the register that holds it in the whole function */
static void c_memory(int i, _Bool cached) {
  C_base[i] = c_cell((g_u64)(sljit_uw)&C_mem[i].bytes, 8);
  if (cached) {
    ModuleCompiler *m = &GM;
    m->cached_midx = i; m->mem_base_local = C_locals.len;
    StackValue *sv = &C_locals.v[C_locals.len++];
    sv->wasm_type = WVT_REF; sv->jit_type = SVT_GENERAL; sv->val.op = SLJIT_S1; sv->val.opw = 0;
    __CPROVER_assume(G.R[SLJIT_S1] == C_base[i]);
  }
}
/* (after the operands) table i; the base of table 0 is in a local: register or memory */
static void c_table(int i) {
  ModuleCompiler *m = &GM;
  C_tbase[i] = i == 0 ? nondet_g_u64() : c_cell((g_u64)(sljit_uw)&C_tab[i].entries, 8);
  if (i == 0) {
    m->table_entries_local = C_locals.len;
    StackValue *sv = &C_locals.v[C_locals.len++];
    sv->wasm_type = WVT_REF; sv->jit_type = SVT_GENERAL;
    if (nondet_bool()) { int r = 8 + (nondet_g_u32() & 3); sv->val.op = r; sv->val.opw = 0; __CPROVER_assume(G.R[r] == C_tbase[0]); g_logf(0, 0, 1, 0, 8, 0); }
    else { g_u16 w = nondet_g_u32() & 0x3ff8; __CPROVER_assume(w + 8 <= g_locsz);
      for (unsigned c = 0; c < G_NW && c < G.nw; c++) if (G.W[c].on && G.W[c].sp) __CPROVER_assume(G.W[c].a + G.W[c].n <= w || w + 8 <= G.W[c].a);
      sv->val.op = SLJIT_MEM1(SLJIT_SP); sv->val.opw = w; g_logf(1, 0, 1, w, 8, C_tbase[0]); }
  }
}
/* immediates: the decoder is used through its contract (units/leb.c): at the position of immediate k it returns the
 * value that is encoded there (all bits if unsigned, the low maxbits if signed) and advances past the encoding. */
static g_u8 C_b[64]; static unsigned C_n, C_ni;
static struct { unsigned pos, len; g_u64 v; } C_imm[8];
static void imm_raw(g_u8 x) { C_b[C_n++] = x; }
static void imm_val(g_u64 v) { C_imm[C_ni].pos = C_n; C_imm[C_ni].len = 1; C_imm[C_ni].v = v; C_ni++; C_n++; }
static void imm_done(void) { GM.bytes = C_b; GM.pc = 0; GM.byte_count = sizeof C_b; }
static void imm_check(void) { __CPROVER_assert(GM.pc == C_n, "exactly the immediates of the instruction are consumed"); }
uint64_t g_read_LEB_(uint8_t *bytes, uint32_t *pos, uint32_t maxbits, int sign) {
  __CPROVER_assert(bytes == C_b, "immediates are read from the module");
  for (unsigned k = 0; k < 8; k++) if (k < C_ni && C_imm[k].pos == *pos) {
    *pos += C_imm[k].len;
    if (!sign) return C_imm[k].v;
    g_u64 r = nondet_g_u64(), mask = maxbits >= 64 ? ~0ull : (1ull << maxbits) - 1;
    return (r & ~mask) | (C_imm[k].v & mask);
  }
  __CPROVER_assert(0, "immediates are read where they are");
  __CPROVER_assume(0);
  return 0;
}
#endif
