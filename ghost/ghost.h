/* Ghost machine: the assumed contract of the sljit back end (x86-64), as executable specification.
 *
 * Every sljit_emit_* call of the code generator is given the meaning "append this instruction", and
 * because pwart generates straight-line code with forward jumps inside one wasm instruction, the
 * specification executes the appended instruction at once on the ghost machine below.  The verifier
 * therefore relates the state before and after the *generated* code of one wasm instruction, for all
 * register, frame and memory contents.
 */
#ifndef GHOST_H
#define GHOST_H
typedef unsigned char g_u8; typedef unsigned short g_u16; typedef unsigned int g_u32; typedef unsigned long long g_u64;
typedef signed char g_s8; typedef short g_s16; typedef int g_s32; typedef long long g_s64;

g_u64 nondet_g_u64(void); g_u32 nondet_g_u32(void); g_u8 nondet_g_u8(void); int nondet_int(void); _Bool nondet_bool(void);

g_u64 __CPROVER_uninterpreted_mul64(g_u64 a, g_u64 b);
g_u32 __CPROVER_uninterpreted_mul32(g_u32 a, g_u32 b);
g_u64 __CPROVER_uninterpreted_div64(int kind, g_u64 a, g_u64 b);
g_u32 __CPROVER_uninterpreted_div32(int kind, g_u32 a, g_u32 b);
g_u32 __CPROVER_uninterpreted_f32op(int kind, g_u32 a, g_u32 b);
g_u64 __CPROVER_uninterpreted_f64op(int kind, g_u64 a, g_u64 b);
g_u64 __CPROVER_uninterpreted_conv(int kind, g_u64 a);

void abort(void) { __CPROVER_assert(0, "no internal error: abort is not called"); __CPROVER_assume(0); }
void exit(int c) { __CPROVER_assert(0, "no internal error: exit is not called"); __CPROVER_assume(0); }
/* strlen of a type string whose length the harness knows */
static const void *g_str[4]; static unsigned g_strn[4];
unsigned long strlen(const char *x) {
  for (int i = 0; i < 4; i++) if (g_str[i] == x) return g_strn[i];
  unsigned long n = 0;
  while (x[n]) n++;
  return n;
}
void free(void *p) {}
enum { GD_DIVS=1, GD_DIVU, GD_REMS, GD_REMU };
enum { GF_ADD=1, GF_SUB, GF_MUL, GF_DIV };
static g_u64 g_mul64(g_u64 a, g_u64 b) { return __CPROVER_uninterpreted_mul64(a, b); }
static g_u32 g_mul32(g_u32 a, g_u32 b) { return __CPROVER_uninterpreted_mul32(a, b); }
static g_u32 g_f32op(int k, g_u32 a, g_u32 b) { return __CPROVER_uninterpreted_f32op(k, a, b); }
static g_u64 g_f64op(int k, g_u64 a, g_u64 b) { return __CPROVER_uninterpreted_f64op(k, a, b); }

#ifndef G_NW
#define G_NW 12
#endif
/* Memory is two logs of cells, newest last: the frame log for the operand stack frame (at G_S0V) and the
 * SP-relative locals (at G_SPV), whose accesses are 4-byte aligned (asserted), and the host log for
 * everything else.  kind 0: n bytes at a (the initial cells of a harness, then the stores of the generated
 * code); kind 1: an opaque call, after which everything outside the caller's part of the frame [0,a) and
 * outside its locals is arbitrary; kind 2: an initial cell of the host log.  Reading what no cell covers is arbitrary. */
typedef struct { _Bool on; _Bool sp; g_u8 n; g_u8 kind; g_u16 a; g_u64 v; } g_fcell;
typedef struct { _Bool on; g_u8 n; g_u8 kind; g_u64 a; g_u64 v; } g_hcell;
#ifndef G_ADDR_EXACT
#define G_ADDR_EXACT 0     /* 1: harnesses about addresses, integer arithmetic is exact */
#endif
#ifndef G_NH
#define G_NH 4
#endif
#define G_FRAME 0x10000ull          /* bytes of one frame that the generated code may address */
/* The frame pointer and the host stack pointer are fixed representatives: the generated code may use them
 * only as base of an address (asserted below), so its behaviour is invariant under translation of both. */
#define G_S0V 0x1000000000000ull
#define G_SPV 0x2000000000000ull
/* where control is: 0 = here, > 0 = on its way to the label of that jump, < 0 = left for good */
#define G_RET (-1)
#define G_TAIL (-2)
#define G_BACK (-3)
#define G_TRAP (-4)
struct ghost {
  g_u64 R[17];            /* 1..7 scratch, 8..13 saved, 14 SP ; index 13 is S0 */
  g_u64 F[18];            /* 1..15 */
  _Bool zvalid; _Bool zflag;
  int vtype;              /* -1 none, else even flag type */
  _Bool vflag;            /* value of the even flag type */
  int skip;
  int njump, nlabel, label_at, nemit;
  int lastlabel, backlabel;
  g_fcell W[G_NW]; unsigned nw;
  g_hcell H[G_NH]; unsigned nh;
  int ncall;              /* opaque calls executed */
  g_u64 calltarget, callfp, callimm;
  _Bool incall;
  int nenter; g_u64 locsz_entered;
  g_u64 helper;           /* the helper that was called */
};
static struct ghost G;

/* ------------------------------------------------------------------ memory */
static g_u64 g_trunc(g_u64 v, g_u8 n) { return n==1 ? (g_u8)v : n==2 ? (g_u16)v : n==4 ? (g_u32)v : v; }
#define G_ISF(x) (((x) >> 16) == (G_S0V >> 16))
#define G_ISL(x) (((x) >> 16) == (G_SPV >> 16))
static g_u64 g_readf(_Bool sp, g_u16 x, g_u8 n) {
  g_u64 r = nondet_g_u64();
  for (unsigned i = 0; i < G_NW; i++) {
    if (i >= G.nw) break;
    if (!G.W[i].on) continue;
    if (G.W[i].kind == 1) { if (!sp && (g_u32)x + n > G.W[i].a) r = nondet_g_u64(); continue; }
    if (G.W[i].sp != sp) continue;
    g_u8 wn = G.W[i].n; g_u64 v = G.W[i].v; g_u16 d = (g_u16)(x - G.W[i].a);
    if (d == 0) r = wn == 4 ? (r & ~0xffffffffull) | (g_u32)v : v;
    else if (d == 4 && wn == 8) r = (r & ~0xffffffffull) | v >> 32;
    else if (d == 0xfffc) r = (g_u64)(g_u32)r | v << 32;
  }
  return g_trunc(r, n);
}
static g_u64 g_readh(g_u64 x, g_u8 n) {
  g_u64 r = nondet_g_u64();
  for (unsigned i = 0; i < G_NH; i++) {
    if (i >= G.nh) break;
    if (!G.H[i].on) continue;
    if (G.H[i].kind == 1) { r = nondet_g_u64(); continue; }
    if (G.H[i].kind == 2) { if (x == G.H[i].a && n <= G.H[i].n) r = G.H[i].v; continue; }
    g_u8 wn = G.H[i].n; g_u64 d = x - G.H[i].a;
    if (d == 0 && n <= wn) r = G.H[i].v;
    else if (d < wn || 0 - d < n) r = nondet_g_u64();
  }
  return g_trunc(r, n);
}
static g_u64 g_read(g_u64 x, g_u8 n) {
  g_u64 r;
  if (G_ISF(x) || G_ISL(x)) {
    __CPROVER_assert((x & 3) == 0 && (x & 0xffff) + n <= 0x10000, "generated code: frame access is aligned to a slot");
    r = g_readf(G_ISL(x), (g_u16)x, n);
  } else r = g_readh(x, n);
  return r;
}
static void g_logf(_Bool on, g_u8 kind, _Bool sp, g_u16 a, g_u8 n, g_u64 v) {
  __CPROVER_assert(G.nw < G_NW, "ghost: frame log large enough");
  __CPROVER_assume(G.nw < G_NW);
  G.W[G.nw].on = on; G.W[G.nw].sp = sp; G.W[G.nw].kind = kind; G.W[G.nw].a = a; G.W[G.nw].n = n; G.W[G.nw].v = v; G.nw++;
}
static void g_logh(_Bool on, g_u8 kind, g_u64 a, g_u8 n, g_u64 v) {
  __CPROVER_assert(G.nh < G_NH, "ghost: host log large enough");
  __CPROVER_assume(G.nh < G_NH);
  G.H[G.nh].on = on; G.H[G.nh].kind = kind; G.H[G.nh].a = a; G.H[G.nh].n = n; G.H[G.nh].v = v; G.nh++;
}
static void g_store(_Bool on, g_u64 a, g_u8 n, g_u64 v) {
  if (!on) return;
  if (G_ISF(a) || G_ISL(a)) {
    __CPROVER_assert((a & 3) == 0 && (n == 4 || n == 8) && (a & 0xffff) + n <= 0x10000, "generated code: frame store is a whole aligned slot");
    g_logf(1, 0, G_ISL(a), (g_u16)a, n, v);
  } else g_logh(1, 0, a, n, v);
}
/* fill the frame log up to n cells with cells that are off: keeps its length a constant */
static void g_pad(unsigned n) {
  __CPROVER_assert(G.nw <= n && n <= G_NW, "ghost: frame log length");
  __CPROVER_assume(G.nw <= n && n <= G_NW);
  for (unsigned i = 0; i < G_NW; i++) if (i >= G.nw && i < n) G.W[i].on = 0;
  G.nw = n;
}
static void g_write_mem(g_u64 a, g_u8 n, g_u64 v) { g_store(!G.skip, a, n, v); }
/* Integer arithmetic.  By default the arithmetic of an instruction is an uninterpreted function of its kind
 * and operands, shared with the specification: this proves the routing of operands and the choice of the
 * instruction, and is cheap.  G_EXACT uses the machine arithmetic itself; the driver repeats a failed
 * obligation in that mode before reporting it. */
enum { GA_ADD = 1, GA_SUB, GA_MUL, GA_AND, GA_OR, GA_XOR, GA_SHL, GA_LSHR, GA_ASHR, GA_ROTL, GA_ROTR, GA_LTS, GA_LTU };
g_u64 __CPROVER_uninterpreted_alu64(int k, g_u64 a, g_u64 b);
g_u32 __CPROVER_uninterpreted_alu32(int k, g_u32 a, g_u32 b);
_Bool __CPROVER_uninterpreted_lt(int k, g_u64 a, g_u64 b);
static g_u64 g_arith_exact(_Bool w32, int k, g_u64 a, g_u64 b) {
  g_u64 r = 0;
  if (w32) { a = (g_u32)a; b = (g_u32)b; }
  switch (k) {
  case GA_ADD: r = a + b; break;
  case GA_SUB: r = a - b; break;
  case GA_MUL: r = w32 ? g_mul32((g_u32)a, (g_u32)b) : g_mul64(a, b); break;
  case GA_AND: r = a & b; break;
  case GA_OR: r = a | b; break;
  case GA_XOR: r = a ^ b; break;
  case GA_SHL: r = w32 ? (g_u64)((g_u32)a << (b & 31)) : a << (b & 63); break;
  case GA_LSHR: r = w32 ? (g_u64)((g_u32)a >> (b & 31)) : a >> (b & 63); break;
  case GA_ASHR: r = w32 ? (g_u64)(g_u32)((g_s32)(g_u32)a >> (b & 31)) : (g_u64)((g_s64)a >> (b & 63)); break;
  case GA_ROTL: r = w32 ? (g_u64)(((g_u32)a << (b & 31)) | ((g_u32)a >> ((32 - (b & 31)) & 31))) : (a << (b & 63)) | (a >> ((64 - (b & 63)) & 63)); break;
  case GA_ROTR: r = w32 ? (g_u64)(((g_u32)a >> (b & 31)) | ((g_u32)a << ((32 - (b & 31)) & 31))) : (a >> (b & 63)) | (a << ((64 - (b & 63)) & 63)); break;
  }
  return w32 ? (g_u64)(g_u32)r : r;
}
static g_u64 g_arith(_Bool w32, int k, g_u64 a, g_u64 b) {
#ifndef G_EXACT
  if (k == GA_AND || k == GA_OR || k == GA_XOR) return g_arith_exact(w32, k, a, b);
  if (k >= GA_SHL && k <= GA_ROTR) b &= w32 ? 31 : 63;
  if (k == GA_ADD || k == GA_MUL) { if (w32) { a = (g_u32)a; b = (g_u32)b; } if (a > b) { g_u64 t = a; a = b; b = t; } }
  return w32 ? __CPROVER_uninterpreted_alu32(k, (g_u32)a, (g_u32)b) : __CPROVER_uninterpreted_alu64(k, a, b);
#else
  return g_arith_exact(w32, k, a, b);
#endif
}
static _Bool g_lt(_Bool w32, _Bool sg, g_u64 a, g_u64 b) {
#ifndef G_EXACT
  return w32 ? __CPROVER_uninterpreted_lt(sg ? 1 : 2, (g_u32)a, (g_u32)b) : __CPROVER_uninterpreted_lt(sg ? 3 : 4, a, b);
#else
  return w32 ? (sg ? (g_s32)a < (g_s32)b : (g_u32)a < (g_u32)b) : sg ? (g_s64)a < (g_s64)b : a < b;
#endif
}
/* ------------------------------------------------------------------ operands */
#define G_OK_SCRATCH(r) ((r) >= 1 && (r) <= 7)
#define G_OK_REG(r) ((r) >= 1 && (r) <= 13)
#define G_OK_FREG(r) ((r) >= 1 && (r) <= 15)
static g_u64 g_addr(sljit_s32 op, sljit_sw w) {
  int b = op & 0x7f;
  if (op == SLJIT_MEM0()) return (g_u64)w;
  __CPROVER_assert(b >= 1 && b <= 14 && (op & ~0xff) == 0, "sljit: memory operand has a valid base register");
  __CPROVER_assume(b >= 1 && b <= 14);
  if (b == 13 || b == 14) {
    __CPROVER_assert(w >= 0 && w < 0x10000, "generated code: frame access is inside the frame");
    return (b == 13 ? G_S0V : G_SPV) | (g_u16)w;
  }
  return w == 0 ? G.R[b] : g_arith(0, GA_ADD, G.R[b], (g_u64)w);
}
static _Bool g_baseok;         /* the current instruction only forms an address from its operands */
static g_u64 g_src(sljit_s32 op, sljit_sw w, g_u8 n) {
  if (op == SLJIT_IMM) return g_trunc((g_u64)w, n);
  if (op & SLJIT_MEM) return g_read(g_addr(op, w), n);
  __CPROVER_assert(G_OK_REG(op), "sljit: integer register operand exists");
  __CPROVER_assume(G_OK_REG(op));
  __CPROVER_assert(op != 13 || g_baseok, "generated code: frame pointer is used as base of an address only");
  return g_trunc(G.R[op], n);
}
/* dst receives v; n = width of the operation for a memory destination */
static void g_dst(sljit_s32 op, sljit_sw w, g_u64 v, g_u8 n) {
  if (op & SLJIT_MEM) { g_write_mem(g_addr(op, w), n, g_trunc(v, n)); return; }
  __CPROVER_assert(G_OK_REG(op) && op != 13, "sljit: integer destination register exists and is not the frame pointer");
  __CPROVER_assume(G_OK_REG(op) && op != 13);
  if (!G.skip) G.R[op] = v;
}
static g_u64 g_fsrc(sljit_s32 op, sljit_sw w, g_u8 n) {
  if (op & SLJIT_MEM) return g_read(g_addr(op, w), n);
  __CPROVER_assert(G_OK_FREG(op), "sljit: float register operand exists");
  __CPROVER_assume(G_OK_FREG(op));
  return g_trunc(G.F[op], n);
}
static void g_fdst(sljit_s32 op, sljit_sw w, g_u64 v, g_u8 n) {
  if (op & SLJIT_MEM) { g_write_mem(g_addr(op, w), n, g_trunc(v, n)); return; }
  __CPROVER_assert(G_OK_FREG(op), "sljit: float destination register exists");
  __CPROVER_assume(G_OK_FREG(op));
  if (!G.skip) G.F[op] = n == 4 ? (nondet_g_u64() & ~0xffffffffull) | (g_u32)v : v;
}
static void g_flags_none(void) { if (!G.skip) { G.zvalid = 0; G.vtype = -1; } }
/* ------------------------------------------------------------------ sljit contracts */
sljit_s32 sljit_emit_op1(struct sljit_compiler *c, sljit_s32 op, sljit_s32 dst, sljit_sw dstw, sljit_s32 src, sljit_sw srcw) {
  G.nemit++;
  g_u64 v;
  switch (op) {
  case SLJIT_MOV: case SLJIT_MOV_P: g_baseok = 1; g_dst(dst, dstw, g_src(src, srcw, 8), 8); g_baseok = 0; break;
  case SLJIT_MOV_U8: g_dst(dst, dstw, g_src(src, srcw, 1), 1); break;
  case SLJIT_MOV_S8: g_dst(dst, dstw, (g_u64)(g_s64)(g_s8)g_src(src, srcw, 1), 1); break;
  case SLJIT_MOV_U16: g_dst(dst, dstw, g_src(src, srcw, 2), 2); break;
  case SLJIT_MOV_S16: g_dst(dst, dstw, (g_u64)(g_s64)(g_s16)g_src(src, srcw, 2), 2); break;
  case SLJIT_MOV_U32: g_dst(dst, dstw, g_src(src, srcw, 4), 4); break;
  case SLJIT_MOV_S32: g_dst(dst, dstw, (g_u64)(g_s64)(g_s32)g_src(src, srcw, 4), 4); break;
  case SLJIT_MOV32: g_dst(dst, dstw, g_src(src, srcw, 4), 4); break;
  case SLJIT_MOV32_U8: g_dst(dst, dstw, g_src(src, srcw, 1), 1); break;
  case SLJIT_MOV32_S8: g_dst(dst, dstw, (g_u32)(g_s32)(g_s8)g_src(src, srcw, 1), 1); break;
  case SLJIT_MOV32_U16: g_dst(dst, dstw, g_src(src, srcw, 2), 2); break;
  case SLJIT_MOV32_S16: g_dst(dst, dstw, (g_u32)(g_s32)(g_s16)g_src(src, srcw, 2), 2); break;
  default: __CPROVER_assert(0, "sljit: op1 opcode within the modelled contract"); __CPROVER_assume(0);
  }
  return 0;
}
static int g_alukind(int op) {
  switch (op & 0xff) {
  case SLJIT_ADD: return GA_ADD; case SLJIT_SUB: return GA_SUB; case SLJIT_MUL: return GA_MUL;
  case SLJIT_AND: return GA_AND; case SLJIT_OR: return GA_OR; case SLJIT_XOR: return GA_XOR;
  case SLJIT_SHL: case SLJIT_MSHL: return GA_SHL;
  case SLJIT_LSHR: case SLJIT_MLSHR: return GA_LSHR;
  case SLJIT_ASHR: case SLJIT_MASHR: return GA_ASHR;
  case SLJIT_ROTL: return GA_ROTL; case SLJIT_ROTR: return GA_ROTR;
  }
  __CPROVER_assert(0, "sljit: op2 opcode within the modelled contract"); __CPROVER_assume(0);
  return 0;
}
/* kx: the operation forms an address or a known-constant value and is computed exactly */
static g_u64 g_alu(sljit_s32 op, g_u64 a, g_u64 b, _Bool exact) {
  _Bool w32 = (op & SLJIT_32) != 0; int k = g_alukind(op);
  return exact ? g_arith_exact(w32, k, a, b) : g_arith(w32, k, a, b);
}
static void g_setflags(sljit_s32 op, g_u64 a, g_u64 b, g_u64 r) {
  _Bool w32 = (op & SLJIT_32) != 0;
  int vt = (op >> 10) & 0x3f; /* SLJIT_SET(v) == v << 10 */
  if (G.skip) return;
  G.zvalid = (op & SLJIT_SET_Z) != 0;
  G.zflag = (op & 0xff) == SLJIT_SUB ? (w32 ? (g_u32)a == (g_u32)b : a == b) : w32 ? (g_u32)r == 0 : r == 0;
  G.vtype = -1;
  if (vt) {
    _Bool f;
    G.vtype = vt;
    __CPROVER_assert((op & 0xff) == SLJIT_SUB, "sljit: comparison flags are requested from a subtraction");
    switch (vt) {
    case SLJIT_LESS: f = g_lt(w32, 0, a, b); break;
    case SLJIT_GREATER: f = g_lt(w32, 0, b, a); break;
    case SLJIT_SIG_LESS: f = g_lt(w32, 1, a, b); break;
    case SLJIT_SIG_GREATER: f = g_lt(w32, 1, b, a); break;
    default: f = nondet_bool(); G.vtype = -1;
    }
    G.vflag = f;
  }
}
sljit_s32 sljit_emit_op2(struct sljit_compiler *c, sljit_s32 op, sljit_s32 dst, sljit_sw dstw, sljit_s32 s1, sljit_sw s1w, sljit_s32 s2, sljit_sw s2w) {
  g_u8 n = (op & SLJIT_32) ? 4 : 8;
  G.nemit++;
  /* the x86 back end writes the destination before it forms the address of the second source */
  __CPROVER_assert((dst & SLJIT_MEM) || (dst == s1 && s1w == 0) || !(s2 != SLJIT_IMM && (s2 & SLJIT_MEM) && (s2 & 0x7f) == dst), "sljit: destination register is not the base of the second source");
  _Bool base = op == SLJIT_ADD && s2 == SLJIT_IMM && s1 == SLJIT_S0;
  g_baseok = base;
  g_u64 a = g_src(s1, s1w, n), b = g_src(s2, s2w, n), r = g_alu(op, a, b, base || G_ADDR_EXACT);
  g_baseok = 0;
  g_setflags(op, a, b, r);
  g_dst(dst, dstw, r, n);
  return 0;
}
sljit_s32 sljit_emit_op2u(struct sljit_compiler *c, sljit_s32 op, sljit_s32 s1, sljit_sw s1w, sljit_s32 s2, sljit_sw s2w) {
  g_u8 n = (op & SLJIT_32) ? 4 : 8;
  G.nemit++;
  g_u64 a = g_src(s1, s1w, n), b = g_src(s2, s2w, n), r = g_alu(op, a, b, G_ADDR_EXACT);
  g_setflags(op, a, b, r);
  return 0;
}
sljit_s32 sljit_emit_op0(struct sljit_compiler *c, sljit_s32 op) {
  G.nemit++;
  _Bool w32 = (op & SLJIT_32) != 0;
  g_u64 a = G.R[1], b = G.R[2], q, r; int k, kr; _Bool mod = 0;
  if (op == SLJIT_BREAKPOINT) { if (!G.skip) G.skip = G_TRAP; return 0; }
  if (op == SLJIT_NOP || op == SLJIT_ENDBR) return 0;
  switch (op & 0xff) {
  case SLJIT_DIVMOD_UW: mod = 1; k = GD_DIVU; kr = GD_REMU; break;
  case SLJIT_DIVMOD_SW: mod = 1; k = GD_DIVS; kr = GD_REMS; break;
  case SLJIT_DIV_UW: k = GD_DIVU; kr = 0; break;
  case SLJIT_DIV_SW: k = GD_DIVS; kr = 0; break;
  default: __CPROVER_assert(0, "sljit: op0 opcode within the modelled contract"); __CPROVER_assume(0);
  }
  __CPROVER_assert(G.skip || (w32 ? (g_u32)b != 0 : b != 0), "generated code: no host trap, divisor is not zero");
  __CPROVER_assert(G.skip || k == GD_DIVU || !(w32 ? (g_u32)a == 0x80000000u && (g_u32)b == 0xffffffffu : a == 0x8000000000000000ull && b == 0xffffffffffffffffull),
    "generated code: no host trap, smallest integer is not divided by -1");
  if (w32) { q = __CPROVER_uninterpreted_div32(k, (g_u32)a, (g_u32)b); r = mod ? __CPROVER_uninterpreted_div32(kr, (g_u32)a, (g_u32)b) : b; }
  else { q = __CPROVER_uninterpreted_div64(k, a, b); r = mod ? __CPROVER_uninterpreted_div64(kr, a, b) : b; }
  if (!G.skip) { G.R[1] = q; G.R[2] = r; }
  g_flags_none();
  return 0;
}
/* current truth of a flag type */
static _Bool g_flag(int type) {
  _Bool f;
  if (type == SLJIT_EQUAL || type == SLJIT_NOT_EQUAL) {
    __CPROVER_assert(G.skip || G.zvalid, "sljit: zero flag is available where it is used");
    f = G.zflag;
  } else {
    __CPROVER_assert(G.skip || G.vtype == (type & ~1), "sljit: comparison flag is available where it is used");
    f = G.vflag;
  }
  return (type & 1) ? !f : f;
}
sljit_s32 sljit_emit_op_flags(struct sljit_compiler *c, sljit_s32 op, sljit_s32 dst, sljit_sw dstw, sljit_s32 type) {
  G.nemit++;
  g_u64 v = g_flag(type);
  __CPROVER_assert((op & 0xff) == SLJIT_MOV || (op & 0xff) == SLJIT_MOV32, "sljit: op_flags opcode within the modelled contract");
  g_dst(dst, dstw, v, (op & 0xff) == SLJIT_MOV32 || (op & SLJIT_32) ? 4 : 8);
  return 0;
}
/* ------------------------------------------------------------------ floats (bit patterns) */
static _Bool g_nan32(g_u32 a) { return (a & 0x7fffffff) > 0x7f800000; }
static _Bool g_nan64(g_u64 a) { return (a & 0x7fffffffffffffffull) > 0x7ff0000000000000ull; }
/* IEEE comparison on non-NaN bit patterns: map to a total order key, +-0 equal */
static g_s32 g_key32(g_u32 a) { return (a & 0x7fffffff) == 0 ? 0 : (a >> 31) ? -(g_s32)(a & 0x7fffffff) : (g_s32)a; }
static g_s64 g_key64(g_u64 a) { return (a & 0x7fffffffffffffffull) == 0 ? 0 : (a >> 63) ? -(g_s64)(a & 0x7fffffffffffffffull) : (g_s64)a; }
static _Bool g_flt(_Bool d, g_u64 a, g_u64 b) { return d ? !g_nan64(a) && !g_nan64(b) && g_key64(a) < g_key64(b) : !g_nan32(a) && !g_nan32(b) && g_key32(a) < g_key32(b); }
static _Bool g_feq(_Bool d, g_u64 a, g_u64 b) { return d ? !g_nan64(a) && !g_nan64(b) && g_key64(a) == g_key64(b) : !g_nan32(a) && !g_nan32(b) && g_key32(a) == g_key32(b); }
static _Bool g_funo(_Bool d, g_u64 a, g_u64 b) { return d ? g_nan64(a) || g_nan64(b) : g_nan32(a) || g_nan32(b); }
/* order of two floats: 0 less, 1 equal, 2 greater, 3 unordered; uninterpreted unless G_EXACT */
g_u8 __CPROVER_uninterpreted_fcmp(_Bool d, g_u64 a, g_u64 b);
static int g_fcmp(_Bool d, g_u64 a, g_u64 b) {
#ifndef G_EXACT
  return __CPROVER_uninterpreted_fcmp(d, a, b) & 3;
#else
  return g_funo(d, a, b) ? 3 : g_flt(d, a, b) ? 0 : g_feq(d, a, b) ? 1 : 2;
#endif
}
/* truth of an (even) float comparison type; unspecified on NaN for the non-ordered ones, as sljit documents */
static _Bool g_fcond(int type, _Bool d, g_u64 a, g_u64 b) {
  int c = g_fcmp(d, a, b); _Bool u = c == 3;
  switch (type & ~1) {
  case SLJIT_F_EQUAL: return u ? nondet_bool() : c == 1;
  case SLJIT_F_LESS: return u ? nondet_bool() : c == 0;
  case SLJIT_F_GREATER: return u ? nondet_bool() : c == 2;
  case SLJIT_UNORDERED: return u;
  case SLJIT_ORDERED_EQUAL: return c == 1;
  case SLJIT_ORDERED_LESS: return c == 0;
  case SLJIT_ORDERED_GREATER: return c == 2;
  case SLJIT_UNORDERED_OR_EQUAL: return u || c == 1;
  case SLJIT_UNORDERED_OR_LESS: return u || c == 0;
  case SLJIT_UNORDERED_OR_GREATER: return u || c == 2;
  default: __CPROVER_assert(0, "sljit: float condition within the modelled contract"); return nondet_bool();
  }
}
sljit_s32 sljit_emit_fop1(struct sljit_compiler *c, sljit_s32 op, sljit_s32 dst, sljit_sw dstw, sljit_s32 src, sljit_sw srcw) {
  G.nemit++;
  _Bool d = !(op & SLJIT_32);
  g_u8 n = d ? 8 : 4;
  g_u64 v;
  switch (op & 0xff) {
  case SLJIT_MOV_F64: g_fdst(dst, dstw, g_fsrc(src, srcw, n), n); break;
  case SLJIT_ABS_F64: v = g_fsrc(src, srcw, n); g_fdst(dst, dstw, d ? v & 0x7fffffffffffffffull : v & 0x7fffffff, n); break;
  case SLJIT_NEG_F64: v = g_fsrc(src, srcw, n); g_fdst(dst, dstw, d ? v ^ 0x8000000000000000ull : v ^ 0x80000000, n); break;
  case SLJIT_CMP_F64: {
    int vt = (op >> 10) & 0x3f;
    g_u64 a = g_fsrc(dst, dstw, n), b = g_fsrc(src, srcw, n);
    if (!G.skip) { G.zvalid = 0; G.vtype = vt; G.vflag = g_fcond(vt, d, a, b); }
    break; }
  case SLJIT_CONV_F64_FROM_F32: /* SLJIT_CONV_F32_FROM_F64 with SLJIT_32 */
    if (d) g_fdst(dst, dstw, __CPROVER_uninterpreted_conv(SLJIT_CONV_F64_FROM_F32, g_fsrc(src, srcw, 4)), 8);
    else g_fdst(dst, dstw, __CPROVER_uninterpreted_conv(SLJIT_CONV_F32_FROM_F64, g_fsrc(src, srcw, 8)), 4);
    break;
  case SLJIT_CONV_SW_FROM_F64: v = __CPROVER_uninterpreted_conv(op, g_fsrc(src, srcw, n)); g_dst(dst, dstw, v, 8); break;
  case SLJIT_CONV_S32_FROM_F64: v = (g_u32)__CPROVER_uninterpreted_conv(op, g_fsrc(src, srcw, n)); g_dst(dst, dstw, v, 4); break;
  case SLJIT_CONV_F64_FROM_SW: v = __CPROVER_uninterpreted_conv(op, g_src(src, srcw, 8)); g_fdst(dst, dstw, v, n); break;
  case SLJIT_CONV_F64_FROM_S32: v = __CPROVER_uninterpreted_conv(op, g_src(src, srcw, 4)); g_fdst(dst, dstw, v, n); break;
  default: __CPROVER_assert(0, "sljit: fop1 opcode within the modelled contract"); __CPROVER_assume(0);
  }
  return 0;
}
sljit_s32 sljit_emit_fop2(struct sljit_compiler *c, sljit_s32 op, sljit_s32 dst, sljit_sw dstw, sljit_s32 s1, sljit_sw s1w, sljit_s32 s2, sljit_sw s2w) {
  G.nemit++;
  _Bool d = !(op & SLJIT_32); g_u8 n = d ? 8 : 4; int k;
  g_u64 a = g_fsrc(s1, s1w, n), b = g_fsrc(s2, s2w, n);
  switch (op & 0xff) {
  case SLJIT_ADD_F64: k = GF_ADD; break;
  case SLJIT_SUB_F64: k = GF_SUB; break;
  case SLJIT_MUL_F64: k = GF_MUL; break;
  case SLJIT_DIV_F64: k = GF_DIV; break;
  default: __CPROVER_assert(0, "sljit: fop2 opcode within the modelled contract"); __CPROVER_assume(0);
  }
  g_fdst(dst, dstw, d ? g_f64op(k, a, b) : g_f32op(k, (g_u32)a, (g_u32)b), n);
  return 0;
}
/* ------------------------------------------------------------------ jumps */
#define G_JUMP(id) ((struct sljit_jump *)(sljit_uw)(0x1000 + 16 * (id)))
#define G_LABEL(id) ((struct sljit_label *)(sljit_uw)(0x9000 + 16 * (id)))
#define G_JUMPID(p) ((int)(((sljit_uw)(p) - 0x1000) / 16))
#define G_LABELID(p) ((int)(((sljit_uw)(p) - 0x9000) / 16))
static struct sljit_jump *g_jump(_Bool taken) {
  G.nemit++;
  G.njump++;
  if (!G.skip && taken) G.skip = G.njump;
  return G_JUMP(G.njump);
}
struct sljit_jump *sljit_emit_jump(struct sljit_compiler *c, sljit_s32 type) {
  type &= 0xff;
  if (type == SLJIT_JUMP) return g_jump(1);
  return g_jump(g_flag(type));
}
struct sljit_jump *sljit_emit_cmp(struct sljit_compiler *c, sljit_s32 type, sljit_s32 s1, sljit_sw s1w, sljit_s32 s2, sljit_sw s2w) {
  g_u8 n = (type & SLJIT_32) ? 4 : 8;
  g_u64 a = g_src(s1, s1w, n), b = g_src(s2, s2w, n); _Bool t;
  switch (type & 0xff) {
  case SLJIT_EQUAL: t = a == b; break;
  case SLJIT_NOT_EQUAL: t = a != b; break;
  default: __CPROVER_assert(0, "sljit: cmp type within the modelled contract"); t = nondet_bool();
  }
  g_flags_none();
  return g_jump(t);
}
struct sljit_jump *sljit_emit_fcmp(struct sljit_compiler *c, sljit_s32 type, sljit_s32 s1, sljit_sw s1w, sljit_s32 s2, sljit_sw s2w) {
  _Bool d = !(type & SLJIT_32); g_u8 n = d ? 8 : 4;
  int t = type & 0xff;
  _Bool f = g_fcond(t, d, g_fsrc(s1, s1w, n), g_fsrc(s2, s2w, n));
  g_flags_none();
  return g_jump((t & 1) ? !f : f);
}
struct sljit_label *sljit_emit_label(struct sljit_compiler *c) {
  G.nlabel++; G.lastlabel = G.nlabel; G.label_at = G.nemit;
  g_flags_none();
  return G_LABEL(G.nlabel);
}
void sljit_set_label(struct sljit_jump *j, struct sljit_label *l) {
  if (G.skip <= 0 || G.skip != G_JUMPID(j)) return;
  if (G_LABELID(l) == G.lastlabel && G.label_at == G.nemit) { G.skip = 0; G.zvalid = 0; G.vtype = -1; }
  else { G.skip = G_BACK; G.backlabel = G_LABELID(l); }
}
/* ------------------------------------------------------------------ calls, entry and return */
static void g_clobber(void) {
  if (G.skip) return;
  for (int i = 1; i <= 7; i++) G.R[i] = nondet_g_u64();
  for (int i = 1; i <= 15; i++) G.F[i] = nondet_g_u64();
  G.zvalid = 0; G.vtype = -1;
}
g_u64 __CPROVER_uninterpreted_help(g_u64 f, g_u64 u, g_u64 v);
static g_u64 g_help(g_u64 f, g_u64 u, g_u64 v) { return __CPROVER_uninterpreted_help(f, u, v); }
static g_u32 g_locsz;          /* size of the SP-relative local area */
#include "helpers.h"           /* generated on every run: runs the real body of a helper on its frame */
sljit_s32 sljit_emit_icall(struct sljit_compiler *c, sljit_s32 type, sljit_s32 arg_types, sljit_s32 src, sljit_sw srcw) {
  G.nemit++;
  _Bool tail = (type & SLJIT_CALL_RETURN) != 0;
  __CPROVER_assert((type & 0xff) == SLJIT_CALL, "sljit: call type within the modelled contract");
  if (!tail && src == SLJIT_IMM && !G_OPAQUE_HELPERS(srcw)) {
#if defined(G_HW) && (!defined(G_EXACT) || PART == 2)
    /* modular: the result of a helper is a function of its address and argument words; which function is
     * proved of the helper itself (the harness, PART 2) */
    g_u64 u = g_read(G.R[1], G_HW >= 2 ? 8 : 4), v = G_HW == 4 ? g_read(G.R[1] + 8, 8) : 0;
    if (!G.skip) { __CPROVER_assert(G.helper == 0, "ghost: one helper per instruction"); G.helper = (g_u64)srcw; }
    g_store(!G.skip, G.R[1], 8, g_help((g_u64)srcw, u, v));
    g_clobber();
    return 0;
#endif
    g_u32 buf[8], old[8];
    for (int i = 0; i < 8; i++) old[i] = buf[i] = (g_u32)g_read(G.R[1] + 4 * i, 4);
    if (!G.skip) g_run_helper(srcw, buf);
    g_store(!G.skip, G.R[1], 8, (g_u64)buf[0] | (g_u64)buf[1] << 32);
    for (int i = 2; i < 8; i++) __CPROVER_assert(G.skip || buf[i] == old[i], "helper: writes nothing but its result");
    g_clobber();
    return 0;
  }
  if (!G.skip) {
    G.ncall++; G.callfp = G.R[1];
    G.callimm = src == SLJIT_IMM ? (g_u64)srcw : 0;
    G.calltarget = src == SLJIT_IMM ? (g_u64)srcw : g_src(src, srcw, 8);
    if (tail) G.skip = G_TAIL;
  }
  if (!tail) { 
    __CPROVER_assert(G.skip || G_ISF(G.R[1]), "generated code: callee frame is in the operand stack area");
    if (!G.skip) { g_logf(1, 1, 0, (g_u16)G.R[1], 0, 0); g_logh(1, 1, 0, 0, 0); }
    g_clobber(); }
  return 0;
}
sljit_s32 sljit_emit_return_void(struct sljit_compiler *c) { G.nemit++; if (!G.skip) G.skip = G_RET; return 0; }
sljit_s32 sljit_emit_enter(struct sljit_compiler *c, sljit_s32 options, sljit_s32 arg_types, sljit_s32 scratches, sljit_s32 saveds, sljit_s32 local_size) {
  G.nemit++;
  __CPROVER_assert(local_size >= 0 && local_size <= 65536, "sljit: local size within the documented limit");
  __CPROVER_assert((saveds & 0xff) <= 6 && (saveds & 0xff) >= 1, "sljit: number of saved registers");
  G.nenter++; G.locsz_entered = local_size; g_locsz = local_size;
  return 0;
}
static struct sljit_compiler g_compiler;
struct sljit_compiler *sljit_create_compiler(void *d) { return &g_compiler; }
void sljit_free_compiler(struct sljit_compiler *c) {}
void *sljit_generate_code(struct sljit_compiler *c, sljit_s32 o, void *d) { return (void *)(sljit_uw)(0x500000 + 16 * ++G.nlabel); }
void sljit_free_code(void *code, void *d) {}
sljit_s32 sljit_get_register_index(sljit_s32 type, sljit_s32 reg) { return reg; }
#endif
