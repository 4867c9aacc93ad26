/* Hoare triple for one numeric instruction OPC (0xfcNN: prefixed), from an arbitrary well-formed state. */
#ifndef PART
#define PART 1          /* 1: the generated code; 2: the runtime helper it calls, if any, against the same specification */
#endif
#define G_HW g_hw
static const int g_hw;
#include "jit.h"
#ifndef NWIT
#define NWIT 1
#endif
#ifndef KW
#define KW K_ALL
#endif
#ifndef KA
#define KA K_ALL
#endif
#ifndef KB
#define KB K_ALL
#endif
#define I WVT_I32
#define L WVT_I64
#define F WVT_F32
#define D WVT_F64
#if OPC == 0x45
#define SIG(x) x(1,I,0,I)
#elif OPC >= 0x46 && OPC <= 0x4f
#define SIG(x) x(2,I,I,I)
#elif OPC == 0x50
#define SIG(x) x(1,L,0,I)
#elif OPC >= 0x51 && OPC <= 0x5a
#define SIG(x) x(2,L,L,I)
#elif OPC >= 0x5b && OPC <= 0x60
#define SIG(x) x(2,F,F,I)
#elif OPC >= 0x61 && OPC <= 0x66
#define SIG(x) x(2,D,D,I)
#elif OPC >= 0x67 && OPC <= 0x69
#define SIG(x) x(1,I,0,I)
#elif OPC >= 0x6a && OPC <= 0x78
#define SIG(x) x(2,I,I,I)
#elif OPC >= 0x79 && OPC <= 0x7b
#define SIG(x) x(1,L,0,L)
#elif OPC >= 0x7c && OPC <= 0x8a
#define SIG(x) x(2,L,L,L)
#elif OPC >= 0x8b && OPC <= 0x91
#define SIG(x) x(1,F,0,F)
#elif OPC >= 0x92 && OPC <= 0x98
#define SIG(x) x(2,F,F,F)
#elif OPC >= 0x99 && OPC <= 0x9f
#define SIG(x) x(1,D,0,D)
#elif OPC >= 0xa0 && OPC <= 0xa6
#define SIG(x) x(2,D,D,D)
#elif OPC == 0xa7
#define SIG(x) x(1,L,0,I)
#elif OPC == 0xa8 || OPC == 0xa9 || OPC == 0xfc00 || OPC == 0xfc01 || OPC == 0xbc
#define SIG(x) x(1,F,0,I)
#elif OPC == 0xaa || OPC == 0xab || OPC == 0xfc02 || OPC == 0xfc03
#define SIG(x) x(1,D,0,I)
#elif OPC == 0xac || OPC == 0xad
#define SIG(x) x(1,I,0,L)
#elif OPC == 0xae || OPC == 0xaf || OPC == 0xfc04 || OPC == 0xfc05
#define SIG(x) x(1,F,0,L)
#elif OPC == 0xb0 || OPC == 0xb1 || OPC == 0xfc06 || OPC == 0xfc07 || OPC == 0xbd
#define SIG(x) x(1,D,0,L)
#elif OPC == 0xb2 || OPC == 0xb3 || OPC == 0xbe
#define SIG(x) x(1,I,0,F)
#elif OPC == 0xb4 || OPC == 0xb5
#define SIG(x) x(1,L,0,F)
#elif OPC == 0xb6
#define SIG(x) x(1,D,0,F)
#elif OPC == 0xb7 || OPC == 0xb8
#define SIG(x) x(1,I,0,D)
#elif OPC == 0xb9 || OPC == 0xba || OPC == 0xbf
#define SIG(x) x(1,L,0,D)
#elif OPC == 0xbb
#define SIG(x) x(1,F,0,D)
#elif OPC == 0xc0 || OPC == 0xc1
#define SIG(x) x(1,I,0,I)
#elif OPC >= 0xc2 && OPC <= 0xc4
#define SIG(x) x(1,L,0,L)
#else
#error opcode
#endif
#define S_N(n,a,b,r) n
#define S_A(n,a,b,r) a
#define S_B(n,a,b,r) b
#define S_R(n,a,b,r) r
#define NARG SIG(S_N)
#define TA SIG(S_A)
#define TB SIG(S_B)
#define TR SIG(S_R)
/* argument words of a runtime helper with this signature */
static const int g_hw = NARG * (TA == WVT_I32 || TA == WVT_F32 ? 1 : 2);
/* flags may carry the result of these, and may carry the operand of i32.eqz */
#define RESCMP (OPC >= 0x45 && OPC <= 0x66)
#define ARGCMP (OPC == 0x45)

/* libm, by its IEEE 754 name; the value is uninterpreted (trusted) */
enum { LM_CEIL = 101, LM_FLOOR, LM_TRUNC, LM_NEAREST, LM_SQRT };
static g_u32 g_bits32(float f) { union { float f; g_u32 u; } x; x.f = f; return x.u; }
static g_u64 g_bits64(double f) { union { double f; g_u64 u; } x; x.f = f; return x.u; }
static float g_f32(g_u32 u) { union { float f; g_u32 u; } x; x.u = u; return x.f; }
static double g_f64(g_u64 u) { union { double f; g_u64 u; } x; x.u = u; return x.f; }
static g_u32 g_lm32(int k, g_u32 a) { return (g_u32)__CPROVER_uninterpreted_conv(k, a); }
static g_u64 g_lm64(int k, g_u64 a) { return __CPROVER_uninterpreted_conv(k, a); }
#define LM(n32,n64,k) float n32(float x) { return g_f32(g_lm32(k, g_bits32(x))); } double n64(double x) { return g_f64(g_lm64(k + 50, g_bits64(x))); }
LM(ceilf, ceil, LM_CEIL) LM(floorf, floor, LM_FLOOR) LM(truncf, trunc, LM_TRUNC) LM(sqrtf, sqrt, LM_SQRT)
LM(rintf, rint, LM_NEAREST)
float nearbyintf(float x) { return rintf(x); } double nearbyint(double x) { return rint(x); }
float roundevenf(float x) { return rintf(x); } double roundeven(double x) { return rint(x); }

/* domain: the instruction does not trap (wasm); saturating conversions are covered where they do not saturate */
static _Bool domain(g_u64 a, g_u64 b) {
  switch (OPC) {
  case 0x6d: return (g_u32)b != 0 && !((g_u32)a == 0x80000000u && (g_u32)b == 0xffffffffu);
  case 0x6e: case 0x6f: case 0x70: return (g_u32)b != 0;
  case 0x7f: return b != 0 && !(a == 0x8000000000000000ull && b == 0xffffffffffffffffull);
  case 0x80: case 0x81: case 0x82: return b != 0;
#if OPC == 0xa8 || OPC == 0xfc00
  default: { float f = g_f32(a); return f >= -2147483648.0f && f < 2147483648.0f; }
#elif OPC == 0xa9 || OPC == 0xfc01
  default: { float f = g_f32(a); return f > -1.0f && f < 4294967296.0f; }
#elif OPC == 0xaa || OPC == 0xfc02
  default: { double f = g_f64(a); return f > -2147483649.0 && f < 2147483648.0; }
#elif OPC == 0xab || OPC == 0xfc03
  default: { double f = g_f64(a); return f > -1.0 && f < 4294967296.0; }
#elif OPC == 0xae || OPC == 0xfc04
  default: { float f = g_f32(a); return f >= -9223372036854775808.0f && f < 9223372036854775808.0f; }
#elif OPC == 0xaf || OPC == 0xfc05
  default: { float f = g_f32(a); return f > -1.0f && f < 18446744073709551616.0f; }
#elif OPC == 0xb0 || OPC == 0xfc06
  default: { double f = g_f64(a); return f >= -9223372036854775808.0 && f < 9223372036854775808.0; }
#elif OPC == 0xb1 || OPC == 0xfc07
  default: { double f = g_f64(a); return f > -1.0 && f < 18446744073709551616.0; }
#endif
  }
  return 1;
}
static int g_pop(g_u64 x) { int c = 0; for (int i = 0; i < 64; i++) c += (x >> i) & 1; return c; }
/* is r the result of the instruction on a, b? (bit patterns, truncated to the operand widths) */
static _Bool spec(g_u64 a, g_u64 b, g_u64 r) {
  g_u32 a4 = a, b4 = b; g_s32 sa = a, sb = b; g_s64 la = a, lb = b;
#if OPC == 0x45
  return r == (a4 == 0);
#elif OPC == 0x46
  return r == (a4 == b4);
#elif OPC == 0x47
  return r == (a4 != b4);
#elif OPC == 0x48
  return r == g_lt(1, 1, a4, b4);
#elif OPC == 0x49
  return r == g_lt(1, 0, a4, b4);
#elif OPC == 0x4a
  return r == g_lt(1, 1, b4, a4);
#elif OPC == 0x4b
  return r == g_lt(1, 0, b4, a4);
#elif OPC == 0x4c
  return r == !g_lt(1, 1, b4, a4);
#elif OPC == 0x4d
  return r == !g_lt(1, 0, b4, a4);
#elif OPC == 0x4e
  return r == !g_lt(1, 1, a4, b4);
#elif OPC == 0x4f
  return r == !g_lt(1, 0, a4, b4);
#elif OPC == 0x50
  return r == (a == 0);
#elif OPC == 0x51
  return r == (a == b);
#elif OPC == 0x52
  return r == (a != b);
#elif OPC == 0x53
  return r == g_lt(0, 1, a, b);
#elif OPC == 0x54
  return r == g_lt(0, 0, a, b);
#elif OPC == 0x55
  return r == g_lt(0, 1, b, a);
#elif OPC == 0x56
  return r == g_lt(0, 0, b, a);
#elif OPC == 0x57
  return r == !g_lt(0, 1, b, a);
#elif OPC == 0x58
  return r == !g_lt(0, 0, b, a);
#elif OPC == 0x59
  return r == !g_lt(0, 1, a, b);
#elif OPC == 0x5a
  return r == !g_lt(0, 0, a, b);
#elif OPC == 0x5b || OPC == 0x61
  return r == (g_fcmp(OPC == 0x61, a, b) == 1);
#elif OPC == 0x5c || OPC == 0x62
  return r == (g_fcmp(OPC == 0x62, a, b) != 1);
#elif OPC == 0x5d || OPC == 0x63
  return r == (g_fcmp(OPC == 0x63, a, b) == 0);
#elif OPC == 0x5e || OPC == 0x64
  return r == (g_fcmp(OPC == 0x64, a, b) == 2);
#elif OPC == 0x5f || OPC == 0x65
  return r == (g_fcmp(OPC == 0x65, a, b) <= 1);
#elif OPC == 0x60 || OPC == 0x66
  return r == (g_fcmp(OPC == 0x66, a, b) == 1 || g_fcmp(OPC == 0x66, a, b) == 2);
#elif OPC == 0x67
  return r <= 32 && (r == 32 ? a4 == 0 : (a4 >> (31 - r)) == 1);
#elif OPC == 0x79
  return r <= 64 && (r == 64 ? a == 0 : (a >> (63 - r)) == 1);
#elif OPC == 0x68
  return r <= 32 && (r == 32 ? a4 == 0 : ((a4 >> r) & 1) == 1 && (g_u32)(a4 << (31 - r)) == 0x80000000u);
#elif OPC == 0x7a
  return r <= 64 && (r == 64 ? a == 0 : ((a >> r) & 1) == 1 && (g_u64)(a << (63 - r)) == 0x8000000000000000ull);
#elif OPC == 0x69
  return r == g_pop(a4);
#elif OPC == 0x7b
  return r == g_pop(a);
#elif OPC == 0x6a
  return r == g_arith(1, GA_ADD, a4, b4) || r == g_arith(1, GA_ADD, b4, a4);
#elif OPC == 0x6b
  return r == g_arith(1, GA_SUB, a4, b4);
#elif OPC == 0x6c
  return r == g_arith(1, GA_MUL, a4, b4) || r == g_arith(1, GA_MUL, b4, a4);
#elif OPC == 0x6d
  return r == __CPROVER_uninterpreted_div32(GD_DIVS, a4, b4);
#elif OPC == 0x6e
  return r == __CPROVER_uninterpreted_div32(GD_DIVU, a4, b4);
#elif OPC == 0x6f
  return b4 == 0xffffffffu ? r == 0 || (a4 != 0x80000000u && r == __CPROVER_uninterpreted_div32(GD_REMS, a4, b4)) || r == __CPROVER_uninterpreted_div32(GD_REMS, 0, b4)
    : r == __CPROVER_uninterpreted_div32(GD_REMS, a4, b4);
#elif OPC == 0x70
  return r == __CPROVER_uninterpreted_div32(GD_REMU, a4, b4);
#elif OPC == 0x71
  return r == g_arith(1, GA_AND, a4, b4) || r == g_arith(1, GA_AND, b4, a4);
#elif OPC == 0x72
  return r == g_arith(1, GA_OR, a4, b4) || r == g_arith(1, GA_OR, b4, a4);
#elif OPC == 0x73
  return r == g_arith(1, GA_XOR, a4, b4) || r == g_arith(1, GA_XOR, b4, a4);
#elif OPC == 0x74
  return r == g_arith(1, GA_SHL, a4, b4);
#elif OPC == 0x75
  return r == g_arith(1, GA_ASHR, a4, b4);
#elif OPC == 0x76
  return r == g_arith(1, GA_LSHR, a4, b4);
#elif OPC == 0x77
  return r == g_arith_exact(1, GA_ROTL, a4, b4);
#elif OPC == 0x78
  return r == g_arith_exact(1, GA_ROTR, a4, b4);
#elif OPC == 0x7c
  return r == g_arith(0, GA_ADD, a, b) || r == g_arith(0, GA_ADD, b, a);
#elif OPC == 0x7d
  return r == g_arith(0, GA_SUB, a, b);
#elif OPC == 0x7e
  return r == g_arith(0, GA_MUL, a, b) || r == g_arith(0, GA_MUL, b, a);
#elif OPC == 0x7f
  return r == __CPROVER_uninterpreted_div64(GD_DIVS, a, b);
#elif OPC == 0x80
  return r == __CPROVER_uninterpreted_div64(GD_DIVU, a, b);
#elif OPC == 0x81
  return b == ~0ull ? r == 0 || (a != 1ull << 63 && r == __CPROVER_uninterpreted_div64(GD_REMS, a, b)) || r == __CPROVER_uninterpreted_div64(GD_REMS, 0, b)
    : r == __CPROVER_uninterpreted_div64(GD_REMS, a, b);
#elif OPC == 0x82
  return r == __CPROVER_uninterpreted_div64(GD_REMU, a, b);
#elif OPC == 0x83
  return r == g_arith(0, GA_AND, a, b) || r == g_arith(0, GA_AND, b, a);
#elif OPC == 0x84
  return r == g_arith(0, GA_OR, a, b) || r == g_arith(0, GA_OR, b, a);
#elif OPC == 0x85
  return r == g_arith(0, GA_XOR, a, b) || r == g_arith(0, GA_XOR, b, a);
#elif OPC == 0x86
  return r == g_arith(0, GA_SHL, a, b);
#elif OPC == 0x87
  return r == g_arith(0, GA_ASHR, a, b);
#elif OPC == 0x88
  return r == g_arith(0, GA_LSHR, a, b);
#elif OPC == 0x89
  return r == g_arith_exact(0, GA_ROTL, a, b);
#elif OPC == 0x8a
  return r == g_arith_exact(0, GA_ROTR, a, b);
#elif OPC == 0x8b
  return r == (a4 & 0x7fffffff);
#elif OPC == 0x8c
  return r == (a4 ^ 0x80000000u);
#elif OPC >= 0x8d && OPC <= 0x91
  return r == g_lm32(LM_CEIL + OPC - 0x8d, a4);
#elif OPC >= 0x92 && OPC <= 0x95
  return r == g_f32op(GF_ADD + OPC - 0x92, a4, b4) || ((OPC == 0x92 || OPC == 0x94) && r == g_f32op(GF_ADD + OPC - 0x92, b4, a4));
#elif OPC == 0x96 || OPC == 0x97
  if (g_nan32(a4) || g_nan32(b4)) return g_nan32(r);
  if ((a4 | b4) << 1 == 0) return r == (OPC == 0x96 ? (a4 | b4) : (a4 & b4));
  return r == ((OPC == 0x96 ? g_flt(0, b4, a4) : g_flt(0, a4, b4)) ? b4 : a4);
#elif OPC == 0x98
  return r == ((a4 & 0x7fffffff) | (b4 & 0x80000000u));
#elif OPC == 0x99
  return r == (a & 0x7fffffffffffffffull);
#elif OPC == 0x9a
  return r == (a ^ 0x8000000000000000ull);
#elif OPC >= 0x9b && OPC <= 0x9f
  return r == g_lm64(LM_CEIL + 50 + OPC - 0x9b, a);
#elif OPC >= 0xa0 && OPC <= 0xa3
  return r == g_f64op(GF_ADD + OPC - 0xa0, a, b) || ((OPC == 0xa0 || OPC == 0xa2) && r == g_f64op(GF_ADD + OPC - 0xa0, b, a));
#elif OPC == 0xa4 || OPC == 0xa5
  if (g_nan64(a) || g_nan64(b)) return g_nan64(r);
  if ((a | b) << 1 == 0) return r == (OPC == 0xa4 ? (a | b) : (a & b));
  return r == ((OPC == 0xa4 ? g_flt(1, b, a) : g_flt(1, a, b)) ? b : a);
#elif OPC == 0xa6
  return r == ((a & 0x7fffffffffffffffull) | (b & 0x8000000000000000ull));
#elif OPC == 0xa7
  return r == a4;
#elif OPC == 0xac
  return r == (g_u64)(g_s64)sa;
#elif OPC == 0xad
  return r == a4;
#elif OPC >= 0xbc && OPC <= 0xbf
  return r == a;
#elif OPC == 0xc0
  return r == (g_u32)(g_s32)(g_s8)a;
#elif OPC == 0xc1
  return r == (g_u32)(g_s32)(g_s16)a;
#elif OPC == 0xc2
  return r == (g_u64)(g_s64)(g_s8)a;
#elif OPC == 0xc3
  return r == (g_u64)(g_s64)(g_s16)a;
#elif OPC == 0xc4
  return r == (g_u64)(g_s64)(g_s32)a;
/* conversions: the value of the sljit instruction of that meaning (trusted), or of the C conversion */
#elif OPC == 0xa8 || OPC == 0xfc00
  return r == (g_u32)__CPROVER_uninterpreted_conv(SLJIT_CONV_S32_FROM_F32, a) || r == (g_u32)(g_s32)g_f32(a);
#elif OPC == 0xaa || OPC == 0xfc02
  return r == (g_u32)__CPROVER_uninterpreted_conv(SLJIT_CONV_S32_FROM_F64, a) || r == (g_u32)(g_s32)g_f64(a);
#elif OPC == 0xa9 || OPC == 0xfc01
  return r == (g_u32)g_f32(a);
#elif OPC == 0xab || OPC == 0xfc03
  return r == (g_u32)g_f64(a);
#elif OPC == 0xae || OPC == 0xfc04
  return r == __CPROVER_uninterpreted_conv(SLJIT_CONV_SW_FROM_F32, a) || r == (g_u64)(g_s64)g_f32(a);
#elif OPC == 0xb0 || OPC == 0xfc06
  return r == __CPROVER_uninterpreted_conv(SLJIT_CONV_SW_FROM_F64, a) || r == (g_u64)(g_s64)g_f64(a);
#elif OPC == 0xaf || OPC == 0xfc05
  return r == (g_u64)g_f32(a);
#elif OPC == 0xb1 || OPC == 0xfc07
  return r == (g_u64)g_f64(a);
#elif OPC == 0xb2
  return r == (g_u32)__CPROVER_uninterpreted_conv(SLJIT_CONV_F32_FROM_S32, a) || r == g_bits32((float)sa);
#elif OPC == 0xb3
  return r == g_bits32((float)a4);
#elif OPC == 0xb4
  return r == (g_u32)__CPROVER_uninterpreted_conv(SLJIT_CONV_F32_FROM_SW, a) || r == g_bits32((float)la);
#elif OPC == 0xb5
  return r == g_bits32((float)a);
#elif OPC == 0xb6
  return r == (g_u32)__CPROVER_uninterpreted_conv(SLJIT_CONV_F32_FROM_F64, a);
#elif OPC == 0xb7
  return r == __CPROVER_uninterpreted_conv(SLJIT_CONV_F64_FROM_S32, a) || r == g_bits64((double)sa);
#elif OPC == 0xb8
  return r == g_bits64((double)a4);
#elif OPC == 0xb9
  return r == __CPROVER_uninterpreted_conv(SLJIT_CONV_F64_FROM_SW, a) || r == g_bits64((double)la);
#elif OPC == 0xba
  return r == g_bits64((double)a);
#elif OPC == 0xbb
  return r == __CPROVER_uninterpreted_conv(SLJIT_CONV_F64_FROM_F32, a);
#endif
}
static g_u8 opbytes[16];
static char *gen(ModuleCompiler *m) {
#if OPC >= 0xfc00
  opbytes[0] = OPC & 0xff; m->bytes = opbytes; m->byte_count = 16;
  return opgen_GenMiscOp(m, 0xfc);
#else
  m->bytes = opbytes; m->byte_count = 16;
  return opgen_GenNumOp(m, OPC);
#endif
}
static g_u64 pack0(g_u64 a, g_u64 b) { return NARG == 1 ? (g_hw == 1 ? (g_u32)a : a) : g_hw == 2 ? (g_u32)a | b << 32 : a; }
static g_u64 pack1(g_u64 a, g_u64 b) { return g_hw == 4 ? b : 0; }
#if PART == 1
void h_main(void) {
  j_init();
  ModuleCompiler *m = &GM;
  int sp = NWIT + NARG - 1;
  m->sp = sp;
  for (int i = 0; i < NWIT; i++) j_entry(i, j_type(), KW);
#if NARG == 2
  j_entry(sp - 1, TA, KA); j_entry(sp, TB, KB);
  g_u64 a = g_den(&m->stack[sp - 1]), b = g_den(&m->stack[sp]);
#else
  j_entry(sp, TA, KA);
#if ARGCMP
  if (nondet_bool()) j_cmp(sp);
#endif
  g_u64 a = g_den(&m->stack[sp]), b = 0;
#endif
  __CPROVER_assume(domain(a, b));
  j_snapshot(NWIT);
  char *err = gen(m);
  __CPROVER_assert(err == NULL, "instruction is accepted");
  int rs = NWIT;
  j_check_stack(rs, RESCMP);
  __CPROVER_assert(m->stack[rs].wasm_type == TR, "result type");
  g_u64 r = g_den(&m->stack[rs]);
#ifndef G_EXACT
  if (G.helper) __CPROVER_assert(r == g_trunc(g_help(G.helper, pack0(a, b), pack1(a, b)), g_size(TR)), "result value is that of the runtime helper applied to the operands");
  else
#endif
  __CPROVER_assert(spec(a, b, r), "result value");
  j_check_wit(); j_check_locals(); j_check_mem();
  __CPROVER_assert(0, "cover: end of the triple");
}
#else
/* the helper that the generated code calls, on an arbitrary frame */
void h_main(void) {
  g_u64 a = nondet_g_u64(), b = nondet_g_u64();
  a = g_trunc(a, g_size(TA)); b = NARG == 1 ? 0 : g_trunc(b, g_size(TB));
  __CPROVER_assume(domain(a, b));
  j_init();
  ModuleCompiler *m = &GM;
  m->first_stackvalue_offset = 0; pwart_gcfg.stack_flags = 0;
  m->sp = -1;
  stackvalue_Push(m, TA); m->stack[0].val.op = SLJIT_MEM1(SLJIT_S0); m->stack[0].val.opw = m->stack[0].frame_offset;
  g_logf(1, 0, 0, m->stack[0].frame_offset, g_size(TA), a);
#if NARG == 2
  stackvalue_Push(m, TB); m->stack[1].val.op = SLJIT_MEM1(SLJIT_S0); m->stack[1].val.opw = m->stack[1].frame_offset;
  g_logf(1, 0, 0, m->stack[1].frame_offset, g_size(TB), b);
#endif
  gen(m);
  __CPROVER_assert(0, "cover: end of the triple");
  if (!G.helper) return;
  static g_u32 buf[8]; g_u32 old[8];
  for (int i = 0; i < 8; i++) old[i] = buf[i] = nondet_g_u32();
  g_u64 w0 = pack0(a, b), w1 = pack1(a, b);
  buf[0] = w0; if (g_hw >= 2) buf[1] = w0 >> 32; if (g_hw == 4) { buf[2] = w1; buf[3] = w1 >> 32; }
  g_run_helper((sljit_sw)G.helper, buf);
  g_u64 r = g_size(TR) == 4 ? buf[0] : buf[0] | (g_u64)buf[1] << 32;
  __CPROVER_assert(spec(a, b, r), "result value of the runtime helper");
  for (int i = 4; i < 8; i++) __CPROVER_assert(buf[i] == old[i], "runtime helper writes nothing but its result");
}
#endif
