/* LEB128 decoder against its mathematical definition.  BITS: width of the type; SGN: signed.  For every valid encoding: at
 * most ceil(BITS/7) bytes, unused bits of a full-length encoding are zero (unsigned) or copies of the sign bit (signed). */
#include "pwart.c"
typedef unsigned long long u64; typedef unsigned __int128 u128;
unsigned char nondet_u8(void); unsigned nondet_u32(void); _Bool nondet_bool(void);
#ifndef ARG
#define ARG BITS
#endif
#define MAXB ((BITS + 6) / 7)
int h_main(void) {
  unsigned char b[16]; unsigned pos0 = nondet_u32() & 3, pos = pos0, k = nondet_u32();
  for (int i = 0; i < 16; i++) b[i] = nondet_u8();
  __CPROVER_assume(k >= 1 && k <= MAXB);
  for (int i = 0; i < MAXB; i++) { if (i + 1 < k) __CPROVER_assume(b[pos0 + i] & 0x80); if (i + 1 == k) __CPROVER_assume(!(b[pos0 + i] & 0x80)); }
  /* the value: sum of the 7-bit groups, two's complement over 7k bits if signed */
  u128 v = 0;
  for (int i = 0; i < MAXB; i++) if (i < k) v |= (u128)(b[pos0 + i] & 0x7f) << (7 * i);
  if (SGN && (b[pos0 + k - 1] & 0x40)) v |= ~(u128)0 << (7 * k);
  if (SGN) __CPROVER_assume((v >> (BITS - 1)) == 0 || (v >> (BITS - 1)) == (~(u128)0 >> (BITS - 1)));
  else __CPROVER_assume((v >> BITS) == 0);
  u64 r = SGN ? read_LEB_signed(b, &pos, ARG) : read_LEB(b, &pos, ARG);
  u64 mask = BITS == 64 ? ~0ull : (1ull << BITS % 64) - 1;
  __CPROVER_assert((r & mask) == ((u64)v & mask), "decoded value is the value the encoding denotes");
  if (!SGN) __CPROVER_assert(r == (u64)v, "an unsigned value has no bits beyond its width");
  __CPROVER_assert(pos == pos0 + k, "decoding consumes exactly the bytes of the encoding");
  __CPROVER_assert(0, "cover: end");
  return 0;
}
