/* C12: fixed-length number encoding and byte reversal (params.c). */
#define BN_ABSTRACT
#include "common.h"
#include "ossl_key.h"
static int J, Kb;                   /* an arbitrary position (and its mirror image) */
static const u8 *BUF; static u8 B0J, B0K; static int SZ; static u8 *DST;
/* The buffers' bytes are arbitrary to begin with, so a contract or an arbitrary
 * iteration only has to say what happens to the tracked positions. */
u8 __CPROVER_uninterpreted_numbyte(bv, int);
#define NUMBYTE __CPROVER_uninterpreted_numbyte
static u8 *OUT;
static void SETJ(u8 *to, int n, _Bool track, int at, u8 val) { if (OUT + J >= to && OUT + J < to + n) OUT[J] = nd_u8(); if (track) to[at] = val; }
void *memset__contract(void *d, int c, size_t n) { CALLPRE(n == 0 || __CPROVER_w_ok(d, n), "memset: writable bytes"); u8 *b = d; if (OUT + J >= b && OUT + J < b + n) OUT[J] = (u8)c; return d; }
/* BN_bn2bin: big-endian, exactly BN_num_bytes(bn) bytes; tracked at byte Kb from the low end */
int BN_bn2bin(const BIGNUM *b, unsigned char *to)
{ int n = (bv_bits(b->v) + 7) / 8; CALLPRE(n == 0 || __CPROVER_w_ok(to, n), "BN_bn2bin: room for the number"); if (n) SETJ(to, n, Kb < n, n - 1 - Kb, NUMBYTE(b->v, Kb)); return n; }
int BN_bn2binpad(const BIGNUM *b, unsigned char *to, int len)
{ int n = (bv_bits(b->v) + 7) / 8; if (len < n) return -1; CALLPRE(len == 0 || __CPROVER_w_ok(to, len), "BN_bn2binpad: room for the number"); if (len) SETJ(to, len, Kb >= 0 && Kb < len, len - 1 - Kb, Kb < n ? NUMBYTE(b->v, Kb) : 0); return len; }
#ifdef UNIT_REV
#undef DSTU_LOOP_HEAD_reverse_bytes
#define DONE(p) ((p) < i || (p) > size - 1 - i)
#define DSTU_LOOP_HEAD_reverse_bytes CUT(0 <= i && i < size / 2 && size == SZ && bytes[J] == (DONE(J) ? B0K : B0J) && bytes[Kb] == (DONE(Kb) ? B0J : B0K), { i = nd_int(); tmp = nd_u8(); bytes[J] = nd_u8(); bytes[Kb] = nd_u8(); })
#endif
#ifdef UNIT_REVC
#undef DSTU_LOOP_HEAD_reverse_bytes_copy
#define DSTU_LOOP_HEAD_reverse_bytes_copy CUT(0 <= i && i < size && size == SZ && from == BUF && to == DST && from[Kb] == B0K && IMP(J < i, to[J] == B0K), { i = nd_int(); to[J] = nd_u8(); })
#endif
#include "params.c"
#ifndef MAXN
#define MAXN 0x7fffffff
#endif
void h_rev(void)
{
    SZ = nd_int(); REQUIRES(1 <= SZ && SZ <= MAXN - 8); J = nd_int(); REQUIRES(0 <= J && J < SZ); Kb = SZ - 1 - J;
    u8 *b = malloc(SZ); REQUIRES(b != NULL); B0J = b[J]; B0K = b[Kb];
    reverse_bytes(b, SZ);
    ENSURES(b[J] == B0K && b[Kb] == B0J, "reversal puts every byte at its mirror position");
    REACH("reverse");
}
void h_revc(void)
{
    SZ = nd_int(); REQUIRES(1 <= SZ && SZ <= MAXN - 8); J = nd_int(); REQUIRES(0 <= J && J < SZ); Kb = SZ - 1 - J;
    u8 *s = malloc(SZ), *d = malloc(SZ); REQUIRES(s != NULL && d != NULL); BUF = s; DST = d; B0K = s[Kb];
    reverse_bytes_copy(d, s, SZ);
    ENSURES(d[J] == B0K, "the copy has every byte at its mirror position");
    FRAME(s[Kb] == B0K, "reversed copying leaves the source alone");
    REACH("reverse copy");
}
void h_rev0(void) { u8 x = nd_u8(), y = x; reverse_bytes(&x, nd_bool()); reverse_bytes_copy(&x, &y, 0); ENSURES(x == y, "reversing nothing or one byte changes nothing"); REACH("rev0"); }
void h_enc(void)
{
    LIB_MAY_FAIL = 1; int len = nd_int(); REQUIRES(1 <= len && len <= MAXN - 8); J = nd_int(); REQUIRES(0 <= J && J < len); Kb = len - 1 - J;
    BIGNUM b; b.neg = 0; u8 *o = malloc(len); REQUIRES(o != NULL); OUT = o; u8 oj = len ? o[J] : 0; bv v0 = b.v; int nb = bv_bits(v0); nb = (nb + 7) / 8;
    int r = bn_encode(&b, o, len);
    ENSURES(IMP(nb > len, r == 0 && IMP(len, o[J] == oj)), "a number that does not fit is refused and nothing written");
    ENSURES(IMP(nb <= len && v0 != 0, r > 0), "a number that fits is encoded");
    ENSURES(IMP(nb <= len && len, o[J] == (Kb < nb ? NUMBYTE(v0, Kb) : 0)), "the encoding is the number, big-endian, padded with zeros in front");
    FRAME(b.v == v0, "encoding leaves the number alone");
    REACH("encode"); if (r > 0) REACH("encoded"); if (nb > len) REACH("too long");
}
