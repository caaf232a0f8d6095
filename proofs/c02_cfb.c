/* C02: gost_enc_cfb / gost_dec_cfb, any number of blocks, in place or not,
 * checked against the contract of gostcrypt (proved in C01). */
#include "common.h"
#include "gost/gost89.h"
#include "cfb_contract.h"

#define EKEY(c, i) ((u32)((c)->key[i] + (c)->mask[i]))
static u32 EK0[8];
static _Bool keys_same(const gost_ctx *c)
{ return EKEY(c,0)==EK0[0] && EKEY(c,1)==EK0[1] && EKEY(c,2)==EK0[2] && EKEY(c,3)==EK0[3] && EKEY(c,4)==EK0[4] && EKEY(c,5)==EK0[5] && EKEY(c,6)==EK0[6] && EKEY(c,7)==EK0[7]; }
static u64v G_IN, G_PREV;
static byte *P_iv;
static u64v IV0;
#define O8(p, n) ((p) + 8 * (size_t)(n))

#ifdef UNIT_CUT
#undef DSTU_LOOP_HEAD_gost_enc_cfb
#define DSTU_LOOP_HEAD_gost_enc_cfb CUT( \
  0 <= i && i < blocks && in == O8(clear, i) && out == O8(cipher, i) && \
  LE64B(cur_iv) == (i == 0 ? IV0 : LE64B(O8(cipher, i - 1))) && \
  IMP(K < i, CFB_BLOCK_POST(K == 0 ? IV0 : LE64B(O8(cipher, K - 1)), G_IN, LE64B(O8(cipher, K)))) && \
  IMP(K >= i, LE64B(O8(clear, K)) == G_IN) && keys_same(ctx), \
  i = nd_int(); __CPROVER_assume(0 <= i && i < blocks); in = O8(clear, i); out = O8(cipher, i); j = nd_int(); \
  __CPROVER_havoc_object(cur_iv); __CPROVER_havoc_object(gamma); __CPROVER_havoc_object(cipher))
#undef DSTU_LOOP_HEAD_gost_dec_cfb
#define DSTU_LOOP_HEAD_gost_dec_cfb CUT( \
  0 <= i && i < blocks && in == O8(cipher, i) && out == O8(clear, i) && \
  IMP(i == K, LE64B(cur_iv) == G_PREV) && IMP(K >= i, LE64B(O8(cipher, K)) == G_IN) && \
  IMP(K >= 1 && K - 1 >= i, LE64B(O8(cipher, K - 1)) == G_PREV) && \
  IMP(K < i, CFB_BLOCK_POST(G_PREV, G_IN, LE64B(O8(clear, K)))) && keys_same(ctx), \
  i = nd_int(); __CPROVER_assume(0 <= i && i < blocks); in = O8(cipher, i); out = O8(clear, i); j = nd_int(); \
  __CPROVER_havoc_object(cur_iv); __CPROVER_havoc_object(gamma); __CPROVER_havoc_object(clear))
#endif

int RAND_priv_bytes(unsigned char *buf, int num) { return nd_int(); }
void OPENSSL_cleanse(void *p, size_t n) { memset(p, 0, n); }
#include "gost/gost89.c"

void gostcrypt__contract(gost_ctx *c, const byte *in, byte *out)
{
    CALLPRE(__CPROVER_r_ok(c, sizeof *c) && __CPROVER_r_ok(in, 8) && __CPROVER_w_ok(out, 8), "gostcrypt: context and 8-byte blocks");
    u64v r = nd_u64();
    CALLPOST(IMP(keys_same(c) && LE64B(in) == X0, r == Y0));
    for (int i = 0; i < 8; i++) out[i] = r >> (8 * i);
}

static gost_ctx CTX, C0;
static void cfb(int dec)
{
    int n = nd_int(); gost_ctx *c = &CTX; u8 IN_iv[8]; u8 *in, *out;
    __CPROVER_havoc_object(&CTX); C0 = CTX;
    X0 = nd_u64(); Y0 = nd_u64(); K = nd_size();
    REQUIRES(n > 0 && K < (size_t)n);
#ifdef BOUND
    REQUIRES(n <= BOUND);
#endif
    for (int i = 0; i < 8; i++) EK0[i] = EKEY(c, i);
    in = malloc(8 * (size_t)n);
#ifdef INPLACE
    out = in;
#else
    out = malloc(8 * (size_t)n);
#endif
    IV0 = LE64B(IN_iv);
    G_IN = LE64B(O8(in, K)); G_PREV = K == 0 ? IV0 : LE64B(O8(in, K - 1));
    size_t b = nd_size(); unsigned t = nd_uint(), ki = nd_uint(); REQUIRES(b < 8 * (size_t)n && t < 256 && ki < 8); u8 in_b = in[b];
    if (dec) gost_dec_cfb(c, IN_iv, in, out, n); else gost_enc_cfb(c, IN_iv, in, out, n);
    if (dec) ENSURES(CFB_BLOCK_POST(G_PREV, G_IN, LE64B(O8(out, K))), "CFB decryption: plaintext block k is ciphertext block k xor E(ciphertext block k-1)");
    else ENSURES(CFB_BLOCK_POST(K == 0 ? IV0 : LE64B(O8(out, K - 1)), G_IN, LE64B(O8(out, K))), "CFB encryption: ciphertext block k is plaintext block k xor E(ciphertext block k-1)");
#ifndef INPLACE
    FRAME(in[b] == in_b, "CFB leaves its input alone");
#endif
    FRAME(LE64B(IN_iv) == IV0, "CFB leaves the IV buffer alone");
    FRAME(c->key[ki] == C0.key[ki] && c->mask[ki] == C0.mask[ki] && c->k87[t] == C0.k87[t] && c->k65[t] == C0.k65[t] && c->k43[t] == C0.k43[t] && c->k21[t] == C0.k21[t], "CFB leaves the context alone");
    REACH("cfb");
}
void h_enc_cfb(void) { cfb(0); }
void h_dec_cfb(void) { cfb(1); }
