/* C06: GOST 34.311 hash: step function, streaming, finalisation. */
#include "common.h"
#include "gost/gost89.h"
#include "gost/gosthash.h"
typedef unsigned __CPROVER_bitvector[256] v256;

static gost_ctx CIPH; static gost_hash_ctx HC;
static u64v __CPROVER_uninterpreted_E(u64v k0, u64v k1, u64v k2, u64v k3, u64v blk);

#ifdef UNIT_STEP
/* block encryption under an explicit key: proved in C01 */
void gost_enc_with_key(gost_ctx *c, byte *key, byte *in, byte *out)
{
    CALLPRE(c == &CIPH && __CPROVER_r_ok(key, 32) && __CPROVER_r_ok(in, 8) && __CPROVER_w_ok(out, 8), "gost_enc_with_key: the hash's cipher context, 32-byte key, 8-byte blocks");
    u64v r = __CPROVER_uninterpreted_E(LE64B(key), LE64B(key + 8), LE64B(key + 16), LE64B(key + 24), LE64B(in));
    for (int i = 0; i < 8; i++) out[i] = r >> (8 * i);
}
#endif
static v256 V256(const u8 *p) { v256 r = 0; for (int i = 31; i >= 0; i--) r = (r << 8) | p[i]; return r; }

/* ghost log of step calls */
static u64v N; static v256 LAST, SUM; static _Bool P_OK; static u64v P; static u8 PV;
static gost_hash_ctx *GH;
#define NSEQ 4
static v256 SEQ[NSEQ]; static int NS;
static const u8 *B0; static size_t L0; static ghosthash_len LEN0; static u64v N_AT0;
#ifdef SUMONLY
#define PINV 1
#else
#define PINV IMP(P < 32 * N, P_OK)
#endif
#ifdef NO_SUM
#define SUMEQ(c) 1
#else
#define SUMEQ(c) (V256((c)->S) == SUM)
#endif
#ifdef UNIT_CUT
#undef DSTU_LOOP_HEAD_hash_block
#define DSTU_LOOP_HEAD_hash_block CUT( \
   length >= 32 && length <= L0 && (u64v)(L0 - length) % 32 == CUT_OFF % 32 && L0 - length >= CUT_OFF && __CPROVER_same_object(block, B0) && block == B0 + (L0 - length) && \
   N == N_AT0 + (L0 - length - CUT_OFF) / 32 && V256(ctx->H) == LAST && SUMEQ(ctx) && ctx->len == LEN0 + 32 * (ghosthash_len)N && ctx->left == 0 && PINV && ctx->cipher_ctx == &CIPH, \
   length = nd_size(); __CPROVER_assume(length >= 32 && length <= L0 - CUT_OFF && (L0 - length) % 32 == CUT_OFF % 32); block = B0 + (L0 - length); \
   N = nd_u64(); LAST = nd_256(); SUM = nd_256(); P_OK = nd_bool(); __CPROVER_havoc_object(ctx); ctx->cipher_ctx = &CIPH)
#endif
static size_t CUT_OFF;
static v256 nd_256(void) { v256 x; return x; }
#include "gost/gosthash.c"
/* memcpy into the pending block: what it does to the one tracked byte (any byte: P is arbitrary) */
void *memcpy__contract(void *d, const void *s, size_t n)
{
    CALLPRE(n == 0 || (__CPROVER_r_ok(s, n) && __CPROVER_w_ok(d, n)), "memcpy: readable source, writable destination");
    CALLPRE(__CPROVER_same_object(d, &HC) && (u8 *)d >= HC.remainder && (u8 *)d + n <= HC.remainder + 32, "hash update copies only into the pending block");
#ifdef SUMONLY
    __CPROVER_havoc_slice(HC.remainder, 32); return d;
#endif
    size_t o = (u8 *)d - HC.remainder, t = P % 32;
    u8 v = HC.remainder[t]; if (t >= o && t < o + n) v = ((const u8 *)s)[t - o];
    __CPROVER_havoc_slice(HC.remainder, 32);
    CALLPOST(HC.remainder[t] == v);
    return d;
}
int hash_step__contract(gost_ctx *c, byte *H, const byte *M)
{
    CALLPRE(c == &CIPH && __CPROVER_w_ok(H, 32) && __CPROVER_r_ok(M, 32) && (!__CPROVER_same_object(H, M) || __CPROVER_POINTER_OFFSET(H) + 32 <= __CPROVER_POINTER_OFFSET(M) || __CPROVER_POINTER_OFFSET(M) + 32 <= __CPROVER_POINTER_OFFSET(H)), "hash step: the hash's cipher context, 32-byte H and M");
    __CPROVER_assert(V256(H) == LAST, "post: hash: each step continues from the previous chaining value");
#ifndef SUMONLY
    if (N == P / 32) P_OK = M[P % 32] == PV;
#endif
#ifndef NO_SUM
    v256 m = V256(M); SUM += m;
    if (NS < NSEQ) SEQ[NS] = m;
#endif
    NS++;
    N++; LAST = nd_256();
    for (int i = 0; i < 32; i++) H[i] = (u8)(LAST >> (8 * i));
    return 1;
}

/* ---------------- the step function against the standard ---------------- */
#ifdef UNIT_STEP
static void sA(u8 *y) { u8 t[8]; for (int i = 0; i < 8; i++) t[i] = y[i] ^ y[8 + i]; for (int i = 0; i < 24; i++) y[i] = y[i + 8]; for (int i = 0; i < 8; i++) y[24 + i] = t[i]; }
static void spsi(u8 *g) { u8 a = g[0]^g[2]^g[4]^g[6]^g[24]^g[30], b = g[1]^g[3]^g[5]^g[7]^g[25]^g[31]; for (int i = 0; i < 30; i++) g[i] = g[i + 2]; g[30] = a; g[31] = b; }
static const u8 C3[32] = {0x00,0xff,0x00,0xff,0x00,0xff,0x00,0xff,0xff,0x00,0xff,0x00,0xff,0x00,0xff,0x00,
                          0x00,0xff,0xff,0x00,0xff,0x00,0x00,0xff,0xff,0x00,0x00,0x00,0xff,0xff,0x00,0xff};
void h_step(void)
{
    u8 IN_H[32], IN_M[32], H[32], U[32], V[32], W[32], K[32], S[32]; unsigned q = nd_uint(); REQUIRES(q < 32);
    for (int i = 0; i < 32; i++) { H[i] = IN_H[i]; U[i] = IN_H[i]; V[i] = IN_M[i]; }
    u8 m = IN_M[q];
    hash_step(&CIPH, H, IN_M);
    for (int i = 0; i < 4; i++) {
        if (i) { sA(U); if (i == 2) for (int j = 0; j < 32; j++) U[j] ^= C3[j]; sA(V); sA(V); }
        for (int j = 0; j < 32; j++) W[j] = U[j] ^ V[j];
        for (int a = 0; a < 4; a++) for (int k = 0; k < 8; k++) K[a + 4 * k] = W[8 * a + k];
        u64v r = __CPROVER_uninterpreted_E(LE64B(K), LE64B(K + 8), LE64B(K + 16), LE64B(K + 24), LE64B(IN_H + 8 * i));
        for (int j = 0; j < 8; j++) S[8 * i + j] = r >> (8 * j);
    }
    for (int i = 0; i < 12; i++) spsi(S);
    for (int j = 0; j < 32; j++) S[j] ^= IN_M[j];
    spsi(S);
    for (int j = 0; j < 32; j++) S[j] ^= IN_H[j];
    for (int i = 0; i < 61; i++) spsi(S);
    ENSURES(V256(H) == V256(S), "hash step: key generation, enciphering and mixing as in the standard");
    FRAME(IN_M[q] == m, "hash step leaves the message block alone");
    REACH("step");
}
#endif

static void hash_state(void)       /* arbitrary reachable state: whole blocks hashed, fewer than 32 bytes pending */
{
    __CPROVER_havoc_object(&HC); HC.cipher_ctx = &CIPH;
    REQUIRES(0 <= HC.left && HC.left < 32);
    REQUIRES(0 <= HC.len && HC.len <= 0x0fffffffffffffffLL && HC.len % 32 == 0);
    LAST = V256(HC.H); SUM = V256(HC.S); N = 0; NS = 0; P_OK = 0; GH = &HC; LEN0 = HC.len; P = nd_u64(); PV = nd_u8();
}
void h_update(void)
{
    size_t n = nd_size(); REQUIRES(n <= 0x00ffffffffffULL);
#ifdef BOUND
    REQUIRES(n <= BOUND);
#endif
    hash_state();
#ifdef LEFT0
    REQUIRES(HC.left == 0);
#endif
#ifdef LEFTPOS
    REQUIRES(HC.left > 0);
#endif
    u8 *d = malloc(n); int left0 = HC.left;
    REQUIRES(P < left0 + n);
    PV = P < (u64v)left0 ? HC.remainder[P] : d[P - left0];
    B0 = d; L0 = n; CUT_OFF = left0 ? 32 - left0 : 0; N_AT0 = left0 ? 1 : 0;
    int r = hash_block(&HC, d, n);
    u64v total = left0 + n;
    ENSURES(r == 1, "hash update reports success");
    ENSURES(SUMEQ(&HC), "hash update: the control sum is the sum of the blocks mod 2^256");
#ifndef SUMONLY
    ENSURES(N == total / 32, "hash update: every complete 32-byte block is hashed exactly once");
    ENSURES(IMP(P / 32 < N, P_OK), "hash update: byte p of the stream is byte p mod 32 of block p div 32");
    ENSURES(V256(HC.H) == LAST, "hash update: the chaining value is kept");
    ENSURES(HC.len == LEN0 + 32 * (ghosthash_len)N, "hash update: the length counts the hashed bytes");
    ENSURES(HC.left == (int)(total % 32), "hash update: the incomplete block is pending");
    ENSURES(IMP(P / 32 >= N, HC.remainder[P % 32] == PV), "hash update: the pending bytes are the end of the stream");
#endif
    FRAME(HC.cipher_ctx == &CIPH, "hash update keeps its cipher context");
    REACH("hash update");
}
void h_update_empty(void)
{
    hash_state();
    u8 d[1]; int left0 = HC.left; unsigned q = nd_uint(); REQUIRES(q < 32); P = q; u8 rq = HC.remainder[q]; v256 s = SUM, l = LAST;
    hash_block(&HC, d, 0);
    ENSURES(N == 0 && HC.left == left0 && HC.len == LEN0 && V256(HC.H) == l && V256(HC.S) == s && IMP(q < left0, HC.remainder[q] == rq), "an empty hash update changes nothing");
    REACH("hash update empty");
}
void h_finish(void)
{
    hash_state();
    u8 out[32]; int left = HC.left, k = 0; u64v total = (u64v)HC.len + left; v256 rem = 0, want_len = (v256)(total * 8);
    REQUIRES(P < 32); PV = nd_u8();
    for (int i = 31; i >= 0; i--) rem = (rem << 8) | (i < left ? HC.remainder[i] : 0);
    v256 s = SUM + (left ? rem : 0);
    int r = finish_hash(&HC, out);
    ENSURES(r == 1, "hash finalisation reports success");
    if (left || total == 0) { ENSURES(SEQ[0] == rem, "hash finalisation: the last block is zero padded (and an empty message is one zero block)"); k = 1; }
    ENSURES(NS == k + 2, "hash finalisation: the pending block, the length and the control sum, nothing else");
    ENSURES(SEQ[k] == want_len, "hash finalisation: the message length in bits, little endian, 256 bits");
    ENSURES(SEQ[k + 1] == s, "hash finalisation: the control sum is hashed last");
    ENSURES(V256(out) == LAST, "hash finalisation: the digest is the final chaining value");
    REACH("finish");
}
void h_start(void)
{
    __CPROVER_havoc_object(&HC); HC.cipher_ctx = &CIPH;
    int r = start_hash(&HC);
    ENSURES(r == 1 && V256(HC.H) == 0 && V256(HC.S) == 0 && HC.len == 0 && HC.left == 0, "start_hash: zero chaining value, zero sum, nothing pending");
    HC.cipher_ctx = NULL;
    ENSURES(start_hash(&HC) == 0, "start_hash refuses a context without a cipher");
    REACH("start");
}
#ifdef UNIT_INIT
static const gost_subst_block *GI_B; static gost_ctx *GI_C;
void gost_init(gost_ctx *c, const gost_subst_block *b) { CALLPRE(__CPROVER_w_ok(c, sizeof *c), "gost_init: writable context"); GI_C = c; GI_B = b; }
void h_init(void)
{
    __CPROVER_havoc_object(&HC); gost_subst_block b; const gost_subst_block *bp = nd_bool() ? &b : NULL;
    int r = init_gost_hash_ctx(&HC, bp);
    ENSURES(IMP(r, HC.cipher_ctx && GI_C == HC.cipher_ctx && GI_B == bp && V256(HC.H) == 0 && V256(HC.S) == 0 && HC.len == 0 && HC.left == 0), "init_gost_hash_ctx: fresh state with the given S-boxes");
    ENSURES(r || !HC.cipher_ctx, "init_gost_hash_ctx fails only when memory runs out");
    done_gost_hash_ctx(&HC);
    REACH("init");
}
#endif
