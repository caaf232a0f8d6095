/* C08/C09: signature verification and generation against the contracts of libcrypto's arithmetic. */
#include "common.h"
static u8 HASH[64]; static u8 BIN_BYTE; static int JB;
/* the tracked byte of the number: byte JB from its low end */
#define BIN_VALUE(p, n, val) do { if (JB < (n)) BIN_BYTE = (p)[(n) - 1 - JB]; } while (0)
#include "ossl_bn.h"
void *CRYPTO_malloc(size_t n, const char *f, int l) { LIBFAIL(NULL); LIVE++; void *p = malloc(n); __CPROVER_assume(p != NULL); return p; }
void CRYPTO_free(void *p, const char *f, int l) { if (p) { LIVE--; free(p); } }
void CRYPTO_clear_free(void *p, size_t n, const char *f, int l) { CRYPTO_free(p, f, l); }
/* bn_encode: contract proved in C12 */
static struct { bv v; unsigned char *p; int len; } ENC[4]; static int NENC; static bv N0;
int bn_encode(const BIGNUM *bn, unsigned char *buf, int len)
{ CALLPRE(len > 0 && __CPROVER_w_ok(buf, len), "bn_encode: writable buffer"); LIBFAIL(0); if (bn->v == 0) return 0; if (N0 && bn->v < N0) __CPROVER_assume(bv_bits(bn->v) <= bv_bits(N0)); /* fact about bit lengths, abstracted here */ if (NENC < 4) { ENC[NENC].v = bn->v; ENC[NENC].p = buf; ENC[NENC].len = len; } NENC++;
  return bn->v != 0 && bv_bits(bn->v) <= 8 * len; }
static bv ORIG; static int HSIZE; /* JB: an arbitrary bit or byte position, fixed before the call */
#define BIT(v, j) ((int)(((v) >> (j)) & 1))
#ifdef UNIT_TRUNC
static bv POOL0;
#undef DSTU_LOOP_HEAD_bn_truncate_bits
#define DSTU_LOOP_HEAD_bn_truncate_bits CUT(num_bits > bitsize && num_bits == bv_bits(bn->v) && BIT(bn->v, JB) == BIT(ORIG, JB) && JB < bitsize && !bn->neg, bn->v = nd_bv(); num_bits = nd_int())
#endif
static bv nd_bv(void) { bv x; return x; }
static bv H0, P0; static BIGNUM *BH, *BN_, *BP;
#ifdef UNIT_SIGN
static int HTF_BUSY;
#undef DSTU_LOOP_HEAD_dstu_do_sign
#define SIGN_INV (h->v == H0 && n->v == N0 && p->v == P0 && !h->neg && !n->neg && !p->neg && CTX_DEPTH == 1 && LIVE == 2 && NENC == 0 && !LIB_FAILED)
#define DSTU_LOOP_HEAD_dstu_do_sign CUT(SIGN_INV, { int k_ = POOL_N; __CPROVER_havoc_object(POOL); eG->id = nd_u64(); RAND_V = nd_bv(); RAND_N = nd_bv(); NRAND = nd_int(); })
#endif
#define BITS_OF(x) bv_bits(x)
#include "sign.c"
/* contracts of the static helpers */
int bn_truncate_bits__contract(BIGNUM *bn, int bitsize)
{ CALLPRE(bitsize > 0 && !bn->neg, "bn_truncate_bits: non-negative number"); bv x = LOWBITS(bn->v, bitsize); CALLPOST(BITS_OF(x) <= bitsize); bn->v = x; LIBFAIL(0); return 1; }
static int H_CALLS;
int hash_to_field__contract(const unsigned char *hash, int hash_len, BIGNUM *fe, int fieldsize)
{ CALLPRE(hash == HASH && hash_len == HSIZE && fe, "hash_to_field: the hash to be signed"); H_CALLS++; bv x; __CPROVER_assume(x != 0); fe->v = LOWBITS(x, fieldsize); __CPROVER_assume(fe->v != 0); fe->neg = 0; H0 = fe->v; LIBFAIL(0); return 1; }

void h_trunc(void)
{
    BIGNUM b; ORIG = b.v; b.neg = 0; int bits = nd_int(); REQUIRES(bits > 0 && bits < BNW); LIB_MAY_FAIL = 1; JB = nd_int(); REQUIRES(0 <= JB && JB < bits);
    int r = bn_truncate_bits(&b, bits);
    ENSURES(r == 1 || LIB_FAILED, "truncation succeeds unless the library fails");
    ENSURES(IMP(r, BIT(b.v, JB) == BIT(ORIG, JB)), "truncation keeps every low bit");
    ENSURES(IMP(r, (b.v >> bits) == 0), "truncation clears every other bit");
    REACH("truncate");
}
void h_hash(void)
{
    u8 *hash; int len = nd_int(), deg = nd_int(); REQUIRES(0 <= len && len <= 64 && 1 <= deg && deg < BNBITS); LIB_MAY_FAIL = 1; LIVE = LIB_FAILED = NBIN = 0;
    hash = malloc(len); REQUIRES(hash != NULL); JB = nd_int(); REQUIRES(0 <= JB && JB < len || (JB == 0 && len == 0)); u8 hb = len ? hash[JB] : 0;
    BIGNUM fe; fe.neg = 0;
    int r = hash_to_field(hash, len, &fe, deg);
    bv want = LOWBITS(BIN[0].v, deg);
    ENSURES(r == 1 || LIB_FAILED, "hash conversion succeeds unless the library fails");
    ENSURES(IMP(r, NBIN == 1 && BIN[0].len == len), "hash conversion reads the whole hash");
    ENSURES(IMP(r && len, BIN_BYTE == hb), "hash conversion takes the hash as a little-endian number");
    ENSURES(IMP(r, fe.v == (want == 0 ? (bv)1 : want)), "hash conversion truncates to the field, and zero becomes one");
    ENSURES(IMP(r, fe.v != 0), "hash conversion never yields zero");
    ENSURES(LIVE == 0, "hash conversion releases its buffer");
    FRAME(!len || hash[JB] == hb, "hash conversion leaves the hash alone");
    REACH("hash"); if (r == 1) REACH("hash done");
}
static EC_GROUP G; static EC_KEY K; static EC_POINT Q; static BIGNUM D;
static void mk(void)
{
    NBIN = 0;
    G.order = nd_bv(); G.p = nd_bv(); G.degree = nd_int(); G.field_type = nd_int(); Q.id = nd_u64(); D.v = nd_bv(); D.neg = 0;
    REQUIRES(3 <= G.degree && G.degree <= 661 && G.order > 3 && bv_bits(G.order) > 1 && bv_bits(G.order) <= 664);
    K.group = nd_bool() ? &G : NULL; K.pub = nd_bool() ? &Q : NULL; K.priv = nd_bool() ? &D : NULL;
    LIB_MAY_FAIL = 1; LIB_FAILED = LIVE = CTX_DEPTH = POOL_N = POOL_DEAD = NENC = NRAND = H_CALLS = 0; HSIZE = nd_int(); REQUIRES(0 <= HSIZE && HSIZE <= 64);
    N0 = G.order; P0 = G.p;
}
static bv trunc_order(bv x) { int nb = bv_bits(G.order); return LOWBITS(x, nb - 1); }
void h_verify(void)
{
    mk(); size_t sl = nd_size(); REQUIRES(sl % 2 == 0 && sl < 0x7ffffff0); u8 *sig = malloc(sl); REQUIRES(sig != NULL);
    int r = dstu_do_verify(&K, HASH, HSIZE, sig, sl);
    _Bool setup = K.group && K.pub && G.field_type == NID_X9_62_characteristic_two_field;
    /* the signature's halves */
    bv s = BIN[0].v, rr_ = BIN[1].v; _Bool got = NBIN == 2 && BIN[0].p == sig && BIN[0].len == sl / 2 && BIN[1].p == sig + sl / 2 && BIN[1].len == sl / 2;
    u64v R = __CPROVER_uninterpreted_lincomb(s, Q.id, rr_);
    _Bool valid = setup && got && s != 0 && rr_ != 0 && s < G.order && rr_ < G.order && !__CPROVER_uninterpreted_isinf(R)
        && trunc_order(GFMUL(H0, __CPROVER_uninterpreted_xcoord(R), G.p)) == rr_;
    ENSURES(r == 0 || r == 1, "verify answers 0 or 1");
    ENSURES(IMP(r == 1, valid && H_CALLS == 1), "verify accepts only r, s in range satisfying the verification equation");
    ENSURES(IMP(setup && got && valid && !LIB_FAILED, r == 1), "verify accepts every signature satisfying the verification equation");
    ENSURES(IMP(setup && !LIB_FAILED, got), "verify reads s from the first half and r from the second");
    ENSURES(IMP(r == 1, !LIB_FAILED), "verify never accepts after a library failure");
    ENSURES(LIVE == 0 && CTX_DEPTH == 0, "verify releases everything");
    FRAME(G.order == N0 && G.p == P0 && K.pub != (EC_POINT *)&G, "verify leaves the key alone");
    REACH("verify"); if (r == 1) REACH("verify accepts"); if (!r && !LIB_FAILED && setup) REACH("verify rejects");
}
void h_sign(void)
{
    mk(); int fs = (bv_bits(G.order) + 7) / 8; u8 *sig = malloc(2 * fs); REQUIRES(sig != NULL); bv d0 = D.v;
    int r = dstu_do_sign(&K, HASH, HSIZE, sig);
    ENSURES(r == 0 || r == 1, "sign answers 0 or 1");
    _Bool setup = K.group && K.priv && G.field_type == NID_X9_62_characteristic_two_field;
    ENSURES(IMP(r == 1, setup && !LIB_FAILED), "sign succeeds only with a private key on a binary curve and without library failure");
    ENSURES(IMP(setup && !LIB_FAILED && !__CPROVER_uninterpreted_isinf(__CPROVER_uninterpreted_mulg(RAND_V)), r == 1), "sign succeeds whenever the key can sign, no library call fails and the ephemeral point is not infinity");
    bv s = ENC[0].v, rr_ = ENC[1].v, e = RAND_V; u64v R = __CPROVER_uninterpreted_mulg(e);
    ENSURES(IMP(r == 1, NENC == 2 && ENC[0].p == sig && ENC[0].len == fs && ENC[1].p == sig + fs && ENC[1].len == fs), "sign writes s then r, each padded to the order's byte length");
    ENSURES(IMP(r == 1, RAND_N == G.order && !__CPROVER_uninterpreted_isinf(R)), "sign draws its ephemeral key from the whole range of the order");
    CALLPOST(IMP(bv_bits(rr_) < bv_bits(G.order), rr_ < G.order));           /* fact about bit lengths, abstracted here */
    ENSURES(IMP(r == 1, __CPROVER_uninterpreted_xcoord(R) != 0 && rr_ != 0 && s != 0 && s < G.order && rr_ < G.order), "sign: r and s are in range and non-zero");
    ENSURES(IMP(r == 1, rr_ == trunc_order(GFMUL(H0, __CPROVER_uninterpreted_xcoord(R), G.p)) && H_CALLS == 1), "sign: r is the truncated product of the hash and the ephemeral point's x");
    ENSURES(IMP(r == 1, s == MODADD(MODMUL(D.v, rr_, G.order), e, G.order)), "sign: s = d r + e modulo the order");
    ENSURES(LIVE == 0 && CTX_DEPTH == 0, "sign releases everything");
    FRAME(D.v == d0 && G.order == N0 && G.p == P0, "sign leaves the key alone");
    REACH("sign"); if (r == 1) REACH("sign succeeds");
}
