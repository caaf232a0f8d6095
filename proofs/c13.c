/* C13: point compression and expansion against the standard's formulas. */
#define BN_ABSTRACT
#define OWN_EC_POINT
#include "common.h"
#include "ossl_bn.h"
static bv nd_bv(void) { bv x; return x; }
/* points: affine coordinates */
static bv PX, PY; static _Bool PINF; static int NSETP; static bv SX, SY; _Bool __CPROVER_uninterpreted_oncurve(bv, bv);
static EC_POINT PT; static EC_GROUP G;
static int get_aff(const EC_GROUP *g, const EC_POINT *q, BIGNUM *x, BIGNUM *y) { CALLPRE(g == &G && q == &PT, "affine coordinates of the point"); LIBFAIL(0); if (PINF) return 0; if (x) { x->v = PX; x->neg = 0; } if (y) { y->v = PY; y->neg = 0; } return 1; }
int EC_POINT_get_affine_coordinates_GF2m(const EC_GROUP *g, const EC_POINT *q, BIGNUM *x, BIGNUM *y, BN_CTX *c) { return get_aff(g, q, x, y); }
int EC_POINT_get_affine_coordinates(const EC_GROUP *g, const EC_POINT *q, BIGNUM *x, BIGNUM *y, BN_CTX *c) { return get_aff(g, q, x, y); }
static int set_aff(const EC_GROUP *g, EC_POINT *q, const BIGNUM *x, const BIGNUM *y) { CALLPRE(g == &G && q == &PT, "set the point's coordinates"); LIBFAIL(0); if (!__CPROVER_uninterpreted_oncurve(x->v, y->v)) return 0; NSETP++; SX = x->v; SY = y->v; return 1; }
int EC_POINT_set_affine_coordinates_GF2m(const EC_GROUP *g, EC_POINT *q, const BIGNUM *x, const BIGNUM *y, BN_CTX *c) { return set_aff(g, q, x, y); }
int EC_POINT_set_affine_coordinates(const EC_GROUP *g, EC_POINT *q, const BIGNUM *x, const BIGNUM *y, BN_CTX *c) { return set_aff(g, q, x, y); }
/* bn_encode: contract proved in C12 */
static bv ENC_V; static unsigned char *ENC_P; static int ENC_LEN, NENC;
int bn_encode(const BIGNUM *bn, unsigned char *buf, int len)
{ CALLPRE(len > 0 && __CPROVER_w_ok(buf, len), "bn_encode: writable buffer"); NENC++; ENC_V = bn->v; ENC_P = buf; ENC_LEN = len; __CPROVER_havoc_slice(buf, len); return bn->v != 0 && bv_bits(bn->v) <= 8 * len; }
/* the trace's partial sums: TR(x, p, 0) = x, TR(x, p, i) = TR(x, p, i - 1)^2 + x */
bv __CPROVER_uninterpreted_partial(bv, bv, int);
#define TR __CPROVER_uninterpreted_partial
int __CPROVER_uninterpreted_trace(bv, bv);
static int TRACE(bv x, bv p) { int t = __CPROVER_uninterpreted_trace(x, p); __CPROVER_assume(t == 0 || t == 1 || t == -1); return t; }
static bv X0; static int D0;
#ifdef UNIT_TRACE
#undef DSTU_LOOP_HEAD_bn_trace
#define DSTU_LOOP_HEAD_bn_trace CUT(1 <= i && i <= bv_bits(p->v) - 2 && r->v == TR(X0, p->v, i - 1) && !r->neg && CTX_DEPTH == D0 + 1 && bn->v == X0, { i = nd_int(); r->v = nd_bv(); __CPROVER_assume(TR(X0, p->v, i) == GFADD(GFSQR(TR(X0, p->v, i - 1), p->v), X0)); })
#endif
#include "compress.c"
int bn_trace__contract(const BIGNUM *bn, const BIGNUM *p, BN_CTX *ctx)
{ CALLPRE(p->v == G.p && !bn->neg, "bn_trace: an element of the field"); LIBFAIL(-1); return TRACE(bn->v, p->v); }
void h_trace(void)
{
    LIB_MAY_FAIL = 0; LIVE = 0; BN_CTX *c = BN_CTX_new(); BN_CTX_start(c); D0 = CTX_DEPTH; BIGNUM x, p; x.v = X0 = nd_bv(); x.neg = 0; p.v = nd_bv(); p.neg = 0; int m = bv_bits(p.v) - 1; REQUIRES(m >= 2); int l0 = LIVE;
    __CPROVER_assume(TR(X0, p.v, 0) == X0); bv pv = p.v; LIB_MAY_FAIL = 1; LIB_FAILED = 0;
    int r = bn_trace(&x, &p, c); bv t = TR(X0, pv, m - 1);
    ENSURES(IMP(!LIB_FAILED, r == (t == 1 ? 1 : t == 0 ? 0 : -1)), "the trace is the sum of all conjugates");
    ENSURES(IMP(LIB_FAILED, r == -1), "a failure is reported, not taken for a trace");
    ENSURES(CTX_DEPTH == D0 && LIVE == l0, "the trace releases everything");
    FRAME(x.v == X0 && p.v == pv && !x.neg, "the trace leaves its arguments alone");
    REACH("trace"); if (r == 1) REACH("trace one");
}
static void mk(void)
{
    G.p = nd_bv(); G.a = nd_bv(); G.b = nd_bv(); G.degree = nd_int(); REQUIRES(3 <= G.degree && G.degree <= 661 && G.p > 1); PX = nd_bv(); PY = nd_bv(); PINF = nd_bool();
    LIB_MAY_FAIL = 1; LIB_FAILED = LIVE = CTX_DEPTH = POOL_N = POOL_DEAD = NENC = NSETP = NBIN = 0;
}
void h_compress(void)
{
    mk(); int fs = (G.degree + 7) / 8, len = nd_int(); REQUIRES(0 <= len && len <= 0x10000); u8 *o = malloc(len); REQUIRES(o != NULL); int j = nd_int(); REQUIRES(0 <= j && j < len || (len == 0 && j == 0)); u8 oj = len ? o[j] : 0;
    int r = dstu_point_compress(&G, &PT, o, len);
    ENSURES(r == 0 || r == 1, "compression answers 0 or 1");
    ENSURES(IMP(len < fs, r == 0 && IMP(len, o[j] == oj)), "a short buffer is refused untouched");
    int t = TRACE(GFMUL(PY, GFINV(PX, G.p), G.p), G.p); bv want = t == 1 ? SETBIT(PX, 0) : CLRBIT(PX, 0);
    ENSURES(IMP(r == 1, !LIB_FAILED && !PINF && len >= fs), "compression succeeds only for an affine point and without library failure");
    ENSURES(IMP(r == 1 && PX == 0, IMP(j < fs, o[j] == 0) && NENC == 0), "the point with x = 0 is compressed to zeros");
    ENSURES(IMP(r == 1 && PX != 0, (t == 0 || t == 1) && NENC == 1 && ENC_V == want && ENC_P == o && ENC_LEN == fs), "otherwise the result is x with its lowest bit replaced by the trace of y/x, in the field's length");
    ENSURES(IMP(!LIB_FAILED && !PINF && len >= fs && (PX == 0 || (t != -1 && want != 0 && bv_bits(want) <= 8 * fs)), r == 1), "every affine point is compressed");
    FRAME(IMP(j >= fs && len, o[j] == oj), "compression writes the field's length only");
    ENSURES(LIVE == 0 && CTX_DEPTH == 0, "compression releases everything");
    REACH("compress"); if (r == 1 && PX != 0) REACH("compressed"); if (r == 1 && PX == 0) REACH("compressed zero");
}
void h_expand(void)
{
    mk(); REQUIRES(G.a == 0 || G.a == 1); int fs = (G.degree + 7) / 8, len = nd_int(); REQUIRES(0 <= len && len <= 0x10000); u8 *in = malloc(len); REQUIRES(in != NULL);
    int r = dstu_point_expand(in, len, &G, &PT);
    ENSURES(r == 0 || r == 1, "expansion answers 0 or 1");
    ENSURES(IMP(len < fs, r == 0 && NSETP == 0 && NBIN == 0), "a short encoding is refused");
    _Bool got = NBIN == 1 && BIN[0].p == in && BIN[0].len == len; bv c = BIN[0].v, p = G.p;
    ENSURES(IMP(r == 1, got && !LIB_FAILED && NSETP == 1), "expansion succeeds only from the whole encoding and without library failure");
    bv x, y; _Bool ok;
    if (c == 0) { x = 0; y = __CPROVER_uninterpreted_gfsqrt(G.b, p); ok = 1; }
    else {
        int k = ISBIT(c, 0) ? 1 : 0; bv xc = CLRBIT(c, 0); int t1 = TRACE(xc, p); x = (t1 == 1) != (G.a == 1) ? SETBIT(xc, 0) : xc;
        bv x2 = GFSQR(x, p), w = GFMUL(x2, x, p); if (G.a == 1) w = GFADD(w, x2); w = GFMUL(GFADD(w, G.b), GFINV(x2, p), p);
        bv z = __CPROVER_uninterpreted_gfquad(w, p); int t2 = TRACE(z, p); if (t2 != k) z = GFADD(z, 1);
        y = GFMUL(z, x, p); ok = t1 != -1 && x2 != 0 && __CPROVER_uninterpreted_gfhasquad(w, p) && t2 != -1;
    }
    ENSURES(IMP(r == 1, ok && SX == x && SY == y), "the point is the one the standard's formulas give");
    ENSURES(IMP(got && len >= fs && !LIB_FAILED && ok && __CPROVER_uninterpreted_oncurve(x, y), r == 1), "every encoding of a point of the curve is expanded");
    ENSURES(IMP(len >= fs && !LIB_FAILED, got), "the whole encoding is read");
    ENSURES(LIVE == 0 && CTX_DEPTH == 0, "expansion releases everything");
    REACH("expand"); if (r == 1 && c != 0) REACH("expanded"); if (r == 1 && c == 0) REACH("expanded zero");
}
