/* C14: the standard curves (params.c). */
#define BN_ABSTRACT
#define SETWORD_NOFAIL   /* a failing BN_one leaves A=0: the base point is then off the curve and refused (native allocation faults) */
#include "common.h"
static int J; static u8 BINB[8]; static int NB_;
#define BIN_VALUE(p, n, val) do { CALLPRE(NB_ < 8, "model: at most 8 numbers are read"); BINB[NB_] = J < (n) ? (p)[J] : 0; (val) = 1000 + NB_; NB_++; } while (0)
#include "ossl_key.h"
#include "curves_golden.h"
static bv nd_bv(void) { bv x; return x; }
/* polynomials by their exponents */
bv __CPROVER_uninterpreted_poly(u64v);
static bv POLYV(const int *p)
{ u64v k = 1; int i; for (i = 0; i < 6; i++) { if (p[i] == -1) break; CALLPRE(p[i] >= 0 && p[i] < 1024 && IMP(i > 0, p[i] < p[i - 1]), "BN_GF2m_arr2poly: descending exponents"); k = k << 10 | (u64v)p[i]; } CALLPRE(i < 6, "BN_GF2m_arr2poly: terminated exponents"); bv v = __CPROVER_uninterpreted_poly(k); __CPROVER_assume(v > 3 && bv_bits(v) == p[0] + 1); return v; }
int BN_GF2m_arr2poly(const int p[], BIGNUM *a) { LIBFAIL(0); a->v = POLYV(p); a->neg = 0; return 1; }
#include "params.c"
static bv TAG(int i) { return 5000 + i; }
/* contract of group_from_named_curve as its callers see it: the i-th curve */
static EC_GROUP STD[10];
EC_GROUP *group_from_named_curve__contract(int i)
{ CALLPRE(i >= 0 && i < 10, "group_from_named_curve: curve number"); LIBFAIL(NULL); EC_GROUP *g = grp_new(); *g = STD[i]; return g; }
static void mkstd(void) { for (int i = 0; i < 10; i++) { STD[i].field_type = NID_X9_62_characteristic_two_field; STD[i].degree = GOLDEN[i].poly[0]; STD[i].order = nd_bv(); STD[i].p = nd_bv(); STD[i].a = nd_bv(); STD[i].b = nd_bv(); STD[i].gen = nd_u64(); STD[i].cof = 1; } }
void h_table(void)
{
    int i = nd_int(); REQUIRES(0 <= i && i < 10); ENSURES(sizeof(dstu_curves) / sizeof(dstu_curves[0]) == 10, "there are ten standard curves");
    int k = nd_int(); REQUIRES(0 <= k && k < 6); int stop = 6; for (int t = 5; t >= 0; t--) if (GOLDEN[i].poly[t] == -1) stop = t;
    ENSURES(dstu_curves[i].nid == GOLDEN[i].nid, "each curve has its identifier");
    ENSURES(IMP(k <= stop, dstu_curves[i].poly[k] == GOLDEN[i].poly[k]), "each curve has its field polynomial");
    int n = (GOLDEN[i].poly[0] + 7) / 8, j = nd_int(); REQUIRES(0 <= j && j < 1 + 4 * n);
    ENSURES((dstu_curves[i].data[j] != 0) == (GOLDEN[i].data[j] != 0) && IMP(j > 0, dstu_curves[i].data[j] == GOLDEN[i].data[j]), "each curve has the standard's coefficients, order and base point");
    ENSURES(DEFAULT_CURVE == 6, "the default curve is the 257-bit one");
    REACH("table");
}
void h_group(void)
{
#ifndef CURVE
#define CURVE 0
#endif
    int i = CURVE; int n = (GOLDEN[i].poly[0] + 7) / 8; J = nd_int(); REQUIRES(0 <= J && J < n);
    LIB_MAY_FAIL = 1; LIB_FAILED = LIVE = CTX_DEPTH = POOL_N = POOL_DEAD = NBIN = NB_ = 0;
    for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) __CPROVER_assume(__CPROVER_uninterpreted_oncurve(1000 + x, 1000 + y));   /* base points are on the curve: checked natively */
    EC_GROUP *g = group_from_named_curve(i);
    ENSURES(IMP(!LIB_FAILED, g != NULL) && IMP(LIB_FAILED, g == NULL), "the group is made unless the library fails");
    if (g) {
        ENSURES(g->p == POLYV(GOLDEN[i].poly), "the group has the standard's field polynomial");
        ENSURES(g->a == (GOLDEN[i].data[0] ? 1 : 0), "the group has the standard's coefficient A");
        int kb = (int)g->b - 1000, kn = (int)g->order - 1000;
#define IS(k, off) ((k) >= 0 && (k) < 4 && (k) < NB_ && BIN[k].len == n && BINB[k] == GOLDEN[i].data[1 + (off) * n + J])
        ENSURES(IS(kb, 0), "the group has the standard's coefficient B"); ENSURES(IS(kn, 1), "the group has the standard's order");
        int kx = -1, ky = -1; for (int t = 0; t < 4; t++) for (int u = 0; u < 4; u++) if (g->gen == __CPROVER_uninterpreted_affine(1000 + t, 1000 + u) && IS(t, 2) && IS(u, 3)) { kx = t; ky = u; }
        ENSURES(kx >= 0 && ky >= 0, "the group has the standard's base point"); ENSURES(g->cof == 1 && g->field_type == NID_X9_62_characteristic_two_field, "the group is a binary curve with cofactor recorded as one");
    }
    ENSURES(LIVE == (g ? 1 : 0) && CTX_DEPTH == 0, "making the group leaks nothing");
    REACH("group"); if (g) REACH("group made");
}
void h_nid(void)
{
    mkstd(); LIB_MAY_FAIL = 1; LIB_FAILED = LIVE = 0; int nid = nd_int(), w = -1; for (int i = 0; i < 10; i++) if (GOLDEN[i].nid == nid) w = i;
    EC_GROUP *g = group_from_nid(nid);
    ENSURES(IMP(w < 0, g == NULL) && IMP(w >= 0 && !LIB_FAILED, g != NULL), "a group is found exactly for the ten identifiers"); ENSURES(IMP(g, w >= 0 && grp_eq(g, &STD[w >= 0 ? w : 0])), "the group found is the one identified");
    ENSURES(LIVE == (g ? 1 : 0), "looking up a group leaks nothing"); REACH("nid"); if (g) REACH("nid found");
}
void h_rnid(void)
{
    mkstd(); LIB_MAY_FAIL = 1; LIB_FAILED = LIVE = 0; EC_GROUP G; __CPROVER_havoc_object(&G); REQUIRES(G.degree > 0); int w = -1; for (int i = 0; i < 10; i++) if (grp_eq(&G, &STD[i])) w = i; EC_GROUP G0 = G;
    int nid = curve_nid_from_group(&G);
    ENSURES(IMP(!LIB_FAILED, nid == (w < 0 ? NID_undef : GOLDEN[w].nid)), "a group is named exactly if it equals a standard curve in every parameter"); ENSURES(IMP(LIB_FAILED, nid == NID_undef), "a library failure names nothing");
    ENSURES(LIVE == 0, "naming a group leaks nothing"); FRAME(grp_eq(&G, &G0), "naming a group leaves it alone"); REACH("rnid"); if (nid != NID_undef) REACH("rnid named");
}
