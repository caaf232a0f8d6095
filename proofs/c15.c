/* C15: algorithm parameters to and from keys (key.c). */
#define BN_ABSTRACT
#define KEY_REAL
#include "common.h"
/* CBMC loses pointers stored in the second member of a union: asn1.h's two choice unions become structs for the
 * proofs, whose unused member stays NULL (reading the wrong member is then still an error). */
#include <openssl/asn1.h>
#include <openssl/bn.h>
#include <openssl/ec.h>
#include <openssl/evp.h>
#include <openssl/objects.h>
#define union struct
#include "asn1.h"
#undef union
static int J; static int K;           /* an arbitrary byte position of the strings, and of the S-box */
#define TRACKED J
static u8 BINB[8]; static int NB_;
#define BIN_VALUE(p, n, val) do { CALLPRE(NB_ < 8, "model: at most 8 numbers are read"); BINB[NB_] = J < (n) ? (p)[J] : 0; (val) = 1000 + NB_; NB_++; } while (0)
#include "key_contract.h"
#include "ossl_dstuasn1.h"
static bv nd_bv(void) { bv x; return x; }
unsigned char default_sbox[64];
/* contracts: is_default_sbox (C05), curve_nid_from_group (C14), bn_encode, reverse_bytes* (C12), point functions (C13) */
static int NISDEF, ISDEF;
int is_default_sbox(const unsigned char *s) { CALLPRE(__CPROVER_r_ok(s, 64), "is_default_sbox: 64 readable bytes"); NISDEF++; __CPROVER_assume(IMP(ISDEF, s[K] == default_sbox[K])); return ISDEF; }
static int CNID;
int curve_nid_from_group(const EC_GROUP *g) { CALLPRE(g, "curve_nid_from_group: a group"); return CNID; }   /* a failure to name the curve is the case NID_undef */
#ifndef TERMS
#define TERMS 3
#endif
u8 __CPROVER_uninterpreted_byteof(bv, int); u8 __CPROVER_uninterpreted_pbyteof(u64v, int);
int bn_encode(const BIGNUM *b, unsigned char *buf, int n)
{ CALLPRE(n > 0 && __CPROVER_w_ok(buf, n), "bn_encode: writable buffer"); LIBFAIL(0); if (b->v == 0) return 0; if (J < n) { buf[J] = __CPROVER_uninterpreted_byteof(b->v, J); buf[n - 1 - J] = __CPROVER_uninterpreted_byteof(b->v, n - 1 - J); } return 1; }
void reverse_bytes(void *m, int n)
{ CALLPRE(n >= 0 && __CPROVER_w_ok(m, n), "reverse_bytes: buffer"); u8 *b = m; if (J < n) { u8 t = b[n - 1 - J]; b[n - 1 - J] = b[J]; b[J] = t; } }
void reverse_bytes_copy(void *d, const void *s, int n)
{ CALLPRE(n >= 0 && __CPROVER_w_ok(d, n) && __CPROVER_r_ok(s, n), "reverse_bytes_copy: buffers"); if (J < n) { u8 *x = d; const u8 *y = s; u8 t = y[n - 1 - J], u = y[J]; x[J] = t; x[n - 1 - J] = u; } }
int dstu_point_compress(const EC_GROUP *g, const EC_POINT *q, unsigned char *buf, int n)
{ CALLPRE(g && q && n >= (g->degree + 7) / 8 && __CPROVER_w_ok(buf, n), "dstu_point_compress: group, point and room"); LIBFAIL(0); if (J < n) { buf[J] = __CPROVER_uninterpreted_pbyteof(q->id, J); buf[n - 1 - J] = __CPROVER_uninterpreted_pbyteof(q->id, n - 1 - J); } return 1; }
static int NEXP, XP_LEN, XP_OK; static u8 XP_J; static bv XP_P, XP_A, XP_B; static u64v XP_ID;
int dstu_point_expand(const unsigned char *c, int n, const EC_GROUP *g, EC_POINT *q)
{ CALLPRE(n >= 0 && __CPROVER_r_ok(c, n) && g && q, "dstu_point_expand: encoding, group and point"); NEXP++; XP_LEN = n; XP_J = J < n ? c[J] : 0; XP_P = g->p; XP_A = g->a; XP_B = g->b; LIBFAIL(0); XP_OK = nd_bool(); if (!XP_OK) return 0; q->id = XP_ID; return 1; }
/* polynomials and exponents */
static int T, E[6], NARR, ARR[6]; static bv ARRV;
int BN_GF2m_poly2arr(const BIGNUM *p, int arr[], int max)
{ CALLPRE(max > 0 && __CPROVER_w_ok(arr, max * sizeof(int)), "BN_GF2m_poly2arr: room"); if (LIB_MAY_FAIL && nd_bool()) { LIB_FAILED = 1; return 0; } for (int i = 0; i < 6; i++) if (i < max && i <= T) arr[i] = i < T ? E[i] : -1; return T + 1; }
int BN_GF2m_arr2poly(const int p[], BIGNUM *a)
{ int i; LIBFAIL(0); NARR++; for (i = 0; i < 6; i++) { ARR[i] = p[i]; if (p[i] == -1) break; CALLPRE(p[i] >= 0, "BN_GF2m_arr2poly: exponents"); } CALLPRE(i < 6, "BN_GF2m_arr2poly: terminated exponents"); a->v = ARRV; a->neg = 0; return 1; }
#include "key.c"
static EC_GROUP *group_from_asn1__x;
EC_GROUP *group_from_asn1__contract(const DSTU_CustomCurveSpec *s, int le);
static void mk(void)
{
    LIB_MAY_FAIL = LIB_FAILED = LIVE = CTX_DEPTH = POOL_N = POOL_DEAD = NBIN = NB_ = NISDEF = NEXP = NARR = NNIDOBJ = 0; ISDEF = nd_bool(); J = nd_int(); K = nd_int(); REQUIRES(0 <= J && 0 <= K && K < 64);
    for (int i = 0; i < 64; i++) default_sbox[i] = nd_u8();
}
void h_encode(void)
{
    mk(); static DSTU_KEY KEY; static EC_KEY EC; static EC_GROUP G; static u8 SB[64]; __CPROVER_havoc_object(&G); __CPROVER_havoc_object(SB); u8 sbk = SB[K]; CNID = NID_undef;
#ifdef NAMED
    CNID = NID_uacurve0 + nd_u8() % 10;
#endif
   
    T = TERMS; for (int i = 0; i < 6; i++) { E[i] = nd_int(); REQUIRES(E[i] >= 0 && E[i] <= 700 && IMP(i > 0 && i < T, E[i] < E[i - 1])); } REQUIRES(G.degree == E[0] && G.degree >= 3); E[T - 1] = 0; REQUIRES(E[T - 2] > 0);   /* irreducible */ _Bool le = nd_bool();
    KEY.ec = &EC; EC.group = nd_bool() ? &G : NULL; KEY.sbox = nd_bool() ? SB : NULL; int n = (G.degree + 7) / 8; REQUIRES(J < n); LIB_MAY_FAIL = 1; EC_GROUP G0 = G;
    DSTU_AlgorithmParameters *r = asn1_from_key(&KEY, le ? 1 + nd_u8() : 0);
    _Bool can = EC.group && (CNID != NID_undef || (G.gen != 0 && G.b != 0 && E[T - 1] == 0));
    ENSURES(IMP(r, EC.group != NULL), "parameters need a group"); ENSURES(IMP(can && !LIB_FAILED, r != NULL), "every key with a group has parameters");
    if (r) {
        _Bool named = CNID != NID_undef;
        ENSURES(r->curve->type == (named ? DSTU_STANDARD_CURVE : DSTU_CUSTOM_CURVE), "a standard curve is encoded by name and any other in full");
        if (r->curve->type == DSTU_STANDARD_CURVE) ENSURES(CNID != NID_undef && r->curve->curve.named_curve && r->curve->curve.named_curve->nid == CNID, "the name is that of the key's curve");
        else { DSTU_CustomCurveSpec *c = r->curve->curve.custom_curve; ENSURES(c != NULL && E[T - 1] == 0, "a full description is made"); DSTU_Polynomial *p = c->field->poly;
            ENSURES(AI(c->field->m)->w == E[0], "the field degree is encoded"); ENSURES(p->type == (T == 3 ? DSTU_TRINOMIAL : DSTU_PENTANOMIAL), "the polynomial's kind is encoded");
            if (T == 3) ENSURES(AI(p->poly.k)->w == E[1], "the trinomial's exponent is encoded"); else ENSURES(AI(p->poly.pentanomial->l)->w == E[1] && AI(p->poly.pentanomial->j)->w == E[2] && AI(p->poly.pentanomial->k)->w == E[3], "the pentanomial's exponents are encoded in ascending order");
            ENSURES(AI(c->a)->v == G.a && AI(c->n)->v == G.order && AI(c->a)->neg == 0 && AI(c->n)->neg == 0, "coefficient A and the order are encoded");
            ENSURES(c->b->length == n && c->b->data[J] == __CPROVER_uninterpreted_byteof(G.b, le ? n - 1 - J : J), "coefficient B is encoded in full length and the algorithm's byte order");
            ENSURES(c->bp->length == n && c->bp->data[J] == __CPROVER_uninterpreted_pbyteof(G.gen, le ? n - 1 - J : J), "the compressed base point is encoded in full length and the algorithm's byte order"); }
        ENSURES(IMP(KEY.sbox == NULL, r->sbox == NULL), "without a custom S-box none is encoded");
        if (r->sbox) { if (KEY.sbox) ENSURES(r->sbox->length == 64, "the S-box is encoded in full"); if (J < 64 && KEY.sbox) ENSURES(r->sbox->data[J] == SB[J], "the key's S-box is encoded"); }
        ENSURES(IMP(KEY.sbox && !ISDEF, r->sbox != NULL), "an S-box other than the default is always encoded"); ENSURES(IMP(KEY.sbox && ISDEF, r->sbox == NULL), "the default S-box is left out");
    }
    if (r) REACH("encoded");  if (!r) REACH("not encoded"); if (r && r->sbox) REACH("with S-box");
    DSTU_AlgorithmParameters_free(r); ENSURES(LIVE == 0 && CTX_DEPTH == 0, "encoding leaks nothing"); FRAME(SB[K] == sbk && grp_eq(&G, &G0), "encoding leaves the key alone");
}
static ASN1_STRING *str_in(int max) { ASN1_STRING *s = malloc(sizeof *s); __CPROVER_assume(s != NULL); s->length = nd_int(); s->type = V_ASN1_OCTET_STRING; __CPROVER_assume(s->length >= 0 && s->length <= max); s->data = malloc(s->length + 1); __CPROVER_assume(s->data != NULL); return s; }
static ASN1_INTEGER *int_in(void) { MINT *m = malloc(sizeof *m); __CPROVER_assume(m != NULL); m->v = nd_bv(); m->w = 0; long w; m->w = w; m->neg = nd_bool(); if (m->v == 0) m->neg = 0; return &m->s; }
static DSTU_Polynomial PO; static DSTU_Pentanomial PE; static DSTU_BinaryField FI; static DSTU_CustomCurveSpec SP;
static void mkspec(void)
{
    PO.type = TERMS == 3 ? DSTU_TRINOMIAL : DSTU_PENTANOMIAL; if (PO.type == DSTU_TRINOMIAL) PO.poly.k = int_in(); else { PO.poly.pentanomial = &PE; PE.k = int_in(); PE.j = int_in(); PE.l = int_in(); }
    FI.m = int_in(); FI.poly = &PO; SP.field = &FI; SP.a = int_in(); SP.n = int_in(); SP.b = str_in(0x1000); SP.bp = str_in(0x1000);
}
void h_group(void)
{
    mk(); mkspec(); _Bool le = nd_bool(); LIB_MAY_FAIL = 1; XP_ID = nd_u64(); REQUIRES(XP_ID != 0); ARRV = nd_bv(); REQUIRES(ARRV > 3); REQUIRES(J < SP.b->length || J < SP.bp->length); long xw[4] = { AI(FI.m)->w, 0, 0, 0 }; int nt = PO.type == DSTU_TRINOMIAL ? 1 : 3; 
    if (nt == 1) xw[1] = AI(PO.poly.k)->w; else { xw[1] = AI(PE.l)->w; xw[2] = AI(PE.j)->w; xw[3] = AI(PE.k)->w; }
    u8 bj = J < SP.b->length ? SP.b->data[le ? SP.b->length - 1 - J : J] : 0, pj = J < SP.bp->length ? SP.bp->data[le ? SP.bp->length - 1 - J : J] : 0, b0 = J < SP.b->length ? SP.b->data[J] : 0;
    EC_GROUP *g = group_from_asn1(&SP, le ? 1 + nd_u8() : 0);
    _Bool pos = 1; for (int i = 0; i < 4; i++) if (i <= nt) pos = pos && xw[i] > 0 && xw[i] <= 0x7fffffff; _Bool aok = AI(SP.a)->v <= 1 && !AI(SP.a)->neg;
    ENSURES(IMP(g, pos && aok && AI(SP.n)->v != 0 && !AI(SP.n)->neg && NEXP == 1 && XP_OK), "a group is made only from positive exponents, A of 0 or 1, a positive order and a base point that expands");
    ENSURES(IMP(!LIB_FAILED && pos && aok && AI(SP.n)->v != 0 && !AI(SP.n)->neg && SP.b->length && SP.bp->length && NEXP == 1 && XP_OK, g != NULL), "a valid description gives a group");
    ENSURES(IMP(!LIB_FAILED && pos && aok && SP.b->length && SP.bp->length, NEXP == 1), "the base point is expanded");
    if (g) {
        ENSURES(NARR == 1 && g->p == ARRV && ARR[0] == xw[0] && ARR[1] == xw[1] && IMP(nt == 1, ARR[2] == 0 && ARR[3] == -1) && IMP(nt == 3, ARR[2] == xw[2] && ARR[3] == xw[3] && ARR[4] == 0 && ARR[5] == -1), "the group has the field polynomial described");
        ENSURES(g->a == AI(SP.a)->v && g->order == AI(SP.n)->v, "the group has the coefficient A and order described"); int kb = (int)g->b - 1000; ENSURES(kb >= 0 && kb < NB_ && kb < 4 && BIN[kb].len == SP.b->length && BINB[kb] == bj, "the group has the coefficient B described, in the algorithm's byte order");
        ENSURES(XP_LEN == SP.bp->length && XP_J == pj && XP_P == g->p && XP_A == g->a && XP_B == g->b && g->gen == XP_ID, "the group has the base point described, in the algorithm's byte order"); REACH("group described"); EC_GROUP_free(g);
    } else REACH("no group");
    ENSURES(LIVE == 0 && CTX_DEPTH == 0, "reading a description leaks nothing"); FRAME(IMP(J < SP.b->length, SP.b->data[J] == b0), "reading a description leaves it alone");
}
#ifdef UNIT_KEY
static int NGFA, GFA_OK, GFA_LE; static const DSTU_CustomCurveSpec *GFA_S;
EC_GROUP *group_from_asn1__contract(const DSTU_CustomCurveSpec *s, int le)
{ CALLPRE(s, "group_from_asn1: a description"); NGFA++; GFA_LE = le != 0; GFA_S = s; LIBFAIL(NULL); GFA_OK = nd_bool(); if (!GFA_OK) return NULL; EC_GROUP *g = grp_new(); g->gen = 77; return g; }
void h_key(void)
{
    mk(); static DSTU_AlgorithmParameters AP; static DSTU_CurveSpec CS; static ASN1_OBJECT OB; _Bool le = nd_bool(); AP.curve = &CS; OB.nid = nd_int(); CS.type = nd_bool() ? DSTU_STANDARD_CURVE : DSTU_CUSTOM_CURVE; if (CS.type == DSTU_STANDARD_CURVE) CS.curve.named_curve = &OB; else CS.curve.custom_curve = &SP;
    AP.sbox = nd_bool() ? str_in(0x1000) : NULL; int sl = AP.sbox ? AP.sbox->length : 0; u8 sk = sl == 64 ? AP.sbox->data[K] : 0; NGFA = 0; LIB_MAY_FAIL = 1; int w = CS.type == DSTU_STANDARD_CURVE ? curve_of_nid(OB.nid) : -1;
    DSTU_KEY *k = key_from_asn1(&AP, le ? 1 + nd_u8() : 0);
    _Bool ok = (!AP.sbox || sl == 64) && (CS.type == DSTU_STANDARD_CURVE ? w >= 0 : NGFA == 1 && GFA_OK);
    ENSURES(IMP(k, ok), "parameters are accepted only with a known curve or valid description and an S-box of 64 bytes"); ENSURES(IMP(ok && !LIB_FAILED, k != NULL), "valid parameters give a key");
    ENSURES(IMP(CS.type == DSTU_CUSTOM_CURVE && (!AP.sbox || sl == 64) && !LIB_FAILED, NGFA == 1), "a full description is read");
    ENSURES(IMP(NGFA, GFA_S == &SP && GFA_LE == le), "a full description is read in the algorithm's byte order");
    if (k) {
        ENSURES(k->ec && k->ec->group && !k->ec->priv && !k->ec->pub && k->ec->group->gen == (CS.type == DSTU_STANDARD_CURVE ? CURVEGEN(w) : 77), "the key has the group named or described");
        ENSURES(IMP(AP.sbox && !ISDEF, k->sbox && k->sbox != AP.sbox->data && k->sbox[K] == sk) && IMP(!AP.sbox, !k->sbox) && IMP(k->sbox, k->sbox[K] == sk), "the key has its own copy of the S-box given"); REACH("key from parameters"); if (k->sbox) REACH("with S-box");
    } else REACH("no key");
    DSTU_KEY_free(k); ENSURES(LIVE == 0 && CTX_DEPTH == 0, "reading parameters leaks nothing"); FRAME(IMP(sl == 64, AP.sbox->data[K] == sk), "reading parameters leaves them alone");
}
#endif
