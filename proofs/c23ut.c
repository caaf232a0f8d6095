/* C23: keys in PKCS#8 and its attributes (keylib/utils.c).  Buffers and BN_CTX are assumed to be had (the code does not check them). */
#define BN_ABSTRACT
#define PKEY_OLD
#include "common.h"
static int J, K, E;
#define TRACKED J
static int NB_, BN_LEN; static u8 BINJ; static const void *BINP;
#define BIN_VALUE(p, n, val) do { CALLPRE(NB_ == 0, "the scalar is read once"); NB_++; BN_LEN = (n); BINP = (p); BINJ = J < (n) ? ((const u8 *)(p))[(n) - 1 - J] : 0; (val) = 1000; } while (0)
#define CRYPTO_malloc CRYPTO_malloc_may_fail
#define BN_CTX_new BN_CTX_new_may_fail
#include "key_contract.h"
#undef CRYPTO_malloc
#undef BN_CTX_new
void *CRYPTO_malloc(size_t n, const char *f, int l) { if (n == 0) return NULL; LIVE++; void *p = malloc(n); __CPROVER_assume(p != NULL); return p; }
BN_CTX *BN_CTX_new(void) { LIVE++; struct bignum_ctx *c = malloc(sizeof *c); __CPROVER_assume(c != NULL); c->depth = 0; return c; }
#include "ossl_dstuasn1.h"
#include "attrcurvespec_asn1.h"
#include "keystore_internal.h"
#include <openssl/x509.h>
static int dstu_cut_a, dstu_cut_b; static void *nd_ptr(void) { void *p; return p; }
struct x509_attributes_st { int kind; }; /* 1 curve, 2 key, 0 neither, -1 no object */
static X509_ATTRIBUTE A_CURVE = { 1 }, A_KEY = { 2 }, A_OTHER;
/* values of an attribute */
static int COUNT, SIDX, SLEN; static u8 *SDATA; static ASN1_TYPE TY; static int TYIDX; static ASN1_STRING STR; static const X509_ATTRIBUTE *ATT;
int __CPROVER_uninterpreted_vtype(int); _Bool __CPROVER_uninterpreted_vdata(int); _Bool __CPROVER_uninterpreted_vspec(int);
#define QUAL(i) ((__CPROVER_uninterpreted_vtype(i) == V_ASN1_OCTET_STRING || __CPROVER_uninterpreted_vtype(i) == V_ASN1_BIT_STRING) && __CPROVER_uninterpreted_vdata(i))
int X509_ATTRIBUTE_count(const X509_ATTRIBUTE *a) { CALLPRE(a == ATT, "the attribute's values"); return COUNT; }
ASN1_TYPE *X509_ATTRIBUTE_get0_type(X509_ATTRIBUTE *a, int i) { CALLPRE(a == ATT && i >= 0 && i < COUNT, "a value of the attribute"); TYIDX = i; TY.type = __CPROVER_uninterpreted_vtype(i); return &TY; }
int ASN1_TYPE_get(const ASN1_TYPE *t) { return t->type; }
void *X509_ATTRIBUTE_get0_data(X509_ATTRIBUTE *a, int i, int t, void *d) { CALLPRE(a == ATT && i >= 0 && i < COUNT, "a value of the attribute"); if (t != __CPROVER_uninterpreted_vtype(i) || !__CPROVER_uninterpreted_vdata(i)) return NULL; SIDX = i; STR.type = t; STR.length = SLEN; STR.data = SDATA; return &STR; }
/* curve descriptions */
const ASN1_ITEM *DSTU_AttrCurveSpec_it(void) { return NULL; }
static DSTU_CustomCurveSpec CSPEC; static int SPEC_LIVE, NGFA, GFA_LE; static u64v GENID;
void *ASN1_TYPE_unpack_sequence(const ASN1_ITEM *it, const ASN1_TYPE *t) { CALLPRE(t == &TY, "a value of the attribute"); if (!__CPROVER_uninterpreted_vspec(TYIDX)) return NULL; SIDX = TYIDX; LIVE++; SPEC_LIVE++; DSTU_AttrCurveSpec *s = malloc(sizeof *s); REQUIRES(s != NULL); s->spec = &CSPEC; return s; }
void DSTU_AttrCurveSpec_free(DSTU_AttrCurveSpec *s) { if (s) { LIVE--; SPEC_LIVE--; free(s); } }
EC_GROUP *group_from_asn1(const DSTU_CustomCurveSpec *s, int le) { CALLPRE(s == &CSPEC && SPEC_LIVE == 1, "group_from_asn1: the description, still there"); NGFA++; GFA_LE = le != 0; if (nd_bool()) return NULL; EC_GROUP *g = grp_new(); g->gen = GENID; return g; }
static u8 rev(u8 b) { u8 r = 0; for (int i = 0; i < 8; i++) r |= (b >> i & 1) << (7 - i); return r; }
EVP_PKEY *EVP_PKEY_new(void) { LIBFAIL(NULL); LIVE++; EVP_PKEY *p = malloc(sizeof *p); __CPROVER_assume(p != NULL); p->id = 0; p->ptr = NULL; return p; }
void EVP_PKEY_free(EVP_PKEY *p) { if (p) { DSTU_KEY_free(p->ptr); LIVE--; free(p); } }
int EVP_PKEY_set_type(EVP_PKEY *p, int t) { LIBFAIL(0); DSTU_KEY_free(p->ptr); p->ptr = NULL; p->id = t; return 1; }
static int NPUB; u64v __CPROVER_uninterpreted_pub(bv);
int dstu_add_public_key(EC_KEY *k)
{ CALLPRE(k, "dstu_add_public_key: a key"); NPUB++; if (!k->group || !k->priv) return 0; LIBFAIL(0); EC_POINT_free((EC_POINT *)k->pub); EC_POINT *q = malloc(sizeof *q); __CPROVER_assume(q != NULL); LIVE++; q->id = __CPROVER_uninterpreted_pub(k->priv->v); k->pub = q; return 1; }
/* attributes of a key */
static int NATTR, JC, JK, SK_NULL; struct pkcs8_priv_key_info_st { int live; }; static PKCS8_PRIV_KEY_INFO P8;
const STACK_OF(X509_ATTRIBUTE) *PKCS8_pkey_get0_attrs(const PKCS8_PRIV_KEY_INFO *p) { CALLPRE(p == &P8 && P8.live, "the key's attributes"); return SK_NULL ? NULL : (const STACK_OF(X509_ATTRIBUTE) *)&NATTR; }
int OPENSSL_sk_num(const OPENSSL_STACK *s) { return s ? NATTR : -1; }
void *OPENSSL_sk_value(const OPENSSL_STACK *s, int i) { if (!s || i < 0 || i >= NATTR) return NULL; if (i == JC) return &A_CURVE; if (i == JK) return &A_KEY; if (nd_bool()) return NULL; A_OTHER.kind = nd_bool() ? -1 : 0; return &A_OTHER; }
static ASN1_OBJECT OBK[3];
ASN1_OBJECT *X509_ATTRIBUTE_get0_object(X509_ATTRIBUTE *a) { if (a->kind < 0) return NULL; OBK[a->kind].nid = a->kind; return &OBK[a->kind]; }
static int is(const char *a, const char *b) { for (int i = 0; i < 40; i++) { if (a[i] != b[i]) return 0; if (!a[i]) return 1; } return 0; }
ASN1_OBJECT *OBJ_txt2obj(const char *s, int no) { LIVE++; ASN1_OBJECT *o = malloc(sizeof *o); REQUIRES(o != NULL); o->nid = is(s, "1.3.6.1.4.1.19398.1.1.2.2") ? 1 : is(s, "1.3.6.1.4.1.19398.1.1.2.3") ? 2 : 3; return o; }
void ASN1_OBJECT_free(ASN1_OBJECT *o) { if (o) { LIVE--; free(o); } }
int OBJ_cmp(const ASN1_OBJECT *a, const ASN1_OBJECT *b) { CALLPRE(a && b, "OBJ_cmp: both objects"); return a->nid - b->nid; }
#ifdef UNIT_NUM
#undef DSTU_LOOP_HEAD_attr_scalar
#undef DSTU_LOOP_HEAD_attr_reverse
#define DSTU_LOOP_HEAD_attr_scalar CUTS(a, 0 <= i && i < COUNT && count == COUNT && str == NULL && attr == ATT && IMP(E < i, !QUAL(E)), { i = nd_int(); type = nd_int(); str = nd_ptr(); })
#define DSTU_LOOP_HEAD_attr_reverse CUTS(b, 0 <= i && i < SLEN && length == SLEN && data == SDATA && buf != NULL && IMP(J < i, buf[SLEN - 1 - J] == rev(SDATA[J])), { i = nd_int(); b = nd_u8(); buf[SLEN - 1 - J] = nd_u8(); })
#endif
#ifdef UNIT_CURVE
#undef DSTU_LOOP_HEAD_attr_curve
#define DSTU_LOOP_HEAD_attr_curve CUTS(a, 0 <= i && i < COUNT && count == COUNT && attr == ATT && spec == NULL && IMP(E < i, !__CPROVER_uninterpreted_vspec(E)), { i = nd_int(); spec = nd_ptr(); })
#endif
#ifdef UNIT_FIND
#undef DSTU_LOOP_HEAD_attr_find
#define DSTU_LOOP_HEAD_attr_find CUTS(a, 0 <= i && i < NATTR && nattr == NATTR && curveAttr == (JC >= 0 && JC < i ? &A_CURVE : NULL) && keyAttr == (JK >= 0 && JK < i ? &A_KEY : NULL), { i = nd_int(); curveAttr = nd_ptr(); keyAttr = nd_ptr(); attr = nd_ptr(); attrObject = nd_ptr(); })
#endif
BIGNUM *getPrivateKeyNum__contract(BN_CTX *c, X509_ATTRIBUTE *a); EC_GROUP *makeECGROUP__contract(X509_ATTRIBUTE *a); EVP_PKEY *makePKey__contract(X509_ATTRIBUTE *c, X509_ATTRIBUTE *k); EVP_PKEY *pkeyFromAttributes__contract(const PKCS8_PRIV_KEY_INFO *p);
#ifndef MAXN
#define MAXN 0x7fffffff
#endif
#include "utils.c"
static void mk(void) { LIB_MAY_FAIL = LIB_FAILED = LIVE = CTX_DEPTH = POOL_N = POOL_DEAD = NB_ = NGFA = SPEC_LIVE = NPUB = 0; J = nd_int(); E = nd_int(); COUNT = nd_int(); SLEN = nd_int(); REQUIRES(0 <= E && 0 <= COUNT && COUNT < MAXN && 0 <= SLEN && SLEN < MAXN && 0 <= J && (J < SLEN || (SLEN == 0 && J == 0))); SIDX = -1; ATT = &A_KEY; GENID = nd_u64(); }
void h_num(void)
{
    mk(); SDATA = malloc((size_t)SLEN + 1); REQUIRES(SDATA != NULL); u8 bj = SDATA[J]; BN_CTX *c = BN_CTX_new(); BN_CTX_start(c); int live = LIVE; BIGNUM *n = getPrivateKeyNum(c, &A_KEY);
    ENSURES(IMP(n == NULL, SIDX < 0) && IMP(SIDX < 0, n == NULL), "there is a number exactly when a value is an octet or bit string"); ENSURES(IMP(n, E >= SIDX || !QUAL(E)) && IMP(!n, E >= COUNT || !QUAL(E)), "it is the first such value"); ENSURES(IMP(n, NB_ == 1 && BN_LEN == SLEN && n->v == 1000 && !n->neg), "the number is read from as many octets"); ENSURES(IMP(n && SLEN, BINJ == rev(bj)), "octets and their bits are taken in opposite order"); ENSURES(LIVE == live, "the buffer is released"); REACH("num"); if (n && SLEN) REACH("a number");
}
void h_curve(void)
{
    mk(); EC_GROUP *g = makeECGROUP(&A_KEY); ENSURES(IMP(g, NGFA == 1 && GFA_LE == 0 && SIDX >= 0 && g->gen == GENID), "the curve is the described one, in big-endian order"); ENSURES(IMP(SIDX >= 0, NGFA == 1), "a description is used"); ENSURES(SIDX < 0 ? E >= COUNT || !__CPROVER_uninterpreted_vspec(E) : E >= SIDX || !__CPROVER_uninterpreted_vspec(E), "it is the first value that is one"); ENSURES(LIVE == (g != NULL), "the description is released"); REACH("curve"); if (g) REACH("a curve");
}
static int NUM_OK, NNUM, NGRP;
BIGNUM *getPrivateKeyNum__contract(BN_CTX *c, X509_ATTRIBUTE *a) { CALLPRE(c && a == &A_KEY, "the scalar is in the key attribute"); NNUM++; BIGNUM *b = BN_CTX_get(c); NUM_OK = b && nd_bool(); if (!NUM_OK) return NULL; b->v = 1000; return b; }
EC_GROUP *makeECGROUP__contract(X509_ATTRIBUTE *a) { CALLPRE(a == &A_CURVE, "the curve is in the curve attribute"); NGRP = nd_bool(); if (!NGRP) return NULL; EC_GROUP *g = grp_new(); g->gen = GENID; return g; }
void h_pkey(void)
{
    mk(); LIB_MAY_FAIL = 1; EVP_PKEY *p = makePKey(&A_CURVE, &A_KEY); DSTU_KEY *k = p ? p->ptr : NULL;
    ENSURES(IMP(p, NUM_OK && NGRP), "a key needs a scalar and a curve"); ENSURES(IMP(NUM_OK && NGRP && !LIB_FAILED, p != NULL), "a scalar and a curve make a key"); ENSURES(IMP(p, p->id == NID_dstu4145le && k && k->ec && k->ec->group && k->ec->group->gen == GENID && k->ec->priv && k->ec->priv->v == 1000 && k->ec->pub && k->ec->pub->id == __CPROVER_uninterpreted_pub(1000)), "the key has that curve, scalar and its point, and is a little-endian DSTU key"); ENSURES(CTX_DEPTH == 0 && LIVE == (p ? 6 : 0), "everything else is released"); REACH("pkey"); if (p) REACH("a key");
}
static int NMP; static EVP_PKEY *MP_RET; static EVP_PKEY KEY1, KEY2;
EVP_PKEY *makePKey__contract(X509_ATTRIBUTE *c, X509_ATTRIBUTE *k) { CALLPRE(c == &A_CURVE && k == &A_KEY, "the curve attribute and the key attribute"); NMP++; MP_RET = nd_bool() ? &KEY2 : NULL; return MP_RET; }
void h_find(void)
{
    mk(); P8.live = 1; NATTR = nd_int(); JC = nd_int(); JK = nd_int(); SK_NULL = nd_bool(); REQUIRES(0 <= NATTR && NATTR < MAXN && -1 <= JC && JC < NATTR && -1 <= JK && JK < NATTR && (JC != JK || JC < 0)); NMP = 0; _Bool both = !SK_NULL && JC >= 0 && JK >= 0;
    EVP_PKEY *p = pkeyFromAttributes(&P8); ENSURES(NMP == both, "a second key is made exactly when both attributes are there"); ENSURES(p == (both ? MP_RET : NULL), "the second key is the one they describe"); ENSURES(LIVE == 0, "nothing leaks"); REACH("find"); if (p) REACH("found");
}
/* PKCS#8 */
static const void *DATA; static size_t DSZ; static int P8_OK, NP82, NATT, KS_LIVE; static EVP_PKEY *P82, *PA; struct KeyStore_st { size_t n, c; EVP_PKEY *k[2]; }; static struct KeyStore_st KS;
PKCS8_PRIV_KEY_INFO *d2i_PKCS8_PRIV_KEY_INFO(PKCS8_PRIV_KEY_INFO **o, const unsigned char **p, long n) { CALLPRE(!o && *p == DATA && n == (long)DSZ, "the data is parsed"); P8_OK = nd_bool(); if (!P8_OK) return NULL; P8.live = 1; return &P8; }
void PKCS8_PRIV_KEY_INFO_free(PKCS8_PRIV_KEY_INFO *p) { if (p) { CALLPRE(p == &P8 && P8.live, "the key information is released once"); P8.live = 0; } }
EVP_PKEY *EVP_PKCS82PKEY(const PKCS8_PRIV_KEY_INFO *p) { CALLPRE(p == &P8 && P8.live, "EVP_PKCS82PKEY: the parsed key"); NP82++; P82 = nd_bool() ? &KEY1 : NULL; return P82; }
EVP_PKEY *pkeyFromAttributes__contract(const PKCS8_PRIV_KEY_INFO *p) { CALLPRE(p == &P8 && P8.live, "the parsed key's attributes"); NATT++; PA = nd_bool() ? &KEY2 : NULL; return PA; }
KeyStore *KeyStoreNew(size_t k, size_t c) { CALLPRE(k <= 2, "model: at most two keys"); KS_LIVE++; KS.n = k; KS.c = c; KS.k[0] = KS.k[1] = NULL; return &KS; }
void KeyStoreSetKey(KeyStore *s, size_t i, EVP_PKEY *k) { CALLPRE(s == &KS && i < s->n, "a key of the store"); s->k[i] = k; }
void h_p8(void)
{
    mk(); DATA = nd_ptr(); DSZ = nd_size(); REQUIRES(DSZ < ((size_t)1 << 62)); KeyStore *mark = nd_ptr(), *ks = mark; NP82 = NATT = KS_LIVE = 0; P8.live = 0; P82 = PA = NULL; int r = keysFromPKCS8(DATA, DSZ, &ks);
    ENSURES(!r == !(P8_OK && P82), "a store is made exactly of a PKCS#8 that holds a key"); ENSURES(IMP(!r, ks == mark && !KS_LIVE), "a refused PKCS#8 leaves no store"); ENSURES(IMP(r, ks == &KS && KS_LIVE == 1 && KS.c == 0 && KS.k[0] == P82 && KS.n == (PA ? 2 : 1) && IMP(PA, KS.k[1] == PA)), "the store holds the key and then the one in the attributes, if any"); ENSURES(IMP(r, NATT == 1 && NP82 == 1), "the attributes are looked at once"); ENSURES(!P8.live, "the parsed form is released"); REACH("p8"); if (r) REACH("a store");
}
