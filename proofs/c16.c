/* C16 / C17: the ASN.1 methods of keys (ameth.c). */
#define BN_ABSTRACT
#define PKEY_OLD
#include "common.h"
static int J, K;
#define TRACKED J
static u8 BINB[8]; static int NB_;
#define BIN_VALUE(p, n, val) do { CALLPRE(NB_ < 8, "model: at most 8 numbers are read"); BINB[NB_] = J < (n) ? (p)[J] : 0; (val) = 1000 + NB_; NB_++; } while (0)
#include "key_contract.h"
#include "ossl_dstuasn1.h"
#include <openssl/x509.h>
#include <openssl/pkcs7.h>
#include <openssl/cms.h>
static bv nd_bv(void) { bv x; return x; }
unsigned char default_sbox[64];
EVP_PKEY *EVP_PKEY_new(void) { LIBFAIL(NULL); LIVE++; EVP_PKEY *p = malloc(sizeof *p); __CPROVER_assume(p != NULL); p->id = 0; p->ptr = NULL; return p; }
static const EC_KEY *SET1EC;
int EVP_PKEY_set1_EC_KEY(EVP_PKEY *p, EC_KEY *k) { CALLPRE(k, "EVP_PKEY_set1_EC_KEY: a key"); LIBFAIL(0); SET1EC = k; return 1; }
void EVP_PKEY_free(EVP_PKEY *p) { if (p) { LIVE--; free(p); } }
static int NPRINT, PRINT_RET; static int PRINT_KIND;
int EVP_PKEY_print_params(BIO *o, const EVP_PKEY *p, int i, ASN1_PCTX *c) { NPRINT++; PRINT_KIND = 1; PRINT_RET = nd_bool(); return PRINT_RET; }
int EVP_PKEY_print_private(BIO *o, const EVP_PKEY *p, int i, ASN1_PCTX *c) { NPRINT++; PRINT_KIND = 2; PRINT_RET = nd_bool(); return PRINT_RET; }
int EVP_PKEY_print_public(BIO *o, const EVP_PKEY *p, int i, ASN1_PCTX *c) { NPRINT++; PRINT_KIND = 3; PRINT_RET = nd_bool(); return PRINT_RET; }
/* library setters of the key type release the key held before */
int EVP_PKEY_set_type(EVP_PKEY *p, int t) { LIBFAIL(0); DSTU_KEY_free(p->ptr); p->ptr = NULL; p->id = t; return 1; }
/* contracts proved in C12, C13, C11, C15 */
u8 __CPROVER_uninterpreted_byteof(bv, int); u8 __CPROVER_uninterpreted_pbyteof(u64v, int); u64v __CPROVER_uninterpreted_pub(bv); u8 __CPROVER_uninterpreted_parbyte(u64v, int);
int BN_bn2bin(const BIGNUM *b, unsigned char *to) { int n = (bv_bits(b->v) + 7) / 8; CALLPRE(__CPROVER_w_ok(to, n), "BN_bn2bin: room"); if (J < n) { to[J] = __CPROVER_uninterpreted_byteof(b->v, J); to[n - 1 - J] = __CPROVER_uninterpreted_byteof(b->v, n - 1 - J); } return n; }
void reverse_bytes(void *m, int n)
{ CALLPRE(n >= 0 && __CPROVER_w_ok(m, n), "reverse_bytes: buffer"); u8 *b = m; if (J < n) { u8 t = b[n - 1 - J]; b[n - 1 - J] = b[J]; b[J] = t; } }
void reverse_bytes_copy(void *d, const void *s, int n)
{ CALLPRE(n >= 0 && __CPROVER_w_ok(d, n) && __CPROVER_r_ok(s, n), "reverse_bytes_copy: buffers"); if (J < n) { u8 *x = d; const u8 *y = s; u8 t = y[n - 1 - J], u = y[J]; x[J] = t; x[n - 1 - J] = u; } }
int dstu_point_compress(const EC_GROUP *g, const EC_POINT *q, unsigned char *buf, int n)
{ CALLPRE(g && q && n >= (g->degree + 7) / 8 && __CPROVER_w_ok(buf, n), "dstu_point_compress: group, point and room"); LIBFAIL(0); if (J < n) { buf[J] = __CPROVER_uninterpreted_pbyteof(q->id, J); buf[n - 1 - J] = __CPROVER_uninterpreted_pbyteof(q->id, n - 1 - J); } return 1; }
static int NEXP, XP_LEN, XP_OK; static u8 XP_J; static const EC_GROUP *XP_G; static u64v XP_ID;
int dstu_point_expand(const unsigned char *c, int n, const EC_GROUP *g, EC_POINT *q)
{ CALLPRE(n >= 0 && __CPROVER_r_ok(c, n) && g && q, "dstu_point_expand: encoding, group and point"); NEXP++; XP_LEN = n; XP_J = J < n ? c[J] : 0; XP_G = g; LIBFAIL(0); XP_OK = nd_bool(); if (!XP_OK) return 0; q->id = XP_ID; return 1; }
static int NADD;
int dstu_add_public_key(EC_KEY *k)
{ CALLPRE(k, "dstu_add_public_key: a key"); NADD++; if (!k->group || !k->priv) return 0; LIBFAIL(0); EC_POINT_free((EC_POINT *)k->pub); EC_POINT *q = malloc(sizeof *q); __CPROVER_assume(q != NULL); LIVE++; q->id = __CPROVER_uninterpreted_pub(k->priv->v); k->pub = q; return 1; }
static int NKFA, KFA_OK, KFA_LE; static u8 KFA_SB; static u64v KFA_GEN;
DSTU_KEY *key_from_asn1(const DSTU_AlgorithmParameters *p, int le)
{ CALLPRE(p, "key_from_asn1: parameters"); NKFA++; KFA_LE = le != 0; LIBFAIL(NULL); KFA_OK = nd_bool(); if (!KFA_OK) return NULL; DSTU_KEY *k = malloc(sizeof *k); __CPROVER_assume(k != NULL); EC_KEY *e = malloc(sizeof *e); __CPROVER_assume(e != NULL); EC_GROUP *g = grp_new(); g->gen = KFA_GEN; e->group = g; e->priv = NULL; e->pub = NULL; LIVE += 2; k->ec = e; k->sbox = NULL;
  if (nd_bool()) { k->sbox = malloc(64); __CPROVER_assume(k->sbox != NULL); LIVE++; } return k; }
static int NAFK, AFK_LE; static const DSTU_KEY *AFK_K;
DSTU_AlgorithmParameters *asn1_from_key(const DSTU_KEY *k, int le) { CALLPRE(k, "asn1_from_key: a key"); NAFK++; AFK_LE = le != 0; AFK_K = k; if (!k->ec->group) return NULL; return DSTU_AlgorithmParameters_new(); }
static int ND2P, D2P_OK; static const u8 *D2P_AT; static long D2P_LEN;
DSTU_AlgorithmParameters *d2i_DSTU_AlgorithmParameters(DSTU_AlgorithmParameters **a, const unsigned char **in, long len)
{ CALLPRE(a == NULL && len >= 0 && __CPROVER_r_ok(*in, len), "d2i parameters: readable input"); ND2P++; D2P_AT = *in; D2P_LEN = len; LIBFAIL(NULL); D2P_OK = nd_bool(); if (!D2P_OK) return NULL; *in += nd_u8() % (len + 1); return DSTU_AlgorithmParameters_new(); }
static int NI2P, PARLEN; static u64v PARTAG;       /* the encoding of the parameters */
int i2d_DSTU_AlgorithmParameters(const DSTU_AlgorithmParameters *a, unsigned char **out)
{
    CALLPRE(a, "i2d parameters: an object"); NI2P++; LIBFAIL(-1); if (!out) return PARLEN;
    u8 *b; if (*out) { CALLPRE(__CPROVER_w_ok(*out, PARLEN), "i2d parameters: room"); b = *out; *out += PARLEN; } else { b = malloc(PARLEN); __CPROVER_assume(b != NULL); LIVE++; *out = b; }
    if (J < PARLEN) { b[J] = __CPROVER_uninterpreted_parbyte(PARTAG, J); b[PARLEN - 1 - J] = __CPROVER_uninterpreted_parbyte(PARTAG, PARLEN - 1 - J); } return PARLEN;
}
static int ND2I, D2I_OK, D2I_N; static u8 D2I_J, D2I_R; static const u8 *D2I_IN; static long D2I_LEN;
ASN1_OCTET_STRING *d2i_ASN1_OCTET_STRING(ASN1_OCTET_STRING **a, const unsigned char **in, long len)
{
    CALLPRE(a && !*a && len >= 0 && __CPROVER_r_ok(*in, len), "d2i: readable input"); ND2I++; D2I_IN = *in; D2I_LEN = len; LIBFAIL(NULL); D2I_OK = len >= 2 && nd_bool(); if (!D2I_OK) return NULL;
    ASN1_STRING *s = mstr(); D2I_N = nd_int(); __CPROVER_assume(0 <= D2I_N && D2I_N <= len - 2); s->length = D2I_N; LIVE++; s->data = malloc(D2I_N + 1); __CPROVER_assume(s->data != NULL); if (J < D2I_N) { D2I_J = s->data[J]; D2I_R = s->data[D2I_N - 1 - J]; } *in += D2I_N + 2; *a = s; return s;
}
static int NI2O, I2O_LEN; static u8 I2O_J; static unsigned char *I2O_P;
int i2d_ASN1_OCTET_STRING(const ASN1_OCTET_STRING *a, unsigned char **out)
{ CALLPRE(out && !*out && a->data && __CPROVER_r_ok(a->data, a->length), "i2d: string data"); NI2O++; I2O_LEN = a->length; I2O_J = J < a->length ? a->data[J] : 0; LIBFAIL(-1); int n = DERLEN(a->length); u8 *b = malloc(n); __CPROVER_assume(b != NULL); LIVE++; I2O_P = b; *out = b; return n; }
/* algorithm identifiers and key containers */
static int ALG_NID, ALG_TYPE; static ASN1_STRING *ALG_VAL; static X509_ALGOR ALG; static ASN1_OBJECT ALGOBJ;
void X509_ALGOR_get0(const ASN1_OBJECT **o, int *t, const void **v, const X509_ALGOR *a) { CALLPRE(a == &ALG, "X509_ALGOR_get0: the key's algorithm"); if (o) *o = &ALGOBJ; if (t) *t = ALG_TYPE; if (v) *v = ALG_VAL; }
struct pkcs8_priv_key_info_st { const u8 *d; int n; }; struct X509_pubkey_st { const u8 *d; int n; };
int PKCS8_pkey_get0(const ASN1_OBJECT **o, const unsigned char **k, int *n, const X509_ALGOR **a, const PKCS8_PRIV_KEY_INFO *p) { LIBFAIL(0); if (o) *o = &ALGOBJ; if (k) *k = p->d; if (n) *n = p->n; if (a) *a = &ALG; return 1; }
int X509_PUBKEY_get0_param(ASN1_OBJECT **o, const unsigned char **k, int *n, X509_ALGOR **a, const X509_PUBKEY *p) { LIBFAIL(0); if (o) *o = &ALGOBJ; if (k) *k = p->d; if (n) *n = p->n; if (a) *a = &ALG; return 1; }
static int NSET0, S0_NID, S0_VER, S0_TYPE, S0_LEN; static ASN1_STRING *S0_PAR; static u8 *S0_KEY; static void *S0_IN;
static int set0(void *in, ASN1_OBJECT *o, int ver, int type, void *par, u8 *k, int n) { CALLPRE(o != NULL, "model: algorithm identifier given"); LIBFAIL(0); NSET0++; S0_IN = in; S0_NID = o->nid; S0_VER = ver; S0_TYPE = type; S0_PAR = par; S0_KEY = k; S0_LEN = n; return 1; }
int PKCS8_pkey_set0(PKCS8_PRIV_KEY_INFO *p, ASN1_OBJECT *o, int ver, int type, void *par, unsigned char *k, int n) { return set0(p, o, ver, type, par, k, n); }
int X509_PUBKEY_set0_param(X509_PUBKEY *p, ASN1_OBJECT *o, int type, void *par, unsigned char *k, int n) { return set0(p, o, 0, type, par, k, n); }
static X509_ALGOR A1, A2; static int SET_N, SET_NID[2], SET_T[2]; static void *SET_V[2]; static void *SI_IN;
void PKCS7_SIGNER_INFO_get0_algs(PKCS7_SIGNER_INFO *s, EVP_PKEY **p, X509_ALGOR **d, X509_ALGOR **g) { SI_IN = s; if (d) *d = &A1; if (g) *g = &A2; }
void CMS_SignerInfo_get0_algs(CMS_SignerInfo *s, EVP_PKEY **p, X509 **x, X509_ALGOR **d, X509_ALGOR **g) { SI_IN = s; if (d) *d = &A1; if (g) *g = &A2; }
int X509_ALGOR_set0(X509_ALGOR *a, ASN1_OBJECT *o, int t, void *v) { CALLPRE(a == &A1 || a == &A2, "X509_ALGOR_set0: one of the signer's algorithms"); SET_N++; int i = a == &A2; SET_NID[i] = o ? o->nid : 0; SET_T[i] = t; SET_V[i] = v; return 1; }
struct evp_pkey_asn1_method_st { int id; unsigned long flags; const char *pem, *info; void *pd, *pe, *pm, *pc, *pcmp, *pp, *kd, *ke, *kp, *ud, *ue, *uc, *up, *sz, *bits, *fr, *ct; };
EVP_PKEY_ASN1_METHOD *EVP_PKEY_asn1_new(int id, int fl, const char *pem, const char *info) { LIBFAIL(NULL); LIVE++; EVP_PKEY_ASN1_METHOD *m = malloc(sizeof *m); __CPROVER_assume(m != NULL); memset(m, 0, sizeof *m); m->id = id; m->flags = fl; m->pem = pem; m->info = info; return m; }
void EVP_PKEY_asn1_free(EVP_PKEY_ASN1_METHOD *m) { if (m) { LIVE--; free(m); } }
#define MM(f) CALLPRE(m, #f ": a method")
void EVP_PKEY_asn1_set_param(EVP_PKEY_ASN1_METHOD *m, int (*d)(EVP_PKEY *, const unsigned char **, int), int (*e)(const EVP_PKEY *, unsigned char **), int (*mi)(const EVP_PKEY *), int (*c)(EVP_PKEY *, const EVP_PKEY *), int (*q)(const EVP_PKEY *, const EVP_PKEY *), int (*p)(BIO *, const EVP_PKEY *, int, ASN1_PCTX *)) { MM(set_param); m->pd = d; m->pe = e; m->pm = mi; m->pc = c; m->pcmp = q; m->pp = p; }
void EVP_PKEY_asn1_set_private(EVP_PKEY_ASN1_METHOD *m, int (*d)(EVP_PKEY *, const PKCS8_PRIV_KEY_INFO *), int (*e)(PKCS8_PRIV_KEY_INFO *, const EVP_PKEY *), int (*p)(BIO *, const EVP_PKEY *, int, ASN1_PCTX *)) { MM(set_private); m->kd = d; m->ke = e; m->kp = p; }
void EVP_PKEY_asn1_set_public(EVP_PKEY_ASN1_METHOD *m, int (*d)(EVP_PKEY *, const X509_PUBKEY *), int (*e)(X509_PUBKEY *, const EVP_PKEY *), int (*c)(const EVP_PKEY *, const EVP_PKEY *), int (*p)(BIO *, const EVP_PKEY *, int, ASN1_PCTX *), int (*s)(const EVP_PKEY *), int (*b)(const EVP_PKEY *)) { MM(set_public); m->ud = d; m->ue = e; m->uc = c; m->up = p; m->sz = s; m->bits = b; }
void EVP_PKEY_asn1_set_free(EVP_PKEY_ASN1_METHOD *m, void (*f)(EVP_PKEY *)) { MM(set_free); m->fr = f; }
void EVP_PKEY_asn1_set_ctrl(EVP_PKEY_ASN1_METHOD *m, int (*f)(EVP_PKEY *, int, long, void *)) { MM(set_ctrl); m->ct = f; }
#define DECODE_2ND_ARG_IS_CONST
#include "ameth.c"
#ifndef METH_FAIL
#define METH_FAIL 1
#endif
#define LENID(x) ((x) == NID_dstu4145le)
#define DSTUID(x) ((x) == NID_dstu4145le || (x) == NID_dstu4145be)
static EVP_PKEY PK;
static void mk(void)
{
    LIB_MAY_FAIL = LIB_FAILED = LIVE = CTX_DEPTH = POOL_N = POOL_DEAD = NBIN = NB_ = NEXP = NADD = NKFA = NAFK = ND2P = NI2P = ND2I = NI2O = NSET0 = SET_N = NASSIGN = NNIDOBJ = NPRINT = 0; J = nd_int(); K = nd_int(); REQUIRES(0 <= J && 0 <= K && K < 64);
    PARLEN = nd_int(); REQUIRES(PARLEN >= 2 && PARLEN < 5000); PARTAG = nd_u64(); KFA_GEN = nd_u64(); XP_ID = nd_u64(); for (int i = 0; i < 64; i++) default_sbox[i] = nd_u8();
}
/* a key with or without its parts, all owned */
static DSTU_KEY *anykey(_Bool full)
{
    DSTU_KEY *k = malloc(sizeof *k); REQUIRES(k != NULL); EC_KEY *e = malloc(sizeof *e); REQUIRES(e != NULL); LIVE += 2; k->ec = e; k->sbox = NULL; e->group = NULL; e->priv = NULL; e->pub = NULL;
    if (nd_bool()) { u8 *s = malloc(64); REQUIRES(s != NULL); LIVE++; k->sbox = s; }
    if (full || nd_bool()) { EC_GROUP *g = grp_new(); REQUIRES(g->degree >= 3 && g->degree <= 700 && bv_bits(g->order) >= 2); e->group = g; if (nd_bool()) { BIGNUM *d = malloc(sizeof *d); REQUIRES(d != NULL); LIVE++; d->v = nd_bv(); REQUIRES(d->v != 0); d->neg = 0; e->priv = d; } if (nd_bool()) { EC_POINT *q = malloc(sizeof *q); REQUIRES(q != NULL); LIVE++; q->id = nd_u64(); e->pub = q; } }
    return k;
}
static void endpk(const char *x) { dstu_asn1_pkey_free(&PK); PK.ptr = NULL; }
void h_pdec(void)
{
    mk(); PK.ptr = nd_bool() ? anykey(0) : NULL; void *p0 = PK.ptr; PK.id = nd_bool() ? NID_dstu4145le : NID_dstu4145be; int id = PK.id, n = nd_int(); REQUIRES(n >= 0 && n < 5000); u8 *in = malloc(n + 1); REQUIRES(in != NULL); const u8 *q = in; LIB_MAY_FAIL = 1;
    int r = dstu_asn1_param_decode(&PK, &q, n);
    ENSURES(r == 0 || r == 1, "decoding parameters answers 0 or 1"); ENSURES(IMP(r, ND2P == 1 && D2P_OK && NKFA == 1 && KFA_OK && !LIB_FAILED && NASSIGN == 1), "parameters are accepted only if they parse and describe a key"); ENSURES(IMP(!LIB_FAILED && D2P_OK && KFA_OK && NKFA, r), "valid parameters are accepted"); ENSURES(IMP(!LIB_FAILED && D2P_OK, NKFA == 1), "parsed parameters are used");
    ENSURES(ND2P == 1 && D2P_AT == in && D2P_LEN == n, "exactly the given bytes are parsed"); ENSURES(IMP(NKFA, KFA_LE == LENID(id)), "parameters are read in the byte order of the key's type"); ENSURES(PK.id == id, "the key's type stays");
    if (r) { DSTU_KEY *k = PK.ptr; ENSURES(k && k->ec->group->gen == KFA_GEN, "the key gets the decoded parameters"); REACH("parameters decoded"); } else ENSURES(PK.ptr == p0 || PK.ptr == NULL, "a refused decoding assigns nothing");
    endpk(""); ENSURES(LIVE == 0, "decoding parameters leaks nothing"); REACH("param decode");
}
void h_penc(void)
{
    mk(); PK.ptr = nd_bool() ? anykey(0) : NULL; PK.id = nd_bool() ? NID_dstu4145le : NID_dstu4145be; REQUIRES(J < PARLEN); u8 *out = NULL; LIB_MAY_FAIL = 1; _Bool hg = PK.ptr && ((DSTU_KEY *)PK.ptr)->ec->group;
    int r = dstu_asn1_param_encode(&PK, &out); LIB_MAY_FAIL = 0;
    ENSURES(IMP(r > 0, hg && !LIB_FAILED && r == PARLEN && out && out[J] == __CPROVER_uninterpreted_parbyte(PARTAG, J) && AFK_K == PK.ptr && AFK_LE == LENID(PK.id)), "the key's parameters are encoded in the byte order of its type"); ENSURES(IMP(hg && !LIB_FAILED, r > 0), "every key with parameters can be encoded"); ENSURES(IMP(r <= 0, out == NULL), "failure delivers nothing");
    if (r > 0) { REACH("parameters encoded"); CRYPTO_free(out, "", 0); } endpk(""); ENSURES(LIVE == 0, "encoding parameters leaks nothing"); REACH("param encode");
}
static u8 *keydata; static int kn; static u8 kj, kr;
static void mkin(void) { kn = nd_int(); REQUIRES(kn >= 0 && kn < 5000); keydata = malloc(kn + 1); REQUIRES(keydata != NULL); if (J < kn) { kj = keydata[J]; kr = keydata[kn - 1 - J]; } ALGOBJ.nid = ALG_NID = nd_int(); ALG_TYPE = nd_int(); static ASN1_STRING S; S.length = nd_int(); REQUIRES(S.length >= 0 && S.length < 5000); S.data = nd_bool() ? malloc(S.length + 1) : NULL; if (ALG_TYPE == V_ASN1_SEQUENCE) ALG_VAL = &S; else ALG_VAL = NULL; PK.ptr = nd_bool() ? anykey(0) : NULL; PK.id = nd_int(); }
void h_kdec(void)
{
    mk(); mkin(); struct pkcs8_priv_key_info_st P8 = { keydata, kn }; LIB_MAY_FAIL = 1; REQUIRES(J < kn || kn == 0);
    int r = dstu_asn1_priv_decode(&PK, &P8);
    _Bool ok = DSTUID(ALG_NID) && ALG_TYPE == V_ASN1_SEQUENCE && ALG_VAL->data;
    ENSURES(r == 0 || r == 1, "decoding a private key answers 0 or 1"); ENSURES(IMP(r, ok && !LIB_FAILED && D2P_OK && KFA_OK && ND2P == 1), "a private key is accepted only under the two algorithms and with valid parameters"); ENSURES(IMP(ok && !LIB_FAILED && kn > 0, ND2P == 1), "the parameters are decoded"); ENSURES(IMP(ok && !LIB_FAILED && kn > 0 && D2P_OK && KFA_OK && NKFA, r), "a valid private key is accepted");
    ENSURES(IMP(ND2P, D2P_AT == ALG_VAL->data && D2P_LEN == ALG_VAL->length) && IMP(NKFA, KFA_LE == LENID(ALG_NID)), "the parameters decoded are the algorithm's, in its byte order");
    if (r) { DSTU_KEY *k = PK.ptr; ENSURES(PK.id == ALG_NID, "the key has the algorithm's type"); ENSURES(k && k->ec->group->gen == KFA_GEN && k->ec->priv && k->ec->pub, "the key is complete"); int i = (int)k->ec->priv->v - 1000; ENSURES(i >= 0 && i < NB_ && i < 4 && BIN[i].len == kn && BINB[i] == kr && !k->ec->priv->neg, "the private scalar is the little-endian number in the container"); ENSURES(k->ec->pub->id == __CPROVER_uninterpreted_pub(k->ec->priv->v), "the public key is derived from it"); REACH("private key decoded"); }
    endpk(""); ENSURES(LIVE == 0, "decoding a private key leaks nothing"); FRAME(IMP(kn, keydata[J] == kj), "the container is left alone"); REACH("priv decode");
}
static void endset(void) { if (NSET0) { ASN1_STRING_free(S0_PAR); CRYPTO_free(S0_KEY, "", 0); } }
void h_kenc(void)
{
    mk(); PK.ptr = nd_bool() ? anykey(0) : NULL; PK.id = nd_int(); DSTU_KEY *k = PK.ptr; const BIGNUM *d = k ? k->ec->priv : NULL; _Bool ok = DSTUID(PK.id) && k && k->ec->group && d; bv dv = d ? d->v : (bv)0; int n = d ? (bv_bits(d->v) + 7) / 8 : 0; struct pkcs8_priv_key_info_st P8; LIB_MAY_FAIL = 1;
    int r = dstu_asn1_priv_encode(&P8, &PK); LIB_MAY_FAIL = 0;
    ENSURES(r == 0 || r == 1, "encoding a private key answers 0 or 1"); ENSURES(IMP(r, ok && !LIB_FAILED) && IMP(ok && !LIB_FAILED, r), "exactly a complete private key of the two types is encoded"); ENSURES(NSET0 == r, "the container is filled exactly on success");
    if (r) { ENSURES(S0_IN == &P8 && S0_NID == PK.id && S0_TYPE == V_ASN1_SEQUENCE && S0_VER == 0, "the container names the key's type, with parameters"); ENSURES(S0_PAR && S0_PAR->length == PARLEN && IMP(J < PARLEN, S0_PAR->data && S0_PAR->data[J] == __CPROVER_uninterpreted_parbyte(PARTAG, J)) && AFK_K == k && AFK_LE == LENID(PK.id), "the container holds the key's parameters");
        ENSURES(S0_LEN == n && IMP(J < n, S0_KEY[J] == __CPROVER_uninterpreted_byteof(dv, n - 1 - J)), "the container holds the private scalar as a little-endian number"); REACH("private key encoded"); }
    FRAME(IMP(d, k->ec->priv == d && d->v == dv), "the key is left alone"); endset(); endpk(""); ENSURES(LIVE == 0, "encoding a private key leaks nothing"); REACH("priv encode");
}
void h_udec(void)
{
    mk(); mkin(); struct X509_pubkey_st PU = { keydata, kn }; LIB_MAY_FAIL = 1; REQUIRES(J < kn || kn == 0);
    int r = dstu_asn1_pub_decode(&PK, &PU);
    _Bool ok = DSTUID(ALG_NID) && ALG_TYPE == V_ASN1_SEQUENCE && ALG_VAL->data; _Bool le = LENID(ALG_NID);
    ENSURES(r == 0 || r == 1, "decoding a public key answers 0 or 1"); ENSURES(IMP(r, ok && !LIB_FAILED && D2P_OK && KFA_OK && ND2P == 1 && ND2I == 1 && D2I_OK && NEXP == 1 && XP_OK), "a public key is accepted only under the two algorithms, with valid parameters and a point that expands"); ENSURES(IMP(ok && !LIB_FAILED, ND2P == 1) && IMP(ok && !LIB_FAILED && D2P_OK && KFA_OK && NKFA, ND2I == 1) && IMP(!LIB_FAILED && ND2I && D2I_OK && D2I_N > 0, NEXP == 1) && IMP(!LIB_FAILED && NEXP && XP_OK, r), "a valid public key is accepted");
    ENSURES(IMP(ND2P, D2P_AT == ALG_VAL->data && D2P_LEN == ALG_VAL->length) && IMP(NKFA, KFA_LE == le), "the parameters decoded are the algorithm's, in its byte order"); ENSURES(IMP(ND2I, D2I_IN == keydata && D2I_LEN == kn), "the octet string is read from the key bits");
    ENSURES(IMP(NEXP, XP_LEN == D2I_N && IMP(J < D2I_N, XP_J == (le ? D2I_R : D2I_J)) && XP_G == ((DSTU_KEY *)PK.ptr)->ec->group), "the point is expanded on the key's curve from the octets in the algorithm's byte order");
    if (r) { DSTU_KEY *k = PK.ptr; ENSURES(PK.id == ALG_NID && k && k->ec->group->gen == KFA_GEN && k->ec->pub && k->ec->pub->id == XP_ID && !k->ec->priv, "the key holds the parameters and the public point"); REACH("public key decoded"); }
    endpk(""); ENSURES(LIVE == 0, "decoding a public key leaks nothing"); FRAME(IMP(kn, keydata[J] == kj), "the container is left alone"); REACH("pub decode");
}
void h_uenc(void)
{
    mk(); PK.ptr = nd_bool() ? anykey(0) : NULL; PK.id = nd_int(); DSTU_KEY *k = PK.ptr; const EC_POINT *q = k ? k->ec->pub : NULL; _Bool ok = DSTUID(PK.id) && k && k->ec->group && q; u64v qi = q ? q->id : 0; int n = ok ? (k->ec->group->degree + 7) / 8 : 0; struct X509_pubkey_st PU; LIB_MAY_FAIL = 1;
    int r = dstu_asn1_pub_encode(&PU, &PK); LIB_MAY_FAIL = 0; _Bool le = LENID(PK.id);
    ENSURES(r == 0 || r == 1, "encoding a public key answers 0 or 1"); ENSURES(IMP(r, ok && !LIB_FAILED) && IMP(ok && !LIB_FAILED, r), "exactly a public key of the two types is encoded"); ENSURES(NSET0 == r, "the container is filled exactly on success");
    if (r) { ENSURES(S0_IN == &PU && S0_NID == PK.id && S0_TYPE == V_ASN1_SEQUENCE, "the container names the key's type, with parameters"); ENSURES(S0_PAR && S0_PAR->length == PARLEN && IMP(J < PARLEN, S0_PAR->data && S0_PAR->data[J] == __CPROVER_uninterpreted_parbyte(PARTAG, J)) && AFK_K == k && AFK_LE == le, "the container holds the key's parameters");
        ENSURES(NI2O == 1 && S0_KEY == I2O_P && S0_LEN == DERLEN(I2O_LEN) && I2O_LEN == n && IMP(J < n, I2O_J == __CPROVER_uninterpreted_pbyteof(qi, le ? n - 1 - J : J)), "the container holds the octet string of the compressed point in the algorithm's byte order"); REACH("public key encoded"); }
    endset(); endpk(""); ENSURES(LIVE == 0, "encoding a public key leaks nothing"); REACH("pub encode");
}
void h_size(void)
{
    mk(); PK.ptr = nd_bool() ? anykey(0) : NULL; DSTU_KEY *k = PK.ptr; const EC_GROUP *g = k ? k->ec->group : NULL; LIB_MAY_FAIL = 1;
    int b = dstu_asn1_pkey_bits(&PK); ENSURES(b == (g ? g->degree : 0) && LIVE >= 0, "the size in bits is the field degree"); int l0 = LIVE, s = dstu_asn1_pkey_size(&PK);
    ENSURES(IMP(!LIB_FAILED, s == (g ? DERLEN(2 * ((bv_bits(g->order) + 7) / 8)) : 0)), "the signature size is that of an octet string of two scalars"); ENSURES(IMP(LIB_FAILED, s == 0), "failure gives no size"); ENSURES(LIVE == l0, "sizing leaks nothing"); if (s) REACH("size"); endpk(""); ENSURES(LIVE == 0, "freeing a key releases everything"); REACH("sized");
}
void h_ctrl(void)
{
    mk(); PK.ptr = NULL; PK.id = nd_int(); int op = nd_int(); long a1; static int OUT; void *a2 = &OUT; OUT = -5; int r = dstu_asn1_pkey_ctrl(&PK, op, a1, a2); _Bool sg = op == ASN1_PKEY_CTRL_PKCS7_SIGN || op == ASN1_PKEY_CTRL_CMS_SIGN;
    ENSURES(IMP(op == ASN1_PKEY_CTRL_DEFAULT_MD_NID, r == 2 && OUT == NID_dstu34311), "the mandatory digest is the standard's hash"); ENSURES(IMP(!sg && op != ASN1_PKEY_CTRL_DEFAULT_MD_NID, r == 0 && SET_N == 0), "other requests are refused"); ENSURES(IMP(sg && a1, r == 1 && SET_N == 0), "nothing is done after signing");
    ENSURES(IMP(sg && !a1 && PK.id != NID_undef, r == 1 && SET_N == 2 && SI_IN == a2 && SET_NID[0] == NID_dstu34311 && SET_NID[1] == PK.id && SET_T[0] == V_ASN1_NULL && SET_T[1] == V_ASN1_NULL), "a signer info names the standard's hash and the key's algorithm"); ENSURES(IMP(sg && !a1 && PK.id == NID_undef, r == -1), "a key without a type cannot sign"); FRAME(IMP(op != ASN1_PKEY_CTRL_DEFAULT_MD_NID, OUT == -5), "nothing else is written"); REACH("ctrl");
}
void h_meth(void)
{
    mk(); int nid = nd_int(); LIB_MAY_FAIL = METH_FAIL; EVP_PKEY_ASN1_METHOD *m = dstu_asn1_meth_new(nid);
    ENSURES(IMP(m, DSTUID(nid)) && IMP(DSTUID(nid) && !LIB_FAILED, m != NULL), "methods exist for exactly the two algorithms");
    if (m) { ENSURES(m->id == nid && m->pem && m->info, "the method has its algorithm"); ENSURES(m->pd == dstu_asn1_param_decode && m->pe == dstu_asn1_param_encode && m->pc == dstu_asn1_param_copy && m->pcmp == dstu_asn1_param_cmp && m->kd == dstu_asn1_priv_decode && m->ke == dstu_asn1_priv_encode && m->ud == dstu_asn1_pub_decode && m->ue == dstu_asn1_pub_encode && m->uc == dstu_asn1_pub_cmp && m->sz == dstu_asn1_pkey_size && m->bits == dstu_asn1_pkey_bits && m->fr == dstu_asn1_pkey_free && m->ct == dstu_asn1_pkey_ctrl && m->pp == dstu_asn1_param_print && m->kp == dstu_asn1_priv_print && m->up == dstu_asn1_pub_print, "the method is complete"); REACH("method"); }
    dstu_asn1_meth_free(m); ENSURES(LIVE == 0, "freeing the method releases it"); REACH("meth");
}
void h_print(void)
{
    mk(); DSTU_KEY *k = nd_bool() ? anykey(0) : NULL; PK.ptr = k; int w = nd_int(); LIB_MAY_FAIL = 1; SET1EC = NULL; int l0 = LIVE, r = w == 1 ? dstu_asn1_param_print(NULL, &PK, 0, NULL) : w == 2 ? dstu_asn1_priv_print(NULL, &PK, 0, NULL) : dstu_asn1_pub_print(NULL, &PK, 0, NULL);
    ENSURES(IMP(NPRINT, k && SET1EC == k->ec && r == PRINT_RET && PRINT_KIND == (w == 1 || w == 2 ? w : 3)), "printing prints the asked part of the key"); ENSURES(IMP(k && !LIB_FAILED, NPRINT == 1) && IMP(!NPRINT, r == 0), "printing prints or fails"); ENSURES(LIVE == l0, "printing leaks nothing"); REACH("print");
}
/* ---- C17 */
static EVP_PKEY PB;
void h_pcmp(void)
{
    mk(); PK.ptr = nd_bool() ? anykey(0) : NULL; PB.ptr = nd_bool() ? anykey(0) : NULL; DSTU_KEY *a = PK.ptr, *b = PB.ptr; LIB_MAY_FAIL = 1; NGCMP = 0; if (a && b && nd_bool() && !a->sbox && !b->sbox) ;
    const u8 *x = a && a->sbox ? a->sbox : default_sbox, *y = b && b->sbox ? b->sbox : default_sbox; _Bool have = a && b && a->ec->group && b->ec->group, sameg = have && grp_eq(a->ec->group, b->ec->group), samek = x[K] == y[K]; _Bool sames = 1; for (int i = 0; i < 64; i++) sames = sames && x[i] == y[i];
    int r = dstu_asn1_param_cmp(&PK, &PB); int l = LIVE;
    ENSURES(IMP(!a || !b, r == -2), "without both keys parameters are not comparable"); ENSURES(IMP(r == 1, have && sameg && samek), "parameters compare equal only for the same curve and S-box"); ENSURES(IMP(have && !LIB_FAILED, r == (sameg && sames)), "the same curve and S-box compare equal, stored or implied"); ENSURES(IMP(have && r != 1, r == 0), "unequal parameters answer 0"); ENSURES(IMP(!have, r != 1), "missing parameters are never equal"); REACH("param cmp"); if (r == 1) REACH("equal");
}
void h_ucmp(void)
{
    mk(); PK.ptr = nd_bool() ? anykey(0) : NULL; PB.ptr = nd_bool() ? anykey(0) : NULL; DSTU_KEY *a = PK.ptr, *b = PB.ptr; LIB_MAY_FAIL = 1;
    _Bool have = a && b && a->ec->group && a->ec->pub && b->ec->pub; int r = dstu_asn1_pub_cmp(&PK, &PB);
    ENSURES(IMP(have && !LIB_FAILED, r == (a->ec->pub->id == b->ec->pub->id)), "public keys compare equal exactly for the same point"); ENSURES(IMP(r == 1, have && a->ec->pub->id == b->ec->pub->id), "public keys are equal only if both exist and are the same point"); ENSURES(IMP(!a || !b, r == -2), "without both keys they are not comparable"); REACH("pub cmp"); if (r == 1) REACH("equal"); if (have && r == 0) REACH("different");
}
void h_pcopy(void)
{
    mk(); PK.ptr = nd_bool() ? anykey(0) : NULL; PB.ptr = nd_bool() ? anykey(0) : NULL; PK.id = NID_dstu4145le; PB.id = nd_bool() ? NID_dstu4145le : NID_dstu4145be; DSTU_KEY *t = PK.ptr, *f = PB.ptr; u8 sk = f && f->sbox ? f->sbox[K] : 0; u64v gg = f && f->ec->group ? f->ec->group->gen : 0; const EC_GROUP *fg = f ? f->ec->group : NULL; u8 *fs = f ? f->sbox : NULL; LIB_MAY_FAIL = 1;
    int r = dstu_asn1_param_copy(&PK, &PB);
    ENSURES(r == 0 || r == 1, "copying parameters answers 0 or 1"); ENSURES(IMP(r, f && fg && !LIB_FAILED) && IMP(f && fg && !LIB_FAILED, r), "parameters are copied exactly from a key that has them");
    if (r) { DSTU_KEY *k = PK.ptr; ENSURES(k && k->ec->group && k->ec->group != fg && k->ec->group->gen == gg, "the copy has the curve, as its own"); ENSURES(fs ? k->sbox && k->sbox != fs && k->sbox[K] == sk : k->sbox == NULL, "the copy has the S-box, as its own, or none"); ENSURES(IMP(t, k == t) && IMP(!t, PK.id == PB.id), "the target key is kept, or made with the source's type"); REACH("copied"); }
    FRAME(PB.ptr == f && IMP(f, f->ec->group == fg && f->sbox == fs && IMP(fs, fs[K] == sk)), "the source is left alone"); dstu_asn1_pkey_free(&PK); dstu_asn1_pkey_free(&PB); ENSURES(LIVE == 0, "copying parameters leaks nothing"); REACH("param copy");
}
