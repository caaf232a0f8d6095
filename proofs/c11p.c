/* C11 / C17: the EVP key methods around key generation and contexts (pmeth.c). */
#define BN_ABSTRACT
#include "common.h"
#include "key_contract.h"
#include <openssl/ec.h>
unsigned char default_sbox[64];
static int J;
struct evp_md_st { int type; };
int EVP_MD_get_type(const EVP_MD *m) { CALLPRE(m != NULL, "EVP_MD_type: a digest"); return m->type; }
static const char *SN_IN; static int SN_NID;
int OBJ_sn2nid(const char *s) { SN_IN = s; SN_NID = nd_int(); return SN_NID; }
static int HEXN, HEXNEG; static bv HEXV; static const char *HEX_IN;
int BN_hex2bn(BIGNUM **b, const char *s) { HEX_IN = s; HEXN = nd_int(); __CPROVER_assume(HEXN >= 0); if (!HEXN) return 0; bv x; HEXV = x; (*b)->v = x; HEXNEG = nd_bool(); __CPROVER_assume(HEXN > 200 || bv_bits(x) <= 4 * (HEXN - HEXNEG)); (*b)->neg = HEXNEG && x != 0; return HEXN; }
/* bn_encode: contract proved in C12 */
static u8 ENC_J; static int NENC;
int bn_encode(const BIGNUM *bn, unsigned char *buf, int len)
{ CALLPRE(len > 0 && __CPROVER_w_ok(buf, len), "bn_encode: writable buffer"); NENC++; __CPROVER_havoc_slice(buf, len); ENC_J = buf[J]; if (bn->v == 0) return 0; int n = nd_int(); __CPROVER_assume(n >= 0 && n <= len); return n; }
u64v __CPROVER_uninterpreted_pub(bv);
/* dstu_generate_key: contract proved above */
static int NGEN; static u64v GEN_GROUP;
int dstu_generate_key(EC_KEY *key)
{ CALLPRE(key && !key->priv, "dstu_generate_key: a key"); NGEN++; if (!key->group) return 0; GEN_GROUP = key->group->gen; LIBFAIL(0); BIGNUM *d = malloc(sizeof *d); __CPROVER_assume(d != NULL); bv x; d->v = x; d->neg = 0; EC_POINT *q = malloc(sizeof *q); __CPROVER_assume(q != NULL);
  q->id = __CPROVER_uninterpreted_pub(x); LIVE += 2; key->priv = d; key->pub = q; return 1; }
int dstu_do_sign(const EC_KEY *k, const unsigned char *t, size_t tl, unsigned char *s); int dstu_do_verify(const EC_KEY *k, const unsigned char *t, size_t tl, const unsigned char *s, size_t n);
/* registration of the methods */
struct evp_pkey_method_st { int id, flags; void *init, *cleanup, *kgi, *keygen, *ctrl, *ctrl_str, *si, *sign, *vi, *verify, *copy; };
EVP_PKEY_METHOD *EVP_PKEY_meth_new(int id, int flags) { LIBFAIL(NULL); LIVE++; EVP_PKEY_METHOD *m = malloc(sizeof *m); __CPROVER_assume(m != NULL); memset(m, 0, sizeof *m); m->id = id; m->flags = flags; return m; }
void EVP_PKEY_meth_free(EVP_PKEY_METHOD *m) { if (m) { LIVE--; free(m); } }
void EVP_PKEY_meth_set_init(EVP_PKEY_METHOD *m, int (*f)(EVP_PKEY_CTX *)) { m->init = f; }
void EVP_PKEY_meth_set_cleanup(EVP_PKEY_METHOD *m, void (*f)(EVP_PKEY_CTX *)) { m->cleanup = f; }
void EVP_PKEY_meth_set_keygen(EVP_PKEY_METHOD *m, int (*i)(EVP_PKEY_CTX *), int (*f)(EVP_PKEY_CTX *, EVP_PKEY *)) { m->kgi = i; m->keygen = f; }
void EVP_PKEY_meth_set_ctrl(EVP_PKEY_METHOD *m, int (*c)(EVP_PKEY_CTX *, int, int, void *), int (*s)(EVP_PKEY_CTX *, const char *, const char *)) { m->ctrl = c; m->ctrl_str = s; }
void EVP_PKEY_meth_set_sign(EVP_PKEY_METHOD *m, int (*i)(EVP_PKEY_CTX *), int (*f)(EVP_PKEY_CTX *, unsigned char *, size_t *, const unsigned char *, size_t)) { m->si = i; m->sign = f; }
void EVP_PKEY_meth_set_verify(EVP_PKEY_METHOD *m, int (*i)(EVP_PKEY_CTX *), int (*f)(EVP_PKEY_CTX *, const unsigned char *, size_t, const unsigned char *, size_t)) { m->vi = i; m->verify = f; }
void EVP_PKEY_meth_set_copy(EVP_PKEY_METHOD *m, int (*f)(EVP_PKEY_CTX *, const EVP_PKEY_CTX *)) { m->copy = f; }
#define COPY_2ND_ARG_IS_CONST
#include "pmeth.c"
static EVP_PKEY PK; static EVP_PKEY_CTX PC; static DSTU_KEY_CTX *C; static u8 sbj; static u64v gen0; static _Bool hasC, hasG, hasS;
static void mk(void)
{
    LIB_MAY_FAIL = 0; LIVE = 0; hasC = nd_bool(); hasG = nd_bool(); hasS = nd_bool(); J = nd_int(); REQUIRES(0 <= J && J < 64); C = NULL; PC.pkey = NULL; PK.ptr = NULL; PK.id = 0;
    if (hasC) { C = DSTU_KEY_CTX_new(); C->type = nd_bool() ? NID_dstu4145le : NID_dstu4145be; if (hasG) { C->group = grp_new(); C->group->gen = gen0 = nd_u64(); REQUIRES(gen0 != CURVEGEN(6)); } if (hasS) { LIVE++; C->sbox = malloc(64); REQUIRES(C->sbox != NULL); sbj = C->sbox[J]; } }
    PC.data = C; LIB_MAY_FAIL = 1; LIB_FAILED = NGEN = NASSIGN = NENC = 0;
}
static int ctx_live(void) { return C ? 1 + (C->group != NULL) + (C->sbox != NULL) : 0; }
void h_keygen(void)
{
    mk(); int type = hasC ? C->type : 0; EC_GROUP *g0 = hasC ? C->group : NULL;
    int r = dstu_pkey_keygen(&PC, &PK);
    ENSURES(r == 0 || r == 1, "keygen answers 0 or 1");
    ENSURES(IMP(r == 1, hasC && !LIB_FAILED && NGEN == 1 && NASSIGN == 1 && PK.id == type && PK.ptr), "a generated key is assigned with the context's type");
    if (r == 1) { DSTU_KEY *k = PK.ptr; u64v want = hasG ? gen0 : CURVEGEN(6);
        ENSURES(k->ec && k->ec->group && k->ec->group->gen == want && GEN_GROUP == want && k->ec->group != C->group, "the key is on the context's curve, or the default curve if none was chosen");
        ENSURES(k->ec->priv && k->ec->pub && k->ec->pub->id == __CPROVER_uninterpreted_pub(k->ec->priv->v), "the key has its private and public part");
        ENSURES(IMP(hasS, k->sbox && k->sbox != C->sbox && k->sbox[J] == sbj) && IMP(!hasS, k->sbox == NULL), "the key carries its own copy of the context's S-box, if any");
        ENSURES(LIVE == ctx_live() + 5 + (hasS ? 1 : 0), "keygen leaks nothing"); }
    else ENSURES(LIVE == ctx_live() && PK.ptr == NULL, "failed keygen leaks nothing and assigns nothing");
    ENSURES(IMP(hasC && !LIB_FAILED, r == 1), "keygen succeeds whenever the library works");
    FRAME(IMP(hasC, C->type == type && IMP(hasG, C->group == g0 && g0->gen == gen0) && IMP(hasS, C->sbox && C->sbox[J] == sbj)), "keygen leaves the context's parameters alone");
    REACH("keygen"); if (r == 1) REACH("generated");
}
void h_ctrl(void)
{
    mk(); int op = nd_int(), p1 = nd_int(), type = hasC ? C->type : 0; u8 *sb = NULL; EC_GROUP *g = NULL; EVP_MD md; md.type = nd_int(); void *p2 = NULL; int own = 0;
    if (op == DSTU_SET_CUSTOM_SBOX) { if (nd_bool()) { REQUIRES(p1 >= 0 && p1 <= 128); sb = malloc(p1); REQUIRES(sb != NULL); p2 = sb; } }
    else if (op == DSTU_SET_CURVE) { if (nd_bool()) { g = grp_new(); own = 1; g->gen = nd_u64(); p2 = g; } }
    else if (op == EVP_PKEY_CTRL_MD) p2 = &md;
    u8 want = sb && p1 == 64 ? sb[J] : 0; EC_GROUP *g0 = hasC ? C->group : NULL; u8 *s0 = hasC ? C->sbox : NULL;
    int r = dstu_pkey_ctrl(&PC, op, p1, p2);
    ENSURES(r == 0 || r == 1, "ctrl answers 0 or 1"); ENSURES(IMP(!hasC, r == 0), "ctrl needs a DSTU context");
    ENSURES(IMP(hasC && op == DSTU_SET_CUSTOM_SBOX && !LIB_FAILED, r == (sb && p1 == 64)), "a custom S-box is accepted exactly if it has 64 bytes");
    ENSURES(IMP(op == DSTU_SET_CUSTOM_SBOX && r == 1, hasC && sb && p1 == 64 && C->sbox && C->sbox != sb && C->sbox[J] == want && C->group == g0), "setting the S-box stores a copy and leaves the curve alone");
    ENSURES(IMP(hasC && op == DSTU_SET_CURVE && !LIB_FAILED, r == (g != NULL)), "a curve is accepted if there is one");
    ENSURES(IMP(op == DSTU_SET_CURVE && r == 1, hasC && g && C->group && C->group != g && C->group->gen == g->gen && C->sbox == s0), "setting the curve stores a copy and leaves the S-box alone");
    ENSURES(IMP(hasC && op == EVP_PKEY_CTRL_MD, r == (md.type == NID_dstu34311)), "only the DSTU digest can be signed with");
    ENSURES(IMP(hasC && (op == EVP_PKEY_CTRL_DIGESTINIT || op == EVP_PKEY_CTRL_PKCS7_SIGN || op == EVP_PKEY_CTRL_CMS_SIGN || op == EVP_PKEY_CTRL_PKCS7_ENCRYPT || op == EVP_PKEY_CTRL_PKCS7_DECRYPT), r == 1), "digest and CMS/PKCS7 controls are accepted");
    _Bool known = op == DSTU_SET_CUSTOM_SBOX || op == DSTU_SET_CURVE || op == EVP_PKEY_CTRL_MD || op == EVP_PKEY_CTRL_DIGESTINIT || op == EVP_PKEY_CTRL_PKCS7_SIGN || op == EVP_PKEY_CTRL_CMS_SIGN || op == EVP_PKEY_CTRL_PKCS7_ENCRYPT || op == EVP_PKEY_CTRL_PKCS7_DECRYPT;
    ENSURES(IMP(!known, r == 0), "other controls are refused");
    FRAME(IMP(hasC && (r == 0 || (op != DSTU_SET_CUSTOM_SBOX && op != DSTU_SET_CURVE)), C->group == g0 && C->sbox == s0 && IMP(hasS, s0[J] == sbj) && IMP(hasG, g0->gen == gen0)) && IMP(hasC, C->type == type), "a refused control changes nothing");
    ENSURES(LIVE == ctx_live() + own, "ctrl leaks nothing");
    REACH("ctrl"); if (r == 1 && sb) REACH("sbox set"); if (r == 1 && g) REACH("curve set");
}
void h_ctrl_str(void)
{
    mk(); char t[8]; int l = nd_int(); REQUIRES(0 <= l && l < 8); t[l] = 0; char v[4]; v[3] = 0; u8 *s0 = hasC ? C->sbox : NULL; EC_GROUP *g0 = hasC ? C->group : NULL;
    _Bool cv = t[0] == 'c' && t[1] == 'u' && t[2] == 'r' && t[3] == 'v' && t[4] == 'e' && t[5] == 0, sx = t[0] == 's' && t[1] == 'b' && t[2] == 'o' && t[3] == 'x' && t[4] == 0;
    SN_IN = HEX_IN = NULL; SN_NID = 0; HEXN = 0;
    int r = dstu_pkey_ctrl_str(&PC, t, v);
    ENSURES(r == 0 || r == 1, "ctrl_str answers 0 or 1"); ENSURES(IMP(!cv && !sx, r == 0), "only curve and sbox are known parameters");
    ENSURES(IMP(cv && hasC && !LIB_FAILED, SN_IN == v && r == (curve_of_nid(SN_NID) >= 0)), "a curve is set exactly for the name of a standard curve");
    ENSURES(IMP(cv && r, hasC && C->group && C->group->gen == CURVEGEN(curve_of_nid(SN_NID)) && C->sbox == s0), "the curve set is the one named");
    ENSURES(IMP(sx && r, hasC && HEX_IN == v && HEXN == 128 && !(HEXNEG && HEXV != 0) && NENC == 1 && C->sbox && C->sbox[J] == ENC_J && C->group == g0), "the S-box set is the 64 bytes of exactly 128 hexadecimal digits");
    ENSURES(IMP(sx && r == 0 && hasC && !LIB_FAILED, HEXN != 128 || HEXNEG || HEXV == 0 || NENC), "an S-box of 128 digits is not refused");
    FRAME(IMP(hasC && r == 0, C->group == g0 && C->sbox == s0 && IMP(hasS, s0[J] == sbj) && IMP(hasG, g0->gen == gen0)), "a refused parameter changes nothing");
    ENSURES(LIVE == ctx_live(), "ctrl_str leaks nothing");
    REACH("ctrl_str"); if (r && cv) REACH("curve named"); if (r && sx) REACH("sbox named");
}
void h_ctx(void)
{
    mk(); int type = hasC ? C->type : 0; EVP_PKEY_CTX D; D.pkey = NULL; D.data = NULL;
    int r = dstu_pkey_copy(&D, &PC); DSTU_KEY_CTX *n = D.data;
    ENSURES(IMP(!LIB_FAILED, r == 1) && (r == 0 || r == 1), "copying a context succeeds whenever the library works");
    ENSURES(IMP(r == 1 && hasC, n && n != C && n->type == type && IMP(hasG, n->group && n->group != C->group && n->group->gen == gen0) && IMP(!hasG, !n->group) && IMP(hasS, n->sbox && n->sbox != C->sbox && n->sbox[J] == sbj) && IMP(!hasS, !n->sbox)), "a copied context has its own copies of all parameters");
    ENSURES(IMP(!hasC || r == 0, n == NULL), "nothing is attached without a source context");
    FRAME(PC.data == C && IMP(hasC, C->type == type && IMP(hasG, C->group->gen == gen0) && IMP(hasS, C->sbox[J] == sbj)), "copying leaves the source alone");
    dstu_pkey_cleanup(&PC); ENSURES(PC.data == NULL, "cleanup detaches the context"); dstu_pkey_cleanup(&PC);
    ENSURES(LIVE == (n ? 1 + (n->group != NULL) + (n->sbox != NULL) : 0), "cleanup releases the context and only it");
    ENSURES(IMP(n && hasS, n->sbox[J] == sbj) && IMP(n && hasG, n->group->gen == gen0), "the copy survives the source");
    REACH("ctx"); if (n && hasG && hasS) REACH("copied");
}
void h_init(void)
{
    LIVE = 0; LIB_MAY_FAIL = 1; LIB_FAILED = 0; PC.data = NULL; _Bool le = nd_bool(); int nid = nd_int();
    int r = le ? dstu_pkey_init_le(&PC) : dstu_pkey_init_be(&PC); DSTU_KEY_CTX *c = PC.data;
    ENSURES(r == !LIB_FAILED && (c != NULL) == r && IMP(r, c->type == (le ? NID_dstu4145le : NID_dstu4145be) && !c->group && !c->sbox), "a new context has its method's type and no parameters");
    int l0 = LIVE; LIB_FAILED = 0; EVP_PKEY_METHOD *m = dstu_pkey_meth_new(nid); _Bool ok = nid == NID_dstu4145le || nid == NID_dstu4145be;
    ENSURES(IMP(!LIB_FAILED, (m != NULL) == ok) && IMP(!ok, m == NULL) && LIVE == l0 + (m != NULL), "methods exist exactly for the two DSTU algorithms");
    ENSURES(IMP(m, m->id == nid && m->init == (nid == NID_dstu4145le ? (void *)dstu_pkey_init_le : (void *)dstu_pkey_init_be)), "each algorithm's method initialises its own type");
    ENSURES(IMP(m, m->cleanup == (void *)dstu_pkey_cleanup && m->keygen == (void *)dstu_pkey_keygen && m->ctrl == (void *)dstu_pkey_ctrl && m->ctrl_str == (void *)dstu_pkey_ctrl_str && m->sign == (void *)dstu_pkey_sign && m->verify == (void *)dstu_pkey_verify && m->copy == (void *)dstu_pkey_copy), "the method table offers every operation");
    dstu_pkey_meth_free(m); ENSURES(LIVE == l0, "freeing the method releases it");
    REACH("init"); if (m) REACH("method");
}
