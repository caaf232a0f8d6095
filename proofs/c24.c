/* C24: what the engine serves and how it lives (engine/dstu.c), and the method of key operations (pmeth.c). */
#include "common.h"
#include <openssl/engine.h>
#include <openssl/objects.h>
#include <openssl/obj_mac.h>
#include <openssl/evp.h>
#include <openssl/err.h>
#include <openssl/rand.h>
#ifdef UNIT_PMETH
struct evp_pkey_method_st { int id, flags; void *init, *cleanup, *kg_init, *kg, *ctrl, *cstr, *s_init, *sign, *v_init, *verify, *copy; };
static struct evp_pkey_method_st PM; static int LIVEM, FAILM;
EVP_PKEY_METHOD *EVP_PKEY_meth_new(int id, int fl) { if (nd_bool()) { FAILM = 1; return NULL; } LIVEM++; memset(&PM, 0, sizeof PM); PM.id = id; PM.flags = fl; return &PM; }
void EVP_PKEY_meth_free(EVP_PKEY_METHOD *m) { if (m) { CALLPRE(m == &PM && LIVEM == 1, "meth_free: the live method"); LIVEM--; } }
void EVP_PKEY_meth_set_init(EVP_PKEY_METHOD *m, int (*f)(EVP_PKEY_CTX *)) { m->init = f; }
void EVP_PKEY_meth_set_cleanup(EVP_PKEY_METHOD *m, void (*f)(EVP_PKEY_CTX *)) { m->cleanup = f; }
void EVP_PKEY_meth_set_keygen(EVP_PKEY_METHOD *m, int (*i)(EVP_PKEY_CTX *), int (*f)(EVP_PKEY_CTX *, EVP_PKEY *)) { m->kg_init = i; m->kg = f; }
void EVP_PKEY_meth_set_ctrl(EVP_PKEY_METHOD *m, int (*f)(EVP_PKEY_CTX *, int, int, void *), int (*g)(EVP_PKEY_CTX *, const char *, const char *)) { m->ctrl = f; m->cstr = g; }
void EVP_PKEY_meth_set_sign(EVP_PKEY_METHOD *m, int (*i)(EVP_PKEY_CTX *), int (*f)(EVP_PKEY_CTX *, unsigned char *, size_t *, const unsigned char *, size_t)) { m->s_init = i; m->sign = f; }
void EVP_PKEY_meth_set_verify(EVP_PKEY_METHOD *m, int (*i)(EVP_PKEY_CTX *), int (*f)(EVP_PKEY_CTX *, const unsigned char *, size_t, const unsigned char *, size_t)) { m->v_init = i; m->verify = f; }
void EVP_PKEY_meth_set_copy(EVP_PKEY_METHOD *m, int (*f)(EVP_PKEY_CTX *, const EVP_PKEY_CTX *)) { m->copy = f; }
#include "pmeth.c"
void h_pmeth(void)
{
    LIVEM = FAILM = 0; int nid = nd_int(); EVP_PKEY_METHOD *m = dstu_pkey_meth_new(nid); _Bool le = nid == NID_dstu4145le, be = nid == NID_dstu4145be;
    ENSURES(!m == !((le || be) && !FAILM), "key operations exist for exactly the two algorithms"); ENSURES(IMP(!m, LIVEM == 0), "nothing leaks");
    if (m) { ENSURES(m->id == nid && m->flags == 0 && m->init == (le ? (void *)dstu_pkey_init_le : (void *)dstu_pkey_init_be), "the method is that of its algorithm"); ENSURES(m->cleanup == dstu_pkey_cleanup && m->kg == dstu_pkey_keygen && !m->kg_init && m->ctrl == dstu_pkey_ctrl && m->cstr == dstu_pkey_ctrl_str && m->sign == dstu_pkey_sign && !m->s_init && m->verify == dstu_pkey_verify && !m->v_init && m->copy == dstu_pkey_copy, "every key operation is the engine's"); dstu_pkey_meth_free(m); ENSURES(LIVEM == 0, "freeing releases it"); REACH("method"); }
    REACH("pmeth");
}
#else
struct engine_st { const char *id, *name; void *init, *finish, *destroy, *digests, *ciphers, *pm, *am; const RAND_METHOD *rand; int flags, rdig, rci, rpm, ram; };
struct evp_md_st { int x; }; struct evp_cipher_st { int x; }; struct evp_pkey_method_st { int nid; }; struct evp_pkey_asn1_method_st { int nid; };
static struct evp_md_st MD; static struct evp_cipher_st CI; static struct evp_pkey_method_st PM[2]; static struct evp_pkey_asn1_method_st AM[2];
static int LMD, LCI, LPM[2], LAM[2], FAILED, NAMED_MD_S, NAMED_MD_L, NAMED_CI_S, NAMED_CI_L, PBE, LOADED, NERR;
RAND_METHOD dstu_rand_meth;
/* contracts proved elsewhere: C07 (digest), C04 (cipher), C16 (asn1), unit pmeth (pkey) */
EVP_MD *dstu_digest_new() { CALLPRE(!LMD, "one digest method at a time"); if (nd_bool()) { FAILED = 1; return NULL; } LMD = 1; return &MD; }
void dstu_digest_free(EVP_MD *m) { if (m) { CALLPRE(m == &MD && LMD, "digest_free: a live method"); CALLPRE(!NAMED_MD_S && !NAMED_MD_L, "digest_free: a method no name leads to"); LMD = 0; } }
EVP_CIPHER *dstu_cipher_new() { CALLPRE(!LCI, "one cipher method at a time"); if (nd_bool()) { FAILED = 1; return NULL; } LCI = 1; return &CI; }
void dstu_cipher_free(EVP_CIPHER *m) { if (m) { CALLPRE(m == &CI && LCI, "cipher_free: a live method"); CALLPRE(!NAMED_CI_S && !NAMED_CI_L, "cipher_free: a method no name leads to"); LCI = 0; } }
EVP_PKEY_METHOD *dstu_pkey_meth_new(int nid) { if (nid != NID_dstu4145le && nid != NID_dstu4145be) return NULL; int i = nid == NID_dstu4145be; CALLPRE(!LPM[i], "one key method for each algorithm at a time"); if (nd_bool()) { FAILED = 1; return NULL; } LPM[i] = 1; PM[i].nid = nid; return &PM[i]; }
EVP_PKEY_ASN1_METHOD *dstu_asn1_meth_new(int nid) { if (nid != NID_dstu4145le && nid != NID_dstu4145be) return NULL; int i = nid == NID_dstu4145be; CALLPRE(!LAM[i], "one key encoding method for each algorithm at a time"); if (nd_bool()) { FAILED = 1; return NULL; } LAM[i] = 1; AM[i].nid = nid; return &AM[i]; }
void dstu_pkey_meth_free(EVP_PKEY_METHOD *m) { CALLPRE(0, "libcrypto frees the key methods"); }
void dstu_asn1_meth_free(EVP_PKEY_ASN1_METHOD *m) { CALLPRE(0, "libcrypto frees the key encoding methods"); }
void ERR_load_DSTU_strings(void) { LOADED = 1; } void ERR_unload_DSTU_strings(void) { LOADED = 0; } void ERR_DSTU_error(int f, int r, char *file, int l) { NERR++; }
/* libcrypto */
#define SET(fn, T, fld) int fn(ENGINE *e, T f) { CALLPRE(e, #fn ": an engine"); if (nd_bool()) { FAILED = 1; return 0; } e->fld = (void *)f; return 1; }
SET(ENGINE_set_init_function, ENGINE_GEN_INT_FUNC_PTR, init) SET(ENGINE_set_finish_function, ENGINE_GEN_INT_FUNC_PTR, finish) SET(ENGINE_set_destroy_function, ENGINE_GEN_INT_FUNC_PTR, destroy)
SET(ENGINE_set_digests, ENGINE_DIGESTS_PTR, digests) SET(ENGINE_set_ciphers, ENGINE_CIPHERS_PTR, ciphers) SET(ENGINE_set_pkey_meths, ENGINE_PKEY_METHS_PTR, pm) SET(ENGINE_set_pkey_asn1_meths, ENGINE_PKEY_ASN1_METHS_PTR, am) SET(ENGINE_set_RAND, const RAND_METHOD *, rand) SET(ENGINE_set_id, const char *, id) SET(ENGINE_set_name, const char *, name)
int ENGINE_set_flags(ENGINE *e, int f) { e->flags = f; return 1; }
#define REG(fn, cnt, tab) int fn(ENGINE *e) { CALLPRE(e->tab, #fn ": the engine's table is set"); if (nd_bool()) { FAILED = 1; return 0; } e->cnt = 1; return 1; }
REG(ENGINE_register_digests, rdig, digests) REG(ENGINE_register_ciphers, rci, ciphers) REG(ENGINE_register_pkey_meths, rpm, pm) REG(ENGINE_register_pkey_asn1_meths, ram, am)
int EVP_add_digest(const EVP_MD *m) { CALLPRE(m == &MD && LMD, "EVP_add_digest: a live digest"); if (nd_bool()) { FAILED = 1; return 0; } NAMED_MD_S = 1; if (nd_bool()) { FAILED = 1; return 0; } NAMED_MD_L = 1; return 1; }
int EVP_add_cipher(const EVP_CIPHER *m) { CALLPRE(m == &CI && LCI, "EVP_add_cipher: a live cipher"); if (nd_bool()) { FAILED = 1; return 0; } NAMED_CI_S = 1; if (nd_bool()) { FAILED = 1; return 0; } NAMED_CI_L = 1; return 1; }
int EVP_PBE_alg_add_type(int t, int n, int c, int m, EVP_PBE_KEYGEN *k) { if (nd_bool()) { FAILED = 1; return 0; } CALLPRE(t == EVP_PBE_TYPE_PRF && n == NID_hmacWithDstu34311 && m == NID_dstu34311 && c == -1 && !k, "the standard's HMAC is registered for PBKDF2"); PBE = 1; return 1; }
static int same(const char *a, const char *b) { for (int i = 0; i < 40; i++) { if (a[i] != b[i]) return 0; if (!a[i]) return 1; } return 0; }
int OBJ_NAME_remove(const char *n, int t) { CALLPRE(n, "OBJ_NAME_remove: a name"); if (t == OBJ_NAME_TYPE_MD_METH) { if (same(n, SN_dstu34311)) NAMED_MD_S = 0; if (same(n, LN_dstu34311)) NAMED_MD_L = 0; } if (t == OBJ_NAME_TYPE_CIPHER_METH) { if (same(n, SN_dstu28147_cfb)) NAMED_CI_S = 0; if (same(n, LN_dstu28147_cfb)) NAMED_CI_L = 0; } return 1; }
int EVP_delete_cipher_alias_(const char *n) { return OBJ_NAME_remove(n, OBJ_NAME_TYPE_CIPHER_METH); }
static int SSTATE, INITS; void *ENGINE_get_static_state(void) { return &SSTATE; } int CRYPTO_set_mem_functions(CRYPTO_malloc_fn a, CRYPTO_realloc_fn b, CRYPTO_free_fn c) { return nd_bool(); } int OPENSSL_init_crypto(uint64_t o, const OPENSSL_INIT_SETTINGS *s) { INITS++; return 1; }
#include "dstu.c"
/* the engine's invariant: what it holds is live, and what a name leads to it holds */
static int at(int nid) { return nid == dstu_nids[1]; }
#define INV (dstu_md == (LMD ? &MD : NULL) && dstu_cipher == (LCI ? &CI : NULL) && dstu_pkey_methods[at(NID_dstu4145le)] == (LPM[0] ? &PM[0] : NULL) && dstu_pkey_methods[at(NID_dstu4145be)] == (LPM[1] ? &PM[1] : NULL) && dstu_asn1_methods[at(NID_dstu4145le)] == (LAM[0] ? &AM[0] : NULL) && dstu_asn1_methods[at(NID_dstu4145be)] == (LAM[1] ? &AM[1] : NULL) && IMP(NAMED_MD_S || NAMED_MD_L, LMD) && IMP(NAMED_CI_S || NAMED_CI_L, LCI))
static void mk(void)
{
    FAILED = NERR = PBE = 0; LMD = nd_bool(); LCI = nd_bool(); dstu_md = LMD ? &MD : NULL; dstu_cipher = LCI ? &CI : NULL; NAMED_MD_S = LMD && nd_bool(); NAMED_MD_L = LMD && nd_bool(); NAMED_CI_S = LCI && nd_bool(); NAMED_CI_L = LCI && nd_bool(); LOADED = nd_bool();
    for (int i = 0; i < 2; i++) { LPM[i] = nd_bool(); LAM[i] = nd_bool(); int n = i ? NID_dstu4145be : NID_dstu4145le; PM[i].nid = AM[i].nid = n; dstu_pkey_methods[at(n)] = LPM[i] ? &PM[i] : NULL; dstu_asn1_methods[at(n)] = LAM[i] ? &AM[i] : NULL; }
}
static ENGINE E;
void h_start(void) { LMD = LCI = LPM[0] = LPM[1] = LAM[0] = LAM[1] = 0; ENSURES(INV, "nothing is held at first"); ENSURES((dstu_nids[0] == NID_dstu4145le && dstu_nids[1] == NID_dstu4145be) || (dstu_nids[1] == NID_dstu4145le && dstu_nids[0] == NID_dstu4145be), "the key algorithms are the two of the standard"); REACH("start"); }
void h_bind(void)
{
    mk(); static const char other[5] = { 'd', 's', 't', 'u', 'x' }; char id[8]; for (int i = 0; i < 7; i++) id[i] = nd_u8(); id[7] = 0; _Bool none = nd_bool(), mine = none || same(id, "dstu"); dynamic_fns f; f.static_state = nd_bool() ? (void *)&SSTATE : NULL; memset(&E, 0, sizeof E);
    int r = bind_engine(&E, none ? NULL : id, &f);
    ENSURES(!r == !(mine && !FAILED), "the engine binds under its own name or none, unless memory runs out"); ENSURES(INV, "what the engine holds is live, and what a name leads to it holds");
    if (r) { ENSURES(E.id && same(E.id, "dstu") && E.name, "the engine is named"); ENSURES(E.init == dstu_engine_init && E.finish && E.destroy, "its life-cycle functions are set"); ENSURES(E.digests == dstu_digests && E.rdig && E.ciphers == dstu_ciphers && E.rci && E.pm == dstu_pkey_meths && E.rpm && E.am == dstu_asn1_meths && E.ram && E.rand == &dstu_rand_meth, "all its algorithms are set and registered"); ENSURES(LMD && NAMED_MD_S && NAMED_MD_L && LCI && NAMED_CI_S && NAMED_CI_L && PBE && LOADED, "digest and cipher are known by name, the PBKDF2 function and the error texts are there"); REACH("bound"); }
    else { ENSURES(IMP(!mine, !E.id && !E.rdig && !E.rci && !E.rpm && !E.ram && !E.destroy), "another engine is left alone"); } REACH("bind");
}
void h_use(void)
{
    mk(); int nms = NAMED_MD_S, ncs = NAMED_CI_S, nml = NAMED_MD_L, ncl = NAMED_CI_L, l0 = LMD, l1 = LCI, l2 = LPM[0], l3 = LPM[1], l4 = LAM[0], l5 = LAM[1]; int r = nd_bool() ? dstu_engine_init(&E) : dstu_engine_finish(&E);
    ENSURES(r == 1, "initialising and finishing succeed"); ENSURES(INV, "what the engine holds is live, and what a name leads to it holds"); ENSURES(nms == NAMED_MD_S && nml == NAMED_MD_L && ncs == NAMED_CI_S && ncl == NAMED_CI_L && l0 == LMD && l1 == LCI && l2 == LPM[0] && l3 == LPM[1] && l4 == LAM[0] && l5 == LAM[1], "initialising and finishing leave methods in use alone"); REACH("use");
}
void h_destroy(void)
{
    mk(); LPM[0] = LPM[1] = LAM[0] = LAM[1] = 0; /* libcrypto has freed them */ int r = dstu_engine_destroy(&E);
    ENSURES(r == 1 && INV && !LMD && !LCI && !NAMED_MD_S && !NAMED_MD_L && !NAMED_CI_S && !NAMED_CI_L && !LOADED, "releasing the engine releases everything it holds and no name leads to it"); REACH("destroy");
}
void h_serve(void)
{
    mk(); const int *n = NULL; int nid = nd_int(); int k = nd_int(); REQUIRES(0 <= k && k < 4); _Bool list = nd_bool(), key = nid == NID_dstu4145le || nid == NID_dstu4145be; int r; if (k < 2) REQUIRES(nid != 0);
    if (k == 0) { const EVP_MD *m = NULL; r = list ? dstu_digests(&E, NULL, &n, 0) : dstu_digests(&E, &m, &n, nid); if (list) ENSURES(r == 1 && n[0] == NID_dstu34311, "the digest is listed"); else { ENSURES(IMP(nid != NID_dstu34311, !r), "other digests are refused"); ENSURES(IMP(nid == NID_dstu34311 && !FAILED, r == 1 && m == &MD && LMD), "the digest is served"); ENSURES(IMP(FAILED, m == NULL), "no digest when memory runs out"); } }
    if (k == 1) { const EVP_CIPHER *m = NULL; r = list ? dstu_ciphers(&E, NULL, &n, 0) : dstu_ciphers(&E, &m, &n, nid); if (list) ENSURES(r == 1 && n[0] == NID_dstu28147_cfb, "the cipher is listed"); else { ENSURES(IMP(nid != NID_dstu28147_cfb, !r), "other ciphers are refused"); ENSURES(IMP(nid == NID_dstu28147_cfb && !FAILED, r == 1 && m == &CI && LCI), "the cipher is served"); ENSURES(IMP(FAILED, m == NULL), "no cipher when memory runs out"); } }
    if (k == 2) { EVP_PKEY_METHOD *m = NULL; r = list ? dstu_pkey_meths(&E, NULL, &n, 0) : dstu_pkey_meths(&E, &m, &n, nid); if (list) ENSURES(r == 2 && n == dstu_nids, "the key methods are listed"); else { ENSURES(!r == !(key && !FAILED), "exactly the two algorithms have key methods"); ENSURES(IMP(r, m && m->nid == nid), "the key method is that of its algorithm"); } }
    if (k == 3) { EVP_PKEY_ASN1_METHOD *m = NULL; r = list ? dstu_asn1_meths(&E, NULL, &n, 0) : dstu_asn1_meths(&E, &m, &n, nid); if (list) ENSURES(r == 2 && n == dstu_nids, "the key encoding methods are listed"); else { ENSURES(!r == !(key && !FAILED), "exactly the two algorithms have key encoding methods"); ENSURES(IMP(r, m && m->nid == nid), "the key encoding method is that of its algorithm"); } }
    ENSURES(INV, "what the engine holds is live, and what a name leads to it holds"); if (list) REACH("list"); REACH("serve");
}
#endif
