/* The engine's life: bind, use, finish, use again, release, bind again; what it serves; allocation faults while binding. */
#define NAT_ENGINE
#include "nat_evp.h"
extern int __asan_address_is_poisoned(const volatile void *p) __attribute__((weak));
#include "nat_oom.h"
#include <openssl/objects.h>
#include <openssl/rand.h>
#include "err.h"
#include "control.h"
extern RAND_METHOD dstu_rand_meth;
#define B(x) do { fail x; ERR_print_errors_fp(stdout); DIE(); } while (0)
static spec_sbox DEF;
static ENGINE *mk(const char *id, int *ok) { dynamic_fns f; memset(&f, 0, sizeof f); f.static_state = ENGINE_get_static_state(); ENGINE *e = ENGINE_new(); if (!e) { *ok = 0; return NULL; } *ok = bind_engine(e, id, &f); return e; }
static void use_md(const EVP_MD *md, ENGINE *e, const char *when)
{ uint8_t m[100], o[64], w[32]; unsigned l = 0; int n = rn(100); rbytes(m, n); spec_hash(&DEF, m, n, w); EVP_MD_CTX *c = EVP_MD_CTX_new(); if (!md || !EVP_DigestInit_ex(c, md, e) || !EVP_DigestUpdate(c, m, n) || !EVP_DigestFinal_ex(c, o, &l) || l != 32 || memcmp(o, w, 32)) B(("digest %s", when)); EVP_MD_CTX_free(c); }
static void use_ci(const EVP_CIPHER *ci, ENGINE *e, const char *when)
{ uint8_t m[64], o[80], k[32], iv[8], w[64]; int n = 1 + rn(63), l = 0; rbytes(m, 64); rbytes(k, 32); rbytes(iv, 8); EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new(); if (!ci || !EVP_CipherInit_ex(c, ci, e, k, iv, 1) || !EVP_CipherUpdate(c, o, &l, m, n) || l != n) B(("cipher %s", when));
  spec_cfb(&DEF, k, iv, m, w, n, 0); if (memcmp(o, w, n)) B(("cipher result %s", when)); EVP_CIPHER_CTX_free(c); }
static void use_key(ENGINE *e, int nid, const char *when)
{ EVP_PKEY_CTX *c = EVP_PKEY_CTX_new_id(nid, e); EVP_PKEY *p = NULL; uint8_t h[32], s[300]; size_t l = sizeof s; rbytes(h, 32); if (!c || EVP_PKEY_keygen_init(c) <= 0 || EVP_PKEY_CTX_ctrl_str(c, "curve", "uacurve0") <= 0 || EVP_PKEY_keygen(c, &p) <= 0) B(("key generation %s", when)); EVP_PKEY_CTX_free(c);
  c = EVP_PKEY_CTX_new(p, e); if (!c || EVP_PKEY_sign_init(c) <= 0 || EVP_PKEY_sign(c, s, &l, h, 32) <= 0 || EVP_PKEY_verify_init(c) <= 0 || EVP_PKEY_verify(c, s, l, h, 32) != 1) B(("signing %s", when)); EVP_PKEY_CTX_free(c);
  uint8_t *d = NULL; int dl = i2d_PUBKEY(p, &d); const uint8_t *q = d; EVP_PKEY *p2 = dl > 0 ? d2i_PUBKEY(NULL, &q, dl) : NULL; if (!p2 || EVP_PKEY_id(p2) != nid || EVP_PKEY_eq(p, p2) != 1) B(("public key encoding %s", when)); EVP_PKEY_free(p2); EVP_PKEY_free(p); OPENSSL_free(d); }
static void all(ENGINE *e, const char *when)
{ use_md(ENGINE_get_digest(e, NID_dstu34311), e, when); use_ci(ENGINE_get_cipher(e, NID_dstu28147_cfb), e, when); use_md(EVP_get_digestbyname(SN_dstu34311), NULL, when); use_ci(EVP_get_cipherbyname(SN_dstu28147_cfb), NULL, when); use_key(e, NID_dstu4145le, when); use_key(e, NID_dstu4145be, when); }
static void serves(ENGINE *e)
{
    const int *n = NULL; ENGINE_DIGESTS_PTR fd = ENGINE_get_digests(e); ENGINE_CIPHERS_PTR fc = ENGINE_get_ciphers(e); ENGINE_PKEY_METHS_PTR fp = ENGINE_get_pkey_meths(e); ENGINE_PKEY_ASN1_METHS_PTR fa = ENGINE_get_pkey_asn1_meths(e);
    if (!fd || !fc || !fp || !fa) B(("a table of methods is missing"));
    if (fd(e, NULL, &n, 0) != 1 || n[0] != NID_dstu34311) B(("list of digests")); if (fc(e, NULL, &n, 0) != 1 || n[0] != NID_dstu28147_cfb) B(("list of ciphers"));
    if (fp(e, NULL, &n, 0) != 2 || !((n[0] == NID_dstu4145le && n[1] == NID_dstu4145be) || (n[1] == NID_dstu4145le && n[0] == NID_dstu4145be))) B(("list of key methods")); if (fa(e, NULL, &n, 0) != 2 || !((n[0] == NID_dstu4145le && n[1] == NID_dstu4145be) || (n[1] == NID_dstu4145le && n[0] == NID_dstu4145be))) B(("list of key encoding methods"));
    for (int i = -1; i < 1300; i++) {
        const EVP_MD *m = NULL; const EVP_CIPHER *c = NULL; EVP_PKEY_METHOD *p = NULL; EVP_PKEY_ASN1_METHOD *a = NULL; int id = 0;
        if (i) { int r = fd(e, &m, &n, i), w = i == NID_dstu34311; if (!r != !w || (w && (!m || EVP_MD_type(m) != i))) B(("digest %d", i)); r = fc(e, &c, &n, i); w = i == NID_dstu28147_cfb; if (!r != !w || (w && (!c || EVP_CIPHER_nid(c) != i))) B(("cipher %d", i)); }
        int w = i == NID_dstu4145le || i == NID_dstu4145be; if (!fp(e, &p, &n, i) != !w) B(("key method %d", i)); if (p) EVP_PKEY_meth_get0_info(&id, NULL, p); if (w && (!p || id != i)) B(("key method %d is %d", i, id));
        if (!fa(e, &a, &n, i) != !w) B(("key encoding method %d", i)); if (a) EVP_PKEY_asn1_get0_info(&id, NULL, NULL, NULL, NULL, a); if (w && (!a || id != i)) B(("key encoding method %d is %d", i, id));
    }
    if (strcmp(ENGINE_get_id(e), "dstu")) B(("engine id")); if (ENGINE_get_RAND(e) != &dstu_rand_meth) B(("random generator"));
    int prf; if (!EVP_PBE_find(EVP_PBE_TYPE_PRF, NID_hmacWithDstu34311, NULL, &prf, NULL) || prf != NID_dstu34311) B(("PBKDF2 function"));
    ERR_clear_error(); DSTUerr(DSTU_F_DSTU_DO_SIGN, DSTU_R_NOT_DSTU_KEY); const char *s = ERR_reason_error_string(ERR_peek_error()); if (!s || strcmp(s, "not dstu key")) B(("error text %s", s ? s : "missing")); s = ERR_lib_error_string(ERR_peek_error()); if (!s || strcmp(s, "dstu")) B(("error library name %s", s ? s : "missing")); ERR_clear_error();
}
int main(int argc, char **argv)
{
    cnt_setup(); nat_init(argc, argv); for (int r = 0; r < 8; r++) for (int i = 0; i < 16; i++) DEF.row[r][i] = i & 1 ? default_sbox[8 * r + i / 2] & 15 : default_sbox[8 * r + i / 2] >> 4;
    int ok; ENGINE *e; OPENSSL_init_crypto(0, NULL); static ENGINE *keep[20000]; int nk = 0;
    while (more() && nk < 20000) {
        if (rn(3) == 0) { const char *bad[] = { "gost", "", "dst", "dstu2", "DSTU" }; e = mk(bad[rn(5)], &ok); if (ok) B(("bound under another name")); ENGINE_free(e); ERR_clear_error(); }
        if (nk && rn(3) == 0) { oom_arm(1 + rn(120), rn(2)); e = mk("dstu", &ok); int h = oom_off(); if (!ok && !h) B(("does not bind")); ERR_clear_error(); if (e) { ENGINE_unregister_digests(e); ENGINE_unregister_ciphers(e); ENGINE_unregister_pkey_meths(e); ENGINE_unregister_pkey_asn1_meths(e); ENGINE_free(e); } }
        e = mk(rn(2) ? "dstu" : NULL, &ok); if (!ok) B(("does not bind")); if (nk == 0 || rn(8) == 0) serves(e);
        for (int k = 1 + rn(3); k; k--) { if (!ENGINE_init(e)) B(("does not initialise")); if (rn(2)) all(e, "after initialisation"); if (rn(4) == 0) { if (!ENGINE_init(e)) B(("second initialisation")); ENGINE_finish(e); all(e, "still initialised"); } ENGINE_finish(e); use_md(EVP_get_digestbyname(SN_dstu34311), NULL, "by name after finish"); use_ci(EVP_get_cipherbyname(SN_dstu28147_cfb), NULL, "by name after finish"); }
        if (!ENGINE_init(e)) B(("does not initialise again")); all(e, "after initialising again"); serves(e); ENGINE_finish(e);
        ENGINE_unregister_digests(e); ENGINE_unregister_ciphers(e); ENGINE_unregister_pkey_meths(e); ENGINE_unregister_pkey_asn1_meths(e);
        const EVP_MD *md0 = ENGINE_get_digest(e, NID_dstu34311); const EVP_CIPHER *ci0 = ENGINE_get_cipher(e, NID_dstu28147_cfb);
        ENGINE_free(e); ERR_clear_error();
        /* what is still known by name after the engine is gone must not be a freed method */
        const EVP_MD *m = EVP_get_digestbyname(SN_dstu34311); if (m) EVP_MD_type(m); const EVP_CIPHER *c = EVP_get_cipherbyname(SN_dstu28147_cfb); if (c) EVP_CIPHER_nid(c); m = EVP_get_digestbyname(LN_dstu34311); if (m) EVP_MD_type(m); c = EVP_get_cipherbyname(LN_dstu28147_cfb); if (c) EVP_CIPHER_nid(c);
#define GONE(x) (!__asan_address_is_poisoned || __asan_address_is_poisoned((const void *)(x)))
        static const char *const MN[] = { SN_dstu34311, LN_dstu34311 }, *const CN[] = { SN_dstu28147_cfb, LN_dstu28147_cfb };
        for (int k = 0; k < 2; k++) { m = EVP_get_digestbyname(MN[k]); c = EVP_get_cipherbyname(CN[k]); if (m && m == md0 && GONE(m)) B(("the freed digest is still known as %s", MN[k])); if (c && c == ci0 && GONE(c)) B(("the freed cipher is still known as %s", CN[k])); }
        nk++;
    }
    return nat_done();
}
