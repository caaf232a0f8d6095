/* Comparing, copying and releasing keys and key generation contexts. */
#include "nat_evp.h"
#include "nat_oom.h"
#include "asn1.h"
#define B(x) do { fail x; DIE(); } while (0)
static BN_CTX *CX;
static EVP_PKEY *params_only(EC_GROUP *g, const uint8_t *S, int nid) { DSTU_KEY *k = DSTU_KEY_new(); EC_KEY_set_group(k->ec, g); if (S) k->sbox = copy_sbox(S); EVP_PKEY *p = EVP_PKEY_new(); EVP_PKEY_assign(p, nid, k); return p; }
static EC_GROUP *custom(int cn)
{ EC_GROUP *g = EC_GROUP_dup(GRP[cn]); BIGNUM *s = BN_new(); EC_POINT *q = EC_POINT_new(g); do { rnd_scalar(s, EC_GROUP_get0_order(g)); } while (BN_is_one(s)); EC_POINT_mul(g, q, s, NULL, NULL, CX); EC_GROUP_set_generator(g, q, EC_GROUP_get0_order(GRP[cn]), BN_value_one()); BN_free(s); EC_POINT_free(q); return g; }
/* libcrypto never calls the copy method of a type without a "missing" method: catch it when it is registered */
#include <dlfcn.h>
static int (*PCOPY)(EVP_PKEY *, const EVP_PKEY *);
void EVP_PKEY_asn1_set_param(EVP_PKEY_ASN1_METHOD *m, int (*d)(EVP_PKEY *, const unsigned char **, int), int (*e)(const EVP_PKEY *, unsigned char **), int (*mi)(const EVP_PKEY *), int (*c)(EVP_PKEY *, const EVP_PKEY *), int (*q)(const EVP_PKEY *, const EVP_PKEY *), int (*p)(BIO *, const EVP_PKEY *, int, ASN1_PCTX *))
{ void (*f)() = dlsym(RTLD_NEXT, "EVP_PKEY_asn1_set_param"); PCOPY = c; f(m, d, e, mi, c, q, p); }
int main(int argc, char **argv)
{
    int cnt = cnt_setup(); nat_init(argc, argv); ec_init(1); nat_engine(); CX = BN_CTX_new();
    while (more()) {
        int nid = rn(2) ? NID_dstu4145le : NID_dstu4145be, ca = curve_pick(), cb = rn(2) ? ca : curve_pick(), cu = rn(4) == 0; EC_GROUP *ga = EC_GROUP_dup(GRP[ca]), *gb = cu ? custom(cb) : EC_GROUP_dup(GRP[cb]); int same_g = EC_GROUP_cmp(ga, gb, CX) == 0; if (!cu && same_g != (ca == cb)) B(("groups"));
        uint8_t sa[64], sc[64]; int ka = rn(3), kb = rn(4); if (ka == 1) memcpy(sa, default_sbox, 64); else rbytes(sa, 64); if (kb == 1) memcpy(sc, default_sbox, 64); else if (kb == 3) { memcpy(sc, ka ? sa : default_sbox, 64); if (rn(2)) sc[rn(2) ? 63 : rn(64)] ^= 1 << rn(8); } else rbytes(sc, 64);
        const uint8_t *A = ka ? sa : NULL, *C = kb ? sc : NULL; int same_s = !memcmp(A ? A : default_sbox, C ? C : default_sbox, 64);
        BIGNUM *da = BN_new(), *db = BN_new(); rnd_scalar(da, EC_GROUP_get0_order(ga)); if (same_g && rn(2)) BN_copy(db, da); else rnd_scalar(db, EC_GROUP_get0_order(gb));
        EVP_PKEY *a = mk_pkey(ga, da, A, nid), *b = mk_pkey(gb, db, C, nid); int same_q = same_g && !EC_POINT_cmp(ga, EC_KEY_get0_public_key(((DSTU_KEY *)EVP_PKEY_get0(a))->ec), EC_KEY_get0_public_key(((DSTU_KEY *)EVP_PKEY_get0(b))->ec), CX); ERR_clear_error();
        int r = EVP_PKEY_parameters_eq(a, b); if (r != (same_g && same_s)) B(("parameters compare %d: same curve %d, same S-box %d (stored %d %d)", r, same_g, same_s, ka, kb)); r = EVP_PKEY_eq(a, b); if ((r == 1) != (same_g && same_s && same_q) || r < 0) B(("keys compare %d: same curve %d, S-box %d, point %d", r, same_g, same_s, same_q)); if (EVP_PKEY_eq(a, a) != 1) B(("a key differs from itself"));
        { EVP_PKEY *p = params_only(gb, C, nid), *e = EVP_PKEY_new(), *m = params_only(gb, C, nid); r = EVP_PKEY_parameters_eq(a, p); if (r != (same_g && same_s)) B(("parameters of a key without a point compare %d", r)); r = EVP_PKEY_eq(a, p); if (r == 1) B(("a key equals bare parameters")); r = EVP_PKEY_eq(p, a); if (r == 1) B(("bare parameters equal a key")); if (EVP_PKEY_parameters_eq(p, m) != 1) B(("equal parameters")); if (EVP_PKEY_eq(p, m) == 1) B(("keys without points are equal"));
            EVP_PKEY_set_type(e, nid); r = EVP_PKEY_parameters_eq(a, e); if (r == 1) B(("empty key")); r = EVP_PKEY_eq(e, a); if (r == 1) B(("empty key")); DSTU_KEY *nk = DSTU_KEY_new(); EVP_PKEY_assign(e, nid, nk); r = EVP_PKEY_parameters_eq(a, e); if (r == 1) B(("a key without a curve compares equal")); r = EVP_PKEY_parameters_eq(e, a); if (r == 1) B(("a key without a curve compares equal")); if (EVP_PKEY_eq(e, e) == 1 && 0) ;
            EVP_PKEY_free(p); EVP_PKEY_free(e); EVP_PKEY_free(m); ERR_clear_error(); }
        { /* copying parameters */ EVP_PKEY *t = EVP_PKEY_new(); int had = rn(3); if (had == 1) { EVP_PKEY_free(t); t = params_only(ga, A, nid); } 
          r = EVP_PKEY_copy_parameters(t, b); if (had == 0 && r == 1) { DSTU_KEY *k = EVP_PKEY_get0(t), *s = EVP_PKEY_get0(b); if (k) { if (k->ec == s->ec || (k->sbox && k->sbox == s->sbox)) B(("copied parameters share memory")); if (EVP_PKEY_parameters_eq(t, b) != 1) B(("copied parameters differ")); } } EVP_PKEY_free(t); ERR_clear_error();
          if (PCOPY) { t = EVP_PKEY_new(); if (had == 1) { EVP_PKEY_free(t); t = params_only(ga, A, nid); } int flt = rn(3) == 0; if (flt) oom_arm(1 + rn(12), rn(2)); r = PCOPY(t, b); if (flt) oom_off(); if (!r && !flt) B(("parameters are not copied")); if (r == 1) { DSTU_KEY *k = EVP_PKEY_get0(t), *s = EVP_PKEY_get0(b); if (EVP_PKEY_id(t) != nid) B(("the copy's type")); if (!k || k->ec == s->ec || EC_KEY_get0_group(k->ec) == EC_KEY_get0_group(s->ec) || (k->sbox && k->sbox == s->sbox)) B(("copied parameters share memory")); if (EC_GROUP_cmp(EC_KEY_get0_group(k->ec), gb, CX) || memcmp(k->sbox ? k->sbox : default_sbox, C ? C : default_sbox, 64)) B(("copied parameters differ (target had %d)", had)); } EVP_PKEY_free(t); ERR_clear_error(); } }
        { /* key objects */ DSTU_KEY *k = DSTU_KEY_new(); if (!k || !k->ec || k->sbox) B(("new key")); EC_KEY *e = EC_KEY_new(), *e0 = k->ec; uint8_t *s = copy_sbox(sa); DSTU_KEY_set(k, NULL, s); if (k->ec != e0 || k->sbox != s) B(("setting the S-box")); DSTU_KEY_set(k, e, NULL); if (k->ec != e || k->sbox != s) B(("setting the curve key")); DSTU_KEY_set(k, NULL, NULL); if (k->ec != e || k->sbox != s || memcmp(s, sa, 64)) B(("setting nothing")); DSTU_KEY_free(k); DSTU_KEY_free(NULL);
          DSTU_KEY_CTX *c = DSTU_KEY_CTX_new(), *d; if (!c || c->group || c->sbox || c->type) B(("new context")); c->type = nid; d = DSTU_KEY_CTX_copy(c); if (!d || d->group || d->sbox || d->type != nid) B(("copied empty context")); DSTU_KEY_CTX_free(d); DSTU_KEY_CTX_set(c, EC_GROUP_dup(ga), NULL); d = DSTU_KEY_CTX_copy(c); if (!d || d->sbox || !d->group || d->group == c->group || EC_GROUP_cmp(d->group, ga, CX) || d->type != nid) B(("copied context with curve")); DSTU_KEY_CTX_free(d);
          DSTU_KEY_CTX_set(c, NULL, copy_sbox(sa)); DSTU_KEY_CTX_set(c, EC_GROUP_dup(gb), copy_sbox(sc)); d = DSTU_KEY_CTX_copy(c); if (!d || !d->sbox || d->sbox == c->sbox || memcmp(d->sbox, sc, 64) || EC_GROUP_cmp(d->group, gb, CX)) B(("copied context")); memset(c->sbox, 0, 64); DSTU_KEY_CTX_free(c); if (memcmp(d->sbox, sc, 64) || EC_GROUP_cmp(d->group, gb, CX)) B(("the copy shares memory")); 
          oom_arm(1 + rn(20), rn(2)); c = DSTU_KEY_CTX_copy(d); oom_off(); if (c) { if (memcmp(c->sbox, sc, 64) || EC_GROUP_cmp(c->group, gb, CX)) B(("copied context after a refused allocation")); DSTU_KEY_CTX_free(c); } DSTU_KEY_CTX_free(d); DSTU_KEY_CTX_free(NULL); oom_arm(1 + rn(3), rn(2)); k = DSTU_KEY_new(); oom_off(); if (k && (!k->ec || k->sbox)) B(("new key after a refused allocation")); DSTU_KEY_free(k); ERR_clear_error(); }
        if (cnt && nat_cases % 20 == 1) {
            if (LEAKS({ DSTU_KEY *k = DSTU_KEY_new(); DSTU_KEY_set(k, EC_KEY_new(), copy_sbox(sa)); DSTU_KEY_set(k, EC_KEY_new(), copy_sbox(sa)); DSTU_KEY_free(k); })) B(("keys leak"));
            if (LEAKS({ DSTU_KEY_CTX *k = DSTU_KEY_CTX_new(); DSTU_KEY_CTX_set(k, EC_GROUP_dup(ga), copy_sbox(sa)); DSTU_KEY_CTX_set(k, EC_GROUP_dup(gb), copy_sbox(sc)); DSTU_KEY_CTX *l = DSTU_KEY_CTX_copy(k); DSTU_KEY_CTX_free(l); DSTU_KEY_CTX_free(k); })) B(("contexts leak"));
            if (LEAKS({ EVP_PKEY *k = mk_pkey(ga, da, sa, nid); EVP_PKEY_free(k); })) B(("EVP keys leak")); 
            if (LEAKS({ EVP_PKEY *t = EVP_PKEY_new(); EVP_PKEY_copy_parameters(t, b); EVP_PKEY_free(t); })) B(("copying parameters leaks"));
            if (PCOPY && LEAKS({ EVP_PKEY *t = params_only(ga, sa, nid); PCOPY(t, b); EVP_PKEY_free(t); })) B(("copying parameters over others leaks"));
            for (int i = 1; i < 6; i++) if (LEAKS({ DSTU_KEY_CTX K = { nid, ga, sa }; oom_arm(i, 1); DSTU_KEY_CTX *l = DSTU_KEY_CTX_copy(&K); oom_off(); DSTU_KEY_CTX_free(l); })) B(("a failed context copy leaks")); }
        EVP_PKEY_free(a); EVP_PKEY_free(b); EC_GROUP_free(ga); EC_GROUP_free(gb); BN_free(da); BN_free(db); ERR_clear_error();
    }
    return nat_done();
}
