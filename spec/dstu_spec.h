/* Executable reference of DSTU 4145 (polynomial basis), written from the
 * standard on top of libcrypto's arithmetic; used only by the native replays. */
#ifndef DSTU_SPEC_H
#define DSTU_SPEC_H
#include <openssl/bn.h>
#include <openssl/ec.h>
#include <openssl/obj_mac.h>
#include <string.h>
static BIGNUM *sp_low(const BIGNUM *v, int bits)             /* v mod 2^bits */
{ BIGNUM *m = BN_new(), *r = BN_new(); BN_CTX *c = BN_CTX_new(); BN_set_bit(m, bits); BN_nnmod(r, v, m, c); BN_free(m); BN_CTX_free(c); return r; }
static BIGNUM *sp_hash(const uint8_t *h, int len, int deg)
{ BIGNUM *v = BN_lebin2bn(h, len, NULL), *r = sp_low(v, deg); BN_free(v); if (BN_is_zero(r)) BN_one(r); return r; }
static int sp_bits_n(const EC_GROUP *g) { return BN_num_bits(EC_GROUP_get0_order(g)); }
/* x of the point, or NULL at infinity */
static BIGNUM *sp_x(const EC_GROUP *g, const EC_POINT *p)
{ if (EC_POINT_is_at_infinity(g, p)) return NULL; BIGNUM *x = BN_new(), *y = BN_new(); if (!EC_POINT_get_affine_coordinates(g, p, x, y, NULL)) { BN_free(x); x = NULL; } BN_free(y); return x; }
static BIGNUM *sp_field(const EC_GROUP *g) { BIGNUM *p = BN_new(), *a = BN_new(), *b = BN_new(); EC_GROUP_get_curve(g, p, a, b, NULL); BN_free(a); BN_free(b); return p; }
/* r = low bits of h * x(R) */
static BIGNUM *sp_r(const EC_GROUP *g, const BIGNUM *h, const BIGNUM *x)
{ BIGNUM *p = sp_field(g), *t = BN_new(), *r; BN_CTX *c = BN_CTX_new(); BN_GF2m_mod_mul(t, h, x, p, c); r = sp_low(t, sp_bits_n(g) - 1); BN_free(t); BN_free(p); BN_CTX_free(c); return r; }
static int sp_verify(const EC_GROUP *g, const EC_POINT *Q, const uint8_t *hash, int len, const BIGNUM *r, const BIGNUM *s)
{
    const BIGNUM *n = EC_GROUP_get0_order(g);
    if (BN_is_zero(r) || BN_is_zero(s) || BN_is_negative(r) || BN_is_negative(s) || BN_cmp(r, n) >= 0 || BN_cmp(s, n) >= 0) return 0;
    EC_POINT *R = EC_POINT_new(g), *T = EC_POINT_new(g);
    EC_POINT_mul(g, R, s, NULL, NULL, NULL); EC_POINT_mul(g, T, NULL, Q, r, NULL); EC_POINT_add(g, R, R, T, NULL);
    BIGNUM *x = sp_x(g, R); int ok = 0;
    if (x) { BIGNUM *h = sp_hash(hash, len, EC_GROUP_get_degree(g)), *r1 = sp_r(g, h, x); ok = !BN_cmp(r1, r); BN_free(h); BN_free(r1); BN_free(x); }
    EC_POINT_free(R); EC_POINT_free(T); return ok;
}
/* sign with a given ephemeral e; 0 if e must be rejected */
static int sp_sign(const EC_GROUP *g, const BIGNUM *d, const uint8_t *hash, int len, const BIGNUM *e, BIGNUM **pr, BIGNUM **ps)
{
    const BIGNUM *n = EC_GROUP_get0_order(g); EC_POINT *R = EC_POINT_new(g); BN_CTX *c = BN_CTX_new(); int ok = 0;
    EC_POINT_mul(g, R, e, NULL, NULL, NULL); BIGNUM *x = sp_x(g, R);
    if (x && !BN_is_zero(x)) {
        BIGNUM *h = sp_hash(hash, len, EC_GROUP_get_degree(g)), *r = sp_r(g, h, x), *s = BN_new(); BN_mod_mul(s, d, r, n, c); BN_mod_add(s, s, e, n, c); BN_free(h);
        if (!BN_is_zero(r) && !BN_is_zero(s)) { ok = 1; *pr = r; *ps = s; } else { BN_free(r); BN_free(s); }
    }
    if (x) BN_free(x); EC_POINT_free(R); BN_CTX_free(c); return ok;
}
/* a small binary curve y^2 + xy = x^3 + a x^2 + b with a subgroup of prime order > 2^(m-4): r = 0 and s = 0 then occur often */
static EC_GROUP *sp_tiny(int m, int k, int a_, unsigned b0)
{
    for (unsigned b_ = b0; b_ < b0 + 400; b_++) {
        BIGNUM *p = BN_new(), *a = BN_new(), *b = BN_new(); BN_set_bit(p, m); BN_set_bit(p, k); BN_set_bit(p, 0); BN_set_word(a, a_); BN_set_word(b, b_ % ((1u << m) - 1) + 1);
        EC_GROUP *g = EC_GROUP_new_curve_GF2m(p, a, b, NULL); long cnt = 2, i; if (!g) return NULL;
        EC_POINT *P = EC_POINT_new(g), *Gp = NULL; BIGNUM *x = BN_new();
        for (i = 1; i < (1l << m); i++) { BN_set_word(x, i); if (EC_POINT_set_compressed_coordinates(g, P, x, 0, NULL)) { cnt += 2; } }
        long q = cnt; int co = 1; while (q % 2 == 0) { q /= 2; co *= 2; }
        int prime = q > (1l << (m - 4)) && q > 7; for (i = 3; prime && i * i <= q; i += 2) if (q % i == 0) prime = 0;
        if (prime) {
            BIGNUM *cf = BN_new(), *n = BN_new(); BN_set_word(cf, co); BN_set_word(n, q);
            for (i = 1; i < (1l << m) && !Gp; i++) { BN_set_word(x, i); if (!EC_POINT_set_compressed_coordinates(g, P, x, 0, NULL)) continue; EC_POINT *T = EC_POINT_new(g); EC_POINT_mul(g, T, NULL, P, cf, NULL); if (!EC_POINT_is_at_infinity(g, T)) Gp = T; else EC_POINT_free(T); }
            int ok = Gp && EC_GROUP_set_generator(g, Gp, n, cf); EC_POINT_free(Gp); BN_free(cf); BN_free(n); EC_POINT_free(P); BN_free(x); BN_free(p); BN_free(a); BN_free(b);
            if (ok) { ERR_clear_error(); return g; } EC_GROUP_free(g); continue;
        }
        EC_POINT_free(P); BN_free(x); BN_free(p); BN_free(a); BN_free(b); EC_GROUP_free(g);
    }
    ERR_clear_error(); return NULL;
}
#endif
