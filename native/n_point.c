/* Point compression and expansion against an independent reference, on subgroup points and arbitrary encodings, with and without allocation faults. */
#include "nat_ec.h"
#include "nat_oom.h"
#include "compress.h"
#define B(x) do { fail x; DIE(); } while (0)
static BN_CTX *CX;
static int tr(const BIGNUM *x, const BIGNUM *p)          /* sum of x^(2^j), j = 0..m-1; -1 if neither 0 nor 1 */
{ BIGNUM *s = BN_new(), *t = BN_dup(x); BN_zero(s); int m = BN_num_bits(p) - 1, r; for (int j = 0; j < m; j++) { BN_GF2m_add(s, s, t); BN_GF2m_mod_sqr(t, t, p, CX); } r = BN_is_one(s) ? 1 : BN_is_zero(s) ? 0 : -1; BN_free(s); BN_free(t); return r; }
/* reference compression of an affine point */
static BIGNUM *ref_compress(const EC_GROUP *g, const EC_POINT *q)
{
    BIGNUM *p = sp_field(g), *x = BN_new(), *y = BN_new(), *i = BN_new(); EC_POINT_get_affine_coordinates(g, q, x, y, CX);
    if (!BN_is_zero(x)) { BN_GF2m_mod_inv(i, x, p, CX); BN_GF2m_mod_mul(y, y, i, p, CX); int t = tr(y, p); if (BN_is_odd(x)) BN_sub_word(x, 1); BN_add_word(x, t); }
    BN_free(p); BN_free(y); BN_free(i); return x;
}
static int pt_cmp(const EC_GROUP *g, const EC_POINT *a, const EC_POINT *b) { return EC_POINT_cmp(g, a, b, CX); }
int main(int argc, char **argv)
{
    oom_setup(); nat_init(argc, argv); ec_init(1); CX = BN_CTX_new();
    while (more()) {
        int cn = curve_pick(); EC_GROUP *g = GRP[cn]; int deg = EC_GROUP_get_degree(g), fs = (deg + 7) / 8; const BIGNUM *n = EC_GROUP_get0_order(g); BIGNUM *d = BN_new(), *c, *p = sp_field(g); rnd_scalar(d, n);
        EC_POINT *q = EC_POINT_new(g), *e = EC_POINT_new(g); EC_POINT_mul(g, q, d, NULL, NULL, CX); uint8_t w[80];
        c = ref_compress(g, q); BN_bn2binpad(c, w, fs);
        int extra = rn(4) ? 0 : rn(9); uint8_t *o = malloc(fs + extra); memset(o, 0xC3, fs + extra);
        int r = dstu_point_compress(g, q, o, fs + extra);
        if (!r && !BN_is_zero(c)) B(("compression fails (curve %d)", cn));
        if (r) { if (memcmp(o, w, fs)) { hexs("got", o, fs); hexs("want", w, fs); bnp("scalar", d); B(("compression differs from the reference (curve %d)", cn)); } for (int i = fs; i < fs + extra; i++) if (o[i] != 0xC3) B(("compression writes past the field length"));
            if (!dstu_point_expand(o, fs, g, e)) { hexs("encoding", o, fs); B(("an encoding made by compression does not expand (curve %d)", cn)); }
            if (pt_cmp(g, q, e)) { hexs("encoding", o, fs); bnp("scalar", d); B(("expansion gives another point than was compressed (curve %d)", cn)); }
            if (rn(4) == 0) { uint8_t *z = calloc(1, fs + 3); memcpy(z + 3, o, fs); if (!dstu_point_expand(z, fs + 3, g, e) || pt_cmp(g, q, e)) B(("a zero-extended encoding does not expand to the same point")); free(z); }
            /* allocation faults: the right point or a failure */
            if (rn(2)) { EC_POINT_set_to_infinity(g, e); oom_arm(1 + rn(rn(2) ? 12 : 200), rn(2)); int r2 = dstu_point_expand(o, fs, g, e); int h = oom_off(); if (r2 && pt_cmp(g, q, e)) { hexs("encoding", o, fs); B(("with allocation %ld refused, expansion gives a wrong point (curve %d)", oom_at, cn)); } if (!r2 && !h) B(("expansion fails")); ERR_clear_error(); }
            if (rn(4) == 0) { uint8_t o2[80]; oom_arm(1 + rn(60), rn(2)); int r2 = dstu_point_compress(g, q, o2, fs); oom_off(); if (r2 && memcmp(o2, w, fs)) B(("with allocation %ld refused, compression is wrong", oom_at)); ERR_clear_error(); }
        }
        { int s = rn(fs); uint8_t *sh = malloc(s ? s : 1); memset(sh, 0x77, s ? s : 1); if (dstu_point_compress(g, q, sh, s)) B(("compression into %d of %d bytes", s, fs)); for (int i = 0; i < s; i++) if (sh[i] != 0x77) B(("a refused compression wrote")); if (dstu_point_expand(sh, s, g, e)) B(("a short encoding expands")); free(sh); }
        /* arbitrary field elements */
        { uint8_t *in = malloc(fs), back[80]; for (int i = 0; i < fs; i++) in[i] = rnd() >> 44; if (deg % 8) in[0] &= (1 << (deg % 8)) - 1; if (!rn(10)) memset(in, 0, fs); if (!rn(20)) { memset(in, 0, fs); in[fs - 1] = 1 + rn(3); }
          BIGNUM *v = BN_bin2bn(in, fs, NULL), *x = BN_new(), *y = BN_new(), *a = BN_new(), *b = BN_new(), *t = BN_new(), *l = BN_new(); EC_GROUP_get_curve(g, p, a, b, CX); int ok = dstu_point_expand(in, fs, g, e), exists;
          /* does a point with that encoding exist?  x: the lowest bit chosen so that Tr(x) = a */
          if (BN_is_zero(v)) exists = 1; else { int k = BN_is_odd(v); BN_copy(x, v); if (k) BN_sub_word(x, 1); if (tr(x, p) != BN_get_word(a)) BN_add_word(x, 1); if (BN_is_zero(x)) exists = 0; else { BN_GF2m_mod_sqr(t, x, p, CX); BN_GF2m_mod_inv(t, t, p, CX); BN_GF2m_mod_mul(t, t, b, p, CX); BN_GF2m_add(t, t, x); BN_GF2m_add(t, t, a); exists = tr(t, p) == 0; } }
          if (ok != exists) { hexs("encoding", in, fs); B(("expansion %s, but such a point %s (curve %d)", ok ? "succeeds" : "fails", exists ? "exists" : "does not exist", cn)); }
          if (ok) { if (!EC_POINT_is_on_curve(g, e, CX)) B(("expanded point is not on the curve")); if (!EC_POINT_get_affine_coordinates(g, e, x, y, CX)) B(("expanded point at infinity"));
              BIGNUM *rc = ref_compress(g, e); BN_bn2binpad(rc, back, fs); if (memcmp(back, in, fs)) { hexs("encoding", in, fs); hexs("of the point", back, fs); B(("the expanded point has another encoding (curve %d)", cn)); } BN_free(rc);
              uint8_t *big = malloc(fs + 6); memset(big, 0xC3, fs + 6); if (dstu_point_compress(g, e, big, fs + 6) && memcmp(big, in, fs)) { hexs("encoding", in, fs); hexs("of the point", big, fs); B(("compressing the expanded point gives another encoding (curve %d)", cn)); } for (int i = fs; i < fs + 6; i++) if (big[i] != 0xC3) { hexs("encoding", in, fs); B(("compression writes past the field length")); } free(big); }
          BN_free(v); BN_free(x); BN_free(y); BN_free(a); BN_free(b); BN_free(t); BN_free(l); free(in); }
        ERR_clear_error(); free(o); BN_free(d); BN_free(c); BN_free(p); EC_POINT_free(q); EC_POINT_free(e);
    }
    return nat_done();
}
