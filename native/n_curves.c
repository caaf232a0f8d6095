/* The ten standard curves, and the maps between identifiers and groups. */
#include "nat_ec.h"
#include "nat_oom.h"
#include "curves_golden.h"
#define B(x) do { fail x; DIE(); } while (0)
static BIGNUM *gb(int i, int off) { int n = (GOLDEN[i].poly[0] + 7) / 8; return BN_bin2bn(GOLDEN[i].data + 1 + off * n, n, NULL); }
static void same(int i, const EC_GROUP *g, const char *how)
{
    BIGNUM *p = BN_new(), *a = BN_new(), *b = BN_new(), *x = BN_new(), *y = BN_new(), *w = BN_new(), *t; BN_CTX *c = BN_CTX_new();
    EC_GROUP_get_curve(g, p, a, b, c); BN_GF2m_arr2poly(GOLDEN[i].poly, w); if (BN_cmp(p, w)) B(("curve %d (%s): field polynomial", i, how));
    if (BN_get_word(a) != (GOLDEN[i].data[0] ? 1 : 0)) B(("curve %d (%s): coefficient A", i, how)); t = gb(i, 0); if (BN_cmp(b, t)) B(("curve %d (%s): coefficient B", i, how)); BN_free(t);
    t = gb(i, 1); if (BN_cmp(EC_GROUP_get0_order(g), t)) B(("curve %d (%s): order", i, how)); BN_free(t); const EC_POINT *q = EC_GROUP_get0_generator(g); if (!q || !EC_POINT_get_affine_coordinates(g, q, x, y, c)) B(("curve %d (%s): no base point", i, how));
    t = gb(i, 2); if (BN_cmp(x, t)) B(("curve %d (%s): base point x", i, how)); BN_free(t); t = gb(i, 3); if (BN_cmp(y, t)) B(("curve %d (%s): base point y", i, how)); BN_free(t);
    if (EC_GROUP_get_degree(g) != GOLDEN[i].poly[0]) B(("curve %d: degree", i)); BN_free(p); BN_free(a); BN_free(b); BN_free(x); BN_free(y); BN_free(w); BN_CTX_free(c);
}
int main(int argc, char **argv)
{
    oom_setup(); nat_init(argc, argv); ec_init(0); BN_CTX *c = BN_CTX_new();
    for (int i = 0; i < 10; i++) {       /* the golden data themselves: curves of prime order with the base point on them */
        EC_GROUP *g = GRP[i]; same(i, g, "number"); if (!EC_POINT_is_on_curve(g, EC_GROUP_get0_generator(g), c)) B(("curve %d: base point off the curve", i)); const BIGNUM *n = EC_GROUP_get0_order(g); if (BN_check_prime(n, c, NULL) != 1) B(("curve %d: order not prime", i));
        EC_POINT *q = EC_POINT_new(g); EC_POINT_mul(g, q, NULL, EC_GROUP_get0_generator(g), n, c); if (!EC_POINT_is_at_infinity(g, q)) B(("curve %d: base point of another order", i)); EC_POINT_free(q);
        /* |h n - 2^m - 1| <= 2^(m/2 + 1) with h = 2 (A = 1) or 4 (A = 0) */
        BIGNUM *t = BN_dup(n), *u = BN_new(); BN_mul_word(t, GOLDEN[i].data[0] ? 2 : 4); BN_set_bit(u, GOLDEN[i].poly[0]); BN_add_word(u, 1); BN_sub(t, t, u); if (BN_num_bits(t) > GOLDEN[i].poly[0] / 2 + 2) B(("curve %d: order outside the Hasse interval", i)); BN_free(t); BN_free(u); nat_cases++;
        if (curve_nid_from_group(g) != GOLDEN[i].nid) B(("curve %d is not named after itself", i)); EC_GROUP *h = group_from_nid(GOLDEN[i].nid); if (!h) B(("curve %d is not found by identifier", i)); same(i, h, "identifier"); EC_GROUP_free(h);
    }
    EC_GROUP *d = get_default_group(); same(6, d, "default"); EC_GROUP_free(d);
    for (int nid = -3; nid < 3000; nid++) { int w = 0; for (int i = 0; i < 10; i++) if (GOLDEN[i].nid == nid) w = 1; if (w) continue; EC_GROUP *g = group_from_nid(nid); if (g) B(("a group is found for identifier %d", nid)); nat_cases++; }
    while (more()) {
        int i = rn(10), k = rn(7); EC_GROUP *g = EC_GROUP_dup(GRP[i]), *h; BIGNUM *p = BN_new(), *a = BN_new(), *b = BN_new(), *n = BN_dup(EC_GROUP_get0_order(g)), *s = BN_new(); EC_GROUP_get_curve(g, p, a, b, c); EC_POINT *q = EC_POINT_dup(EC_GROUP_get0_generator(g), g);
        if (k == 0) { rnd_scalar(s, n); if (!BN_is_one(s)) { EC_POINT_mul(g, q, s, NULL, NULL, c); EC_GROUP_set_generator(g, q, n, BN_value_one()); } }
        else if (k == 1) { if (!BN_add_word(n, 2 * (1 + rn(9)))) DIE(); EC_GROUP_set_generator(g, q, n, BN_value_one()); }
        else if (k == 2 || k == 3) { if (k == 2) BN_set_word(a, 1 - BN_get_word(a)); else { int z = rn(GOLDEN[i].poly[0]); if (BN_is_bit_set(b, z)) BN_clear_bit(b, z); else BN_set_bit(b, z); } h = EC_GROUP_new_curve_GF2m(p, a, b, c); if (!h) { ERR_clear_error(); h = EC_GROUP_dup(GRP[(i + 1) % 10]); } EC_GROUP_free(g); g = h; }
        else if (k == 4) { oom_arm(1 + rn(rn(2) ? 15 : 60), rn(2)); h = group_from_named_curve(i); oom_off(); if (h) { same(i, h, "number, allocation refused"); EC_GROUP_free(h); } ERR_clear_error(); }
        else if (k == 5) { oom_arm(1 + rn(60), rn(2)); int r = curve_nid_from_group(g); oom_off(); if (r != GOLDEN[i].nid && r != NID_undef) B(("curve %d is named %d with an allocation refused", i, r)); ERR_clear_error(); }
        int want = k >= 4 || (k == 0 && BN_is_one(s)) ? GOLDEN[i].nid : NID_undef, r = curve_nid_from_group(g); if ((k == 2 || k == 3) && EC_GROUP_cmp(g, GRP[(i + 1) % 10], c) == 0) want = GOLDEN[(i + 1) % 10].nid;
        if (r != want) B(("curve %d with change %d is named %d, not %d", i, k, r, want)); ERR_clear_error(); EC_GROUP_free(g); BN_free(p); BN_free(a); BN_free(b); BN_free(n); BN_free(s); EC_POINT_free(q);
    }
    return nat_done();
}
