#include "nat.h"
#include <openssl/err.h>
#include "dstu_spec.h"
#include "params.h"
#include "key.h"
static EC_GROUP *GRP[16]; static int NGRP;
/* curve numbers 0..9 are DSTU's named curves, the others are tiny curves */
static void ec_init(int tiny)
{
    for (int i = 0; i < 10; i++) { GRP[i] = group_from_named_curve(i); if (!GRP[i]) { fail("named curve %d", i); DIE(); } }
    NGRP = 10;
    if (tiny) { EC_GROUP *g; if ((g = sp_tiny(7, 1, 1, 1))) GRP[NGRP++] = g; if ((g = sp_tiny(9, 4, 1, 3))) GRP[NGRP++] = g; if ((g = sp_tiny(11, 2, 0, 5))) GRP[NGRP++] = g; if ((g = sp_tiny(7, 6, 1, 4))) GRP[NGRP++] = g; if ((g = sp_tiny(9, 5, 0, 2))) GRP[NGRP++] = g; }
}
static int curve_pick(void) { int t = rn(10); return t < 5 && NGRP > 10 ? 10 + rn(NGRP - 10) : t < 8 ? rn(3) : rn(10); }
static void rnd_scalar(BIGNUM *v, const BIGNUM *n)       /* in [1, n) */
{ uint8_t b[80]; int l = BN_num_bytes(n) + 8; do { for (int i = 0; i < l; i++) b[i] = rnd() >> 40; BIGNUM *t = BN_bin2bn(b, l, NULL); BN_CTX *c = BN_CTX_new(); BN_nnmod(v, t, n, c); BN_free(t); BN_CTX_free(c);
  if (!rn(20)) BN_set_word(v, 1 + rn(3)); if (!rn(20)) { BN_copy(v, n); BN_sub_word(v, 1 + rn(2)); } } while (BN_is_zero(v)); }
/* DSTU key: Q = -dG */
static EC_KEY *mk_ec(EC_GROUP *g, BIGNUM *d)
{ EC_KEY *k = EC_KEY_new(); EC_KEY_set_group(k, g); EC_POINT *q = EC_POINT_new(g); BIGNUM *m = BN_new(); BN_sub(m, EC_GROUP_get0_order(g), d); EC_POINT_mul(g, q, m, NULL, NULL, NULL); BN_free(m);      /* not EC_POINT_invert, which skips points with y = 0 */ EC_KEY_set_private_key(k, d); EC_KEY_set_public_key(k, q); EC_POINT_free(q); ERR_clear_error(); return k; }
/* a hash of random length with the awkward shapes: empty, zero, zero below the field degree */
static int rnd_hash(uint8_t *h, int deg)
{ int n = rn(4) ? 32 : 1 + rn(64), m = rn(8); for (int i = 0; i < n; i++) h[i] = rnd() >> 33; if (m == 0) memset(h, 0, n); if (m == 1) for (int i = 0; i < n * 8 && i < deg; i++) h[i / 8] &= ~(1 << (i & 7)); if (m == 2 && n) { memset(h, 0, n); h[rn(n)] = 1 << rn(8); } return n; }
static void bnp(const char *n, const BIGNUM *b) { char *s = BN_bn2hex(b); printf("  %s=%s\n", n, s); OPENSSL_free(s); }
