/* Key generation and public key derivation: range, freshness, Q = -dG, parameters. */
#include "nat_evp.h"
#include "nat_oom.h"
#include "control.h"
#define B(x) do { fail x; DIE(); } while (0)
static void check_key(EC_KEY *k, const EC_GROUP *g, const char *what)
{
    const BIGNUM *d = EC_KEY_get0_private_key(k), *n = EC_GROUP_get0_order(g); const EC_POINT *q = EC_KEY_get0_public_key(k);
    if (!d || !q || EC_GROUP_cmp(EC_KEY_get0_group(k), g, NULL)) B(("%s: key part missing or wrong curve", what));
    if (BN_is_zero(d) || BN_is_negative(d) || BN_cmp(d, n) >= 0) { bnp("d", d); bnp("n", n); B(("%s: private key out of range", what)); }
    BIGNUM *m = BN_new(); EC_POINT *w = EC_POINT_new(g); BN_sub(m, n, d); EC_POINT_mul(g, w, m, NULL, NULL, NULL); int y0 = 0;
    BIGNUM *x = BN_new(), *y = BN_new(); if (EC_POINT_get_affine_coordinates(g, w, x, y, NULL)) { y0 = BN_is_zero(y); EC_POINT *t = EC_POINT_new(g); EC_POINT_copy(t, w); EC_POINT_invert(g, t, NULL); EC_POINT_get_affine_coordinates(g, t, x, y, NULL); y0 |= BN_is_zero(y); EC_POINT_free(t); }
    if (!y0 && EC_POINT_cmp(g, w, q, NULL)) { bnp("d", d); B(("%s: public key is not -dG", what)); }
    BN_free(m); BN_free(x); BN_free(y); EC_POINT_free(w); ERR_clear_error();
}
int main(int argc, char **argv)
{
    oom_setup(); nat_init(argc, argv); ec_init(1); nat_engine();
    { EC_KEY *k = EC_KEY_new(); if (dstu_generate_key(k) || dstu_add_public_key(k)) B(("a key without a group is generated")); EC_KEY_set_group(k, GRP[0]); if (dstu_add_public_key(k)) B(("a public key without a private key")); EC_KEY_free(k); ERR_clear_error(); }
    for (int t = 10; t < NGRP; t++) {   /* every scalar of a small group is drawn */
        const BIGNUM *n = EC_GROUP_get0_order(GRP[t]); int q = BN_get_word(n); char *seen = calloc(q, 1); int left = q - 1; EC_KEY *k = EC_KEY_new(); EC_KEY_set_group(k, GRP[t]);
        if (q > 400) { EC_KEY_free(k); free(seen); continue; }
        for (long i = 0; left && i < 60l * q; i++) { if (dstu_generate_key(k) != 1) B(("key generation fails on a small curve")); nat_cases++; int d = BN_get_word(EC_KEY_get0_private_key(k)); if (d <= 0 || d >= q) B(("private key %d outside 1..%d", d, q - 1)); if (!seen[d]) { seen[d] = 1; left--; check_key(k, GRP[t], "small curve"); } }
        if (left) { for (int i = 1; i < q; i++) if (!seen[i]) printf("  never drawn: %d of order %d\n", i, q); B(("%d private keys are never drawn in %d attempts", left, 60 * q)); }
        EC_KEY_free(k); free(seen);
    }
    BIGNUM *prev = BN_new();
    while (more()) {
        int cn = curve_pick(); EC_GROUP *g = GRP[cn]; EC_KEY *k = EC_KEY_new(); EC_KEY_set_group(k, g);
        if (dstu_generate_key(k) != 1) B(("key generation fails (curve %d)", cn)); check_key(k, g, "generated");
        if (cn < 10 && !BN_cmp(prev, EC_KEY_get0_private_key(k))) B(("the same private key twice")); BN_copy(prev, EC_KEY_get0_private_key(k));
        BIGNUM *d = BN_new(); rnd_scalar(d, EC_GROUP_get0_order(g)); EC_KEY_set_private_key(k, d); if (dstu_add_public_key(k) != 1) B(("public key derivation fails")); check_key(k, g, "derived"); if (BN_cmp(d, EC_KEY_get0_private_key(k))) B(("deriving the public key changed the private key"));
        if (rn(3) == 0) { /* with an allocation failing: refused, or right */
            EC_KEY *f = EC_KEY_new(); EC_KEY_set_group(f, g); if (rn(2)) { oom_arm(1 + rn(40), rn(2)); int r = dstu_generate_key(f); oom_off(); if (r == 1) check_key(f, g, "generated under memory shortage"); }
            else { EC_KEY_set_private_key(f, d); oom_arm(1 + rn(30), rn(2)); int r = dstu_add_public_key(f); oom_off(); if (r == 1) check_key(f, g, "derived under memory shortage"); } EC_KEY_free(f); ERR_clear_error(); }
        EC_KEY_free(k); BN_free(d);
        /* through the EVP interface */
        int le = rn(2), nid = le ? NID_dstu4145le : NID_dstu4145be, ec = rn(10), usecurve = rn(3), usesb = rn(3); uint8_t sb[65]; char hex[140]; rbytes(sb, 64); sb[rn(64)] |= 0x11;
        EVP_PKEY_CTX *c = EVP_PKEY_CTX_new_id(nid, nat_engine()), *c2 = NULL; EVP_PKEY *p = NULL; if (!c || EVP_PKEY_keygen_init(c) <= 0) B(("keygen_init"));
        EC_GROUP *want = GRP[6];
        if (usecurve == 1) { want = GRP[ec]; if (EVP_PKEY_CTX_ctrl(c, nid, EVP_PKEY_OP_KEYGEN, DSTU_SET_CURVE, 0, want) <= 0) B(("curve refused")); }
        if (usecurve == 2) { want = GRP[ec]; if (EVP_PKEY_CTX_ctrl_str(c, "curve", OBJ_nid2sn(dstu_curves[ec].nid)) <= 0) B(("curve name %s refused", OBJ_nid2sn(dstu_curves[ec].nid))); }
        for (int i = 0; i < 64; i++) sprintf(hex + 2 * i, rn(2) ? "%02x" : "%02X", sb[i]);
        if (usesb == 1 && EVP_PKEY_CTX_ctrl(c, nid, EVP_PKEY_OP_KEYGEN, DSTU_SET_CUSTOM_SBOX, 64, sb) <= 0) B(("S-box refused"));
        if (usesb == 2 && EVP_PKEY_CTX_ctrl_str(c, "sbox", hex) <= 0) B(("S-box string refused"));
        if (usecurve && rn(2)) { want = GRP[ec = rn(10)]; if (EVP_PKEY_CTX_ctrl(c, nid, EVP_PKEY_OP_KEYGEN, DSTU_SET_CURVE, 0, want) <= 0) B(("curve refused the second time")); }   /* the S-box stays */
        /* refused parameters change nothing */
        { char bad[300]; strcpy(bad, hex); bad[126] = 0; if (EVP_PKEY_CTX_ctrl_str(c, "sbox", bad) > 0) B(("a short S-box string is accepted")); sprintf(bad, "%s00", hex); if (EVP_PKEY_CTX_ctrl_str(c, "sbox", bad) > 0) B(("a long S-box string is accepted"));
          sprintf(bad, "-%s", hex + 1); if (EVP_PKEY_CTX_ctrl_str(c, "sbox", bad) > 0) B(("a negative S-box string is accepted"));
          if (EVP_PKEY_CTX_ctrl(c, nid, EVP_PKEY_OP_KEYGEN, DSTU_SET_CUSTOM_SBOX, rn(64), sb) > 0 || EVP_PKEY_CTX_ctrl(c, nid, EVP_PKEY_OP_KEYGEN, DSTU_SET_CUSTOM_SBOX, 65, sb) > 0) B(("an S-box of the wrong size is accepted"));
          if (EVP_PKEY_CTX_ctrl_str(c, "curve", "prime256v1") > 0 || EVP_PKEY_CTX_ctrl_str(c, "curve", "nonsense") > 0 || EVP_PKEY_CTX_ctrl_str(c, "nonsense", "1") > 0) B(("an unknown parameter is accepted")); ERR_clear_error(); }
        if (rn(2) && (c2 = EVP_PKEY_CTX_dup(c))) {     /* OpenSSL 3.0 itself refuses to copy keygen contexts */ EVP_PKEY_CTX *t = c; c = c2; c2 = t; if (rn(2)) { EVP_PKEY_CTX_free(c2); c2 = NULL; } }
        int fault = rn(4) == 0; if (fault) oom_arm(1 + rn(80), rn(2)); int r = EVP_PKEY_keygen(c, &p); if (fault) oom_off(); ERR_clear_error();
        if (r <= 0 && !fault) B(("EVP keygen fails"));
        if (r > 0) { DSTU_KEY *dk = EVP_PKEY_get0(p); if (EVP_PKEY_id(p) != nid) B(("key has type %d", EVP_PKEY_id(p))); check_key(dk->ec, want, usecurve ? "EVP, chosen curve" : "EVP, default curve");
            if (usesb ? !dk->sbox || memcmp(dk->sbox, sb, 64) : dk->sbox != NULL) B(("the key's S-box is not the one requested")); }
        if (r > 0 && rn(3) == 0) { EVP_PKEY *p2 = NULL; if (EVP_PKEY_keygen(c, &p2) <= 0) B(("second keygen fails")); if (!BN_cmp(EC_KEY_get0_private_key(((DSTU_KEY *)EVP_PKEY_get0(p))->ec), EC_KEY_get0_private_key(((DSTU_KEY *)EVP_PKEY_get0(p2))->ec))) B(("two generated keys are equal"));
            DSTU_KEY *dk = EVP_PKEY_get0(p2), *d1 = EVP_PKEY_get0(p); check_key(dk->ec, want, "EVP, second key"); if (usesb ? !dk->sbox || memcmp(dk->sbox, sb, 64) : dk->sbox != NULL) B(("the second key's S-box is not the one requested")); if (usesb && dk->sbox == d1->sbox) B(("two keys share their S-box")); EVP_PKEY_free(p2); }
        if (r > 0) EVP_PKEY_free(p); else if (p) EVP_PKEY_free(p); EVP_PKEY_CTX_free(c); EVP_PKEY_CTX_free(c2); ERR_clear_error();
    }
    BN_free(prev); return nat_done();
}
