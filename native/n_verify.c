/* dstu_do_verify against the reference, on valid, mutated and hand-made signatures. */
#include "nat_ec.h"
#include "sign.h"
static void ask(EC_KEY *k, int cn, const uint8_t *hash, int hl, const BIGNUM *r, const BIGNUM *s, int half, const char *what)
{
    const EC_GROUP *g = EC_KEY_get0_group(k); uint8_t sig[400];
    if (half * 2 > (int)sizeof sig || BN_num_bytes(r) > half || BN_num_bytes(s) > half) return;
    uint8_t *exact = malloc(2 * half); BN_bn2binpad(s, sig, half); BN_bn2binpad(r, sig + half, half); memcpy(exact, sig, 2 * half);
    uint8_t *hx = malloc(hl ? hl : 1); memcpy(hx, hash, hl); if (!hl) { free(hx); hx = malloc(0); }
    int want = sp_verify(g, EC_KEY_get0_public_key(k), hash, hl, r, s), got = dstu_do_verify(k, hx, hl, exact, 2 * half);
    if (got != want || memcmp(exact, sig, 2 * half)) { fail("verify says %d, reference says %d: %s (curve %d, hash of %d bytes)", got, want, what, cn, hl); hexs("hash", hash, hl); bnp("r", r); bnp("s", s); DIE(); }
    free(exact); free(hx); nat_cases++;
}
int main(int argc, char **argv)
{
    nat_init(argc, argv); ec_init(1);
    { /* keys that cannot verify */
        EC_KEY *k = EC_KEY_new(); uint8_t z[64] = {1}; if (dstu_do_verify(k, z, 32, z, 64)) { fail("a key without a group verifies"); DIE(); }
        EC_KEY_set_group(k, GRP[0]); if (dstu_do_verify(k, z, 32, z, 42)) { fail("a key without a public point verifies"); DIE(); } EC_KEY_free(k);
        k = EC_KEY_new_by_curve_name(NID_X9_62_prime256v1); EC_KEY_generate_key(k); if (dstu_do_verify(k, z, 32, z, 64)) { fail("a key on a prime curve verifies"); DIE(); } EC_KEY_free(k); ERR_clear_error();
    }
    while (more()) {
        int cn = curve_pick(); EC_GROUP *g = GRP[cn]; const BIGNUM *n = EC_GROUP_get0_order(g); int fs = BN_num_bytes(n), deg = EC_GROUP_get_degree(g);
        BIGNUM *d = BN_new(), *e = BN_new(), *r = NULL, *s = NULL, *t = BN_new(); rnd_scalar(d, n); EC_KEY *k = mk_ec(g, d); uint8_t h[64]; int hl = rnd_hash(h, deg);
        do rnd_scalar(e, n); while (!sp_sign(g, d, h, hl, e, &r, &s));
        ask(k, cn, h, hl, r, s, fs, "valid"); ask(k, cn, h, hl, r, s, fs + 1 + rn(20), "valid, zero padded");
        ask(k, cn, h, hl, s, r, fs, "halves swapped");
        BN_copy(t, r); if (rn(2)) BN_is_bit_set(t, 0); { int b = rn(fs * 8); if (BN_is_bit_set(t, b)) BN_clear_bit(t, b); else BN_set_bit(t, b); } ask(k, cn, h, hl, t, s, fs, "r flipped");
        BN_copy(t, s); { int b = rn(fs * 8); if (BN_is_bit_set(t, b)) BN_clear_bit(t, b); else BN_set_bit(t, b); } ask(k, cn, h, hl, r, t, fs, "s flipped");
        BN_add(t, s, n); ask(k, cn, h, hl, r, t, BN_num_bytes(t) > fs ? fs + 1 : fs, "s + n"); ask(k, cn, h, hl, r, t, fs + 4, "s + n");
        BN_add(t, r, n); ask(k, cn, h, hl, t, s, BN_num_bytes(t) > fs ? fs + 1 : fs, "r + n"); ask(k, cn, h, hl, t, s, fs + 4, "r + n");
        BN_zero(t); ask(k, cn, h, hl, t, s, fs, "r = 0"); ask(k, cn, h, hl, r, t, fs, "s = 0"); ask(k, cn, h, hl, t, t, fs, "all zero"); ask(k, cn, h, hl, n, s, fs, "r = n"); ask(k, cn, h, hl, r, n, fs, "s = n");
        { BIGNUM *q = BN_new(); BN_copy(q, r); BN_set_bit(q, BN_num_bits(n) - 1); ask(k, cn, h, hl, q, s, fs + 1, "r with the bit above the truncation"); BN_sub(q, n, s); ask(k, cn, h, hl, r, q, fs, "n - s"); BN_free(q); }
        { BN_CTX *c = BN_CTX_new(); BN_mod_mul(t, d, r, n, c); ask(k, cn, h, hl, r, t, fs, "R at infinity");                      /* sG + rQ = 0 */
          BN_CTX_free(c); }
        if (hl) { uint8_t h2[64]; memcpy(h2, h, hl); int b = rn(8 * hl); h2[b / 8] ^= 1 << (b & 7); ask(k, cn, h2, hl, r, s, fs, "hash bit flipped"); if (hl > 1) ask(k, cn, h2, hl - 1, r, s, fs, "hash shortened"); }
        { BIGNUM *d2 = BN_new(); rnd_scalar(d2, n); EC_KEY *k2 = mk_ec(g, d2); ask(k2, cn, h, hl, r, s, fs, "another key"); EC_KEY_free(k2); BN_sub(d2, n, d); k2 = mk_ec(g, d2); ask(k2, cn, h, hl, r, s, fs, "negated key"); EC_KEY_free(k2); BN_free(d2); }
        for (int i = 0; cn >= 10 && i < 30; i++) { BIGNUM *a = BN_new(), *b = BN_new(); BN_set_word(a, rn(2 + BN_get_word(n))); BN_set_word(b, rn(2 + BN_get_word(n))); ask(k, cn, h, hl, a, b, fs, "random pair"); BN_free(a); BN_free(b); }
        BN_free(d); BN_free(e); BN_free(r); BN_free(s); BN_free(t); EC_KEY_free(k); ERR_clear_error();
    }
    return nat_done();
}
