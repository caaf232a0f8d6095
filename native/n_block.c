#include "nat.h"
#include "gost/gost89.h"
static uint32_t bswap(uint32_t x) { return x << 24 | (x & 0xff00) << 8 | (x >> 8 & 0xff00) | x >> 24; }
static void one(const spec_sbox *s, const uint8_t *key, const uint8_t *in, int n)
{
    gost_ctx *c = malloc(sizeof *c); gost_subst_block b; uint8_t *o = malloc(8 * n + 1), *w = malloc(8 * n + 1), k2[32], mk[32];
    SBOX_TO_BLOCK(s, &b);
    for (int mode = 0; mode < 3; mode++) {
        memset(c, 0x5a, sizeof *c);
        gost_init(c, &b);
        if (mode == 0) gost_key(c, key); else if (mode == 1) gost_key_nomask(c, key); else magma_key(c, key);
        for (int i = 0; i < 8; i++) { uint32_t v = spec_le32(key + 4 * i); spec_put32(mk + 4 * i, mode == 2 ? bswap(v) : v); }
        if (mode == 2) magma_get_key(c, k2); else gost_get_key(c, k2);
        if (memcmp(k2, key, 32)) { fail("get_key mode %d", mode); hexs("key", key, 32); hexs("got", k2, 32); DIE(); }
        for (int i = 0; i < n; i++) spec_encrypt(s, mk, in + 8 * i, w + 8 * i);
        o[8 * n] = 0xA5; gost_enc(c, in, o, n);
        if (memcmp(o, w, 8 * n) || o[8 * n] != 0xA5) { fail("gost_enc mode %d", mode); hexs("key", key, 32); hexs("sbox", s, 128); hexs("in", in, 8 * n); hexs("want", w, 8 * n); hexs("got", o, 8 * n); DIE(); }
        memcpy(o, in, 8 * n); gost_enc(c, o, o, n);
        if (memcmp(o, w, 8 * n)) { fail("gost_enc in place mode %d", mode); hexs("key", key, 32); hexs("in", in, 8 * n); DIE(); }
        gost_dec(c, o, o, n);
        if (memcmp(o, in, 8 * n)) { fail("gost_dec inverse mode %d", mode); hexs("key", key, 32); hexs("in", in, 8 * n); DIE(); }
        if (n) { gostcrypt(c, in, o); if (memcmp(o, w, 8)) { fail("gostcrypt"); DIE(); } gostdecrypt(c, w, o); if (memcmp(o, in, 8)) { fail("gostdecrypt"); DIE(); } }
        gost_get_key(c, k2);
        if (memcmp(k2, mk, 32)) { fail("key changed by use"); DIE(); }
        if (n && mode != 2) {
            uint8_t kk[32]; memcpy(kk, key, 32); kk[3] ^= 1; uint8_t bb[8]; memcpy(bb, in, 8);
            gost_enc_with_key(c, kk, bb, o); spec_encrypt(s, kk, in, w);
            if (memcmp(o, w, 8)) { fail("gost_enc_with_key"); hexs("key", kk, 32); hexs("in", in, 8); DIE(); }
        }
        gost_destroy(c);
        for (int i = 0; i < 8; i++) if (c->key[i] || c->mask[i]) { fail("gost_destroy leaves key material"); DIE(); }
    }
    gost_init(c, NULL); { gost_ctx d; gost_init(&d, &GostR3411_94_TestParamSet); if (memcmp(c->k87, d.k87, sizeof c->k87 * 4)) { fail("default S-boxes"); DIE(); } }
    free(c); free(o); free(w);
}
int main(int argc, char **argv)
{
    nat_init(argc, argv);
    spec_sbox s; uint8_t key[32]; static uint8_t in[8 * 66000];
    rand_sbox(&s); rbytes(key, 32); rbytes(in, sizeof in);
    cex_hex("IN_key", key, 32); cex_hex("IN_blk", in, 8);
    { uint8_t r[16]; const char *n[8] = {"IN_sbox.k1","IN_sbox.k2","IN_sbox.k3","IN_sbox.k4","IN_sbox.k5","IN_sbox.k6","IN_sbox.k7","IN_sbox.k8"};
      for (int i = 0; i < 8; i++) if (cex_hex(n[i], r, 16)) for (int j = 0; j < 16; j++) s.row[i][j] = r[j] & 15; }
    { char nm[32]; for (int i = 0; i < 8; i++) { sprintf(nm, "IN_ctx.key[%d]", i); long long a = cex_int(nm, -1); sprintf(nm, "IN_ctx.mask[%d]", i); long long m = cex_int(nm, 0); if (a >= 0) spec_put32(key + 4 * i, (uint32_t)(a + m)); } }
    one(&s, key, in, 1);
    for (int i = 0; i < 6; i++) { static const int big[] = {255, 256, 257, 4096, 32769, 65537}; rand_sbox(&s); rbytes(key, 32); rbytes(in, sizeof in); one(&s, key, in, big[i]); }
    /* published vectors are covered by the tests; here the spec is the oracle */
    while (more()) { rand_sbox(&s); rbytes(key, 32); rbytes(in, 8 * 65); one(&s, key, in, rn(10) ? rn(6) : rn(65)); }
    return nat_done();
}
