#include "nat.h"
#include "gost/gost89.h"
static const uint8_t CP[32] = {0x69,0x00,0x72,0x22,0x64,0xC9,0x04,0x23,0x8D,0x3A,0xDB,0x96,0x46,0xE9,0x2A,0xC4,0x18,0xFE,0xAC,0x94,0x00,0xED,0x07,0x12,0xC0,0x86,0xDC,0xC2,0xEF,0x4C,0xA9,0x2B};
static void one(int n, int bits)
{
    spec_sbox s; uint8_t key[32], iv[8], zero[8] = {0}, st[8], out[10], *data = malloc(n ? n : 1); gost_ctx c; gost_subst_block b;
    rand_sbox(&s); rbytes(key, 32); rbytes(iv, 8); rbytes(data, n); SBOX_TO_BLOCK(&s, &b);
    gost_init(&c, &b); if (rn(2)) gost_key(&c, key); else gost_key_nomask(&c, key);
    for (int m = 0; m < 2; m++) {
        uint8_t w[10]; memset(out, 0xA5, 10); memset(w, 0xA5, 10);
        spec_mac(&s, key, m ? iv : zero, data, n, st);
        memcpy(w, st, bits / 8); if (bits & 7) w[bits / 8] = st[bits / 8] & ((1 << (bits & 7)) - 1);
        int r = m ? gost_mac_iv(&c, bits, iv, data, n, out) : gost_mac(&c, bits, data, n, out);
        if (r != 1 || memcmp(out, w, 10)) { fail("MAC %s: %d bytes, %d bits", m ? "with IV" : "", n, bits); hexs("key", key, 32); hexs("sbox", &s, 128); hexs("iv", iv, 8); hexs("data", data, n); hexs("want", w, 10); hexs("got", out, 10); DIE(); }
    }
    uint8_t nk[32], k2[32], w[8], v[8];
    for (int i = 0; i < 4; i++) spec_decrypt(&s, key, CP + 8 * i, nk + 8 * i);
    spec_encrypt(&s, nk, iv, w); memcpy(v, iv, 8);
    int wi = rn(4); cryptopro_key_meshing(&c, wi ? v : NULL); gost_get_key(&c, k2);
    if (memcmp(k2, nk, 32) || memcmp(v, wi ? w : iv, 8)) { fail("key meshing"); hexs("key", key, 32); hexs("iv", iv, 8); DIE(); }
    gost_key(&c, key); acpkm_magma_key_meshing(&c); gost_get_key(&c, k2);
    for (int i = 0; i < 4; i++) { uint8_t d[8], e[8]; for (int j = 0; j < 8; j++) d[j] = 0x80 + 8 * i + 7 - j; spec_encrypt(&s, key, d, e); memcpy(nk + 8 * i, e + 4, 4); memcpy(nk + 8 * i + 4, e, 4); }
    if (memcmp(k2, nk, 32)) { fail("ACPKM key meshing"); hexs("key", key, 32); DIE(); }
    free(data);
}
int main(int argc, char **argv)
{
    nat_init(argc, argv);
    int cb = (int)cex_int("IN_bits", 32);
    one(9, cb >= 0 && cb <= 64 ? cb : 32);
    for (int n = 0; n < 50; n++) for (int b = 0; b <= 64; b++) { one(n, b); nat_cases++; }
    for (int n = 1020; n < 1036; n++) one(n, 32);
    one(65536, 32); one(65537, 64); one(1 << 20, 32);
    while (more()) one(rn(20) ? rn(200) : rn(5000), rn(65));
    return nat_done();
}
