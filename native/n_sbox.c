#include "nat.h"
#include "params.h"
static const uint8_t DKE1[64] = {0xa9,0xd6,0xeb,0x45,0xf1,0x3c,0x70,0x82,0x80,0xc4,0x96,0x7b,0x23,0x1f,0x5e,0xad,0xf6,0x58,0xeb,0xa4,0xc0,0x37,0x29,0x1d,0x38,0xd9,0x6b,0xf0,0x25,0xca,0x4e,0x17,
 0xf8,0xe9,0x72,0x0d,0xc6,0x15,0xb4,0x3a,0x28,0x97,0x5f,0x0b,0xc1,0xde,0xa3,0x64,0x38,0xb5,0x64,0xea,0x2c,0x17,0x9f,0xd0,0x12,0x3e,0x6d,0xb8,0xfa,0xc5,0x79,0x04};
static void one(uint8_t *p)
{
    gost_subst_block b, b2; uint8_t q[64], *c, orig[64]; spec_sbox s; memcpy(orig, p, 64); gost_ctx g;
    memset(&b, 0xA5, sizeof b); unpack_sbox(p, &b);
    for (int r = 0; r < 8; r++) for (int i = 0; i < 16; i++) s.row[r][i] = i & 1 ? p[8 * r + i / 2] & 15 : p[8 * r + i / 2] >> 4;
    SBOX_TO_BLOCK(&s, &b2);
    if (memcmp(&b, &b2, sizeof b)) { fail("unpack_sbox"); hexs("packed", p, 64); DIE(); }
    pack_sbox(&b, q); if (memcmp(q, p, 64)) { fail("pack_sbox"); hexs("packed", p, 64); hexs("got", q, 64); DIE(); }
    gost_init(&g, &b); memset(&b2, 0x5A, sizeof b2); dstu_get_sbox(&g, &b2); if (memcmp(&b, &b2, sizeof b)) { fail("dstu_get_sbox"); hexs("packed", p, 64); DIE(); }
    if (!!is_default_sbox(p) != !memcmp(p, DKE1, 64)) { fail("is_default_sbox"); hexs("packed", p, 64); DIE(); }
    c = copy_sbox(p); if (!c || c == p || memcmp(c, p, 64)) { fail("copy_sbox"); DIE(); } memset(c, 0, 64);
    if (memcmp(p, orig, 64)) { fail("copy_sbox aliases or an operation changed its input"); DIE(); } OPENSSL_free(c);
}
int main(int argc, char **argv)
{
    nat_init(argc, argv); uint8_t p[64];
    if (memcmp(default_sbox, DKE1, 64)) { fail("default S-box"); DIE(); }
    rbytes(p, 64); cex_hex("IN_packed", p, 64); one(p);
    memcpy(p, DKE1, 64); one(p); for (int i = 0; i < 64; i++) for (int b = 0; b < 8; b++) { memcpy(p, DKE1, 64); p[i] ^= 1 << b; one(p); }
    while (more()) { rbytes(p, 64); one(p); }
    return nat_done();
}
