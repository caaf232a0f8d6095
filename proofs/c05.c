/* C05: S-box representations. */
#include "common.h"
#include "gost/gost89.h"
#include "ossl_min.h"
int RAND_priv_bytes(unsigned char *buf, int num) { return nd_int(); }
#include "params.c"
static const u8 *row(const gost_subst_block *b, int i)
{ return i == 0 ? b->k1 : i == 1 ? b->k2 : i == 2 ? b->k3 : i == 3 ? b->k4 : i == 4 ? b->k5 : i == 5 ? b->k6 : i == 6 ? b->k7 : b->k8; }
/* DKE No. 1 of the Ukrainian standard, packed: 8 rows of 16 nibbles, high nibble first */
static const u8 DKE1[64] = {0xa9,0xd6,0xeb,0x45,0xf1,0x3c,0x70,0x82,0x80,0xc4,0x96,0x7b,0x23,0x1f,0x5e,0xad,0xf6,0x58,0xeb,0xa4,0xc0,0x37,0x29,0x1d,0x38,0xd9,0x6b,0xf0,0x25,0xca,0x4e,0x17,
 0xf8,0xe9,0x72,0x0d,0xc6,0x15,0xb4,0x3a,0x28,0x97,0x5f,0x0b,0xc1,0xde,0xa3,0x64,0x38,0xb5,0x64,0xea,0x2c,0x17,0x9f,0xd0,0x12,0x3e,0x6d,0xb8,0xfa,0xc5,0x79,0x04};
static gost_subst_block SB, SB2; u8 IN_packed[64]; static u8 P2[64];
#define NIB(p, r, c) ((c) & 1 ? (p)[8 * (r) + (c) / 2] & 15 : (p)[8 * (r) + (c) / 2] >> 4)
void h_unpack(void)
{
    __CPROVER_havoc_object(IN_packed); unsigned r = nd_uint(), c = nd_uint(), q = nd_uint(); REQUIRES(r < 8 && c < 16 && q < 64); u8 old = IN_packed[q];
    __CPROVER_havoc_object(&SB);
    unpack_sbox(IN_packed, &SB);
    ENSURES(row(&SB, r)[c] == NIB(IN_packed, r, c), "unpacking: entry c of row r is nibble 16r+c, high nibble first");
    pack_sbox(&SB, P2);
    ENSURES(P2[q] == IN_packed[q], "packing an unpacked S-box gives back the same 64 bytes");
    FRAME(IN_packed[q] == old, "unpacking leaves its input alone");
    REACH("unpack");
}
void h_pack(void)
{
    __CPROVER_havoc_object(&SB); __CPROVER_havoc_object(P2); unsigned r = nd_uint(), c = nd_uint(); REQUIRES(r < 8 && c < 16); REQUIRES(row(&SB, r)[c] < 16);
    u8 v = row(&SB, r)[c];
    pack_sbox(&SB, P2);
    ENSURES(NIB(P2, r, c) == v, "packing: nibble 16r+c is entry c of row r");
    unpack_sbox(P2, &SB2);
    ENSURES(row(&SB2, r)[c] == v, "unpacking a packed S-box gives back the same entries");
    FRAME(row(&SB, r)[c] == v, "packing leaves its input alone");
    REACH("pack");
}
/* dstu_get_sbox recovers what kboxinit (contract proved in C01) expanded */
static gost_ctx CTX;
void h_get_sbox(void)
{
    __CPROVER_havoc_object(&SB); __CPROVER_havoc_object(&CTX); __CPROVER_havoc_object(&SB2);
    for (int r = 0; r < 8; r++) for (int c = 0; c < 16; c++) REQUIRES(row(&SB, r)[c] < 16);
    for (int i = 0; i < 256; i++) {
        CTX.k87[i] = (u32)(SB.k8[i >> 4] << 4 | SB.k7[i & 15]) << 24; CTX.k65[i] = (u32)(SB.k6[i >> 4] << 4 | SB.k5[i & 15]) << 16;
        CTX.k43[i] = (u32)(SB.k4[i >> 4] << 4 | SB.k3[i & 15]) << 8; CTX.k21[i] = SB.k2[i >> 4] << 4 | SB.k1[i & 15];
    }
    unsigned r = nd_uint(), c = nd_uint(); REQUIRES(r < 8 && c < 16);
    dstu_get_sbox(&CTX, &SB2);
    ENSURES(row(&SB2, r)[c] == row(&SB, r)[c], "the S-boxes read back from a cipher context are the ones installed in it");
    REACH("get_sbox");
}
void h_default(void)
{
    unsigned q = nd_uint(); REQUIRES(q < 64);
    ENSURES(default_sbox[q] == DKE1[q], "the default S-box is DKE No. 1");
    __CPROVER_havoc_object(IN_packed);
    _Bool eq = 1; for (int i = 0; i < 64; i++) if (IN_packed[i] != DKE1[i]) eq = 0;
    ENSURES(!!is_default_sbox(IN_packed) == eq, "an S-box is reported as the default exactly when all 64 bytes match");
    REACH("default");
}
void h_copy(void)
{
    __CPROVER_havoc_object(IN_packed); unsigned q = nd_uint(); REQUIRES(q < 64); u8 old = IN_packed[q];
    OSSL_MAY_FAIL = 1;
    u8 *c = copy_sbox(IN_packed);
    ENSURES(IMP(c, __CPROVER_rw_ok(c, 64) && c != IN_packed && c[q] == old), "a copied S-box is a fresh 64-byte block with the same bytes");
    if (c) { c[q] = nd_u8(); FRAME(IN_packed[q] == old, "a copied S-box does not alias the original"); CRYPTO_free(c, 0, 0); }
    REACH("copy");
}
