/* Executable specification of GOST 28147-89 (DSTU GOST 28147:2009), written
 * from the standard.  Used by the proofs and by the native replay programs. */
#ifndef GOST_SPEC_H
#define GOST_SPEC_H
#include <stdint.h>
#include <string.h>

typedef struct { uint8_t row[8][16]; } spec_sbox; /* row[i] substitutes nibble i (0 = least significant) */

static uint32_t spec_rotl11(uint32_t x) { return (x << 11) | (x >> 21); }
static uint32_t spec_le32(const uint8_t *p)
{ return (uint32_t)p[0] | (uint32_t)p[1] << 8 | (uint32_t)p[2] << 16 | (uint32_t)p[3] << 24; }
static void spec_put32(uint8_t *p, uint32_t v)
{ p[0] = v; p[1] = v >> 8; p[2] = v >> 16; p[3] = v >> 24; }

static uint32_t spec_f(const spec_sbox *s, uint32_t x)
{
    uint32_t y = 0;
    for (int i = 0; i < 8; i++)
        y |= (uint32_t)(s->row[i][(x >> (4 * i)) & 15] & 15) << (4 * i);
    return spec_rotl11(y);
}
/* subkey used in encryption round r = 0..31 */
static int spec_enc_key(int r) { return r < 24 ? r & 7 : 7 - (r & 7); }

#ifndef __CBMC__
static void spec_block(const spec_sbox *s, const uint8_t *key, const uint8_t *in, uint8_t *out, int dec)
{
    uint32_t n1 = spec_le32(in), n2 = spec_le32(in + 4), t;
    for (int r = 0; r < 32; r++) {
        int k = spec_enc_key(dec ? 31 - r : r);
        t = n2 ^ spec_f(s, n1 + spec_le32(key + 4 * k));
        n2 = n1; n1 = t;
    }
    spec_put32(out, n2); spec_put32(out + 4, n1);
}
static void spec_encrypt(const spec_sbox *s, const uint8_t *k, const uint8_t *in, uint8_t *out) { spec_block(s, k, in, out, 0); }
static void spec_decrypt(const spec_sbox *s, const uint8_t *k, const uint8_t *in, uint8_t *out) { spec_block(s, k, in, out, 1); }

static void spec_cfb(const spec_sbox *s, const uint8_t *key, const uint8_t *iv, const uint8_t *in, uint8_t *out, size_t n, int dec)
{
    uint8_t prev[8], g[8], c[8];
    memcpy(prev, iv, 8);
    for (size_t i = 0; i < n; i++) {
        if (i % 8 == 0) { if (i) memcpy(prev, c, 8); spec_encrypt(s, key, prev, g); }
        c[i % 8] = dec ? in[i] : in[i] ^ g[i % 8];
        out[i] = in[i] ^ g[i % 8];
    }
}
static void spec_mac(const spec_sbox *s, const uint8_t *key, const uint8_t *iv, const uint8_t *data, size_t n, uint8_t st[8])
{
    size_t blocks = (n + 7) / 8; uint8_t b[8];
    memcpy(st, iv, 8);
    if (blocks == 1) blocks = 2;            /* a one-block message is extended by a zero block */
    for (size_t i = 0; i < blocks; i++) {
        for (int j = 0; j < 8; j++) { b[j] = 8 * i + j < n ? data[8 * i + j] : 0; st[j] ^= b[j]; }
        uint32_t n1 = spec_le32(st), n2 = spec_le32(st + 4), t;
        for (int r = 0; r < 16; r++) { t = n2 ^ spec_f(s, n1 + spec_le32(key + 4 * (r & 7))); n2 = n1; n1 = t; }
        spec_put32(st, n1); spec_put32(st + 4, n2);
    }
}
/* GOST 34.311-95 (GOST R 34.11-94) */
static void spec_A(uint8_t *y) { uint8_t t[8]; for (int i = 0; i < 8; i++) t[i] = y[i] ^ y[8 + i]; memmove(y, y + 8, 24); memcpy(y + 24, t, 8); }
static void spec_P(const uint8_t *y, uint8_t *o) { for (int i = 0; i < 4; i++) for (int k = 0; k < 8; k++) o[i + 4 * k] = y[8 * i + k]; }
static void spec_psi(uint8_t *g)
{ uint8_t a = g[0]^g[2]^g[4]^g[6]^g[24]^g[30], b = g[1]^g[3]^g[5]^g[7]^g[25]^g[31]; memmove(g, g + 2, 30); g[30] = a; g[31] = b; }
static void spec_chi(const spec_sbox *s, uint8_t *H, const uint8_t *M)
{
    static const uint8_t C3[32] = {0x00,0xff,0x00,0xff,0x00,0xff,0x00,0xff,0xff,0x00,0xff,0x00,0xff,0x00,0xff,0x00,
                                   0x00,0xff,0xff,0x00,0xff,0x00,0x00,0xff,0xff,0x00,0x00,0x00,0xff,0xff,0x00,0xff};
    uint8_t U[32], V[32], W[32], K[32], S[32]; int i, j;
    memcpy(U, H, 32); memcpy(V, M, 32);
    for (i = 0; i < 4; i++) {
        if (i) { spec_A(U); if (i == 2) for (j = 0; j < 32; j++) U[j] ^= C3[j]; spec_A(V); spec_A(V); }
        for (j = 0; j < 32; j++) W[j] = U[j] ^ V[j];
        spec_P(W, K); spec_encrypt(s, K, H + 8 * i, S + 8 * i);
    }
    for (i = 0; i < 12; i++) spec_psi(S);
    for (j = 0; j < 32; j++) S[j] ^= M[j];
    spec_psi(S);
    for (j = 0; j < 32; j++) S[j] ^= H[j];
    for (i = 0; i < 61; i++) spec_psi(S);
    memcpy(H, S, 32);
}
static void spec_hash(const spec_sbox *s, const uint8_t *m, size_t n, uint8_t out[32])
{
    uint8_t H[32] = {0}, Sg[32] = {0}, B[32], L[32] = {0}; size_t off = 0; unsigned c; int j;
    do {
        memset(B, 0, 32); memcpy(B, m + off, n - off < 32 ? n - off : 32);
        spec_chi(s, H, B);
        for (c = 0, j = 0; j < 32; j++) { c += Sg[j] + B[j]; Sg[j] = c; c >>= 8; }
        off += 32;
    } while (off < n);
    unsigned long long bits = (unsigned long long)n * 8;
    for (j = 0; j < 8; j++) L[j] = bits >> (8 * j);
    spec_chi(s, H, L); spec_chi(s, H, Sg);
    memcpy(out, H, 32);
}
#endif
#endif
