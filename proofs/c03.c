/* C03: GOST 28147 MAC (imitovstavka) and the key meshing functions. */
#include "common.h"
#include "gost_spec.h"
#include "gost/gost89.h"

#define EKEY(c, i) ((u32)((c)->key[i] + (c)->mask[i]))
static u32 tab_f(const gost_ctx *c, u32 x)
{ return spec_rotl11(c->k87[x >> 24] | c->k65[x >> 16 & 255] | c->k43[x >> 8 & 255] | c->k21[x & 255]); }
static gost_ctx CTX; gost_ctx IN_ctx;
static u32 EK0[8];
static _Bool keys_same(const gost_ctx *c)
{ return EKEY(c,0)==EK0[0] && EKEY(c,1)==EK0[1] && EKEY(c,2)==EK0[2] && EKEY(c,3)==EK0[3] && EKEY(c,4)==EK0[4] && EKEY(c,5)==EK0[5] && EKEY(c,6)==EK0[6] && EKEY(c,7)==EK0[7]; }

/* ghost log of mac_block calls: how many, the chaining value, and whether call
 * number J (arbitrary) was given message block J */
static u64v N, J, LAST, WANT_J; static _Bool J_OK;
static _Bool USED_MAC; static int MAC_BITS;
#ifdef UNIT_CUT
#define MACINV (i <= data_len && i + 8 <= data_len && i % 8 == 0 && N == i / 8 && LE64B(buffer) == LAST && IMP(J < N, J_OK))
#define MACHAVOC i = nd_uint(); __CPROVER_assume(i <= data_len && i + 8 <= data_len && i % 8 == 0); N = nd_u64(); LAST = nd_u64(); J_OK = nd_bool(); __CPROVER_havoc_object(buffer)
#undef DSTU_LOOP_HEAD_gost_mac
#define DSTU_LOOP_HEAD_gost_mac CUT(MACINV, MACHAVOC)
#undef DSTU_LOOP_HEAD_gost_mac_iv
#define DSTU_LOOP_HEAD_gost_mac_iv CUT(MACINV, MACHAVOC)
#endif

int RAND_priv_bytes(unsigned char *buf, int num) { return nd_int(); }
void OPENSSL_cleanse(void *p, size_t n) { memset(p, 0, n); }
#include "gost/gost89.c"

void mac_block__contract(gost_ctx *c, byte *buffer, const byte *block)
{
    CALLPRE(__CPROVER_r_ok(c, sizeof *c) && __CPROVER_w_ok(buffer, 8) && __CPROVER_r_ok(block, 8) && !__CPROVER_same_object(buffer, block), "mac_block: context, 8-byte state, 8-byte block");
    CALLPRE(c == &CTX, "mac_block: the caller's context");
    __CPROVER_assert(LE64B(buffer) == LAST, "post: MAC: each block is chained onto the previous state, starting from the IV");
    if (N == J) J_OK = LE64B(block) == WANT_J;
    u64v r = nd_u64(); LAST = r; N++;
    for (int i = 0; i < 8; i++) buffer[i] = r >> (8 * i);
}
static byte *G_OUT;
void get_mac__contract(byte *buffer, int nbits, byte *out)
{
    CALLPRE(__CPROVER_r_ok(buffer, 8) && out == G_OUT, "get_mac: 8-byte state, the caller's buffer");
    USED_MAC = LE64B(buffer) == LAST; MAC_BITS = nbits;
}

void h_mac_block(void)
{
    __CPROVER_havoc_object(&IN_ctx); CTX = IN_ctx;
    u8 IN_blk[8], buf[8]; gost_ctx *c = &CTX;
    u64v st = LE64B(buf), b = LE64B(IN_blk) ^ st; u32 n1 = (u32)b, n2 = b >> 32, t;
    unsigned ti = nd_uint(), ki = nd_uint(); REQUIRES(ti < 256 && ki < 8);
    mac_block(c, buf, IN_blk);
    for (int r = 0; r < 16; r++) { t = n2 ^ tab_f(&IN_ctx, n1 + EKEY(&IN_ctx, r & 7)); n2 = n1; n1 = t; }
    ENSURES(LE64B(buf) == ((u64v)n1 | (u64v)n2 << 32), "MAC step: 16 rounds over state xor block");
    FRAME(c->key[ki] == IN_ctx.key[ki] && c->mask[ki] == IN_ctx.mask[ki] && c->k87[ti] == IN_ctx.k87[ti] && c->k65[ti] == IN_ctx.k65[ti] && c->k43[ti] == IN_ctx.k43[ti] && c->k21[ti] == IN_ctx.k21[ti], "MAC step leaves the context alone");
    FRAME((LE64B(IN_blk) ^ st) == b, "MAC step leaves the block alone");
    REACH("mac_block");
}
void h_get_mac(void)
{
    u8 IN_state[8], out[8], o0[8]; int IN_bits = nd_int(); unsigned i = nd_uint();
    REQUIRES(0 <= IN_bits && IN_bits <= 64 && i < 64);
    for (int t = 0; t < 8; t++) o0[t] = out[t];
    get_mac(IN_state, IN_bits, out);
    ENSURES(IMP(i < (unsigned)IN_bits, (out[i / 8] >> (i % 8) & 1) == (IN_state[i / 8] >> (i % 8) & 1)), "MAC truncation keeps the requested low bits");
    ENSURES(IMP(i >= (unsigned)IN_bits && i / 8 < (unsigned)(IN_bits + 7) / 8, (out[i / 8] >> (i % 8) & 1) == 0), "MAC truncation clears the unused bits of the last byte");
    FRAME(IMP(i < 8 && i >= (unsigned)(IN_bits + 7) / 8, out[i] == o0[i]), "MAC truncation writes only the bytes of the MAC");
    REACH("get_mac");
}
static void mac(int with_iv)
{
    unsigned n = nd_uint(); u8 *data; u8 out[8], iv[8]; int IN_bits = nd_int();
    __CPROVER_havoc_object(&IN_ctx); CTX = IN_ctx;
    REQUIRES(0 <= IN_bits && IN_bits <= 64);
    REQUIRES(n <= 0xfffffff0u);
#ifdef BOUND
    REQUIRES(n <= BOUND);
#endif
    data = malloc(n); G_OUT = out; N = 0; J = nd_u64(); J_OK = 0; USED_MAC = 0; WANT_J = 0;
    u64v blocks = (n + 7) / 8; if (blocks == 1) blocks = 2;
    REQUIRES(J < (blocks ? blocks : 1));
    LAST = with_iv ? LE64B(iv) : 0;
    for (int t = 0; t < 8; t++) if (8 * J + t < n) WANT_J |= (u64v)data[8 * J + t] << (8 * t);
    int r = with_iv ? gost_mac_iv(&CTX, IN_bits, iv, data, n, out) : gost_mac(&CTX, IN_bits, data, n, out);
    ENSURES(r == 1, "MAC computation reports success");
    ENSURES(N == blocks, "MAC: every block is processed once, and a one-block message is extended by a zero block");
    ENSURES(IMP(blocks > 0, J_OK), "MAC: block j is bytes 8j..8j+7 of the message, zero padded");
    ENSURES(USED_MAC && MAC_BITS == IN_bits, "MAC: the result is the final state truncated to the requested length");
    REACH("mac");
}
void h_mac(void) { mac(0); }
void h_mac_iv(void) { mac(1); }

/* ---- key meshing, against the contracts of the block functions ---- */
static u64v X0, Y0, X1, Y1;          /* one point of decryption (old key) / encryption (old or new key) */
static u32 NEWEK[8]; static _Bool KEYED; static u8 G_NEWKEY[32];
void gost_dec__contract(gost_ctx *c, const byte *in, byte *out, int blocks)
{
    CALLPRE(c == &CTX && keys_same(c) && !KEYED && blocks == 4 && __CPROVER_r_ok(in, 32) && __CPROVER_w_ok(out, 32), "gost_dec: old key, four blocks");
    for (int b = 0; b < 4; b++) { u64v r = nd_u64(); CALLPOST(IMP(LE64B(in + 8 * b) == X0, r == Y0)); for (int i = 0; i < 8; i++) out[8 * b + i] = r >> (8 * i); }
}
void gost_key__contract(gost_ctx *c, const byte *k)
{
    CALLPRE(c == &CTX && __CPROVER_r_ok(k, 32) && !KEYED, "gost_key: the context is re-keyed once");
    for (int i = 0; i < 8; i++) { c->mask[i] = nd_uint(); c->key[i] = LE32B(k + 4 * i) - c->mask[i]; NEWEK[i] = LE32B(k + 4 * i); }
    for (int i = 0; i < 32; i++) G_NEWKEY[i] = k[i];
    KEYED = 1;
}
void gostcrypt__contract(gost_ctx *c, const byte *in, byte *out)
{
    CALLPRE(c == &CTX && __CPROVER_r_ok(in, 8) && __CPROVER_w_ok(out, 8), "gostcrypt: context and 8-byte blocks");
    u64v r = nd_u64();
    if (KEYED) CALLPOST(IMP(LE64B(in) == X1, r == Y1)); else CALLPOST(IMP(LE64B(in) == X0, r == Y0));
    for (int i = 0; i < 8; i++) out[i] = r >> (8 * i);
}
static const u8 CP_KEY[32] = {0x69,0x00,0x72,0x22,0x64,0xC9,0x04,0x23,0x8D,0x3A,0xDB,0x96,0x46,0xE9,0x2A,0xC4,0x18,0xFE,0xAC,0x94,0x00,0xED,0x07,0x12,0xC0,0x86,0xDC,0xC2,0xEF,0x4C,0xA9,0x2B};
static void mesh_init(void)
{
    __CPROVER_havoc_object(&IN_ctx); CTX = IN_ctx; KEYED = 0; X0 = nd_u64(); Y0 = nd_u64(); X1 = nd_u64(); Y1 = nd_u64();
    for (int i = 0; i < 8; i++) EK0[i] = EKEY(&CTX, i);
}
void h_cryptopro(void)
{
    mesh_init();
    u8 iv[8]; u64v iv0 = LE64B(iv); _Bool with = nd_bool(); unsigned b = nd_uint(), i = nd_uint(); REQUIRES(b < 4 && i < 8);
    REQUIRES(X0 == LE64B(CP_KEY + 8 * b) && X1 == iv0);
    cryptopro_key_meshing(&CTX, with ? iv : NULL);
    ENSURES(KEYED && LE64B(G_NEWKEY + 8 * b) == Y0, "key meshing: the new key is the meshing constant decrypted with the old key");
    ENSURES(EKEY(&CTX, i) == LE32B(G_NEWKEY + 4 * i), "key meshing: the context ends up with the new key");
    ENSURES(with ? LE64B(iv) == Y1 : LE64B(iv) == iv0, "key meshing: the IV is encrypted with the new key");
    REACH("cryptopro");
}
void h_acpkm(void)
{
    mesh_init();
    unsigned b = nd_uint(), i = nd_uint(); REQUIRES(b < 4 && i < 8);
    /* D = 0x80..0x9f; Magma byte order is big endian, this cipher's little endian */
    u64v d = 0; for (int t = 0; t < 8; t++) d |= (u64v)(0x80 + 8 * b + 7 - t) << (8 * t);
    REQUIRES(X0 == d);
    acpkm_magma_key_meshing(&CTX);
    ENSURES(KEYED && LE32B(G_NEWKEY + 8 * b + 4) == (u32)Y0 && LE32B(G_NEWKEY + 8 * b) == (u32)(Y0 >> 32), "ACPKM: the new key is the constant D encrypted with the old key, halves in Magma order");
    ENSURES(EKEY(&CTX, i) == LE32B(G_NEWKEY + 4 * i), "ACPKM: the context ends up with the new key");
    REACH("acpkm");
}
