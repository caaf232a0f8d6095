/* C01: GOST 28147 block transform.  Contracts on the functions of
 * dstulib/gost/gost89.c, which is included verbatim below. */
#include "common.h"
#include "gost_spec.h"
#include "gost/gost89.h"

/* ---- abstraction of a context: effective subkeys and substitution tables ---- */
#define EKEY(c, i) ((u32)((c)->key[i] + (c)->mask[i]))
static u32 tab_f(const gost_ctx *c, u32 x)
{ return spec_rotl11(c->k87[x >> 24] | c->k65[x >> 16 & 255] | c->k43[x >> 8 & 255] | c->k21[x & 255]); }

/* the 32-round transform over a context; dir 0 = encrypt, 1 = decrypt */
static u64v ctx_block(const gost_ctx *c, u64v blk, int dec)
{
    u32 n1 = (u32)blk, n2 = (u32)(blk >> 32), t;
    for (int r = 0; r < 32; r++) {
        t = n2 ^ tab_f(c, n1 + EKEY(c, spec_enc_key(dec ? 31 - r : r)));
        n2 = n1; n1 = t;
    }
    return (u64v)n2 | (u64v)n1 << 32;
}
static const u8 *row(const gost_subst_block *b, int i)
{ return i == 0 ? b->k1 : i == 1 ? b->k2 : i == 2 ? b->k3 : i == 3 ? b->k4 : i == 4 ? b->k5 : i == 5 ? b->k6 : i == 6 ? b->k7 : b->k8; }

/* ghost oracle: one arbitrary point of the block function under one arbitrary effective key */
static u64v X0, Y0;
/* ghost block index and its input */
static unsigned K; static u64v G_IN;

#ifdef UNIT_ENC
#undef DSTU_LOOP_HEAD_gost_enc
#define DSTU_LOOP_HEAD_gost_enc CUT( \
  0 <= i && i < blocks && clear == P_in + 8 * (size_t)i && cipher == P_out + 8 * (size_t)i && \
  IMP(K < i && G_IN == X0, LE64B(P_out + 8 * (size_t)K) == Y0) && IMP(K >= i, LE64B(P_in + 8 * (size_t)K) == G_IN) && keys_same(c), \
  i = nd_int(); __CPROVER_assume(0 <= i && i < blocks); clear = P_in + 8 * (size_t)i; cipher = P_out + 8 * (size_t)i; \
  __CPROVER_havoc_object(P_out))
#undef DSTU_LOOP_HEAD_gost_dec
#define DSTU_LOOP_HEAD_gost_dec CUT( \
  0 <= i && i < blocks && cipher == P_in + 8 * (size_t)i && clear == P_out + 8 * (size_t)i && \
  IMP(K < i && G_IN == X0, LE64B(P_out + 8 * (size_t)K) == Y0) && IMP(K >= i, LE64B(P_in + 8 * (size_t)K) == G_IN) && keys_same(c), \
  i = nd_int(); __CPROVER_assume(0 <= i && i < blocks); cipher = P_in + 8 * (size_t)i; clear = P_out + 8 * (size_t)i; \
  __CPROVER_havoc_object(P_out))
#endif
static u8 *P_in, *P_out;
static u32 EK0[8];
static _Bool keys_same(const gost_ctx *c)
{ return EKEY(c,0)==EK0[0] && EKEY(c,1)==EK0[1] && EKEY(c,2)==EK0[2] && EKEY(c,3)==EK0[3] && EKEY(c,4)==EK0[4] && EKEY(c,5)==EK0[5] && EKEY(c,6)==EK0[6] && EKEY(c,7)==EK0[7]; }

/* ---- environment ---- */
int RAND_priv_bytes(unsigned char *buf, int num)
{ /* may fail, and may leave anything in the buffer */ __CPROVER_havoc_slice(buf, num); return nd_int(); }
void OPENSSL_cleanse(void *p, size_t n) { memset(p, 0, n); }

#include "gost/gost89.c"

/* ================= contracts as stubs for callers ================= */
/* gostcrypt / gostdecrypt: out = F(effective key, tables, in); only out changes */
void gostcrypt__contract(gost_ctx *c, const byte *in, byte *out)
{
    CALLPRE(__CPROVER_r_ok(c, sizeof *c) && __CPROVER_r_ok(in, 8) && __CPROVER_w_ok(out, 8), "gostcrypt: context and 8-byte blocks");
    u64v r = nd_u64();
    CALLPOST(IMP(keys_same(c) && LE64B(in) == X0, r == Y0));
    for (int i = 0; i < 8; i++) out[i] = r >> (8 * i);
}
void gost_key_nomask__contract(gost_ctx *c, const byte *k)
{
    CALLPRE(__CPROVER_rw_ok(c, sizeof *c) && __CPROVER_r_ok(k, 32), "gost_key_nomask: context and 32-byte key");
    for (int i = 0; i < 8; i++) { c->mask[i] = nd_uint(); c->key[i] = LE32B(k + 4 * i) - c->mask[i]; }
}

/* ================= enforcement harnesses ================= */
static gost_ctx CTX;
gost_ctx IN_ctx;
static void arbitrary(void)   /* nothing is known about any of these */
{
    __CPROVER_havoc_object(&CTX); __CPROVER_havoc_object(&IN_ctx);
    X0 = nd_u64(); Y0 = nd_u64(); G_IN = nd_u64(); K = nd_uint();
    for (int i = 0; i < 8; i++) EK0[i] = nd_uint();
}

void h_kboxinit(void)
{
    arbitrary();
    gost_subst_block IN_sbox; gost_ctx *c = &CTX; unsigned i = nd_uint();
    REQUIRES(i < 256);
    u32 k0 = nd_uint(), m0 = nd_uint(); unsigned j = nd_uint(); REQUIRES(j < 8);
    c->key[j] = k0; c->mask[j] = m0;
    kboxinit(c, &IN_sbox);
#define T(hi, lo, sh) ((u32)((u8)(IN_sbox.hi[i >> 4] << 4 | IN_sbox.lo[i & 15])) << sh)
    /* S-box entries are nibbles */
    REQUIRES(IN_sbox.k8[i >> 4] < 16 && IN_sbox.k7[i & 15] < 16 && IN_sbox.k6[i >> 4] < 16 && IN_sbox.k5[i & 15] < 16);
    REQUIRES(IN_sbox.k4[i >> 4] < 16 && IN_sbox.k3[i & 15] < 16 && IN_sbox.k2[i >> 4] < 16 && IN_sbox.k1[i & 15] < 16);
    ENSURES(c->k87[i] == T(k8, k7, 24), "kboxinit: rows 8 and 7 expanded into the table");
    ENSURES(c->k65[i] == T(k6, k5, 16), "kboxinit: rows 6 and 5 expanded into the table");
    ENSURES(c->k43[i] == T(k4, k3, 8), "kboxinit: rows 4 and 3 expanded into the table");
    ENSURES(c->k21[i] == T(k2, k1, 0), "kboxinit: rows 2 and 1 expanded into the table");
    FRAME(c->key[j] == k0 && c->mask[j] == m0, "kboxinit leaves the key alone");
    REACH("kboxinit");
}

/* lemma: kboxinit's postcondition makes the table lookup the S-box substitution */
void h_lemma_tables(void)
{
    arbitrary();
    gost_subst_block b; gost_ctx *c = &CTX; u32 x = nd_uint(); spec_sbox s;
    for (int r = 0; r < 8; r++) for (int i = 0; i < 16; i++) { s.row[r][i] = row(&b, r)[i]; REQUIRES(row(&b, r)[i] < 16); }
    unsigned i3 = x >> 24, i2 = x >> 16 & 255, i1 = x >> 8 & 255, i0 = x & 255;
    REQUIRES(c->k87[i3] == (u32)(b.k8[i3 >> 4] << 4 | b.k7[i3 & 15]) << 24);
    REQUIRES(c->k65[i2] == (u32)(b.k6[i2 >> 4] << 4 | b.k5[i2 & 15]) << 16);
    REQUIRES(c->k43[i1] == (u32)(b.k4[i1 >> 4] << 4 | b.k3[i1 & 15]) << 8);
    REQUIRES(c->k21[i0] == (u32)(b.k2[i0 >> 4] << 4 | b.k1[i0 & 15]));
    ENSURES(tab_f(c, x) == spec_f(&s, x), "lemma: table lookup equals the eight 4-bit substitutions and the 11-bit rotation");
    REACH("lemma tables");
}

static void block_harness(int dec)
{
    arbitrary();
    u8 IN_blk[8], buf[8]; gost_ctx *c = &CTX;
    *c = IN_ctx;
    u64v in = LE64B(IN_blk);
    u8 *src = IN_blk, *dst = buf;
    if (nd_bool()) { for (int i = 0; i < 8; i++) buf[i] = IN_blk[i]; src = buf; }   /* in place */
    unsigned ti = nd_uint(), ki = nd_uint(); REQUIRES(ti < 256 && ki < 8);
    if (dec) gostdecrypt(c, src, dst); else gostcrypt(c, src, dst);
    ENSURES(LE64B(buf) == ctx_block(&IN_ctx, in, dec), "block transform: 32 rounds in the standard's key order");
    FRAME(c->key[ki] == IN_ctx.key[ki] && c->mask[ki] == IN_ctx.mask[ki] && c->k87[ti] == IN_ctx.k87[ti] && c->k65[ti] == IN_ctx.k65[ti] && c->k43[ti] == IN_ctx.k43[ti] && c->k21[ti] == IN_ctx.k21[ti], "block transform leaves the context alone");
    FRAME(LE64B(IN_blk) == in, "block transform leaves its input alone");
    REACH("block");
}
void h_gostcrypt(void) { block_harness(0); }
void h_gostdecrypt(void) { block_harness(1); }

void h_lemma_inverse(void)
{
    arbitrary();
    u64v x = nd_u64();
    ENSURES(ctx_block(&IN_ctx, ctx_block(&IN_ctx, x, 0), 1) == x, "lemma: decryption inverts encryption");
    ENSURES(ctx_block(&IN_ctx, ctx_block(&IN_ctx, x, 1), 0) == x, "lemma: encryption inverts decryption");
    REACH("lemma inverse");
}

void h_keys(void)
{
    arbitrary();
    gost_ctx *c = &CTX; u8 IN_key[32], out[32]; unsigned i = nd_uint(), b = nd_uint(), t = nd_uint(), IN_which = nd_uint(), g = nd_uint();
    REQUIRES(i < 8 && b < 32 && t < 256);
    *c = IN_ctx;
    if (IN_which == 0) gost_key(c, IN_key);
    else if (IN_which == 1) gost_key_nomask(c, IN_key);
    else { REQUIRES(IN_which == 2); magma_key(c, IN_key); }
    u32 want = IN_which == 2 ? ((u32)IN_key[4*i] << 24 | (u32)IN_key[4*i+1] << 16 | (u32)IN_key[4*i+2] << 8 | IN_key[4*i+3]) : LE32B(IN_key + 4 * i);
    ENSURES(EKEY(c, i) == want, "key setup: effective subkey i is word i of the key, whatever the mask");
    if (IN_which == 2) magma_get_key(c, out); else gost_get_key(c, out);
    ENSURES(out[b] == IN_key[b], "key retrieval returns the key that was set");
    ENSURES(EKEY(c, i) == want, "key retrieval leaves the key alone");
    FRAME(c->k87[t] == IN_ctx.k87[t] && c->k65[t] == IN_ctx.k65[t] && c->k43[t] == IN_ctx.k43[t] && c->k21[t] == IN_ctx.k21[t], "key setup leaves the S-boxes alone");
    REACH("keys");
}

void h_init_destroy(void)
{
    arbitrary();
    gost_ctx *c = &CTX; unsigned i = nd_uint(), k = nd_uint(); REQUIRES(i < 256 && k < 8);
    *c = IN_ctx;
    gost_init(c, NULL);
    gost_ctx d; kboxinit(&d, &GostR3411_94_TestParamSet);
    ENSURES(c->k87[i] == d.k87[i] && c->k65[i] == d.k65[i] && c->k43[i] == d.k43[i] && c->k21[i] == d.k21[i], "gost_init without S-boxes uses the documented default set");
    gost_subst_block b;
    gost_init(c, &b); kboxinit(&d, &b);
    ENSURES(c->k87[i] == d.k87[i] && c->k65[i] == d.k65[i] && c->k43[i] == d.k43[i] && c->k21[i] == d.k21[i], "gost_init installs the given S-boxes");
    FRAME(c->key[k] == IN_ctx.key[k] && c->mask[k] == IN_ctx.mask[k], "gost_init leaves the key alone");
    gost_destroy(c);
    ENSURES(c->key[k] == 0 && c->mask[k] == 0, "gost_destroy erases the key and its mask");
    REACH("init destroy");
}

/* gost_enc_with_key checked against the contracts of gost_key_nomask and gostcrypt */
void h_enc_with_key(void)
{
    arbitrary();
    gost_ctx *c = &CTX; u8 IN_key[32], IN_blk[8], out[8]; unsigned t = nd_uint(); REQUIRES(t < 256);
    *c = IN_ctx;
    for (int i = 0; i < 8; i++) EK0[i] = LE32B(IN_key + 4 * i);
    REQUIRES(LE64B(IN_blk) == X0);
    gost_enc_with_key(c, IN_key, IN_blk, out);
    ENSURES(LE64B(out) == Y0, "gost_enc_with_key: output is the block encrypted under the given key");
    FRAME(c->k87[t] == IN_ctx.k87[t] && c->k65[t] == IN_ctx.k65[t] && c->k43[t] == IN_ctx.k43[t] && c->k21[t] == IN_ctx.k21[t], "gost_enc_with_key leaves the S-boxes alone");
    REACH("enc with key");
}

/* ECB over any number of blocks, checked against the block contract */
static void ecb_harness(int dec)
{
    arbitrary();
    gost_ctx *c = &CTX; int n = nd_int();
    *c = IN_ctx;
    REQUIRES(n > 0 && K < (unsigned)n);
#ifdef BOUND
    REQUIRES(n <= BOUND);
#endif
    for (int i = 0; i < 8; i++) EK0[i] = EKEY(c, i);
    P_in = malloc(8 * (size_t)n);
#ifdef INPLACE
    P_out = P_in;
#else
    P_out = malloc(8 * (size_t)n);
#endif
    size_t b = nd_size(); REQUIRES(b < 8 * (size_t)n); u8 in_b = P_in[b];
    G_IN = LE64B(P_in + 8 * (size_t)K);
    unsigned t = nd_uint(); REQUIRES(t < 256);
    if (dec) gost_dec(c, P_in, P_out, n); else gost_enc(c, P_in, P_out, n);
    ENSURES(IMP(G_IN == X0, LE64B(P_out + 8 * (size_t)K) == Y0), "ECB: block k of the output is the transform of block k of the input");
#ifndef INPLACE
    FRAME(P_in[b] == in_b, "ECB leaves its input alone");
#endif
    FRAME(keys_same(c) && c->k87[t] == IN_ctx.k87[t] && c->k65[t] == IN_ctx.k65[t] && c->k43[t] == IN_ctx.k43[t] && c->k21[t] == IN_ctx.k21[t], "ECB leaves the context alone");
    REACH("ecb");
}
void h_enc(void) { ecb_harness(0); }
void h_dec(void) { ecb_harness(1); }
void h_ecb_zero(void)
{
    arbitrary();
    gost_ctx *c = &CTX; u8 in[1], out[1]; u8 o = out[0]; int n = nd_int(); REQUIRES(n <= 0);
    if (nd_bool()) gost_enc(c, in, out, n); else gost_dec(c, in, out, n);
    ENSURES(out[0] == o, "ECB over no blocks writes nothing");
    REACH("ecb zero");
}
