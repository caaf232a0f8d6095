/* C02: the EVP cipher's update function, checked against the contracts of the
 * bulk CFB functions and of the block encryption.  The state invariant is in
 * terms of the absolute stream position, so it is what makes every way of
 * cutting a message into updates give the same bytes. */
#include "common.h"
#include "gost/gost89.h"
#include "cfb_contract.h"
#include "evp_cipher_model.h"
#define O8(p, n) ((p) + 8 * (size_t)(n))

/* the cipher context is opaque here: one byte, so that any direct access to it by the update function is a failed bounds obligation */
static byte OPAQUE[1];
#define GCTXP ((gost_ctx *)OPAQUE)
static size_t CUR_INL;

void gostcrypt(gost_ctx *c, const byte *in, byte *out)
{
    CALLPRE(c == GCTXP && __CPROVER_r_ok(in, 8) && __CPROVER_w_ok(out, 8), "gostcrypt: the cipher's own context, 8-byte blocks");
    u64v r = nd_u64();
    CALLPOST(IMP(LE64B(in) == X0, r == Y0));
    for (int i = 0; i < 8; i++) out[i] = r >> (8 * i);
}
static void cfb_contract(gost_ctx *c, const byte *iv, const byte *in, byte *out, int blocks, int dec)
{
    CALLPRE(blocks > 0 && c == GCTXP && __CPROVER_r_ok(iv, 8) && __CPROVER_r_ok(in, 8 * (size_t)blocks) && __CPROVER_w_ok(out, 8 * (size_t)blocks), "bulk CFB: own context, buffers of the stated length");
    CALLPRE(!__CPROVER_same_object(iv, out) || iv == out + 8 * (size_t)blocks, "bulk CFB: IV is not in the output");
    CALLPRE(!__CPROVER_same_object(in, out) || in == out, "bulk CFB: in place or disjoint");
    size_t k = K < (size_t)blocks ? K : 0;
    u64v prev = k == 0 ? LE64B(iv) : LE64B(O8(in, k - 1)), in_k = LE64B(O8(in, k));
    /* only [out, out + 8*blocks) changes: the (fewer than 8) bytes on either side of it in the caller's buffer are kept */
#ifdef FIXED_N
    for (size_t i = 0; i < 8 * (size_t)blocks; i++) out[i] = nd_u8();
#else
    size_t off = __CPROVER_POINTER_OFFSET(out), end = off + 8 * (size_t)blocks, size = __CPROVER_OBJECT_SIZE(out);
    CALLPRE(off < 8 && size - end < 8, "bulk CFB: called once, on all whole blocks of the update");
    byte *base = out - off, pre[8];
    for (int i = 0; i < 8; i++) if (i < off) pre[i] = base[i];
#ifdef INPLACE
    byte post[8];
    for (int i = 0; i < 8; i++) if (end + i < size) post[i] = base[end + i];
#endif
    __CPROVER_havoc_object(base);
    for (int i = 0; i < 8; i++) CALLPOST(IMP(i < off, base[i] == pre[i]));
#ifdef INPLACE
    for (int i = 0; i < 8; i++) CALLPOST(IMP(end + i < size, base[end + i] == post[i]));
#endif
#endif
    if (!dec) prev = k == 0 ? LE64B(iv) : LE64B(O8(out, k - 1));
    CALLPOST(CFB_BLOCK_POST(prev, in_k, LE64B(O8(out, k))));
}
void gost_enc_cfb(gost_ctx *c, const byte *iv, const byte *clear, byte *cipher, int blocks) { cfb_contract(c, iv, clear, cipher, blocks, 0); }
void gost_dec_cfb(gost_ctx *c, const byte *iv, const byte *cipher, byte *clear, int blocks) { cfb_contract(c, iv, cipher, clear, blocks, 1); }
/* not reached from the update function */
void gost_init(gost_ctx *c, const gost_subst_block *b) { CALLPRE(0, "update must not re-initialise the cipher"); }
void gost_key(gost_ctx *c, const byte *k) { CALLPRE(0, "update must not re-key the cipher"); }

#include "cipher.c"
unsigned char default_sbox[64];
void unpack_sbox(unsigned char *p, gost_subst_block *u) {}
void pack_sbox(gost_subst_block *u, unsigned char *p) {}
void dstu_get_sbox(gost_ctx *c, gost_subst_block *s) {}

static EVP_CIPHER_CTX E;
static u8 OLD_IV[8], OLD_BUF[8], OIV[8];
static u64v X_PREV;                     /* ciphertext block whose encryption is in the gamma buffer */
static u8 BYTE8(u64v v, unsigned j) { return v >> (8 * j); }

void h_update(void)
{
    size_t n = nd_size(); u8 *in, *out; int dec = nd_bool();
    __CPROVER_havoc_object(&E); 
    X0 = nd_u64(); Y0 = nd_u64(); X_PREV = nd_u64();
    E.encrypt = !dec; E.cipher_data = OPAQUE; OPAQUE[0] = nd_u8();
    /* state invariant: position within the block, and the gamma is E(previous ciphertext block) */
    REQUIRES(0 <= E.num && E.num < 8);
#ifdef NUM                                           /* case split, one proof per value; all are run */
    E.num = NUM;
#endif
#ifdef DEC
    dec = DEC; E.encrypt = !DEC;
#endif
    REQUIRES(IMP(X_PREV == X0, LE64B(E.buf) == Y0));
    REQUIRES(IMP(E.num == 0, LE64B(E.iv) == X_PREV));
    REQUIRES(n >= 1 && n <= 0x7fffffff);             /* EVP passes an int */
#ifdef FIXED_N
    n = FIXED_N;
#endif
    size_t s = (8 - E.num) % 8, k = nd_size();
    REQUIRES(k < n);
    for (int i = 0; i < 8; i++) { OLD_IV[i] = E.iv[i]; OLD_BUF[i] = E.buf[i]; OIV[i] = E.oiv[i]; }
    in = malloc(n);
#ifdef INPLACE
    out = in;
#else
    out = malloc(n);
#endif
    size_t j = (s + k) % 8, B = (s + k) / 8, total = s + n, nb = total / 8;
    size_t to_use = s ? (n < 8 - s ? n : 8 - s) : 0;
    K = k >= to_use ? (k - to_use) / 8 : 0;
#ifdef REGION                                        /* case split on where byte k falls; all cases are run */
    REQUIRES(REGION == 0 ? k < to_use : REGION == 1 ? k >= to_use && K == 0 && to_use + 8 <= n : REGION == 2 ? k >= to_use && K >= 1 && to_use + 8 * K + 8 <= n
             : k >= to_use && to_use + 8 * K + 8 > n);
#endif
    u8 in_k = in[k];
    /* ciphertext of the block before k's block, of the last whole block, and of the tail, as input bytes (for decryption) */
    u8 prev_in[8], last_in[8], tail_in[8];
#define POS(blk, t) (8 * (size_t)(blk) + (t) - s)             /* index in this update of byte t of block blk; valid when >= 0 */
#define INSIDE(blk, t) (8 * (size_t)(blk) + (t) >= s && POS(blk, t) < n)
    for (int t = 0; t < 8; t++) {
#ifndef STATE
        if (dec && B >= 1 && INSIDE(B - 1, t)) prev_in[t] = in[POS(B - 1, t)];
#else
        if (dec && nb >= 1 && INSIDE(nb - 1, t)) last_in[t] = in[POS(nb - 1, t)];
        if (dec && INSIDE(nb, t)) tail_in[t] = in[POS(nb, t)];
#endif
    }
    byte op0 = OPAQUE[0];

    int ret = dstu_cipher_do_cipher(&E, out, in, n);

    u64v prev = 0, last = 0;
#define CB(arr, blk, t) (!INSIDE(blk, t) ? OLD_IV[t] : dec ? arr[t] : out[POS(blk, t)])
#ifndef STATE
    if (B >= 1) for (int t = 0; t < 8; t++) prev |= (u64v)CB(prev_in, B - 1, t) << (8 * t);
    ENSURES(ret == (int)n, "update returns the number of bytes it produced");
    ENSURES(IMP(B == 0 && s > 0, out[k] == (in_k ^ OLD_BUF[j])), "update: a byte of the block in progress uses the pending gamma");
    ENSURES(IMP((B == 0 ? X_PREV : prev) == X0, out[k] == (in_k ^ BYTE8(Y0, j))), "update: byte k is xored with byte (pos mod 8) of E(previous ciphertext block)");
#else
    if (nb >= 1) for (int t = 0; t < 8; t++) last |= (u64v)CB(last_in, nb - 1, t) << (8 * t);
    ENSURES(E.num == (int)((8 - total % 8) % 8), "update: position in the block advances by the bytes consumed");
    ENSURES(IMP(nb == 0, LE64B(E.buf) == LE64B(OLD_BUF)), "update: gamma kept while the block is incomplete");
    ENSURES(IMP(nb >= 1 && last == X0, LE64B(E.buf) == Y0), "update: gamma is E(last complete ciphertext block)");
    ENSURES(IMP(total % 8 == 0, LE64B(E.iv) == last), "update: at a block boundary the feedback register holds the last ciphertext block");
    unsigned t = nd_uint(); REQUIRES(t < total % 8);
    ENSURES(E.iv[t] == CB(tail_in, nb, t), "update: inside a block the feedback register holds its ciphertext so far");
    ENSURES(LE64B(E.oiv) == LE64B(OIV), "update keeps the original IV");
#endif
    FRAME(OPAQUE[0] == op0, "update keeps key and S-boxes");
    REACH("update");
}
