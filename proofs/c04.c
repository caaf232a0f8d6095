/* C04: setting up the cipher (engine/cipher.c): init, custom S-box, ASN.1 parameters, method table. */
#include "common.h"
/* CBMC loses pointers in unions: ASN1_TYPE's union becomes a struct for the proof (reading another member is then still an error) */
#include <time.h>
#include <openssl/e_os2.h>
#include <openssl/opensslconf.h>
#include <openssl/bio.h>
#include <openssl/safestack.h>
#include <openssl/asn1err.h>
#include <openssl/symhacks.h>
#include <openssl/types.h>
#include <openssl/bn.h>
#define union struct
#include <openssl/asn1.h>
#undef union
#include "gost/gost89.h"
#include "evp_cipher_model.h"
#include <openssl/asn1.h>
unsigned char default_sbox[64];
/* ghost state: the S-box (packed) and key in force, and a number for every change of them */
static u8 G_SBOX[64], G_KEY[32], G_UNP[64]; static const void *G_UNP_AT; static int EPOCH; static void *OWN;
u64v __CPROVER_uninterpreted_E(int, u64v);
static u64v ld(const u8 *p) { return LE64B(p); }
/* contracts proved in C05 (S-box representations) and C01 (key schedule, block encryption) */
void unpack_sbox(unsigned char *p, gost_subst_block *u) { CALLPRE(__CPROVER_r_ok(p, 64) && __CPROVER_w_ok(u, sizeof *u), "unpack_sbox: 64 packed bytes"); memcpy(G_UNP, p, 64); G_UNP_AT = u; }
void pack_sbox(gost_subst_block *u, unsigned char *p) { CALLPRE(u == G_UNP_AT && __CPROVER_w_ok(p, 64), "pack_sbox: an S-box that was filled, 64 bytes of room"); memcpy(p, G_UNP, 64); }
void dstu_get_sbox(gost_ctx *c, gost_subst_block *s) { CALLPRE(c == OWN && __CPROVER_w_ok(s, sizeof *s), "dstu_get_sbox: the cipher's own context"); memcpy(G_UNP, G_SBOX, 64); G_UNP_AT = s; }
void gost_init(gost_ctx *c, const gost_subst_block *b) { CALLPRE(c == OWN && b == G_UNP_AT, "gost_init: the cipher's own context, an S-box that was filled"); memcpy(G_SBOX, G_UNP, 64); EPOCH++; }
void gost_key(gost_ctx *c, const byte *k) { CALLPRE(c == OWN && __CPROVER_r_ok(k, 32), "gost_key: the cipher's own context, 32 key bytes"); memcpy(G_KEY, k, 32); EPOCH++; }
void gostcrypt(gost_ctx *c, const byte *in, byte *out) { CALLPRE(c == OWN && __CPROVER_r_ok(in, 8) && __CPROVER_w_ok(out, 8), "gostcrypt: the cipher's own context, 8-byte blocks"); u64v r = __CPROVER_uninterpreted_E(EPOCH, ld(in)); for (int i = 0; i < 8; i++) out[i] = r >> (8 * i); }
void gost_enc_cfb(gost_ctx *c, const byte *iv, const byte *clear, byte *cipher, int blocks) { CALLPRE(0, "no data is processed while setting up"); }
void gost_dec_cfb(gost_ctx *c, const byte *iv, const byte *cipher, byte *clear, int blocks) { CALLPRE(0, "no data is processed while setting up"); }
static int NSET1, S1_TYPE, S1_LEN, S1_OK; static u8 S1[200]; static ASN1_TYPE *S1_AT;
int ASN1_TYPE_set1(ASN1_TYPE *a, int type, const void *v) { const ASN1_STRING *s = v; CALLPRE(a && s && s->length >= 0 && s->length <= 200 && __CPROVER_r_ok(s->data, s->length), "ASN1_TYPE_set1: string data"); S1_OK = nd_bool(); if (!S1_OK) return 0; NSET1++; S1_AT = a; S1_TYPE = type; S1_LEN = s->length; for (int i = 0; i < 200; i++) if (i < s->length) S1[i] = s->data[i]; return 1; }
struct evp_cipher_st { int nid, bs, kl, ivl, ctxsz; unsigned long flags; void *init, *doc, *clean, *set, *get, *ctrl; };
static int FAILM, LIVEM; static struct evp_cipher_st M;
EVP_CIPHER *EVP_CIPHER_meth_new(int nid, int bs, int kl) { if (nd_bool()) { FAILM = 1; return NULL; } LIVEM++; memset(&M, 0, sizeof M); M.nid = nid; M.bs = bs; M.kl = kl; return &M; }
void EVP_CIPHER_meth_free(EVP_CIPHER *c) { if (c) LIVEM--; }
#define MS(x) CALLPRE(c == &M, "method setter: the method"); if (nd_bool()) { FAILM = 1; return 0; } x; return 1
int EVP_CIPHER_meth_set_iv_length(EVP_CIPHER *c, int n) { MS(c->ivl = n); }
int EVP_CIPHER_meth_set_flags(EVP_CIPHER *c, unsigned long f) { MS(c->flags = f); }
int EVP_CIPHER_meth_set_impl_ctx_size(EVP_CIPHER *c, int n) { MS(c->ctxsz = n); }
int EVP_CIPHER_meth_set_init(EVP_CIPHER *c, int (*f)(EVP_CIPHER_CTX *, const unsigned char *, const unsigned char *, int)) { MS(c->init = f); }
int EVP_CIPHER_meth_set_do_cipher(EVP_CIPHER *c, int (*f)(EVP_CIPHER_CTX *, unsigned char *, const unsigned char *, size_t)) { MS(c->doc = f); }
int EVP_CIPHER_meth_set_cleanup(EVP_CIPHER *c, int (*f)(EVP_CIPHER_CTX *)) { MS(c->clean = f); }
int EVP_CIPHER_meth_set_set_asn1_params(EVP_CIPHER *c, int (*f)(EVP_CIPHER_CTX *, ASN1_TYPE *)) { MS(c->set = f); }
int EVP_CIPHER_meth_set_get_asn1_params(EVP_CIPHER *c, int (*f)(EVP_CIPHER_CTX *, ASN1_TYPE *)) { MS(c->get = f); }
int EVP_CIPHER_meth_set_ctrl(EVP_CIPHER *c, int (*f)(EVP_CIPHER_CTX *, int, int, void *)) { MS(c->ctrl = f); }
#include "cipher.c"
static EVP_CIPHER_CTX E; static dstu_cipher_data D; static int K, T; static u8 OIV[8], IV[8], BUF[8], SB0[64], KEY0[32]; static int NUM0;
static void mk(int fresh)
{
    __CPROVER_havoc_object(&E); E.cipher_data = &D; OWN = &D; REQUIRES(0 <= E.num && E.num < 8); D.sbox_set = !fresh; EPOCH = nd_int(); REQUIRES(0 <= EPOCH && EPOCH < 1000); __CPROVER_havoc_object(G_SBOX); __CPROVER_havoc_object(G_KEY); __CPROVER_havoc_object(default_sbox);
    K = nd_int(); T = nd_int(); REQUIRES(0 <= K && K < 64 && 0 <= T && T < 32); memcpy(OIV, E.oiv, 8); memcpy(IV, E.iv, 8); memcpy(BUF, E.buf, 8); memcpy(SB0, G_SBOX, 64); memcpy(KEY0, G_KEY, 32); NUM0 = E.num; NSET1 = 0;
}
#define SAMESTREAM (ld(E.iv) == ld(IV) && ld(E.buf) == ld(BUF) && E.num == NUM0)
#define RESTARTED (ld(E.iv) == ld(E.oiv) && E.num == 0 && ld(E.buf) == __CPROVER_uninterpreted_E(EPOCH, ld(E.iv)))
u8 IN_key[32], IN_iv[8], IN_sbox[64];
void h_init(void)
{
    _Bool fresh = nd_bool(); mk(fresh); __CPROVER_havoc_object(IN_key); __CPROVER_havoc_object(IN_iv); u8 *key = nd_bool() ? IN_key : NULL, *iv = nd_bool() ? IN_iv : NULL; int e0 = E.encrypt, ep = EPOCH;
    int r = dstu_cipher_init(&E, key, iv, nd_int());
    ENSURES(r == 1, "setting up the cipher succeeds"); ENSURES(G_SBOX[K] == (fresh ? default_sbox[K] : SB0[K]), "a new cipher has the default S-box, an S-box once set stays"); ENSURES(G_KEY[T] == (key ? IN_key[T] : KEY0[T]), "the key is the one given, or the one before"); ENSURES(ld(E.oiv) == (iv ? ld(IN_iv) : ld(OIV)), "the IV is the one given, or the one before");
    ENSURES(IMP(key || iv, RESTARTED), "a new key or IV starts the stream at its beginning under key, S-box and IV"); ENSURES(IMP(!key && !iv, SAMESTREAM && IMP(!fresh, EPOCH == ep)), "setting neither key nor IV leaves the stream alone"); FRAME(E.encrypt == e0 && E.cipher_data == &D, "the direction stays"); REACH("init");
}
void h_ctrl(void)
{
    mk(0); __CPROVER_havoc_object(IN_sbox); int cmd = nd_int(), p1 = nd_int(); static int NID; NID = -7; _Bool has = nd_bool(); void *p2 = !has ? NULL : cmd == EVP_CTRL_PBE_PRF_NID ? (void *)&NID : (void *)IN_sbox; int ep = EPOCH;
    int r = dstu_cipher_ctrl(&E, cmd, p1, p2); _Bool sb = cmd == DSTU_SET_CUSTOM_SBOX && has && p1 == 64;
    ENSURES(r == (sb || (cmd == EVP_CTRL_PBE_PRF_NID && has)), "exactly a 64-byte S-box and the query of the PBE function are accepted"); ENSURES(IMP(sb, G_SBOX[K] == IN_sbox[K] && RESTARTED), "a custom S-box starts the stream at its beginning under key, that S-box and IV"); ENSURES(IMP(!sb, G_SBOX[K] == SB0[K] && SAMESTREAM && EPOCH == ep), "other requests leave the cipher alone"); ENSURES(IMP(cmd == EVP_CTRL_PBE_PRF_NID && has, NID == NID_hmacWithDstu34311), "the PBE function is HMAC with the standard's hash");
    FRAME(G_KEY[T] == KEY0[T] && ld(E.oiv) == ld(OIV), "key and IV stay"); ENSURES(D.sbox_set, "the S-box counts as set"); REACH("ctrl"); if (sb) REACH("custom S-box");
}
static const u8 HD[4] = {0x30, 76, 4, 8};
void h_set(void)
{
    mk(0); static ASN1_TYPE A; int i = nd_int(); REQUIRES(0 <= i && i < 78); int r = dstu_cipher_set_asn1_parameters(&E, &A);
    ENSURES((r > 0) == S1_OK && NSET1 == S1_OK, "parameters are delivered unless memory runs out"); if (r > 0) { ENSURES(S1_AT == &A && S1_TYPE == V_ASN1_SEQUENCE && S1_LEN == 78, "the parameters are a sequence of 78 bytes"); ENSURES(S1[i] == (i < 4 ? HD[i] : i < 12 ? OIV[i - 4] : i == 12 ? 4 : i == 13 ? 64 : SB0[i - 14]), "the parameters are the IV the stream started from and the S-box in force"); REACH("parameters"); }
    FRAME(G_SBOX[K] == SB0[K] && G_KEY[T] == KEY0[T] && ld(E.oiv) == ld(OIV) && SAMESTREAM, "the cipher is left alone"); REACH("set");
}
void h_get(void)
{
    mk(0); static ASN1_TYPE A; static ASN1_STRING S; A.type = nd_int(); A.value.sequence = &S; S.length = nd_int(); REQUIRES(S.length >= 0 && S.length < 300); u8 *d = malloc(S.length + 1); REQUIRES(d != NULL); S.data = d; int ep = EPOCH; _Bool len = S.length == 78, ok = 0; u8 ivb[8], sk = 0; if (A.type != V_ASN1_SEQUENCE) A.value.sequence = NULL;
    if (len) { ok = A.type == V_ASN1_SEQUENCE && d[2] == 4 && d[3] == 8 && d[12] == 4 && d[13] == 64; memcpy(ivb, d + 4, 8); sk = d[14 + K]; }
    int r = dstu_cipher_get_asn1_parameters(&E, &A);
    ENSURES((r > 0) == ok && IMP(!ok, r < 0), "exactly parameters with an 8-byte IV and a 64-byte S-box are accepted"); ENSURES(IMP(ok, ld(E.oiv) == ld(ivb) && G_SBOX[K] == sk && RESTARTED), "accepted parameters start the stream under their IV and S-box and the key"); ENSURES(IMP(!ok, ld(E.oiv) == ld(OIV) && G_SBOX[K] == SB0[K] && SAMESTREAM && EPOCH == ep), "refused parameters change nothing"); FRAME(G_KEY[T] == KEY0[T] && IMP(len, d[14 + K] == sk), "key and parameters stay"); if (ok) REACH("accepted"); REACH("get");
}
void h_meth(void)
{
    FAILM = LIVEM = 0; EVP_CIPHER *c = dstu_cipher_new(); ENSURES(IMP(FAILM, !c && LIVEM == 0) && IMP(!FAILM, c && LIVEM == 1), "the method is made unless memory runs out, without leaks");
    if (c) { ENSURES(M.nid == NID_dstu28147_cfb && M.bs == 1 && M.kl == 32 && M.ivl == 8 && M.ctxsz >= (int)sizeof(gost_ctx), "a stream cipher with a 32-byte key and an 8-byte IV"); ENSURES((M.flags & EVP_CIPH_MODE) == EVP_CIPH_CFB_MODE && (M.flags & EVP_CIPH_ALWAYS_CALL_INIT) && (M.flags & EVP_CIPH_CUSTOM_IV) && (M.flags & EVP_CIPH_FLAG_CUSTOM_CIPHER), "the flags its functions rely on"); ENSURES(M.init == dstu_cipher_init && M.doc == dstu_cipher_do_cipher && M.set == dstu_cipher_set_asn1_parameters && M.get == dstu_cipher_get_asn1_parameters && M.ctrl == dstu_cipher_ctrl, "its functions are the engine's"); dstu_cipher_free(c); ENSURES(LIVEM == 0, "freeing releases it"); REACH("method"); } REACH("meth");
}
