/* C10: the EVP sign and verify methods around dstu_do_sign / dstu_do_verify. */
#define BN_ABSTRACT
#include "common.h"
#include "ossl_evp.h"
static int J;                       /* an arbitrary byte position */
static int FS;
/* i2d/d2i of an octet string */
static int NI2D, I2D_LEN; static u8 I2D_J; static unsigned char *I2D_AT;
int i2d_ASN1_OCTET_STRING(const ASN1_OCTET_STRING *a, unsigned char **out)
{
    CALLPRE(a->data && __CPROVER_r_ok(a->data, a->length), "i2d: string data"); NI2D++; I2D_LEN = a->length; I2D_J = a->data[J];
    int n = DERLEN(a->length);
    if (out) { CALLPRE(*out && __CPROVER_w_ok(*out, n), "i2d: room for the encoding"); I2D_AT = *out; __CPROVER_havoc_slice(*out, n); *out += n; }
    return n;
}
static int D2I_OK, D2I_N; static u8 D2I_J, D2I_R; static int ND2I; static const u8 *D2I_IN; static long D2I_INLEN; static unsigned char *D2I_P;
ASN1_OCTET_STRING *d2i_ASN1_OCTET_STRING(ASN1_OCTET_STRING **a, const unsigned char **in, long len)
{
    CALLPRE(__CPROVER_r_ok(*in, len), "d2i: readable input"); ND2I++; D2I_IN = *in; D2I_INLEN = len;
    LIBFAIL(NULL);
    D2I_OK = nd_bool(); if (!D2I_OK) return NULL;
    ASN1_STRING *s = a && *a ? *a : NULL; if (!s) { LIVE++; s = malloc(sizeof *s); __CPROVER_assume(s != NULL); s->type = V_ASN1_OCTET_STRING; s->flags = 0; }
    D2I_N = nd_int(); __CPROVER_assume(0 <= D2I_N && D2I_N <= len - 2); s->length = D2I_N; LIVE++; s->data = malloc(D2I_N); __CPROVER_assume(s->data != NULL);
    D2I_P = s->data; if (J < D2I_N) { D2I_J = s->data[J]; D2I_R = s->data[D2I_N - 1 - J]; }
    *in += D2I_N + 2; if (a) *a = s; return s;
}
/* contracts proved in C08, C09, C12 */
static int NSIGN, SIGN_RET; static u8 SG_J, SG_R; static const EC_KEY *SG_K; static const u8 *SG_T; static size_t SG_TL;
int dstu_do_sign(const EC_KEY *k, const unsigned char *tbs, size_t tl, unsigned char *sig)
{ CALLPRE(__CPROVER_w_ok(sig, 2 * FS), "dstu_do_sign: room for both halves"); NSIGN++; SG_K = k; SG_T = tbs; SG_TL = tl; __CPROVER_havoc_slice(sig, 2 * FS); SG_J = sig[J]; SG_R = sig[2 * FS - 1 - J]; SIGN_RET = nd_bool(); return SIGN_RET; }
static int NVER, VER_RET; static const EC_KEY *VF_K; static const u8 *VF_T; static size_t VF_TL, VF_L; static u8 VF_J; static const u8 *VF_S;
int dstu_do_verify(const EC_KEY *k, const unsigned char *tbs, size_t tl, const unsigned char *sig, size_t n)
{ CALLPRE(__CPROVER_r_ok(sig, n), "dstu_do_verify: readable signature"); NVER++; VF_K = k; VF_T = tbs; VF_TL = tl; VF_S = sig; VF_L = n; if (J < n) VF_J = sig[J]; VER_RET = nd_bool(); return VER_RET; }
void reverse_bytes(void *m, int n)
{ CALLPRE(n >= 0 && __CPROVER_w_ok(m, n), "reverse_bytes: buffer"); u8 *b = m; if (J < n) { u8 t = b[n - 1 - J]; __CPROVER_havoc_slice(m, n); b[J] = t; } }
void reverse_bytes_copy(void *d, const void *s, int n)
{ CALLPRE(n >= 0 && __CPROVER_w_ok(d, n) && __CPROVER_r_ok(s, n), "reverse_bytes_copy: buffers"); if (J < n) { u8 t = ((const u8 *)s)[n - 1 - J]; ((u8 *)d)[J] = t; } }
unsigned char default_sbox[64];
#include "key.h"
EC_GROUP *group_from_named_curve(int i); EC_GROUP *group_from_nid(int nid); int dstu_generate_key(EC_KEY *key); unsigned char *copy_sbox(const unsigned char *sbox); int bn_encode(const BIGNUM *bn, unsigned char *b, int l);
#include "pmeth.c"
static EVP_PKEY PK; static EVP_PKEY_CTX PC; static DSTU_KEY KEY; static EC_KEY EC; static EC_GROUP G; static u8 TBS[64];
static _Bool usable;
static void mk(void)
{
    __CPROVER_havoc_object(&G); __CPROVER_havoc_object(&EC); REQUIRES(bv_bits(G.order) >= 1 && bv_bits(G.order) <= 664);
    FS = (bv_bits(G.order) + 7) / 8; PKEY_SIZE = DERLEN(2 * FS);
    PC.pkey = nd_bool() ? &PK : NULL; PK.ptr = nd_bool() ? &KEY : NULL; KEY.ec = &EC; EC.group = nd_bool() ? &G : NULL; PK.id = nd_bool() ? NID_dstu4145le : NID_dstu4145be;
    usable = PC.pkey && PK.ptr && EC.group; LIB_MAY_FAIL = 1; LIB_FAILED = LIVE = NI2D = ND2I = NSIGN = NVER = 0; J = nd_int(); REQUIRES(0 <= J);
}
void h_sign(void)
{
    mk(); REQUIRES(J < 2 * FS); size_t cap = nd_size(), sl = cap, tl = nd_size(); REQUIRES(cap < 0x10000000); _Bool query = nd_bool(); u8 *out = NULL, *o0; if (!query) { out = malloc(cap); REQUIRES(out != NULL); }
    o0 = out; u8 *b0 = out; unsigned q = nd_uint(); u8 oq = 0; if (out) { REQUIRES(q < cap || cap == 0); if (cap) oq = out[q]; }
    int r = dstu_pkey_sign(&PC, out, &sl, TBS, tl);
    _Bool small = !query && cap < PKEY_SIZE;
    ENSURES(r == 0 || r == 1, "sign answers 0 or 1");
    ENSURES(IMP(!usable, r == 0 && NSIGN == 0 && sl == cap), "signing needs a key with a group");
    ENSURES(IMP(usable && query && !LIB_FAILED, r == 1 && NSIGN == 0 && sl == PKEY_SIZE), "asking for the length signs nothing and answers the encoded size");
    ENSURES(IMP(usable && small && !LIB_FAILED, r == 0 && NSIGN == 0 && sl == PKEY_SIZE), "a short buffer is refused with the size needed");
    ENSURES(IMP(usable && !query && !small && !LIB_FAILED, NSIGN == 1 && r == SIGN_RET && SG_K == &EC && SG_T == TBS && SG_TL == tl), "signing signs the data with the key");
    ENSURES(IMP(r == 1 && !query, NI2D == 1 && I2D_AT == o0 && I2D_LEN == 2 * FS && sl == DERLEN(2 * FS)), "the signature is DER encoded at the caller's buffer and its length reported");
    ENSURES(IMP(r == 1 && !query && PK.id == NID_dstu4145be, I2D_J == SG_J), "big-endian signature is encoded as computed");
    ENSURES(IMP(r == 1 && !query && PK.id == NID_dstu4145le, I2D_J == SG_R), "little-endian signature is byte reversed");
    ENSURES(IMP(r == 1, !LIB_FAILED), "no signature after a library failure");
    FRAME(IMP(r == 0 && !query && cap, b0[q] == oq), "a failed signing writes nothing");
    ENSURES(LIVE == 0, "signing releases everything");
    REACH("pkey sign"); if (r == 1 && !query) REACH("signed"); if (small) REACH("short");
}
void h_verify(void)
{
    mk(); size_t sl = nd_size(), tl = nd_size(); REQUIRES(sl < 0x7ffffff0); u8 *sig = malloc(sl); REQUIRES(sig != NULL); REQUIRES(J < sl); u8 sj = sig[J], sr = sig[sl - 1 - J];
    int r = dstu_pkey_verify(&PC, sig, sl, TBS, tl);
    _Bool der = ND2I && D2I_OK; size_t n = der ? D2I_N : sl; 
    ENSURES(r == 0 || r == 1, "verify answers 0 or 1");
    ENSURES(IMP(!usable, r == 0 && NVER == 0), "verification needs a key with a group");
    ENSURES(IMP(r == 1, NVER == 1 && VER_RET == 1), "verify accepts only what dstu_do_verify accepts");
    ENSURES(IMP(r == 1, der || (n % 2 == 0)), "an accepted signature has two equal halves");
    ENSURES(IMP(NVER, VF_K == &EC && VF_T == TBS && VF_TL == tl && VF_L == n && n % 2 == 0 && n >= 2 * FS), "verify passes the data, the key and a signature of two full halves");
    ENSURES(IMP(usable && !LIB_FAILED && n % 2 == 0 && n >= 2 * FS, NVER == 1 && r == VER_RET), "verify decides every signature of admissible length");
    ENSURES(IMP(NVER && der && J < n && PK.id == NID_dstu4145be, VF_J == D2I_J), "big-endian signature is verified as decoded");
    ENSURES(IMP(NVER && der && J < n && PK.id == NID_dstu4145le, VF_J == D2I_R), "little-endian signature is byte reversed before verification");
    ENSURES(IMP(ND2I, D2I_IN == sig && D2I_INLEN == sl), "the whole signature is decoded");
    ENSURES(LIVE == 0, "verification releases everything");
    FRAME(sig[J] == sj, "verification leaves the signature alone");
    REACH("pkey verify"); if (r == 1) REACH("accepted"); if (NVER && der) REACH("decoded");
}
