/* C21: Key-6.dat containers (keylib/key6.c). */
#include "jks_model.h"
#include "params.h"
#include "gost/gost89.h"
#include "gost/gosthash.h"
#include "iit_asn1.h"
#include "key6.h"
#include "bio_model.h"
unsigned char default_sbox[64];
static const char *PW; static size_t PWN;
/* ciphers and digests under the default S-box (C01, C05, C07) */
static gost_ctx *GC; static gost_subst_block *SB; static int INITED, KEYED, NBLK, NFIN;
void unpack_sbox(unsigned char *p, gost_subst_block *u) { CALLPRE(p == default_sbox && __CPROVER_w_ok(u, sizeof *u), "the default S-box"); SB = u; }
void gost_init(gost_ctx *c, const gost_subst_block *b) { CALLPRE(b == SB && SB && __CPROVER_w_ok(c, sizeof *c), "gost_init: the S-box just unpacked"); GC = c; INITED = 1; KEYED = 0; }
static u8 DK, HK; static const void *HD; static size_t HN;
void gost_key(gost_ctx *c, const byte *k) { CALLPRE(c == GC && INITED && k[K] == DK, "gost_key: the derived key, in a context under the default S-box"); KEYED = 1; }
int hash_block(gost_hash_ctx *c, const byte *p, size_t n)
{ CALLPRE(c->cipher_ctx == GC && INITED && NBLK == 0, "hash_block: with the cipher under the default S-box, all at once"); CALLPRE(c->len == 0 && c->left == 0 && c->H[K] == 0 && c->S[K] == 0, "from the zero state"); CALLPRE(p == HD && n == HN && (n == 0 || __CPROVER_r_ok(p, n)), "over the data given"); NBLK++; return 1; }
int finish_hash(gost_hash_ctx *c, byte *o) { CALLPRE(NBLK == 1 && NFIN == 0 && __CPROVER_w_ok(o, 32), "finish_hash: once, after the data"); NFIN++; for (int i = 0; i < 32; i++) o[i] = nd_u8(); HK = o[K]; return 1; }
/* the data to decrypt: octet J of data and pad put together is SRCJ */
static const u8 *DATA, *PAD; static size_t SZ, PSZ; static u8 SRCJ, RESJ; static int NDEC, NP8, P8_RET; static u8 *SRCBUF, *RESBUF; static KeyStore **KSO;
void gost_dec(gost_ctx *c, const byte *in, byte *out, int n)
{ CALLPRE(c == GC && KEYED && n >= 0 && (size_t)n == (SZ + PSZ) / 8 && NDEC == 0, "gost_dec: all the whole blocks, under the key, once"); CALLPRE(n == 0 || (__CPROVER_r_ok(in, 8 * (size_t)n) && __CPROVER_w_ok(out, 8 * (size_t)n)), "gost_dec: buffers"); if (J / 8 < (size_t)n) { CALLPRE(in[J] == SRCJ, "gost_dec: octet J is that of data and pad together"); out[J] = RESJ; } NDEC++; RESBUF = out; }
int keysFromPKCS8(const void *d, size_t n, KeyStore **ks)
{ CALLPRE(NDEC == 1 && d == RESBUF && n == (SZ + PSZ) / 8 * 8 && ks == KSO && (n == 0 || __CPROVER_r_ok(d, n)), "exactly what was decrypted is parsed"); if (J / 8 < (SZ + PSZ) / 8) CALLPRE(((const u8 *)d)[J] == RESJ, "as decrypted"); NP8++; P8_RET = nd_bool(); return P8_RET; }
#ifdef UNIT_DEC6
static void *clear_rec(void *p, size_t n) { CALLPRE(p == NULL ? n == 0 : (__CPROVER_POINTER_OFFSET(p) == 0 && n >= __CPROVER_OBJECT_SIZE(p)), "key material is wiped whole before it is released"); return p; }
#undef OPENSSL_clear_free
#define OPENSSL_clear_free(p, n) CRYPTO_clear_free(clear_rec(p, n), n, "", 0)
static void *memcpy__rec(void *d, const void *s, size_t n)
{ CALLPRE(n == 0 || (__CPROVER_w_ok(d, n) && __CPROVER_r_ok(s, n)), "memcpy: buffers"); if (n == 0) return d; size_t o = __CPROVER_POINTER_OFFSET(d); if (J >= o && J < o + n) ((u8 *)d)[J - o] = ((const u8 *)s)[J - o]; return d; }
#define memcpy memcpy__rec
#endif
/* the container */
static IITStore ST; static IITHeader HDR; static IITParams PRM; static ASN1_OCTET_STRING OS[2]; struct asn1_object_st { int kind; }; static ASN1_OBJECT TY; static int ST_LIVE, D2I_OK;
IITStore *d2i_IITStore(IITStore **o, const unsigned char **p, long n) { CALLPRE(!o && *p == DATA && n == (long)SZ, "the container is parsed, all of it"); D2I_OK = nd_bool(); if (!D2I_OK) return NULL; ST_LIVE = 1; LIVE++; return &ST; }
void IITStore_free(IITStore *s) { if (s) { CALLPRE(s == &ST && ST_LIVE, "released once"); ST_LIVE = 0; LIVE--; } }
static int is(const char *a, const char *b) { for (int i = 0; i < 40; i++) { if (a[i] != b[i]) return 0; if (!a[i]) return 1; } return 0; }
ASN1_OBJECT *OBJ_txt2obj(const char *s, int no) { LIVE++; ASN1_OBJECT *o = malloc(sizeof *o); REQUIRES(o != NULL); o->kind = is(s, "1.3.6.1.4.1.19398.1.1.1.2") ? 1 : 2; return o; }
void ASN1_OBJECT_free(ASN1_OBJECT *o) { if (o) { CALLPRE(o != &TY, "the container's own type is not released apart"); LIVE--; free(o); } }
int OBJ_cmp(const ASN1_OBJECT *a, const ASN1_OBJECT *b) { CALLPRE(a && b, "OBJ_cmp: both objects"); return a->kind - b->kind; }
const unsigned char *ASN1_STRING_get0_data(const ASN1_STRING *s) { CALLPRE((s == &OS[0] || s == &OS[1]) && ST_LIVE, "the octets of the parsed container"); return s->data; }
int ASN1_STRING_length(const ASN1_STRING *s) { CALLPRE((s == &OS[0] || s == &OS[1]) && ST_LIVE, "the octets of the parsed container"); return s->length; }
static int NDK, DKRET;
int decryptKey6__contract(const void *d, size_t n, const void *p, size_t pn, const char *w, size_t wn, KeyStore **ks)
{ CALLPRE(ST_LIVE && d == OS[0].data && n == (size_t)OS[0].length && w == PW && wn == PWN && ks == KSO, "the container's data is decrypted, with the password given"); CALLPRE(pn == (PRM.pad ? (size_t)OS[1].length : 0) && IMP(pn, p == OS[1].data), "together with its pad, if any"); NDK++; DKRET = nd_bool(); return DKRET; }
/* key derivation: 10000 times the digest */
static int N; u8 __CPROVER_uninterpreted_h(int);
void hash__contract(const void *d, size_t n, unsigned char *o)
{ CALLPRE(__CPROVER_w_ok(o, 32), "hash: room"); CALLPRE(N == 0 ? d == PW && n == PWN : n == 32 && ((const u8 *)d)[K] == __CPROVER_uninterpreted_h(N), "hash: first of the password, then of the digest before"); N++;
#ifdef BOUNDED
  o[K] = __CPROVER_uninterpreted_h(N);
#else
  for (int i = 0; i < 32; i++) o[i] = nd_u8(); REQUIRES(o[K] == __CPROVER_uninterpreted_h(N));
#endif
}
static int NKDF;
void pkdf__contract(const char *p, size_t n, unsigned char *o) { CALLPRE(p == PW && n == PWN && __CPROVER_w_ok(o, 32), "the key is derived from the password given"); for (int i = 0; i < 32; i++) o[i] = nd_u8(); DK = o[K]; NKDF++; }
int parseKey6__contract(const void *d, size_t n, const char *p, size_t pn, KeyStore **ks) PARSE_BODY
int readKey6_bio__contract(BIO *b, const char *p, size_t pn, KeyStore **ks) READ_BODY
#ifndef BOUNDED
#ifdef UNIT_PKDF
#undef DSTU_LOOP_HEAD_pkdf
#define DSTU_LOOP_HEAD_pkdf CUTS(a, 0 <= i && i < 9999 && N == i + 1 && key[K] == __CPROVER_uninterpreted_h(N), { i = nd_int(); REQUIRES(0 <= i && i < 9999); N = i + 1; for (int q_ = 0; q_ < 32; q_++) key[q_] = nd_u8(); })
#endif
#ifdef UNIT_READ
#undef DSTU_LOOP_HEAD_read_key6
#define DSTU_LOOP_HEAD_read_key6 READ_CUT
#endif
#endif
#include "key6.c"
#undef memcpy
static void pick(void) { K = nd_int(); REQUIRES(0 <= K && K < 32); J = nd_size(); }
void h_hash(void)
{ pick(); u8 o[32]; _Bool inpl = nd_bool(); static u8 one[1]; HD = inpl ? (void *)o : (void *)one; HN = inpl ? 32 : nd_bool(); INITED = KEYED = NBLK = NFIN = 0; hash(HD, HN, o); ENSURES(NBLK == 1 && NFIN == 1 && o[K] == HK, "hash is the DSTU 34.311 digest of the data under the default S-box"); REACH("hash"); }
void h_pkdf(void)
{ pick(); N = 0;
#ifdef BOUNDED
  K = 0; /* octet 0 stands for all of them */
#endif
  PW = nd_ptr(); PWN = nd_size(); u8 key[32]; pkdf(PW, PWN, key); ENSURES(N == 10000 && key[K] == __CPROVER_uninterpreted_h(10000), "the key is the password's digest, digested 9999 times more"); REACH("pkdf"); }
#ifdef UNIT_DEC6
void h_dec6(void)
{
    pick(); SZ = nd_size(); PSZ = nd_size(); REQUIRES(SZ <= 0x7fffffff && PSZ <= 0x7fffffff); PW = nd_ptr(); PWN = nd_size(); u8 *d = malloc(SZ), *p = malloc(PSZ); REQUIRES(d && p); DATA = nd_bool() || SZ ? d : NULL; PAD = nd_bool() || PSZ ? p : NULL; SRCJ = J < SZ ? d[J] : J < SZ + PSZ ? p[J - SZ] : 0; RESJ = nd_u8(); KeyStore *k; KSO = &k; LIVE = INITED = KEYED = NDEC = NP8 = NKDF = 0;
    int r = decryptKey6(DATA, SZ, PAD, PSZ, PW, PWN, &k);
    ENSURES(NDEC == 1 && NP8 == 1 && NKDF == 1 && !r == !P8_RET, "the keys are those of the decrypted data, and the answer says so"); ENSURES(LIVE == 0, "the copies are released"); REACH("decrypt"); if (r && PSZ > 9 && SZ > 9) REACH("keys");
}
#endif
void h_parse6(void)
{
    DATA = nd_ptr(); SZ = nd_size(); REQUIRES(SZ <= 0x7fffffff); PW = nd_ptr(); PWN = nd_size(); KeyStore *k; KSO = &k; OS[0].data = nd_ptr(); OS[1].data = nd_ptr(); OS[0].length = nd_int(); OS[1].length = nd_int(); REQUIRES(OS[0].length >= 0 && OS[1].length >= 0); TY.kind = nd_int(); REQUIRES(TY.kind == 1 || TY.kind == 3);
    ST.header = nd_bool() ? &HDR : NULL; ST.data = nd_bool() ? &OS[0] : NULL; HDR.type = nd_bool() ? &TY : NULL; HDR.params = nd_bool() ? &PRM : NULL; PRM.mac = NULL; PRM.pad = nd_bool() ? &OS[1] : NULL; LIVE = NDK = DKRET = 0; _Bool whole = ST.header && ST.data && HDR.type && HDR.params && TY.kind == 1;
    int r = parseKey6(DATA, SZ, PW, PWN, &k);
    ENSURES(NDK == (D2I_OK && whole), "a container is decrypted exactly when it is whole and of this type"); ENSURES(!r == !(NDK && DKRET), "the answer says whether there were keys"); ENSURES(LIVE == 0 && !ST_LIVE, "the parsed form is released"); REACH("parse"); if (r) REACH("keys");
}
void h_read(void) READ_HARNESS(readKey6_bio(&SRC, A1, N1, KSP))
void h_file(void) FILE_HARNESS(readKey6(FP, A1, N1, KSP))
