/* Builders of key containers, written from the formats' definitions, for the keylib programs. */
#include "nat_evp.h"
#include "nat_oom.h"
#include "asn1.h"
#include "keylib.h"
#include "keystore_internal.h"
#include "utils.h"
#include <openssl/pkcs12.h>
#define B(x) do { fail x; DIE(); } while (0)
static BN_CTX *CX;
typedef struct { uint8_t *p; size_t n, c; } BUF;
static void put(BUF *b, const void *p, size_t n) { if (b->n + n > b->c) { b->c = 2 * (b->n + n) + 64; b->p = realloc(b->p, b->c); } if (n) memcpy(b->p + b->n, p, n); b->n += n; }
static void put1(BUF *b, int v) { uint8_t x = v; put(b, &x, 1); }
static void put16(BUF *b, unsigned v) { put1(b, v >> 8); put1(b, v); }
static void put32(BUF *b, uint32_t v) { put16(b, v >> 16); put16(b, v); }
static void tlv(BUF *b, int tag, const void *p, size_t n) { put1(b, tag); if (n < 128) put1(b, n); else if (n < 256) { put1(b, 0x81); put1(b, n); } else if (n < 65536) { put1(b, 0x82); put16(b, n); } else { put1(b, 0x83); put1(b, n >> 16); put16(b, n); } put(b, p, n); }
static void tlvb(BUF *b, int tag, BUF *in) { tlv(b, tag, in->p, in->n); free(in->p); memset(in, 0, sizeof *in); }
static void oid(BUF *b, const char *t) { ASN1_OBJECT *o = OBJ_txt2obj(t, 1); unsigned char *d = NULL; int n = i2d_ASN1_OBJECT(o, &d); put(b, d, n); OPENSSL_free(d); ASN1_OBJECT_free(o); }
static void derint(BUF *b, const BIGNUM *v) { ASN1_INTEGER *a = BN_to_ASN1_INTEGER(v, NULL); unsigned char *d = NULL; int n = i2d_ASN1_INTEGER(a, &d); put(b, d, n); OPENSSL_free(d); ASN1_INTEGER_free(a); }
static void derint_l(BUF *b, long v) { BIGNUM *t = BN_new(); BN_set_word(t, v < 0 ? -v : v); BN_set_negative(t, v < 0); derint(b, t); BN_free(t); }
static EC_GROUP *custom(int cn)
{ EC_GROUP *g = EC_GROUP_dup(GRP[cn]); BIGNUM *s = BN_new(); EC_POINT *q = EC_POINT_new(g); do { rnd_scalar(s, EC_GROUP_get0_order(g)); } while (BN_is_one(s)); EC_POINT_mul(g, q, s, NULL, NULL, CX); BIGNUM *x = BN_new(), *y = BN_new(); int ok = EC_POINT_get_affine_coordinates(g, q, x, y, CX) && !BN_is_zero(x) && !BN_is_one(x) && !BN_is_zero(y);
  EC_GROUP_set_generator(g, q, EC_GROUP_get0_order(GRP[cn]), BN_value_one()); BN_free(s); BN_free(x); BN_free(y); EC_POINT_free(q); if (!ok) { EC_GROUP_free(g); return custom(cn); } return g; }
/* a key: type, curve, scalar, S-box */
typedef struct { int nid, cn; EC_GROUP *g; BIGNUM *d; EVP_PKEY *p; } KEY;
static KEY mkkey(int nid) { KEY k; k.nid = nid; k.cn = rn(3) ? 10 + rn(NGRP - 10) : rn(3); k.g = k.cn >= 10 || rn(2) ? custom(k.cn) : EC_GROUP_dup(GRP[k.cn]); k.d = BN_new(); BIGNUM *x = BN_new(), *y = BN_new(); EC_POINT *q = EC_POINT_new(k.g); /* the points with x = 1 or y = 0 have no unique encoding */
  do { rnd_scalar(k.d, EC_GROUP_get0_order(k.g)); EC_POINT_mul(k.g, q, k.d, NULL, NULL, CX); EC_POINT_get_affine_coordinates(k.g, q, x, y, CX); } while (BN_is_zero(x) || BN_is_one(x) || BN_is_zero(y)); BN_free(x); BN_free(y); EC_POINT_free(q); k.p = mk_pkey(k.g, k.d, NULL, nid); return k; }
static void freekey(KEY *k) { EC_GROUP_free(k->g); BN_free(k->d); EVP_PKEY_free(k->p); memset(k, 0, sizeof *k); }
static void same_key(const EVP_PKEY *p, KEY *k, const char *w)
{ if (!p) B(("%s: no key", w)); DSTU_KEY *dk = EVP_PKEY_get0(p); if (EVP_PKEY_id(p) != k->nid) B(("%s: key type %d", w, EVP_PKEY_id(p))); if (EC_GROUP_cmp(EC_KEY_get0_group(dk->ec), k->g, CX)) B(("%s: another curve", w)); if (BN_cmp(EC_KEY_get0_private_key(dk->ec), k->d)) { bnp("want", k->d); bnp("got", EC_KEY_get0_private_key(dk->ec)); B(("%s: another scalar", w)); } if (EVP_PKEY_eq(p, k->p) != 1) B(("%s: another key", w)); }
static uint8_t bitrev(uint8_t b) { uint8_t r = 0; for (int i = 0; i < 8; i++) r |= (b >> i & 1) << (7 - i); return r; }
/* the attributes of a second key: its curve (big endian) and its scalar (octets and bits in opposite order); damage: 0 none */
static void attrs(BUF *set, KEY *k, int damage, int dup)
{
    BUF f = {0}, s = {0}, sp = {0}, a = {0}, v = {0}; int arr[7], fs = (EC_GROUP_get_degree(k->g) + 7) / 8, nt; uint8_t w[80]; BIGNUM *p = BN_new(), *pa = BN_new(), *b = BN_new(); EC_GROUP_get_curve(k->g, p, pa, b, CX); nt = BN_GF2m_poly2arr(p, arr, 7) - 1;
    derint_l(&f, damage == 1 ? arr[0] + (1l << 32) : damage == 2 ? -arr[0] : damage == 3 ? 0 : arr[0]); if (nt == 3) derint_l(&f, damage == 4 ? -arr[1] : arr[1]); else { BUF q = {0}; derint_l(&q, damage == 4 ? -arr[3] : arr[3]); derint_l(&q, arr[2]); derint_l(&q, damage == 5 ? arr[1] + (1l << 33) : arr[1]); tlvb(&f, 0x30, &q); }
    tlvb(&s, 0x30, &f); derint(&s, pa); BN_bn2binpad(b, w, fs); tlv(&s, 4, w, fs); if (damage == 6) derint_l(&s, 0); else derint(&s, EC_GROUP_get0_order(k->g)); if (!dstu_point_compress(k->g, EC_GROUP_get0_generator(k->g), w, fs)) B(("compress")); tlv(&s, 4, w, damage == 7 ? 0 : fs); tlvb(&sp, 0x30, &s); rbytes(w, 64); tlv(&sp, 4, w, 64); tlv(&sp, 4, w, rn(64));
    if (damage != 8) { oid(&a, "1.3.6.1.4.1.19398.1.1.2.2"); if (dup) { uint8_t nul[2] = {5, 0}; put(&v, nul, 2); } tlvb(&v, 0x30, &sp); tlvb(&a, 0x31, &v); tlvb(set, 0x30, &a); } else free(sp.p);
    if (rn(3) == 0) { oid(&a, "1.2.3.4.5"); uint8_t nul[2] = {5, 0}; tlv(&a, 0x31, nul, 2); tlvb(set, 0x30, &a); }
    int n = rn(3) ? fs : BN_num_bytes(k->d); uint8_t z[81]; BN_bn2binpad(k->d, w, n); for (int i = 0; i < n; i++) z[1 + n - 1 - i] = bitrev(w[i]); z[0] = 0;
    if (damage != 9) { oid(&a, "1.3.6.1.4.1.19398.1.1.2.3"); if (damage == 10) tlv(&v, 12, z + 1, n); else { if (dup) { uint8_t nul[2] = {5, 0}; put(&v, nul, 2); } if (rn(2)) tlv(&v, 4, z + 1, n); else tlv(&v, 3, z, n + 1); } tlvb(&a, 0x31, &v); tlvb(set, 0x30, &a); }
    BN_free(p); BN_free(pa); BN_free(b);
}
/* PKCS#8 of k1, with k2 in the attributes when given */
static BUF p8(KEY *k1, KEY *k2, int damage, int dup)
{
    PKCS8_PRIV_KEY_INFO *pi = EVP_PKEY2PKCS8(k1->p); unsigned char *d = NULL; int n = i2d_PKCS8_PRIV_KEY_INFO(pi, &d); PKCS8_PRIV_KEY_INFO_free(pi); BUF o = {0}; if (n <= 0) B(("PKCS#8")); if (!k2) { put(&o, d, n); OPENSSL_free(d); return o; }
    int h = d[1] < 128 ? 2 : 2 + (d[1] & 127); BUF in = {0}, set = {0}; put(&in, d + h, n - h); OPENSSL_free(d); attrs(&set, k2, damage, dup); tlvb(&in, 0xa0, &set); tlvb(&o, 0x30, &in); return o;
}
static X509 *CERT[4]; static BUF CDER[4];
static void mkcerts(void)
{ EVP_PKEY *k = EVP_EC_gen("P-256"); for (int i = 0; i < 4; i++) { X509 *x = X509_new(); ASN1_INTEGER_set(X509_get_serialNumber(x), 1000 + i); X509_gmtime_adj(X509_getm_notBefore(x), 0); X509_gmtime_adj(X509_getm_notAfter(x), 1000); X509_set_pubkey(x, k); X509_NAME_add_entry_by_txt(X509_get_subject_name(x), "CN", MBSTRING_ASC, (const unsigned char *)"t", 1, -1, 0); if (!X509_sign(x, k, EVP_sha256())) B(("sign")); unsigned char *d = NULL; int n = i2d_X509(x, &d); put(&CDER[i], d, n); OPENSSL_free(d); CERT[i] = x; } EVP_PKEY_free(k); }
/* UTF-8 passwords and their UTF-16BE form */
static int mkpass(char *u8, BUF *u16) { int n = 1 + rn(rn(4) ? 12 : 60), o = 0; memset(u16, 0, sizeof *u16); for (int i = 0; i < n; i++) { unsigned c = rn(3) ? 33 + rn(90) : rn(3) ? 0x400 + rn(0x60) : rn(2) ? 0x20ac : 0x1f600 + rn(40); if (c < 0x80) u8[o++] = c; else if (c < 0x800) { u8[o++] = 0xc0 | c >> 6; u8[o++] = 0x80 | (c & 63); } else if (c < 0x10000) { u8[o++] = 0xe0 | c >> 12; u8[o++] = 0x80 | (c >> 6 & 63); u8[o++] = 0x80 | (c & 63); } else { u8[o++] = 0xf0 | c >> 18; u8[o++] = 0x80 | (c >> 12 & 63); u8[o++] = 0x80 | (c >> 6 & 63); u8[o++] = 0x80 | (c & 63); }
  if (c < 0x10000) put16(u16, c); else { put16(u16, 0xd800 + ((c - 0x10000) >> 10)); put16(u16, 0xdc00 + ((c - 0x10000) & 0x3ff)); } } return o; }
/* a source BIO that delivers in pieces of any size */
static int pc_read(BIO *b, char *o, size_t n, size_t *got) { BUF *s = BIO_get_data(b); size_t k = 1 + rn(rn(2) ? 40 : 2000); if (k > n) k = n; if (k > s->n - s->c) k = s->n - s->c; if (!k) { *got = 0; return 0; } memcpy(o, s->p + s->c, k); s->c += k; *got = k; return 1; }
static BIO *piecewise(BUF *s) { static BIO_METHOD *m; if (!m) { m = BIO_meth_new(BIO_TYPE_SOURCE_SINK | BIO_get_new_index(), "pieces"); BIO_meth_set_read_ex(m, pc_read); } BIO *b = BIO_new(m); BIO_set_data(b, s); BIO_set_init(b, 1); return b; }
