/* Assumed contracts of the libcrypto EVP_PKEY / ASN1_STRING functions the key
 * methods call: plain owning objects; everything may fail when LIB_MAY_FAIL. */
#ifndef OSSL_EVP_H
#define OSSL_EVP_H
#include "ossl_bn.h"
#include <openssl/evp.h>
#include <openssl/asn1.h>
#include <openssl/objects.h>
void *CRYPTO_malloc(size_t n, const char *f, int l) { if (n == 0) return NULL; LIBFAIL(NULL); LIVE++; void *p = malloc(n); __CPROVER_assume(p != NULL); return p; }
void *CRYPTO_zalloc(size_t n, const char *f, int l) { void *p = CRYPTO_malloc(n, f, l); if (p) memset(p, 0, n); return p; }
void CRYPTO_free(void *p, const char *f, int l) { if (p) { LIVE--; free(p); } }
void CRYPTO_clear_free(void *p, size_t n, const char *f, int l) { CRYPTO_free(p, f, l); }
void OPENSSL_cleanse(void *p, size_t n) { if (n) memset(p, 0, n); }
void *CRYPTO_memdup(const void *d, size_t n, const char *f, int l) { if (!d) return NULL; void *p = CRYPTO_malloc(n, f, l); if (p) memcpy(p, d, n); return p; }
int CRYPTO_memcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }
struct evp_pkey_st { int id; void *ptr; int size; };
struct evp_pkey_ctx_st { EVP_PKEY *pkey; void *data; };
static int PKEY_SIZE;
EVP_PKEY *EVP_PKEY_CTX_get0_pkey(EVP_PKEY_CTX *c) { return c->pkey; }
void *EVP_PKEY_CTX_get_data(const EVP_PKEY_CTX *c) { return c->data; }
void EVP_PKEY_CTX_set_data(EVP_PKEY_CTX *c, void *d) { c->data = d; }
void *EVP_PKEY_get0(const EVP_PKEY *p) { return p->ptr; }
int EVP_PKEY_get_id(const EVP_PKEY *p) { return p->id; }
int EVP_PKEY_get_base_id(const EVP_PKEY *p) { return p->id; }
int EVP_PKEY_get_size(const EVP_PKEY *p) { return PKEY_SIZE; }
static int NASSIGN;
#ifdef PKEY_OLD                          /* the library releases the key held before */
struct dstu_key_st; void DSTU_KEY_free(struct dstu_key_st *k);
#define OLDKEY(p) DSTU_KEY_free((p)->ptr)
#else
#define OLDKEY(p) ((void)0)
#endif
int EVP_PKEY_assign(EVP_PKEY *p, int type, void *k) { LIBFAIL(0); OLDKEY(p); p->id = type; p->ptr = k; NASSIGN++; return k != NULL; }
/* strings */
int __CPROVER_uninterpreted_derlen(int);
static int DERLEN(int n) { int r = __CPROVER_uninterpreted_derlen(n); __CPROVER_assume(r >= n + 2 && r <= n + 6); return r; }
int ASN1_object_size(int constructed, int length, int tag) { CALLPRE(constructed == 0 && tag == V_ASN1_OCTET_STRING, "model: size of an octet string"); if (length < 0) return -1; return DERLEN(length); }
ASN1_STRING *ASN1_STRING_type_new(int t) { LIBFAIL(NULL); LIVE++; ASN1_STRING *s = malloc(sizeof *s); __CPROVER_assume(s != NULL); s->length = 0; s->type = t; s->data = NULL; s->flags = 0; return s; }
ASN1_OCTET_STRING *ASN1_OCTET_STRING_new(void) { return ASN1_STRING_type_new(V_ASN1_OCTET_STRING); }
void ASN1_STRING_free(ASN1_STRING *s) { if (s) { CRYPTO_free(s->data, "", 0); LIVE--; free(s); } }
void ASN1_OCTET_STRING_free(ASN1_OCTET_STRING *s) { ASN1_STRING_free(s); }
void ASN1_STRING_set0(ASN1_STRING *s, void *d, int n) { CRYPTO_free(s->data, "", 0); s->data = d; s->length = n; }
#ifdef TRACKED                           /* only the tracked positions of a string are kept */
#define TCOPY(d, s, n) do { if (TRACKED < (n)) { (d)[TRACKED] = (s)[TRACKED]; (d)[(n) - 1 - TRACKED] = (s)[(n) - 1 - TRACKED]; } } while (0)
#else
#define TCOPY(d, s, n) memcpy(d, s, n)
#endif
int ASN1_STRING_set(ASN1_STRING *s, const void *d, int n)
{ CALLPRE(n >= 0 && __CPROVER_r_ok(d, n), "ASN1_STRING_set: readable data"); LIBFAIL(0); CRYPTO_free(s->data, "", 0); LIVE++; s->data = malloc(n + 1); __CPROVER_assume(s->data != NULL); TCOPY(s->data, ((const u8 *)d), n); s->length = n; return 1; }
int ASN1_OCTET_STRING_set(ASN1_OCTET_STRING *s, const unsigned char *d, int n) { return ASN1_STRING_set(s, d, n); }
const unsigned char *ASN1_STRING_get0_data(const ASN1_STRING *s) { return s->data; }
int ASN1_STRING_length(const ASN1_STRING *s) { return s->length; }
#endif
