/* Models for keylib/jks.c: memory, digests, key stores as contracts (C23). */
#include "common.h"
#include <iconv.h>
#include <errno.h>
#include <openssl/asn1.h>
#include <openssl/bio.h>
#include <openssl/crypto.h>
#include <openssl/evp.h>
#include <openssl/objects.h>
#include <openssl/x509.h>
#include "keystore_internal.h"
#include "utils.h"
static void *nd_ptr(void) { void *p; return p; }
static int LIVE; static size_t J; static int K;
#define MAXSIZE ((size_t)1 << 40)
/* OpenSSL's allocator: NULL for no bytes; allocations succeed (assumption) */
void *CRYPTO_malloc(size_t n, const char *f, int l) { if (n == 0) return NULL; LIVE++; void *p = malloc(n); REQUIRES(p != NULL); return p; }
void CRYPTO_free(void *p, const char *f, int l) { if (p) { LIVE--; free(p); } }
void CRYPTO_clear_free(void *p, size_t n, const char *f, int l) { CRYPTO_free(p, f, l); }
void *CRYPTO_zalloc(size_t n, const char *f, int l) { void *p = CRYPTO_malloc(n, f, l); if (p) memset(p, 0, n); return p; }
void OPENSSL_cleanse(void *p, size_t n) { if (n) memset(p, 0, n); }
void *CRYPTO_memdup(const void *d, size_t n, const char *f, int l) { if (!d) return NULL; void *p = CRYPTO_malloc(n, f, l); if (p) memcpy(p, d, n); return p; }
int CRYPTO_memcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }
/* key stores: number of entries, and the entry appended last */
struct KeyStore_st { size_t nk, nc; X509 *cert; EVP_PKEY *key; };
static KeyStore *KS; static int KS_FREED, KS_NEW;
KeyStore *KeyStoreNew(size_t k, size_t c) { LIVE++; KS_NEW++; KeyStore *s = malloc(sizeof *s); REQUIRES(s != NULL); s->nk = k; s->nc = c; s->cert = NULL; s->key = NULL; return s; }
void KeyStoreSetCert(KeyStore *s, size_t i, X509 *x) { CALLPRE(i < s->nc, "KeyStoreSetCert: an entry of the store"); s->cert = x; }
static int NX509;
void X509_free(X509 *x) { if (x) { NX509--; } }
void KeyStoreAppend(KeyStore *to, KeyStore *from) { CALLPRE(to && from && to != from, "KeyStoreAppend: two stores"); to->nk += from->nk; to->nc += from->nc; if (from->nc) to->cert = from->cert; if (from->nk) to->key = from->key; from->cert = NULL; from->key = NULL; }
void KeyStoreFree(KeyStore *s) { if (s) { LIVE--; if (s->cert) NX509--; free(s); } }
size_t KeyStoreKeyNum(const KeyStore *s) { return s->nk; }
size_t KeyStoreCertNum(const KeyStore *s) { return s->nc; }
#define BE16(p) ((u32)(p)[0] << 8 | (p)[1])
#define BE32B(p) ((u32)(p)[0] << 24 | (u32)(p)[1] << 16 | (u32)(p)[2] << 8 | (p)[3])
#undef ntohs
#undef ntohl
uint16_t ntohs(uint16_t x) { return (uint16_t)(x >> 8 | x << 8); }
uint32_t ntohl(uint32_t x) { return x >> 24 | (x >> 8 & 0xff00) | (x << 8 & 0xff0000) | x << 24; }
