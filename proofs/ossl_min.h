/* minimal stand-ins for libcrypto memory functions (assumed contracts) */
#include <openssl/crypto.h>
#include <stdlib.h>
#include <string.h>
static int OSSL_MAY_FAIL;              /* when set, allocation may fail */
void *CRYPTO_malloc(size_t n, const char *f, int l) { if (OSSL_MAY_FAIL) { _Bool z; if (z) return NULL; } return malloc(n); }
void *CRYPTO_zalloc(size_t n, const char *f, int l) { void *p = CRYPTO_malloc(n, f, l); if (p) memset(p, 0, n); return p; }
void CRYPTO_free(void *p, const char *f, int l) { free(p); }
void CRYPTO_clear_free(void *p, size_t n, const char *f, int l) { if (p) { memset(p, 0, n); free(p); } }
void OPENSSL_cleanse(void *p, size_t n) { if (n) memset(p, 0, n); }
void *CRYPTO_memdup(const void *d, size_t n, const char *f, int l) { if (!d) return NULL; void *p = CRYPTO_malloc(n, f, l); if (p) memcpy(p, d, n); return p; }
int CRYPTO_memcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }
