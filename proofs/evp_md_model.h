/* Model of EVP_MD_CTX as the engine sees it: plain fields (assumed contracts of the accessors). */
#include <openssl/evp.h>
struct evp_md_ctx_st { void *md_data; EVP_PKEY_CTX *pctx; };
struct evp_pkey_ctx_st { EVP_PKEY *pkey; };
struct evp_pkey_st { void *ptr; };
void *EVP_MD_CTX_get0_md_data(const EVP_MD_CTX *c) { return c->md_data; }
EVP_PKEY_CTX *EVP_MD_CTX_get_pkey_ctx(const EVP_MD_CTX *c) { return c->pctx; }
EVP_PKEY *EVP_PKEY_CTX_get0_pkey(EVP_PKEY_CTX *c) { return c->pkey; }
void *EVP_PKEY_get0(const EVP_PKEY *p) { return p->ptr; }
