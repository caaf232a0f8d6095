/* Model of OpenSSL's EVP_CIPHER_CTX as the engine sees it (assumed contracts
 * of the accessor functions): plain fields, read and written exactly. */
#include <openssl/evp.h>
struct evp_cipher_ctx_st { int encrypt; unsigned char oiv[16], iv[16], buf[32]; int num; void *cipher_data; };
void *EVP_CIPHER_CTX_get_cipher_data(const EVP_CIPHER_CTX *c) { return c->cipher_data; }
int EVP_CIPHER_CTX_get_num(const EVP_CIPHER_CTX *c) { return c->num; }
int EVP_CIPHER_CTX_set_num(EVP_CIPHER_CTX *c, int n) { c->num = n; return 1; }
unsigned char *EVP_CIPHER_CTX_buf_noconst(EVP_CIPHER_CTX *c) { return c->buf; }
unsigned char *EVP_CIPHER_CTX_iv_noconst(EVP_CIPHER_CTX *c) { return c->iv; }
const unsigned char *EVP_CIPHER_CTX_iv(const EVP_CIPHER_CTX *c) { return c->iv; }
const unsigned char *EVP_CIPHER_CTX_original_iv(const EVP_CIPHER_CTX *c) { return c->oiv; }
int EVP_CIPHER_CTX_is_encrypting(const EVP_CIPHER_CTX *c) { return c->encrypt; }
