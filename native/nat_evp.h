#define NAT_ENGINE
#include "nat_ec.h"
#include <openssl/obj_mac.h>
#include <openssl/x509.h>
#include <openssl/pem.h>
static EVP_PKEY *mk_pkey(EC_GROUP *g, BIGNUM *d, const uint8_t *sb, int nid)
{
    DSTU_KEY *k = DSTU_KEY_new(); EC_KEY *e = mk_ec(g, d); DSTU_KEY_set(k, e, sb ? copy_sbox(sb) : NULL);
    EVP_PKEY *p = EVP_PKEY_new(); if (!EVP_PKEY_assign(p, nid, k)) { fail("EVP_PKEY_assign"); DIE(); } return p;
}
static void rev(uint8_t *b, int n) { for (int i = 0; i < n / 2; i++) { uint8_t t = b[i]; b[i] = b[n - 1 - i]; b[n - 1 - i] = t; } }
/* DER octet string, minimal length */
static int der_os(uint8_t *o, const uint8_t *b, int n)
{ int h = 0; o[h++] = 4; if (n < 128) o[h++] = n; else if (n < 256) { o[h++] = 0x81; o[h++] = n; } else { o[h++] = 0x82; o[h++] = n >> 8; o[h++] = n; } memcpy(o + h, b, n); return h + n; }
