/* Contracts of key.c's DSTU_KEY / DSTU_KEY_CTX functions (proved in C17) and of
 * params.c's copy_sbox (C05) and curve table functions (C14), for their callers. */
#ifndef KEY_CONTRACT_H
#define KEY_CONTRACT_H
#include "ossl_key.h"
#include "key.h"
#ifndef KEY_REAL
DSTU_KEY *DSTU_KEY_new(void)
{ LIBFAIL(NULL); DSTU_KEY *k = malloc(sizeof *k); __CPROVER_assume(k != NULL); EC_KEY *e = malloc(sizeof *e); __CPROVER_assume(e != NULL); e->group = NULL; e->priv = NULL; e->pub = NULL; LIVE += 2; k->ec = e; k->sbox = NULL; return k; }
void DSTU_KEY_set(DSTU_KEY *k, EC_KEY *ec, unsigned char *sb)
{ CALLPRE(k, "DSTU_KEY_set: a key"); if (ec) { EC_KEY_free(k->ec); k->ec = ec; } if (sb) { CRYPTO_free(k->sbox, "", 0); k->sbox = sb; } }
void DSTU_KEY_free(DSTU_KEY *k) { if (k) { CRYPTO_free(k->sbox, "", 0); EC_KEY_free(k->ec); LIVE--; free(k); } }
DSTU_KEY_CTX *DSTU_KEY_CTX_new(void) { LIBFAIL(NULL); LIVE++; DSTU_KEY_CTX *c = malloc(sizeof *c); __CPROVER_assume(c != NULL); c->type = 0; c->group = NULL; c->sbox = NULL; return c; }
void DSTU_KEY_CTX_set(DSTU_KEY_CTX *c, EC_GROUP *g, unsigned char *sb)
{ CALLPRE(c, "DSTU_KEY_CTX_set: a context"); if (g) { EC_GROUP_free(c->group); c->group = g; } if (sb) { CRYPTO_free(c->sbox, "", 0); c->sbox = sb; } }
void DSTU_KEY_CTX_free(DSTU_KEY_CTX *c) { if (c) { EC_GROUP_free(c->group); CRYPTO_free(c->sbox, "", 0); LIVE--; free(c); } }
#endif
unsigned char *copy_sbox(const unsigned char *s)
{ CALLPRE(__CPROVER_r_ok(s, 64), "copy_sbox: 64 readable bytes"); LIBFAIL(NULL); LIVE++; u8 *p = malloc(64); __CPROVER_assume(p != NULL); memcpy(p, s, 64); return p; }
#ifndef KEY_REAL
DSTU_KEY_CTX *DSTU_KEY_CTX_copy(const DSTU_KEY_CTX *c)
{ CALLPRE(c, "DSTU_KEY_CTX_copy: a context"); LIBFAIL(NULL); LIVE++; DSTU_KEY_CTX *n = malloc(sizeof *n); __CPROVER_assume(n != NULL); n->type = c->type; n->group = NULL; n->sbox = NULL;
  if (c->group) { n->group = grp_new(); *n->group = *c->group; } if (c->sbox) { LIVE++; n->sbox = malloc(64); __CPROVER_assume(n->sbox != NULL); memcpy(n->sbox, c->sbox, 64); } return n; }
#endif
#define CURVEGEN(i) (0x1000 + (u64v)(i))
static int curve_of_nid(int nid)
{ return nid == NID_uacurve0 ? 0 : nid == NID_uacurve1 ? 1 : nid == NID_uacurve2 ? 2 : nid == NID_uacurve3 ? 3 : nid == NID_uacurve4 ? 4 : nid == NID_uacurve5 ? 5 : nid == NID_uacurve6 ? 6 : nid == NID_uacurve7 ? 7 : nid == NID_uacurve8 ? 8 : nid == NID_uacurve9 ? 9 : -1; }
EC_GROUP *group_from_named_curve(int i)
{ CALLPRE(i >= 0 && i < 10, "group_from_named_curve: curve number"); LIBFAIL(NULL); EC_GROUP *g = grp_new(); bv o; __CPROVER_assume(o > 3); g->order = o; g->gen = CURVEGEN(i); g->cof = 1; g->field_type = NID_X9_62_characteristic_two_field; return g; }
EC_GROUP *group_from_nid(int nid) { int i = curve_of_nid(nid); return i < 0 ? NULL : group_from_named_curve(i); }
#endif
