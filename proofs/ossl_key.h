/* Assumed contracts of the libcrypto EC_KEY / EC_GROUP / EC_POINT life-cycle
 * functions: owning objects, copies on set, NULL or 0 on failure. */
#ifndef OSSL_KEY_H
#define OSSL_KEY_H
#include "ossl_evp.h"
static EC_GROUP *grp_new(void) { LIVE++; EC_GROUP *g = malloc(sizeof *g); __CPROVER_assume(g != NULL); return g; }
EC_GROUP *EC_GROUP_dup(const EC_GROUP *a) { if (!a) return NULL; LIBFAIL(NULL); EC_GROUP *g = grp_new(); *g = *a; return g; }
void EC_GROUP_free(EC_GROUP *g) { if (g) { LIVE--; free(g); } }
void EC_GROUP_clear_free(EC_GROUP *g) { EC_GROUP_free(g); }
static _Bool grp_eq(const EC_GROUP *a, const EC_GROUP *b)
{ return a->field_type == b->field_type && a->degree == b->degree && a->order == b->order && a->p == b->p && a->a == b->a && a->b == b->b && a->gen == b->gen && a->cof == b->cof; }
static int NGCMP;
int EC_GROUP_cmp(const EC_GROUP *a, const EC_GROUP *b, BN_CTX *c)
{ CALLPRE(a && b, "EC_GROUP_cmp: both groups"); NGCMP++; LIBFAIL(-1); return grp_eq(a, b) ? 0 : 1; }
EC_GROUP *EC_GROUP_new_curve_GF2m(const BIGNUM *p, const BIGNUM *a, const BIGNUM *b, BN_CTX *c)
{ LIBFAIL(NULL); EC_GROUP *g = grp_new(); g->field_type = NID_X9_62_characteristic_two_field; g->p = p->v; g->a = a->v; g->b = b->v; g->gen = 0; g->order = 0; g->cof = 0; g->degree = bv_bits(p->v) - 1; return g; }
int EC_GROUP_set_generator(EC_GROUP *g, const EC_POINT *q, const BIGNUM *n, const BIGNUM *h)
{ CALLPRE(q && n, "EC_GROUP_set_generator: generator and order"); LIBFAIL(0); if (n->v == 0 || n->neg) return 0; g->gen = q->id; g->order = n->v; g->cof = h ? h->v : (bv)0; return 1; }
static EC_POINT GEN_PT;
const EC_POINT *EC_GROUP_get0_generator(const EC_GROUP *g) { if (!g->gen) return NULL; GEN_PT.id = g->gen; return &GEN_PT; }
u64v __CPROVER_uninterpreted_affine(bv, bv); u64v __CPROVER_uninterpreted_neg(u64v); _Bool __CPROVER_uninterpreted_oncurve(bv, bv);
static int set_aff(const EC_GROUP *g, EC_POINT *q, const BIGNUM *x, const BIGNUM *y)
{ LIBFAIL(0); if (!__CPROVER_uninterpreted_oncurve(x->v, y->v)) return 0; q->id = __CPROVER_uninterpreted_affine(x->v, y->v); __CPROVER_assume(q->id != 0); return 1; }
int EC_POINT_set_affine_coordinates_GF2m(const EC_GROUP *g, EC_POINT *q, const BIGNUM *x, const BIGNUM *y, BN_CTX *c) { return set_aff(g, q, x, y); }
int EC_POINT_set_affine_coordinates(const EC_GROUP *g, EC_POINT *q, const BIGNUM *x, const BIGNUM *y, BN_CTX *c) { return set_aff(g, q, x, y); }
int EC_POINT_invert(const EC_GROUP *g, EC_POINT *q, BN_CTX *c) { LIBFAIL(0); q->id = __CPROVER_uninterpreted_neg(q->id); return 1; }
static int NPCMP;
int EC_POINT_cmp(const EC_GROUP *g, const EC_POINT *a, const EC_POINT *b, BN_CTX *c)
{ CALLPRE(g && a && b, "EC_POINT_cmp: group and both points"); NPCMP++; LIBFAIL(-1); return a->id == b->id ? 0 : 1; }
/* keys */
EC_KEY *EC_KEY_new(void) { LIBFAIL(NULL); LIVE++; EC_KEY *k = malloc(sizeof *k); __CPROVER_assume(k != NULL); k->group = NULL; k->priv = NULL; k->pub = NULL; return k; }
void EC_KEY_free(EC_KEY *k) { if (k) { EC_GROUP_free((EC_GROUP *)k->group); BN_clear_free((BIGNUM *)k->priv); EC_POINT_free((EC_POINT *)k->pub); LIVE--; free(k); } }
int EC_KEY_set_group(EC_KEY *k, const EC_GROUP *g) { EC_GROUP_free((EC_GROUP *)k->group); k->group = EC_GROUP_dup(g); return k->group != NULL; }
static int NSETPRIV, NSETPUB;
int EC_KEY_set_private_key(EC_KEY *k, const BIGNUM *b)
{ if (!k->group) return 0; BIGNUM *n = BN_dup(b); if (!n) return 0; BN_clear_free((BIGNUM *)k->priv); k->priv = n; NSETPRIV++; return 1; }
int EC_KEY_set_public_key(EC_KEY *k, const EC_POINT *q)
{ if (!k->group) return 0; EC_POINT_free((EC_POINT *)k->pub); k->pub = NULL; LIBFAIL(0); LIVE++; EC_POINT *n = malloc(sizeof *n); __CPROVER_assume(n != NULL); *n = *q; k->pub = n; NSETPUB++; return 1; }
#endif
