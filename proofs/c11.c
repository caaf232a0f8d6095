/* C11: key generation and public key derivation (params.c). */
#define BN_ABSTRACT
#include "common.h"
#include "ossl_key.h"
static bv nd_bv(void) { bv x; return x; }
static EC_GROUP *GR; static bv N0; static EC_KEY *K;
#ifdef UNIT_GEN
#undef DSTU_LOOP_HEAD_dstu_generate_key
#define GEN_INV (order->v == N0 && !order->neg && !prk->neg && CTX_DEPTH == 1 && LIVE == LIVE0 && NSETPRIV == 0 && NADD == 0 && !LIB_FAILED)
static int LIVE0, NADD;
#define DSTU_LOOP_HEAD_dstu_generate_key CUT(GEN_INV, { int k_; prk->v = nd_bv(); RAND_V = nd_bv(); RAND_N = nd_bv(); NRAND = nd_int(); })
#endif
#include "params.c"
#ifndef UNIT_GEN
static int LIVE0, NADD;
#endif
static _Bool ADD_RET;
static u64v PUBOF(bv d) { return __CPROVER_uninterpreted_neg(__CPROVER_uninterpreted_mulg(d)); }
/* contract of dstu_add_public_key, proved by h_add */
int dstu_add_public_key__contract(EC_KEY *key)
{ CALLPRE(key == K, "dstu_add_public_key: the key being generated"); NADD++; if (!key->group || !key->priv) return 0; LIBFAIL(0); EC_POINT *q = malloc(sizeof *q); __CPROVER_assume(q != NULL); q->id = PUBOF(key->priv->v);
  if (key->pub) EC_POINT_free((EC_POINT *)key->pub); LIVE++; key->pub = q; return 1; }
static _Bool hadpriv, hadpub, hasg;
static void mk(void)
{
    LIB_MAY_FAIL = 0; K = EC_KEY_new(); hasg = nd_bool(); hadpriv = nd_bool(); hadpub = nd_bool();
    if (hasg) { GR = grp_new(); GR->order = nd_bv(); REQUIRES(GR->order > 1); GR->p = nd_bv(); GR->a = nd_bv(); GR->b = nd_bv(); GR->gen = nd_u64(); K->group = GR; N0 = GR->order; }
    if (hadpriv) { BIGNUM *b = BN_new(); b->v = nd_bv(); K->priv = b; }
    if (hadpub) { EC_POINT *q = EC_POINT_new(GR); q->id = nd_u64(); K->pub = q; }
    LIB_MAY_FAIL = 1; LIB_FAILED = 0; NRAND = NSETPRIV = NSETPUB = CTX_DEPTH = POOL_N = POOL_DEAD = 0; LIVE0 = LIVE + 1; NADD = 0;
}
void h_add(void)
{
    mk(); bv d = hadpriv ? K->priv->v : (bv)0; int l0 = LIVE;
    int r = dstu_add_public_key(K);
    ENSURES(r == 0 || r == 1, "adding the public key answers 0 or 1");
    ENSURES(IMP(r == 1, hasg && hadpriv && !LIB_FAILED && K->pub && K->pub->id == PUBOF(d)), "the public key is minus the private key times the generator");
    ENSURES(IMP(hasg && hadpriv && !LIB_FAILED, r == 1), "the public key is derived whenever the library works");
    ENSURES(LIVE == l0 + (K->pub ? 1 : 0) - (hadpub ? 1 : 0), "deriving the public key releases everything");
    FRAME(K->group == (hasg ? GR : NULL) && IMP(hadpriv, K->priv && K->priv->v == d), "deriving the public key leaves private key and group alone");
    REACH("add"); if (r == 1) REACH("added"); if (r == 0 && !LIB_FAILED) REACH("nothing to add");
}
void h_gen(void)
{
    mk(); int l0 = LIVE;
    int r = dstu_generate_key(K);
    ENSURES(r == 0 || r == 1, "key generation answers 0 or 1");
    ENSURES(IMP(r == 1, hasg && !LIB_FAILED && K->priv && K->priv->v == RAND_V && RAND_N == N0 && NSETPRIV == 1), "the private key is a number drawn from the whole range of the order");
    ENSURES(IMP(r == 1, K->priv->v != 0 && K->priv->v < N0), "the private key is between 1 and the order minus 1");
    ENSURES(IMP(r == 1, K->pub && K->pub->id == PUBOF(K->priv->v)), "the generated public key is minus the private key times the generator");
    ENSURES(IMP(hasg && !LIB_FAILED, r == 1), "key generation succeeds whenever the library works");
    ENSURES(CTX_DEPTH == 0 && LIVE == l0 + (K->priv ? 1 : 0) + (K->pub ? 1 : 0) - (hadpub ? 1 : 0) - (hadpriv ? 1 : 0), "key generation releases everything");
    FRAME(K->group == (hasg ? GR : NULL) && IMP(hasg, GR->order == N0), "key generation leaves the group alone");
    REACH("gen"); if (r == 1) REACH("generated");
}
