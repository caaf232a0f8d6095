/* C17: life cycle of key objects and key generation contexts (key.c) */
#define BN_ABSTRACT
#define KEY_REAL
#define PKEY_OLD
#include "common.h"
static int K;
#include "key_contract.h"
#include "asn1.h"
unsigned char default_sbox[64];
#include "key.c"
static u8 *mksb(void) { u8 *s = malloc(64); REQUIRES(s != NULL); LIVE++; return s; }
static EC_KEY *mkec(void) { EC_KEY *e = malloc(sizeof *e); REQUIRES(e != NULL); LIVE++; e->group = NULL; e->priv = NULL; e->pub = NULL; return e; }
static void mk(void) { LIB_MAY_FAIL = LIB_FAILED = LIVE = CTX_DEPTH = POOL_N = POOL_DEAD = 0; K = nd_int(); REQUIRES(0 <= K && K < 64); }
void h_new(void)
{ mk(); LIB_MAY_FAIL = 1; DSTU_KEY *k = DSTU_KEY_new(); ENSURES(IMP(!LIB_FAILED, k) && IMP(LIB_FAILED, !k), "a key is made unless memory runs out"); if (k) { ENSURES(k->ec && !k->sbox && !k->ec->group && !k->ec->priv && !k->ec->pub, "a new key is empty"); REACH("made"); } else ENSURES(LIVE == 0, "a failed creation leaks nothing"); DSTU_KEY_free(k); ENSURES(LIVE == 0, "freeing a key releases it"); REACH("new"); }
void h_set(void)
{
    mk(); DSTU_KEY *k = malloc(sizeof *k); REQUIRES(k != NULL); LIVE++; k->ec = nd_bool() ? mkec() : NULL; k->sbox = nd_bool() ? mksb() : NULL; EC_KEY *e0 = k->ec, *e = nd_bool() ? mkec() : NULL; u8 *s0 = k->sbox, *s = nd_bool() ? mksb() : NULL; u8 v0 = s0 ? s0[K] : 0, v = s ? s[K] : 0; int n0 = LIVE;
    DSTU_KEY_set(k, e, s);
    ENSURES(k->ec == (e ? e : e0) && k->sbox == (s ? s : s0), "setting replaces exactly the given parts"); ENSURES(IMP(k->sbox, k->sbox[K] == (s ? v : v0)), "the S-box kept or given is unchanged"); ENSURES(LIVE == n0 - (e && e0) - (s && s0), "what is replaced is released, nothing else"); DSTU_KEY_free(k); ENSURES(LIVE == 0, "freeing a key releases its parts"); REACH("set");
}
void h_cset(void)
{
    mk(); LIB_MAY_FAIL = 1; DSTU_KEY_CTX *c = DSTU_KEY_CTX_new(); ENSURES(IMP(!LIB_FAILED, c) && IMP(!c, LIVE == 0), "a context is made unless memory runs out"); if (!c) return; LIB_MAY_FAIL = 0; ENSURES(!c->type && !c->group && !c->sbox, "a new context is empty");
    c->group = nd_bool() ? grp_new() : NULL; c->sbox = nd_bool() ? mksb() : NULL; int t = c->type = nd_int(); EC_GROUP *g0 = c->group, *g = nd_bool() ? grp_new() : NULL; u8 *s0 = c->sbox, *s = nd_bool() ? mksb() : NULL; int n0 = LIVE;
    DSTU_KEY_CTX_set(c, g, s);
    ENSURES(c->group == (g ? g : g0) && c->sbox == (s ? s : s0) && c->type == t, "setting replaces exactly the given parts"); ENSURES(LIVE == n0 - (g && g0) - (s && s0), "what is replaced is released, nothing else"); DSTU_KEY_CTX_free(c); ENSURES(LIVE == 0, "freeing a context releases its parts"); DSTU_KEY_CTX_free(NULL); DSTU_KEY_free(NULL); REACH("ctx set");
}
void h_ccopy(void)
{
    mk(); DSTU_KEY_CTX *c = malloc(sizeof *c); REQUIRES(c != NULL); LIVE++; c->group = nd_bool() ? grp_new() : NULL; c->sbox = nd_bool() ? mksb() : NULL; c->type = nd_int(); EC_GROUP *g = c->group; u8 *s = c->sbox; int t = c->type, n0 = LIVE; u8 v = s ? s[K] : 0; u64v gg = g ? g->gen : 0; LIB_MAY_FAIL = 1;
    DSTU_KEY_CTX *n = DSTU_KEY_CTX_copy(c); LIB_MAY_FAIL = 0;
    ENSURES(IMP(!LIB_FAILED, n) && IMP(LIB_FAILED, !n), "a context is copied unless memory runs out"); FRAME(c->group == g && c->sbox == s && c->type == t && IMP(s, s[K] == v) && IMP(g, g->gen == gg), "the source is left alone"); if (!n) { ENSURES(LIVE == n0, "a failed copy leaks nothing"); REACH("copy failed"); return; }
    ENSURES(n != c && n->type == t && (g ? n->group && n->group != g && n->group->gen == gg : !n->group) && (s ? n->sbox && n->sbox != s && n->sbox[K] == v : !n->sbox), "the copy has the same curve and S-box, as its own"); DSTU_KEY_CTX_free(c); ENSURES(IMP(n->sbox, n->sbox[K] == v) && IMP(n->group, n->group->gen == gg), "freeing the source leaves the copy usable"); DSTU_KEY_CTX_free(n); ENSURES(LIVE == 0, "both are released"); REACH("copied");
}
