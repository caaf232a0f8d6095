/* Assumed contracts of the libcrypto BIGNUM / binary-field / EC functions the
 * engine calls.  A BIGNUM is its value (BNW bits); field and group operations
 * are uninterpreted functions of the values; every function may fail when
 * LIB_MAY_FAIL is set, and then says so in LIB_FAILED.  LIVE counts objects
 * allocated and not yet freed. */
#ifndef OSSL_BN_H
#define OSSL_BN_H
#include <openssl/bn.h>
#include <openssl/ec.h>
#include <openssl/obj_mac.h>
/* With BN_ABSTRACT every operation on values except comparison is an
 * uninterpreted function, so a counterexample over 672-bit values maps to one
 * over any ordered domain with as many elements as it has values: 24 bits do. */
#define BNBITS 672
#ifdef BN_ABSTRACT
#define BNW 24
#else
#define BNW BNBITS
#endif
typedef unsigned __CPROVER_bitvector[BNW] bv;
struct bignum_st { bv v; int neg; };
static int LIB_MAY_FAIL, LIB_FAILED, LIVE;
#define LIBFAIL(x) do { if (LIB_MAY_FAIL && nd_bool()) { LIB_FAILED = 1; return x; } } while (0)
#define NPOOL 24
static BIGNUM POOL[NPOOL]; static int POOL_N; static int POOL_DEAD;
struct bignum_ctx { int depth; };
static int CTX_DEPTH;
BN_CTX *BN_CTX_new(void) { LIBFAIL(NULL); LIVE++; struct bignum_ctx *c = malloc(sizeof *c); __CPROVER_assume(c != NULL); c->depth = 0; return c; }
BN_CTX *BN_CTX_secure_new(void) { return BN_CTX_new(); }
void BN_CTX_free(BN_CTX *c) { if (c) { LIVE--; free(c); } }
void BN_CTX_start(BN_CTX *c) { c->depth++; CTX_DEPTH++; }
void BN_CTX_end(BN_CTX *c) { if (c) { CALLPRE(c->depth > 0, "BN_CTX_end after BN_CTX_start"); c->depth--; CTX_DEPTH--; } }
BIGNUM *BN_CTX_get(BN_CTX *c)
{ CALLPRE(c->depth > 0, "BN_CTX_get within a BN_CTX_start frame"); if (LIB_MAY_FAIL && (POOL_DEAD || nd_bool())) { POOL_DEAD = LIB_FAILED = 1; return NULL; }
  CALLPRE(POOL_N < NPOOL, "model: enough pooled numbers"); BIGNUM *b = &POOL[POOL_N++]; b->v = 0; b->neg = 0; return b; }
BIGNUM *BN_new(void) { LIBFAIL(NULL); LIVE++; BIGNUM *b = malloc(sizeof *b); __CPROVER_assume(b != NULL); b->v = 0; b->neg = 0; return b; }
BIGNUM *BN_secure_new(void) { return BN_new(); }
void BN_clear(BIGNUM *b) { if (b) { b->v = 0; b->neg = 0; } }
void BN_swap(BIGNUM *a, BIGNUM *b) { BIGNUM t = *a; *a = *b; *b = t; }
void BN_free(BIGNUM *b) { if (b) { LIVE--; free(b); } }
void BN_clear_free(BIGNUM *b) { if (b) { b->v = 0; LIVE--; free(b); } }
void BN_zero_ex(BIGNUM *b) { b->v = 0; b->neg = 0; }
#ifdef SETWORD_NOFAIL
#define SETWORD_FAILS()
#else
#define SETWORD_FAILS() LIBFAIL(0)
#endif
int BN_set_word(BIGNUM *b, BN_ULONG w) { SETWORD_FAILS(); b->v = (bv)w; b->neg = 0; return 1; }
int BN_is_zero(const BIGNUM *b) { return b->v == 0; }
int BN_is_one(const BIGNUM *b) { return b->v == 1 && !b->neg; }
int BN_is_negative(const BIGNUM *b) { return b->neg; }
void BN_set_negative(BIGNUM *b, int n) { b->neg = n && b->v != 0; }
int BN_is_word(const BIGNUM *b, const BN_ULONG w) { return b->v == (bv)w && (!w || !b->neg); }
BIGNUM *BN_copy(BIGNUM *a, const BIGNUM *b) { LIBFAIL(NULL); a->v = b->v; a->neg = b->neg; return a; }
BIGNUM *BN_dup(const BIGNUM *a) { BIGNUM *t; if (!a) return NULL; t = BN_new(); if (t) { t->v = a->v; t->neg = a->neg; } return t; }
int BN_ucmp(const BIGNUM *a, const BIGNUM *b) { return a->v == b->v ? 0 : a->v < b->v ? -1 : 1; }
int BN_cmp(const BIGNUM *a, const BIGNUM *b) { if (a->neg != b->neg) return a->neg ? -1 : 1; int c = BN_ucmp(a, b); return a->neg ? -c : c; }
#ifdef BN_ABSTRACT
int __CPROVER_uninterpreted_numbits(bv); bv __CPROVER_uninterpreted_lowbits(bv, int); bv __CPROVER_uninterpreted_modadd(bv, bv, bv);
static int bv_bits(bv v) { int n = __CPROVER_uninterpreted_numbits(v); __CPROVER_assume(n >= 0 && n <= BNBITS && (n == 0) == (v == 0)); return n; }
#define LOWBITS(v, n) __CPROVER_uninterpreted_lowbits(v, n)
#define MODADD(a, b, n) ((a) < (b) ? __CPROVER_uninterpreted_modadd(a, b, n) : __CPROVER_uninterpreted_modadd(b, a, n))
#else
#define LOWBITS(v, n) ((n) >= BNW ? (v) : (v) & ((((bv)1) << (n)) - 1))
static bv MODADD(bv a, bv b, bv n) { bv s = a + b; return s >= n ? s - n : s; }       /* for a, b < n */
static int bv_bits(bv v) { int n = nd_int(); __CPROVER_assume(n >= 0 && n <= BNW && (n == 0) == (v == 0)); __CPROVER_assume(n == 0 || (v >> (n - 1)) == 1); return n; }
#endif
int BN_num_bits(const BIGNUM *b) { return bv_bits(b->v); }
#ifdef BN_ABSTRACT
_Bool __CPROVER_uninterpreted_bit(bv, int); bv __CPROVER_uninterpreted_setbit(bv, int); bv __CPROVER_uninterpreted_clrbit(bv, int);
#define ISBIT(v, n) __CPROVER_uninterpreted_bit(v, n)
static bv SETBIT(bv v, int n) { bv x = __CPROVER_uninterpreted_setbit(v, n); __CPROVER_assume(ISBIT(x, n) && x != 0 && IMP(ISBIT(v, n), x == v)); return x; }
static bv CLRBIT(bv v, int n) { bv x = __CPROVER_uninterpreted_clrbit(v, n); __CPROVER_assume(!ISBIT(x, n) && IMP(!ISBIT(v, n), x == v)); return x; }
int BN_is_bit_set(const BIGNUM *b, int n) { return ISBIT(b->v, n); }
int BN_is_odd(const BIGNUM *b) { return ISBIT(b->v, 0); }
int BN_clear_bit(BIGNUM *b, int n) { LIBFAIL(0); if (n < 0 || b->v == 0) return 0; if (n >= bv_bits(b->v)) return nd_bool(); b->v = CLRBIT(b->v, n); return 1; }
int BN_set_bit(BIGNUM *b, int n) { LIBFAIL(0); if (n < 0) return 0; b->v = SETBIT(b->v, n); return 1; }
#else
int BN_is_odd(const BIGNUM *b) { return (int)(b->v & 1); }
int BN_is_bit_set(const BIGNUM *b, int n) { return n >= 0 && n < BNW && ((b->v >> n) & 1); }
int BN_clear_bit(BIGNUM *b, int n) { LIBFAIL(0); if (n < 0 || n >= bv_bits(b->v)) { return n < 0 ? 0 : (nd_bool() ? 1 : 0); } b->v &= ~(((bv)1) << n); if (b->v == 0) b->neg = 0; return 1; }
int BN_set_bit(BIGNUM *b, int n) { LIBFAIL(0); if (n < 0) return 0; CALLPRE(n < BNW, "model: number fits the modelled width"); b->v |= ((bv)1) << n; return 1; }
#endif
int BN_mask_bits(BIGNUM *b, int n) { if (n < 0 || bv_bits(b->v) < n) { if (n < 0 || nd_bool()) return 0; return 1; } b->v = LOWBITS(b->v, n); return 1; }
/* conversion from bytes: value arbitrary, remembered with its source */
#ifndef BIN_EXACT
static struct { const u8 *p; long len; bv v; } BIN[4]; static int NBIN;
#ifndef BIN_VALUE
#define BIN_VALUE(p, n, val) ((void)0)
#endif
BIGNUM *BN_bin2bn(const unsigned char *s, int n, BIGNUM *r)
{ CALLPRE(n >= 0 && (n == 0 || __CPROVER_r_ok(s, n)), "BN_bin2bn: readable bytes"); if (!r) { r = BN_new(); if (!r) return NULL; } else LIBFAIL(NULL);
  bv x; BIN_VALUE(s, n, x); if (NBIN < 4) { BIN[NBIN].p = s; BIN[NBIN].len = n; BIN[NBIN].v = x; } NBIN++; r->v = x; r->neg = 0; return r; }
#else
BIGNUM *BN_bin2bn(const unsigned char *s, int n, BIGNUM *r)
{ CALLPRE(n >= 0 && (n == 0 || __CPROVER_r_ok(s, n)), "BN_bin2bn: readable bytes"); if (!r) { r = BN_new(); if (!r) return NULL; } else LIBFAIL(NULL);
  bv x = 0; for (int i = 0; i < n; i++) { CALLPRE((x >> (BNW - 8)) == 0, "model: number fits the modelled width"); x = (x << 8) | (bv)s[i]; } r->v = x; r->neg = 0; return r; }
#endif
/* randomness: the last value drawn and its range are remembered */
static bv RAND_V, RAND_N; static int NRAND;
static int rr(BIGNUM *r, const BIGNUM *n) { CALLPRE(n->v != 0, "BN_rand_range: non-zero range"); LIBFAIL(0); bv x; __CPROVER_assume(x < n->v); r->v = x; r->neg = 0; RAND_V = x; RAND_N = n->v; NRAND++; return 1; }
int BN_rand_range(BIGNUM *r, const BIGNUM *n) { return rr(r, n); }
int BN_priv_rand_range(BIGNUM *r, const BIGNUM *n) { return rr(r, n); }
int BN_pseudo_rand_range(BIGNUM *r, const BIGNUM *n) { return rr(r, n); }
/* modular and binary-field arithmetic */
bv __CPROVER_uninterpreted_modmul(bv, bv, bv);
bv __CPROVER_uninterpreted_gfmul(bv, bv, bv);
static bv MODMUL(bv a, bv b, bv n) { return a < b ? __CPROVER_uninterpreted_modmul(a, b, n) : __CPROVER_uninterpreted_modmul(b, a, n); }
static bv GFMUL(bv a, bv b, bv p) { return a < b ? __CPROVER_uninterpreted_gfmul(a, b, p) : __CPROVER_uninterpreted_gfmul(b, a, p); }
#ifdef BN_ABSTRACT
bv __CPROVER_uninterpreted_gfadd(bv, bv);
static bv GFADD(bv a, bv b) { return a < b ? __CPROVER_uninterpreted_gfadd(a, b) : __CPROVER_uninterpreted_gfadd(b, a); }
#else
#define GFADD(a, b) ((a) ^ (b))
#endif
bv __CPROVER_uninterpreted_gfsqr(bv, bv); bv __CPROVER_uninterpreted_gfinv(bv, bv); bv __CPROVER_uninterpreted_gfsqrt(bv, bv); bv __CPROVER_uninterpreted_gfquad(bv, bv); _Bool __CPROVER_uninterpreted_gfhasquad(bv, bv);
#define GFSQR __CPROVER_uninterpreted_gfsqr
#define GFINV __CPROVER_uninterpreted_gfinv
int BN_GF2m_mod_sqr(BIGNUM *r, const BIGNUM *a, const BIGNUM *p, BN_CTX *c) { LIBFAIL(0); r->v = GFSQR(a->v, p->v); r->neg = 0; return 1; }
int BN_GF2m_mod_inv(BIGNUM *r, const BIGNUM *a, const BIGNUM *p, BN_CTX *c) { LIBFAIL(0); if (a->v == 0) return 0; r->v = GFINV(a->v, p->v); r->neg = 0; return 1; }
int BN_GF2m_mod_sqrt(BIGNUM *r, const BIGNUM *a, const BIGNUM *p, BN_CTX *c) { LIBFAIL(0); r->v = __CPROVER_uninterpreted_gfsqrt(a->v, p->v); r->neg = 0; return 1; }
int BN_GF2m_mod_solve_quad(BIGNUM *r, const BIGNUM *a, const BIGNUM *p, BN_CTX *c) { LIBFAIL(0); if (!__CPROVER_uninterpreted_gfhasquad(a->v, p->v)) return 0; r->v = __CPROVER_uninterpreted_gfquad(a->v, p->v); r->neg = 0; return 1; }
static BIGNUM BN_ONE; const BIGNUM *BN_value_one(void) { BN_ONE.v = 1; BN_ONE.neg = 0; return &BN_ONE; }
int BN_mod_mul(BIGNUM *r, const BIGNUM *a, const BIGNUM *b, const BIGNUM *n, BN_CTX *c)
{ LIBFAIL(0); bv x = MODMUL(a->v, b->v, n->v); __CPROVER_assume(x < n->v); r->v = x; r->neg = 0; return 1; }
int BN_mod_add_quick(BIGNUM *r, const BIGNUM *a, const BIGNUM *b, const BIGNUM *n)
{ CALLPRE(a->v < n->v && b->v < n->v, "BN_mod_add_quick: reduced operands"); LIBFAIL(0); bv x = MODADD(a->v, b->v, n->v); __CPROVER_assume(x < n->v); r->v = x; return 1; }
int BN_mod_add(BIGNUM *r, const BIGNUM *a, const BIGNUM *b, const BIGNUM *n, BN_CTX *c)
{ CALLPRE(a->v < n->v && b->v < n->v, "model: BN_mod_add with reduced operands"); LIBFAIL(0); bv x = MODADD(a->v, b->v, n->v); __CPROVER_assume(x < n->v); r->v = x; return 1; }
int BN_GF2m_mod_mul(BIGNUM *r, const BIGNUM *a, const BIGNUM *b, const BIGNUM *p, BN_CTX *c)
{ LIBFAIL(0); r->v = GFMUL(a->v, b->v, p->v); r->neg = 0; return 1; }
int BN_GF2m_add(BIGNUM *r, const BIGNUM *a, const BIGNUM *b) { LIBFAIL(0); r->v = GFADD(a->v, b->v); r->neg = 0; return 1; }
/* groups and points */
struct ec_group_st { int field_type, degree; bv order, p, a, b, cof; u64v gen; };
struct ec_point_st { u64v id; };
struct ec_key_st { const EC_GROUP *group; const BIGNUM *priv; const EC_POINT *pub; };
struct ec_method_st { int field_type; };
const BIGNUM *EC_KEY_get0_private_key(const EC_KEY *k) { return k->priv; }
const EC_GROUP *EC_KEY_get0_group(const EC_KEY *k) { return k->group; }
const EC_POINT *EC_KEY_get0_public_key(const EC_KEY *k) { return k->pub; }
const EC_METHOD *EC_GROUP_method_of(const EC_GROUP *g) { return (const EC_METHOD *)g; }
int EC_METHOD_get_field_type(const EC_METHOD *m) { return ((const EC_GROUP *)m)->field_type; }
int EC_GROUP_get_field_type(const EC_GROUP *g) { return g->field_type; }
int EC_GROUP_get_degree(const EC_GROUP *g) { return g->degree; }
int EC_GROUP_order_bits(const EC_GROUP *g) { return bv_bits(g->order); }
int EC_GROUP_get_order(const EC_GROUP *g, BIGNUM *n, BN_CTX *c) { LIBFAIL(0); n->v = g->order; n->neg = 0; return 1; }
static BIGNUM ORDER_BN;
const BIGNUM *EC_GROUP_get0_order(const EC_GROUP *g) { ORDER_BN.v = g->order; return &ORDER_BN; }
static int get_curve(const EC_GROUP *g, BIGNUM *p, BIGNUM *a, BIGNUM *b)
{ LIBFAIL(0); if (p) { p->v = g->p; p->neg = 0; } if (a) { a->v = g->a; a->neg = 0; } if (b) { b->v = g->b; b->neg = 0; } return 1; }
int EC_GROUP_get_curve_GF2m(const EC_GROUP *g, BIGNUM *p, BIGNUM *a, BIGNUM *b, BN_CTX *c) { return get_curve(g, p, a, b); }
int EC_GROUP_get_curve(const EC_GROUP *g, BIGNUM *p, BIGNUM *a, BIGNUM *b, BN_CTX *c) { return get_curve(g, p, a, b); }
#ifndef OWN_EC_POINT
EC_POINT *EC_POINT_new(const EC_GROUP *g) { LIBFAIL(NULL); LIVE++; EC_POINT *q = malloc(sizeof *q); __CPROVER_assume(q != NULL); q->id = 0; return q; }
void EC_POINT_free(EC_POINT *q) { if (q) { LIVE--; free(q); } }
void EC_POINT_clear_free(EC_POINT *q) { EC_POINT_free(q); }
u64v __CPROVER_uninterpreted_lincomb(bv, u64v, bv); u64v __CPROVER_uninterpreted_mulg(bv);
bv __CPROVER_uninterpreted_xcoord(u64v); _Bool __CPROVER_uninterpreted_isinf(u64v);
int EC_POINT_mul(const EC_GROUP *g, EC_POINT *r, const BIGNUM *n, const EC_POINT *q, const BIGNUM *m, BN_CTX *c)
{ LIBFAIL(0); CALLPRE(n || (q && m), "EC_POINT_mul: some operand"); CALLPRE(!n || !n->neg, "model: non-negative scalar");
  if (q && m) r->id = __CPROVER_uninterpreted_lincomb(n ? n->v : (bv)0, q->id, m->v); else r->id = __CPROVER_uninterpreted_mulg(n->v); return 1; }
int EC_POINT_is_at_infinity(const EC_GROUP *g, const EC_POINT *q) { return __CPROVER_uninterpreted_isinf(q->id); }
static int get_aff(const EC_GROUP *g, const EC_POINT *q, BIGNUM *x, BIGNUM *y)
{ LIBFAIL(0); if (__CPROVER_uninterpreted_isinf(q->id)) { return 0; } if (x) { x->v = __CPROVER_uninterpreted_xcoord(q->id); x->neg = 0; } if (y) y->v = nd_uint(); return 1; }
int EC_POINT_get_affine_coordinates_GF2m(const EC_GROUP *g, const EC_POINT *q, BIGNUM *x, BIGNUM *y, BN_CTX *c) { return get_aff(g, q, x, y); }
int EC_POINT_get_affine_coordinates(const EC_GROUP *g, const EC_POINT *q, BIGNUM *x, BIGNUM *y, BN_CTX *c) { return get_aff(g, q, x, y); }
#endif
/* error queue */
void ERR_DSTU_error(int f, int r, char *file, int line) { }
#endif
