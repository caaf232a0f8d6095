/* C18: the random bit generator (engine/rbg.c). */
#include "common.h"
#include <openssl/rand.h>
#include <openssl/crypto.h>
#include <openssl/evp.h>
#include "gost/gost89.h"
unsigned char default_sbox[64];
typedef struct { int held; } LK;
static int LOCK_LIVE, LOCK_FAIL, WIPED_SEED; static void *CUR_LOCK; static LK LOCKMEM; static int HELD, NLOCK;
CRYPTO_RWLOCK *CRYPTO_THREAD_lock_new(void) { if (nd_bool()) { LOCK_FAIL = 1; return NULL; } CALLPRE(LOCK_LIVE == 0, "a lock is made only while there is none"); LOCK_LIVE++; CUR_LOCK = &LOCKMEM; return CUR_LOCK; }
void CRYPTO_THREAD_lock_free(CRYPTO_RWLOCK *l) { if (l) { CALLPRE(l == CUR_LOCK && LOCK_LIVE == 1 && !HELD, "lock_free: the live lock, not held"); LOCK_LIVE = 0; CUR_LOCK = NULL; } }
int CRYPTO_THREAD_write_lock(CRYPTO_RWLOCK *l) { CALLPRE(l && l == CUR_LOCK && LOCK_LIVE == 1, "write_lock: a live lock"); CALLPRE(!HELD, "write_lock: not already held (the lock is not recursive)"); if (nd_bool()) { LOCK_FAIL = 1; return 0; } HELD = 1; NLOCK++; return 1; }
int CRYPTO_THREAD_unlock(CRYPTO_RWLOCK *l) { CALLPRE(l && l == CUR_LOCK && LOCK_LIVE == 1 && HELD, "unlock: a live lock that is held"); HELD = 0; return 1; }
int CRYPTO_THREAD_run_once(CRYPTO_ONCE *o, void (*f)(void)) { if (nd_bool()) { LOCK_FAIL = 1; return 0; } if (*o == CRYPTO_ONCE_STATIC_INIT) { *o = 2; f(); } return 1; }
void OPENSSL_cleanse(void *p, size_t n) { CALLPRE(__CPROVER_w_ok(p, n), "OPENSSL_cleanse: memory"); if (n == 40) WIPED_SEED++; u8 *b = p; for (size_t i = 0; i < n && i < 40; i++) b[i] = 0; if (n > 40) { __CPROVER_array_set((char *)p, 0); } }
/* the library's own generator is the seeder */
static int SEED_OK, NSEED, RSTAT, NADD; static u8 SEED[40]; static const void *ADD_B; static int ADD_N; static double ADD_E; static int RETV;
static int o_bytes(unsigned char *b, int n) { CALLPRE(n >= 0 && n <= 40 && __CPROVER_w_ok(b, n), "seeding: at most 40 bytes of room"); NSEED++; SEED_OK = nd_bool(); if (!SEED_OK) return 0; for (int i = 0; i < 40; i++) if (i < n) { SEED[i] = nd_u8(); b[i] = SEED[i]; } return 1; }
static int o_status(void) { return RSTAT; }
static int o_seed(const void *b, int n) { NADD++; ADD_B = b; ADD_N = n; ADD_E = -1; return RETV; }
static int o_add(const void *b, int n, double e) { NADD++; ADD_B = b; ADD_N = n; ADD_E = e; return RETV; }
static RAND_METHOD OM = { o_seed, o_bytes, NULL, o_add, o_bytes, o_status };
RAND_METHOD *RAND_OpenSSL(void) { return &OM; }
static u8 TIME8[8]; static int NTIME;
time_t time(time_t *t) { NTIME++; long v; if (t) { *t = v; memcpy(TIME8, t, 8); } return v; }
/* block cipher contracts (C01, C05) */
static u8 G_UNP_OK, G_INIT, G_KEYED; static const void *UNP_AT; static u8 G_KEY[32]; static int EPOCH; static void *OWN;
u64v __CPROVER_uninterpreted_E(int, u64v);
void unpack_sbox(unsigned char *p, gost_subst_block *u) { CALLPRE(p == default_sbox, "the generator uses the default S-box"); UNP_AT = u; }
void gost_init(gost_ctx *c, const gost_subst_block *b) { CALLPRE(c == OWN && b == UNP_AT && HELD, "gost_init: the generator's context, the default S-box, lock held"); G_INIT = 1; EPOCH++; }
void gost_key_nomask(gost_ctx *c, const byte *k) { CALLPRE(c == OWN && __CPROVER_r_ok(k, 32) && HELD, "gost_key_nomask: the generator's context, 32 bytes, lock held"); memcpy(G_KEY, k, 32); G_KEYED = 1; EPOCH++; }
void gost_key(gost_ctx *c, const byte *k) { CALLPRE(0, "keying the generator must not ask for random bytes"); }
void gostcrypt(gost_ctx *c, const byte *in, byte *out) { CALLPRE(c == OWN && __CPROVER_r_ok(in, 8) && __CPROVER_w_ok(out, 8) && HELD, "gostcrypt: the generator's context, blocks, lock held"); u64v r = __CPROVER_uninterpreted_E(EPOCH, LE64B(in)); for (int i = 0; i < 8; i++) out[i] = r >> (8 * i); }
static u64v NBIT; static int J, NUM; static u8 *BUFP; u8 __CPROVER_uninterpreted_bit(u64v);
#define BITN(n) (__CPROVER_uninterpreted_bit(n) & 1)
static u8 BYTEJ(void) { u8 r = 0; for (int j = 0; j < 8; j++) r |= BITN(8 * (u64v)J + j) << j; return r; }
#ifdef UNIT_BYTES
#undef DSTU_LOOP_HEAD_dstu_rbg_bytes
#define DSTU_LOOP_HEAD_dstu_rbg_bytes CUT(i < (unsigned)num && num == NUM && buf == BUFP && NBIT == 8 * (u64v)i && HELD && IMP(J < i, buf[J] == BYTEJ()), { i = nd_uint(); j = nd_u8(); NBIT = nd_u64(); buf[J] = nd_u8(); })
#endif
static u64v ld32(const u4 *p) { return (u64v)p[0] | (u64v)p[1] << 32; }
#include "rbg.c"
byte dstu_rbg_get_bit__contract(void) { CALLPRE(HELD, "a bit is drawn with the lock held"); byte b = BITN(NBIT); NBIT++; return b; }
static int NSTAT, STAT_RET;
int dstu_rbg_status_nolock__contract(void) { CALLPRE(HELD, "status is taken with the lock held"); NSTAT++; int r = nd_bool(); if (r) initialized = 1; STAT_RET = r; return r; }
static u64v I0, S0;
static void mk(void)
{
    OWN = &cryptor; HELD = LOCK_FAIL = NSEED = NADD = NTIME = WIPED_SEED = NLOCK = 0; initialized = nd_bool(); RSTAT = nd_bool(); RETV = nd_int(); EPOCH = nd_int(); REQUIRES(0 <= EPOCH && EPOCH < 100); for (int i = 0; i < 2; i++) { I[i] = nd_uint(); s[i] = nd_uint(); } I0 = ld32(I); S0 = ld32(s); NBIT = 0; NSTAT = 0;
    if (nd_bool()) { dstu_rand_lock = (CRYPTO_RWLOCK *)&LOCKMEM; CUR_LOCK = &LOCKMEM; LOCK_LIVE = 1; rand_lock_init = 2; } else { dstu_rand_lock = NULL; CUR_LOCK = NULL; LOCK_LIVE = 0; rand_lock_init = nd_bool() ? 2 : CRYPTO_ONCE_STATIC_INIT; LOCK_FAIL = rand_lock_init == 2; /* making the lock failed before */ }
    J = nd_int(); REQUIRES(0 <= J);
}
void h_bit(void)
{
    mk(); HELD = 1; u64v x = __CPROVER_uninterpreted_E(EPOCH, I0 ^ S0), t = __CPROVER_uninterpreted_E(EPOCH, x ^ I0); byte b = dstu_rbg_get_bit();
    ENSURES(b == (x & 1), "the bit is the low bit of the encrypted sum of state and date vector"); ENSURES(ld32(s) == t, "the state becomes the encryption of that block plus the date vector"); FRAME(ld32(I) == I0, "the date vector stays"); REACH("bit");
}
void h_bytes(void)
{
    mk(); NUM = nd_int(); REQUIRES(NUM >= 0); u8 *b = malloc((size_t)NUM + 1); REQUIRES(b != NULL); REQUIRES(J < NUM || NUM == 0); if (NUM == 0) J = 0; BUFP = b; u8 end = b[NUM], b0 = b[J]; int in0 = initialized;
    int r = dstu_rbg_bytes(b, NUM);
    ENSURES(r == 0 || r == 1, "drawing bytes answers 0 or 1"); ENSURES(IMP(r, !LOCK_FAIL && initialized), "success means the generator was seeded and the lock taken"); ENSURES(IMP(!LOCK_FAIL && in0, r == 1), "a seeded generator delivers"); ENSURES(IMP(!LOCK_FAIL && !in0, NSTAT >= 1 && r == STAT_RET), "an unseeded generator seeds first, and fails if that fails");
    ENSURES(IMP(r, NBIT == 8 * (u64v)NUM), "exactly eight bits are drawn for every byte"); ENSURES(IMP(r && NUM, b[J] == BYTEJ()), "byte J is bits 8J to 8J+7, low bit first"); ENSURES(!HELD, "the lock is released"); ENSURES(IMP(r, NLOCK == 1), "one request is served under one lock"); FRAME(b[NUM] == end, "nothing is written past the request"); REACH("bytes"); if (r) REACH("delivered");
}
void h_status(void)
{
    mk(); int in0 = initialized; int r = dstu_rbg_status();
    ENSURES(IMP(r, !LOCK_FAIL && RSTAT && initialized), "ready means the seeder is ready and the generator seeded"); ENSURES(IMP(!LOCK_FAIL && RSTAT && in0, r && !NSEED), "a seeded generator is ready and is not seeded again"); ENSURES(IMP(!LOCK_FAIL && RSTAT && !in0, NSEED == 1 && !r == !SEED_OK && !initialized == !SEED_OK), "an unseeded generator is seeded once, or not ready"); ENSURES(!HELD, "the lock is released"); REACH("status"); if (r && !in0) REACH("seeded");
}
void h_init(void)
{
    mk(); HELD = 1; initialized = 0; int k = nd_int(); REQUIRES(0 <= k && k < 32); G_KEYED = G_INIT = 0; int r = dstu_rbg_init(); u64v sw = LE64B(SEED + 32);
    ENSURES(!r == !SEED_OK && NSEED == 1, "seeding asks the library's generator once and fails with it"); ENSURES(IMP(!r, !initialized && !G_KEYED), "a failed seeding leaves the generator unseeded"); ENSURES(IMP(r, initialized && G_INIT && G_KEYED && G_KEY[k] == SEED[k] && ld32(s) == sw), "the key is the first 32 seed bytes and the state the last 8"); ENSURES(IMP(r, NTIME == 1 && ld32(I) == __CPROVER_uninterpreted_E(EPOCH, LE64B(TIME8))), "the date vector is the encrypted time"); ENSURES(IMP(r, WIPED_SEED == 1), "the seed is wiped"); REACH("init"); if (r) REACH("seeded");
}
void h_cleanup(void)
{
    mk(); int live = LOCK_LIVE; dstu_rbg_cleanup(); ENSURES(!HELD, "the lock is released"); ENSURES(IMP(!LOCK_FAIL, ld32(I) == 0 && ld32(s) == 0 && !initialized && LOCK_LIVE == 0), "cleanup wipes the state, leaves the generator unseeded and frees the lock"); if (!LOCK_FAIL) { REACH("cleaned"); LOCK_FAIL = 0; int r = dstu_rbg_status(); ENSURES(IMP(r, NSEED == 1 && SEED_OK && initialized), "a generator used after cleanup is seeded again"); ENSURES(!HELD, "the lock is released"); if (r) REACH("used again"); } REACH("cleanup");
}
void h_fwd(void)
{
    mk(); u8 b[4]; double e; int n = nd_int(); int r = dstu_rbg_add(b, n, e); ENSURES(NADD == 1 && ADD_B == b && ADD_N == n && r == RETV, "added entropy goes to the seeder"); r = dstu_rbg_seed(b, n); ENSURES(NADD == 2 && ADD_B == b && ADD_N == n && r == RETV, "a seed goes to the seeder");
    ENSURES(dstu_rand_meth.bytes == dstu_rbg_bytes && dstu_rand_meth.pseudorand == dstu_rbg_bytes && dstu_rand_meth.status == dstu_rbg_status && dstu_rand_meth.cleanup == dstu_rbg_cleanup && dstu_rand_meth.add == dstu_rbg_add && dstu_rand_meth.seed == dstu_rbg_seed, "the method table is the generator's"); REACH("fwd");
}
