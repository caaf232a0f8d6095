/* The random bit generator against an executable specification: seeded by a stand-in for the library's generator,
 * with a fixed clock, random request sizes, failing seeds and locks, cleanup and reuse, and threads. */
#include "nat.h"
#include <openssl/rand.h>
#include <openssl/crypto.h>
#include <pthread.h>
#include "params.h"
extern RAND_METHOD dstu_rand_meth;
#define B(x) do { fail x; DIE(); } while (0)
static uint8_t SEED[64]; static int SEED_N, SEED_OK = 1, RSTAT = 1, NSEED, NADD, ADDN; static const void *ADDB; static time_t NOW; static int LOCKMODE, LOCKS, LIVE_L, LOCKFAILED; static pthread_mutex_t MU[64]; static pthread_mutex_t G = PTHREAD_MUTEX_INITIALIZER; static int NMU; static char STATE[64]; static volatile int HELD;
static int o_bytes(unsigned char *b, int n) { NSEED++; SEED_N = n; if (!SEED_OK) return 0; if (n > 64) B(("seed of %d bytes", n)); memcpy(b, SEED, n); return 1; }
static int o_status(void) { return RSTAT; }
static int o_seed(const void *b, int n) { NADD++; ADDB = b; ADDN = n; return 1; }
static int o_add(const void *b, int n, double e) { NADD++; ADDB = b; ADDN = n; return 1; }
static RAND_METHOD OM = { o_seed, o_bytes, NULL, o_add, o_bytes, o_status };
RAND_METHOD *RAND_OpenSSL(void) { return &OM; }
time_t time(time_t *t) { if (t) *t = NOW; return NOW; }
CRYPTO_RWLOCK *CRYPTO_THREAD_lock_new(void) { if (LOCKMODE == 1) { LOCKFAILED = 1; return NULL; } LIVE_L++; int i = NMU++ % 64; pthread_mutex_init(&MU[i], NULL); STATE[i] = 1; return (CRYPTO_RWLOCK *)&MU[i]; }
static int idx(CRYPTO_RWLOCK *l) { int i = (pthread_mutex_t *)l - MU; if (!l || i < 0 || i >= 64 || STATE[i] != 1) B(("a lock that does not exist is used")); return i; }
int CRYPTO_THREAD_write_lock(CRYPTO_RWLOCK *l) { idx(l); if (LOCKMODE == 2) { LOCKFAILED = 1; return 0; } pthread_mutex_lock((pthread_mutex_t *)l); HELD = 1; return 1; }
int CRYPTO_THREAD_unlock(CRYPTO_RWLOCK *l) { idx(l); if (!HELD) B(("a lock that is not held is released")); HELD = 0; pthread_mutex_unlock((pthread_mutex_t *)l); return 1; }
void CRYPTO_THREAD_lock_free(CRYPTO_RWLOCK *l) { if (l) { STATE[idx(l)] = 2; LIVE_L--; } }
/* executable specification */
static spec_sbox DEF; typedef struct { uint8_t key[32]; uint64_t I, s; } G_;
static uint64_t enc(G_ *g, uint64_t x) { uint8_t b[8]; for (int i = 0; i < 8; i++) b[i] = x >> (8 * i); spec_block(&DEF, g->key, b, b, 0); uint64_t r = 0; for (int i = 0; i < 8; i++) r |= (uint64_t)b[i] << (8 * i); return r; }
static uint64_t ld(const uint8_t *p) { uint64_t r = 0; for (int i = 0; i < 8; i++) r |= (uint64_t)p[i] << (8 * i); return r; }
static void g_init(G_ *g) { memcpy(g->key, SEED, 32); g->s = ld(SEED + 32); g->I = enc(g, (uint64_t)NOW); }
static void g_bytes(G_ *g, uint8_t *o, int n) { for (int i = 0; i < n; i++) { o[i] = 0; for (int j = 0; j < 8; j++) { uint64_t x = enc(g, g->I ^ g->s); g->s = enc(g, x ^ g->I); o[i] |= (x & 1) << j; } } }
#define TN 4
#define TC 12
static uint8_t TO[TN][TC][5];
static void *worker(void *a) { int t = *(int *)a; for (int i = 0; i < TC; i++) if (dstu_rand_meth.bytes(TO[t][i], 5) != 1) B(("thread gets nothing")); return NULL; }
int main(int argc, char **argv)
{
    nat_init(argc, argv); for (int r = 0; r < 8; r++) for (int i = 0; i < 16; i++) DEF.row[r][i] = i & 1 ? default_sbox[8 * r + i / 2] & 15 : default_sbox[8 * r + i / 2] >> 4;
    int dead = 0;
    while (more() && !dead) {
        rbytes(SEED, 64); NOW = rn(2) ? rnd() : 1700000000 + rn(1000000); SEED_OK = RSTAT = 1; LOCKMODE = 0; G_ g; int seeded = 0, n0; static uint8_t a[300], w[70000], q[4];
        for (int st = 1 + rn(12); st; st--) {
            int op = rn(10), n = rn(3) ? rn(20) : rn(60) ? rn(250) : rn(20) ? rn(5000) : nat_cases ? 66000 : 300;
            if (op < 5) { uint8_t *e = malloc(n + 1); e[n] = 0x5a; SEED_OK = rn(4) != 0; RSTAT = rn(6) != 0; LOCKMODE = rn(10) ? 0 : 2; LOCKFAILED = 0; n0 = NSEED; int r = (rn(2) ? dstu_rand_meth.bytes : dstu_rand_meth.pseudorand)(e, n); int lf = LOCKFAILED; LOCKMODE = 0; if (HELD) B(("the lock stays held"));
                if (lf) { if (r) B(("bytes without a lock")); }
                else if (!seeded && !(SEED_OK && RSTAT)) { if (r) B(("success without a seed (seeder ready %d, seed %d)", RSTAT, SEED_OK)); }
                else { if (r != 1) B(("a generator that can deliver fails")); if (!seeded) { g_init(&g); seeded = 1; if (NSEED != n0 + 1 || SEED_N != 40) B(("seeded %d times with %d bytes", NSEED - n0, SEED_N)); } else if (NSEED != n0) B(("seeded again")); g_bytes(&g, w, n); if (memcmp(w, e, n)) { hexs("want", w, n); hexs("got", e, n); B(("other bytes than the specified generator's")); } } if (e[n] != 0x5a) B(("overrun")); free(e); }
            else if (op == 5) { RSTAT = rn(2); SEED_OK = rn(3) != 0; LOCKMODE = rn(6) ? 0 : 2; LOCKFAILED = 0; int r = dstu_rand_meth.status(); LOCKMODE = 0; if (HELD) B(("the lock stays held")); if (LOCKFAILED) { if (r) B(("ready without a lock")); } else { if (!r != !(RSTAT && (seeded || SEED_OK))) B(("status %d: seeder %d seed %d seeded %d", r, RSTAT, SEED_OK, seeded)); if (r && !seeded) { seeded = 1; g_init(&g); } } }
            else if (op == 6) { dstu_rand_meth.cleanup(); if (HELD) B(("the lock stays held")); if (LIVE_L > 0) B(("the lock is not freed")); seeded = 0; rbytes(SEED, 64); NOW += 1; }
            else if (op == 7) { int k = rn(4); NADD = 0; if (dstu_rand_meth.seed(q, k) != 1 || NADD != 1 || ADDB != q || ADDN != k) B(("seed not forwarded")); if (dstu_rand_meth.add(q, k, 1.0) != 1 || NADD != 2 || ADDB != q || ADDN != k) B(("add not forwarded")); }
            else if (op == 8 && nat_cases % 8 == 0) { SEED_OK = RSTAT = 1; if (!seeded) { if (!dstu_rand_meth.status()) B(("status")); g_init(&g); seeded = 1; } pthread_t t[TN]; int id[TN]; for (int i = 0; i < TN; i++) { id[i] = i; pthread_create(&t[i], NULL, worker, &id[i]); } for (int i = 0; i < TN; i++) pthread_join(t[i], NULL);
                int nx[TN] = {0}; for (int c = 0; c < TN * TC; c++) { uint8_t ch[5]; g_bytes(&g, ch, 5); int f = 0; for (int i = 0; i < TN && !f; i++) if (nx[i] < TC && !memcmp(TO[i][nx[i]], ch, 5)) { nx[i]++; f = 1; } if (!f) B(("threads: chunk %d of the stream was given to nobody, or torn", c)); } }
        }
        /* leave it as found */
        LOCKMODE = 0; dstu_rand_meth.cleanup();
        if (rn(400) == 0 && nat_now() > nat_budget * 0.8) { /* no lock can be made at all: fails, does not crash; permanent, so last */
            LOCKMODE = 1; SEED_OK = RSTAT = 1; if (dstu_rand_meth.bytes(a, 8)) B(("bytes without a lock")); if (dstu_rand_meth.status()) B(("ready without a lock")); dstu_rand_meth.cleanup(); dead = 1; LOCKMODE = 0; }
    }
    return nat_done();
}
