/* Native replay/search support: the real code, the real libcrypto, executable specs. */
#ifndef NAT_H
#define NAT_H
#define _GNU_SOURCE
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <time.h>
#include <unistd.h>
#include "gost_spec.h"

static uint64_t nat_s = 88172645463325252ull;
static uint64_t rnd(void) { nat_s ^= nat_s << 13; nat_s ^= nat_s >> 7; nat_s ^= nat_s << 17; return nat_s * 0x2545F4914F6CDD1Dull; }
static uint32_t rn(uint32_t n) { return n ? (rnd() >> 32) % n : 0; }
/* random bytes biased to edge values */
static void rbytes(void *p, size_t n)
{
    uint8_t *b = p; uint32_t m = rn(8);
    for (size_t i = 0; i < n; i++) b[i] = m == 0 ? 0 : m == 1 ? 0xff : m == 2 ? (rn(4) ? 0 : rnd() >> 56) : (uint8_t)(rnd() >> 56);
}
static long nat_cases; static double nat_budget = 10; static struct timespec nat_t0;
static const char *nat_cex;
static double nat_now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (t.tv_sec - nat_t0.tv_sec) + 1e-9 * (t.tv_nsec - nat_t0.tv_nsec); }
static int more(void) { nat_cases++; return nat_now() < nat_budget; }
static void hexs(const char *n, const void *p, size_t l)
{ const uint8_t *b = p; printf("  %s=", n); for (size_t i = 0; i < l && i < 256; i++) printf("%02x", b[i]); printf(l > 256 ? "...\n" : "\n"); }
static void fail(const char *fmt, ...)
{ va_list a; va_start(a, fmt); printf("NATIVE FAIL "); vprintf(fmt, a); printf("\n"); va_end(a); }
#define DIE() do { fflush(stdout); _exit(1); } while (0)
/* counterexample values: lines NAME=VALUE (hex for arrays, decimal otherwise) */
static int cex_get(const char *name, char *buf, size_t cap)
{
    FILE *f; char line[20000]; int ok = 0;
    if (!nat_cex || !(f = fopen(nat_cex, "r"))) return 0;
    while (fgets(line, sizeof line, f)) {
        char *e = strchr(line, '='); if (!e) continue; *e = 0;
        if (!strcmp(line, name)) { line[strcspn(e + 1, "\n") + (e + 1 - line)] = 0; snprintf(buf, cap, "%s", e + 1); ok = 1; break; }
    }
    fclose(f); return ok;
}
static int cex_hex(const char *name, void *out, size_t n)
{
    char b[20000]; if (!cex_get(name, b, sizeof b)) return 0;
    uint8_t *o = out; memset(o, 0, n);
    for (size_t i = 0; i < n && b[2 * i] && b[2 * i + 1]; i++) { unsigned v; if (sscanf(b + 2 * i, "%2x", &v) != 1) return 0; o[i] = v; }
    return 1;
}
static long long cex_int(const char *name, long long dflt) { char b[64]; return cex_get(name, b, sizeof b) ? strtoll(b, 0, 0) : dflt; }
static void nat_init(int argc, char **argv)
{
    clock_gettime(CLOCK_MONOTONIC, &nat_t0);
    for (int i = 1; i + 1 < argc; i += 2) {
        if (!strcmp(argv[i], "--seed")) nat_s ^= strtoull(argv[i + 1], 0, 0) * 0x9E3779B97F4A7C15ull;
        if (!strcmp(argv[i], "--budget")) nat_budget = atof(argv[i + 1]);
        if (!strcmp(argv[i], "--cex")) nat_cex = argv[i + 1];
    }
    for (int i = 0; i < 20; i++) rnd();
}
static int nat_done(void) { printf("NATIVE OK cases=%ld\n", nat_cases); return 0; }
/* run the cases in n processes; fails when one of them fails or dies */
#include <sys/wait.h>
#include <sys/prctl.h>
#include <signal.h>
static void nat_par(int n)
{
    fflush(stdout);
    for (int i = 0; i < n; i++) if (fork() == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); nat_s ^= (i + 1) * 0xD1B54A32D192ED03ull; for (int j = 0; j < 20; j++) rnd(); return; }
    int st, bad = 0; while (wait(&st) > 0) bad |= st != 0;
    _exit(bad != 0);
}
static void rand_sbox(spec_sbox *s)
{ for (int r = 0; r < 8; r++) { for (int i = 0; i < 16; i++) s->row[r][i] = i; if (rn(4) == 0) for (int i = 0; i < 16; i++) s->row[r][i] = rn(16); else for (int i = 15; i > 0; i--) { int j = rn(i + 1); uint8_t t = s->row[r][i]; s->row[r][i] = s->row[r][j]; s->row[r][j] = t; } } }
#ifdef GOST89_H
#endif
#define SBOX_TO_BLOCK(s, b) do { memcpy((b)->k1, (s)->row[0], 16); memcpy((b)->k2, (s)->row[1], 16); memcpy((b)->k3, (s)->row[2], 16); memcpy((b)->k4, (s)->row[3], 16); \
  memcpy((b)->k5, (s)->row[4], 16); memcpy((b)->k6, (s)->row[5], 16); memcpy((b)->k7, (s)->row[6], 16); memcpy((b)->k8, (s)->row[7], 16); } while (0)

/* engine, bound statically from /repo's sources */
#ifdef NAT_ENGINE
#include <openssl/engine.h>
#include <openssl/evp.h>
#include <openssl/err.h>
int bind_engine(ENGINE *e, const char *id, const dynamic_fns *fns);
static ENGINE *nat_engine(void)
{
    static ENGINE *e;
    if (e) return e;
    dynamic_fns f; memset(&f, 0, sizeof f); f.static_state = ENGINE_get_static_state();
    e = ENGINE_new();
    if (!bind_engine(e, "dstu", &f)) { fail("engine does not bind"); DIE(); }
    if (!ENGINE_init(e)) { fail("engine does not initialise"); DIE(); }
    ENGINE_set_default(e, ENGINE_METHOD_ALL & ~ENGINE_METHOD_RAND);
    return e;
}
#endif
#endif
