/* Allocation faults: libcrypto's allocator refuses one allocation, or every one from some point on. */
static long oom_at = -1, oom_n; static int oom_all, oom_hit; static int oom_on;
static int oom_refuse(void) { if (!oom_on) return 0; oom_n++; if (oom_n == oom_at || (oom_all && oom_n > oom_at)) { oom_hit = 1; return 1; } return 0; }
static void *oom_m(size_t n, const char *f, int l) { if (oom_refuse()) return NULL; return malloc(n); }
static void *oom_r(void *p, size_t n, const char *f, int l) { if (oom_refuse()) return NULL; return realloc(p, n); }
static void oom_f(void *p, const char *f, int l) { free(p); }
static void oom_setup(void) { if (!CRYPTO_set_mem_functions(oom_m, oom_r, oom_f)) { printf("NATIVE no fault injection\n"); } }
static void oom_arm(long at, int all) { oom_at = at; oom_all = all; oom_n = 0; oom_hit = 0; oom_on = 1; }
static int oom_off(void) { oom_on = 0; return oom_hit; }
/* live allocations of libcrypto's allocator, for leak checks of repeated operations */
static long live_n;
static void *cnt_m(size_t n, const char *f, int l) { if (oom_refuse()) return NULL; void *p = malloc(n); if (p) live_n++; return p; }
static void *cnt_r(void *p, size_t n, const char *f, int l) { if (oom_refuse()) return NULL; if (!p) live_n++; else if (!n) live_n--; return realloc(p, n); }
static void cnt_f(void *p, const char *f, int l) { if (p) live_n--; free(p); }
static int cnt_setup(void) { return CRYPTO_set_mem_functions(cnt_m, cnt_r, cnt_f); }
/* run op 30 times: a leak of at least one block in every run shows */
#define LEAKS(...) ({ for (int i_ = 0; i_ < 18; i_++) { __VA_ARGS__; ERR_clear_error(); } long l_ = live_n; for (int i_ = 0; i_ < 30; i_++) { __VA_ARGS__; ERR_clear_error(); } live_n - l_ >= 30; })
