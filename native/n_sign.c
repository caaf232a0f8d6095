/* dstu_do_sign: every signature is valid under the reference, whatever the hash, and uses a fresh full-range ephemeral. */
#include "nat_ec.h"
#include "sign.h"
#include "nat_oom.h"
#include <openssl/rand.h>
#include <signal.h>
static char WHAT[200];
static void onalarm(int s) { char m[300]; int l = snprintf(m, sizeof m, "NATIVE FAIL signing does not terminate: %s\n", WHAT); if (write(1, m, l)) {} _exit(1); }
/* a random source that fails at one call */
static long RCALL, RFAIL; static FILE *UR;
static int r_bytes(unsigned char *b, int n) { if (++RCALL == RFAIL) return 0; return fread(b, 1, n, UR) == (size_t)n; }
/* a random source whose every answer is odd: no ephemeral key is zero */
static long OCALL; static int r_odd(unsigned char *b, int n) { if (++OCALL > 3000 || fread(b, 1, n, UR) != (size_t)n) return 0; if (n > 0) b[n - 1] |= 1; return 1; }
static int r_status(void) { return 1; }
static RAND_METHOD RO = { NULL, r_odd, NULL, NULL, r_odd, r_status };
static RAND_METHOD RM = { NULL, r_bytes, NULL, NULL, r_bytes, r_status };
int main(int argc, char **argv)
{
    oom_setup(); nat_init(argc, argv); ec_init(1); UR = fopen("/dev/urandom", "rb"); signal(SIGALRM, onalarm);
    { EC_KEY *k = EC_KEY_new(); uint8_t z[64] = {1}, o[200]; if (dstu_do_sign(k, z, 32, o)) { fail("a key without a group signs"); DIE(); } EC_KEY_set_group(k, GRP[0]); if (dstu_do_sign(k, z, 32, o)) { fail("a key without a private key signs"); DIE(); } EC_KEY_free(k);
      k = EC_KEY_new_by_curve_name(NID_X9_62_prime256v1); EC_KEY_generate_key(k); if (dstu_do_sign(k, z, 32, o)) { fail("a key on a prime curve signs"); DIE(); } EC_KEY_free(k); ERR_clear_error(); }
    static long hi[16], lo[16], odd[16], tot[16], mid[16]; static BIGNUM *last[16][64];
    while (more()) {
        int cn = curve_pick(); EC_GROUP *g = GRP[cn]; const BIGNUM *n = EC_GROUP_get0_order(g); int fs = BN_num_bytes(n), deg = EC_GROUP_get_degree(g);
        BIGNUM *d = BN_new(), *e = BN_new(), *t = BN_new(); BN_CTX *c = BN_CTX_new(); rnd_scalar(d, n); EC_KEY *k = mk_ec(g, d); uint8_t h[64]; int hl = rnd_hash(h, deg);
        uint8_t *sig = malloc(2 * fs), *hx = malloc(hl); memcpy(hx, h, hl); memset(sig, 0xA5, 2 * fs);
        snprintf(WHAT, sizeof WHAT, "curve %d (degree %d), hash of %d bytes %02x%02x..%02x", cn, deg, hl, h[0], h[1], hl ? h[hl - 1] : 0);
        alarm(60); int ok = dstu_do_sign(k, hx, hl, sig); alarm(0);
        BIGNUM *s = BN_bin2bn(sig, fs, NULL), *r = BN_bin2bn(sig + fs, fs, NULL);
        if (!ok && cn < 10) { fail("signing fails on curve %d, hash of %d bytes", cn, hl); hexs("hash", h, hl); bnp("d", d); DIE(); }
        if (cn >= 10) { int nb = BN_num_bits(n); if (nb >= 5 && (BN_is_bit_set(n, nb - 2) || BN_is_bit_set(n, nb - 3))) { uint8_t *s2 = malloc(2 * fs); /* a small group: the retries are frequent, and signing still succeeds */
            OCALL = 0; alarm(60); RAND_set_rand_method(&RO); int q = dstu_do_sign(k, hx, hl, s2); RAND_set_rand_method(NULL); alarm(0);
            if (!q && OCALL < 3000) { fail("signing fails on a small curve of order %d bits with a non-zero ephemeral key", nb); hexs("hash", h, hl); bnp("d", d); DIE(); } free(s2); } }
        if (ok) {
            if (!sp_verify(g, EC_KEY_get0_public_key(k), h, hl, r, s)) { fail("invalid signature on curve %d (order of %d bits), hash of %d bytes", cn, BN_num_bits(n), hl); hexs("hash", h, hl); bnp("d", d); bnp("r", r); bnp("s", s); DIE(); }
            if (memcmp(hx, h, hl) || BN_cmp(EC_KEY_get0_private_key(k), d)) { fail("signing changes its inputs"); DIE(); }
            BN_mod_mul(t, d, r, n, c); BN_mod_sub(e, s, t, n, c);
            if (cn < 10) {
                long i = tot[cn]++; BN_lshift1(t, e); if (BN_cmp(t, n) > 0) hi[cn]++; else lo[cn]++; if (BN_is_odd(e)) odd[cn]++; if (BN_is_bit_set(e, BN_num_bits(n) / 2)) mid[cn]++;
                for (int j = 0; j < 64; j++) if (last[cn][j] && !BN_cmp(last[cn][j], e)) { fail("the ephemeral key repeats on curve %d", cn); bnp("e", e); DIE(); }
                if (last[cn][i % 64]) BN_free(last[cn][i % 64]); last[cn][i % 64] = BN_dup(e);
                if (BN_num_bits(e) + 50 < BN_num_bits(n)) { fail("the ephemeral key is short (%d of %d bits)", BN_num_bits(e), BN_num_bits(n)); DIE(); }
            }
        }
        if (cn < 10 && rn(3) == 0) { /* the random source fails at one call: no signature, or one whose ephemeral was still drawn at random */
            BIGNUM *f[2] = {0}; int at = 1 + rn(rn(2) ? 1 : 4);
            for (int i = 0; i < 2; i++) { RCALL = 0; RFAIL = at; RAND_set_rand_method(&RM); int q = dstu_do_sign(k, hx, hl, sig); RAND_set_rand_method(NULL); if (RCALL < at || !q) continue;
                BN_bin2bn(sig, fs, s); BN_bin2bn(sig + fs, fs, r); if (!sp_verify(g, EC_KEY_get0_public_key(k), h, hl, r, s)) { fail("an invalid signature when the random source fails"); DIE(); } BN_mod_mul(t, d, r, n, c); f[i] = BN_new(); BN_mod_sub(f[i], s, t, n, c); }
            if (f[0] && f[1] && !BN_cmp(f[0], f[1])) { bnp("e", f[0]); fail("when the random source fails at call %d, two signatures have the same ephemeral", at); DIE(); } BN_free(f[0]); BN_free(f[1]); ERR_clear_error(); }
        if (cn < 10 && rn(4) == 0) { oom_arm(1 + rn(60), rn(2)); int q = dstu_do_sign(k, hx, hl, sig); oom_off(); ERR_clear_error(); if (q) { BN_bin2bn(sig, fs, s); BN_bin2bn(sig + fs, fs, r); if (!sp_verify(g, EC_KEY_get0_public_key(k), h, hl, r, s)) { fail("an invalid signature under memory shortage"); DIE(); } } }
        free(sig); free(hx); BN_free(d); BN_free(e); BN_free(t); BN_free(r); BN_free(s); BN_CTX_free(c); EC_KEY_free(k); ERR_clear_error();
    }
    for (int i = 0; i < 10; i++) if (tot[i] > 80 && (!hi[i] || !lo[i] || !odd[i] || odd[i] == tot[i] || !mid[i] || mid[i] == tot[i])) { fail("the ephemeral key does not cover the range of the order (curve %d, %ld signatures, %ld in the upper half, %ld odd)", i, tot[i], hi[i], odd[i]); DIE(); }
    return nat_done();
}
