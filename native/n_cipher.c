/* Setting up the cipher: random histories of init calls, S-box changes, parameters and data, against an executable model. */
#define NAT_ENGINE
#include "nat.h"
#include "nat_oom.h"
#include "params.h"
#include "control.h"
#include <openssl/obj_mac.h>
#include <openssl/x509.h>
#include <openssl/pkcs12.h>
#define B(x) do { fail x; for (int z_ = 0; z_ < nlog; z_++) printf("  %s\n", logs[z_]); DIE(); } while (0)
static char logs[64][80]; static int nlog; 
#define LOG(...) do { if (nlog < 64) snprintf(logs[nlog++], 80, __VA_ARGS__); } while (0)
static void to_spec(const uint8_t *p, spec_sbox *s) { for (int r = 0; r < 8; r++) for (int i = 0; i < 16; i++) s->row[r][i] = i & 1 ? p[8 * r + i / 2] & 15 : p[8 * r + i / 2] >> 4; }
typedef struct { uint8_t key[32], iv[8], sb[64]; int enc; uint8_t *in; int n; } M;      /* the stream so far */
static EVP_CIPHER_CTX *C; static const EVP_CIPHER *CI;
static void data(EVP_CIPHER_CTX *c, M *m)
{
    int l = 1 + rn(rn(3) ? 12 : 60), o = -1; uint8_t ib[64], ob[64], want[8000]; rbytes(ib, l); m->in = realloc(m->in, m->n + l); memcpy(m->in + m->n, ib, l); m->n += l; if (m->n > 7000) return; spec_sbox s; to_spec(m->sb, &s); LOG("%d bytes", l);
    if (!EVP_CipherUpdate(c, ob, &o, ib, l) || o != l) B(("update")); spec_cfb(&s, m->key, m->iv, m->in, want, m->n, !m->enc); if (memcmp(want + m->n - l, ob, l)) { hexs("want", want + m->n - l, l); hexs("got", ob, l); B(("wrong data %s at byte %d of the stream", m->enc ? "encrypting" : "decrypting", m->n - l)); }
}
static int params_of(EVP_CIPHER_CTX *c, uint8_t *out)
{ ASN1_TYPE *t = ASN1_TYPE_new(); if (!t) return -1; int n = EVP_CIPHER_param_to_asn1(c, t); if (n <= 0) { ASN1_TYPE_free(t); return -1; } unsigned char *d = NULL; n = i2d_ASN1_TYPE(t, &d); if (n > 0 && n < 200 && d) memcpy(out, d, n); OPENSSL_free(d); ASN1_TYPE_free(t); return n; }
static int set_params(EVP_CIPHER_CTX *c, const uint8_t *p, int n)
{ const unsigned char *q = p; ASN1_TYPE *t = d2i_ASN1_TYPE(NULL, &q, n); if (!t) return -9; int r = EVP_CIPHER_asn1_to_param(c, t); ASN1_TYPE_free(t); return r; }
int main(int argc, char **argv)
{
    cnt_setup(); nat_init(argc, argv); nat_engine(); CI = ENGINE_get_cipher(nat_engine(), NID_dstu28147_cfb);
    if (EVP_CIPHER_get_nid(CI) != NID_dstu28147_cfb || EVP_CIPHER_get_block_size(CI) != 1 || EVP_CIPHER_get_key_length(CI) != 32 || EVP_CIPHER_get_iv_length(CI) != 8 || EVP_CIPHER_get_mode(CI) != EVP_CIPH_CFB_MODE) B(("method"));
    while (more()) {
        M m; memset(&m, 0, sizeof m); memcpy(m.sb, default_sbox, 64); nlog = 0; C = EVP_CIPHER_CTX_new(); m.enc = rn(2); uint8_t p[200], w[78]; int haskey = 0;
        { int a = rn(4); uint8_t k[32], v[8]; rbytes(k, 32); rbytes(v, 8); LOG("first init %d", a); if (!EVP_CipherInit_ex(C, CI, nat_engine(), a & 1 ? k : NULL, a & 2 ? v : NULL, m.enc)) B(("init")); if (a & 1) { memcpy(m.key, k, 32); haskey = 1; } if (a & 2) memcpy(m.iv, v, 8); }
        for (int st = rn(12); st >= 0; st--) {
            int op = rn(8); uint8_t k[32], v[8], s[64]; rbytes(k, 32); rbytes(v, 8); rbytes(s, 64);
            if (op == 0) { int a = rn(4); if (a == 0 && !haskey) a = 1; LOG("init %s%s", a & 1 ? "key " : "", a & 2 ? "iv" : ""); int flip = a && rn(3) == 0; if (flip) m.enc = !m.enc; if (!EVP_CipherInit_ex(C, rn(2) ? CI : NULL, rn(2) ? nat_engine() : NULL, a & 1 ? k : NULL, a & 2 ? v : NULL, m.enc)) B(("init")); if (a & 1) { memcpy(m.key, k, 32); haskey = 1; } if (a & 2) memcpy(m.iv, v, 8); if (a) m.n = 0; }
            else if (op == 1) { LOG("S-box"); if (EVP_CIPHER_CTX_ctrl(C, DSTU_SET_CUSTOM_SBOX, 64, s) != 1) B(("S-box refused")); memcpy(m.sb, s, 64); m.n = 0; }
            else if (op == 2) { int l = rn(130); if (l == 64) l = 65; if (EVP_CIPHER_CTX_ctrl(C, DSTU_SET_CUSTOM_SBOX, l, s) > 0) B(("S-box of %d bytes accepted", l)); if (EVP_CIPHER_CTX_ctrl(C, DSTU_SET_CUSTOM_SBOX, 64, NULL) > 0) B(("no S-box accepted")); LOG("bad S-box"); }
            else if (op == 3) { int n = params_of(C, p); memcpy(w, "\x30\x4c\x04\x08", 4); memcpy(w + 4, m.iv, 8); w[12] = 4; w[13] = 64; memcpy(w + 14, m.sb, 64); LOG("get parameters"); if (n != 78 || memcmp(p, w, 78)) { hexs("want", w, 78); hexs("got", p, n > 0 ? n : 0); B(("parameters are not IV and S-box")); } }
            else if (op == 4) { memcpy(w, "\x30\x4c\x04\x08", 4); memcpy(w + 4, v, 8); w[12] = 4; w[13] = 64; memcpy(w + 14, s, 64); int bad = rn(3) == 0, n = 78; uint8_t x[400]; memcpy(x, w, 78);
                if (bad) { int b = rn(8); if (b == 6) { x[rn(2) ? 3 : 13] ^= 1 + rn(255); } else if (b == 7) { x[rn(2) ? 2 : 12] ^= 1 << rn(8); } else if (b == 0) { x[2] = 5; } else if (b == 1) { x[12] = rn(2) ? 3 : 0x24; } else if (b == 2) { x[3] = 7; x[1] = 75; memcpy(x + 11, w + 12, 66); n = 77; } else if (b == 3) { x[13] = 63; x[1] = 75; n = 77; } else if (b == 4) { x[0] = 4; } else { x[3] = 9; x[1] = 77; x[12] = 1; memcpy(x + 13, w + 12, 66); n = 79; } }
                LOG("%s parameters", bad ? "bad" : "set"); int r = set_params(C, x, n); if (bad ? r > 0 : r <= 0) B(("parameters %s", bad ? "that are malformed are accepted" : "refused")); if (!bad) { memcpy(m.iv, v, 8); memcpy(m.sb, s, 64); m.n = 0; } ERR_clear_error(); }
            else if (op == 5 && haskey) { LOG("copy"); EVP_CIPHER_CTX *c2 = EVP_CIPHER_CTX_new(); if (!EVP_CIPHER_CTX_copy(c2, C)) B(("copy")); EVP_CIPHER_CTX_free(C); C = c2; }
            else if (haskey) data(C, &m);
        }
        if (!haskey) { uint8_t k[32]; rbytes(k, 32); LOG("key at the end"); EVP_CipherInit_ex(C, NULL, NULL, k, NULL, m.enc); memcpy(m.key, k, 32); m.n = 0; }
        data(C, &m); { int nid = 0; if (EVP_CIPHER_CTX_ctrl(C, EVP_CTRL_PBE_PRF_NID, 0, &nid) != 1 || nid != NID_hmacWithDstu34311) B(("PBE function")); if (EVP_CIPHER_CTX_ctrl(C, 9999, 0, NULL) > 0) B(("unknown request accepted")); }
        /* the other side: a context set up from the parameters, key before or after */
        { int n = params_of(C, p); EVP_CIPHER_CTX *d = EVP_CIPHER_CTX_new(); M m2 = m; m2.enc = !m.enc; m2.in = NULL; m2.n = 0; int first = rn(2); EVP_CipherInit_ex(d, CI, nat_engine(), first ? m.key : NULL, NULL, m2.enc); if (set_params(d, p, n) <= 0) B(("own parameters refused")); LOG("from parameters, key %s", first ? "first" : "after"); if (!first) EVP_CipherInit_ex(d, NULL, NULL, m.key, NULL, m2.enc); data(d, &m2); data(d, &m2); free(m2.in); EVP_CIPHER_CTX_free(d); }
        EVP_CIPHER_CTX_free(C); free(m.in); ERR_clear_error();
        if (nat_cases % 50 == 1) { C = EVP_CIPHER_CTX_new(); uint8_t k[32] = {1}, v[8] = {2}; EVP_CipherInit_ex(C, CI, nat_engine(), k, v, 1); if (LEAKS({ int n = params_of(C, p); set_params(C, p, n); })) B(("parameters leak")); oom_arm(1 + rn(4), rn(2)); int n = params_of(C, p); oom_off(); if (n > 0 && (n != 78 || memcmp(p + 4, v, 8))) B(("parameters after a refused allocation")); EVP_CIPHER_CTX_free(C); ERR_clear_error(); }
    }
    return nat_done();
}
