#define NAT_ENGINE
#include "nat.h"
#include "params.h"
#include "gost/gost89.h"
#include <openssl/obj_mac.h>
static spec_sbox DEF;
static void def_sbox(void)
{ gost_subst_block b; unpack_sbox(default_sbox, &b); memcpy(DEF.row[0], b.k1, 16); memcpy(DEF.row[1], b.k2, 16); memcpy(DEF.row[2], b.k3, 16); memcpy(DEF.row[3], b.k4, 16);
  memcpy(DEF.row[4], b.k5, 16); memcpy(DEF.row[5], b.k6, 16); memcpy(DEF.row[6], b.k7, 16); memcpy(DEF.row[7], b.k8, 16); }
static int sizes(int left) { int c = rn(10), n = c < 5 ? 1 + rn(20) : c < 7 ? 8 * (1 + rn(12)) : c < 9 ? 1 + rn(200) : 1 + rn(3000); return n < left ? n : left; }
static void one(const uint8_t *key, const uint8_t *iv, int n, int dec, int inplace, int fixed)
{
    static int cuts[4096]; int nc = 0;
    uint8_t *in = malloc(n + 1), *want = malloc(n + 1), *got = malloc(n + 1);
    rbytes(in, n); spec_cfb(&DEF, key, iv, in, want, n, dec);
    EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new();
    if (!EVP_CipherInit_ex(c, ENGINE_get_cipher(nat_engine(), NID_dstu28147_cfb), nat_engine(), key, iv, !dec)) { fail("init"); DIE(); }
    for (int off = 0; off < n; ) {
        int l = fixed ? (fixed < n - off ? fixed : n - off) : sizes(n - off), o = -1;
        if (nc < 4096) cuts[nc++] = l;
        uint8_t *ib = malloc(l), *ob = inplace ? ib : malloc(l);          /* exact-size buffers: any overrun is an ASan error */
        memcpy(ib, in + off, l);
        if (!EVP_CipherUpdate(c, ob, &o, ib, l) || o != l) { fail("update returned %d for %d bytes", o, l); DIE(); }
        if (!inplace && memcmp(ib, in + off, l)) { fail("input modified"); DIE(); }
        memcpy(got + off, ob, l);
        if (!inplace) free(ob);
        free(ib); off += l;
    }
    int o = 0; uint8_t fin[16]; EVP_CipherFinal_ex(c, fin, &o);
    if (o) { fail("final emits %d bytes", o); DIE(); }
    if (memcmp(got, want, n)) {
        int k = 0; while (got[k] == want[k]) k++;
        fail("CFB %s differs at byte %d of %d (in place %d)", dec ? "decryption" : "encryption", k, n, inplace);
        printf("  cuts:"); for (int i = 0; i < nc && i < 200; i++) printf(" %d", cuts[i]); printf("\n");
        hexs("key", key, 32); hexs("iv", iv, 8); hexs("in", in, n); hexs("want", want, n); hexs("got", got, n); DIE();
    }
    EVP_CIPHER_CTX_free(c); free(in); free(want); free(got);
}
int main(int argc, char **argv)
{
    nat_init(argc, argv); def_sbox(); nat_engine();
    uint8_t key[32], iv[8];
    for (int n = 1; n <= 40; n++) for (int f = 1; f <= 17; f++) for (int m = 0; m < 4; m++) { rbytes(key, 32); rbytes(iv, 8); one(key, iv, n, m & 1, m >> 1, f); nat_cases++; }
    for (int i = 0; i < 6; i++) { static const int big[] = {1024, 1032, 4096, 8192 + 5, 65536 + 8, 1 << 20}; for (int m = 0; m < 4; m++) { rbytes(key, 32); rbytes(iv, 8); one(key, iv, big[i], m & 1, m >> 1, m == 3 ? 0 : big[i]); } }
    { gost_ctx g; gost_subst_block b; uint8_t in[8 * 40], a[8 * 40], w[8 * 40];    /* bulk functions called directly */
      SBOX_TO_BLOCK(&DEF, &b); gost_init(&g, &b);
      for (int t = 0; t < 200; t++) { int nb = rn(40); rbytes(key, 32); rbytes(iv, 8); rbytes(in, sizeof in); gost_key(&g, key);
        for (int dec = 0; dec < 2; dec++) { spec_cfb(&DEF, key, iv, in, w, 8 * nb, dec); memset(a, 0x77, sizeof a);
          if (dec) gost_dec_cfb(&g, iv, in, a, nb); else gost_enc_cfb(&g, iv, in, a, nb);
          if (memcmp(a, w, 8 * nb) || (nb < 40 && a[8 * nb] != 0x77)) { fail("bulk CFB, %d blocks, dec=%d", nb, dec); DIE(); } } } }
    while (more()) { rbytes(key, 32); rbytes(iv, 8); one(key, iv, rn(20) ? 1 + rn(300) : 1 + rn(20000), rn(2), rn(2), 0); }
    return nat_done();
}
