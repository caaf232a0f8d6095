#define NAT_ENGINE
#include "nat.h"
#include "params.h"
#include "gost/gosthash.h"
#include <openssl/obj_mac.h>
static void B2S(const gost_subst_block *b, spec_sbox *s)
{ memcpy(s->row[0], b->k1, 16); memcpy(s->row[1], b->k2, 16); memcpy(s->row[2], b->k3, 16); memcpy(s->row[3], b->k4, 16); memcpy(s->row[4], b->k5, 16); memcpy(s->row[5], b->k6, 16); memcpy(s->row[6], b->k7, 16); memcpy(s->row[7], b->k8, 16); }
static int step(int left) { int c = rn(10), n = c < 4 ? 1 + rn(40) : c < 6 ? 32 * (1 + rn(5)) : c < 7 ? 31 + rn(3) : c < 9 ? 1 + rn(300) : rn(5) ? 1 + rn(4000) : 0; return n < left ? n : left; }
static void one(int n, int fixed, int direct)
{
    uint8_t *m = malloc(n ? n : 1), w[32], o[40]; spec_sbox s; gost_subst_block b; static int cuts[4096]; int nc = 0; rbytes(m, n);
    gost_hash_ctx h; EVP_MD_CTX *c = NULL;
    if (direct) { rand_sbox(&s); SBOX_TO_BLOCK(&s, &b); if (!init_gost_hash_ctx(&h, &b) || (rn(2) && !start_hash(&h))) { fail("init"); DIE(); }
        if (!rn(3)) { hash_block(&h, m, n < 45 ? n : 45); start_hash(&h); } }
    else { unpack_sbox(default_sbox, &b); B2S(&b, &s); c = EVP_MD_CTX_new(); if (!EVP_DigestInit_ex(c, ENGINE_get_digest(nat_engine(), NID_dstu34311), nat_engine())) { fail("init"); DIE(); } }
    spec_hash(&s, m, n, w);
    for (int off = 0; off < n; ) { int l = fixed ? (fixed < n - off ? fixed : n - off) : step(n - off); uint8_t *x = malloc(l ? l : 1); memcpy(x, m + off, l); if (nc < 4096) cuts[nc++] = l;
        if (direct ? !hash_block(&h, x, l) : !EVP_DigestUpdate(c, x, l)) { fail("update"); DIE(); } free(x); off += l; }
    memset(o, 0xA5, sizeof o);
    if (direct ? !finish_hash(&h, o) : !EVP_DigestFinal_ex(c, o, NULL)) { fail("final"); DIE(); }
    if (memcmp(o, w, 32) || o[32] != 0xA5) { fail("hash of %d bytes (%s)", n, direct ? "direct" : "EVP"); printf("  cuts:"); for (int i = 0; i < nc && i < 200; i++) printf(" %d", cuts[i]); printf("\n");
        hexs("sbox", &s, 128); hexs("msg", m, n); hexs("want", w, 32); hexs("got", o, 32); DIE(); }
    if (direct) done_gost_hash_ctx(&h); else EVP_MD_CTX_free(c);
    free(m);
}
int main(int argc, char **argv)
{
    nat_init(argc, argv); nat_engine();
    for (int n = 0; n <= 100; n++) for (int f = 1; f <= 34; f += 1 + rn(3)) { one(n, f, n & 1); nat_cases++; }
    for (int n = 0; n <= 70; n++) { one(n, 1000, 0); one(n, 1000, 1); }
    static const int big[] = {255, 256, 257, 8191, 8192, 8193, 65535, 65536, 1 << 20, (1 << 21) + 7};
    for (int i = 0; i < 10; i++) { one(big[i], 0, 1); one(big[i], 0, 0); one(big[i], big[i], 0); }
    /* length field beyond 32 bits of bits: state with a large count, one more update */
    for (int i = 0; i < 40; i++) {
        spec_sbox s; gost_subst_block b; gost_hash_ctx h; uint8_t H[32], S[32], blk[32], L[32] = {0}, o[32]; int left = rn(32);
        rand_sbox(&s); SBOX_TO_BLOCK(&s, &b); init_gost_hash_ctx(&h, &b); rbytes(h.H, 32); rbytes(h.S, 32); rbytes(h.remainder, 32);
        h.len = ((long long)(rnd() >> (5 + rn(40)))) & ~31LL; h.left = left; memcpy(H, h.H, 32); memcpy(S, h.S, 32);
        unsigned long long bits = ((unsigned long long)h.len + left) * 8; if (!bits) continue;
        if (left) { memset(blk, 0, 32); memcpy(blk, h.remainder, left); spec_chi(&s, H, blk); unsigned c = 0; for (int j = 0; j < 32; j++) { c += S[j] + blk[j]; S[j] = c; c >>= 8; } }
        for (int j = 0; j < 8; j++) L[j] = bits >> (8 * j);
        spec_chi(&s, H, L); spec_chi(&s, H, S); long long len0 = h.len;
        finish_hash(&h, o); if (memcmp(o, H, 32)) { fail("finalisation after %lld bytes, %d pending", len0, left); DIE(); }
        done_gost_hash_ctx(&h);
    }
    while (more()) one(rn(20) ? rn(400) : rn(20000), 0, rn(2));
    return nat_done();
}
