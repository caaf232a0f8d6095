/* Key-6.dat containers: keys come back as stored, wrong passwords and damage, truncation, hostile contents, leaks. */
#include "nat_ks.h"
#include "gost/gost89.h"
#include "gost/gosthash.h"
static spec_sbox DEF;
#define OIDS "1.3.6.1.4.1.19398.1.1.1.2"
static gost_subst_block SBK;
static void ghash(const void *p, size_t n, uint8_t *o) { gost_ctx c; gost_hash_ctx h; memset(&h, 0, sizeof h); gost_init(&c, &SBK); h.cipher_ctx = &c; hash_block(&h, p, n); finish_hash(&h, o); }
static void kdf(const char *p, size_t n, uint8_t *k) { uint8_t t[32]; spec_hash(&DEF, (const uint8_t *)p, n, k); for (int i = 1; i < 10000; i++) { ghash(k, 32, t); memcpy(k, t, 32); } }
static BUF ENC(const uint8_t *key, BUF *pl) { BUF o = {0}; for (size_t i = 0; i + 8 <= pl->n; i += 8) { uint8_t t[8]; spec_block(&DEF, key, pl->p + i, t, 0); put(&o, t, 8); } return o; }
/* container; the last npad bytes of the encrypted data go to the pad field (npad < 0: no such field) */
static BUF box(const char *type, BUF *enc, int npad, size_t extra) { BUF h = {0}, pr = {0}, o = {0}, b = {0}; uint8_t mac[8]; rbytes(mac, 8); int p = npad < 0 ? 0 : npad; tlv(&pr, 4, mac, rn(9)); if (npad >= 0) tlv(&pr, 4, enc->p + enc->n - p, p); oid(&h, type); tlvb(&h, 0x30, &pr); tlvb(&b, 0x30, &h); tlv(&b, 4, enc->p, enc->n - p); (void)extra; tlvb(&o, 0x30, &b); return o; }
static BUF exact(BUF *b) { BUF r; r.n = b->n; r.c = 0; r.p = malloc(b->n ? b->n : 1); memcpy(r.p, b->p, b->n); return r; }
int main(int argc, char **argv)
{
    cnt_setup(); nat_init(argc, argv); ec_init(1); nat_engine(); CX = BN_CTX_new(); for (int r = 0; r < 8; r++) for (int i = 0; i < 16; i++) DEF.row[r][i] = i & 1 ? default_sbox[8 * r + i / 2] & 15 : default_sbox[8 * r + i / 2] >> 4; SBOX_TO_BLOCK(&DEF, &SBK);
    /* the derivation, by the specification alone, once */
    { uint8_t a[32], b[32]; kdf("pass", 4, a); spec_hash(&DEF, (const uint8_t *)"pass", 4, b); for (int i = 1; i < 10000; i++) { uint8_t t[32]; spec_hash(&DEF, b, 32, t); memcpy(b, t, 32); } if (memcmp(a, b, 32)) B(("the hash function")); }
    nat_par(6);
    while (more()) {
        char pw[300]; BUF p16; int pn = rn(8) ? mkpass(pw, &p16) : 0; uint8_t key[32]; kdf(pw, pn, key); int two = rn(3) != 0; KeyStore *ks = NULL; KEY k1 = mkkey(rn(2) ? NID_dstu4145le : NID_dstu4145be), k2 = mkkey(NID_dstu4145le); BUF pl = p8(&k1, two ? &k2 : NULL, 0, rn(4) == 0);
        int minpad = (8 - pl.n % 8) % 8, npad = rn(3) ? (int)rn(9) : (int)rn(20); while (pl.n % 8 || rn(4) == 0) put1(&pl, rn(2) ? minpad : rnd() >> 7); BUF e = ENC(key, &pl); if (rn(3) == 0) npad = -1; BUF c = box(OIDS, &e, npad, 0); if (rn(4) == 0) { int t = rn(20); for (int i = 0; i < t; i++) put1(&c, rnd()); } BUF x = exact(&c); int r, how = rn(4);
        if (how == 0) r = parseKey6(x.p, x.n, pw, pn, &ks); else if (how == 1) { BUF s = x; s.c = 0; BIO *o = piecewise(&s); r = readKey6_bio(o, pw, pn, &ks); BIO_free(o); } else if (how == 2) { BIO *o = BIO_new_mem_buf(x.p, x.n); r = readKey6_bio(o, pw, pn, &ks); BIO_free(o); } else { FILE *f = fmemopen(x.p, x.n, "rb"); r = readKey6(f, pw, pn, &ks); fclose(f); }
        if (r != 1 || !ks) { hexs("container", c.p, c.n); hexs("plain", pl.p, pl.n); ERR_print_errors_fp(stdout); B(("a well-formed container is refused (pad %d, way %d, %d keys)", npad, how, 1 + two)); } if (KeyStoreKeyNum(ks) != 1 + two || KeyStoreCertNum(ks)) B(("%zu keys, %zu certificates", KeyStoreKeyNum(ks), KeyStoreCertNum(ks))); same_key(KeyStoreGetKey(ks, 0), &k1, "key"); if (two) same_key(KeyStoreGetKey(ks, 1), &k2, "second key"); KeyStoreFree(ks);
        #define REFUSED(what, ...) do { ks = NULL; if (__VA_ARGS__) B((what " is accepted")); if (ks) B((what ": the store pointer is left set")); ERR_clear_error(); } while (0)
        { char w[302]; memcpy(w, pw, pn); w[pn] = 'x'; w[pn + 1] = 0; REFUSED("a longer password", parseKey6(x.p, x.n, w, pn + 1, &ks)); if (pn) { w[rn(pn)] ^= 1; REFUSED("a wrong password", parseKey6(x.p, x.n, w, pn, &ks)); } }
        if (rn(2)) { BUF t = box("1.3.6.1.4.1.19398.1.1.1.3", &e, npad, 0); REFUSED("a container of another type", parseKey6(t.p, t.n, pw, pn, &ks)); free(t.p); }
        { BUF t = c; t.n = rn(2) ? rn(c.n < 40 ? c.n : 40) : rn(x.n); if (t.n + 60 < e.n) { t = exact(&t); REFUSED("a truncated container", parseKey6(t.p, t.n, pw, pn, &ks)); free(t.p); } }
        { /* damaged: never a crash; what is accepted is a store */ BUF t = exact(&x); for (int z = 1 + rn(3); z; z--) t.p[rn(t.n)] ^= 1 << rn(8); ks = NULL; if (parseKey6(t.p, t.n, pw, pn, &ks)) { if (!ks || KeyStoreKeyNum(ks) < 1 || KeyStoreKeyNum(ks) > 2) B(("a damaged container gives no store")); KeyStoreFree(ks); } else if (ks) B(("a damaged container: the store pointer is left set")); free(t.p); ERR_clear_error(); }
        { /* encrypted data that ends inside the key, or is no whole number of blocks */ BUF q = {0}; int m = rn(3); if (m == 0) { q = (BUF){0}; put(&q, e.p, 8 * rn(pl.n / 8 - 4)); } else if (m == 1) { put(&q, e.p, rn(8)); } else { BUF g = {0}; put1(&g, 0x30); put1(&g, 0x82); put16(&g, 8 + rn(8) - 4 + 0); while (g.n < 8) put1(&g, rnd() >> 8); q = ENC(key, &g); free(g.p); } BUF t = box(OIDS, &q, -1, 0); REFUSED("a cut key", parseKey6(t.p, t.n, pw, pn, &ks)); free(t.p); free(q.p); }
        if (rn(5) == 0) { /* the last block, short, is not decrypted and must not be read as if it were */ BUF q = {0}; put(&q, e.p, e.n); int n = 1 + rn(7); for (int i = 0; i < n; i++) put1(&q, rnd() >> 9); BUF t = box(OIDS, &q, -1, 0); ks = NULL; if (parseKey6(t.p, t.n, pw, pn, &ks)) { same_key(KeyStoreGetKey(ks, 0), &k1, "key before a short block"); KeyStoreFree(ks); } free(t.p); free(q.p); ERR_clear_error(); }
        if (rn(10) == 0) { int m = rn(2); if (LEAKS(ks = NULL; int rr = m ? parseKey6(x.p, x.n, pw, pn, &ks) : parseKey6(x.p, x.n, "q", 1, &ks); if (rr == 1) KeyStoreFree(ks);)) B(("reading a container leaks (way %d)", m)); }
        freekey(&k1); freekey(&k2); free(pl.p); free(e.p); free(c.p); free(x.p); if (pn) free(p16.p); ERR_clear_error();
    }
    return nat_done();
}
