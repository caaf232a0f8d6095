/* Java key stores, both formats: entries in order, passwords, damage, truncation, hostile lengths under a right digest, leaks. */
#include "nat_ks.h"
#include <openssl/sha.h>
typedef struct { int kind; KEY k1, k2; int two; int nc, c[300]; int sub; } ENT;
static void sha(BUF *b, const void *p, size_t n, const void *w, size_t wn, const void *q, size_t m, uint8_t *o) { EVP_MD_CTX *c = EVP_MD_CTX_new(); EVP_DigestInit_ex(c, EVP_sha1(), NULL); EVP_DigestUpdate(c, p, n); EVP_DigestUpdate(c, w, wn); EVP_DigestUpdate(c, q, m); EVP_DigestFinal_ex(c, o, NULL); EVP_MD_CTX_free(c); }
static void seal(BUF *b, BUF *sp) { uint8_t o[20]; sha(b, sp->p, sp->n, "Mighty Aphrodite", 16, b->p, b->n, o); put(b, o, 20); }
static void protect(BUF *o, BUF *pl, BUF *kp) { uint8_t d[20]; rbytes(d, 20); put(o, d, 20); for (size_t i = 0; i < pl->n; i += 20) { sha(o, kp->p, kp->n, "", 0, d, 20, d); for (size_t j = i; j < i + 20 && j < pl->n; j++) put1(o, pl->p[j] ^ d[j - i]); } sha(o, kp->p, kp->n, "", 0, pl->p, pl->n, d); put(o, d, 20); }
static void epki(BUF *b, const char *alg, BUF *data) { BUF a = {0}, s = {0}; oid(&a, alg); if (rn(2)) { uint8_t nul[2] = {5, 0}; put(&a, nul, 2); } tlvb(&s, 0x30, &a); tlvb(&s, 4, data); tlvb(b, 0x30, &s); }
static void name(BUF *b) { int n = rn(4) ? rn(12) : rn(300); put16(b, n); for (int i = 0; i < n; i++) put1(b, 'a' + rn(26)); }
static void head(BUF *b, uint32_t n) { put32(b, rn(2) ? 0xfeedfeed : 0xcececece); put32(b, 2); put32(b, n); }
static void cert(BUF *b, int i) { put16(b, 5); put(b, "X.509", 5); put32(b, CDER[i].n); put(b, CDER[i].p, CDER[i].n); }
static BUF exact(BUF *b) { BUF r; r.n = b->n; r.c = 0; r.p = malloc(b->n ? b->n : 1); memcpy(r.p, b->p, b->n); return r; }
#define OIDP "1.3.6.1.4.1.42.2.17.1.1"
int main(int argc, char **argv)
{
    cnt_setup(); nat_init(argc, argv); ec_init(1); nat_engine(); CX = BN_CTX_new(); mkcerts();
    nat_par(4);
    while (more()) {
        char sp[300], kp[300]; BUF sp16, kp16, b = {0}; int sn = mkpass(sp, &sp16), kn = mkpass(kp, &kp16), ne = rn(5) ? rn(4) : rn(8), nk = 0, nc = 0; ENT e[8]; KeyStore *ks = NULL, *MARK = (KeyStore *)&b;
        head(&b, ne); size_t lens[64]; int nl = 0;
        int many = rn(25) == 0 && nat_cases; for (int i = 0; i < ne; i++) { ENT *x = &e[i]; memset(x, 0, sizeof *x); x->kind = rn(3) ? 1 : 2; put32(&b, x->kind); if (x->kind == 2) { x->nc = 1; x->c[0] = rn(4); lens[nl++] = b.n + 7; cert(&b, x->c[0]); nc++; continue; }
            x->two = rn(2); x->k1 = mkkey(rn(2) ? NID_dstu4145le : NID_dstu4145be); if (x->two) x->k2 = mkkey(NID_dstu4145le); BUF pl = p8(&x->k1, x->two ? &x->k2 : NULL, 0, rn(4) == 0), pr = {0}, ep = {0}; protect(&pr, &pl, &kp16); free(pl.p); epki(&ep, OIDP, &pr); lens[nl++] = b.n; name(&b); put32(&b, rnd()); put32(&b, rnd()); lens[nl++] = b.n; put32(&b, ep.n); put(&b, ep.p, ep.n); free(ep.p); x->nc = many ? 250 + rn(30) : rn(3); lens[nl++] = b.n; put32(&b, x->nc); for (int c = 0; c < x->nc; c++) { x->c[c] = rn(4); cert(&b, x->c[c]); nc++; } nk += 1 + x->two; }
        size_t body = b.n; seal(&b, &sp16); if (rn(4) == 0) { int t = rn(40); for (int i = 0; i < t; i++) put1(&b, rnd()); }
        BUF x = exact(&b); int how = rn(4), r; 
        if (how == 0) r = parseJKS(x.p, x.n, sp, sn, kp, kn, &ks); else if (how == 1) { BUF s = x; s.c = 0; BIO *o = piecewise(&s); r = readJKS_bio(o, sp, sn, kp, kn, &ks); BIO_free(o); } else if (how == 2) { BIO *o = BIO_new_mem_buf(x.p, x.n); r = readJKS_bio(o, sp, sn, kp, kn, &ks); BIO_free(o); } else { FILE *f = fmemopen(x.p, x.n, "rb"); r = readJKS(f, sp, sn, kp, kn, &ks); fclose(f); }
        if (r != 1 || !ks) { hexs("store", b.p, b.n); ERR_print_errors_fp(stdout); B(("a well-formed store is refused (%d entries, way %d)", ne, how)); }
        if (KeyStoreKeyNum(ks) != nk || KeyStoreCertNum(ks) != nc) B(("%zu keys and %zu certificates instead of %d and %d", KeyStoreKeyNum(ks), KeyStoreCertNum(ks), nk, nc));
        int a = 0, c = 0; for (int i = 0; i < ne; i++) { if (e[i].kind == 1) { same_key(KeyStoreGetKey(ks, a++), &e[i].k1, "key"); if (e[i].two) same_key(KeyStoreGetKey(ks, a++), &e[i].k2, "second key"); } for (int j = 0; j < e[i].nc; j++) if (X509_cmp(KeyStoreGetCert(ks, c++), CERT[e[i].c[j]])) B(("certificate %d is another", c - 1)); }
        if (KeyStoreGetKey(ks, nk) || KeyStoreGetCert(ks, nc) || KeyStoreGetKey(ks, (size_t)-1)) B(("an entry beyond the last")); KeyStoreFree(ks); ks = NULL;
        /* wrong passwords */
        #define REFUSED(what, ...) do { ks = NULL; if (__VA_ARGS__) B((what " is accepted")); if (ks) B((what ": the store pointer is left set")); ERR_clear_error(); } while (0)
        { char w[301]; memcpy(w, sp, sn); w[sn] = 'x'; REFUSED("a longer store password", parseJKS(x.p, x.n, w, sn + 1, kp, kn, &ks)); memcpy(w, sp, sn); int z = rn(sn); if ((w[z] & 0x80) == 0) { w[z] ^= 1; REFUSED("a wrong store password", parseJKS(x.p, x.n, w, sn, kp, kn, &ks)); } REFUSED("no store password", parseJKS(x.p, x.n, sp, 0, kp, kn, &ks)); w[0] = 0xff; REFUSED("an undecodable store password", parseJKS(x.p, x.n, w, sn, kp, kn, &ks));
          if (nk) { memcpy(w, kp, kn); w[kn] = 'y'; REFUSED("a longer key password", parseJKS(x.p, x.n, sp, sn, w, kn + 1, &ks)); w[0] = 0xff; REFUSED("an undecodable key password", parseJKS(x.p, x.n, sp, sn, w, kn, &ks)); } }
        /* truncation at any place; damage anywhere under the digest */
        for (int i = 0; i < 4; i++) { BUF t = x; t.n = rn(3) ? rn(body + 20) : rn(14); if (i == 0) t.n = body + 19; if (i == 1 && nl) { t.n = lens[rn(nl)] + rn(6); if (t.n > body + 19) t.n = body + 19; } t = exact(&t); REFUSED("a truncated store", parseJKS(t.p, t.n, sp, sn, kp, kn, &ks)); free(t.p); }
        for (int i = 0; i < 6; i++) { BUF t = exact(&x); size_t at = rn(body + 20); t.p[at] ^= 1 << rn(8); if (t.n > body + 20) t.n = body + 20; BUF u = exact(&t); if (memcmp(u.p, "\xfe\xed\xfe\xed", 4) && memcmp(u.p, "\xce\xce\xce\xce", 4)) at = 0; REFUSED("a damaged store", parseJKS(u.p, u.n, sp, sn, kp, kn, &ks)); free(t.p); free(u.p); }
        /* hostile lengths, tags and contents under a right digest */
        { BUF t = {0}, pr = {0}, ep = {0}; int m = rn(12), ok = 0, acc = 0; head(&t, m == 0 ? 0x7fffffff : 1); KEY k = mkkey(NID_dstu4145le); BUF pl = p8(&k, NULL, 0, 0);
          if (m == 1) { put32(&t, rn(2) ? 0 : 3 + rnd() % 1000); cert(&t, 0); } else if (m == 2) { put32(&t, 2); put16(&t, 5); put(&t, "X.509", 5); put32(&t, rn(2) ? 0xffffffffu : CDER[0].n + 1 + rn(60)); put(&t, CDER[0].p, CDER[0].n); } else if (m == 3) { put32(&t, 2); put16(&t, 0xffff); put(&t, "X.509", 5); } else if (m == 4) { put32(&t, 2); put16(&t, 5); put(&t, "X.509", 5); int n = rn(60); put32(&t, n); for (int i = 0; i < n; i++) put1(&t, rnd() >> 20); }
          else if (m >= 5) { put32(&t, 1); name(&t); put32(&t, 0); put32(&t, 1);
            if (m == 5) { int n = rn(40); for (int i = 0; i < n; i++) put1(&pr, rnd() >> 9); epki(&ep, OIDP, &pr); } /* shorter than salt and digest */
            else if (m == 6) { BUF g = {0}; int n = rn(100); for (int i = 0; i < n; i++) put1(&g, rnd() >> 9); protect(&pr, &g, &kp16); free(g.p); epki(&ep, OIDP, &pr); } /* rightly protected, but no key */
            else if (m == 7) { protect(&pr, &pl, &kp16); epki(&ep, "1.3.6.1.4.1.42.2.19.1", &pr); } else if (m == 8) { protect(&pr, &pl, &kp16); pr.p[rn(pr.n)] ^= 1 << rn(8); epki(&ep, OIDP, &pr); } /* damaged key */
            else if (m == 9) { int n = rn(30); for (int i = 0; i < n; i++) put1(&ep, rnd() >> 9); } else { protect(&pr, &pl, &kp16); epki(&ep, OIDP, &pr); }
            put32(&t, m == 10 ? (rn(2) ? 0xffffffffu : ep.n + 1 + rn(40)) : ep.n); put(&t, ep.p, ep.n); put32(&t, m == 11 ? (rn(2) ? 0xffffffffu : 2 + rn(5)) : 0); if (m == 11 && rn(2)) cert(&t, 1); }
          seal(&t, &sp16); BUF u = exact(&t); ks = NULL; REFUSED("a hostile store", parseJKS(u.p, u.n, sp, sn, kp, kn, &ks) && (printf("  kind %d\n", m), 1)); free(u.p); free(t.p); free(pl.p); free(pr.p); free(ep.p); freekey(&k); (void)ok; (void)acc; }
        if (rn(2)) { /* a check value with a zero octet in it, damaged before or behind that */
            KEY k = mkkey(NID_dstu4145le); BUF pl = p8(&k, NULL, 0, 0), kq = {0}; uint8_t o[20]; char kw[5]; int z = -1;
            while (z < 0 || z > 18) { kq.n = 0; for (int i = 0; i < 4; i++) { kw[i] = 'a' + rn(26); put16(&kq, kw[i]); } sha(&kq, kq.p, kq.n, "", 0, pl.p, pl.n, o); for (z = 0; z < 20 && o[z]; z++) { } }
            for (int bad = 0; bad < 3; bad++) { BUF t = {0}, pr = {0}, ep = {0}; protect(&pr, &pl, &kq); if (bad) pr.p[pr.n - 20 + (bad == 1 ? z + 1 + rn(19 - z) : rn(20))] ^= 1 << rn(8); epki(&ep, OIDP, &pr); head(&t, 1); put32(&t, 1); name(&t); put32(&t, 0); put32(&t, 1); put32(&t, ep.n); put(&t, ep.p, ep.n); put32(&t, 0); seal(&t, &sp16); ks = NULL; int r2 = parseJKS(t.p, t.n, sp, sn, kw, 4, &ks);
                if (!bad && !r2) B(("a key whose check value holds a zero octet is refused")); if (bad && r2) B(("a protected key with damage in its check value is accepted")); if (r2) KeyStoreFree(ks); free(t.p); free(pr.p); free(ep.p); ERR_clear_error(); }
            ks = NULL; free(pl.p); free(kq.p); freekey(&k); }
        for (int i = 0; i < 3; i++) { /* another magic or version over an otherwise sound store, digest right */
            BUF t = {0}; uint32_t mg = rn(2) ? 0xfeedfeed : 0xcececece, vs = 2; if (rn(2)) { static const uint32_t M[] = {0, 0xffffffff, 0xfeedfece, 0xcecefeed, 0xedfeedfe, 0xfeedface, 0xcefaedfe}; mg = rn(2) ? M[rn(7)] : rn(2) ? mg ^ 1u << rn(32) : mg | rnd() << 1; } else { static const uint32_t V[] = {0, 1, 3, 0x200, 0x20000, 0x2000000, 0xffffffff, 0x80000002}; vs = rn(2) ? V[rn(8)] : rn(2) ? 2 ^ 1u << rn(32) : rnd(); }
            if ((mg == 0xfeedfeed || mg == 0xcececece) && vs == 2) continue; put32(&t, mg); put32(&t, vs); put(&t, b.p + 8, body - 8); seal(&t, &sp16); REFUSED("a store of another magic or version", parseJKS(t.p, t.n, sp, sn, kp, kn, &ks) && (printf("  magic %08x version %08x\n", mg, vs), 1)); free(t.p); }
        if (nat_cases % 64 == 2) { /* a protected key of more than 2^16 digest lengths, the bulk in an attribute of another kind */
            KEY k = mkkey(NID_dstu4145le); BUF p1 = p8(&k, NULL, 0, 0), in = {0}, at = {0}, av = {0}, as = {0}, pl = {0}, pr = {0}, ep = {0}, t = {0}, os = {0}; int h = p1.p[1] < 128 ? 2 : 2 + (p1.p[1] & 127), big = 1311000 + rn(30); put(&in, p1.p + h, p1.n - h);
            for (int i = 0; i < big; i++) put1(&os, i * 7 + (i >> 8)); tlvb(&av, 4, &os); oid(&at, "1.2.804.2.1.1.1.11.9"); tlvb(&at, 0x31, &av); tlvb(&as, 0x30, &at); tlvb(&in, 0xa0, &as); tlvb(&pl, 0x30, &in);
            protect(&pr, &pl, &kp16); epki(&ep, OIDP, &pr); head(&t, 1); put32(&t, 1); name(&t); put32(&t, 0); put32(&t, 1); put32(&t, ep.n); put(&t, ep.p, ep.n); put32(&t, 0); seal(&t, &sp16); ks = NULL;
            if (parseJKS(t.p, t.n, sp, sn, kp, kn, &ks) != 1) B(("a protected key of %zu octets is refused", pl.n)); if (KeyStoreKeyNum(ks) != 1) B(("%zu keys instead of one (large protected key)", KeyStoreKeyNum(ks))); same_key(KeyStoreGetKey(ks, 0), &k, "large protected key"); KeyStoreFree(ks); ks = NULL;
            free(p1.p); free(pl.p); free(pr.p); free(ep.p); free(t.p); freekey(&k); }
        if (rn(6) == 0) { int m = rn(3); size_t cut = rn(x.n); if (LEAKS(ks = NULL; int rr = m == 0 ? parseJKS(x.p, x.n, sp, sn, kp, kn, &ks) : m == 1 ? parseJKS(x.p, x.n, kp, kn ? 1 : 0, kp, kn, &ks) : parseJKS(x.p, cut, sp, sn, kp, kn, &ks); if (rr == 1) KeyStoreFree(ks);)) B(("reading a store leaks (way %d)", m)); }
        for (int i = 0; i < ne; i++) { if (e[i].kind == 1) { freekey(&e[i].k1); if (e[i].two) freekey(&e[i].k2); } } free(b.p); free(x.p); free(sp16.p); free(kp16.p); ERR_clear_error(); (void)MARK;
    }
    return nat_done();
}
