/* Key stores against a list model; PKCS#8 with a second key in its attributes, damaged in every part. */
#include "nat_ks.h"
static BUF exact(BUF *b) { BUF r; r.n = b->n; r.c = 0; r.p = malloc(b->n ? b->n : 1); memcpy(r.p, b->p, b->n); return r; }
typedef struct { KeyStore *ks; int nk, nc; EVP_PKEY *k[400]; X509 *c[400]; } ST;
static void same(ST *s, const char *w)
{ if (KeyStoreKeyNum(s->ks) != s->nk || KeyStoreCertNum(s->ks) != s->nc) B(("%s: %zu keys and %zu certificates instead of %d and %d", w, KeyStoreKeyNum(s->ks), KeyStoreCertNum(s->ks), s->nk, s->nc)); for (int i = 0; i < s->nk; i++) if (KeyStoreGetKey(s->ks, i) != s->k[i]) B(("%s: key %d is another", w, i)); for (int i = 0; i < s->nc; i++) if (KeyStoreGetCert(s->ks, i) != s->c[i]) B(("%s: certificate %d is another", w, i));
  if (KeyStoreGetKey(s->ks, s->nk) || KeyStoreGetCert(s->ks, s->nc) || KeyStoreGetKey(s->ks, s->nk + rn(1000)) || KeyStoreGetCert(s->ks, (size_t)-1 - rn(5)) || KeyStoreGetKey(s->ks, (size_t)1 << 61 | 0)) B(("%s: an entry beyond the last", w)); }
static void mk(ST *s) { s->nk = rn(3) ? rn(4) : rn(40); s->nc = rn(3) ? rn(4) : rn(40); memset(s->k, 0, sizeof s->k); memset(s->c, 0, sizeof s->c); s->ks = KeyStoreNew(s->nk, s->nc); same(s, "a new store"); }
static void setsome(ST *s) { for (int i = 0; i < s->nk; i++) if (!s->k[i] && rn(4)) KeyStoreSetKey(s->ks, i, s->k[i] = EVP_PKEY_new()); for (int i = 0; i < s->nc; i++) if (!s->c[i] && rn(4)) KeyStoreSetCert(s->ks, i, s->c[i] = X509_new()); same(s, "after setting"); }
static void lists(void)
{ ST a, b; mk(&a); for (int z = rn(5); z >= 0; z--) { setsome(&a); mk(&b); if (rn(4)) setsome(&b); KeyStoreAppend(a.ks, b.ks); for (int i = 0; i < b.nk; i++) { a.k[a.nk++] = b.k[i]; b.k[i] = NULL; } for (int i = 0; i < b.nc; i++) { a.c[a.nc++] = b.c[i]; b.c[i] = NULL; } same(&a, "after appending"); for (int i = 0; i < b.nk; i++) if (KeyStoreGetKey(b.ks, i)) B(("the appended store still has key %d", i)); for (int i = 0; i < b.nc; i++) if (KeyStoreGetCert(b.ks, i)) B(("the appended store still has certificate %d", i)); KeyStoreFree(b.ks); same(&a, "after freeing the appended store"); for (int i = 0; i < a.nk; i++) if (a.k[i]) { EVP_PKEY_up_ref(a.k[i]); EVP_PKEY_free(a.k[i]); } } KeyStoreFree(a.ks); KeyStoreFree(NULL); }
int main(int argc, char **argv)
{
    cnt_setup(); nat_init(argc, argv); ec_init(1); nat_engine(); CX = BN_CTX_new(); mkcerts();
    { static char mark[1]; KeyStore *a = KeyStoreNew(300, 65800), *b = KeyStoreNew(65800, 300); for (int i = 0; i < 300; i++) { KeyStoreSetKey(a, i, (EVP_PKEY *)(mark + i)); KeyStoreSetCert(b, i, (X509 *)(mark + 1000 + i)); } for (int i = 0; i < 65800; i++) { KeyStoreSetCert(a, i, (X509 *)(mark + 2000 + i)); KeyStoreSetKey(b, i, (EVP_PKEY *)(mark + 100000 + i)); }
      KeyStoreAppend(a, b); if (KeyStoreKeyNum(a) != 66100 || KeyStoreCertNum(a) != 66100) B(("appending large stores")); for (int i = 0; i < 66100; i++) { if (KeyStoreGetKey(a, i) != (EVP_PKEY *)(i < 300 ? mark + i : mark + 100000 + i - 300) || KeyStoreGetCert(a, i) != (X509 *)(i < 65800 ? mark + 2000 + i : mark + 1000 + i - 65800)) B(("entry %d of large stores appended", i)); KeyStoreSetKey(a, i, NULL); KeyStoreSetCert(a, i, NULL); } KeyStoreFree(a); KeyStoreFree(b); }
    nat_par(4);
    while (more()) {
        for (int i = 0; i < 20; i++) lists(); uint64_t s0 = nat_s; if (rn(8) == 0 && LEAKS(nat_s = s0; lists();)) B(("using a store leaks"));
        KEY k1 = mkkey(rn(2) ? NID_dstu4145le : NID_dstu4145be), k2 = mkkey(NID_dstu4145le); int two = rn(5) != 0, dmg = two && rn(2) ? 1 + rn(10) : 0, want = 1; int arr[7]; BIGNUM *p = BN_new(), *a = BN_new(), *b = BN_new(); EC_GROUP_get_curve(k2.g, p, a, b, CX); int nt = BN_GF2m_poly2arr(p, arr, 7) - 1; BN_free(p); BN_free(a); BN_free(b); if (two && (!dmg || (dmg == 5 && nt == 3))) want = 2;
        BUF pl = p8(&k1, two ? &k2 : NULL, dmg, rn(3) == 0), x = exact(&pl); KeyStore *ks = NULL; int r = keysFromPKCS8(x.p, x.n, &ks);
        if (r != 1 || !ks) { hexs("PKCS#8", x.p, x.n); B(("keysFromPKCS8 refuses a key (damage %d of the second)", dmg)); } if (KeyStoreKeyNum(ks) != want || KeyStoreCertNum(ks)) { hexs("PKCS#8", x.p, x.n); B(("%zu keys instead of %d (damage %d of the second)", KeyStoreKeyNum(ks), want, dmg)); } same_key(KeyStoreGetKey(ks, 0), &k1, "key"); if (want == 2) same_key(KeyStoreGetKey(ks, 1), &k2, "second key"); KeyStoreFree(ks); ks = NULL;
        if (rn(5) == 0 && LEAKS(if (keysFromPKCS8(x.p, x.n, &ks)) KeyStoreFree(ks); ks = NULL;)) B(("keysFromPKCS8 leaks (damage %d)", dmg));
        { BUF t = x; t.n = rn(x.n); t = exact(&t); ks = NULL; if (keysFromPKCS8(t.p, t.n, &ks)) B(("a truncated key is accepted")); if (ks) B(("a truncated key: the store pointer is set")); if (rn(6) == 0 && LEAKS(keysFromPKCS8(t.p, t.n, &ks);)) B(("refusing a truncated key leaks")); free(t.p); }
        for (int i = 0; i < 12; i++) { BUF t = exact(&x); for (int z = 1 + rn(2); z; z--) t.p[rn(4) ? rn(t.n) : t.n - 1 - rn(t.n / 3)] ^= 1 << rn(8); ks = NULL; if (keysFromPKCS8(t.p, t.n, &ks)) { if (!ks || KeyStoreKeyNum(ks) < 1 || KeyStoreKeyNum(ks) > 2 || !KeyStoreGetKey(ks, 0) || (KeyStoreKeyNum(ks) == 2 && !KeyStoreGetKey(ks, 1))) B(("a damaged key gives no store")); KeyStoreFree(ks); } else if (ks) B(("a damaged key: the store pointer is set")); ks = NULL; if (rn(20) == 0 && LEAKS(if (keysFromPKCS8(t.p, t.n, &ks)) KeyStoreFree(ks); ks = NULL;)) { hexs("PKCS#8", t.p, t.n); B(("a damaged key leaks")); } free(t.p); ERR_clear_error(); }
        freekey(&k1); freekey(&k2); free(x.p); free(pl.p); ERR_clear_error();
    }
    return nat_done();
}
