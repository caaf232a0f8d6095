/* PKCS#12 containers: every key and certificate, in order, through nested bags and encrypted safes; passwords, damage, leaks. */
#include "nat_ks.h"
typedef struct { int kind, c; KEY k; } ITEM; /* 1 key, 2 certificate */
static ITEM it[256]; static int nit, lastbad; static char pw[300]; static int pn; static BUF pw16;
static const int PBE[] = { NID_aes_256_cbc, NID_aes_128_cbc, NID_pbe_WithSHA1And3_Key_TripleDES_CBC };
/* one bag (DER): key, shrouded key, certificate, unknown kind, or a bag of bags; bad: 1 a key no method decodes, 2 a key under another password, 3 a certificate bag without certificate */
static BUF bag(int depth, int bad)
{
    BUF o = {0}; int k = bad ? 0 : rn(depth ? 6 : 5);
    if (bad == 3) { BUF v = {0}, a = {0}; oid(&a, "1.2.840.113549.1.9.22.2"); tlv(&v, 22, "abc", 3); tlvb(&a, 0xa0, &v); BUF s = {0}; tlvb(&s, 0x30, &a); BUF b = {0}; oid(&b, "1.2.840.113549.1.12.10.1.3"); tlvb(&b, 0xa0, &s); tlvb(&o, 0x30, &b); return o; }
    if (k < 3 || bad) { int shroud = bad == 2 || rn(2); BUF p = {0}; KEY key = mkkey(rn(2) ? NID_dstu4145le : NID_dstu4145be); PKCS8_PRIV_KEY_INFO *pi;
        if (bad == 1) { ASN1_OBJECT *ob = OBJ_txt2obj("1.2.3.4.5.6", 1); pi = PKCS8_PRIV_KEY_INFO_new(); unsigned char *d = OPENSSL_malloc(4); memset(d, 5, 4); PKCS8_pkey_set0(pi, ob, 0, V_ASN1_UNDEF, NULL, d, 4); }
        else { p = p8(&key, rn(3) ? NULL : &key, 0, 0); const unsigned char *q = p.p; pi = d2i_PKCS8_PRIV_KEY_INFO(NULL, &q, p.n); free(p.p); }
        PKCS12_SAFEBAG *b = shroud ? PKCS12_SAFEBAG_create_pkcs8_encrypt(PBE[rn(3)], bad == 2 ? "other?" : pw, bad == 2 ? 6 : pn, NULL, 0, 1 + rn(4), pi) : PKCS12_SAFEBAG_create0_p8inf(pi); if (shroud) PKCS8_PRIV_KEY_INFO_free(pi); if (!b) { ERR_print_errors_fp(stdout); B(("bag")); } unsigned char *d = NULL; int n = i2d_PKCS12_SAFEBAG(b, &d); put(&o, d, n); OPENSSL_free(d); PKCS12_SAFEBAG_free(b);
        if (bad) freekey(&key); else { it[nit].kind = 1; it[nit++].k = key; } return o; }
    if (k == 3) { int c = rn(4); PKCS12_SAFEBAG *b = PKCS12_SAFEBAG_create_cert(CERT[c]); if (rn(2)) PKCS12_add_friendlyname_utf8(b, "name", 4); unsigned char *d = NULL; int n = i2d_PKCS12_SAFEBAG(b, &d); put(&o, d, n); OPENSSL_free(d); PKCS12_SAFEBAG_free(b); it[nit].kind = 2; it[nit++].c = c; return o; }
    if (k == 4) { BUF v = {0}, b = {0}; tlv(&v, 4, "zz", 2); oid(&b, rn(2) ? "1.2.3.4" : "1.2.840.113549.1.12.10.1.77"); tlvb(&b, 0xa0, &v); tlvb(&o, 0x30, &b); return o; } /* another kind: passed over */
    BUF s = {0}, e = {0}, b = {0}; int n = rn(4); for (int i = 0; i < n; i++) { BUF x = bag(depth - 1, 0); put(&s, x.p, x.n); free(x.p); } tlvb(&e, 0x30, &s); oid(&b, "1.2.840.113549.1.12.10.1.6"); tlvb(&b, 0xa0, &e); tlvb(&o, 0x30, &b); return o;
}
static STACK_OF(PKCS12_SAFEBAG) *bags(int n, int bad) { STACK_OF(PKCS12_SAFEBAG) *s = sk_PKCS12_SAFEBAG_new_null(); int at = rn(n); for (int i = 0; i < n; i++) { BUF x = bag(2, bad && i == at ? bad : 0); if (bad && i == at && rn(2)) for (int d = 1 + rn(2); d; d--) { /* inside a bag of bags */ BUF e = {0}, b = {0}, o = {0}, s2 = {0}; if (rn(2)) { BUF y = bag(0, 0); put(&s2, y.p, y.n); free(y.p); } put(&s2, x.p, x.n); free(x.p); if (rn(2)) { BUF y = bag(0, 0); put(&s2, y.p, y.n); free(y.p); } tlvb(&e, 0x30, &s2); oid(&b, "1.2.840.113549.1.12.10.1.6"); tlvb(&b, 0xa0, &e); tlvb(&o, 0x30, &b); x = o; } const unsigned char *q = x.p; PKCS12_SAFEBAG *b = d2i_PKCS12_SAFEBAG(NULL, &q, x.n); if (!b) { hexs("bag", x.p, x.n); ERR_print_errors_fp(stdout); B(("own bag")); } sk_PKCS12_SAFEBAG_push(s, b); free(x.p); } return s; }
/* mac: 0 none, 1 right, 2 another password */
static BUF store(int ns, int bad, int mac)
{
    STACK_OF(PKCS7) *safes = sk_PKCS7_new_null(); int at = rn(ns); BUF o = {0}; nit = 0;
    for (int i = 0; i < ns; i++) { int bd = bad && i == at ? bad : 0, k = bd == 4 || bd == 5 ? 1 : bd ? rn(2) : rn(5); PKCS7 *p7;
        if (bd == 5) { p7 = PKCS7_new(); PKCS7_set_type(p7, NID_pkcs7_data); ASN1_STRING_set(p7->d.data, "\x30\x05zzz", 5); sk_PKCS7_push(safes, p7); continue; } /* no bags in it */
        if (k == 4) { p7 = PKCS7_new(); PKCS7_set_type(p7, rn(2) ? NID_pkcs7_digest : NID_pkcs7_enveloped); if (OBJ_obj2nid(p7->type) == NID_pkcs7_digest) { PKCS7_set_digest(p7, EVP_sha1()); PKCS7_content_new(p7, NID_pkcs7_data); ASN1_OCTET_STRING_set(p7->d.digest->digest, (const unsigned char *)"12345678901234567890", 20); } else { PKCS7_set_cipher(p7, EVP_aes_128_cbc()); p7->d.enveloped->enc_data->algorithm->algorithm = OBJ_nid2obj(NID_aes_128_cbc); } unsigned char *d = NULL; int n = i2d_PKCS7(p7, &d); if (n <= 0) { PKCS7_free(p7); ERR_clear_error(); i--; continue; } OPENSSL_free(d); sk_PKCS7_push(safes, p7); continue; } /* another content type: passed over */
        STACK_OF(PKCS12_SAFEBAG) *s = bags(bd ? 1 + rn(4) : rn(5), bd == 4 ? 0 : bd);
        if (k == 0 || k == 2) p7 = PKCS12_pack_p7data(s); else p7 = PKCS12_pack_p7encdata(PBE[rn(3)], bd == 4 ? "other?" : pw, bd == 4 ? 6 : pn, NULL, 0, 1 + rn(4), s); if (!p7) { ERR_print_errors_fp(stdout); B(("safe")); } sk_PKCS7_push(safes, p7); sk_PKCS12_SAFEBAG_pop_free(s, PKCS12_SAFEBAG_free); }
    PKCS12 *p = PKCS12_init(NID_pkcs7_data); if (!PKCS12_pack_authsafes(p, safes)) B(("safes")); sk_PKCS7_pop_free(safes, PKCS7_free); if (mac && !PKCS12_set_mac(p, mac == 2 ? "other?" : pw, mac == 2 ? 6 : pn, NULL, 0, 1 + rn(4), rn(2) ? EVP_sha1() : EVP_sha256())) B(("mac")); unsigned char *d = NULL; int n = i2d_PKCS12(p, &d); if (n <= 0) B(("DER")); put(&o, d, n); OPENSSL_free(d); PKCS12_free(p); ERR_clear_error(); return o;
}
static BUF exact(BUF *b) { BUF r; r.n = b->n; r.c = 0; r.p = malloc(b->n ? b->n : 1); memcpy(r.p, b->p, b->n); return r; }
static void drop(void) { for (int i = 0; i < nit; i++) if (it[i].kind == 1) freekey(&it[i].k); nit = 0; }
int main(int argc, char **argv)
{
    cnt_setup(); nat_init(argc, argv); ec_init(1); nat_engine(); CX = BN_CTX_new(); mkcerts();
    nat_par(4);
    while (more()) {
        KeyStore *ks = NULL; pn = mkpass(pw, &pw16); free(pw16.p); int nk = 0, nc = 0; BUF c = store(rn(4), 0, 1); for (int i = 0; i < nit; i++) if (it[i].kind == 1) nk++; else nc++;
        if (rn(4) == 0) { int t = rn(20); for (int i = 0; i < t; i++) put1(&c, rnd()); } BUF x = exact(&c); int r, how = rn(4);
        if (how == 0) r = parsePKCS12(x.p, x.n, pw, pn, &ks); else if (how == 1) { BUF s = x; s.c = 0; BIO *o = piecewise(&s); r = readPKCS12_bio(o, pw, pn, &ks); BIO_free(o); } else if (how == 2) { BIO *o = BIO_new_mem_buf(x.p, x.n); r = readPKCS12_bio(o, pw, pn, &ks); BIO_free(o); } else { FILE *f = fmemopen(x.p, x.n, "rb"); r = readPKCS12(f, pw, pn, &ks); fclose(f); }
        #define REFUSED(what, ...) do { ks = NULL; if (__VA_ARGS__) B((what " is accepted")); if (ks) B((what ": the store pointer is left set")); ERR_clear_error(); } while (0)
        if (nk + nc == 0) { if (r || ks) B(("an empty container is accepted")); }
        else {
            if (r != 1 || !ks) { hexs("container", c.p, c.n); ERR_print_errors_fp(stdout); B(("a well-formed container is refused (way %d)", how)); }
            if (KeyStoreKeyNum(ks) != nk || KeyStoreCertNum(ks) != nc) B(("%zu keys and %zu certificates instead of %d and %d", KeyStoreKeyNum(ks), KeyStoreCertNum(ks), nk, nc));
            int a = 0, b = 0; for (int i = 0; i < nit; i++) if (it[i].kind == 1) same_key(KeyStoreGetKey(ks, a++), &it[i].k, "key"); else { const X509 *y = KeyStoreGetCert(ks, b++); if (!y || X509_cmp(y, CERT[it[i].c])) B(("certificate %d is another", b - 1)); }
            KeyStoreFree(ks); char w[302]; memcpy(w, pw, pn); w[pn] = 'x'; w[pn + 1] = 0; REFUSED("a longer password", parsePKCS12(x.p, x.n, w, pn + 1, &ks)); w[0] ^= 1; REFUSED("a wrong password", parsePKCS12(x.p, x.n, w, pn, &ks)); if (pn > 1) REFUSED("a shorter password", parsePKCS12(x.p, x.n, pw, pn - 1, &ks));
            for (int i = 0; i < 3; i++) { BUF t = c; t.n = rn(x.n < 40 ? x.n : 40); if (i) t.n = x.n > 60 ? rn(x.n - 40) : 0; t = exact(&t); REFUSED("a truncated container", parsePKCS12(t.p, t.n, pw, pn, &ks)); free(t.p); }
            for (int i = 0; i < 5; i++) { BUF t = exact(&x); for (int z = 1 + rn(2); z; z--) t.p[rn(t.n)] ^= 1 << rn(8); ks = NULL; if (parsePKCS12(t.p, t.n, pw, pn, &ks)) { if (!ks) B(("a damaged container gives no store")); for (size_t j = 0; j < KeyStoreKeyNum(ks); j++) if (!KeyStoreGetKey(ks, j)) B(("an empty key entry")); for (size_t j = 0; j < KeyStoreCertNum(ks); j++) if (!KeyStoreGetCert(ks, j)) B(("an empty certificate entry")); KeyStoreFree(ks); } else if (ks) B(("a damaged container: the store pointer is left set")); free(t.p); ERR_clear_error(); }
            if (rn(6) == 0) { int m = rn(2); if (LEAKS(ks = NULL; int rr = parsePKCS12(x.p, x.n, m ? pw : "q", m ? pn : 1, &ks); if (rr == 1) KeyStoreFree(ks);)) B(("reading a container leaks (way %d)", m)); } }
        drop(); free(x.p); free(c.p);
        { /* what must be refused although its MAC is right; no MAC; MAC of another password */ int m = rn(7); BUF t = store(1 + rn(3), m < 5 ? m + 1 : 0, m == 5 ? 0 : m == 6 ? 2 : 1), u = exact(&t); REFUSED("a container with a part that cannot be read", parsePKCS12(u.p, u.n, pw, pn, &ks) && (printf("  kind %d\n", m), hexs("container", u.p, u.n), 1));
          if (rn(6) == 0 && LEAKS(ks = NULL; if (parsePKCS12(u.p, u.n, pw, pn, &ks)) KeyStoreFree(ks);)) B(("refusing a container leaks (kind %d)", m)); free(t.p); free(u.p); drop(); }
        ERR_clear_error();
    }
    return nat_done();
}
