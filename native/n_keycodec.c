/* Private and public keys in PKCS#8 / SubjectPublicKeyInfo: exact content, round trips, damage, faults, leaks. */
#include "nat_evp.h"
#include "nat_oom.h"
#include "asn1.h"
#include <openssl/cms.h>
#include <openssl/pkcs7.h>
#define B(x) do { fail x; DIE(); } while (0)
static BN_CTX *CX;
static EC_GROUP *custom(int cn)
{ EC_GROUP *g = EC_GROUP_dup(GRP[cn]); BIGNUM *s = BN_new(); EC_POINT *q = EC_POINT_new(g); do { rnd_scalar(s, EC_GROUP_get0_order(g)); } while (BN_is_one(s)); EC_POINT_mul(g, q, s, NULL, NULL, CX); BIGNUM *x = BN_new(), *y = BN_new(); int ok = EC_POINT_get_affine_coordinates(g, q, x, y, CX) && !BN_is_zero(x) && !BN_is_one(x);
  EC_GROUP_set_generator(g, q, EC_GROUP_get0_order(GRP[cn]), BN_value_one()); BN_free(s); BN_free(x); BN_free(y); EC_POINT_free(q); if (!ok) { EC_GROUP_free(g); return custom(cn); } return g; }
static int same_sbox(const uint8_t *a, const uint8_t *b) { return !memcmp(a ? a : default_sbox, b ? b : default_sbox, 64); }
static void chk(EVP_PKEY *p, int nid, const EC_GROUP *g, const BIGNUM *d, const EC_POINT *q, const uint8_t *S, const char *w)
{ DSTU_KEY *k = EVP_PKEY_get0(p); if (EVP_PKEY_id(p) != nid) B(("%s: key type", w)); if (!k) B(("%s: no key", w)); if (EC_GROUP_cmp(EC_KEY_get0_group(k->ec), g, CX)) B(("%s: another curve", w)); if (!same_sbox(k->sbox, S)) B(("%s: another S-box", w));
  const BIGNUM *pd = EC_KEY_get0_private_key(k->ec); if (d ? !pd || BN_cmp(pd, d) : pd != NULL) B(("%s: private scalar", w)); if (!EC_KEY_get0_public_key(k->ec) || EC_POINT_cmp(g, q, EC_KEY_get0_public_key(k->ec), CX)) B(("%s: public point", w)); }
/* what the containers must hold */
static void chk_p8(PKCS8_PRIV_KEY_INFO *p8, int nid, EVP_PKEY *par, const BIGNUM *d, const char *w)
{ const ASN1_OBJECT *o; const unsigned char *kb; int kn, t; const X509_ALGOR *al; PKCS8_pkey_get0(&o, &kb, &kn, &al, p8); if (OBJ_obj2nid(o) != nid) B(("%s: algorithm", w)); uint8_t x[100]; int n = BN_bn2bin(d, x); rev(x, n); if (kn != n || memcmp(kb, x, n)) B(("%s: private key octets", w));
  const void *v; X509_ALGOR_get0(NULL, &t, &v, al); unsigned char *e = NULL; int el = i2d_KeyParams(par, &e); if (t != V_ASN1_SEQUENCE || ASN1_STRING_length(v) != el || memcmp(ASN1_STRING_get0_data(v), e, el)) B(("%s: parameters", w)); OPENSSL_free(e); }
static void chk_pub(X509_PUBKEY *xp, int nid, EVP_PKEY *par, const EC_GROUP *g, const EC_POINT *q, const char *w)
{ ASN1_OBJECT *o; const unsigned char *kb; int kn, t; X509_ALGOR *al; X509_PUBKEY_get0_param(&o, &kb, &kn, &al, xp); if (OBJ_obj2nid(o) != nid) B(("%s: algorithm", w)); uint8_t x[100], z[110]; int fs = (EC_GROUP_get_degree(g) + 7) / 8; if (!dstu_point_compress(g, q, x, fs)) B(("compress")); if (nid == NID_dstu4145le) rev(x, fs); int n = der_os(z, x, fs); if (kn != n || memcmp(kb, z, n)) B(("%s: public key octets", w));
  const void *v; X509_ALGOR_get0(NULL, &t, &v, al); unsigned char *e = NULL; int el = i2d_KeyParams(par, &e); if (t != V_ASN1_SEQUENCE || ASN1_STRING_length(v) != el || memcmp(ASN1_STRING_get0_data(v), e, el)) B(("%s: parameters", w)); OPENSSL_free(e); }
int main(int argc, char **argv)
{
    int cnt = cnt_setup(); nat_init(argc, argv); ec_init(1); nat_engine(); CX = BN_CTX_new();
    while (more()) {
        int cn = curve_pick(), cust = rn(2) || cn >= 10, nid = rn(2) ? NID_dstu4145le : NID_dstu4145be, sk = rn(3); EC_GROUP *g = cust ? custom(cn) : EC_GROUP_dup(GRP[cn]); uint8_t sb[64]; if (sk == 1) memcpy(sb, default_sbox, 64); else rbytes(sb, 64); const uint8_t *S = sk ? sb : NULL;
        BIGNUM *d = BN_new(); rnd_scalar(d, EC_GROUP_get0_order(g)); if (rn(4) == 0 && BN_num_bits(d) > 9) { BN_rshift(d, d, rn(BN_num_bits(d) - 2)); }
        EVP_PKEY *p = mk_pkey(g, d, S, nid), *r; DSTU_KEY *dk = EVP_PKEY_get0(p); const EC_POINT *q = EC_KEY_get0_public_key(dk->ec); BIGNUM *x = BN_new(), *y = BN_new(); int finite = EC_POINT_get_affine_coordinates(g, q, x, y, CX) && !BN_is_one(x);
        if (finite) { EC_POINT *t = EC_POINT_new(g); BIGNUM *m = BN_new(); EC_POINT_mul(g, t, d, NULL, NULL, CX); EC_POINT_get_affine_coordinates(g, t, m, y, CX); if (BN_is_zero(y)) { BN_set_word(d, 0); } EC_POINT_free(t); BN_free(m); }
        BN_free(x); BN_free(y); ERR_clear_error(); if (BN_is_zero(d)) { BN_free(d); EVP_PKEY_free(p); EC_GROUP_free(g); continue; }       /* libcrypto's EC_POINT_invert skips points with y = 0 */
        PKCS8_PRIV_KEY_INFO *p8 = EVP_PKEY2PKCS8(p); if (!p8) B(("private key not encoded")); chk_p8(p8, nid, p, d, "PKCS#8"); unsigned char *der = NULL, *ud = NULL; int n = i2d_PKCS8_PRIV_KEY_INFO(p8, &der), un; const unsigned char *pp = der;
        r = d2i_AutoPrivateKey(NULL, &pp, n); if (!r || pp != der + n) B(("own PKCS#8 encoding refused (curve %d)", cn)); chk(r, nid, g, d, q, S, "PKCS#8 round trip");
        if (cust == 0 || finite) { if (EVP_PKEY_eq(p, r) != 1) B(("decoded private key compares unequal")); } EVP_PKEY_free(r); ERR_clear_error();
        int pub = finite; X509_PUBKEY *xp = NULL;
        if (pub) { if (!X509_PUBKEY_set(&xp, p)) B(("public key not encoded")); chk_pub(xp, nid, p, g, q, "SubjectPublicKeyInfo"); un = i2d_PUBKEY(p, &ud); pp = ud; r = d2i_PUBKEY(NULL, &pp, un); if (!r || pp != ud + un) B(("own public key encoding refused (curve %d)", cn)); chk(r, nid, g, NULL, q, S, "public key round trip"); if (EVP_PKEY_eq(p, r) != 1) B(("decoded public key compares unequal"));
            if (EVP_PKEY2PKCS8(r)) B(("a public key is encoded as private")); EVP_PKEY_free(r); ERR_clear_error(); }
        if (EVP_PKEY_bits(p) != EC_GROUP_get_degree(g)) B(("bits")); { int on = (BN_num_bits(EC_GROUP_get0_order(g)) + 7) / 8 * 2; if (EVP_PKEY_size(p) != on + (on < 128 ? 2 : on < 256 ? 3 : 4)) B(("size %d", EVP_PKEY_size(p))); } { int md = 0; if (EVP_PKEY_get_default_digest_nid(p, &md) != 2 || md != NID_dstu34311) B(("default digest %d", md)); }
        if (!cust && nat_cases % 40 == 1) { /* PKCS#7 and CMS name the algorithms; printing works */
            BIO *o = BIO_new(BIO_s_mem()); if (EVP_PKEY_print_params(o, p, 0, NULL) != 1 || EVP_PKEY_print_private(o, p, 0, NULL) != 1 || EVP_PKEY_print_public(o, p, 0, NULL) != 1) B(("printing")); BIO_free(o);
            X509 *c = X509_new(); X509_set_version(c, 2); ASN1_INTEGER_set(X509_get_serialNumber(c), 1); X509_gmtime_adj(X509_getm_notBefore(c), 0); X509_gmtime_adj(X509_getm_notAfter(c), 1000); X509_NAME_add_entry_by_txt(X509_get_subject_name(c), "CN", MBSTRING_ASC, (void *)"a", -1, -1, 0); X509_set_issuer_name(c, X509_get_subject_name(c)); X509_set_pubkey(c, p);
            PKCS7 *p7 = PKCS7_new(); PKCS7_set_type(p7, NID_pkcs7_signed); PKCS7_SIGNER_INFO *si = PKCS7_add_signature(p7, c, p, ENGINE_get_digest(nat_engine(), NID_dstu34311)); if (!si) B(("PKCS7 signer")); X509_ALGOR *da = NULL, *sa = NULL; PKCS7_SIGNER_INFO_get0_algs(si, NULL, &da, &sa); const ASN1_OBJECT *o1, *o2; int t1, t2; const void *vv; X509_ALGOR_get0(&o1, &t1, &vv, da); X509_ALGOR_get0(&o2, &t2, &vv, sa); if (OBJ_obj2nid(o1) != NID_dstu34311 || OBJ_obj2nid(o2) != nid || t1 != V_ASN1_NULL || t2 != V_ASN1_NULL) B(("PKCS7 algorithms")); PKCS7_free(p7); X509_free(c); ERR_clear_error(); }
        { /* damage: refused, or a key whose point is on its curve and that can be encoded again */
            for (int i = 0; i < 3; i++) { int w = pub ? rn(2) : 0; int l = w ? un : n; unsigned char *z = malloc(l); memcpy(z, w ? ud : der, l); int nl = l; for (int m = 1 + rn(3); m; m--) { int at = cust && rn(2) ? l - 1 - rn(40 < l ? 40 : l) : rn(l); z[at] ^= 1 << rn(8); } if (!rn(6)) nl = rn(l); pp = z; 
                /* exponents made huge only cost time */ DSTU_AlgorithmParameters *ap = NULL; 
                if (cust) { PKCS8_PRIV_KEY_INFO *pi; X509_PUBKEY *xi; const unsigned char *t = z; const X509_ALGOR *al = NULL; X509_ALGOR *al2 = NULL; int big = 0; const void *v; int ty; if (!w) { pi = d2i_PKCS8_PRIV_KEY_INFO(NULL, &t, nl); if (pi) PKCS8_pkey_get0(NULL, NULL, NULL, &al, pi); } else { xi = d2i_X509_PUBKEY(NULL, &t, nl); if (xi) { X509_PUBKEY_get0_param(NULL, NULL, NULL, &al2, xi); al = al2; } }
                    if (al) { X509_ALGOR_get0(NULL, &ty, &v, al); if (ty == V_ASN1_SEQUENCE) { t = ASN1_STRING_get0_data(v); ap = d2i_DSTU_AlgorithmParameters(NULL, &t, ASN1_STRING_length(v)); if (ap && ap->curve->type == DSTU_CUSTOM_CURVE) { DSTU_BinaryField *f = ap->curve->curve.custom_curve->field; big = ASN1_INTEGER_get(f->m) > 4000 || (f->poly->type == DSTU_TRINOMIAL ? ASN1_INTEGER_get(f->poly->poly.k) > 4000 : ASN1_INTEGER_get(f->poly->poly.pentanomial->k) > 4000 || ASN1_INTEGER_get(f->poly->poly.pentanomial->j) > 4000 || ASN1_INTEGER_get(f->poly->poly.pentanomial->l) > 4000); } DSTU_AlgorithmParameters_free(ap); } }
                    if (!w) PKCS8_PRIV_KEY_INFO_free(pi); else X509_PUBKEY_free(xi); if (big) { free(z); continue; } }
                r = w ? d2i_PUBKEY(NULL, &pp, nl) : d2i_AutoPrivateKey(NULL, &pp, nl);
                if (r && (EVP_PKEY_id(r) == NID_dstu4145le || EVP_PKEY_id(r) == NID_dstu4145be)) { DSTU_KEY *k = EVP_PKEY_get0(r); const EC_GROUP *kg = k ? EC_KEY_get0_group(k->ec) : NULL; const EC_POINT *kq = k ? EC_KEY_get0_public_key(k->ec) : NULL; if (!kg || !kq) B(("incomplete key from damaged input")); if (EC_POINT_is_on_curve(kg, kq, CX) != 1) B(("point off the curve from damaged input")); }
                EVP_PKEY_free(r); free(z); ERR_clear_error(); } }
        { /* wrong algorithm or parameters */
            X509_ALGOR *al; const X509_ALGOR *cal; PKCS8_PRIV_KEY_INFO *z = EVP_PKEY2PKCS8(p); PKCS8_pkey_get0(NULL, NULL, NULL, &cal, z); al = (X509_ALGOR *)cal; int w = rn(3); unsigned char *s = NULL; const void *v; int ty; X509_ALGOR_get0(NULL, &ty, &v, al);
            if (w == 0) { EVP_PKEY *t = EVP_PKCS82PKEY(z); if (!t) B(("PKCS#8 refused")); EVP_PKEY_free(t); int on = nid == NID_dstu4145le ? NID_dstu4145be : NID_dstu4145le; if (!cust) { X509_ALGOR_set0(al, OBJ_nid2obj(on), V_ASN1_SEQUENCE, ASN1_STRING_dup(v)); t = EVP_PKCS82PKEY(z); if (!t) B(("the other byte order's algorithm is refused on a named curve")); chk(t, on, g, d, q, S, "other algorithm"); EVP_PKEY_free(t); } }
            else if (w == 1) { X509_ALGOR_set0(al, OBJ_nid2obj(nid), V_ASN1_NULL, NULL); EVP_PKEY *t = EVP_PKCS82PKEY(z); if (t) B(("key without parameters accepted")); }
            else { X509_ALGOR_set0(al, OBJ_nid2obj(nid), rn(2) ? V_ASN1_SET : V_ASN1_OCTET_STRING, ASN1_STRING_dup(v)); EVP_PKEY *t = EVP_PKCS82PKEY(z); if (t) B(("parameters of another type accepted")); }
            PKCS8_PRIV_KEY_INFO_free(z); ERR_clear_error(); }
        if (pub) { X509_PUBKEY *xp = NULL; X509_ALGOR *al; const void *v; int ty; unsigned char *s = NULL; if (!X509_PUBKEY_set(&xp, p) || !X509_PUBKEY_get0_param(NULL, NULL, NULL, &al, xp)) B(("public key")); X509_ALGOR_get0(NULL, &ty, &v, al); int w = rn(4); if (w == 0) X509_ALGOR_set0(al, OBJ_nid2obj(nid), V_ASN1_NULL, NULL); else if (w == 3) X509_ALGOR_set0(al, OBJ_nid2obj(nid), V_ASN1_UNDEF, NULL); else { ASN1_STRING *ds = ASN1_STRING_dup(v); if (w == 1) *(unsigned char *)ASN1_STRING_get0_data(ds) = 0x31; /* the whole element is kept in it */ X509_ALGOR_set0(al, OBJ_nid2obj(nid), w == 1 ? V_ASN1_SET : V_ASN1_OCTET_STRING, ds); }
            int l = i2d_X509_PUBKEY(xp, &s); const unsigned char *t = s; if (l > 0) { EVP_PKEY *k = d2i_PUBKEY(NULL, &t, l); if (k) B(("a public key with parameters of another type is accepted (%d)", w)); } OPENSSL_free(s); X509_PUBKEY_free(xp); ERR_clear_error(); }
        if (rn(2)) { /* allocation faults: failure, or the same result */
            int at = 1 + rn(rn(2) ? 15 : 150), all = rn(2); oom_arm(at, all); PKCS8_PRIV_KEY_INFO *z = EVP_PKEY2PKCS8(p); oom_off(); if (z) { unsigned char *o = NULL; int ol = i2d_PKCS8_PRIV_KEY_INFO(z, &o); if (!cust && ol != n) ; else if (ol != n || memcmp(o, der, n)) B(("PKCS#8 differs after a refused allocation (%d %d)", at, all)); OPENSSL_free(o); PKCS8_PRIV_KEY_INFO_free(z); }
            pp = der; oom_arm(at, all); PKCS8_PRIV_KEY_INFO *pi = d2i_PKCS8_PRIV_KEY_INFO(NULL, &pp, n); oom_off(); if (pi) { oom_arm(1 + rn(120), all); r = EVP_PKCS82PKEY(pi); oom_off(); if (r) { chk(r, nid, g, d, q, S, "decoding with an allocation refused"); EVP_PKEY_free(r); } PKCS8_PRIV_KEY_INFO_free(pi); }
            if (pub) { unsigned char *o = NULL; oom_arm(at, all); int ol = i2d_PUBKEY(p, &o); oom_off(); if (ol > 0 && (cust || ol == un) && (ol != un || memcmp(o, ud, un))) B(("public key differs after a refused allocation")); if (ol > 0) OPENSSL_free(o);
                pp = ud; oom_arm(1 + rn(150), all); r = d2i_PUBKEY(NULL, &pp, un); oom_off(); if (r) { chk(r, nid, g, NULL, q, S, "public decoding with an allocation refused"); EVP_PKEY_free(r); } }
            if (rn(4) == 0) { BIO *o = BIO_new(BIO_s_mem()); oom_arm(1 + rn(6), 0); EVP_PKEY_print_private(o, p, 0, NULL); oom_off(); BIO_free(o); }
            ERR_clear_error(); }
        if (cnt && nat_cases % 60 == 1) { /* leaks */
            if (LEAKS({ PKCS8_PRIV_KEY_INFO *z = EVP_PKEY2PKCS8(p); PKCS8_PRIV_KEY_INFO_free(z); })) B(("encoding a private key leaks"));
            if (LEAKS({ pp = der; EVP_PKEY *z = d2i_AutoPrivateKey(NULL, &pp, n); EVP_PKEY_free(z); })) B(("decoding a private key leaks"));
            if (pub) { if (LEAKS({ pp = ud; EVP_PKEY *z = d2i_PUBKEY(NULL, &pp, un); EVP_PKEY_free(z); })) B(("decoding a public key leaks")); if (LEAKS({ unsigned char *o = NULL; i2d_PUBKEY(p, &o); OPENSSL_free(o); })) B(("encoding a public key leaks"));
                pp = ud; r = d2i_PUBKEY(NULL, &pp, un); if (LEAKS({ EVP_PKEY2PKCS8(r); })) B(("refusing to encode a private key leaks")); EVP_PKEY_free(r);
                unsigned char *z = malloc(un); memcpy(z, ud, un); z[un - 1] ^= 0x81; z[un - 2] ^= 7; if (LEAKS({ pp = z; EVP_PKEY *t = d2i_PUBKEY(NULL, &pp, un); EVP_PKEY_free(t); })) B(("refusing a public key leaks")); free(z); }
            if (LEAKS({ pp = der; oom_arm(0, 0); EVP_PKEY *z = EVP_PKEY_new(); EVP_PKEY_set_type(z, nid); BIO *o = BIO_new(BIO_s_mem()); EVP_PKEY_print_public(o, z, 0, NULL); EVP_PKEY_print_private(o, z, 0, NULL); EVP_PKEY_print_params(o, z, 0, NULL); BIO_free(o); EVP_PKEY_free(z); oom_off(); })) B(("printing leaks"));
        }
        EVP_PKEY_free(p); PKCS8_PRIV_KEY_INFO_free(p8); X509_PUBKEY_free(xp); OPENSSL_free(der); OPENSSL_free(ud); BN_free(d); EC_GROUP_free(g); ERR_clear_error();
    }
    return nat_done();
}
