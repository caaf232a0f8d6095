/* Algorithm parameters: encoding and decoding of curves and S-boxes, hostile input, allocation faults. */
#include "nat_evp.h"
#include "nat_oom.h"
#include "asn1.h"
#define B(x) do { fail x; DIE(); } while (0)
static BN_CTX *CX;
static EC_GROUP *custom(int cn)      /* the same curve with another base point */
{ EC_GROUP *g = EC_GROUP_dup(GRP[cn]); BIGNUM *s = BN_new(); EC_POINT *q = EC_POINT_new(g); do { rnd_scalar(s, EC_GROUP_get0_order(g)); } while (BN_is_one(s)); EC_POINT_mul(g, q, s, NULL, NULL, CX); BIGNUM *x = BN_new(), *y = BN_new(); int ok = EC_POINT_get_affine_coordinates(g, q, x, y, CX) && !BN_is_zero(x) && !BN_is_one(x);
  EC_GROUP_set_generator(g, q, EC_GROUP_get0_order(GRP[cn]), BN_value_one()); BN_free(s); BN_free(x); BN_free(y); EC_POINT_free(q); if (!ok) { EC_GROUP_free(g); return custom(cn); } return g; }
static long geti(const ASN1_INTEGER *a) { return ASN1_INTEGER_get(a); }
static void check_params(DSTU_AlgorithmParameters *a, const EC_GROUP *g, int named, const uint8_t *sb, int le, const char *what)
{
    if (sb && memcmp(sb, default_sbox, 64)) { if (!a->sbox || ASN1_STRING_length(a->sbox) != 64 || memcmp(ASN1_STRING_get0_data(a->sbox), sb, 64)) B(("%s: S-box not encoded", what)); } else if (a->sbox) B(("%s: a default S-box is encoded", what));
    if (named >= 0) { if (a->curve->type != DSTU_STANDARD_CURVE || OBJ_obj2nid(a->curve->curve.named_curve) != dstu_curves[named].nid) B(("%s: curve %d not encoded by its name", what, named)); return; }
    if (a->curve->type != DSTU_CUSTOM_CURVE) B(("%s: a custom curve is encoded by name", what));
    DSTU_CustomCurveSpec *c = a->curve->curve.custom_curve; BIGNUM *p = BN_new(), *pa = BN_new(), *b = BN_new(), *t = BN_new(); int arr[7], fs = (EC_GROUP_get_degree(g) + 7) / 8; uint8_t w[80], z[80]; EC_GROUP_get_curve(g, p, pa, b, CX); int nt = BN_GF2m_poly2arr(p, arr, 7) - 1;
    if (geti(c->field->m) != arr[0]) B(("%s: degree %ld", what, geti(c->field->m))); DSTU_Polynomial *po = c->field->poly;
    if (nt == 3 ? po->type != DSTU_TRINOMIAL || geti(po->poly.k) != arr[1] : po->type != DSTU_PENTANOMIAL || geti(po->poly.pentanomial->k) != arr[3] || geti(po->poly.pentanomial->j) != arr[2] || geti(po->poly.pentanomial->l) != arr[1]) B(("%s: polynomial", what));
    ASN1_INTEGER_to_BN(c->a, t); if (BN_cmp(t, pa)) B(("%s: coefficient A", what)); ASN1_INTEGER_to_BN(c->n, t); if (BN_cmp(t, EC_GROUP_get0_order(g))) B(("%s: order", what));
    BN_bn2binpad(b, w, fs); for (int i = 0; i < fs; i++) z[i] = le ? w[fs - 1 - i] : w[i]; if (ASN1_STRING_length(c->b) != fs || memcmp(z, ASN1_STRING_get0_data(c->b), fs)) B(("%s: coefficient B (little endian %d)", what, le));
    if (!dstu_point_compress(g, EC_GROUP_get0_generator(g), w, fs)) B(("compress")); for (int i = 0; i < fs; i++) z[i] = le ? w[fs - 1 - i] : w[i]; if (ASN1_STRING_length(c->bp) != fs || memcmp(z, ASN1_STRING_get0_data(c->bp), fs)) B(("%s: base point (little endian %d)", what, le));
    BN_free(p); BN_free(pa); BN_free(b); BN_free(t);
}
static void check_key(DSTU_KEY *k, const EC_GROUP *g, const uint8_t *sb, const char *what)
{ if (EC_GROUP_cmp(EC_KEY_get0_group(k->ec), g, CX)) B(("%s: another group than was encoded", what)); if (sb && memcmp(sb, default_sbox, 64) ? !k->sbox || memcmp(k->sbox, sb, 64) : k->sbox && memcmp(k->sbox, default_sbox, 64)) B(("%s: another S-box than was encoded", what)); }
int main(int argc, char **argv)
{
    oom_setup(); nat_init(argc, argv); ec_init(1); nat_engine(); CX = BN_CTX_new();
    while (more()) {
        int cn = curve_pick(), cust = rn(2) || cn >= 10, le = rn(2), sk = rn(3); EC_GROUP *g = cust ? custom(cn) : EC_GROUP_dup(GRP[cn]); uint8_t sb[64]; if (sk == 1) memcpy(sb, default_sbox, 64); else { rbytes(sb, 64); if (rn(4) == 0) { memcpy(sb, default_sbox, 64); sb[rn(64)] ^= 1 << rn(8); } } const uint8_t *S = sk ? sb : NULL;
        DSTU_KEY *k = DSTU_KEY_new(), *k2; EC_KEY_set_group(k->ec, g); if (S) k->sbox = copy_sbox(S); int named = cust ? -1 : cn;
        DSTU_AlgorithmParameters *a = asn1_from_key(k, le), *a2; if (!a) B(("parameters of a key on %s curve %d are not made", cust ? "custom" : "named", cn)); check_params(a, g, named, S, le, "encoding");
        unsigned char *der = NULL, *der2 = NULL; int n = i2d_DSTU_AlgorithmParameters(a, &der), n2; if (n <= 0) B(("i2d")); const unsigned char *pp = der; a2 = d2i_DSTU_AlgorithmParameters(NULL, &pp, n); if (!a2 || pp != der + n) B(("d2i of what was encoded")); check_params(a2, g, named, S, le, "decoded encoding");
        k2 = key_from_asn1(a2, le); if (!k2) B(("encoded parameters are refused (curve %d)", cn)); check_key(k2, g, S, "decoding"); DSTU_KEY_free(k2);
        /* through EVP */
        { EVP_PKEY *p = NULL; pp = der; int nid = le ? NID_dstu4145le : NID_dstu4145be; p = d2i_KeyParams(nid, NULL, &pp, n); if (!p) B(("parameters are refused by EVP")); if (EVP_PKEY_id(p) != nid) B(("type")); check_key(EVP_PKEY_get0(p), g, S, "EVP decoding"); n2 = i2d_KeyParams(p, &der2); if (n2 != n || memcmp(der, der2, n)) B(("re-encoding differs")); OPENSSL_free(der2); der2 = NULL; EVP_PKEY_free(p); }
        /* into a key that has parameters already, of either type */
        { int nid = le ? NID_dstu4145le : NID_dstu4145be, old = rn(3) ? nid : le ? NID_dstu4145be : NID_dstu4145le; EC_GROUP *og = rn(3) ? custom(10 + rn(NGRP - 10)) : EC_GROUP_dup(GRP[rn(3)]); DSTU_KEY *ok = DSTU_KEY_new(); EC_KEY_set_group(ok->ec, og); EC_GROUP_free(og); if (rn(2)) { uint8_t o[64]; rbytes(o, 64); ok->sbox = copy_sbox(o); } EVP_PKEY *p = EVP_PKEY_new(), *p0 = p; EVP_PKEY_assign(p, old, ok); pp = der;
          if (!d2i_KeyParams(nid, &p, &pp, n) || p != p0 || EVP_PKEY_id(p) != nid) B(("parameters are refused for a key that has some")); check_key(EVP_PKEY_get0(p), g, S, "decoding into a key that has parameters"); EVP_PKEY_free(p0); }
        { k->sbox ? 0 : 0; a2->sbox || (a2->sbox = ASN1_OCTET_STRING_new()); int l = rn(130); if (l == 64) l = 63; uint8_t z[130]; rbytes(z, 130); ASN1_OCTET_STRING_set(a2->sbox, z, l); k2 = key_from_asn1(a2, le); if (k2) B(("an S-box of %d bytes is accepted", l)); ERR_clear_error(); }
        if (cust) { /* hostile descriptions */
            DSTU_CustomCurveSpec *c = a->curve->curve.custom_curve; int m = rn(8); DSTU_Polynomial *po = c->field->poly; ASN1_INTEGER *tgt = m == 1 ? c->field->m : po->type == DSTU_TRINOMIAL ? po->poly.k : rn(2) ? po->poly.pentanomial->k : rn(2) ? po->poly.pentanomial->j : po->poly.pentanomial->l; long v = geti(tgt); BIGNUM *t = BN_new();
            if (m <= 2) { int w = rn(4); ASN1_INTEGER_set_int64(tgt, w == 0 ? 0 : w == 1 ? -v : w == 2 ? v + (1l << 32) : v - (1l << 32)); }
            else if (m == 3) ASN1_INTEGER_set(c->a, rn(2) ? 2 + rn(100) : -1 - (long)rn(2)); else if (m == 4) ASN1_INTEGER_set(c->n, 0); else if (m == 5) { ASN1_INTEGER_to_BN(c->n, t); BN_set_negative(t, 1); BN_to_ASN1_INTEGER(t, c->n); } else if (m == 6) ASN1_OCTET_STRING_set(c->bp, sb, rn((EC_GROUP_get_degree(g) + 7) / 8)); else ASN1_OCTET_STRING_set(c->bp, sb, 0);
            EC_GROUP *h = group_from_asn1(c, le); if (h) B(("a curve description with defect %d is accepted (value %ld)", m, m <= 2 ? geti(tgt) : 0)); BN_free(t); ERR_clear_error(); }
        for (int i = 0; i < 3; i++) { /* damaged encodings: refused or consistent */
            unsigned char *x = malloc(n); memcpy(x, der, n); int nl = n; for (int z = 1 + rn(3); z; z--) x[rn(n)] ^= 1 << rn(8); if (!rn(6)) nl = rn(n); int big = 0; pp = x; DSTU_AlgorithmParameters *q = d2i_DSTU_AlgorithmParameters(NULL, &pp, nl);
            if (q) { if (q->curve->type == DSTU_CUSTOM_CURVE) { DSTU_BinaryField *f = q->curve->curve.custom_curve->field; big = geti(f->m) > 4000 || (f->poly->type == DSTU_TRINOMIAL ? geti(f->poly->poly.k) > 4000 : geti(f->poly->poly.pentanomial->k) > 4000 || geti(f->poly->poly.pentanomial->j) > 4000 || geti(f->poly->poly.pentanomial->l) > 4000); }
                if (!big && (k2 = key_from_asn1(q, le))) { const EC_GROUP *kg = EC_KEY_get0_group(k2->ec); if (!kg || !EC_GROUP_get0_generator(kg)) B(("a key without a complete group from damaged parameters")); if (EC_POINT_is_on_curve(kg, EC_GROUP_get0_generator(kg), CX) != 1) B(("base point off the curve")); DSTU_KEY_free(k2); } DSTU_AlgorithmParameters_free(q); } free(x); ERR_clear_error(); }
        if (rn(2)) { /* allocation faults */
            oom_arm(1 + rn(rn(2) ? 12 : 90), rn(2)); DSTU_AlgorithmParameters *f = asn1_from_key(k, le); oom_off(); if (f) { if (!(named >= 0 && f->curve->type == DSTU_CUSTOM_CURVE)) check_params(f, g, named, S, le, "encoding with an allocation refused"); DSTU_AlgorithmParameters_free(f); }
            pp = der; DSTU_AlgorithmParameters_free(a); a = d2i_DSTU_AlgorithmParameters(NULL, &pp, n); oom_arm(1 + rn(rn(2) ? 20 : 120), rn(2)); k2 = key_from_asn1(a, le); oom_off(); if (k2) { check_key(k2, g, S, "decoding with an allocation refused"); DSTU_KEY_free(k2); } ERR_clear_error(); }
        DSTU_AlgorithmParameters_free(a); DSTU_AlgorithmParameters_free(a2); DSTU_KEY_free(k); EC_GROUP_free(g); OPENSSL_free(der); ERR_clear_error();
    }
    return nat_done();
}
