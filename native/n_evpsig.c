/* EVP signatures: encoding, byte order, buffer handling and verification against the reference. */
#include "nat_evp.h"
static int evp_verify(EVP_PKEY *p, const uint8_t *sig, int n, const uint8_t *h, int hl)
{ uint8_t *x = malloc(n ? n : 1); memcpy(x, sig, n); if (!n) { free(x); x = malloc(0); } EVP_PKEY_CTX *c = EVP_PKEY_CTX_new(p, nat_engine()); if (EVP_PKEY_verify_init(c) <= 0) { fail("verify_init"); DIE(); } int r = EVP_PKEY_verify(c, x, n, h, hl); EVP_PKEY_CTX_free(c); free(x); ERR_clear_error(); return r == 1; }
static void ask(EVP_PKEY *p, EC_GROUP *g, const EC_POINT *Q, int le, const uint8_t *b, int half, int wrap, const uint8_t *h, int hl, const char *what)
{   /* b = s || r big-endian, half bytes each */
    uint8_t t[800], o[900]; int n = 2 * half; memcpy(t, b, n); BIGNUM *s = BN_bin2bn(b, half, NULL), *r = BN_bin2bn(b + half, half, NULL);
    int want = half >= BN_num_bytes(EC_GROUP_get0_order(g)) && sp_verify(g, Q, h, hl, r, s); if (le) rev(t, n);
    if (wrap) n = der_os(o, t, n); else { memcpy(o, t, n); }
    int got = evp_verify(p, o, n, h, hl);
    if (!wrap) { const uint8_t *q = o; ASN1_OCTET_STRING *a = d2i_ASN1_OCTET_STRING(NULL, &q, n); ERR_clear_error(); if (a) { ASN1_STRING_free(a); BN_free(r); BN_free(s); return; } }
    if (got != want) { fail("EVP verify says %d, reference says %d: %s (%s, %s)", got, want, what, le ? "little-endian" : "big-endian", wrap ? "DER" : "raw"); hexs("hash", h, hl); hexs("sig", o, n); DIE(); }
    BN_free(r); BN_free(s); nat_cases++;
}
int main(int argc, char **argv)
{
    nat_init(argc, argv); ec_init(0); nat_engine(); GRP[10] = EC_GROUP_new_by_curve_name(NID_sect571k1); GRP[11] = EC_GROUP_new_by_curve_name(NID_sect571r1); /* large enough for signatures with a longer length form */
    while (more()) {
        int le = rn(2), cn = rn(20) ? rn(10) : 10 + rn(2), hl; EC_GROUP *g = GRP[cn]; const BIGNUM *n = EC_GROUP_get0_order(g); int fs = BN_num_bytes(n); uint8_t h[64]; BIGNUM *d = BN_new(); rnd_scalar(d, n);
        if (cn < 10 && rn(2)) cn = rn(2) ? 0 : rn(3), g = GRP[cn], n = EC_GROUP_get0_order(g), fs = BN_num_bytes(n), rnd_scalar(d, n);
        EVP_PKEY *p = mk_pkey(g, d, NULL, le ? NID_dstu4145le : NID_dstu4145be); const EC_POINT *Q = EC_KEY_get0_public_key(((DSTU_KEY *)EVP_PKEY_get0(p))->ec);
        hl = rnd_hash(h, EC_GROUP_get_degree(g));
        EVP_PKEY_CTX *c = EVP_PKEY_CTX_new(p, nat_engine()); if (EVP_PKEY_sign_init(c) <= 0) { fail("sign_init"); DIE(); }
        uint8_t tmp[900]; int full = der_os(tmp, tmp + 300, 2 * fs); size_t l = 7;
        if (EVP_PKEY_size(p) != full) { fail("key size %d, encoded signatures need %d (curve %d)", EVP_PKEY_size(p), full, cn); DIE(); }
        if (EVP_PKEY_bits(p) != EC_GROUP_get_degree(g)) { fail("key bits"); DIE(); }
        if (EVP_PKEY_sign(c, NULL, &l, h, hl) <= 0 || l != (size_t)full) { fail("length query answers %zu, want %d", l, full); DIE(); }
        { int cap = rn(full); uint8_t *o = malloc(cap ? cap : 1), o0; memset(o, 0x5A, cap ? cap : 1); l = cap; if (EVP_PKEY_sign(c, o, &l, h, hl) > 0) { fail("signing into %d of %d bytes succeeds", cap, full); DIE(); } for (int i = 0; i < cap; i++) if (o[i] != 0x5A) { fail("a refused signing wrote into the short buffer"); DIE(); } free(o); ERR_clear_error(); }
        int extra = rn(3) ? 0 : rn(40); uint8_t *o = malloc(full + extra); l = full + extra; memset(o, 0x5A, l);
        if (EVP_PKEY_sign(c, o, &l, h, hl) <= 0 || l != (size_t)full) { fail("signing fails or reports length %zu, want %d", l, full); DIE(); }
        for (int i = full; i < full + extra; i++) if (o[i] != 0x5A) { fail("signing writes past the signature"); DIE(); }
        uint8_t body[400]; const uint8_t *q = o; ASN1_OCTET_STRING *os = d2i_ASN1_OCTET_STRING(NULL, &q, l);
        if (!os || q != o + full || ASN1_STRING_length(os) != 2 * fs) { fail("the signature is not a DER octet string of two field elements"); hexs("sig", o, l); DIE(); }
        memcpy(body, ASN1_STRING_get0_data(os), 2 * fs); ASN1_STRING_free(os); if (le) rev(body, 2 * fs);
        BIGNUM *s = BN_bin2bn(body, fs, NULL), *r = BN_bin2bn(body + fs, fs, NULL);
        if (!sp_verify(g, Q, h, hl, r, s)) { fail("EVP signature is not valid under the reference (%s, curve %d)", le ? "little-endian" : "big-endian", cn); hexs("hash", h, hl); hexs("sig", o, l); DIE(); }
        for (int w = 0; w < 2; w++) {
            ask(p, g, Q, le, body, fs, w, h, hl, "valid");
            uint8_t pad[500]; int z = 1 + rn(60); memset(pad, 0, sizeof pad); memcpy(pad + z, body, fs); memcpy(pad + fs + 2 * z, body + fs, fs); ask(p, g, Q, le, pad, fs + z, w, h, hl, "zero padded");
            memcpy(pad, body, 2 * fs); pad[rn(2 * fs)] ^= 1 << rn(8); ask(p, g, Q, le, pad, fs, w, h, hl, "bit flipped");
            memcpy(pad, body, 2 * fs); rev(pad, 2 * fs); ask(p, g, Q, le, pad, fs, w, h, hl, "other byte order");
            if (!body[0] && !body[fs]) { memcpy(pad, body + 1, fs - 1); memcpy(pad + fs - 1, body + fs + 1, fs - 1); ask(p, g, Q, le, pad, fs - 1, w, h, hl, "leading zero octets left out"); }
            ask(p, g, Q, le, body, fs - 1 - rn(fs - 1), w, h, hl, "shortened");
        }
        { uint8_t e[500]; int m = der_os(e, body, 2 * fs - 1); if (evp_verify(p, e, m, h, hl)) { fail("an odd-length signature verifies"); DIE(); } if (evp_verify(p, e, 0, h, hl)) { fail("an empty signature verifies"); DIE(); }
          for (int z = 0; z < 4; z++) { /* a signature with an octet too much before or behind it, in an octet string or bare */
            uint8_t y[400], b[400]; memcpy(b, body, 2 * fs); if (le) rev(b, 2 * fs); if (z & 1) { y[0] = rn(2) ? 0 : rnd(); memcpy(y + 1, b, 2 * fs); } else { memcpy(y, b, 2 * fs); y[2 * fs] = rn(2) ? 0 : rnd(); }
            if (z & 2) { m = der_os(e, y, 2 * fs + 1); } else { if (y[0] == 4) continue; memcpy(e, y, m = 2 * fs + 1); } if (evp_verify(p, e, m, h, hl) == 1) { fail("a signature with an octet %s it verifies (%s)", z & 1 ? "before" : "behind", z & 2 ? "octet string" : "bare"); hexs("sig", e, m); DIE(); } ERR_clear_error(); }
          memcpy(e, o, full); for (int cut = 1; cut < full; cut += 1 + rn(9)) if (evp_verify(p, e, cut, h, hl)) { fail("a truncated signature verifies"); DIE(); }
          if (evp_verify(p, e, full, h, hl) != 1) { fail("own signature does not verify"); DIE(); } }
        free(o); EVP_PKEY_CTX_free(c); BN_free(r); BN_free(s);
        if (rn(4) == 0) {   /* through the digest, le and be */
            uint8_t m[300], w[32], sg[300]; int ml = rn(300); size_t sl = sizeof sg; rbytes(m, ml); EVP_MD_CTX *mc = EVP_MD_CTX_new(), *vc = EVP_MD_CTX_new(); const EVP_MD *md = ENGINE_get_digest(nat_engine(), NID_dstu34311);
            if (EVP_DigestSignInit(mc, NULL, md, nat_engine(), p) <= 0 || EVP_DigestSignUpdate(mc, m, ml) <= 0 || EVP_DigestSignFinal(mc, sg, &sl) <= 0) { fail("DigestSign"); DIE(); }
            if (EVP_DigestVerifyInit(vc, NULL, md, nat_engine(), p) <= 0 || EVP_DigestVerifyUpdate(vc, m, ml) <= 0 || EVP_DigestVerifyFinal(vc, sg, sl) != 1) { fail("own message signature does not verify"); DIE(); }
            EVP_MD_CTX_free(vc); vc = EVP_MD_CTX_new(); EVP_DigestVerifyInit(vc, NULL, md, nat_engine(), p); EVP_DigestVerifyUpdate(vc, m, ml); EVP_DigestVerifyUpdate(vc, "x", 1); if (EVP_DigestVerifyFinal(vc, sg, sl) == 1) { fail("another message verifies"); DIE(); }
            EVP_MD_CTX_free(mc); EVP_MD_CTX_free(vc); (void)w; ERR_clear_error();
        }
        EVP_PKEY_free(p); BN_free(d);
    }
    return nat_done();
}
