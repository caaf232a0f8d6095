#define NAT_ENGINE
#include "nat.h"
#include "params.h"
#include "key.h"
#include "control.h"
#include "gost/gosthash.h"
#include <openssl/obj_mac.h>
static void unp(const uint8_t *p, spec_sbox *s) { for (int r = 0; r < 8; r++) for (int i = 0; i < 16; i++) s->row[r][i] = i & 1 ? p[8 * r + i / 2] & 15 : p[8 * r + i / 2] >> 4; }
static const EVP_MD *MD;
static void chk(EVP_MD_CTX *c, const spec_sbox *s, const uint8_t *m, int n, const char *what)
{ uint8_t o[64], w[32]; unsigned l = 0; spec_hash(s, m, n, w); if (!EVP_DigestFinal_ex(c, o, &l) || l != 32 || memcmp(o, w, 32)) { fail("%s, %d bytes", what, n); hexs("msg", m, n); hexs("sbox", s, 128); hexs("want", w, 32); hexs("got", o, 32); DIE(); } }
static EVP_PKEY *mkkey(const uint8_t *sb, int nid)
{
    DSTU_KEY *k = DSTU_KEY_new(); EC_GROUP *g = group_from_named_curve(0); EC_KEY_set_group(k->ec, g); EC_GROUP_free(g);
    if (!dstu_generate_key(k->ec)) { fail("keygen"); DIE(); }
    if (sb) DSTU_KEY_set(k, NULL, copy_sbox(sb));
    EVP_PKEY *p = EVP_PKEY_new(); if (!EVP_PKEY_assign(p, nid, k)) { fail("assign"); DIE(); } return p;
}
static void one(void)
{
    uint8_t m[600], m2[600], sb[64], sb2[64]; spec_sbox s, s2, def; rbytes(m, sizeof m); rbytes(m2, sizeof m2); rbytes(sb, 64); rbytes(sb2, 64); unp(sb, &s); unp(sb2, &s2); unp(default_sbox, &def);
    EVP_MD_CTX *a = EVP_MD_CTX_new(), *b = EVP_MD_CTX_new();
    int n = rn(200), k = rn(200), k2 = rn(200), cust = rn(2);
    EVP_DigestInit_ex(a, MD, nat_engine());
    if (cust && EVP_MD_CTX_ctrl(a, DSTU_SET_CUSTOM_SBOX, 64, sb) <= 0) { fail("S-box control refused"); DIE(); }
    if (cust) { memset(sb, 0, 64); }
    const spec_sbox *S = cust ? &s : &def;
    EVP_DigestUpdate(a, m, n);
    if (EVP_MD_CTX_ctrl(a, DSTU_SET_CUSTOM_SBOX, 63, sb2) > 0 || EVP_MD_CTX_ctrl(a, DSTU_SET_CUSTOM_SBOX, 64, NULL) > 0 || EVP_MD_CTX_ctrl(a, DSTU_SET_CUSTOM_SBOX, 65, sb2) > 0 || EVP_MD_CTX_ctrl(a, DSTU_SET_CUSTOM_SBOX + 7, 64, sb2) > 0) { fail("bad S-box control accepted"); DIE(); }
    if (rn(2)) { EVP_DigestInit_ex(b, MD, nat_engine()); EVP_DigestUpdate(b, m2, k2); }          /* target already in use */
    if (!EVP_MD_CTX_copy_ex(b, a)) { fail("copy"); DIE(); }
    /* diverge, interleaved, one of them with another S-box and freed first */
    memcpy(m2, m, n); rbytes(m2 + n, sizeof m2 - n);
    int how = rn(4);
    if (how == 0) { EVP_DigestUpdate(b, m2 + n, k2); EVP_DigestUpdate(a, m + n, k); chk(a, S, m, n + k, "source after copy"); chk(b, S, m2, n + k2, "copy"); }
    else if (how == 1) { EVP_DigestUpdate(a, m + n, k); chk(a, S, m, n + k, "source after copy"); EVP_MD_CTX_free(a); a = NULL; EVP_DigestUpdate(b, m2 + n, k2); chk(b, S, m2, n + k2, "copy after the source is freed"); }
    else if (how == 2) { EVP_MD_CTX_ctrl(a, DSTU_SET_CUSTOM_SBOX, 64, sb2); EVP_DigestUpdate(b, m2 + n, k2); chk(b, S, m2, n + k2, "copy, source's S-box changed"); }
    else { EVP_MD_CTX_ctrl(b, DSTU_SET_CUSTOM_SBOX, 64, sb2); EVP_DigestUpdate(a, m + n, k); chk(a, S, m, n + k, "source, copy's S-box changed"); }
    if (a) { EVP_DigestInit_ex(a, MD, nat_engine()); EVP_DigestUpdate(a, m, k); chk(a, &def, m, k, "reused context"); EVP_MD_CTX_free(a); }
    { int p = rn(32), q = rn(120); EVP_DigestInit_ex(b, MD, nat_engine()); EVP_DigestUpdate(b, m, p); EVP_MD_CTX_ctrl(b, DSTU_SET_CUSTOM_SBOX, 64, sb2); EVP_DigestUpdate(b, m + p, q); chk(b, &s2, m, p + q, "S-box set with octets waiting"); }
    EVP_MD_CTX_free(b);
    { EVP_MD_CTX *e = EVP_MD_CTX_new(), *f = EVP_MD_CTX_new(); EVP_DigestInit_ex(e, MD, nat_engine()); EVP_DigestInit_ex(f, MD, nat_engine());          /* copy of a fresh one, twice */
      EVP_MD_CTX_copy_ex(f, e); EVP_MD_CTX_copy_ex(e, f); EVP_DigestUpdate(e, m, n); EVP_DigestUpdate(f, m, k); chk(e, &def, m, n, "copied back"); chk(f, &def, m, k, "copied"); EVP_MD_CTX_free(e); EVP_MD_CTX_free(f); }
}
/* the digest used for signing is computed with the key's S-box: verified with a raw-hash signature check */
static void keyed(void)
{
    uint8_t m[300], sb[64], w[32], sig[256]; spec_sbox s; int n = rn(300), cust = rn(3) != 0; size_t sl = sizeof sig; rbytes(m, n); rbytes(sb, 64);
    unp(cust ? sb : default_sbox, &s); spec_hash(&s, m, n, w);
    EVP_PKEY *p = mkkey(cust ? sb : NULL, rn(2) ? NID_dstu4145le : NID_dstu4145be);
    EVP_MD_CTX *c = EVP_MD_CTX_new(), *d = EVP_MD_CTX_new();
    if (EVP_DigestSignInit(c, NULL, MD, nat_engine(), p) <= 0 || EVP_DigestSignUpdate(c, m, n) <= 0) { fail("sign init"); DIE(); }
    if (rn(2)) { EVP_MD_CTX_copy_ex(d, c); EVP_MD_CTX *t = c; c = d; d = t; }
    if (EVP_DigestSignFinal(c, sig, &sl) <= 0) { fail("sign"); DIE(); }
    EVP_PKEY_CTX *pc = EVP_PKEY_CTX_new(p, nat_engine());
    if (EVP_PKEY_verify_init(pc) <= 0 || EVP_PKEY_verify(pc, sig, sl, w, 32) != 1) { fail("signature is not over the hash with the key's S-box (custom=%d)", cust); hexs("msg", m, n); hexs("sbox", sb, 64); DIE(); }
    EVP_PKEY_CTX_free(pc); EVP_MD_CTX_free(c); EVP_MD_CTX_free(d); EVP_PKEY_free(p);
}
int main(int argc, char **argv)
{
    nat_init(argc, argv); MD = ENGINE_get_digest(nat_engine(), NID_dstu34311);
    if (EVP_MD_size(MD) != 32 || EVP_MD_block_size(MD) != 32) { fail("digest or block size"); DIE(); }
    while (more()) { one(); if (nat_cases % 40 == 0) keyed(); }
    return nat_done();
}
